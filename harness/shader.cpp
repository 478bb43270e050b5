// /repo's fragment shader, compiled as C++: just enough GLSL for it.
#include <math.h>
#include <string.h>
struct tex4 { int w, h; const unsigned char *px; };
namespace glsl {
struct vec2 { union { float x, r, s; }; union { float y, g, t; }; vec2() : x(0), y(0) {} vec2(float a, float b) : x(a), y(b) {} };
struct vec3 { union { float x, r; }; union { float y, g; }; union { float z, b; }; vec3() : x(0), y(0), z(0) {} vec3(float a, float c, float d) : x(a), y(c), z(d) {} };
struct vec4 {
	union {
		struct { float x, y, z, w; };
		struct { float r, g, b, a; };
		struct { float s, t, p, q; };
		vec2 xy, st, rg;
		vec3 xyz, rgb;
	};
	vec4() : x(0), y(0), z(0), w(0) {}
	explicit vec4(float v) : x(v), y(v), z(v), w(v) {}
	vec4(float A, float B, float C, float D) : x(A), y(B), z(C), w(D) {}
	vec4(const vec4 &o) : x(o.x), y(o.y), z(o.z), w(o.w) {}
	vec4 &operator=(const vec4 &o) { x = o.x; y = o.y; z = o.z; w = o.w; return *this; }
};
static inline vec4 operator*(const vec4 &a, const vec4 &b) { return vec4(a.x * b.x, a.y * b.y, a.z * b.z, a.w * b.w); }
static inline vec4 operator*(const vec4 &a, float b) { return vec4(a.x * b, a.y * b, a.z * b, a.w * b); }
static inline vec4 operator+(const vec4 &a, const vec4 &b) { return vec4(a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w); }
struct sampler2D { const tex4 *t; };
static inline int at(float v, int n) { int i = (int)floorf(v * n); return i < 0 ? 0 : i >= n ? n - 1 : i; }
static vec4 texture2D(const sampler2D &s, vec2 p) {
	if (!s.t || !s.t->px) return vec4(0, 0, 0, 1);
	const unsigned char *c = s.t->px + 4 * (at(p.y, s.t->h) * (long)s.t->w + at(p.x, s.t->w));
	return vec4(c[0] / 255.f, c[1] / 255.f, c[2] / 255.f, c[3] / 255.f);
}
static inline float mix(float a, float b, float t) { return a + (b - a) * t; }
static inline vec4 mix(const vec4 &a, const vec4 &b, float t) { return a + (b + a * -1.f) * t; }
static inline float step(float e, float x) { return x < e ? 0.f : 1.f; }
static inline float clamp(float v, float a, float b) { return v < a ? a : v > b ? b : v; }
static inline float min(float a, float b) { return a < b ? a : b; }
static inline float max(float a, float b) { return a > b ? a : b; }
static inline float floor(float a) { return floorf(a); }
static inline float fract(float a) { return a - floorf(a); }
static vec4 gl_TexCoord[1], gl_Color, gl_FragColor;
#define uniform static
#define main shader_main
#define discard return
#include "shader_src.inc"
#undef main
static void set_any(float &d, float v) { d = v; }
static void set_any(bool &d, float v) { d = v != 0; }
static void set_any(int &d, float v) { d = (int)v; }
static void set_any(sampler2D &, float) {}
static void set_tex(sampler2D &d, const tex4 *t) { d.t = t; }
template <class T> static void set_tex(T &, const tex4 *) {}
}
extern "C" {
#define U(name) if (!strcmp(n, #name)) glsl::set_any(glsl::name, v);
void glsl_set_float(const char *n, float v) {
#include "shader_uni.inc"
}
void glsl_set_bool(const char *n, int b) { float v = b ? 1.f : 0.f;
#include "shader_uni.inc"
}
#undef U
#define U(name) if (!strcmp(n, #name)) glsl::set_tex(glsl::name, v);
void glsl_set_sampler(const char *n, const tex4 *v) {
#include "shader_uni.inc"
}
void glsl_run(float u, float v, const float c[4], float o[4]) {
	using namespace glsl;
	gl_TexCoord[0] = vec4(u, v, 0, 1);
	gl_Color = vec4(c[0], c[1], c[2], c[3]);
	gl_FragColor = vec4(0, 0, 0, 0);
	shader_main();
	o[0] = gl_FragColor.x; o[1] = gl_FragColor.y; o[2] = gl_FragColor.z; o[3] = gl_FragColor.w;
}
}
