/* Software stand-in for the part of CSFML the PC display and front end use.
 * Draw calls are rasterised into a 256x384 image (one pixel per screen dot,
 * sampled at the pixel centre); the fragment program is /repo's own
 * resources/bgsp.frag, compiled as C++ by shader.cpp. */
#include <SFML/Graphics.h>
#include <SFML/Window.h>
#include <SFML/System.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include "sfstub.h"

unsigned char sf_fb[FB_H][FB_W][3];
int sf_cleared, sf_displayed, sf_draws, sf_noshader;
int sf_live_tex, sf_live_va, sf_live_spr, sf_live_view, sf_live_shader, sf_live_win;
long sf_frags;
int (*sf_poll_hook)(void *event);
void (*sf_frame_hook)(void);
int (*sf_key_hook)(int code);
void (*sf_mouse_hook)(int *x, int *y, int *pressed);
int sf_win_w = 512, sf_win_h = 768, sf_open = 1;
int sf_blind;                               /* nothing is rasterised */

/* shader.cpp */
struct tex4 { int w, h; const unsigned char *px; };
void glsl_set_float(const char *n, float v);
void glsl_set_bool(const char *n, int v);
void glsl_set_sampler(const char *n, const struct tex4 *t);
void glsl_run(float u, float v, const float color[4], float out[4]);

struct sfTexture { int w, h; unsigned char *px; };
struct sfVertexArray { sfPrimitiveType type; size_t n, cap; sfVertex *v; };
struct sfSprite { const sfTexture *tex; sfVector2f pos, scale; };
struct sfView { sfFloatRect rect, port; };
struct sfShader { int n; struct { char name[32]; int kind; float f; const sfTexture *t; } u[16]; };
struct sfRenderWindow { sfView view; };

sfColor sfBlack = {0, 0, 0, 255}, sfWhite = {255, 255, 255, 255}, sfTransparent = {0, 0, 0, 0};
const sfTransform sfTransform_Identity = {{1, 0, 0, 0, 1, 0, 0, 0, 1}};

/* ---- textures ---- */
sfTexture *sfTexture_create(unsigned w, unsigned h) {
	sfTexture *t = malloc(sizeof *t);
	t->w = (int)w; t->h = (int)h; t->px = malloc((size_t)w * h * 4 + 1);
	++sf_live_tex;
	return t;
}
void sfTexture_destroy(sfTexture *t) { if (!t) return; free(t->px); free(t); --sf_live_tex; }
void sfTexture_updateFromPixels(sfTexture *t, const sfUint8 *p, unsigned w, unsigned h, unsigned x, unsigned y) {
	if ((int)(x + w) > t->w || (int)(y + h) > t->h) abort();
	for (unsigned j = 0; j < h; ++j) memcpy(t->px + ((size_t)(y + j) * t->w + x) * 4, p + (size_t)j * w * 4, (size_t)w * 4);
}
sfVector2u sfTexture_getSize(const sfTexture *t) { return (sfVector2u){(unsigned)t->w, (unsigned)t->h}; }
void sfTexture_setSmooth(sfTexture *t, sfBool b) { (void)t; if (b) abort(); }
void sfTexture_setRepeated(sfTexture *t, sfBool b) { (void)t; if (b) abort(); }

/* ---- vertex arrays ---- */
sfVertexArray *sfVertexArray_create(void) { ++sf_live_va; return calloc(1, sizeof(sfVertexArray)); }
void sfVertexArray_destroy(sfVertexArray *a) { if (!a) return; free(a->v); free(a); --sf_live_va; }
size_t sfVertexArray_getVertexCount(const sfVertexArray *a) { return a->n; }
void sfVertexArray_clear(sfVertexArray *a) { a->n = 0; }
void sfVertexArray_resize(sfVertexArray *a, size_t n) {
	/* exactly sized so that ASan sees an index past the end */
	sfVertex *v = malloc(n * sizeof *v + 1);
	size_t k = a->n < n ? a->n : n;
	if (k) memcpy(v, a->v, k * sizeof *v);
	for (size_t i = k; i < n; ++i) v[i] = (sfVertex){{0, 0}, {255, 255, 255, 255}, {0, 0}};
	free(a->v);
	a->v = v; a->n = a->cap = n;
}
void sfVertexArray_append(sfVertexArray *a, sfVertex x) {
	if (a->n == a->cap) { a->cap = a->cap * 2 + 64; a->v = realloc(a->v, a->cap * sizeof *a->v); }
	a->v[a->n++] = x;
}
sfVertex *sfVertexArray_getVertex(sfVertexArray *a, size_t i) { return &a->v[i]; }
void sfVertexArray_setPrimitiveType(sfVertexArray *a, sfPrimitiveType t) { a->type = t; }
sfPrimitiveType sfVertexArray_getPrimitiveType(sfVertexArray *a) { return a->type; }

/* ---- sprites ---- */
sfSprite *sfSprite_create(void) { sfSprite *s = calloc(1, sizeof *s); s->scale = (sfVector2f){1, 1}; ++sf_live_spr; return s; }
void sfSprite_destroy(sfSprite *s) { if (!s) return; free(s); --sf_live_spr; }
void sfSprite_setTexture(sfSprite *s, const sfTexture *t, sfBool reset) { (void)reset; s->tex = t; }
void sfSprite_setPosition(sfSprite *s, sfVector2f p) { s->pos = p; }
void sfSprite_setScale(sfSprite *s, sfVector2f p) { s->scale = p; }

/* ---- views ---- */
sfView *sfView_createFromRect(sfFloatRect r) { sfView *v = malloc(sizeof *v); v->rect = r; v->port = (sfFloatRect){0, 0, 1, 1}; ++sf_live_view; return v; }
sfView *sfView_create(void) { return sfView_createFromRect((sfFloatRect){0, 0, 1000, 1000}); }
void sfView_destroy(sfView *v) { if (!v) return; free(v); --sf_live_view; }
void sfView_setViewport(sfView *v, sfFloatRect r) { v->port = r; }
void sfView_reset(sfView *v, sfFloatRect r) { v->rect = r; }
void sfView_setSize(sfView *v, sfVector2f s) { v->rect.width = s.x; v->rect.height = s.y; }
void sfView_setCenter(sfView *v, sfVector2f c) { v->rect.left = c.x - v->rect.width / 2; v->rect.top = c.y - v->rect.height / 2; }

/* ---- shaders ---- */
sfBool sfShader_isAvailable(void) { return sfTrue; }
sfShader *sfShader_createFromFile(const char *a, const char *b, const char *c) { (void)a; (void)b; (void)c; ++sf_live_shader; return calloc(1, sizeof(sfShader)); }
void sfShader_destroy(sfShader *s) { if (!s) return; free(s); --sf_live_shader; }
static void uni(sfShader *s, const char *n, int kind, float f, const sfTexture *t) {
	int i = 0;
	while (i < s->n && strcmp(s->u[i].name, n)) ++i;
	if (i == s->n) { if (i == 16) abort(); ++s->n; strncpy(s->u[i].name, n, 31); }
	s->u[i].kind = kind; s->u[i].f = f; s->u[i].t = t;
}
void sfShader_setFloatUniform(sfShader *s, const char *n, float f) { uni(s, n, 0, f, NULL); }
void sfShader_setFloatParameter(sfShader *s, const char *n, float f) { uni(s, n, 0, f, NULL); }
void sfShader_setBoolUniform(sfShader *s, const char *n, sfBool b) { uni(s, n, 1, b ? 1 : 0, NULL); }
void sfShader_setIntUniform(sfShader *s, const char *n, int i) { uni(s, n, 0, (float)i, NULL); }
void sfShader_setTextureUniform(sfShader *s, const char *n, const sfTexture *t) { uni(s, n, 2, 0, t); }
void sfShader_setCurrentTextureUniform(sfShader *s, const char *n) { uni(s, n, 3, 0, NULL); }

/* ---- transforms, states ---- */
void sfTransform_translate(sfTransform *t, float x, float y) {
	float *m = t->matrix;
	m[2] += m[0] * x + m[1] * y;
	m[5] += m[3] * x + m[4] * y;
}
void sfTransform_scale(sfTransform *t, float x, float y) { float *m = t->matrix; m[0] *= x; m[3] *= x; m[1] *= y; m[4] *= y; }
sfRenderStates sfRenderStates_default(void) {
	sfRenderStates r;
	memset(&r, 0, sizeof r);
	r.transform = sfTransform_Identity;
	return r;
}

/* ---- rasteriser ---- */
static struct { const sfRenderStates *st; const sfView *view; const sfTexture *tex; } D;
static struct tex4 T4[16];
static int fbx(double v) { double f = floor(v); return f < -100000 ? -100000 : f > 100000 ? 100000 : (int)f; }
static void begin(sfRenderWindow *w, const sfRenderStates *st, const sfTexture *tex) {
	D.st = st; D.view = &w->view; D.tex = tex;
	++sf_draws;
	const sfShader *s = st->shader;
	if (!s) { ++sf_noshader; return; }
	for (int i = 0; i < s->n; ++i) {
		const sfTexture *t = s->u[i].kind == 3 ? tex : s->u[i].t;
		if (s->u[i].kind >= 2) {
			if (t) T4[i] = (struct tex4){t->w, t->h, t->px}; else T4[i] = (struct tex4){0, 0, NULL};
			glsl_set_sampler(s->u[i].name, &T4[i]);
		} else if (s->u[i].kind == 1) glsl_set_bool(s->u[i].name, s->u[i].f != 0);
		else glsl_set_float(s->u[i].name, s->u[i].f);
	}
}
struct vx { double x, y, u, v; };
static void frag(int x, int y, double u, double v, sfColor c) {
	float col[4] = {c.r / 255.f, c.g / 255.f, c.b / 255.f, c.a / 255.f}, o[4];
	++sf_frags;
	if (!D.st->shader) return;
	glsl_run(D.tex ? (float)(u / D.tex->w) : 0, D.tex ? (float)(v / D.tex->h) : 0, col, o);
	for (int k = 0; k < 3; ++k) {
		float a = o[3] < 0 ? 0 : o[3] > 1 ? 1 : o[3];
		sf_fb[y][x][k] = (unsigned char)lrintf(255 * (o[k] * a) + sf_fb[y][x][k] * (1 - a));
	}
}
static double inside(double u, double a, double b, double c) {
	double lo = fmin(a, fmin(b, c)) + .001, hi = fmax(a, fmax(b, c)) - .001;
	return lo > hi ? u : u < lo ? lo : u > hi ? hi : u;
}
static void quad(const sfVertex *q, int n) {
	if (sf_blind) return;
	struct vx v[4];
	const float *m = D.st->transform.matrix;
	const sfFloatRect *r = &D.view->rect, *p = &D.view->port;
	double px = p->left * FB_W, py = p->top * FB_H, pw = p->width * FB_W, ph = p->height * FB_H;
	double minx = 1e9, miny = 1e9, maxx = -1e9, maxy = -1e9;
	for (int i = 0; i < n; ++i) {
		double x = m[0] * q[i].position.x + m[1] * q[i].position.y + m[2];
		double y = m[3] * q[i].position.x + m[4] * q[i].position.y + m[5];
		v[i] = (struct vx){px + (x - r->left) / r->width * pw, py + (y - r->top) / r->height * ph, q[i].texCoords.x, q[i].texCoords.y};
		if (v[i].x < minx) minx = v[i].x;
		if (v[i].x > maxx) maxx = v[i].x;
		if (v[i].y < miny) miny = v[i].y;
		if (v[i].y > maxy) maxy = v[i].y;
	}
	int x0 = fbx(minx), x1 = fbx(maxx) + 1, y0 = fbx(miny), y1 = fbx(maxy) + 1;
	if (x0 < fbx(px)) x0 = fbx(px);
	if (y0 < fbx(py)) y0 = fbx(py);
	if (x1 > fbx(px + pw)) x1 = fbx(px + pw);
	if (y1 > fbx(py + ph)) y1 = fbx(py + ph);
	for (int y = y0; y < y1; ++y) for (int x = x0; x < x1; ++x) {
		if (x < 0 || y < 0 || x >= FB_W || y >= FB_H) continue;
		double cx = x + .5 + 1 / 4099., cy = y + .5 + 1 / 3001.; /* off any edge between whole coordinates, as fill rules are up to the driver */
		for (int t = 0; t + 2 < n; ++t) {
			struct vx *A = &v[0], *B = &v[t + 1], *C = &v[t + 2];
			double area = (B->x - A->x) * (C->y - A->y) - (B->y - A->y) * (C->x - A->x);
			if (area == 0) continue;
			double wa = ((B->x - cx) * (C->y - cy) - (B->y - cy) * (C->x - cx)) / area;
			double wb = ((C->x - cx) * (A->y - cy) - (C->y - cy) * (A->x - cx)) / area;
			double wc = 1 - wa - wb;
			if (wa < -1e-9 || wb < -1e-9 || wc < -1e-9) continue;
			/* a dot next to an edge keeps to the part of the texture that the triangle covers */
			frag(x, y, inside(wa * A->u + wb * B->u + wc * C->u, A->u, B->u, C->u), inside(wa * A->v + wb * B->v + wc * C->v, A->v, B->v, C->v), q[0].color);
			break;
		}
	}
}

/* ---- window ---- */
static void event_free(void) {}
sfRenderWindow *sfRenderWindow_create(sfVideoMode m, const char *t, sfUint32 st, const sfContextSettings *s) {
	(void)t; (void)st; (void)s; event_free();
	sf_win_w = (int)m.width; sf_win_h = (int)m.height;
	sfRenderWindow *w = calloc(1, sizeof *w);
	w->view.rect = (sfFloatRect){0, 0, (float)m.width, (float)m.height};
	w->view.port = (sfFloatRect){0, 0, 1, 1};
	++sf_live_win;
	sf_open = 1;
	return w;
}
void sfRenderWindow_destroy(sfRenderWindow *w) { if (!w) return; free(w); --sf_live_win; }
void sfRenderWindow_close(sfRenderWindow *w) { (void)w; sf_open = 0; }
sfBool sfRenderWindow_isOpen(const sfRenderWindow *w) { (void)w; return sf_open; }
void sfRenderWindow_setFramerateLimit(sfRenderWindow *w, unsigned l) { (void)w; (void)l; }
void sfRenderWindow_setVerticalSyncEnabled(sfRenderWindow *w, sfBool l) { (void)w; (void)l; }
sfVector2u sfRenderWindow_getSize(const sfRenderWindow *w) { (void)w; return (sfVector2u){(unsigned)sf_win_w, (unsigned)sf_win_h}; }
sfBool sfRenderWindow_pollEvent(sfRenderWindow *w, sfEvent *e) { (void)w; return sf_poll_hook ? sf_poll_hook(e) : 0; }
sfBool sfKeyboard_isKeyPressed(sfKeyCode k) { return sf_key_hook ? sf_key_hook((int)k) : 0; }
sfBool sfMouse_isButtonPressed(sfMouseButton b) { int x = 0, y = 0, p = 0; if (sf_mouse_hook) sf_mouse_hook(&x, &y, &p); return p >> (int)b & 1; }
sfVector2i sfMouse_getPosition(const sfWindow *w) { (void)w; int x = 0, y = 0, p = 0; if (sf_mouse_hook) sf_mouse_hook(&x, &y, &p); return (sfVector2i){x, y}; }
sfVector2i sfMouse_getPositionRenderWindow(const sfRenderWindow *w) { return sfMouse_getPosition((const sfWindow *)w); }
void sfRenderWindow_clear(sfRenderWindow *w, sfColor c) {
	(void)w;
	for (int y = 0; y < FB_H; ++y) for (int x = 0; x < FB_W; ++x) { sf_fb[y][x][0] = c.r; sf_fb[y][x][1] = c.g; sf_fb[y][x][2] = c.b; }
	++sf_cleared;
}
void sfRenderWindow_setView(sfRenderWindow *w, const sfView *v) { w->view = *v; }
void sfRenderWindow_drawVertexArray(sfRenderWindow *w, const sfVertexArray *a, const sfRenderStates *st) {
	begin(w, st, st->texture);
	if (a->n && a->type != sfQuads) abort();
	for (size_t i = 0; i + 3 < a->n; i += 4) quad(a->v + i, 4);
}
void sfRenderWindow_drawSprite(sfRenderWindow *w, const sfSprite *s, const sfRenderStates *st) {
	begin(w, st, s->tex);
	float tw = (float)s->tex->w, th = (float)s->tex->h, x = s->pos.x, y = s->pos.y;
	sfVertex q[4] = {{{x, y}, sfWhite, {0, 0}}, {{x + tw * s->scale.x, y}, sfWhite, {tw, 0}},
		{{x + tw * s->scale.x, y + th * s->scale.y}, sfWhite, {tw, th}}, {{x, y + th * s->scale.y}, sfWhite, {0, th}}};
	quad(q, 4);
}
void sfRenderWindow_display(sfRenderWindow *w) { (void)w; ++sf_displayed; if (sf_frame_hook) sf_frame_hook(); }
