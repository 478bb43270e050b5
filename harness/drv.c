/* Case driver: links the real interpreter (all of /repo/source except the SFML
 * front end) and executes scripted cases, each in a forked child, printing one
 * JSON observation per action.  The oracles live in Python; this file only
 * drives public entry points and reports what it saw. */
#define _GNU_SOURCE
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "arrays.h"
#include "common.h"
#include "compress.h"
#include "data.h"
#include "error.h"
#include "interpreter.h"
#include "label.h"
#include "program.h"
#include "ptc.h"
#include "sbc_blockalloc.h"
#include "system.h"
#include "tokens.h"
#include "vars.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
#include <sanitizer/asan_interface.h>
#endif

#ifndef MAX_MEMORY
#define MAX_MEMORY (8*1024*1024)
#endif
extern void *sbc_membase;

/* ---- display stubs (the SFML front end is not linked) ---- */
static int g_headless = 1;
#ifndef WITH_DISPLAY
struct display;
void init_display(struct ptc *p) { (void)p; }
void free_display(struct display *d) { (void)d; }
#endif

/* ---- arena red zones -------------------------------------------------- *
 * sbc_malloc is a bump allocator over one malloc block, so ASan cannot see
 * an overflow from one block into the next.  The linker's --wrap puts a
 * poisoned gap after every block. */
static int g_redzone = 1;
void *__real_sbc_malloc(int size);
void *__real_sbc_calloc(int count, int size);
void __real_reset_memory(void);
#define RZ 64
static void *rz_alloc(long size, int zero) {
	if (!g_redzone) return zero ? __real_sbc_calloc(1, (int)size) : __real_sbc_malloc((int)size);
	/* keep blocks 16 aligned, put RZ poisoned bytes behind the payload */
	char *raw = __real_sbc_malloc((int)(size + RZ + 16));
	char *p = (char *)(((uintptr_t)raw + 15) & ~(uintptr_t)15);
#ifdef HAVE_ASAN
	__asan_unpoison_memory_region(raw, (size_t)(size + RZ + 16));
	if (zero && size > 0) memset(p, 0, (size_t)size);
	__asan_poison_memory_region(p + size, (size_t)(raw + size + RZ + 16 - (p + size)));
#else
	if (zero && size > 0) memset(p, 0, (size_t)size);
#endif
	return p;
}
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define HAVE_MSAN 1
#endif
#endif
static long long g_arena;      /* asked of the block allocator, which gives nothing back */
void *__wrap_sbc_malloc(int size) {
	g_arena += size;
	void *p = rz_alloc(size, 0);
#ifdef HAVE_MSAN
	if (p && size > 0) __msan_poison(p, (size_t)size);
#endif
	return p;
}
void *__wrap_sbc_calloc(int count, int size) {
	g_arena += (long long)count * size;
	if (!g_redzone) return __real_sbc_calloc(count, size);
	return rz_alloc((long)count * size, 1);
}
void __wrap_reset_memory(void) {
	g_arena = 0;
#ifdef HAVE_ASAN
	if (sbc_membase) __asan_unpoison_memory_region(sbc_membase, MAX_MEMORY);
#endif
	__real_reset_memory();
}

/* ---- output ---------------------------------------------------------- */
static void out(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	vfprintf(stdout, fmt, ap);
	va_end(ap);
}
static void outhex(const void *d, size_t n) {
	static const char h[] = "0123456789abcdef";
	const unsigned char *b = d;
	for (size_t i = 0; i < n; ++i) { putchar(h[b[i] >> 4]); putchar(h[b[i] & 15]); }
}
static void outhex16(const u16 *d, size_t n) {
	for (size_t i = 0; i < n; ++i) out("%04x", d[i]);
}

static int hexval(int c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
/* decodes into exactly sized heap memory so that reads past the end trap */
static unsigned char *unhex(const char *s, size_t *n) {
	size_t l = s ? strlen(s) : 0;
	if (l == 1 && s[0] == '-') l = 0;
	unsigned char *b = malloc(l / 2 ? l / 2 : 1);
	for (size_t i = 0; i + 1 < l; i += 2) b[i / 2] = (unsigned char)(hexval(s[i]) << 4 | hexval(s[i + 1]));
	*n = l / 2;
	return b;
}

/* ---- file system calls of the code under test: recorded, and made to fail on request ---- */
#include <dirent.h>
static char *g_paths[4096];
static int g_npaths, g_rec, g_fault, g_fault_n;
static void rec(const char *op, const char *path) {
	if (!g_rec || g_npaths >= 4096) return;
	char b[5000];
	snprintf(b, sizeof b, "%s%s", op, path);
	g_paths[g_npaths++] = strdup(b);
}
FILE *__real_fopen(const char *p, const char *m);
struct shaky { FILE *f; long left; };
static ssize_t shaky_read(void *c, char *b, size_t n) {
	struct shaky *s = c;
	long left = s->left - ftell(s->f); /* bytes up to the bad spot */
	if (left <= 0) { errno = EIO; return -1; }
	if ((long)n > left) n = (size_t)left;
	return (ssize_t)fread(b, 1, n, s->f);
}
static int shaky_seek(void *c, off64_t *o, int w) {
	struct shaky *s = c;
	if (fseek(s->f, (long)*o, w)) return -1;
	*o = ftell(s->f);
	return 0;
}
static int shaky_close(void *c) { struct shaky *s = c; int r = fclose(s->f); free(s); return r; }
FILE *__wrap_fopen(const char *p, const char *m) {
	if (!g_rec) return __real_fopen(p, m);
	rec(*m == 'r' ? "r" : "w", p);
	if (*m != 'r' && (*p == '/' || strstr(p, ".."))) { errno = EACCES; return NULL; } /* recorded; nothing real is touched */
	if (g_fault == 1) { errno = EMFILE; return NULL; }            /* no descriptor */
	if (g_fault == 2 && *m != 'r') return __real_fopen("/dev/full", m); /* no space */
	FILE *f = __real_fopen(p, m);
	if (g_fault == 3 && f && *m == 'r') {                        /* read error after some bytes */
		struct shaky *s = malloc(sizeof *s);
		*s = (struct shaky){f, g_fault_n};
		return fopencookie(s, "r", (cookie_io_functions_t){.read = shaky_read, .seek = shaky_seek, .close = shaky_close});
	}
	return f;
}
FILE *__real_freopen(const char *p, const char *m, FILE *f);
FILE *__wrap_freopen(const char *p, const char *m, FILE *f) { rec("w", p ? p : ""); return __real_freopen(p, m, f); }
DIR *__real_opendir(const char *p);
DIR *__wrap_opendir(const char *p) { rec("d", p); return g_rec && g_fault == 1 ? NULL : __real_opendir(p); }
int __real_remove(const char *p);
int __wrap_remove(const char *p) { rec("x", p); if (g_rec) { errno = EACCES; return -1; } return __real_remove(p); }
int __real_unlink(const char *p);
int __wrap_unlink(const char *p) { rec("x", p); if (g_rec) { errno = EACCES; return -1; } return __real_unlink(p); }
int __real_rename(const char *a, const char *b);
int __wrap_rename(const char *a, const char *b) { rec("x", a); rec("x", b); if (g_rec) { errno = EACCES; return -1; } return __real_rename(a, b); }
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...) {
	va_list ap;
	va_start(ap, fl);
	int mode = va_arg(ap, int);
	va_end(ap);
	rec((fl & O_ACCMODE) == O_RDONLY ? "r" : "w", p);
	if (g_rec && (fl & O_ACCMODE) != O_RDONLY && (*p == '/' || strstr(p, ".."))) { errno = EACCES; return -1; }
	return __real_open(p, fl, mode);
}
static void act_paths(void) {
	out("{\"t\":\"paths\",\"v\":[");
	for (int i = 0; i < g_npaths; ++i) { out("%s\"", i ? "," : ""); outhex(g_paths[i], strlen(g_paths[i])); out("\""); free(g_paths[i]); }
	g_npaths = 0;
	out("]}\n");
}

/* ---- system under test ------------------------------------------------ */
static struct ptc *P;
static struct bytecode BC;
static char g_cwd[4096];
static int g_soft_expired;
static unsigned g_seed = 2166136261u;

static void sys_up(int var, int str, int arr) {
	if (!sbc_membase) init_memory(MAX_MEMORY);
	P = init_system(var, str, arr, g_headless);
	srand(g_seed); /* RND is the same whenever the case is replayed */
	P->res.search_path = "programs/";
	resource_path = "resources/";
	P->console.test_mode = true;
	init_mem_prg(&P->exec.prg, MAX_SOURCE_SIZE);
	BC = init_bytecode_size(MAX_SOURCE_SIZE, MAX_LINES, MAX_LABELS);
}
static void sys_down(void) {
	if (!P) return;
	free_bytecode(BC);
	free_log("prg", P->exec.prg.data);
	free_system(P);
	reset_memory();
	P = NULL;
}
static struct ptc *need(void) {
	if (!P) sys_up(VAR_LIMIT, STR_LIMIT, ARR_LIMIT);
	return P;
}

static void out_str(const void *s) {
	if (!s) { out("null"); return; }
	u32 n = str_len(s);
	out("\"");
	for (u32 i = 0; i < n && i < 1024; ++i) out("%04x", str_at_wide(s, (u16)i));
	out("\"");
}
static void out_ret(const char *tag) {
	char info[33];
	memcpy(info, P->exec.error_info, 32);
	info[32] = 0;
	out("{\"t\":\"%s\",\"err\":%u,\"info\":\"", tag, (unsigned)P->exec.error);
	outhex(info, strlen(info));
	out("\",\"calls\":%u,\"stack\":%u}\n", (unsigned)P->calls.stack_i, (unsigned)P->stack.stack_i);
}

/* frame pump used for programs which block in WAIT/VSYNC/INPUT */
static _Atomic int g_pump;
static pthread_t g_pump_thr;
static void *pump_main(void *a) {
	(void)a;
	while (atomic_load(&g_pump)) {
		inc_time(&P->time);
		nanosleep(&(struct timespec){.tv_nsec = 200000}, NULL);
	}
	return NULL;
}

static void on_soft(int s) {
	(void)s;
	/* same effect as the user closing the window: the interpreter loop
	 * notices the error code at the next instruction */
	g_soft_expired = 1;
	if (P) P->exec.error = ERR_SHUTDOWN;
}
static void soft_limit(int ms) {
	/* repeats: a statement can overwrite the error code */
	struct itimerval it = {{0, ms ? 2000 : 0}, {ms / 1000, (ms % 1000) * 1000}};
	setitimer(ITIMER_PROF, &it, NULL);
}

/* ---- virtual display thread ---- *
 * While the program waits (it sleeps, or polls the clock without end) the
 * frames of a script happen: keys, buttons, touch, then the clock - what the
 * loop in main.c does in its own thread, without depending on timing. */
static char *g_script, *g_script_next;
static int g_script_on, g_idle, g_polls, g_nframes;
static char *g_flog; static size_t g_flog_n, g_flog_cap;
static void flog(const char *fmt, ...) {
	if (g_flog_n + 600 > g_flog_cap) g_flog = realloc(g_flog, g_flog_cap = g_flog_cap * 2 + 4096);
	va_list ap;
	va_start(ap, fmt);
	g_flog_n += (size_t)vsnprintf(g_flog + g_flog_n, 600, fmt, ap);
	va_end(ap);
}
static void (*g_each_frame)(void);
static void one_frame(void) {
	struct ptc *p = P;
	if (g_each_frame) g_each_frame();
	g_polls = 0;
	/* what the screen shows at the end of this frame */
	struct console *c = &p->console;
	int y = (int)c->y < CONSOLE_HEIGHT ? (int)c->y : CONSOLE_HEIGHT - 1, n = CONSOLE_WIDTH;
	flog("%s[%d,%d,\"", g_flog_n ? "," : "", (int)c->x, (int)c->y);
	while (n && !c->text[y][n - 1]) --n;
	for (int i = 0; i < n; ++i) flog("%04x", c->text[y][i]);
	flog("\"]");
	int mask = 0, touch = 0, tx = 0, ty = 0;
	char *s = g_script_next;
	if (s && *s) {
		for (; *s && *s != ';'; ) {
			if (*s == 'k') {
				u16 k = 0;
				for (int i = 1; i < 5; ++i) k = (u16)(k << 4 | hexval(s[i]));
				set_inkey(&p->input, k);
				s += 5;
			} else if (*s == 'b') { mask = (int)strtol(s + 1, &s, 10); }
			else if (*s == 't') { touch = 1; tx = (int)strtol(s + 1, &s, 10); ty = (int)strtol(s + 1, &s, 10); }
			else ++s;
		}
		g_script_next = *s ? s + 1 : s;
	} else if (--g_idle < 0) {
		g_soft_expired = 1;
		p->exec.error = ERR_SHUTDOWN;
	}
	++g_nframes;
	set_input(p, mask);
	set_touch(&p->input, touch, (u8)tx, (u8)ty);
	press_key(p, touch, tx, ty);
	step_sprites(&p->sprites);
	step_background(&p->background);
	inc_time(&p->time);
}
static int frame_slept(void) {
	if (!g_script_on || !P) return 0;
	one_frame();
	return 1;
}
#include <sched.h>
#include <threads.h>
int __real_thrd_sleep(const struct timespec *a, struct timespec *b);
int __wrap_thrd_sleep(const struct timespec *a, struct timespec *b) { return frame_slept() ? 0 : __real_thrd_sleep(a, b); }
void __real_thrd_yield(void);
void __wrap_thrd_yield(void) { if (!frame_slept()) __real_thrd_yield(); }
int __real_nanosleep(const struct timespec *a, struct timespec *b);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { return frame_slept() ? 0 : __real_nanosleep(a, b); }
int __real_usleep(unsigned n);
int __wrap_usleep(unsigned n) { return frame_slept() ? 0 : __real_usleep(n); }
int __real_sched_yield(void);
int __wrap_sched_yield(void) { return frame_slept() ? 0 : __real_sched_yield(); }
int64_t __real_get_time(struct timers *t);
int64_t __wrap_get_time(struct timers *t) {
	if (g_script_on && P && ++g_polls > 100000) one_frame();
	return __real_get_time(t);
}
/* ---- calendar clock: a fixed moment and zone when a case sets one ---- */
#include <sys/time.h>
static int g_clock_on; static time_t g_clock;
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t) { if (!g_clock_on) return __real_time(t); if (t) *t = g_clock; return g_clock; }
int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz) { if (!g_clock_on) return __real_gettimeofday(tv, tz); tv->tv_sec = g_clock; tv->tv_usec = 999999; return 0; }
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!g_clock_on || c != CLOCK_REALTIME) return __real_clock_gettime(c, ts); ts->tv_sec = g_clock; ts->tv_nsec = 999999999; return 0; }
int __real_timespec_get(struct timespec *ts, int base);
int __wrap_timespec_get(struct timespec *ts, int base) { if (!g_clock_on || base != TIME_UTC) return __real_timespec_get(ts, base); ts->tv_sec = g_clock; ts->tv_nsec = 999999999; return base; }
static void act_clock(long long t, const char *tz) { g_clock_on = 1; g_clock = (time_t)t; setenv("TZ", tz, 1); tzset(); }

static void act_frames(char *script, int idle) {
	free(g_script);
	g_script = script && strcmp(script, "-") ? strdup(script) : strdup("");
	g_script_next = g_script;
	g_script_on = 1; g_idle = idle; g_polls = 0; g_nframes = 0; g_flog_n = 0;
	need()->console.test_mode = false;
}
static void act_flog(void) {
	out("{\"t\":\"flog\",\"n\":%d,\"left\":%d,\"time\":%lld,\"v\":[", g_nframes, (int)strlen(g_script_next ? g_script_next : ""), (long long)__real_get_time(&P->time));
	if (g_flog_n) fwrite(g_flog, 1, g_flog_n, stdout);
	out("]}\n");
	g_flog_n = 0;
	g_nframes = 0;
}

static void do_prg(unsigned char *src, size_t n, int opts, int soft_ms) {
	struct ptc *p = need();
	if (n > MAX_SOURCE_SIZE) n = MAX_SOURCE_SIZE;
	memcpy(p->exec.prg.data, src, n);
	p->exec.prg.size = (idx)n;
	g_soft_expired = 0;
	if (soft_ms) soft_limit(soft_ms);
	g_rec = 1;
	token_and_run(p, &p->exec.prg, &BC, opts);
	g_rec = 0;
	if (soft_ms) soft_limit(0);
	if (g_soft_expired && P->exec.error == ERR_SHUTDOWN) P->exec.error = 9999;
	out_ret("run");
}

/* the interactive system: prompt, RUN, EDIT, until the script of frames ends.
 * It works on the system of this case; its programs are a file to start or what is typed. */
static void act_shell(char *file, int soft_ms) {
	struct launch_info info = {need(), NULL, file && strcmp(file, "-") ? file : NULL};
	g_soft_expired = 0;
	if (soft_ms) soft_limit(soft_ms);
	g_rec = 1;
	int r = launch_system(&info);
	g_rec = 0;
	if (soft_ms) soft_limit(0);
	if (g_soft_expired && P->exec.error == ERR_SHUTDOWN) P->exec.error = 9999;
	init_mem_prg(&P->exec.prg, MAX_SOURCE_SIZE);
	out("{\"t\":\"shell\",\"ret\":%d,\"left\":%d}\n", r, (int)strlen(g_script_next ? g_script_next : ""));
}

/* program in an exactly sized buffer (as DIRECT mode does) */
static void do_direct(unsigned char *src, size_t n, int opts, int soft_ms) {
	struct ptc *p = need();
	struct program prg = {(idx)n, (char *)src};
	g_soft_expired = 0;
	if (soft_ms) soft_limit(soft_ms);
	g_rec = 1;
	token_and_run(p, &prg, &BC, opts);
	g_rec = 0;
	if (soft_ms) soft_limit(0);
	if (g_soft_expired && P->exec.error == ERR_SHUTDOWN) P->exec.error = 9999;
	out_ret("run");
}

static int vtype(const char *name, int *len) {
	int n = (int)strlen(name);
	int t = VAR_NUMBER;
	if (n && name[n - 1] == '$') { t = VAR_STRING; --n; }
	*len = n;
	return t;
}

static void out_value(union value *v, int type) {
	if (type & VAR_STRING) out_str(v->ptr);
	else out("%d", v->number);
}

static void act_var(const char *name) {
	int len, t = vtype(name, &len);
	struct named_var *v = get_var(&need()->vars, (char *)name, (u32)len, (enum types)t);
	out("{\"t\":\"var\",\"n\":\"%s\",\"v\":", name);
	if (v) out_value(&v->value, t); else out("null");
	out("}\n");
}

static void out_arr(void *a, int t) {
	u32 d1 = arr_size(a, ARR_DIM1), d2 = arr_size(a, ARR_DIM2);
	out("\"d1\":%u,\"d2\":%d,\"v\":[", d1, d2 == ARR_DIM2_UNUSED ? -1 : (int)d2);
	unsigned long tot = (unsigned long)d1 * (d2 == ARR_DIM2_UNUSED ? 1 : d2);
	union value *d = arr_data(a);
	for (unsigned long i = 0; i < tot; ++i) { if (i) out(","); out_value(&d[i], t); }
	out("]");
}
static void act_arr(const char *name) {
	int len, t = vtype(name, &len);
	struct named_var *v = get_var(&need()->vars, (char *)name, (u32)len, (enum types)(t | VAR_ARRAY));
	out("{\"t\":\"arr\",\"n\":\"%s\",", name);
	if (v && v->value.ptr) out_arr(v->value.ptr, t); else out("\"v\":null");
	out("}\n");
}

static void act_vars(void) {
	struct ptc *p = need();
	out("{\"t\":\"vars\",\"count\":%u,\"v\":[", (unsigned)p->vars.var_count);
	int first = 1;
	for (unsigned i = 0; i < p->vars.vars_max; ++i) {
		struct named_var *v = &p->vars.vars[i];
		if (v->type == VAR_EMPTY) continue;
		char nm[17];
		memcpy(nm, v->name, 16);
		nm[16] = 0;
		out("%s[\"%s\",%d,%u,", first ? "" : ",", nm, v->type, i);
		first = 0;
		if (v->type & VAR_ARRAY) {
			if (v->value.ptr) { out("{"); out_arr(v->value.ptr, v->type); out("}"); } else out("null");
		} else out_value(&v->value, v->type);
		out("]");
	}
	out("]}\n");
}

/* string-pool monitor: recounts every reference reachable from variables,
 * arrays and system slots and compares with the recorded use counts */
static void act_pool(void) {
	struct ptc *p = need();
	unsigned max = (unsigned)p->strs.strs_max;
	unsigned *ref = calloc(max ? max : 1, sizeof *ref);
	int bad = 0;
	char why[200] = "";
	unsigned bytes = p->strs.type == STRING_WIDE ? 2 : 1;
#define REFER(ptrv) do { void *q_ = (ptrv); \
		if (q_ && (char *)q_ >= (char *)p->strs.strs && (char *)q_ < (char *)(p->strs.strs + max)) { \
			if (((char *)q_ - (char *)p->strs.strs) % sizeof(struct string)) { bad = 1; snprintf(why, sizeof why, "misplaced string pointer"); } \
			else ref[(struct string *)q_ - p->strs.strs]++; } } while (0)
	for (unsigned i = 0; i < p->vars.vars_max; ++i) {
		struct named_var *v = &p->vars.vars[i];
		if (!(v->type & VAR_STRING)) continue;
		if (v->type & VAR_ARRAY) {
			if (!v->value.ptr) continue;
			u32 d1 = arr_size(v->value.ptr, ARR_DIM1), d2 = arr_size(v->value.ptr, ARR_DIM2);
			unsigned long tot = (unsigned long)d1 * (d2 == ARR_DIM2_UNUSED ? 1 : d2);
			union value *d = arr_data(v->value.ptr);
			for (unsigned long k = 0; k < tot; ++k) REFER(d[k].ptr);
		} else REFER(v->value.ptr);
	}
	unsigned used = 0, refd = 0;
	for (unsigned i = 0; i < max; ++i) {
		struct string *s = &p->strs.strs[i];
		if (s->uses) ++used;
		if (ref[i]) ++refd;
		if (s->uses != ref[i] && !bad) {
			bad = 2;
			snprintf(why, sizeof why, "slot %u uses=%u references=%u len=%u", i, (unsigned)s->uses, ref[i], (unsigned)s->len);
		}
		if (ref[i] && s->len > MAX_STRLEN && bad != 3) { bad = 3; snprintf(why, sizeof why, "slot %u len=%u", i, (unsigned)s->len); }
		if (ref[i] && s->ptr.s != (u8 *)p->strs.str_data + (size_t)i * bytes * MAX_STRLEN && bad != 4) {
			bad = 4;
			snprintf(why, sizeof why, "slot %u storage moved", i);
		}
	}
	out("{\"t\":\"pool\",\"max\":%u,\"used\":%u,\"ref\":%u,\"bad\":%d,\"why\":\"%s\"}\n", max, used, refd, bad, why);
	free(ref);
}

static void act_con(void) {
	struct console *c = &need()->console;
	out("{\"t\":\"con\",\"x\":%d,\"y\":%d,\"col\":%d,\"tab\":%d,\"text\":\"", (int)c->x, (int)c->y, (int)c->col, (int)c->tabstep);
	for (int y = 0; y < CONSOLE_HEIGHT; ++y) for (int x = 0; x < CONSOLE_WIDTH; ++x) out("%04x", con_text_getc(c, x, y));
	out("\",\"color\":\"");
	for (int y = 0; y < CONSOLE_HEIGHT; ++y) for (int x = 0; x < CONSOLE_WIDTH; ++x) out("%02x", con_col_get(c, x, y));
	out("\"}\n");
}

static void act_grp(int page) {
	struct ptc *p = need();
	out("{\"t\":\"grp\",\"page\":%d,\"px\":\"", page);
	u8 *g = p->res.grp[page];
	u8 row[GRP_WIDTH];
	for (int y = 0; y < GRP_HEIGHT; ++y) {
		for (int x = 0; x < GRP_WIDTH; ++x) row[x] = g[grp_index(x, y)];
		outhex(row, GRP_WIDTH);
	}
	out("\"}\n");
}

/* the documented page layout: 64x64 blocks of 8x8 characters */
static int px_ofs(int x, int y) {
	return x % 8 + y % 8 * 8 + x / 8 % 8 * 64 + y / 8 % 8 * 512 + x / 64 * 4096 + y / 64 * 16384;
}

/* pixels that changed since the last call: [page, y, x, "new values"] */
static void act_grpdiff(void) {
	static u8 old[4][GRP_SIZE];
	static bool init;
	struct ptc *p = need();
	int first = 1;
	out("{\"t\":\"grpdiff\",\"v\":[");
	for (int g = 0; g < 4; ++g) {
		u8 *d = p->res.grp[g];
		if (init && !memcmp(old[g], d, GRP_SIZE)) continue;
		for (int y = 0; y < GRP_HEIGHT; ++y) for (int x = 0; x < GRP_WIDTH; ++x) {
			u8 row[GRP_WIDTH];
			int n = 0;
			while (x + n < GRP_WIDTH && d[px_ofs(x + n, y)] != old[g][px_ofs(x + n, y)]) { row[n] = d[px_ofs(x + n, y)]; ++n; }
			if (!n) continue;
			out("%s[%d,%d,%d,\"", first ? "" : ",", g, y, x);
			first = 0;
			outhex(row, n);
			out("\"]");
			x += n;
		}
		memcpy(old[g], d, GRP_SIZE);
	}
	init = true;
	out("]}\n");
}

/* tiles that changed since the last call in any screen bank: [bank, x, y, value]; bank 4*screen+2+layer is a BG layer */
static void act_bgdiff(void) {
	static u16 old[2*SCR_BANKS][64 * 64];
	struct ptc *p = need();
	int first = 1;
	out("{\"t\":\"bgdiff\",\"v\":[");
	for (int b = 0; b < 2*SCR_BANKS; ++b) for (int i = 0; i < 64 * 64; ++i) {
		u16 v = ((u16*)p->res.scr[b])[i];
		if (v == old[b][i]) continue;
		old[b][i] = v;
		out("%s[%d,%d,%d,%d]", first ? "" : ",", b, i % 32 + i / 1024 % 2 * 32, i / 32 % 32 + i / 2048 * 32, v);
		first = 0;
	}
	out("]}\n");
}

static void act_gstate(void) {
	struct graphics *g = &need()->graphics;
	out("{\"t\":\"gstate\",\"screen\":%d,\"color\":%d,\"mode\":%d,\"info\":[[%d,%d,%d],[%d,%d,%d]]}\n",
		(int)g->screen, (int)g->color, (int)g->drawmode,
		(int)g->info[0].drawpage, (int)g->info[0].displaypage, (int)g->info[0].prio,
		(int)g->info[1].drawpage, (int)g->info[1].displaypage, (int)g->info[1].prio);
}

static void act_bg(void) {
	struct ptc *p = need();
	struct background *b = &p->background;
	out("{\"t\":\"bg\",\"page\":%d,\"ofs\":[", (int)b->page);
	for (int s = 0; s < SCREEN_COUNT; ++s) for (int l = 0; l < BG_LAYERS; ++l) {
		struct bg_offset *o = &b->ofs[s][l];
		out("%s[%d,%d,%d,%d,%d]", s || l ? "," : "", (int)o->x, (int)o->y, (int)o->step_x, (int)o->step_y, (int)o->time);
	}
	out("],\"clip\":[");
	for (int s = 0; s < SCREEN_COUNT; ++s) out("%s[%d,%d,%d,%d]", s ? "," : "", (int)b->clip[s].x1, (int)b->clip[s].y1, (int)b->clip[s].x2, (int)b->clip[s].y2);
	out("]}\n");
}
static void act_tiles(int screen, int layer) {
	struct ptc *p = need();
	out("{\"t\":\"tiles\",\"s\":%d,\"l\":%d,\"v\":\"", screen, layer);
	for (int y = 0; y < BG_HEIGHT; ++y) for (int x = 0; x < BG_WIDTH; ++x)
		out("%04x", bg_tile(p, (uint_fast8_t)screen, (uint_fast8_t)layer, (uint_fast8_t)x, (uint_fast8_t)y));
	out("\"}\n");
}
static void act_scrbank(int bank) {
	struct ptc *p = need();
	out("{\"t\":\"scrbank\",\"b\":%d,\"v\":\"", bank);
	outhex(p->res.scr[bank], SCR_SIZE);
	out("\"}\n");
}
static void act_chrbank(int bank) {
	struct ptc *p = need();
	out("{\"t\":\"chrbank\",\"b\":%d,\"v\":\"", bank);
	outhex(p->res.chr[bank], CHR_SIZE);
	out("\"}\n");
}
static unsigned long long fnv(const void *d, size_t n) {
	const unsigned char *b = d;
	unsigned long long h = 1469598103934665603ULL;
	for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
	return h;
}
/* one fingerprint per resource bank: which banks changed? */
static void act_resfp(void) {
	struct ptc *p = need();
	out("{\"t\":\"resfp\",\"chr\":[");
	for (int i = 0; i < CHR_BANKS * SCREEN_COUNT; ++i) out("%s%llu", i ? "," : "", fnv(p->res.chr[i], CHR_SIZE));
	out("],\"scr\":[");
	for (int i = 0; i < SCR_BANKS * SCREEN_COUNT; ++i) out("%s%llu", i ? "," : "", fnv(p->res.scr[i], SCR_SIZE));
	out("],\"grp\":[");
	for (int i = 0; i < GRP_BANKS; ++i) out("%s%llu", i ? "," : "", fnv(p->res.grp[i], GRP_SIZE));
	out("],\"col\":[");
	for (int i = 0; i < COL_BANKS * SCREEN_COUNT; ++i) out("%s%llu", i ? "," : "", fnv(p->res.col[i], COL_SIZE));
	out("]}\n");
}
/* what changed in the resource memory since the last call (the first call only takes the copy):
 * chr: [bank, character, 32 bytes], col: [bank, colour, value], scr/grp: bank numbers, mem: "characters", length */
static void act_resdiff(void) {
	static u8 ochr[CHR_BANKS * SCREEN_COUNT][CHR_SIZE], oscr[SCR_BANKS * SCREEN_COUNT][SCR_SIZE], ogrp[GRP_BANKS][GRP_SIZE], omem[MEM_SIZE];
	static u16 ocol[COL_BANKS * SCREEN_COUNT][COL_SIZE / 2];
	static bool init;
	struct resources *r = &need()->res;
	int first = 1;
	out("{\"t\":\"resdiff\",\"chr\":[");
	for (int b = 0; b < CHR_BANKS * SCREEN_COUNT; ++b) {
		if (init && memcmp(ochr[b], r->chr[b], CHR_SIZE)) for (int c = 0; c < 256; ++c) {
			if (!memcmp(ochr[b] + c * 32, r->chr[b] + c * 32, 32)) continue;
			out("%s[%d,%d,\"", first ? "" : ",", b, c);
			outhex(r->chr[b] + c * 32, 32);
			out("\"]");
			first = 0;
		}
		memcpy(ochr[b], r->chr[b], CHR_SIZE);
	}
	first = 1;
	out("],\"col\":[");
	for (int b = 0; b < COL_BANKS * SCREEN_COUNT; ++b) {
		if (init) for (int c = 0; c < 256; ++c) if (ocol[b][c] != r->col[b][c]) { out("%s[%d,%d,%d]", first ? "" : ",", b, c, r->col[b][c]); first = 0; }
		memcpy(ocol[b], r->col[b], COL_SIZE);
	}
	first = 1;
	out("],\"scr\":[");
	for (int b = 0; b < SCR_BANKS * SCREEN_COUNT; ++b) {
		if (init && memcmp(oscr[b], r->scr[b], SCR_SIZE)) { out("%s%d", first ? "" : ",", b); first = 0; }
		memcpy(oscr[b], r->scr[b], SCR_SIZE);
	}
	first = 1;
	out("],\"grp\":[");
	for (int b = 0; b < GRP_BANKS; ++b) {
		if (init && memcmp(ogrp[b], r->grp[b], GRP_SIZE)) { out("%s%d", first ? "" : ",", b); first = 0; }
		memcpy(ogrp[b], r->grp[b], GRP_SIZE);
	}
	out("],\"mem\":%d}\n", init && memcmp(omem, r->mem.data, MEM_SIZE) != 0);
	memcpy(omem, r->mem.data, MEM_SIZE);
	init = true;
}
/* fills a bank with pseudo-random bytes */
static void act_resfill(const char *kind, int b, unsigned seed) {
	struct resources *r = &need()->res;
	u8 *d = !strcmp(kind, "chr") ? r->chr[b] : !strcmp(kind, "col") ? (u8 *)r->col[b] : !strcmp(kind, "scr") ? (u8 *)r->scr[b] : r->grp[b];
	size_t n = !strcmp(kind, "chr") ? CHR_SIZE : !strcmp(kind, "col") ? COL_SIZE : !strcmp(kind, "scr") ? SCR_SIZE : GRP_SIZE;
	for (size_t i = 0; i < n; ++i) { seed = seed * 1103515245u + 12345u; d[i] = (u8)(seed >> 16); }
}
/* compresses with every cache size (and the optimal compressor) into exactly sized
 * buffers and decompresses the result: [bits, size, same bytes] */
static void act_comp(const char *hex) {
	size_t n;
	unsigned char *src = unhex(hex, &n);
	out("{\"t\":\"comp\",\"v\":[");
	for (int b = -1; b <= 8; ++b) {
		int size, bits = b;
		unsigned char *o;
		if (b == 8) {
			struct sbc_compression_result r = sbc_optimal_compress(src, (int)n, 8);
			size = r.size, bits = r.bits, o = r.output;
		} else {
			o = malloc(n ? n : 1);
			memset(o, 0xA5, n ? n : 1);
			size = sbc_compress(src, o, (int)n, b, 8);
		}
		int same = -1;
		if (size >= 0 && (size_t)size <= n) {
			unsigned char *c = malloc(size ? (size_t)size : 1), *d = malloc(n ? n : 1);
			memcpy(c, o, (size_t)size);
			memset(d, 0x5A, n ? n : 1);
			same = sbc_decompress(c, size, d, (int)n, bits) && !memcmp(d, src, n);
			free(c);
			free(d);
		}
		free(o);
		out("%s[%d,%d,%d]", b == -1 ? "" : ",", bits, size, same);
	}
	out("]}\n");
	free(src);
}
static void act_decomp(const char *hex, int size, int bits) {
	size_t n;
	unsigned char *src = unhex(hex, &n);
	unsigned char *d = malloc(size > 0 ? (size_t)size : 1);
	memset(d, 0x5A, size > 0 ? (size_t)size : 1);
	unsigned char *r = sbc_decompress(src, (int)n, d, size, bits);
	out("{\"t\":\"decomp\",\"ok\":%d,\"v\":\"", r != NULL);
	if (r) outhex(d, (size_t)size);
	out("\"}\n");
	free(src);
	free(d);
}
/* program memory, program name, package and MEM$ */
static void act_prgmem(void) {
	struct ptc *p = need();
	out("{\"t\":\"prgmem\",\"size\":%u,\"fp\":\"%llu\",\"name\":\"", (unsigned)p->exec.prg.size, fnv(p->exec.prg.data, p->exec.prg.size));
	outhex(p->res.prgname, strnlen(p->res.prgname, PRGNAME_STR_LENGTH));
	out("\",\"package\":\"%.12s\",\"memlen\":%u,\"mem\":\"", p->res.package, (unsigned)p->res.mem_str.len);
	outhex(p->res.mem.data, MEM_SIZE);
	out("\"}\n");
}
static void act_col(int bank) {
	struct ptc *p = need();
	out("{\"t\":\"colbank\",\"b\":%d,\"v\":\"", bank);
	outhex16(p->res.col[bank], COL_SIZE / 2);
	out("\"}\n");
}

static void act_spr(int page) {
	struct ptc *p = need();
	out("{\"t\":\"spr\",\"page\":%d,\"cur\":%d,\"v\":{", page, p->sprites.page);
	int first = 1;
	for (int i = 0; i < MAX_SPRITES; ++i) {
		struct sprite_info *s = &p->sprites.info[page][i];
		if (!s->active) continue;
		out("%s\"%d\":{\"chr\":%d,\"pal\":%d,\"w\":%d,\"h\":%d,\"prio\":%d,\"fx\":%d,\"fy\":%d,\"hx\":%d,\"hy\":%d,", first ? "" : ",", i,
			s->chr, s->pal, s->w, s->h, s->prio, s->flip_x, s->flip_y, s->home_x, s->home_y);
		out("\"pos\":[%d,%d,%d],\"scale\":[%d,%d],\"angle\":[%d,%d],", s->pos.x, s->pos.y, s->pos.time, s->scale.s, s->scale.time, s->angle.a, s->angle.time);
		out("\"hit\":[%d,%d,%d,%d,%d,%d,%d,%d],", s->hit.dx, s->hit.dy, s->hit.x, s->hit.y, s->hit.w, s->hit.h, s->hit.scale_adjust, s->hit.mask);
		out("\"anim\":[%d,%d,%d,%d,%d,%d],\"schr\":%d,", s->anim.chrs, s->anim.frames_per_chr, s->anim.loop, s->anim.loop_forever, s->anim.current_frame, s->anim.current_chr, get_sprite_chr(s));
		out("\"vars\":[%d,%d,%d,%d,%d,%d,%d,%d]}", s->vars[0], s->vars[1], s->vars[2], s->vars[3], s->vars[4], s->vars[5], s->vars[6], s->vars[7]);
		first = 0;
	}
	out("}}\n");
}

/* ---- the interpreter's memory block: where things are, what it holds, what changed ---- */
static void mm(const char *name, const void *ptr, long size) {
	out(",\"%s\":[%ld,%ld]", name, (long)((const char *)ptr - (const char *)sbc_membase), size);
}
static void act_memmap(void) {
	struct ptc *p = need();
	out("{\"t\":\"memmap\",\"size\":%d", MAX_MEMORY);
	mm("!CONSOLE", &p->console, sizeof p->console); mm("!BG", &p->background, sizeof p->background); mm("!SPRITE", &p->sprites, sizeof p->sprites);
	mm("!GRAPHICS", &p->graphics, sizeof p->graphics); mm("!PANEL", &p->panel, sizeof p->panel); mm("!RESOURCE", &p->res, sizeof p->res);
	mm("!INPUT", &p->input, sizeof p->input); mm("!VAR", &p->vars, sizeof p->vars); mm("!STR", &p->strs, sizeof p->strs); mm("!ARRAY", &p->arrs, sizeof p->arrs);
	mm("!SYSTEM", p, sizeof *p); mm("!EXEC", &p->exec, sizeof p->exec); mm("!SOURCE", &p->exec.prg, sizeof p->exec.prg); mm("!BYTECODE", &p->exec.code, sizeof p->exec.code);
	char n[16];
	for (int i = 0; i < CHR_BANKS * SCREEN_COUNT; ++i) { sprintf(n, "chr%d", i); mm(n, p->res.chr[i], CHR_SIZE); }
	for (int i = 0; i < SCR_BANKS * SCREEN_COUNT; ++i) { sprintf(n, "scr%d", i); mm(n, p->res.scr[i], SCR_SIZE); }
	for (int i = 0; i < COL_BANKS * SCREEN_COUNT; ++i) { sprintf(n, "col%d", i); mm(n, p->res.col[i], COL_SIZE); }
	for (int i = 0; i < GRP_BANKS; ++i) { sprintf(n, "grp%d", i); mm(n, p->res.grp[i], GRP_SIZE); }
	mm("mem0", p->res.mem.data, MEM_SIZE);
	mm("arrays", p->arrs.arr_data, (long)(p->arrs.arr_data_size * sizeof(union value)));
	out("}\n");
}
static int mem_range(long off, long n) { return off >= 0 && n >= 0 && off <= MAX_MEMORY && n <= MAX_MEMORY - off; }
static void act_memget(long off, long n) {
	need();
	out("{\"t\":\"memget\",\"v\":\"");
	if (mem_range(off, n)) outhex((char *)sbc_membase + off, (size_t)n);
	out("\"}\n");
}
/* pseudo random bytes, so that every copy is visible */
static void act_memseed(long off, long n, unsigned seed) {
	need();
	if (mem_range(off, n)) for (long i = 0; i < n; ++i) { seed = seed * 1103515245u + 12345u; ((u8 *)sbc_membase)[off + i] = (u8)(seed >> 16); }
}
/* changes since the last call, in everything a statement does not write by being executed */
/* Lets the frame counter go on by n. Large steps: the counter's place is found by watching it count. */
static void act_time(long long n){
	struct timers* t = &need()->time;
	if (n > 600000){
		for (int i = 0; i < 777; ++i) inc_time(t);
		n -= 777;
		unsigned char old[sizeof(*t)];
		memcpy(old, (void*)t, sizeof(*t));
		int64_t was = get_time(t);
		inc_time(t);
		--n;
		for (size_t i = 0; i + sizeof(int64_t) <= sizeof(*t); i += sizeof(int64_t)){
			int64_t v, w;
			memcpy(&v, old + i, sizeof(v));
			memcpy(&w, (unsigned char*)t + i, sizeof(w));
			if (v == was && w == was + 1){
				w += n;
				memcpy((unsigned char*)t + i, &w, sizeof(w));
				return;
			}
		}
	}
	while (n-- > 0) inc_time(t);
}

static void act_memwatch(void) {
	static u8 *old;
	struct ptc *p = need();
	struct { void *p; size_t n; } vol[] = {
		{&p->input, sizeof p->input}, {&p->time, sizeof p->time}, {&p->exec, sizeof p->exec}, {&p->exec_old, sizeof p->exec_old}, {&p->stack, sizeof p->stack},
		{&p->calls, sizeof p->calls}, {&p->vars, sizeof p->vars}, {&p->strs, sizeof p->strs}, {&p->arrs, sizeof p->arrs}, {&p->memapi, sizeof p->memapi},
		{p->vars.vars, sizeof(struct named_var) * p->vars.vars_max}, {p->strs.strs, sizeof(struct string) * p->strs.strs_max},
		{p->strs.str_data, (size_t)p->strs.strs_max * MAX_STRLEN * sizeof(u16)}, {&p->console, sizeof p->console},
		/* program text and code are kept behind the arrays */
		{(u8 *)p->arrs.arr_data + p->arrs.arr_data_size * sizeof(union value), 0},
	};
	u8 *base = sbc_membase;
	size_t last = sizeof vol / sizeof *vol - 1;
	if ((u8 *)vol[last].p < base + MAX_MEMORY - (1 << 20)) vol[last].n = (size_t)(base + MAX_MEMORY - (1 << 20) - (u8 *)vol[last].p);
	if (!old) { old = malloc(MAX_MEMORY); memcpy(old, base, MAX_MEMORY); out("{\"t\":\"memwatch\",\"n\":0,\"lo\":-1,\"hi\":-1}\n"); return; }
	long lo = -1, hi = -1, cnt = 0;
	for (long b = 0; b < MAX_MEMORY; b += 4096) {
		if (!memcmp(old + b, base + b, 4096)) continue;
		for (long i = b; i < b + 4096; ++i) if (old[i] != base[i]) {
			int skip = 0;
			for (size_t v = 0; v < sizeof vol / sizeof *vol; ++v) if (base + i >= (u8 *)vol[v].p && base + i < (u8 *)vol[v].p + vol[v].n) { skip = 1; break; }
			if (skip) continue;
			if (lo < 0) lo = i;
			hi = i;
			++cnt;
		}
		memcpy(old + b, base + b, 4096);
	}
	out("{\"t\":\"memwatch\",\"n\":%ld,\"lo\":%ld,\"hi\":%ld}\n", cnt, lo, hi);
}

/* ---- what changed since the last call, by the object it belongs to ---- */
struct comp { char name[24]; void *p; size_t n; u8 *old; int vol; };
static struct comp g_comp[800];
static int g_ncomp;
static void comp_add(const char *name, void *p, size_t n, int vol) {
	struct comp *c = &g_comp[g_ncomp++];
	if (g_ncomp > 800) abort();
	snprintf(c->name, sizeof c->name, "%s", name);
	c->p = p; c->n = n; c->vol = vol; c->old = NULL;
}
static void comp_init(void) {
	struct ptc *p = need();
	char b[24];
	g_ncomp = 0;
#define F(n, f) comp_add(n, &(f), sizeof(f), 0)
#define V(n, f) comp_add(n, &(f), sizeof(f), 1)
	F("con.text", p->console.text); F("con.color", p->console.color);
	F("con.pos", p->console.x); F("con.pos", p->console.y); F("con.col", p->console.col); F("con.tab", p->console.tabstep); F("con.tab", p->console.sys_tabstep);
	V("con.test", p->console.test_mode); V("con.cursor", p->console.cursor_visible);
	F("bg.page", p->background.page);
	for (int i = 0; i < SCREEN_COUNT; ++i) {
		for (int l = 0; l < BG_LAYERS; ++l) { snprintf(b, sizeof b, "bg.ofs.%d.%d", i, l); F(b, p->background.ofs[i][l]); }
		snprintf(b, sizeof b, "bg.clip.%d", i); F(b, p->background.clip[i]);
	}
	F("spr.page", p->sprites.page);
	for (int i = 0; i < SCREEN_COUNT; ++i) for (int s = 0; s < MAX_SPRITES; ++s) { snprintf(b, sizeof b, "spr.%d.%d", i, s); F(b, p->sprites.info[i][s]); }
	F("sphit", p->sprites.sphitno); F("sphit", p->sprites.sphitx); F("sphit", p->sprites.sphity); F("sphit", p->sprites.sphitt);
	F("gfx.screen", p->graphics.screen); F("gfx.color", p->graphics.color); F("gfx.mode", p->graphics.drawmode);
	for (int i = 0; i < 2; ++i) { snprintf(b, sizeof b, "gfx.%d", i); F(b, p->graphics.info[i]); }
	F("panel.type", p->panel.type);
	for (int i = 0; i < 5; ++i) { snprintf(b, sizeof b, "key.%d", i); F(b, p->panel.func_keys[i]); F(b, p->panel.func_keys_len[i]); }
	comp_add("panel.text", p->panel.text, sizeof *p->panel.text, 0);
	comp_add("panel.keytext", p->panel.keys_text, sizeof *p->panel.keys_text, 0);
	F("panel.keys", p->panel.keys); F("panel.press", p->panel.key_pressed); F("panel.press", p->panel.id_pressed); F("panel.press", p->panel.pressed_time);
	F("panel.shift", p->panel.shift); F("panel.cursor", p->panel.cursor); F("icon", p->panel.iconpuse); F("icon", p->panel.iconpmax); F("icon", p->panel.iconpage);
	for (int i = 0; i < CHR_BANKS * SCREEN_COUNT; ++i) { snprintf(b, sizeof b, "chr.%d", i); comp_add(b, p->res.chr[i], CHR_SIZE, 0); }
	for (int i = 0; i < SCR_BANKS * SCREEN_COUNT; ++i) { snprintf(b, sizeof b, "scr.%d", i); comp_add(b, p->res.scr[i], SCR_SIZE, 0); }
	for (int i = 0; i < GRP_BANKS; ++i) { snprintf(b, sizeof b, "grp.%d", i); comp_add(b, p->res.grp[i], GRP_SIZE, 0); }
	for (int i = 0; i < COL_BANKS * SCREEN_COUNT; ++i) { snprintf(b, sizeof b, "col.%d", i); comp_add(b, p->res.col[i], COL_SIZE, 0); }
	for (int i = 0; i < 12; ++i) { snprintf(b, sizeof b, "keychr.%d", i); comp_add(b, p->res.key_chr[i], CHR_SIZE, 0); }
	F("mem", p->res.mem); F("mem", p->res.mem_str.len); F("mem.ptr", p->res.mem_ptr); F("mem.ptr", p->res.mem_str.ptr);
	F("visible", p->res.visible); F("result", p->res.result); F("package", p->res.package); F("prgname", p->res.prgname);
	V("res", p->res);   /* the table of banks itself: checked below through its pointers */
	F("input.button", p->input.button); F("input.button", p->input.old_button);
	for (int i = 0; i < 12; ++i) { F("input.repeat", p->input.times[i].start); F("input.repeat", p->input.times[i].repeat); F("input.button", p->input.times[i].frame); }
	F("input.touch", p->input.tchx); F("input.touch", p->input.tchy); F("input.touch", p->input.tchtime); F("input.keyboard", p->input.keyboard);
	F("input.inkey", p->input.inkey_buf); F("input.inkey", p->input.current_write); F("input.inkey", p->input.current_base);
	V("input", p->input); V("time", p->time); V("exec", p->exec); V("exec", p->exec_old); V("exec", p->stack); V("exec", p->calls);
	V("vars", p->vars); V("strs", p->strs); V("arrs", p->arrs); F("memsafe", p->memapi); V("display", p->display);
	comp_add("vars", p->vars.vars, sizeof(struct named_var) * p->vars.vars_max, 1);
	comp_add("strs", p->strs.strs, sizeof(struct string) * p->strs.strs_max, 1);
	comp_add("strs", p->strs.str_data, (size_t)p->strs.strs_max * MAX_STRLEN * (p->strs.type == STRING_WIDE ? 2 : 1), 1);
	comp_add("arrs", p->arrs.arr_data, (size_t)p->arrs.arr_data_size * sizeof(union value), 1);
	comp_add("prg", p->exec.prg.data, MAX_SOURCE_SIZE, 0);
	comp_add("code", BC.data, MAX_SOURCE_SIZE, 1);
#undef F
#undef V
}
static unsigned long hash_more(unsigned long h, const void *d, size_t n) { const u8 *b = d; while (n--) h = (h ^ *b++) * 1099511628211UL; return h; }
static unsigned long hash_value(unsigned long h, union value *v, int type) {
	if (!(type & VAR_STRING)) return hash_more(h, &v->number, sizeof v->number);
	if (!v->ptr) return hash_more(h, "\1", 1);
	u32 n = str_len(v->ptr);
	for (u32 i = 0; i < n && i < 1024; ++i) { u16 w = str_at_wide(v->ptr, (u16)i); h = hash_more(h, &w, 2); }
	return hash_more(h, "\2", 2);
}
static struct { char name[40]; unsigned long h; int seen; } g_vh[512];
static int g_nvh;
static void act_snap(void) {
	static struct ptc *of;
	struct ptc *p = need();
	int first = of != p || !g_ncomp, k = 0;
	if (first) {
		for (int i = 0; i < g_ncomp; ++i) free(g_comp[i].old);
		comp_init();
		of = p;
		g_nvh = 0;
	}
	out("{\"t\":\"snap\",\"first\":%d,\"v\":[", first);
	const char *last = "";
	for (int i = 0; i < g_ncomp; ++i) {
		struct comp *c = &g_comp[i];
		if (c->vol) continue;
		if (!c->old) { c->old = malloc(c->n ? c->n : 1); memcpy(c->old, c->p, c->n); continue; }
		if (!memcmp(c->old, c->p, c->n)) continue;
		memcpy(c->old, c->p, c->n);
		if (!strcmp(last, c->name)) continue;
		out("%s\"%s\"", k++ ? "," : "", c->name);
		last = c->name;
	}
	/* variables by name */
	for (int i = 0; i < g_nvh; ++i) g_vh[i].seen = 0;
	for (unsigned i = 0; i < p->vars.vars_max; ++i) {
		struct named_var *v = &p->vars.vars[i];
		if (!v->type || !v->name[0]) continue;
		unsigned long h = 14695981039346656037UL;
		if (v->type & VAR_ARRAY) {
			if (!v->value.ptr) continue;
			u32 d1 = arr_size(v->value.ptr, ARR_DIM1), d2 = arr_size(v->value.ptr, ARR_DIM2);
			unsigned long tot = (unsigned long)d1 * (d2 == ARR_DIM2_UNUSED ? 1 : d2);
			h = hash_more(h, &d1, 4); h = hash_more(h, &d2, 4);
			union value *d = arr_data(v->value.ptr);
			for (unsigned long e = 0; e < tot; ++e) h = hash_value(h, &d[e], v->type);
		} else h = hash_value(h, &v->value, v->type);
		char nm[40];
		snprintf(nm, sizeof nm, "%s%.*s%s", v->type & VAR_ARRAY ? "arr:" : "var:", (int)sizeof v->name, v->name, v->type & VAR_STRING ? "$" : "");
		for (char *s = nm; *s; ++s) if ((u8)*s < 32 || (u8)*s > 126 || *s == '"' || *s == '\\') *s = '?';
		int j = 0;
		while (j < g_nvh && strcmp(g_vh[j].name, nm)) ++j;
		if (j == g_nvh) {
			if (g_nvh == 512) continue;
			++g_nvh;
			strcpy(g_vh[j].name, nm);
			g_vh[j].h = h;
			g_vh[j].seen = 1;
			if (!first) out("%s\"new%s\"", k++ ? "," : "", nm);
			continue;
		}
		g_vh[j].seen = 1;
		if (g_vh[j].h != h) { g_vh[j].h = h; out("%s\"%s\"", k++ ? "," : "", nm); }
	}
	for (int i = 0; i < g_nvh; ++i) if (!g_vh[i].seen) { out("%s\"gone%s\"", k++ ? "," : "", g_vh[i].name); g_vh[i] = g_vh[--g_nvh]; --i; }
	out("],\"page\":[%d,%d,%d,%d,%d]}\n", (int)p->background.page, (int)p->sprites.page, (int)p->graphics.screen, (int)p->graphics.info[0].drawpage, (int)p->graphics.info[1].drawpage);
}
/* state that is used as an index somewhere stays usable as one */
static void act_inv(void) {
	struct ptc *p = need();
	int k = 0;
	out("{\"t\":\"inv\",\"v\":[");
#define INV(c) do { if (!(c)) out("%s\"%s\"", k++ ? "," : "", #c); } while (0)
	struct console *cs[3] = {&p->console, p->panel.text, p->panel.keys_text};
	for (int i = 0; i < 3; ++i) {
		struct console *c = cs[i];
		INV(c->x <= CONSOLE_WIDTH); INV(c->y <= CONSOLE_HEIGHT); INV(c->tabstep <= 16);
	}
	INV(p->console.tabstep >= 1);
	INV(p->background.page == 0 || p->background.page == 1);
	for (int i = 0; i < 2; ++i) {
		INV(p->background.clip[i].x1 <= 255 && p->background.clip[i].x2 <= 255 && p->background.clip[i].y1 <= 191 && p->background.clip[i].y2 <= 191);
		INV(p->graphics.info[i].drawpage < 4); INV(p->graphics.info[i].displaypage < 4); INV(p->graphics.info[i].prio < 4);
		for (int s = 0; s < MAX_SPRITES; ++s) {
			struct sprite_info *q = &p->sprites.info[i][s];
			if (!q->active) continue;
			INV(q->id == s); INV(q->chr < 512); INV(q->pal < 16); INV(q->prio < 4);
			INV((q->w == 8 || q->w == 16 || q->w == 32 || q->w == 64) && (q->h == 8 || q->h == 16 || q->h == 32 || q->h == 64));
			INV(q->anim.current_chr >= -1 && q->anim.current_chr < 1024);
		}
	}
	INV(p->sprites.page == 0 || p->sprites.page == 1);
	INV(p->graphics.screen < 2);
	INV((int)p->panel.type >= 0 && (int)p->panel.type <= 4);
	for (int i = 0; i < 5; ++i) INV(p->panel.func_keys_len[i] <= 256);
	INV(p->res.mem_str.len <= MAX_STRLEN); INV(p->res.mem_ptr == &p->res.mem_str); INV(p->res.mem_str.ptr.w == p->res.mem.chars);
	INV(p->input.current_write < INKEY_BUF_SIZE); INV(p->input.current_base < INKEY_BUF_SIZE);
	INV(p->stack.stack_i <= VALUE_STACK_SIZE); INV(p->calls.stack_i <= CALL_STACK_SIZE);
	INV(p->arrs.arr_data_next <= p->arrs.arr_data_size);
	INV(p->vars.var_count <= p->vars.vars_max);
	INV(memchr(p->res.prgname, 0, sizeof p->res.prgname)); INV(memchr(p->res.package, 0, sizeof p->res.package));
	INV(p->exec.prg.size <= MAX_SOURCE_SIZE);
	out("]}\n");
}

static void act_input(void) {
	struct input *i = &need()->input;
	out("{\"t\":\"input\",\"button\":%d,\"old\":%d,\"frames\":[", (int)i->button, (int)i->old_button);
	for (int k = 0; k < BUTTON_COUNT; ++k) out("%s%d", k ? "," : "", i->times[k].frame);
	out("]}\n");
}

static void act_panel(void) {
	struct panel *n = &need()->panel;
	out("{\"t\":\"panel\",\"type\":%d,\"shift\":%d,\"cursor\":%d,\"key\":%d,\"id\":%d,\"time\":%d,\"icon\":[%d,%d,%d],\"func\":[", n->type, n->shift, n->cursor,
		n->key_pressed, n->id_pressed, n->pressed_time, n->iconpuse, n->iconpmax, n->iconpage);
	for (int i = 0; i < 5; ++i) { out("%s\"", i ? "," : ""); for (int k = 0; k < n->func_keys_len[i] && k < 256; ++k) out("%04x", n->func_keys[i][k]); out("\""); }
	out("],\"keys\":[");
	for (int i = 0; i < PANEL_KEYS; ++i) {
		struct sprite_info *s = &n->keys[i];
		out("%s[%d,%d,%d,%d,%d,%d]", i ? "," : "", s->active, s->chr, s->pos.x >> 12, s->pos.y >> 12, s->w, s->h);
	}
	out("],\"text\":\"");
	for (int y = 0; y < CONSOLE_HEIGHT; ++y) for (int x = 0; x < CONSOLE_WIDTH; ++x) out("%04x", con_text_getc(n->text, x, y));
	out("\",\"keytext\":\"");
	for (int y = 0; y < CONSOLE_HEIGHT; ++y) for (int x = 0; x < CONSOLE_WIDTH; ++x) out("%04x", con_text_getc(n->keys_text, x, y));
	out("\",\"tcol\":\"");
	for (int y = 0; y < CONSOLE_HEIGHT; ++y) for (int x = 0; x < CONSOLE_WIDTH; ++x) out("%02x", con_col_get(n->text, x, y));
	out("\"}\n");
}

static int test_name_ok(const char *rel) { return rel[0] && rel[0] != '/' && !strstr(rel, ".."); }
static void act_wfile(const char *rel, const char *hex) {
	size_t n;
	unsigned char *d = unhex(hex, &n);
	if (test_name_ok(rel)) {
		FILE *f = fopen(rel, "wb");
		if (f) { fwrite(d, 1, n, f); fclose(f); }
	}
	free(d);
}
#if __has_feature(address_sanitizer)
extern size_t __sanitizer_get_current_allocated_bytes(void);
static long long heap_now(void) { return (long long)__sanitizer_get_current_allocated_bytes(); }
#else
static long long heap_now(void) { return -1; }
#endif
/* a file of pseudo-random bytes (the pattern of resfill) behind a given beginning */
static void act_wfill(const char *rel, const char *hex, int size, unsigned seed) {
	size_t n;
	unsigned char *d = unhex(hex, &n);
	FILE *f = test_name_ok(rel) ? fopen(rel, "wb") : NULL;
	if (f) {
		fwrite(d, 1, n, f);
		for (int i = 0; i < size; ++i) { seed = seed * 1103515245u + 12345u; fputc((u8)(seed >> 16), f); }
		fclose(f);
	}
	free(d);
}
static void act_rfile(const char *rel) {
	out("{\"t\":\"file\",\"n\":\"%s\",\"v\":", rel);
	FILE *f = test_name_ok(rel) ? fopen(rel, "rb") : NULL;
	if (!f) { out("null}\n"); return; }
	out("\"");
	unsigned char b[4096];
	size_t r;
	while ((r = fread(b, 1, sizeof b, f)) > 0) outhex(b, r);
	fclose(f);
	out("\"}\n");
}
#include <dirent.h>
static void ls_rec(const char *d, int *first) {
	DIR *dir = opendir(d);
	if (!dir) return;
	struct dirent *e;
	while ((e = readdir(dir))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		char path[2048];
		snprintf(path, sizeof path, "%s/%s", d, e->d_name);
		struct stat st;
		if (lstat(path, &st)) continue;
		if (S_ISDIR(st.st_mode)) { ls_rec(path, first); continue; }
		unsigned long long h = 0;
		FILE *f = fopen(path, "rb");
		if (f) {
			h = 1469598103934665603ULL;
			int c;
			while ((c = fgetc(f)) != EOF) h = (h ^ (unsigned)c) * 1099511628211ULL;
			fclose(f);
		}
		out("%s[\"", *first ? "" : ",");
		outhex(path + 2, strlen(path + 2));
		out("\",%ld,%llu]", (long)st.st_size, h);
		*first = 0;
	}
	closedir(dir);
}
static void act_ls(void) {
	int first = 1;
	out("{\"t\":\"ls\",\"v\":[");
	ls_rec(".", &first);
	out("]}\n");
}
static void act_fds(void) {
	int n = 0;
	for (int i = 0; i < 1024; ++i) if (fcntl(i, F_GETFD) != -1) ++n;
	out("{\"t\":\"fds\",\"n\":%d}\n", n);
}

/* table run: tokenise once, run for each row of raw variable values.
 * tab <opts> <prghex> <invars,> <outvars,> <row;row;...>   row: raw ints / hex strings */
static void set_value(const char *name, const char *val) {
	int len, t = vtype(name, &len);
	struct named_var *v = get_var(&P->vars, (char *)name, (u32)len, (enum types)t);
	if (t == VAR_NUMBER) v->value.number = (fixp)strtol(val, NULL, 10);
	else {
		/* 16-bit code units */
		struct string *old = v->value.ptr;
		if (old && is_dyn_str(old) && old->uses) old->uses--;
		size_t n = strcmp(val, "-") ? strlen(val) / 4 : 0;
		struct string *s = get_new_str(&P->strs);
		if (!s) abort();
		for (size_t i = 0; i < n; ++i) {
			u16 w = 0;
			for (int k = 0; k < 4; ++k) w = (u16)(w << 4 | hexval(val[i * 4 + k]));
			if (P->strs.type == STRING_WIDE) s->ptr.w[i] = w; else s->ptr.s[i] = (u8)to_char(w);
		}
		s->len = n;
		s->uses = 1;
		v->value.ptr = s;
	}
}
static int split(char *s, char sep, char **v, int max) {
	int n = 0;
	if (!s || !strcmp(s, "-")) return 0;
	while (n < max) {
		v[n++] = s;
		s = strchr(s, sep);
		if (!s) break;
		*s++ = 0;
	}
	return n;
}
static void act_tab(char *opts, char *prghex, char *ins, char *outs, char *rows) {
	struct ptc *p = need();
	size_t n;
	unsigned char *src = unhex(prghex, &n);
	struct program prg = {(idx)n, (char *)src};
	p->exec.error = ERR_NONE;
	int e = tokenize_full(&prg, &BC, p, atoi(opts));
	char *iv[32], *ov[32];
	int ni = split(ins, ',', iv, 32), no = split(outs, ',', ov, 32);
	out("{\"t\":\"tab\",\"tok\":%d,\"rows\":[", e);
	bool first = true;
	while (rows && *rows && !e) {
		char *next = strchr(rows, ';');
		if (next) *next++ = 0;
		char *rv[32];
		int nr = split(rows, ',', rv, 32);
		for (int i = 0; i < ni && i < nr; ++i) set_value(iv[i], rv[i]);
		p->exec.error = ERR_NONE;
		p->calls.stack_i = 0;
		run(BC, p);
		out("%s[%u", first ? "" : ",", (unsigned)p->exec.error);
		first = false;
		for (int i = 0; i < no; ++i) {
			int len, t = vtype(ov[i], &len);
			struct named_var *v = get_var(&p->vars, ov[i], (u32)len, (enum types)t);
			out(",");
			out_value(&v->value, t);
		}
		out("]");
		rows = next;
	}
	out("]}\n");
	free(src);
}

#ifdef WITH_DISPLAY
#include "screen.h"
#endif
#ifdef WITH_FRONT
#include "front.h"
#endif
#include "actions.inc"

static void run_line(char *line) {
	char *a[400] = {0};
	int n = 0;
	for (char *t = strtok(line, " \n"); t && n < 399; t = strtok(NULL, " \n")) a[n++] = t;
	if (!n) return;
	size_t len = 0;
#define IS(x) (!strcmp(a[0], x))
#define I(k, d) (n > (k) ? atoi(a[k]) : (d))
	if (IS("sys")) { sys_down(); g_redzone = I(4, 1); sys_up(I(1, VAR_LIMIT), I(2, STR_LIMIT), I(3, ARR_LIMIT)); }
	else if (IS("prg")) { unsigned char *s = unhex(a[1], &len); do_prg(s, len, I(2, 0), I(3, 0)); free(s); }
	else if (IS("direct")) { unsigned char *s = unhex(a[1], &len); do_direct(s, len, I(2, 0), I(3, 0)); free(s); }
	else if (IS("tab")) act_tab(a[1], a[2], a[3], a[4], a[5]);
	else if (IS("set")) { need(); set_value(a[1], a[2]); }
	else if (IS("var")) act_var(a[1]);
	else if (IS("arr")) act_arr(a[1]);
	else if (IS("vars")) act_vars();
	else if (IS("pool")) act_pool();
	else if (IS("con")) act_con();
	else if (IS("grp")) act_grp(I(1, 0));
	else if (IS("grpdiff")) act_grpdiff();
	else if (IS("bgdiff")) act_bgdiff();
	else if (IS("gstate")) act_gstate();
	else if (IS("bg")) act_bg();
	else if (IS("tiles")) act_tiles(I(1, 0), I(2, 0));
	else if (IS("scrbank")) act_scrbank(I(1, 0));
	else if (IS("chrbank")) act_chrbank(I(1, 0));
	else if (IS("colbank")) act_col(I(1, 0));
	else if (IS("resfp")) act_resfp();
	else if (IS("resdiff")) act_resdiff();
	else if (IS("resfill")) act_resfill(a[1], I(2, 0), (unsigned)I(3, 0));
	else if (IS("prgmem")) act_prgmem();
	else if (IS("prgset")) { unsigned char *s = unhex(a[1], &len); memcpy(need()->exec.prg.data, s, len); P->exec.prg.size = (idx)len; free(s); }
	else if (IS("prgbig")) { memset(need()->exec.prg.data, I(2, 32), (size_t)I(1, 0)); P->exec.prg.size = (idx)I(1, 0); }
	else if (IS("paths")) act_paths();
	else if (IS("fault")) { g_fault = I(1, 0); g_fault_n = I(2, 0); }
	else if (IS("comp")) act_comp(a[1]);
	else if (IS("decomp")) act_decomp(a[1], I(2, 0), I(3, 0));
	else if (IS("spr")) act_spr(I(1, 0));
	else if (IS("snap")) act_snap();
	else if (IS("inv")) act_inv();
	else if (IS("input")) act_input();
	else if (IS("panel")) act_panel();
	else if (IS("key")) { for (int i = 1; i < n; ++i) out("{\"t\":\"key\",\"ok\":%d}\n", set_inkey(&need()->input, (u16)strtol(a[i], NULL, 16))); }
	else if (IS("inkeys")) { out("{\"t\":\"inkeys\",\"v\":\""); for (int k, i = 0; i < 1000 && (k = get_inkey(&need()->input)); ++i) out("%04x", k); out("\"}\n"); }
	else if (IS("inkey")) out("{\"t\":\"inkey\",\"v\":%d}\n", get_inkey(&need()->input));
	else if (IS("btn")) { for (int i = 0; i < I(2, 1); ++i) set_input(need(), I(1, 0)); }
	else if (IS("touch")) { bool t = I(1, 0); int x = I(2, 0), y = I(3, 0); for (int i = 0; i < I(4, 1); ++i) { press_key(need(), t, x, y); set_touch(&need()->input, t, (u8)x, (u8)y); } }
	else if (IS("spstep")) { for (int i = 0; i < I(1, 1); ++i) step_sprites(&need()->sprites); }
	else if (IS("bgstep")) { for (int i = 0; i < I(1, 1); ++i) step_background(&need()->background); }
	else if (IS("time")) act_time(n > 1 ? atoll(a[1]) : 1);
	else if (IS("memmap")) act_memmap();
	else if (IS("memget")) act_memget(atol(n > 1 ? a[1] : "0"), atol(n > 2 ? a[2] : "0"));
	else if (IS("memseed")) act_memseed(atol(n > 1 ? a[1] : "0"), atol(n > 2 ? a[2] : "0"), (unsigned)I(3, 1));
	else if (IS("memwatch")) act_memwatch();
	else if (IS("shell")) act_shell(a[1], I(2, 0));
	else if (IS("frames")) act_frames(n > 1 ? a[1] : NULL, I(2, 60));
	else if (IS("clock")) act_clock(atoll(n > 1 ? a[1] : "0"), n > 2 ? a[2] : "UTC0");
	else if (IS("flog")) act_flog();
	else if (IS("pump")) {
		need();
		if (I(1, 0)) { atomic_store(&g_pump, 1); pthread_create(&g_pump_thr, NULL, pump_main, NULL); }
		else if (atomic_load(&g_pump)) { atomic_store(&g_pump, 0); pthread_join(g_pump_thr, NULL); }
	}
	else if (IS("testmode")) need()->console.test_mode = I(1, 1);
	else if (IS("fs")) { /* private scratch directory, unprivileged */
		static int seq;
		char d[64];
		snprintf(d, sizeof d, "c%d_%d", (int)getpid(), seq++);
		if (mkdir(d, 0777) || chmod(d, 0777) || chdir(d)) abort();
		mkdir("programs", 0777); chmod("programs", 0777);
		mkdir("resources", 0777); chmod("resources", 0777);
		if (I(1, 1) && getuid() == 0) {
			if (setgroups(0, NULL)) {}
			if (setgid(65534)) {}
			if (setuid(65534)) {}
		}
	}
	else if (IS("mkdir")) { if (test_name_ok(a[1])) mkdir(a[1], 0777); }
	else if (IS("rmdir")) { if (test_name_ok(a[1])) rmdir(a[1]); }
	else if (IS("wfile")) act_wfile(a[1], a[2]);
	else if (IS("wfill")) act_wfill(a[1], a[2], I(3, 0), (unsigned)I(4, 0));
	else if (IS("flags")) out("{\"t\":\"flags\",\"visible\":%d,\"result\":%d,\"prgsize\":%d,\"mem\":%d}\n", (int)need()->res.visible, (int)P->res.result, (int)P->exec.prg.size, (int)P->res.mem_str.len);
	else if (IS("heap")) out("{\"t\":\"heap\",\"v\":%lld,\"arena\":%lld}\n", heap_now() - (long long)g_flog_cap - (g_script ? (long long)strlen(g_script) + 1 : 0), g_arena);
	else if (IS("rfile")) act_rfile(a[1]);
	else if (IS("ls")) act_ls();
	else if (IS("fds")) act_fds();
	else if (extra_action(a, n)) {}
#ifdef WITH_DISPLAY
	else if (screen_action(a, n)) {}
#endif
#ifdef WITH_FRONT
	else if (IS("front")) act_front(n > 1 ? a[1] : NULL, n > 2 ? a[2] : NULL, n > 3 ? a[3] : NULL);
#endif
	else { fprintf(stderr, "HARNESS unknown action %s\n", a[0]); _exit(97); }
	fflush(stdout);
}

int main(int argc, char **argv) {
	/* usage: drv <casefile> <outfile> <cpu_s> <wall_s> */
	if (argc < 5) return 98;
	int cpu = atoi(argv[3]), wall = atoi(argv[4]);
	FILE *in = fopen(argv[1], "r");
	if (!in) return 98;
	int ofd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666);
	if (ofd < 0) return 98;
	if (!getcwd(g_cwd, sizeof g_cwd)) return 98;
	signal(SIGPIPE, SIG_IGN);
	char *line = NULL;
	size_t cap = 0;
	char **lines = NULL;
	size_t nl = 0, cl = 0;
	char id[256] = "";
	while (getline(&line, &cap, in) > 0) {
		if (!strncmp(line, "CASE ", 5)) {
			sscanf(line + 5, "%255s", id);
			nl = 0;
			continue;
		}
		if (strncmp(line, "END", 3)) {
			if (nl == cl) { cl = cl ? cl * 2 : 16; lines = realloc(lines, cl * sizeof *lines); }
			lines[nl++] = strdup(line);
			continue;
		}
		char efile[64];
		snprintf(efile, sizeof efile, "stderr.%d", (int)getpid());
		int efd = open(efile, O_RDWR | O_CREAT | O_TRUNC, 0666);
		if (efd < 0) return 98;
		dprintf(ofd, "CASE %s\n", id);
		pid_t pid = fork();
		if (pid < 0) return 98;
		if (pid == 0) {
			dup2(ofd, 1);
			dup2(efd, 2);
			struct rlimit rl = {0, 0};
			setrlimit(RLIMIT_CORE, &rl);
			rl.rlim_cur = (rlim_t)cpu;
			rl.rlim_max = (rlim_t)cpu + 2;
			setrlimit(RLIMIT_CPU, &rl);
			rl.rlim_cur = rl.rlim_max = (64 << 20) + (rlim_t)lseek(ofd, 0, SEEK_END);
			setrlimit(RLIMIT_FSIZE, &rl);
			alarm((unsigned)wall);
			struct sigaction sa = {.sa_handler = on_soft, .sa_flags = SA_RESTART};
			sigaction(SIGPROF, &sa, NULL);
			/* deterministic interpreter-visible randomness and clock source */
			for (size_t i = 0; i < nl; ++i) for (char *q = lines[i]; *q; ++q) g_seed = (g_seed ^ (unsigned char)*q) * 16777619u;
			for (size_t i = 0; i < nl; ++i) run_line(lines[i]);
			fflush(stdout);
			_exit(0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
		dprintf(ofd, "\nEXIT %s %d\n", id, code);
		if (code) {
			/* head of the sanitizer report */
			static char buf[12000];
			ssize_t r = pread(efd, buf, sizeof buf - 1, 0);
			if (r < 0) r = 0;
			buf[r] = 0;
			dprintf(ofd, "ERR ");
			static char hx[24100];
			for (ssize_t i = 0; i < r; ++i) sprintf(hx + i * 2, "%02x", (unsigned char)buf[i]);
			hx[r * 2] = 0;
			if (write(ofd, hx, (size_t)r * 2) < 0) return 98;
			dprintf(ofd, "\n");
		}
		close(efd);
		unlink(efile);
		for (size_t i = 0; i < nl; ++i) free(lines[i]);
		nl = 0;
	}
	dprintf(ofd, "DONE\n");
	return 0;
}
