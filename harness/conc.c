/* Concurrent harness: the real interpreter runs a program in one thread while
 * a typing thread and a frame thread do what the display thread of main.c
 * does.  Delays are injected around every lock operation.  Prints JSON
 * observations; ThreadSanitizer reports are collected through its callback. */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <threads.h>
#include <time.h>
#include <unistd.h>

#include "common.h"
#include "error.h"
#include "interpreter.h"
#include "program.h"
#include "ptc.h"
#include "sbc_blockalloc.h"
#include "system.h"
#include "tokens.h"
#include "vars.h"

#ifndef MAX_MEMORY
#define MAX_MEMORY (8*1024*1024)
#endif
struct display;
void init_display(struct ptc *p) { (void)p; }
void free_display(struct display *d) { (void)d; }

static struct ptc *P;
static struct bytecode BC;
static void *g_ignore; /* variable of the program which the typing thread looks at */

/* ---- delays, and a record of who held a lock in which order ---- */
static _Thread_local int t_id;
static _Thread_local uint64_t t_rng;
static int g_delay;
static _Atomic long g_locks, g_switches;
static _Atomic int g_last;
static _Atomic uint64_t g_hash;
static uint64_t rnd(void) {
	t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17;
	return t_rng;
}
static void jitter(void) {
	if (!g_delay || !t_rng) return;
	uint64_t r = rnd();
	if (r % 64 >= (uint64_t)g_delay) return;
	switch (r >> 20 & 7) {
		case 0: nanosleep(&(struct timespec){.tv_nsec = (long)(r >> 32 & 0x3fff)}, NULL); break;
		case 1: case 2: sched_yield(); break;
		default: for (volatile int i = 0; i < (int)(r >> 32 & 0x1ff); ++i) {}
	}
}
static int conv(int r) { return r == 0 ? thrd_success : r == EBUSY ? thrd_busy : thrd_error; }
/* mtx_t is a pthread_mutex_t in glibc; the pthread calls are the ones TSan understands */
int __wrap_mtx_init(mtx_t *m, int t) {
	pthread_mutexattr_t a;
	pthread_mutexattr_init(&a);
	if (t & mtx_recursive) pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
	return conv(pthread_mutex_init((pthread_mutex_t *)m, &a));
}
static void held(void) {
	/* relaxed: the monitor must not order the threads it watches */
	int last = atomic_exchange_explicit(&g_last, t_id, memory_order_relaxed);
	atomic_fetch_add_explicit(&g_locks, 1, memory_order_relaxed);
	if (last != t_id) {
		long n = atomic_fetch_add_explicit(&g_switches, 1, memory_order_relaxed);
		atomic_fetch_xor_explicit(&g_hash, (uint64_t)(t_id + 1) * 0x9E3779B97F4A7C15u + (uint64_t)n * 0xBF58476D1CE4E5B9u * (uint64_t)(atomic_load_explicit(&g_locks, memory_order_relaxed) & 0xffff), memory_order_relaxed);
	}
}
int __wrap_mtx_lock(mtx_t *m) {
	jitter();
	int r = pthread_mutex_lock((pthread_mutex_t *)m);
	if (!r) { if (t_rng) held(); jitter(); }
	return conv(r);
}
int __wrap_mtx_trylock(mtx_t *m) { jitter(); return conv(pthread_mutex_trylock((pthread_mutex_t *)m)); }
int __wrap_mtx_timedlock(mtx_t *m, const struct timespec *t) { return conv(pthread_mutex_timedlock((pthread_mutex_t *)m, t)); }
int __wrap_mtx_unlock(mtx_t *m) { jitter(); int r = pthread_mutex_unlock((pthread_mutex_t *)m); jitter(); return conv(r); }
void __wrap_mtx_destroy(mtx_t *m) { pthread_mutex_destroy((pthread_mutex_t *)m); }

/* ---- race reports ---- */
static _Atomic int g_races;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
int __tsan_get_report_data(void *report, const char **description, int *count, int *stack_count, int *mop_count, int *loc_count, int *mutex_count, int *thread_count, int *unique_tid_count, void **sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void *report, unsigned long idx, int *tid, void **addr, int *size, int *write, int *atomic, void **trace, unsigned long trace_size);
void __tsan_on_report(void *rep) {
	const char *d; int c, s, mc = 0, l, mu, th, u; void *st[1];
	__tsan_get_report_data(rep, &d, &c, &s, &mc, &l, &mu, &th, &u, st, 1);
	for (int i = 0; i < mc; ++i) {
		int tid, size, w, a; void *addr, *tr[1];
		__tsan_get_report_mop(rep, (unsigned long)i, &tid, &addr, &size, &w, &a, tr, 1);
		/* the error code is a break flag written on purpose by the display thread */
		if (addr == (void *)&P->exec.error || (g_ignore && addr == g_ignore)) return;
	}
	atomic_fetch_add(&g_races, 1);
}
#endif
#endif

static void up(void) {
	init_memory(MAX_MEMORY);
	P = init_system(VAR_LIMIT, STR_LIMIT, ARR_LIMIT, true);
	P->res.search_path = "programs/";
	resource_path = "resources/";
	P->console.test_mode = false;
	init_mem_prg(&P->exec.prg, MAX_SOURCE_SIZE);
	BC = init_bytecode_size(MAX_SOURCE_SIZE, MAX_LINES, MAX_LABELS);
}
static union value *numvar(const char *n) {
	struct named_var *v = get_var(&P->vars, (char *)n, (u32)strlen(n), VAR_NUMBER);
	return &v->value;
}
static void program(const char *src) {
	struct program prg = {(idx)strlen(src), (char *)src};
	P->exec.error = ERR_NONE;
	token_and_run(P, &prg, &BC, 0);
}

static _Atomic bool g_stop, g_done;
static uint64_t g_seed;
#define MAXK 32000
static u16 g_keys[MAXK]; static int g_nkeys; /* accepted */
static int g_rejected, g_bad_reject, g_bad_accept, g_offered, g_maxfill;
static int g_total, g_burst, g_retry, g_native;
static _Atomic long g_removed_lo, g_removed_hi;

static long lo(void) { return g_native ? atomic_load_explicit(&g_removed_lo, memory_order_relaxed) : (long)(__atomic_load_n((int32_t *)g_ignore, __ATOMIC_RELAXED) >> 12); }
static long hi(void) { return g_native ? atomic_load_explicit(&g_removed_hi, memory_order_relaxed) : lo() + 1; }

static void *typist(void *a) {
	(void)a;
	t_id = 1; t_rng = g_seed * 77 + 5;
	uint64_t seq = g_seed * 0x9E3779B97F4A7C15u + 1;
	while (g_nkeys < g_total && !atomic_load_explicit(&g_done, memory_order_relaxed)) {
		int n = 1 + (int)(rnd() % (uint64_t)g_burst);
		for (int i = 0; i < n && g_nkeys < g_total; ++i) {
			seq = seq * 6364136223846793005u + 1442695040888963407u;
			u16 k = (u16)to_wide((u8)(33 + (seq >> 40) % 90));
			bool ok;
			do {
				long before = lo();
				ok = set_inkey(&P->input, k);
				long after = hi();
				++g_offered;
				long fill = g_nkeys - before;
				if (fill > g_maxfill) g_maxfill = (int)fill;
				if (!ok && g_nkeys - before < 256) ++g_bad_reject;
				if (ok && g_nkeys - after >= 256) ++g_bad_accept;
				if (!ok) { ++g_rejected; if (rnd() % 4 == 0) sched_yield(); }
			} while (!ok && g_retry && !atomic_load_explicit(&g_done, memory_order_relaxed));
			if (ok) g_keys[g_nkeys++] = k;
		}
		if (rnd() % 4 == 0) nanosleep(&(struct timespec){.tv_nsec = (long)(rnd() % 200000)}, NULL);
	}
	while (!set_inkey(&P->input, to_wide('!' - 1 + 94)) && !atomic_load_explicit(&g_done, memory_order_relaxed)) sched_yield(); /* '~' ends */
	return NULL;
}
static const int MASK[6] = {0x001, 0x7fe, 0x000, 0x2aa, 0x555, 0x7ff};
static _Atomic long g_ticks;
static int g_fast, g_nobuttons;
static void *frames(void *a) {
	t_id = 2 + (int)(intptr_t)a; t_rng = g_seed * 131 + 7 + (uint64_t)(intptr_t)a;
	for (int f = 0; !atomic_load_explicit(&g_stop, memory_order_relaxed); ++f) {
		if (!a) {
			set_input(P, g_nobuttons ? 0 : MASK[f % 6]);
			set_touch(&P->input, f % 5 != 0, (u8)(7 * (f % 16)), (u8)(11 * (f % 16)));
		}
		inc_time(&P->time);
		atomic_fetch_add_explicit(&g_ticks, 1, memory_order_relaxed);
		if (!g_fast) nanosleep(&(struct timespec){.tv_nsec = (long)(rnd() % 300000)}, NULL);
		else if (rnd() % 16 == 0) sched_yield();
	}
	return NULL;
}
static char g_src[4096];
static void *prog_main(void *a) {
	(void)a;
	t_id = 0; t_rng = g_seed * 31 + 11;
	program(g_src);
	atomic_store_explicit(&g_done, true, memory_order_relaxed);
	return NULL;
}
static u16 g_got[MAXK + 1]; static int g_ngot;
static void *taker(void *a) {
	(void)a;
	t_id = 0; t_rng = g_seed * 31 + 11;
	for (;;) {
		atomic_fetch_add_explicit(&g_removed_hi, 1, memory_order_relaxed);
		u16 k = get_inkey(&P->input);
		if (!k) { atomic_fetch_sub_explicit(&g_removed_hi, 1, memory_order_relaxed); if (rnd() % 64 == 0) sched_yield(); continue; }
		atomic_fetch_add_explicit(&g_removed_lo, 1, memory_order_relaxed);
		if (k == to_wide('~')) break;
		if (g_ngot < MAXK) g_got[g_ngot++] = k;
		if (rnd() % 512 == 0) nanosleep(&(struct timespec){.tv_nsec = (long)(rnd() % 300000)}, NULL);
	}
	atomic_store_explicit(&g_done, true, memory_order_relaxed);
	return NULL;
}
static void hex16(const char *n, const u16 *v, int c) {
	printf(",\"%s\":\"", n);
	for (int i = 0; i < c; ++i) printf("%04x", v[i]);
	printf("\"");
}
static void finish(void) {
	printf(",\"err\":%u,\"races\":%d,\"locks\":%ld,\"switches\":%ld,\"hash\":\"%016llx\",\"ticks\":%ld,\"time\":%lld}\n", (unsigned)P->exec.error, atomic_load_explicit(&g_races, memory_order_relaxed),
	       atomic_load_explicit(&g_locks, memory_order_relaxed), atomic_load_explicit(&g_switches, memory_order_relaxed), (unsigned long long)atomic_load_explicit(&g_hash, memory_order_relaxed), atomic_load_explicit(&g_ticks, memory_order_relaxed), (long long)get_time(&P->time));
	fflush(stdout);
	_exit(0);
}

int main(int argc, char **argv) {
	if (argc < 8) return 97;
	const char *mode = argv[1];
	g_seed = strtoull(argv[2], NULL, 10) * 2654435761u + 1;
	g_total = atoi(argv[3]); g_burst = atoi(argv[4]); g_retry = atoi(argv[5]); g_delay = atoi(argv[6]); g_fast = atoi(argv[7]);
	if (g_total > MAXK) g_total = MAXK;
	alarm(60);
	up();
	t_rng = 0;
	pthread_t tp, tt, tf[2];
	if (!strcmp(mode, "keys") || !strcmp(mode, "native")) {
		g_native = !strcmp(mode, "native");
		if (!g_native) {
			snprintf(g_src, sizeof g_src, "@L\rC$=INKEY$()\rIF C$==\"\" THEN @L\rIF C$==\"~\" THEN END\rA(I)=ASC(C$)\rI=I+1\rGOTO @L\r");
			char dim[64];
			snprintf(dim, sizeof dim, "DIM A(%d)\rI=0\r", g_total + 2);
			program(dim);
			g_ignore = numvar("I");
		}
		pthread_create(&tf[0], NULL, frames, NULL);
		pthread_create(&tt, NULL, typist, NULL);
		pthread_create(&tp, NULL, g_native ? taker : prog_main, NULL);
		pthread_join(tp, NULL);
		pthread_join(tt, NULL);
		atomic_store_explicit(&g_stop, true, memory_order_relaxed);
		pthread_join(tf[0], NULL);
		if (!g_native) {
			struct named_var *v = get_var(&P->vars, "A", 1, VAR_NUMBER | VAR_ARRAY);
			union value *d = arr_data(v->value.ptr);
			g_ngot = (int)(numvar("I")->number >> 12);
			for (int i = 0; i < g_ngot && i < MAXK; ++i) g_got[i] = (u16)to_wide((u8)(d[i].number >> 12));
		}
		u16 rest[300]; int nr = 0;
		for (u16 k; nr < 300 && (k = get_inkey(&P->input)); ) rest[nr++] = k;
		printf("{\"offered\":%d,\"rejected\":%d,\"bad_reject\":%d,\"bad_accept\":%d,\"maxfill\":%d", g_offered, g_rejected, g_bad_reject, g_bad_accept, g_maxfill);
		hex16("in", g_keys, g_nkeys);
		hex16("out", g_got, g_ngot);
		hex16("rest", rest, nr);
		finish();
	}
	if (!strcmp(mode, "poll")) {
		/* every value the program sees is kept in a bit set / list */
		snprintf(g_src, sizeof g_src,
			"FOR I=0 TO %d\rA(I,0)=BUTTON()\rA(I,1)=BUTTON(1)\rA(I,2)=BUTTON(2)\rA(I,3)=BUTTON(3)\rA(I,4)=BTRIG()\r"
			"A(I,5)=TCHX:A(I,6)=TCHY:A(I,7)=TCHTIME:A(I,8)=TCHST:A(I,9)=MAINCNTL\rIF I%%7==0 THEN BREPEAT I%%11,0,I%%3\rNEXT\r", g_total - 1);
		char dim[64];
		snprintf(dim, sizeof dim, "DIM A(%d,10)\r", g_total);
		program(dim);
		pthread_create(&tf[0], NULL, frames, NULL);
		pthread_create(&tf[1], NULL, frames, (void *)1);
		pthread_create(&tp, NULL, prog_main, NULL);
		pthread_join(tp, NULL);
		atomic_store_explicit(&g_stop, true, memory_order_relaxed);
		pthread_join(tf[0], NULL);
		pthread_join(tf[1], NULL);
		struct named_var *v = get_var(&P->vars, "A", 1, VAR_NUMBER | VAR_ARRAY);
		union value *d = arr_data(v->value.ptr);
		u32 d1 = arr_size(v->value.ptr, ARR_DIM1);
		(void)d1;
		printf("{\"rows\":[");
		for (int i = 0; i < g_total * 10; ++i) printf("%s%d", i ? "," : "", d[i].number >> 12);
		printf("]");
		finish();
	}
	if (!strcmp(mode, "line")) {
		snprintf(g_src, sizeof g_src, "FOR I=0 TO %d\rLINPUT S$\rA$(I)=S$\rNEXT\r", g_total - 1);
		char dim[64];
		snprintf(dim, sizeof dim, "DIM A$(%d)\r", g_total);
		program(dim);
		g_nobuttons = 1;
		pthread_create(&tf[0], NULL, frames, NULL);
		pthread_create(&tp, NULL, prog_main, NULL);
		/* no buttons held: the frame thread's masks would edit the line */
		t_id = 1; t_rng = g_seed * 77 + 5;
		printf("{\"lines\":[");
		for (int i = 0; i < g_total; ++i) {
			int n = (int)(rnd() % 30);
			printf("%s\"", i ? "," : "");
			for (int j = 0; j <= n; ++j) {
				u16 k = j == n ? '\r' : to_wide((u8)(48 + rnd() % 60));
				if (j < n) printf("%04x", k);
				while (!set_inkey(&P->input, k)) sched_yield();
				if (rnd() % (uint64_t)(g_burst + 1) == 0) nanosleep(&(struct timespec){.tv_nsec = (long)(rnd() % 400000)}, NULL);
			}
			printf("\"");
		}
		pthread_join(tp, NULL);
		atomic_store_explicit(&g_stop, true, memory_order_relaxed);
		pthread_join(tf[0], NULL);
		struct named_var *v = get_var(&P->vars, "A", 1, VAR_STRING | VAR_ARRAY);
		union value *d = arr_data(v->value.ptr);
		printf("],\"got\":[");
		for (int i = 0; i < g_total; ++i) {
			printf("%s\"", i ? "," : "");
			for (u32 j = 0; j < str_len(d[i].ptr); ++j) printf("%04x", str_at_wide(d[i].ptr, (u16)j));
			printf("\"");
		}
		printf("]");
		finish();
	}
	return 97;
}
