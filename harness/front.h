/* Runs the real main() of the PC program in its thread; what a user does at
 * the window (typing, keys, mouse, resizing, closing) comes from a script.
 *
 * front <program|-> <inputs file|-> <items>
 * items are separated by ';', each lasts one frame unless it says more:
 *   u<hex8>        one TextEntered event       e<type> another kind of event
 *   K<code>,       key held                    m<x>,<y>,<buttons>, mouse
 *   w<W>,<H>,      window resized              f<N>, lasts N frames
 *   t<hex>,        lasts until the console shows this text (16 bit codes)
 *   d              its frames last as long as real ones
 *   o              record what there is        x closes the window
 * An item waiting longer than 15 s gives up: "stuck" tells which. */
#include <SFML/Window.h>
int sbc_main(int argc, char **argv);
struct ptc *__real_init_system(int var, int str, int arr, bool headless);
static struct ptc *volatile f_ptc;
struct ptc *__wrap_init_system(int var, int str, int arr, bool headless) {
	f_ptc = __real_init_system(var, str, arr, headless);
	return f_ptc;
}
static char **f_item; static int f_items, f_cur;
static int f_frames, f_stuck = -1, f_first, f_closed;
static double f_since;
static unsigned f_ev[64]; static int f_evn, f_evi;
static int f_keys[8], f_nkeys, f_mx, f_my, f_mp, f_len;
static char *f_text; static int f_slow;
static _Atomic int f_returned;
static double f_now(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static void f_load(void) {
	f_evn = f_evi = f_nkeys = f_mp = 0; f_mx = f_my = -1; f_len = 1; f_slow = 0; f_text = NULL; f_first = 1;
	f_since = f_now();
	if (f_cur >= f_items) { f_ev[f_evn++] = 1u << 31; return; }
	for (char *s = f_item[f_cur]; *s; ) {
		char c = *s++;
		if (c == 'u') { char h[9]; memcpy(h, s, 8); h[8] = 0; f_ev[f_evn++] = (unsigned)strtoul(h, NULL, 16); s += 8; }
		else if (c == 'x') f_ev[f_evn++] = 1u << 31;
		else if (c == 'e') { f_ev[f_evn++] = 1u << 30 | (unsigned)strtol(s, &s, 10); }
		else if (c == 'K') f_keys[f_nkeys++] = (int)strtol(s, &s, 10);
		else if (c == 'm') { f_mx = (int)strtol(s, &s, 10); f_my = (int)strtol(s + 1, &s, 10); f_mp = (int)strtol(s + 1, &s, 10); }
		else if (c == 'w') { sf_win_w = (int)strtol(s, &s, 10); sf_win_h = (int)strtol(s + 1, &s, 10); }
		else if (c == 'f') f_len = (int)strtol(s, &s, 10);
		else if (c == 'd') f_slow = 1;
		else if (c == 't') { f_text = s; while (*s && *s != ',') ++s; }
	}
}
static int f_poll(void *event) {
	sfEvent *e = event;
	if (f_evi >= f_evn) return 0;
	unsigned u = f_ev[f_evi++];
	memset(e, 0, sizeof *e);
	if (u == 1u << 31) { e->type = sfEvtClosed; if (!f_closed) f_since = f_now(); f_closed = 1; }
	else if (u >> 30 & 1) { e->type = (sfEventType)(u & 0xff); e->key.code = sfKeyA; }
	else { e->type = sfEvtTextEntered; e->text.unicode = u; }
	return 1;
}
static int f_key(int code) { for (int i = 0; i < f_nkeys; ++i) if (f_keys[i] == code) return 1; return 0; }
static void f_mouse(int *x, int *y, int *p) { *x = f_mx; *y = f_my; *p = f_mp; }
static void f_record(const char *tag) {
	struct ptc *p = f_ptc;
	struct sprite_info *s = &p->sprites.info[0][0];
	out("{\"t\":\"%s\",\"item\":%d,\"frame\":%d,\"time\":%lld,\"spr\":%ld,\"bg\":%ld,\"y\":%d,\"text\":[", tag, f_cur, f_frames, (long long)__real_get_time(&p->time),
		(long)s->pos.x, (long)p->background.ofs[0][0].x, (int)p->console.y);
	for (int y = 0; y < CONSOLE_HEIGHT; ++y) { out(y ? ",\"" : "\""); outhex16(p->console.text[y], CONSOLE_WIDTH); out("\""); }
	out("]}\n");
}
static int f_shows(const char *hex) {
	struct console *c = &f_ptc->console;
	size_t n = 0;
	u16 w[64];
	for (; hex[0] && hex[0] != ',' && n < 64; hex += 4) w[n++] = (u16)(hexval(hex[0]) << 12 | hexval(hex[1]) << 8 | hexval(hex[2]) << 4 | hexval(hex[3]));
	for (int y = 0; y < CONSOLE_HEIGHT; ++y) for (int x = 0; x + (int)n <= CONSOLE_WIDTH; ++x) if (!memcmp(&c->text[y][x], w, n * sizeof *w)) return 1;
	return 0;
}
/* one frame has been shown: the next item starts, or this one goes on */
static void f_frame(void) {
	++f_frames;
	f_evi = f_evn;                        /* events happen once */
	__real_nanosleep(&(struct timespec){.tv_nsec = f_slow ? 20000000 : 300000}, NULL);
	if (f_closed || !f_ptc) return;
	bool done = --f_len <= 0;
	if (f_text) done = f_shows(f_text);
	if (!done && f_now() - f_since > 15) { f_stuck = f_cur; done = true; }
	if (!done) return;
	if (f_cur < f_items && (f_stuck >= 0 || strchr(f_item[f_cur], 'o'))) f_record("o");
	if (f_stuck >= 0) f_cur = f_items; else ++f_cur;
	f_load();
}
static void *f_watch(void *a) {
	(void)a;
	while (!f_returned) {
		__real_nanosleep(&(struct timespec){.tv_nsec = 20000000}, NULL);
		if (f_now() - f_since > (f_closed ? 20 : 30)) { /* the program does not end, or no frame comes any more */
			out("{\"t\":\"front\",\"hang\":%d,\"frames\":%d,\"stuck\":%d,\"item\":%d}\n", f_closed ? 1 : 2, f_frames, f_stuck, f_cur);
			fflush(stdout);
			_exit(0);
		}
	}
	return NULL;
}
static void act_front(char *prg, char *inputs, char *items) {
	char *argv[4] = {"sbc", NULL, NULL, NULL};
	int argc = 1;
	if (prg && (strcmp(prg, "-") || (inputs && strcmp(inputs, "-")))) argv[argc++] = prg;
	if (inputs && strcmp(inputs, "-")) argv[argc++] = inputs;
	f_item = calloc(4096, sizeof *f_item);
	f_items = split(items, ';', f_item, 4096);
	sf_poll_hook = f_poll; sf_key_hook = f_key; sf_mouse_hook = f_mouse; sf_frame_hook = f_frame; sf_blind = 1;
	f_cur = 0; f_load();
	pthread_t w;
	pthread_create(&w, NULL, f_watch, NULL);
	int before[6]; live(before);
	int r = sbc_main(argc, argv);
	f_returned = 1;
	pthread_join(w, NULL);
	int now[6]; live(now);
	out("{\"t\":\"front\",\"hang\":0,\"ret\":%d,\"frames\":%d,\"stuck\":%d,\"leak\":%d}\n", r, f_frames, f_stuck, memcmp(now, before, sizeof now) != 0);
}
