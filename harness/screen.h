/* What the two screens have to show, computed dot by dot from the state of the
 * system, topmost layer first, and compared with the image the PC display drew. */
#include "sfstub.h"
#include <math.h>
#define MAXC 48
static struct { int n, any; unsigned char c[MAXC][3]; } W; /* allowed colours of one dot */
static int g_from;        /* layer which decided it */
static const char *const LNAME[] = {"back", "grp3", "spr3", "bg1", "grp2", "spr2", "bg0", "grp1", "spr1", "conbg", "text", "panelbg", "keys",
	"paneltext", "grp0", "spr0", "cursor", "icons"};
enum { L_BACK, L_GRP3, L_SPR3, L_BG1, L_GRP2, L_SPR2, L_BG0, L_GRP1, L_SPR1, L_CONBG, L_TEXT, L_PBG, L_KEYS, L_PTEXT, L_GRP0, L_SPR0, L_CURSOR, L_ICONS, L_N };
static long g_layer[L_N];

/* may[0..15]: texel values possible here */
static int allow(const u16 *pal, int index) {
	u16 s = pal[index];
	unsigned char c[3] = {(unsigned char)((s & 31) << 3), (unsigned char)(((s >> 5) & 31) << 3 | (s >> 15) << 2), (unsigned char)(((s >> 10) & 31) << 3)};
	for (int i = 0; i < W.n; ++i) if (!memcmp(W.c[i], c, 3)) return 0;
	if (W.n == MAXC) { W.any = 1; return 0; }
	memcpy(W.c[W.n++], c, 3);
	return 1;
}
/* texel of a character; banks of one kind are consecutive */
static int texel(struct ptc *p, int bank, int banks, int chr, int x, int y) {
	if (chr < 0 || chr >= 256 * banks) return -1; /* outside the resource: anything */
	u8 b = p->res.chr[bank + chr / 256][(chr % 256) * 32 + y * 4 + x / 2];
	return x & 1 ? b >> 4 : b & 15;
}
/* returns 1 when the dot is decided */
static int opaque(struct ptc *p, int col, int pal, int t) {
	if (t < 0) { W.any = 1; return 1; }
	if (!t) return 0;
	allow(p->res.col[col], pal * 16 + t);
	return 1;
}
static int fl(fixp v) { return (int)(v < 0 ? -((-(long)v + 4095) / 4096) : v / 4096); }
static int sprite_dot(struct ptc *p, struct sprite_info *s, int bank, int banks, int col, int X, int Y, fixp ox, fixp oy) {
	int img = s->anim.current_chr >= 0 ? s->anim.current_chr : s->chr;
	fixp px = s->pos.x + ox, py = s->pos.y + oy;
	if (s->scale.s == 4096 && s->angle.a == 0) {
		int dx = X - (fl(px) - s->home_x), dy = Y - (fl(py) - s->home_y);
		if (dx < 0 || dy < 0 || dx >= s->w || dy >= s->h) return 0;
		if (s->flip_x) dx = s->w - 1 - dx;
		if (s->flip_y) dy = s->h - 1 - dy;
		return opaque(p, col, s->pal, texel(p, bank, banks, 4 * img + dx / 8 + dy / 8 * (s->w / 8), dx % 8, dy % 8));
	}
	double sc = s->scale.s / 4096.0, an = s->angle.a / 4096.0 * 3.14159265358979 / 180;
	double rx = X + .5 - px / 4096.0, ry = Y + .5 - py / 4096.0;
	const double tol = 1.7;
	double lx = rx * cos(an) + ry * sin(an), ly = -rx * sin(an) + ry * cos(an);
	if (sc == 0) return 0; /* no area */
	double x0 = (lx - tol) / sc + s->home_x, x1 = (lx + tol) / sc + s->home_x, y0 = (ly - tol) / sc + s->home_y, y1 = (ly + tol) / sc + s->home_y;
	if (x1 < 0 || y1 < 0 || x0 >= s->w || y0 >= s->h) return 0;
	int clear = x0 < 0 || y0 < 0 || x1 >= s->w || y1 >= s->h;
	int ix0 = x0 < 0 ? 0 : (int)x0, iy0 = y0 < 0 ? 0 : (int)y0, ix1 = x1 >= s->w ? s->w - 1 : (int)x1, iy1 = y1 >= s->h ? s->h - 1 : (int)y1;
	for (int y = iy0; y <= iy1; ++y) for (int x = ix0; x <= ix1; ++x) {
		int dx = s->flip_x ? s->w - 1 - x : x, dy = s->flip_y ? s->h - 1 - y : y;
		int t = texel(p, bank, banks, 4 * img + dx / 8 + dy / 8 * (s->w / 8), dx % 8, dy % 8);
		if (t < 0) { W.any = 1; return 1; }
		if (t) allow(p->res.col[col], s->pal * 16 + t); else clear = 1;
	}
	return !clear;
}
/* shown sprites of a screen and priority, topmost first */
static struct sprite_info *g_spr[2][4][MAX_SPRITES];
static int g_nspr[2][4];
static void spr_lists(struct ptc *p) {
	memset(g_nspr, 0, sizeof g_nspr);
	for (int sc = 0; sc < 2; ++sc) for (int i = MAX_SPRITES - 1; i >= 0; --i) {
		struct sprite_info *s = &p->sprites.info[sc][i];
		if (s->active && s->prio < 4) g_spr[sc][s->prio][g_nspr[sc][s->prio]++] = s;
	}
}
static int spr_layer(struct ptc *p, int sc, int prio, int X, int Y) {
	if (!(p->res.visible & VISIBLE_SPRITE)) return 0;
	if (sc && (p->panel.type != PNL_OFF || !(p->res.visible & VISIBLE_PANEL))) return 0;
	for (int k = 0; k < g_nspr[sc][prio & 3]; ++k) {
		struct sprite_info *s = g_spr[sc][prio & 3][k];
		if (sprite_dot(p, s, sc ? CHR_BANKS + 20 : 12, sc ? 2 : 8, 3 * sc + 1, X, Y, 0, 0)) return 1;
	}
	return 0;
}
static int grp_layer(struct ptc *p, int sc, int prio, int X, int Y) {
	if (!(p->res.visible & VISIBLE_GRAPHICS) || p->graphics.info[sc].prio != prio) return 0;
	if (sc && (!(p->res.visible & VISIBLE_PANEL) || (p->panel.type != PNL_OFF && p->panel.type != PNL_PNL))) return 0;
	/* 64x64 blocks of 8x8 tiles */
	int i = Y / 64 * 16384 + X / 64 * 4096 + Y % 64 / 8 * 512 + X % 64 / 8 * 64 + Y % 8 * 8 + X % 8;
	int t = p->res.grp[p->graphics.info[sc].displaypage][i];
	if (!t) return 0;
	allow(p->res.col[3 * sc + 2], t);
	return 1;
}
static int tile_dot(struct ptc *p, int bank, int banks, int col, u16 td, int x, int y) {
	if (td >> 10 & 1) x = 7 - x;
	if (td >> 11 & 1) y = 7 - y;
	return opaque(p, col, td >> 12, texel(p, bank, banks, td & 1023, x, y));
}
static int bg_layer(struct ptc *p, int sc, int layer, int X, int Y) {
	if (!(p->res.visible & (layer ? VISIBLE_BG1 : VISIBLE_BG0))) return 0;
	int x = (int)((unsigned)(X + fl(p->background.ofs[sc][layer].x)) & 511), y = (int)((unsigned)(Y + fl(p->background.ofs[sc][layer].y)) & 511);
	int tx = x / 8, ty = y / 8;
	/* four quarters of 32x32 tiles */
	u16 td = p->res.scr[SCR_BANKS * sc + 2 + layer][(ty / 32 * 2 + tx / 32) * 1024 + ty % 32 * 32 + tx % 32];
	return tile_dot(p, CHR_BANKS * sc + 8, 4, 3 * sc, td, x % 8, y % 8);
}
static int text_dot(struct ptc *p, struct console *c, int sc, int X, int Y) {
	return opaque(p, 3 * sc, c->color[Y / 8][X / 8] & 15, texel(p, CHR_BANKS * sc, 2, to_char(c->text[Y / 8][X / 8]), X % 8, Y % 8));
}
static int conbg_dot(struct ptc *p, int X, int Y) {
	int b = p->console.color[Y / 8][X / 8] >> 4;
	if (!b) { /* character 0 of BGD, normally empty */
		if (texel(p, 4, 4, 0, X % 8, Y % 8)) W.any = 1;
		return W.any;
	}
	return opaque(p, 0, b, texel(p, 4, 4, 15, X % 8, Y % 8));
}
static int keys_layer(struct ptc *p, int a, int b, int X, int Y) {
	for (int i = b - 1; i >= a; --i) {
		struct sprite_info *s = &p->panel.keys[i];
		fixp o = p->panel.key_pressed && s->vars[0] == p->panel.key_pressed ? 4096 : 0;
		if (s->active && sprite_dot(p, s, CHR_BANKS + 12, 8, 4, X, Y, o, o)) return 1;
	}
	return 0;
}
static void want_dot(struct ptc *p, int sc, int X, int Y) {
	W.n = W.any = 0;
	int kb = p->panel.type != PNL_OFF && p->panel.type != PNL_PNL, pv = !!(p->res.visible & VISIBLE_PANEL);
#define DO(l, cond, f) if (cond) { int k_ = W.n + W.any; if (f) { g_from = l; return; } if (W.n + W.any > k_) g_from = l; }
	g_from = L_BACK;
	if (!sc) {
		if (p->console.cursor_visible) {
			struct sprite_info cu = {.chr = 108, .w = 8, .h = 8, .pos = {.x = (fixp)p->console.x * 8 * 4096, .y = (fixp)p->console.y * 8 * 4096}, .scale = {.s = 4096}, .anim = {.current_chr = -1}};
			DO(L_CURSOR, 1, sprite_dot(p, &cu, 20, 2, 1, X, Y, 0, 0))
		}
	} else DO(L_ICONS, 1, keys_layer(p, KEYBOARD_KEYS, PANEL_KEYS, X, Y))
	DO(L_SPR0, 1, spr_layer(p, sc, 0, X, Y))
	DO(L_GRP0, 1, grp_layer(p, sc, 0, X, Y))
	if (!sc) {
		DO(L_TEXT, p->res.visible & VISIBLE_CONSOLE, text_dot(p, &p->console, 0, X, Y))
		DO(L_CONBG, 1, conbg_dot(p, X, Y))
	} else {
		DO(L_PTEXT, 1, text_dot(p, kb ? p->panel.keys_text : p->panel.text, 1, X, Y))
		DO(L_KEYS, kb && pv, keys_layer(p, 0, KEYBOARD_KEYS, X, Y))
		DO(L_PBG, p->panel.type != PNL_OFF && pv, tile_dot(p, CHR_BANKS + 4, 4, 3, p->res.scr[SCR_BANKS + 1][X / 8 + Y / 8 * 32], X % 8, Y % 8))
	}
	DO(L_SPR1, 1, spr_layer(p, sc, 1, X, Y))
	DO(L_GRP1, 1, grp_layer(p, sc, 1, X, Y))
	DO(L_BG0, 1, bg_layer(p, sc, 0, X, Y))
	DO(L_SPR2, 1, spr_layer(p, sc, 2, X, Y))
	DO(L_GRP2, 1, grp_layer(p, sc, 2, X, Y))
	DO(L_BG1, 1, bg_layer(p, sc, 1, X, Y))
	DO(L_SPR3, 1, spr_layer(p, sc, 3, X, Y))
	DO(L_GRP3, 1, grp_layer(p, sc, 3, X, Y))
	if (W.n == MAXC) W.any = 1; else memset(W.c[W.n++], 0, 3);
}
static int g_drawn, g_shown_bad;
static int g_base[6];
static void live(int *v) { v[0] = sf_live_tex; v[1] = sf_live_va; v[2] = sf_live_spr; v[3] = sf_live_view; v[4] = sf_live_shader; v[5] = sf_live_win; }
/* draws one frame and judges every dot of it */
static void act_draw(void) {
	struct ptc *p = need();
	static char *rw;
	if (!p->display.rw) { if (!rw) rw = (char *)sfRenderWindow_create((sfVideoMode){512, 768, 32}, "", 0, NULL); p->display.rw = (sfRenderWindow *)rw; }
	if (!g_drawn) live(g_base);
	struct sprites *before = malloc(sizeof p->sprites + sizeof p->panel);
	memcpy(before, &p->sprites, sizeof p->sprites);
	memcpy((char *)before + sizeof p->sprites, &p->panel, sizeof p->panel);
	memset(sf_fb, 0x5b, sizeof sf_fb);
	sf_cleared = sf_displayed = sf_noshader = 0;
	display_draw_all(p);
	++g_drawn;
	int now[6];
	live(now);
	spr_lists(p);
	long bad = 0, any = 0, multi = 0;
	memset(g_layer, 0, sizeof g_layer);
	char first[2000] = "";
	size_t fn = 0;
	long badl[L_N] = {0};
	for (int y = 0; y < FB_H; ++y) for (int x = 0; x < FB_W; ++x) {
		int sc = y >= 192;
		want_dot(p, sc, x, y % 192);
		++g_layer[g_from];
		if (W.any) { ++any; continue; }
		if (W.n > 1) ++multi;
		int ok = 0;
		for (int i = 0; i < W.n && !ok; ++i) ok = !memcmp(W.c[i], sf_fb[y][x], 3);
		if (!ok) {
			++bad;
			if (!badl[g_from]++ && fn < 1700)
				fn += (size_t)snprintf(first + fn, sizeof first - fn, "%s{\"s\":%d,\"x\":%d,\"y\":%d,\"got\":\"%02x%02x%02x\",\"want\":\"%02x%02x%02x\",\"n\":%d,\"layer\":\"%s\"}",
					fn ? "," : "", sc, x, y % 192, sf_fb[y][x][0], sf_fb[y][x][1], sf_fb[y][x][2], W.c[0][0], W.c[0][1], W.c[0][2], W.n, LNAME[g_from]);
		}
	}
	unsigned image = 2166136261u;
	for (int y = 0; y < FB_H; ++y) for (int x = 0; x < FB_W; ++x) for (int i = 0; i < 3; ++i) image = (image ^ sf_fb[y][x][i]) * 16777619u;
	int changed = memcmp(before, &p->sprites, sizeof p->sprites) || memcmp((char *)before + sizeof p->sprites, &p->panel, sizeof p->panel);
	free(before);
	out("{\"t\":\"draw\",\"bad\":%ld,\"any\":%ld,\"multi\":%ld,\"cleared\":%d,\"displayed\":%d,\"noshader\":%d,\"leak\":%d,\"changed\":%d,\"visible\":%d,\"image\":%u,\"first\":[%s],\"layers\":{", bad, any, multi,
		sf_cleared, sf_displayed, sf_noshader, memcmp(now, g_base, sizeof now) != 0, changed, (int)p->res.visible, image, first);
	for (int i = 0, f = 1; i < L_N; ++i) if (g_layer[i]) { out("%s\"%s\":%ld", f ? "" : ",", LNAME[i], g_layer[i]); f = 0; }
	out("}}\n");
}
static int screen_action(char **a, int n) {
	if (!strcmp(a[0], "draw")) act_draw();
	else if (!strcmp(a[0], "drawframes")) g_each_frame = n > 1 && atoi(a[1]) ? act_draw : NULL;
	else if (!strcmp(a[0], "visible")) out("{\"t\":\"visible\",\"v\":%d}\n", (int)need()->res.visible);
	else if (!strcmp(a[0], "window")) { g_headless = 0; sys_down(); sys_up(n > 1 ? atoi(a[1]) : VAR_LIMIT, STR_LIMIT, ARR_LIMIT); }
	else if (!strcmp(a[0], "regen")) { struct resources *r = &need()->res; memset(r->regen_chr, 1, sizeof r->regen_chr); r->regen_col = true; }
	else if (!strcmp(a[0], "resthin")) { /* resthin seed: characters with clear dots, sparse tiles and graphics */
		struct resources *r = &need()->res;
		unsigned s = (unsigned)atoi(a[1]);
#define RNG (s = s * 1103515245u + 12345u, s >> 16 & 0x7fff)
		for (int b = 0; b < 2 * CHR_BANKS; ++b) for (int i = 0; i < CHR_SIZE; ++i) r->chr[b][i] = (u8)((RNG % 3 ? 0 : RNG & 15) | (RNG % 3 ? 0 : RNG & 15) << 4);
		for (int b = 0; b < 2; ++b) { memset(r->chr[CHR_BANKS * b + 4], 0, 32); for (int i = 0; i < 32; ++i) r->chr[4 + CHR_BANKS * b][15 * 32 + i] = (u8)(RNG | 0x11); memset(r->chr[CHR_BANKS * b + 8], 0, 32); memset(r->chr[CHR_BANKS * b], 0, 32); }
		for (int b = 0; b < 6; ++b) for (int i = 0; i < 256; ++i) r->col[b][i] = (u16)(RNG << 1 ^ RNG);
		for (int b = 0; b < 8; ++b) for (int i = 0; i < 4096; ++i) r->scr[b][i] = RNG % 2 ? 0 : (u16)(RNG << 1 ^ RNG);
		for (int b = 0; b < 4; ++b) for (int i = 0; i < GRP_SIZE; ++i) r->grp[b][i] = RNG % 4 ? 0 : (u8)RNG;
		memset(r->regen_chr, 1, sizeof r->regen_chr);
		r->regen_col = true;
	}
	else if (!strcmp(a[0], "windown")) { sys_down(); int v[6]; live(v); out("{\"t\":\"live\",\"v\":[%d,%d,%d,%d,%d]}\n", v[0], v[1], v[2], v[3], v[4]); }
	else return 0;
	return 1;
}
