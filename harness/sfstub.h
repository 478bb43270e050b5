/* What the software CSFML shows to the harness. */
#ifndef SFSTUB_H
#define SFSTUB_H
#define FB_W 256
#define FB_H 384
extern unsigned char sf_fb[FB_H][FB_W][3];   /* last finished or current frame */
extern int sf_cleared, sf_displayed, sf_draws;
extern int sf_live_tex, sf_live_va, sf_live_spr, sf_live_view, sf_live_shader, sf_live_win;
extern long sf_frags;
extern int sf_noshader;                     /* draws without the palette shader */
struct sf_script;
extern int (*sf_poll_hook)(void *event);     /* front end: fills an sfEvent */
extern void (*sf_frame_hook)(void);          /* after sfRenderWindow_display */
extern int (*sf_key_hook)(int code);
extern void (*sf_mouse_hook)(int *x, int *y, int *pressed);
extern int sf_win_w, sf_win_h, sf_open, sf_blind;
#endif
