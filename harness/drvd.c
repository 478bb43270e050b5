/* drv.c with the real PC display, drawing through the software CSFML of sfstub.c */
#define WITH_DISPLAY 1
#include <SFML/Graphics.h>
#include "drv.c"
