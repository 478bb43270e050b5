/* drv.c with the whole PC program: main.c itself runs on the software CSFML */
#define WITH_DISPLAY 1
#define WITH_FRONT 1
#include <SFML/Graphics.h>
#include "drv.c"
