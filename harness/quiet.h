/* Force-included into every /repo source: silences the debug log (iprintf
 * expands to printf) while leaving assertions active. */
#ifndef VERIF_QUIET_H
#define VERIF_QUIET_H
#include <stdio.h>
static inline int verif_quiet(const char *f, ...) { (void)f; return 0; }
#ifndef VERIF_LOUD
#define printf(...) verif_quiet(__VA_ARGS__)
#endif
#endif
