/* preloaded into replays: fresh heap memory holds a chosen byte (VERIF_FILL) */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
extern void* __libc_malloc(size_t);
static int fill = -2;
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (fill == -2) { fill = -1; const char* e = getenv("VERIF_FILL"); if (e) fill = atoi(e); }
  if (p && fill >= 0) memset(p, fill, n);
  return p;
}
