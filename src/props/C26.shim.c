/* Refuses big blocks if asked to, so that the interpreter can be seen running out of memory. */
#include <stdlib.h>
void *__real_malloc(size_t n); void *__real_realloc(void *p, size_t n);
static size_t limit(void) { static size_t l; if(!l) { const char *e = getenv("NK_REFUSE_ABOVE"); l = e ? (size_t)atol(e) : (size_t)-1; } return l; }
void *__wrap_malloc(size_t n) { return n > limit() ? 0 : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { return n > limit() ? 0 : __real_realloc(p, n); }
