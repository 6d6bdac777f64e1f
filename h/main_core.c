#include "hx.h"
#include "drv.h"
#include <errno.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t n) {
  if (hx_inlib && hx_oom_malloc && !--hx_oom_malloc) { hx_oom_fired++; errno = ENOMEM; return NULL; }
  return __real_malloc(n);
}
void *__wrap_calloc(size_t n, size_t m) {
  if (hx_inlib && hx_oom_calloc && !--hx_oom_calloc) { hx_oom_fired++; errno = ENOMEM; return NULL; }
  return __real_calloc(n, m);
}
__attribute__((constructor)) static void can_oom(void) { hx_can_oom = 1; }
hx_driver hx_drivers[] = {
  { "c06", d_c06 }, { "c07", d_c07 }, { "c08", d_c08 }, { "c09", d_c09 }, { "c10", d_c10 }, { "c11", d_c11 },
  { "c12", d_c12 }, { "c13", d_c13 }, { "c14", d_c14 }, { "c15", d_c15 }, { "c31", d_c31 },
  { 0, 0 } };
