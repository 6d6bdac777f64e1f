#include "hx.h"
#include "ref.h"
#include "drvj.h"
#include <unistd.h>
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (hx_inlib && hx_short_read && n > hx_short_read) { n = hx_short_read; hx_short_reads++; }
  return __real_read(fd, b, n);
}
#define D(x) static void r_##x(void) { ar_reset(); d_##x(); }
D(c16r) D(c17r) D(c18r) D(c16) D(c17) D(c18) D(c19) D(c20) D(c21) D(c22) D(c23) D(c24)
D(c01) D(c02) D(c03) D(c04) D(c05)
hx_driver hx_drivers[] = {
  { "c16r", r_c16r }, { "c17r", r_c17r }, { "c18r", r_c18r }, { "c16", r_c16 }, { "c17", r_c17 }, { "c18", r_c18 }, { "c19", r_c19 }, { "c20", r_c20 }, { "c21", r_c21 }, { "c22", r_c22 }, { "c23", r_c23 }, { "c24", r_c24 },
  { "c01", r_c01 }, { "c02", r_c02 }, { "c03", r_c03 }, { "c04", r_c04 }, { "c05", r_c05 },
  { 0, 0 } };
