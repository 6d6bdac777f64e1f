#include "hx.h"
#include "ref.h"
void d_c25(void); void d_c26(void); void d_c27(void); void d_c28(void);
#define D(x) static void r_##x(void) { ar_reset(); d_##x(); }
D(c25) D(c26) D(c27) D(c28)
hx_driver hx_drivers[] = { { "c25", r_c25 }, { "c26", r_c26 }, { "c27", r_c27 }, { "c28", r_c28 }, { 0, 0 } };
