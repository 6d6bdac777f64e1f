#include "hx.h"
#include "ref.h"
void d_c05t(void);
static void r_c05t(void) { ar_reset(); d_c05t(); }
hx_driver hx_drivers[] = { { "c05t", r_c05t }, { 0, 0 } };
