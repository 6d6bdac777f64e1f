#include "hx.h"
void d_c29(void);
hx_driver hx_drivers[] = { { "c29", d_c29 }, { 0, 0 } };
