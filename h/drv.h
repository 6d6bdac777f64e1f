#ifndef DRV_H
#define DRV_H
void d_c06(void); void d_c07(void); void d_c08(void); void d_c09(void); void d_c10(void); void d_c11(void);
void d_c12(void); void d_c13(void); void d_c14(void); void d_c15(void); void d_c31(void);
#endif
