#ifndef DRVJ_H
#define DRVJ_H
void d_c16(void); void d_c17(void); void d_c18(void); void d_c19(void); void d_c20(void); void d_c21(void);
void d_c22(void); void d_c23(void); void d_c24(void);
void d_c01(void); void d_c02(void); void d_c03(void); void d_c04(void); void d_c05(void);
void d_c16r(void); void d_c17r(void); void d_c18r(void);
struct cee_state; struct cee_json; struct jv;
void seeds_load(void);
char *mutate(char *p, size_t *n, int times);
#endif
