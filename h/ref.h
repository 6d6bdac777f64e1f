/* Reference JSON: value trees, strict parser, generator, comparison with the library's values.
   Written from RFC 8259 and the documented deviations; shares no code with the library. */
#ifndef REF_H
#define REF_H
#include "hx.h"
#include "cee.h"
#include "cee-json.h"
enum { JN, JB, JI, JU, JD, JS, JA, JO, JX /* STRN */, JBLOB, JUND };
typedef struct jv jv;
struct jv {
  int t, b;
  int64_t i; uint64_t u; double d;
  char *s; size_t n;          /* string bytes (NUL appended) */
  jv **e; char **k; size_t c, cap;   /* members / elements; keys are C strings */
  uint32_t *ix; size_t icap, ic;     /* large objects: hash index over the first ic keys */
  void *real;                 /* the library's value, where the driver tracks it */
};
void *ar_alloc(size_t n);     /* per-case arena */
void ar_reset(void);
char *ar_str(const char *s, size_t n);
jv *jv_new(int t);
jv *jv_i(int64_t i); jv *jv_u(uint64_t u); jv *jv_d(double d); jv *jv_s(const char *s, size_t n); jv *jv_b(int b);
void jv_push(jv *a, jv *v);
void jv_ins(jv *a, size_t at, jv *v);
long jv_find(const jv *o, const char *k);
jv *jv_get(const jv *o, const char *k);
void jv_set(jv *o, const char *k, jv *v);          /* last wins, keeps the place of an existing key */
void jv_del(jv *o, size_t at);
jv *jv_copy(const jv *v);
size_t jv_depth(const jv *v);
size_t jv_nodes(const jv *v);
/* equality; numeric: integral doubles may read back as integers; any order of members if !order */
#define JEQ_NUMERIC 1
#define JEQ_ANYORDER 2
int jv_eq(const jv *a, const jv *b, int how);
char *jv_show(const jv *v);                        /* for messages; arena */

/* strict parser. 1 accept, 0 reject. *unspec: set of REF_U_* the text touches */
#define REF_U_UTF8 1      /* bytes that are not valid UTF-8 */
#define REF_U_SURR 2      /* lone surrogate escapes */
#define REF_U_NUL 4       /* the escape for U+0000 */
#define REF_U_COMMENT 8
#define REF_U_DEPTH 16    /* nesting beyond 500 */
#define REF_U_GIVEUP 64   /* the reference parser stopped (extreme nesting) */
#define REF_U_TRAIL 128   /* a comma before a closing bracket: read, but never to be printed */
#define REF_U_RANGE 32    /* number beyond the range of a double */
int ref_parse(const char *p, size_t n, int eof, jv **out, unsigned *unspec);
size_t ref_lines(const char *p, size_t n);         /* highest line number an error may name */

/* compare the library's value with the model; returns NULL or a description (arena) */
char *real_diff(struct cee_json *r, const jv *m, int how);
void real_observe(struct cee_json *r);             /* into the transcript */

/* generator */
typedef struct { int maxdepth, width; int strn, blob, nul, nonfinite, keyrange, und; int ascii; } jopt;
jv *gen_jv(const jopt *o, int depth);
char *gen_text(size_t *n, int maxchars);           /* valid UTF-8, no NUL */
char *gen_key(const jopt *o);
jv *gen_vast(int kind, int strn);                  /* 0 array, 1 object, 2 texts */
double gen_double(void);
int64_t gen_i64(void);
/* write a text that denotes v in a random style (blanks, escapes, trailing commas, duplicate keys) */
char *emit_text(const jv *v, int style, size_t *n);
#define ST_WS 1
#define ST_ESC 2
#define ST_TRAIL 4
#define ST_DUP 8
#define ST_NUM 16
struct cee_json *real_build(struct cee_state *st, const jv *v);   /* through the API */
#endif
