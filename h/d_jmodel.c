/* C20 (object/array model, typed getters), C21 (merge), C22 (selectors, key search), C24 (files). */
#include "ref.h"
#include "drvj.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>

static void finish(struct cee_state *st) {
  LV(cee_del(st));
  if (!hx_warm && hx_track && hx_live_blocks()) { char b[300]; hx_describe_live(0, b, sizeof b); FAIL("%llu blocks are left after the state is deleted: %s", (unsigned long long)hx_live_blocks(), b); }
  if (hx_live_blocks()) hx_forget_all();
}
/* ---------- C20 */
#define NPOOL 8
static int reaches(const jv *from, const jv *to) {
  if (from == to) return 1;
  if (from->t == JA || from->t == JO) for (size_t i = 0; i < from->c; i++) if (reaches(from->e[i], to)) return 1;
  return 0;
}
/* attach the library's value to every model node */
static void bind_real(jv *m, struct cee_json *r) {
  m->real = r;
  if (m->t == JA) for (size_t i = 0; i < m->c; i++) bind_real(m->e[i], L(cee_json_array_get(r, (int)i)));
  if (m->t == JO) for (size_t i = 0; i < m->c; i++) bind_real(m->e[i], L(cee_json_object_get(r, m->k[i])));
}
static void getters(jv *m) {
  struct cee_json *r = m->real;
  int64_t i64 = 0x1122334455667788; uint64_t u64 = 0x99; int in = 424242; double d = 1.5e300; bool b = true; char *sp = (char *)1; size_t sn = 3;
  int e = cee_json_to_i64x(r, &i64);
  if (m->t == JI) CK(!e && i64 == m->i, "to_i64x of %s gives %lld (%d)", jv_show(m), (long long)i64, e); else CK(e && i64 == 0x1122334455667788, "to_i64x accepts %s", jv_show(m));
  e = cee_json_to_u64x(r, &u64);
  if (m->t == JU) CK(!e && u64 == m->u, "to_u64x of %s is wrong", jv_show(m)); else CK(e && u64 == 0x99, "to_u64x accepts %s", jv_show(m));
  e = cee_json_to_intx(r, &in);
  if (m->t == JI && m->i >= INT_MIN && m->i <= INT_MAX) CK(!e && in == m->i, "to_intx of %s gives %d (%d)", jv_show(m), in, e); else CK(e && in == 424242, "to_intx accepts %s as %d", jv_show(m), in);
  e = cee_json_to_doublex(r, &d);
  if (m->t == JD) CK(!e && !memcmp(&d, &m->d, 8), "to_doublex of %s is wrong", jv_show(m)); else CK(e && d == 1.5e300, "to_doublex accepts %s", jv_show(m));
  b = m->t == JB ? !m->b : true;
  e = cee_json_to_boolx(r, &b);
  if (m->t == JB) CK(!e && b == m->b, "to_boolx of %s is wrong", jv_show(m)); else CK(e && b == true, "to_boolx accepts %s", jv_show(m));
  struct cee_str *s = cee_json_to_str(r);
  if (m->t == JS) CK(s && !strcmp((char *)s, m->s), "to_str of %s is wrong", jv_show(m)); else CK(!s, "to_str accepts %s", jv_show(m));
  e = cee_json_to_strn(r, &sp, &sn);
  if (m->t == JX) CK(e && sn == m->n && sp == m->s, "to_strn of %s is wrong", jv_show(m)); else CK(!e && sp == (char *)1 && sn == 3, "to_strn accepts %s", jv_show(m));
  CK(!!cee_json_to_array(r) == (m->t == JA), "to_array of %s", jv_show(m));
  CK(!!cee_json_to_object(r) == (m->t == JO), "to_object of %s", jv_show(m));
  CK(!!cee_json_to_boxed(r) == (m->t == JI || m->t == JU || m->t == JD), "to_boxed of %s", jv_show(m));
  struct cee_block *bl = cee_json_to_blob(r);
  if (m->t == JBLOB) CK(bl && cee_block_size(bl) == m->n && !memcmp(bl, m->s, m->n), "to_blob of %s is wrong", jv_show(m)); else CK(!bl, "to_blob accepts %s", jv_show(m));
  CK(!!cee_json_empty(r) == ((m->t == JA || m->t == JO) && m->c == 0), "cee_json_empty of %s", jv_show(m));
  if (m->t == JA) {
    CK(cee_json_array_length(r) == m->c, "array_length of %s", jv_show(m));
    CK(!cee_json_array_get(r, (int)m->c) && !cee_json_array_get(r, -1) && !cee_json_array_get(r, INT_MAX) && !cee_json_array_get(r, INT_MIN), "array_get outside the array finds something");
  }
  COUNT("typed reads");
}
struct itc { int n, stop; struct cee_json *v[400]; char *k[400]; };
static int it_arr(void *c, struct cee_json *v, int idx) { struct itc *x = c; if (idx != x->n) x->stop = -1000; if (x->n < 400) x->v[x->n] = v; x->n++; return x->n == x->stop ? 9 : 0; }
static int it_obj(void *c, struct cee_str *k, struct cee_json *v) { struct itc *x = c; if (x->n < 400) { x->v[x->n] = v; x->k[x->n] = (char *)k; } x->n++; return x->n == x->stop ? 9 : 0; }

static jv *new_value(struct cee_state *st, jv **pool, jv *target) {
  static const jopt o = { .maxdepth = 2, .width = 3, .keyrange = 6, .strn = 1, .blob = 1, .nonfinite = 1, .und = 1 };
  if (chance(15)) { jv *p = pool[rnd(NPOOL)]; if (!reaches(p, target)) { COUNT("values shared"); return p; } }
  jv *v = gen_jv(&o, chance(70) ? 2 : 0);
  bind_real(v, real_build(st, v));
  return v;
}
static char *intish(void) {
  static const char *s[] = { "0", "-0", "12", "-7", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "", "x", "1x", "1.5", "12 ", "-", "0x10", "1e3", "99999999999999999999999999", "007" };
  if (chance(30)) { char b[32]; snprintf(b, sizeof b, "%lld", (long long)gen_i64()); return ar_str(b, strlen(b)); }
  const char *t = s[rnd(sizeof s / sizeof *s)];
  return ar_str(t, strlen(t));
}
static int ref_i64(const char *s, int64_t *v) {
  int neg = *s == '-';
  const char *p = s + neg;
  if (!*p) return 0;
  unsigned __int128 x = 0;
  for (; *p; p++) { if (*p < '0' || *p > '9') return 0; x = x * 10 + (*p - '0'); if (x >> 70) return 0; }
  if (x > (unsigned __int128)INT64_MAX + neg) return 0;
  *v = neg ? (int64_t)(0 - (uint64_t)x) : (int64_t)x;
  return 1;
}
static jv *any_node(jv *v) { while ((v->t == JA || v->t == JO) && v->c && chance(70)) v = v->e[rnd(v->c)]; return v; }
/* documents of hundreds to tens of thousands of members */
struct bigit { char *seen; int n; size_t cap; const char *bad; struct cee_json **v; };
static int big_obj(void *c, struct cee_str *k, struct cee_json *v) {
  struct bigit *x = c; char *e; long i = ((char *)k)[0] == 'm' ? strtol((char *)k + 1, &e, 10) : -1;
  x->n++;
  if (i < 0 || (size_t)i >= x->cap || *e) x->bad = "a key nobody set"; else if (x->seen[i]) x->bad = "a member a second time"; else { x->seen[i] = 1; if (x->v[i] != v) x->bad = "another value for a key"; }
  return 0;
}
static int big_arr(void *c, struct cee_json *v, int i) { struct bigit *x = c; if (i != x->n || (size_t)i >= x->cap || x->v[i] != v) x->bad = "an element out of its place"; x->n++; return 0; }
static void c20_big(struct cee_state *st) {
  size_t n = chance(25) ? 65500 + rnd(5000) : chance(50) ? 200 + rnd(300) : 1000 + rnd(9000), left = 0;
  struct cee_json **val = calloc(n * 2, sizeof *val); char *seen = calloc(n, 1);
  if (chance(50)) {
    struct cee_json *o = L(cee_json_object_mk(st));
    uint64_t a = rnd64() | 1, b = rnd64(); int how = (int)rnd(3);
    OP("an object of %zu members, order %d", n, how); hx->sig = hx_mix(hx->sig, n * 3 + how);
    for (size_t i = 0; i < n; i++) {
      size_t w = how == 0 ? i : how == 1 ? n - 1 - i : 0; char k[32];
      if (how == 2) { do w = (size_t)((a * ++b) >> 17) % n; while (0); }
      snprintf(k, sizeof k, "m%zu", w);
      int was = val[w] != NULL;
      LV(cee_json_object_set_i64(o, k, (int64_t)w)); val[w] = L(cee_json_object_get(o, k)); left += !was;
      CK(val[w], "member %s is not there after it was set", k);
    }
    for (int round = 0; round < 2; round++) {
      struct bigit x = { seen, 0, n, NULL, val }; memset(seen, 0, n);
      CK(L(cee_json_object_iterate(o, &x, big_obj)) == 0 && !x.bad, "iterating %zu members gives %s", left, x.bad ? x.bad : "a result");
      CK((size_t)x.n == left, "iteration visits %d of %zu members", x.n, left);
      for (size_t i = 0; i < n; i++) { char k[32]; snprintf(k, sizeof k, "m%zu", i); int64_t q = -1; struct cee_json *g = L(cee_json_object_get(o, k)); CK(g == val[i], "member %s of %zu is %s", k, left, g ? "another value" : "missing"); if (g) CK(!cee_json_to_i64x(g, &q) && q == (int64_t)i, "member %s reads %lld", k, (long long)q); }
      if (round) break;
      for (size_t i = 0; i < n; i++) if (chance(30)) {
        char k[32], to[32]; snprintf(k, sizeof k, "m%zu", i);
        if (chance(70)) { LV(cee_json_object_remove(o, k)); if (val[i]) left--; val[i] = NULL; }
        else { size_t j = rnd(n); snprintf(to, sizeof to, "m%zu", j); if (i == j) continue; CK(L(cee_json_object_rename(o, k, to)) == !!val[i], "rename of %s", k); if (val[i]) { struct cee_json *g = L(cee_json_object_get(o, to)); CK(g == val[i], "renaming %s to %s lost the value", k, to); if (val[j]) left--; LV(cee_json_object_set_i64(o, to, (int64_t)j)); val[j] = L(cee_json_object_get(o, to)); val[i] = NULL; } }
      }
    }
    COUNTMAX("object size", left); COUNT("objects of many members");
  } else {
    struct cee_json *a = L(cee_json_array_mk(st, (int)rnd(20)));
    int mode = (int)rnd(3);
    OP("an array of %zu elements, way %d", n, mode); hx->sig = hx_mix(hx->sig, n * 3 + mode + 1000000);
    for (size_t i = 0; i < n; i++) {
      struct cee_json *v = L(cee_json_i64_mk(st, (int64_t)i)); size_t at = left;
      if (mode == 1 && n < 12000 && chance(30)) { at = rnd(left + 1); memmove(val + at + 1, val + at, (left - at) * sizeof *val); LV(cee_json_array_insert(a, (int)at, v)); }
      else LV(cee_json_array_append(a, v));
      val[at] = v; left++;
      if (mode == 2 && n < 12000 && chance(20)) { at = rnd(left); LV(cee_json_array_remove(a, (int)at)); memmove(val + at, val + at + 1, (--left - at) * sizeof *val); }
    }
    if (chance(30)) { LV(cee_json_array_concat(a, a)); memcpy(val + left, val, left * sizeof *val); left *= 2; }
    CK(cee_json_array_length(a) == left, "an array of %zu elements says it has %zu", left, (size_t)cee_json_array_length(a));
    for (size_t i = 0; i < left; i++) CK(L(cee_json_array_get(a, (int)i)) == val[i], "element %zu of %zu is another one", i, left);
    struct bigit x = { NULL, 0, left, NULL, val };
    CK(L(cee_json_array_iterate(a, &x, big_arr)) == 0 && !x.bad && (size_t)x.n == left, "iterating %zu elements visits %d, %s", left, x.n, x.bad ? x.bad : "");
    COUNTMAX("array length", left); COUNT("arrays of many elements");
  }
  free(val); free(seen);
  hx->nontrivial = 1;
  finish(st);
}
static char *long_text(size_t *n) { *n = 100 + rnd(chance(20) ? 100000 : 2000); char *t = ar_alloc(*n + 1); for (size_t i = 0; i < *n; i++) t[i] = 'a' + (i * 7 + *n) % 26; t[*n] = 0; COUNT("long texts"); return t; }
static char *c20_key(int range) {
  static const char *const odd[] = { "", "%s", "%d", "100%", "%%", "%n%s", "K0", "k", "k00", "\"", "\\", "\xc3\xa9" };
  static const int len[] = { 31, 40, 63, 128, 255, 256, 300, 6000, 40 };
  char b[40];
  if (chance(88)) { snprintf(b, sizeof b, "k%d", (int)rnd(range)); return ar_str(b, strlen(b)); }
  if (chance(50)) { const char *o = odd[rnd(sizeof odd / sizeof *odd)]; COUNT("unusual keys"); return ar_str(o, strlen(o)); }
  int n = len[rnd(chance(20) ? 8 : 5)]; char *t = ar_alloc(n + 2); memset(t, 'l', n); t[n] = 'a' + rnd(3); t[n + 1] = 0; COUNT("long keys");
  return t;
}
void d_c20(void) {
  struct cee_state *st = L(cee_state_mk(8));
  jv *pool[NPOOL];
  if (hx->casenr % 487 == 9) { c20_big(st); return; }
  for (int i = 0; i < NPOOL; i++) {
    pool[i] = jv_new(i % 2 ? JA : JO);
    pool[i]->real = i % 2 ? L(cee_json_array_mk(st, (int)rnd(8))) : L(cee_json_object_mk(st));
    if (chance(10)) pool[i]->real = i % 2 ? L(cee_list_to_json(L(cee_list_mk(st, 4)))) : L(cee_map_to_json(L(cee_map_mk(st, (cee_cmp_fun)strcmp))));
  }
  int steps = (int)rndr(10, hx_thorough ? 120 : 60), keyr = chance(70) ? 6 : 60;
  for (int s = 0; s < steps; s++) {
    jv *o = pool[rnd(NPOOL / 2) * 2], *a = pool[rnd(NPOOL / 2) * 2 + 1], *touched = o;
    char *k = c20_key(keyr);
    if (o->c && chance(30)) { const char *have = o->k[rnd(o->c)]; k = ar_str(have, strlen(have)); }
    if (chance(5)) { size_t n; k = chance(5) ? long_text(&n) : gen_text(&n, 8); }
    long at = jv_find(o, k);
    int op = (int)rnd(22);
    switch (op) {
      case 0: case 1: case 2: {      /* set, typed or not */
        int w = (int)rnd(8);
        OP("set .%s how=%d present=%d", k, w, at >= 0);
        jv *v;
        switch (w) {
          case 0: v = jv_new(JN); LV(cee_json_object_set_null(o->real, k)); break;
          case 1: v = jv_b((int)rnd(2)); LV(cee_json_object_set_bool(o->real, k, v->b)); break;
          case 2: v = jv_i(gen_i64()); LV(cee_json_object_set_i64(o->real, k, v->i)); break;
          case 3: v = jv_u(rnd64()); LV(cee_json_object_set_u64(o->real, k, v->u)); break;
          case 4: v = jv_d(gen_double()); LV(cee_json_object_set_double(o->real, k, v->d)); break;
          case 5: { size_t n; char *t = chance(50) ? intish() : chance(3) ? long_text(&n) : gen_text(&n, 20); v = jv_s(t, strlen(t)); LV(cee_json_object_set_str(o->real, k, t)); break; }
          case 6: { int x = (int)rnd64(); size_t n; char *t = chance(3) ? long_text(&n) : gen_text(&n, 10), *big = ar_alloc(n * 4 + 64); sprintf(big, "%d|%s|", x, t); v = jv_s(big, strlen(big)); LV(cee_json_object_set_strf(o->real, k, "%d|%s|", x, t)); break; }
          default: v = new_value(st, pool, o); LV(cee_json_object_set(o->real, k, v->real));
        }
        jv_set(o, k, v);
        struct cee_json *g = L(cee_json_object_get(o->real, k));
        CK(g, ".%s is not there after it was set", k);
        if (v->real) CK(g == v->real, ".%s is not the value that was set", k); else bind_real(v, g);
        COUNT("sets"); if (at >= 0) COUNT("members replaced");
        break;
      }
      case 3: case 4: {      /* append to a key */
        jv *v = new_value(st, pool, o);
        if (at >= 0 && reaches(v, o->e[at])) break;       /* would tie a knot */
        OP("append to .%s (%s) a %s", k, at < 0 ? "absent" : o->e[at]->t == JA ? "array" : "single", v->t == JA ? "array" : "single");
        LV(cee_json_object_append(o->real, k, v->real));
        if (at < 0) jv_set(o, k, v);
        else {
          jv *x = o->e[at];
          if (x->t != JA) { jv *w = jv_new(JA); jv_push(w, x); o->e[at] = w; w->real = L(cee_json_object_get(o->real, k)); x = w; }
          if (v->t == JA) { size_t n = v->c; for (size_t i = 0; i < n; i++) jv_push(x, v->e[i]); } else jv_push(x, v);
          COUNT("appends to an existing key");
        }
        break;
      }
      case 5: {
        char *nb = c20_key(keyr);
        OP("rename .%s -> .%s present=%d", k, nb, at >= 0);
        bool r = L(cee_json_object_rename(o->real, k, nb));
        CK(r == (at >= 0), "rename of .%s returned %d", k, r);
        if (at >= 0) { jv *v = o->e[at]; jv_del(o, at); jv_set(o, nb, v); COUNT("renames"); }
        break;
      }
      case 6: case 7:
        OP("remove .%s present=%d", k, at >= 0);
        LV(cee_json_object_remove(o->real, k));
        if (at >= 0) { jv_del(o, at); COUNT("removals"); }
        CK(!L(cee_json_object_get(o->real, k)), ".%s is there after its removal", k);
        break;
      case 8: {
        if (chance(60)) { char *t = intish(); jv *v = jv_s(t, strlen(t)); LV(cee_json_object_set_str(o->real, k, t)); jv_set(o, k, v); bind_real(v, L(cee_json_object_get(o->real, k))); at = jv_find(o, k); }
        OP("convert .%s = %s", k, at < 0 ? "absent" : jv_show(o->e[at]));
        bool r = L(cee_json_object_convert_to_i64(o->real, k));
        int64_t v;
        if (at >= 0 && o->e[at]->t == JI) CK(r, "conversion of an integer failed");
        else if (at >= 0 && o->e[at]->t == JS && ref_i64(o->e[at]->s, &v)) {
          CK(r, "conversion of %s failed", jv_show(o->e[at]));
          o->e[at] = jv_i(v); bind_real(o->e[at], L(cee_json_object_get(o->real, k)));
          CK(o->e[at]->real, "the converted member is gone");
        } else CK(!r, "conversion of %s succeeded", at < 0 ? "an absent member" : jv_show(o->e[at]));
        COUNT("conversions");
        break;
      }
      case 9: case 10: {     /* array insert */
        touched = a;
        if (a->c > 300) break;
        size_t p = chance(30) ? 0 : chance(30) ? a->c : rnd(a->c + 1);
        jv *v = new_value(st, pool, a);
        OP("insert at %zu of %zu", p, a->c);
        LV(cee_json_array_insert(a->real, (int)p, v->real));
        jv_ins(a, p, v);
        COUNT("insertions");
        break;
      }
      case 11: case 12: case 13: {
        touched = a;
        if (a->c > 300) break;
        int w = (int)rnd(4);
        OP("append to an array how=%d", w);
        jv *v;
        if (w == 0) { v = jv_b((int)rnd(2)); LV(cee_json_array_append_bool(a->real, v->b)); }
        else if (w == 1) { size_t n; char *t = chance(3) ? long_text(&n) : gen_text(&n, 20); v = jv_s(t, n); LV(cee_json_array_append_str(a->real, t)); }
        else if (w == 2) { size_t n; char *t = chance(3) ? long_text(&n) : gen_text(&n, 20), *big = ar_alloc(n * 4 + 64); sprintf(big, "<%s>%d", t, s); v = jv_s(big, strlen(big)); LV(cee_json_array_append_strf(a->real, "<%s>%d", t, s)); }
        else { v = new_value(st, pool, a); LV(cee_json_array_append(a->real, v->real)); }
        jv_push(a, v);
        struct cee_json *g = L(cee_json_array_get(a->real, (int)a->c - 1));
        CK(g, "the appended element is not there");
        if (v->real) CK(g == v->real, "the last element is not the appended one"); else bind_real(v, g);
        COUNT("appends");
        break;
      }
      case 14: {
        touched = a;
        long p = chance(80) && a->c ? (long)rnd(a->c) : rndr(-3, (int64_t)a->c + 3);
        OP("remove element %ld of %zu", p, a->c);
        LV(cee_json_array_remove(a->real, (int)p));
        if (p >= 0 && (size_t)p < a->c) jv_del(a, p);
        COUNT("element removals");
        break;
      }
      case 15: {
        touched = a;
        jv *b = pool[rnd(NPOOL / 2) * 2 + 1];
        if (a->c + b->c > 200) break;
        int knot = 0;
        for (size_t i = 0; i < b->c; i++) knot |= reaches(b->e[i], a);
        if (knot) break;
        OP("concat %zu + %zu%s", a->c, b->c, a == b ? " (itself)" : "");
        LV(cee_json_array_concat(a->real, b->real));
        size_t n = b->c;
        for (size_t i = 0; i < n; i++) jv_push(a, b->e[i]);
        COUNT("concatenations");
        break;
      }
      case 16: {
        jv *v = any_node(pool[rnd(NPOOL)]);
        if (v->t != JA && v->t != JO && v->t != JS) break;
        OP("listify %s", jv_show(v));
        struct cee_json *l = L(cee_json_listify(v->real));
        if (v->t == JA) CK(l == v->real, "listify of an array made another value");
        else CK(l && cee_json_to_array(l) && cee_json_array_length(l) == 1 && cee_json_array_get(l, 0) == v->real, "listify did not wrap the value");
        COUNT("listify");
        break;
      }
      case 17: {
        jv *v = new_value(st, pool, o);
        OP("object_kv .%s", k);
        struct cee_json *r = L(cee_json_object_kv(st, k, v->real));
        jv *w = jv_new(JO); jv_set(w, k, v); w->real = r;
        char *d = L(real_diff(r, w, 0));
        CK(!d, "object_kv: %s", d);
        break;
      }
      case 18: {
        OP("set_error present=%d", jv_find(o, "error") >= 0);
        struct cee_json *ro = o->real;
        LV(cee_json_set_error(&ro, "bad %d", s));
        CK(ro == o->real, "set_error replaced the object");
        if (jv_find(o, "error") < 0) { char b[32]; snprintf(b, sizeof b, "bad %d", s); jv *v = jv_s(b, strlen(b)); jv_set(o, "error", v); bind_real(v, L(cee_json_object_get(ro, "error"))); }
        break;
      }
      case 19: {
        struct itc c = { 0, (int)rnd(6) + 1 };
        if (chance(50)) {
          touched = a; OP("iterate an array of %zu, stop after %d", a->c, c.stop);
          int r = L(cee_json_array_iterate(a->real, &c, it_arr));
          int exp = a->c < (size_t)c.stop ? (int)a->c : c.stop;
          CK(c.stop != -1000 && c.n == exp && r == (a->c >= (size_t)c.stop ? 9 : 0), "array iteration visited %d of %zu (stop %d), returned %d", c.n, a->c, c.stop, r);
          for (int i = 0; i < c.n; i++) CK(c.v[i] == cee_json_array_get(a->real, i), "array iteration is out of order");
        } else {
          OP("iterate an object of %zu, stop after %d", o->c, c.stop);
          int r = L(cee_json_object_iterate(o->real, &c, it_obj));
          int exp = o->c < (size_t)c.stop ? (int)o->c : c.stop;
          CK(c.n == exp && r == (o->c >= (size_t)c.stop ? 9 : 0), "object iteration visited %d of %zu (stop %d), returned %d", c.n, o->c, c.stop, r);
          for (int i = 0; i < c.n && i < 400; i++) {
            CK(jv_find(o, c.k[i]) >= 0 && c.v[i] == cee_json_object_get(o->real, c.k[i]), "object iteration: the value of member %d (%s) is another one's", i, c.k[i]);
            for (int j = 0; j < i; j++) CK(strcmp(c.k[i], c.k[j]), "object iteration visits %s twice", c.k[i]);
          }
        }
        COUNT("iterations");
        break;
      }
      default: {
        jv *v = any_node(pool[rnd(NPOOL)]);
        OP("typed reads of %s", jv_show(v));
        getters(v);
        if (v->t != JO) {      /* what is no object has no member */
          CK(!L(cee_json_object_rename(v->real, k, "other")), "a member of what is no object is renamed");
          CK(!L(cee_json_object_convert_to_i64(v->real, k)), "a member of what is no object is converted");
          char *d = L(real_diff(v->real, v, 0)); CK(!d, "rename and convert change what is no object: %s", d);
        }
        /* nothing happens without a document, or to a document without a value */
        LV(cee_json_object_set(NULL, k, v->real)); LV(cee_json_object_set_null(NULL, k)); LV(cee_json_object_set_bool(NULL, k, true)); LV(cee_json_object_set_str(NULL, k, "x")); LV(cee_json_object_set_strf(NULL, k, "%d", s));
        LV(cee_json_object_set_i64(NULL, k, 1)); LV(cee_json_object_set_u64(NULL, k, 1)); LV(cee_json_object_set_double(NULL, k, 1)); LV(cee_json_object_append(NULL, k, v->real)); LV(cee_json_object_append(o->real, k, NULL));
        LV(cee_json_set_error(NULL, "nowhere %d", s)); { struct cee_json *none = NULL; LV(cee_json_set_error(&none, "nowhere %d", s)); CK(!none, "an error without a document makes one"); }
      }
    }
    char *d = L(real_diff(touched->real, touched, 0));
    CK(!d, "after %d steps: %s", s + 1, d);
    COUNT("model comparisons");
    COUNTMAX("array length", a->c); COUNTMAX("object size", o->c);
  }
  for (int i = 0; i < NPOOL; i++) { char *d = L(real_diff(pool[i]->real, pool[i], 0)); CK(!d, "at the end, document %d: %s", i, d); LV(real_observe(pool[i]->real)); if (pool[i]->c) hx->nontrivial = 1; }
  finish(st);
}
/* ---------- C21 */
static jv *merged(jv *d, jv *s) {       /* both objects or both arrays; result is a fresh tree */
  if (d->t == JA) { jv *r = jv_new(JA); for (size_t i = 0; i < d->c; i++) jv_push(r, jv_copy(d->e[i])); for (size_t i = 0; i < s->c; i++) jv_push(r, jv_copy(s->e[i])); return r; }
  jv *r = jv_copy(d);
  for (size_t i = 0; i < s->c; i++) {
    long j = jv_find(r, s->k[i]);
    if (j < 0) jv_set(r, s->k[i], jv_copy(s->e[i]));
    else if (r->e[j]->t == s->e[i]->t && (r->e[j]->t == JA || r->e[j]->t == JO)) r->e[j] = merged(r->e[j], s->e[i]);
    else r->e[j] = jv_copy(s->e[i]);
  }
  return r;
}
static int jdepth(const jv *v) { int d = 0; if (v->t == JA || v->t == JO) for (size_t i = 0; i < v->c; i++) { int e = jdepth(v->e[i]); if (e > d) d = e; } return d + 1; }
static struct cee_json *make_doc(struct cee_state *st, jv *v) {
  if (chance(50) || jdepth(v) > 480) return real_build(st, v);      /* the parser takes 512 levels */
  size_t n; char *t = emit_text(v, (int)rnd(32) & ~(ST_DUP), &n);
  struct cee_json *j = NULL; int line;
  CK(L(cee_json_parsex(st, t, n, &j, true, &line)) == 0, "a well-formed text is rejected");
  return j;
}
void d_c21(void) {
  struct cee_state *st = L(cee_state_mk(8));
  jopt o = { .maxdepth = 1 + (int)rnd(4), .width = 2 + (int)rnd(6), .keyrange = 3 + (int)rnd(6) };
  if (chance(8)) { o.width = 30; o.keyrange = 60; o.maxdepth = 2; }
  int scale = hx->casenr % 97 == 5 ? 1 : hx->casenr % 401 == 8 ? 2 : 0;      /* deep, or wide */
  jv *d = gen_jv(&o, 0), *deep_s = NULL;
  if (scale == 1) {      /* both sides nested under the same keys, with differences all along */
    size_t dep = 5 + rnd(chance(50) ? 60 : 460);
    d = gen_jv(&o, 9); deep_s = gen_jv(&o, 9);
    for (size_t i = 0; i < dep; i++) {
      jv *a = jv_new(JO), *b = jv_new(JO);
      if (chance(20)) jv_set(a, "l", jv_i(i)); jv_set(a, "n", d); if (chance(20)) jv_set(a, "m", jv_i(i));
      if (chance(20)) jv_set(b, "m", jv_s("s", 1)); jv_set(b, "n", deep_s); if (chance(20)) { jv *w = jv_new(JA); jv_push(w, jv_i(i)); jv_set(b, "l", w); }
      d = a; deep_s = b;
    }
    COUNTMAX("depth merged", dep); COUNT("deep merges");
  } else if (scale == 2) {
    int arr = chance(40), na = 200 + (int)rnd(4000), nb = chance(20) ? 66000 : 200 + (int)rnd(4000); char b[24];
    d = jv_new(arr ? JA : JO); deep_s = jv_new(arr ? JA : JO);
    for (int i = 0; i < na; i++) { if (arr) jv_push(d, jv_i(i)); else { sprintf(b, "w%d", i); jv_set(d, b, jv_i(i)); } }
    for (int i = 0; i < nb; i++) { if (arr) jv_push(deep_s, jv_i(-i)); else { sprintf(b, "w%d", i * 2); jv_set(deep_s, b, jv_i(-i)); } }
    COUNT("wide merges");
  }
  struct cee_json *rd = make_doc(st, d);
  int rounds = 1 + (int)rnd(3), dest_alive = 1;
  for (int q = 0; q < rounds && dest_alive; q++) {
    jv *s = gen_jv(&o, chance(90) ? 0 : 9);
    if (chance(75)) for (int tries = 0; tries < 20 && s->t != d->t; tries++) s = gen_jv(&o, 0);
    if (scale && q == 0) s = deep_s;
    struct cee_json *rs = make_doc(st, s);
    int possible = d->t == s->t && (d->t == JA || d->t == JO);
    OP("merge %s <- %s", jv_show(d), jv_show(s));
    hx->sig = hx_mix(hx->sig, jv_nodes(d) * 131 + jv_nodes(s));
    int form = (int)rnd(5);
    bool r;
    if (form == 0) { struct cee_json *p = rd; r = L(cee_json_merge_or_return(&p, rs)); CK(p == rd, "merge_or_return replaced an existing target"); }
    else if (form == 1) {
      struct cee_json *p = NULL;
      r = L(cee_json_merge_or_return(&p, rs));
      CK(r && p == rs, "merge_or_return into nothing did not return the source");
      CK(!L(cee_json_merge_or_return(&p, NULL)) && p == rs, "merging nothing reports success");
      CK(!L(cee_json_merge_or_return(NULL, rs)), "merging into nowhere reports success");
      CK(!L(cee_json_merge(NULL, rs)) && !L(cee_json_merge(rd, NULL)), "merging with a missing document reports success");
      r = L(cee_json_merge(rd, rs));
    } else r = L(cee_json_merge(rd, rs));
    CK(r == possible, "the merge of %s and %s reports %d", jv_show(d), jv_show(s), r);
    OB(r);
    char *df = L(real_diff(rs, s, 0));
    CK(!df, "merging changed the source: %s", df);
    jv *m = possible ? merged(d, s) : d;
    df = L(real_diff(rd, m, possible || q ? JEQ_ANYORDER : 0));
    CK(!df, "merge of %s into %s: %s", jv_show(s), jv_show(d), df);
    LV(real_observe(rd));
    d = m;
    COUNT("merges"); if (possible) { COUNT("merges possible"); hx->nontrivial = 1; }
    /* both stay usable and deletable */
    int fate = (int)rnd(5);
    if (fate == 0 && s->t >= JA) {
      OP("delete the source");
      LV(cee_del(rs));
      df = L(real_diff(rd, d, JEQ_ANYORDER));
      CK(!df, "deleting the merged source changed the target: %s", df);
      COUNT("sources deleted");
    } else if (fate == 1 && d->t >= JA) {
      OP("delete the target");
      LV(cee_del(rd));
      df = L(real_diff(rs, s, 0));
      CK(!df, "deleting the merged target changed the source: %s", df);
      COUNT("targets deleted");
      dest_alive = 0;
      if (s->t >= JA && chance(50)) LV(cee_del(rs));
    } else if (fate == 2 && d->t == JO) {
      OP("edit the target");
      LV(cee_json_object_set_i64(rd, "edited", q));
      jv_set(d, "edited", jv_i(q));
      df = L(real_diff(rd, d, JEQ_ANYORDER));
      CK(!df, "the merged target cannot be edited: %s", df);
      ssize_t n = L(cee_json_snprint(st, NULL, 0, rd, 0));
      CK(n > 0, "the merged target cannot be printed");
    } else if (fate == 3) {
      LV(cee_state_add_gc_root(st, rd)); 
      LV(cee_state_gc(st));
      df = L(real_diff(rd, d, JEQ_ANYORDER));
      CK(!df, "a collection changed the merged target: %s", df);
      LV(cee_state_remove_gc_root(st, rd));
      COUNT("collections after a merge");
    }
  }
  finish(st);
}
/* ---------- C22 */
static int plain_key(const char *k) { return *k && !strpbrk(k, ".[]:*") && strlen(k) < 2500; }
#define CONT(v) ((v)->t == JA || (v)->t == JO)
struct sarg { int isint; int i; char *s; };
static struct cee_json *do_select(struct cee_json *o, char *sel, struct sarg *a, int n) {
#define I(x) a[x].i
#define S(x) a[x].s
  switch (n) {
    case 0: return cee_json_select(o, sel);
    case 1: return a[0].isint ? cee_json_select(o, sel, I(0)) : cee_json_select(o, sel, S(0));
    case 2: switch (a[0].isint * 2 + a[1].isint) { case 0: return cee_json_select(o, sel, S(0), S(1)); case 1: return cee_json_select(o, sel, S(0), I(1)); case 2: return cee_json_select(o, sel, I(0), S(1)); default: return cee_json_select(o, sel, I(0), I(1)); }
    default: switch (a[0].isint * 4 + a[1].isint * 2 + a[2].isint) {
      case 0: return cee_json_select(o, sel, S(0), S(1), S(2)); case 1: return cee_json_select(o, sel, S(0), S(1), I(2));
      case 2: return cee_json_select(o, sel, S(0), I(1), S(2)); case 3: return cee_json_select(o, sel, S(0), I(1), I(2));
      case 4: return cee_json_select(o, sel, I(0), S(1), S(2)); case 5: return cee_json_select(o, sel, I(0), S(1), I(2));
      case 6: return cee_json_select(o, sel, I(0), I(1), S(2)); default: return cee_json_select(o, sel, I(0), I(1), I(2)); }
  }
}
static int type_ok(char c, const jv *v) {
  switch (c) { case 's': return v->t == JS; case 'n': return v->t == JI || v->t == JU || v->t == JD; case 'o': return v->t == JO; case 'a': return v->t == JA; case 'b': return v->t == JB; default: return v->t == JN; }
}
static void collect(jv *v, const char *k, jv **out, int *n) {
  if (v->t == JA || v->t == JO) for (size_t i = 0; i < v->c; i++) {
    if (v->t == JO && !strcmp(v->k[i], k) && *n < 500) out[(*n)++] = v->e[i];
    collect(v->e[i], k, out, n);
  }
}
void d_c22(void) {
  struct cee_state *st = L(cee_state_mk(8));
  jopt o = { .maxdepth = 5, .width = 5, .keyrange = chance(60) ? 8 : 0 };
  jv *root = gen_jv(&o, 0);
  int farsel = 0;
  if (hx->casenr % 301 == 9) {      /* a long array: indexes of many digits */
    jv *w = jv_new(JA); int k = hx->casenr % 602 == 9 ? 70000 : 900 + (int)rnd(12000);
    for (int i = 0; i < k; i++) jv_push(w, i % 1000 == 7 ? gen_jv(&o, 3) : jv_i(i));
    if (chance(50)) jv_push(w, root); else { jv_push(w, jv_i(1)); }
    root = w; COUNT("long arrays searched");
  }
  if (hx->casenr % 103 == 5) {      /* far down: hundreds of levels, members only here and there */
    int dp = 90 + (int)rnd(chance(30) ? 2000 : 300);
    for (int i = 0; i < dp; i++) {
      jv *w = jv_new(chance(40) ? JA : JO); char kb[32];
      if (w->t == JA) { for (int j = (int)rnd(3); j > 0; j--) jv_push(w, jv_i(i)); jv_push(w, root); if (chance(20)) jv_push(w, jv_new(JO)); }
      else { int a = chance(15); if (a) { snprintf(kb, sizeof kb, "lv%d", i); jv_set(w, ar_str(kb, strlen(kb)), jv_i(i)); } jv_set(w, chance(90) ? "d" : "k1", root); if (!a && chance(10)) { snprintf(kb, sizeof kb, "lw%d", i); jv_set(w, ar_str(kb, strlen(kb)), jv_i(i)); } }
      root = w;
    }
    farsel = 1; COUNT("documents of hundreds of levels");
  }
  if (chance(10)) {      /* long names: up to 256 characters can be selected */
    char *k = ar_alloc(2200); size_t kl = chance(40) ? 253 + rnd(7) : chance(70) ? 190 + rnd(75) : 200 + rnd(1900); memset(k, 'q', kl); k[kl] = 0;
    jv *w = jv_new(JO); jv_set(w, k, root); root = w; COUNT("long names"); }
  struct cee_json *r = make_doc(st, root);
  bind_real(root, r);
  OP("document %s", jv_show(root));
  hx->sig = hx_mix(hx->sig, jv_nodes(root));
  for (int q = 0; q < 24; q++) {
    jv *cur = root; char sel[8000]; size_t k = 0; int loose = 0; struct sarg a[3]; int na = 0;
    int len = (int)rnd(6), bad = 0;
    for (int i = 0; i < len && !bad; i++) {
      if (cur && cur->t == JO && (cur->c || chance(50)) && k < 600) {
        int miss = !cur->c || chance(12);
        char kb[32]; snprintf(kb, sizeof kb, "k%d", (int)rnd(12));
        char *key = miss ? ar_str(kb, strlen(kb)) : cur->k[rnd(cur->c)];
        if (miss && cur->c == 1 && strlen(cur->k[0]) > 180 && chance(70)) { size_t l = strlen(cur->k[0]); key = ar_alloc(l + 4); memcpy(key, cur->k[0], l); if (chance(50)) { memset(key + l, 'q', 3); key[l + 1 + rnd(3)] = 0; } else key[l - 1] = 0; if (chance(30)) key[rnd(strlen(key))] = 'p'; }
        if (!*key) break;
        if (strlen(key) > 256) { loose = 1; COUNT("names beyond what a selector holds"); }      /* not found, or found: nothing else */
        jv *nx = jv_get(cur, key);
        if (plain_key(key) && (na == 3 || chance(55))) k += sprintf(sel + k, ".%s", key);
        else if (na < 3) {
          size_t pre = plain_key(key) && chance(40) ? rnd(strlen(key)) : 0;
          k += sprintf(sel + k, ".%.*s*", (int)pre, key);
          a[na].isint = 0; a[na++].s = key + pre;
          COUNT("name placeholders");
        } else break;
        cur = nx; if (!cur) bad = 1;
      } else if (cur && cur->t == JA && (cur->c || chance(50))) {
        long ix = !cur->c || chance(15) ? (chance(50) ? (long)cur->c + (long)rnd(3) : chance(50) ? -1 - (long)rnd(3) : 999999) : (long)rnd(cur->c);
        if (chance(3)) {      /* an index of another width that resembles one that is there */
          long big[] = { 1L << 32, 1L << 31, 1L << 33, 256, 65536, -(1L << 32), LONG_MAX };
          ix = chance(85) ? big[rnd(6)] + (cur->c ? (long)rnd(cur->c) : 0) : LONG_MAX;
          if (ix >= 0 && (size_t)ix < cur->c) ix = LONG_MAX;
          k += sprintf(sel + k, chance(10) && ix == LONG_MAX ? "[%ld00]" : "[%ld]", ix); COUNT("indexes beyond an int");
        } else if (na < 3 && chance(45)) { k += sprintf(sel + k, "[*]"); a[na].isint = 1; a[na++].i = (int)ix; COUNT("index placeholders"); }
        else if (chance(2) && ix >= 0) { int z = chance(50) ? 250 + (int)rnd(10) : (int)rnd(400); k += sprintf(sel + k, "[%0*ld]", z, ix); if (z > 256) loose = 1; COUNT("indexes with leading zeros"); }
        else k += sprintf(sel + k, chance(85) ? "[%ld]" : "[%ld", ix);
        cur = ix >= 0 && (size_t)ix < cur->c ? cur->e[ix] : NULL; if (!cur) bad = 1;
      } else if (chance(30)) {      /* descend into something that is no container, or the wrong one */
        if (cur->t == JO) k += sprintf(sel + k, "[0]"); else k += sprintf(sel + k, ".k0");
        cur = NULL; bad = 1;
      } else break;
      if (cur && chance(10)) { char c = "snoab!"[rnd(6)]; k += sprintf(sel + k, ":%c", c); if (!type_ok(c, cur)) { cur = NULL; bad = 1; } }
    }
    if (bad && chance(50)) k += sprintf(sel + k, chance(50) ? ".k1" : "[0]");
    if (chance(45)) { char c = "snoab!"[rnd(6)]; if (cur && chance(60)) c = cur->t == JS ? 's' : cur->t == JA ? 'a' : cur->t == JO ? 'o' : cur->t == JB ? 'b' : cur->t == JN ? '!' : 'n'; k += sprintf(sel + k, ":%c", c); if (cur && !type_ok(c, cur)) cur = NULL; COUNT("type checks"); }
    sel[k] = 0;
    char *s = hx_dup(sel, k + 1);
    OP("select %s (%d arguments)", sel, na);
    struct cee_json *g = L(do_select(r, s, a, na));
    CK(g == (cur ? cur->real : NULL) || (loose && !g), "select %s finds %s", sel, !g ? "nothing" : !cur ? "something where nothing is" : "another value");
    COUNT("selections"); if (cur) { COUNT("selections that find a value"); hx->nontrivial = 1; }
    OB(g != NULL);
    if (na == 0) {
      int x = 77, e = L(cee_json_select_as_int(r, &x, s));
      if (!g) CK(e != 0 && x == 77, "select_as_int %s accepts nothing", sel);
      else if (cur && cur->t == JI && cur->i >= INT_MIN && cur->i <= INT_MAX) CK(e == 0 && x == cur->i, "select_as_int %s gives %d (%d)", sel, x, e);
      else CK(e != 0 && x == 77, "select_as_int %s accepts what is no int", sel);
    }
    free(s);
  }
  /* incomplete selectors find nothing and read only themselves */
  { static const char *inc[] = { ".", "[", ":", "k0", "]k0", ".k0.", "[0][", "*", ".k0:" };
    const char *p = inc[rnd(sizeof inc / sizeof *inc)];
    char *s = hx_dup(p, strlen(p) + 1);
    OP("select %s", p);
    CK(!L(cee_json_select(r, s)), "the incomplete selector %s finds something", p);
    free(s);
    CK(L(cee_json_select(r, "")) == r && !cee_json_select(NULL, ".a"), "the empty selector");
    COUNT("incomplete selectors"); }
  if (farsel) for (int q = 0; q < 4; q++) {      /* a selector of hundreds of steps, and members far down */
    size_t cap = 1 << 20, k = 0; char *sel = ar_alloc(cap); jv *cur = root; char *last = NULL; int steps = 0;
    while (CONT(cur) && cur->c && k < cap - 400) {
      size_t i = 0; for (size_t j = 0; j < cur->c; j++) if (CONT(cur->e[j]) && cur->e[j]->c) i = j;
      if (chance(1)) i = rnd(cur->c);
      if (cur->t == JA) k += sprintf(sel + k, "[%zu]", i);
      else { if (!plain_key(cur->k[i]) || strlen(cur->k[i]) > 256) break; k += sprintf(sel + k, ".%s", cur->k[i]); last = cur->k[i]; }
      cur = cur->e[i]; steps++;
      if (q == 3 && steps > 100 && chance(5)) break;
    }
    if (q == 2) { k += sprintf(sel + k, cur->t == JO ? "[0]" : ".zz"); cur = NULL; }
    sel[k] = 0;
    char *s = hx_dup(sel, k + 1);
    OP("select a path of %d steps, %zu bytes", steps, k);
    CK(L(cee_json_select(r, s)) == (cur ? cur->real : NULL), "a selector of %d steps finds %s", steps, cur ? "not its value" : "something where nothing is");
    free(s);
    COUNTMAX("steps of one selector", steps);
    if (!last) continue;
    jv *hit[500]; int n = 0;
    collect(root, last, hit, &n);
    struct cee_json *g = L(cee_json_has(r, last)); int ok = 0;
    for (int i = 0; i < n; i++) ok |= hit[i]->real == g;
    CK(ok || n == 500, "the search for %s, %d levels down, finds %s", last, steps, g ? "another value" : "nothing");
  }
  for (int q = 0; q < 10; q++) {
    char kb[32]; snprintf(kb, sizeof kb, "k%d", (int)rnd(14));
    char *k = kb;
    jv *x = any_node(root);
    if (chance(50)) for (int i = 0; i < 6 && !(x->t == JO && x->c); i++) x = any_node(root);
    if (farsel && chance(50)) { jv *y = root; for (int i = (int)rnd(2500); i > 0 && CONT(y) && y->c; i--) { size_t b = 0; for (size_t j = 0; j < y->c; j++) if (CONT(y->e[j])) b = j; if (y->t == JO && y->c > 1) x = y; y = y->e[b]; } }
    if ((farsel || chance(60)) && x->t == JO && x->c) {
      k = x->k[rnd(x->c)];
      if (chance(40)) {         /* a key that resembles one that occurs */
        size_t l = strlen(k); char *w = ar_alloc(l + 3); memcpy(w, k, l + 1);
        switch (rnd(5)) { case 0: w[l] = '0' + rnd(10); w[l + 1] = 0; break; case 1: if (l) w[l - 1] = 0; break; case 2: if (l) w[l - 1] ^= 1; if (l && !w[l - 1]) w[l - 1] = 'x'; break; case 3: if (l) { w[0] ^= 0x20; if (!w[0]) w[0] = '!'; } break; default: w[0] = 0; }
        k = w; COUNT("near-miss keys");
      }
    }
    jv *hit[500]; int n = 0;
    collect(root, k, hit, &n);
    OP("has %s (%d)", k, n);
    struct cee_json *g = L(cee_json_has(r, k));
    int ok = n == 0 ? g == NULL : 0;
    for (int i = 0; i < n && i < 500; i++) ok |= hit[i]->real == g;
    CK(ok, "the search for %s (%d occurrences) finds %s", k, n, g ? "another value" : "nothing");
    COUNT("key searches"); if (n) COUNT("keys found");
    OB(g != NULL);
  }
  char *d = L(real_diff(r, root, 0));
  CK(!d, "selecting changed the document: %s", d);
  finish(st);
}
/* ---------- C24 */
int c24_concurrent;      /* several threads at once: files of their own, and nothing that concerns the whole process */
static __thread char me;
static void fpath(char *o, size_t n, const char *leaf) { char d[256]; hx_tmpdir(d, sizeof d); if (c24_concurrent) snprintf(o, n, "%s/%llx-%s", d, (unsigned long long)(uintptr_t)&me, leaf); else snprintf(o, n, "%s/%s", d, leaf); }
static int count_fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
/* descriptors above those of the harness itself; the sanitizer's own thread opens one now and then */
static int open_fds(void) {
  if (c24_concurrent) return 0;
  static int base = -1;
  if (base < 0) { base = 1 << 20; for (int i = 0; i < 30; i++) { int n = count_fds(); if (n < base) base = n; usleep(1000); } }
  int n = count_fds();
  for (int i = 0; i < 40 && n != base; i++) { usleep(3000); n = count_fds(); }
  return n - base;
}
static char *slurp(const char *p, size_t *n) {
  FILE *f = fopen(p, "rb"); if (!f) return NULL;
  fseek(f, 0, SEEK_END); *n = ftell(f); rewind(f);
  char *b = ar_alloc(*n + 1);
  if (fread(b, 1, *n, f) != *n) hx_harness_error("cannot read %s", p);
  fclose(f);
  return b;
}
static void spit(const char *p, const char *b, size_t n) { FILE *f = fopen(p, "wb"); if (!f || fwrite(b, 1, n, f) != n || fclose(f)) hx_harness_error("cannot write %s", p); }
static struct cee_json *load_(struct cee_state *st, char *p, int how, int *line);
/* read() may give less than it was asked for */
static struct cee_json *load(struct cee_state *st, char *p, int how, int *line) {
  if (!c24_concurrent && chance(40)) { hx_short_read = chance(50) ? 1 + (unsigned)rnd(40) : 1 + (unsigned)rnd(5000); struct stat sb; if (!stat(p, &sb) && sb.st_size / hx_short_read > 3000) hx_short_read = (unsigned)(sb.st_size / 3000 + rnd(4096)); hx_short_reads = 0; }
  struct cee_json *j = load_(st, p, how, line);
  if (hx_short_read && hx_short_reads) COUNT("loads with short reads");
  hx_short_read = 0;
  return j;
}
static struct cee_json *load_(struct cee_state *st, char *p, int how, int *line) {
  struct cee_json *j;
  if (how == 0) return L(cee_json_load_from_file_path(st, p, true, line));
  if (how == 1) { FILE *f = fopen(p, "r"); j = L(cee_json_load_from_FILE(st, f, true, line)); CK(fclose(f) == 0, "loading closed the caller's stream"); return j; }
  int fd = open(p, O_RDONLY); j = L(cee_json_load_from_fileno(st, fd, true, line)); CK(close(fd) == 0, "loading closed the caller's descriptor"); return j;
}
void d_c24(void) {
  struct cee_state *st = L(cee_state_mk(8));
  char p[400]; fpath(p, sizeof p, "doc.json");
  jopt o = { .maxdepth = 5, .width = 5, .keyrange = 0 };
  int kind = (int)rnd(8), huge = hx->casenr % 401 == 7;
  if (huge) kind = 0;
  if (c24_concurrent && chance(40)) kind = 7;
  open_fds();
  if (kind <= 3) {
    jv *m = gen_jv(&o, 0);
    if (huge) {      /* megabytes: a long string, or many values */
      jv *w = jv_new(JA); size_t want = (1u << 20) * (1 + rnd(hx_thorough ? 9 : 3)) + rnd(5000);
      if (chance(40)) { char *s = ar_alloc(want + 1); for (size_t i = 0; i < want; i++) s[i] = "abcdefghij\n\"\xc3\xa9"[rnd(12)]; jv_push(w, jv_s(s, want)); }
      else { jopt b = { .maxdepth = 3, .width = 5, .keyrange = 0 }; size_t sz = 0; while (sz < want) { size_t l; if (chance(85)) { l = 100 + rnd(900); char *s = ar_alloc(l + 1); for (size_t i = 0; i < l; i++) s[i] = 'A' + i % 40; jv_push(w, jv_s(s, l)); sz += l; continue; } jv *e = chance(70) ? jv_i((int64_t)rnd64()) : gen_jv(&b, 1); if (e->t != JI) { char *t = emit_text(e, 0, &l); (void)t; sz += l; } else sz += 20; jv_push(w, e); } }
      jv_push(w, jv_i(4711)); m = w; COUNT("files over 1 MB");
    }
    else if (hx->casenr % 23 == 3) { jv *w = jv_new(JA); int k = 200 + (int)rnd(3000); for (int i = 0; i < k; i++) jv_push(w, chance(50) ? jv_i(gen_i64()) : gen_jv(&o, 4)); m = w; }
    struct cee_json *j = make_doc(st, m);
    int fmt = (int)rnd(2), how = (int)rnd(3), by = (int)rnd(2), line = -5;
    OP("save fmt=%d by=%d, load how=%d: %s", fmt, by, how, jv_show(m));
    hx->sig = hx_mix(hx->sig, jv_nodes(m));
    unlink(p);
    bool ok;
    if (by) { FILE *f = fopen(p, "w"); ok = L(cee_json_save(st, j, f, fmt)); CK(fclose(f) == 0, "saving closed the caller's stream"); }
    else { int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600); ok = L(cee_json_save_fileno(st, j, fd, fmt)); CK(close(fd) == 0, "saving closed the caller's descriptor"); }
    CK(ok, "saving reports failure");
    size_t n; char *t = slurp(p, &n);
    jv *back; unsigned u;
    CK(ref_parse(t, n, 1, &back, &u) && !(u & REF_U_TRAIL) && jv_eq(back, m, JEQ_NUMERIC), "the saved file of %zu bytes does not denote the document", n);
    struct cee_json *l = load(st, p, how, &line);
    CK(l, "the saved file does not load (line %d)", line);
    char *d = L(real_diff(l, m, JEQ_NUMERIC));
    CK(!d, "the document changed on its way through the file: %s", d);
    COUNT("documents saved and loaded"); COUNTMAX("file bytes", n);
    LV(real_observe(l));
    if (m->t >= JA) {
      char *b = hx_dup(t, n);
      struct cee_json *lb = L(cee_json_load_from_buffer(b, n));
      free(b);
      CK(lb, "the text does not load from a buffer");
      d = L(real_diff(lb, m, JEQ_NUMERIC));
      CK(!d, "loading from a buffer: %s", d);
      LV(cee_del(cee_get_state(m->t == JA ? (void *)cee_json_to_array(lb) : (void *)cee_json_to_object(lb))));
      COUNT("documents loaded from a buffer");
    }
    d = L(real_diff(j, m, 0));
    CK(!d, "saving changed the document: %s", d);
  } else if (kind <= 5) {     /* a file that is no JSON text */
    size_t n; jv *m = gen_jv(&o, 0), *x; unsigned u;
    char *t = emit_text(m, (int)rnd(32), &n);
    int how = (int)rnd(3), line = -5;
    if (chance(15)) n = 0; else if (chance(20)) { t = ar_alloc(8); n = rnd(5); memset(t, " \n"[rnd(2)], 5); } else t = mutate(t, &n, 1 + (int)rnd(4));
    int acc = ref_parse(t, n, 1, &x, &u);
    OP("load %zu bytes how=%d well-formed=%d", n, how, acc);
    hx->sig = hx_mix(hx->sig, hx_hash(t, n, 4));
    spit(p, t, n);
    struct cee_json *l = load(st, p, how, &line);
    if (!(u & ~REF_U_TRAIL)) {
      CK(!!l == acc, "a %s file of %zu bytes %s", acc ? "well-formed" : "malformed", n, l ? "loads" : "does not load");
      if (l) { char *d = L(real_diff(l, x, 0)); CK(!d, "wrong value loaded: %s", d); }
    }
    if (!l) { CK(line >= 0 && (size_t)line <= ref_lines(t, n), "error at line %d of a file of %zu lines", line, ref_lines(t, n)); COUNT("files rejected"); 
      CK(!L(cee_json_load_from_buffer(t, n)) || u, "a malformed text loads from a buffer"); }
    else COUNT("mutated files that still load");
  } else if (kind == 6 && chance(60) && !c24_concurrent) {      /* a file system that takes only a part */
    jv *m = gen_jv(&o, 0);
    if (chance(20)) { jv *w = jv_new(JA); for (int i = 0, k = 100 + (int)rnd(3000); i < k; i++) jv_push(w, jv_i(gen_i64())); m = w; }
    struct cee_json *j = make_doc(st, m);
    int fmt = (int)rnd(2), by = (int)rnd(2);
    size_t full = cee_json_snprint(st, NULL, 0, j, fmt), room = chance(30) ? full : chance(20) ? full + rnd(50) : rnd(full + 1);
    OP("save %zu bytes fmt=%d by=%d with room for %zu", full, fmt, by, room);
    hx->sig = hx_mix(hx_mix(hx->sig, full), room);
    unlink(p);
    FILE *f = by ? fopen(p, "w") : NULL; int fd = by ? -1 : open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old);
    void (*sg)(int) = signal(SIGXFSZ, SIG_IGN);
    lim = old; lim.rlim_cur = room; setrlimit(RLIMIT_FSIZE, &lim);
    bool ok = by ? cee_json_save(st, j, f, fmt) : cee_json_save_fileno(st, j, fd, fmt);
    setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, sg);
    if (by) fclose(f); else close(fd);
    CK(ok == (room >= full), "saving %zu bytes where %zu fit reports %s", full, room, ok ? "success" : "failure");
    if (ok) { size_t n; char *t = slurp(p, &n); jv *back; unsigned u; CK(n == full && ref_parse(t, n, 1, &back, &u) && !(u & REF_U_TRAIL) && jv_eq(back, m, JEQ_NUMERIC), "the saved file of %zu bytes does not denote the document", n); }
    else COUNT("partial saves reported");
  } else if (kind == 6 && chance(50)) {      /* what cannot be read */
    char d[256]; hx_tmpdir(d, sizeof d);
    int what = (int)rnd(3), line = -5;
    OP("load what cannot be read (%d)", what);
    hx->sig = hx_mix(hx->sig, what);
    struct cee_json *l;
    if (what == 0) l = L(cee_json_load_from_file_path(st, d, true, &line));
    else if (what == 1) { int fd = open(d, O_RDONLY | O_DIRECTORY); l = L(cee_json_load_from_fileno(st, fd, true, &line)); close(fd); }
    else { spit(p, "[1,2]", 5); int fd = open(p, O_WRONLY); l = L(cee_json_load_from_fileno(st, fd, true, &line)); close(fd); }
    CK(!l, "loading what cannot be read gives a value");
    CK(line >= 0, "loading what cannot be read leaves the error line unset");
    COUNT("unreadable files");
  } else if (kind == 6) {     /* a device that takes nothing */
    struct cee_json *j = make_doc(st, gen_jv(&o, 0));
    OP("save to a full device and to a read-only descriptor");
    int fd = open("/dev/full", O_WRONLY);
    if (fd >= 0) { CK(!L(cee_json_save_fileno(st, j, fd, 0)), "saving to a full device reports success"); close(fd); COUNT("failed saves reported"); }
    spit(p, "1", 1);
    fd = open(p, O_RDONLY);
    CK(!L(cee_json_save_fileno(st, j, fd, 1)), "saving to a read-only descriptor reports success"); close(fd);
  } else {                    /* merging files */
    int nf = 1 + (int)rnd(chance(10) ? 40 : 4), bad = chance(c24_concurrent ? 60 : 25) ? (int)rnd(nf) : -1, badkind = c24_concurrent && chance(50) ? 0 : (int)rnd(3);
    char names[40][700]; char **fs = malloc((size_t)nf * sizeof *fs); jv *m = NULL, *vs[40];      /* no name beyond the last */
    o.keyrange = 5;
    for (int i = 0; i < nf; i++) {
      char leaf[300]; snprintf(leaf, sizeof leaf, "in%d.json", i);
      if (chance(25)) {      /* names that have to be escaped, that are long, that look like formats */
        int k = snprintf(leaf, sizeof leaf, "%d", i), to = chance(30) ? 100 + (int)rnd(100) : 1 + (int)rnd(12);
        static const char *const bits[] = { "%s", "%d", "%n", "\"", "\\", "\n", "\t", "\x01", "\x7f", "\xc3\xa9", "\xf0\x9f\x98\x80", " ", "a", "'", "u0041", "{", "," };
        while (k < to) k += snprintf(leaf + k, sizeof leaf - k, "%s", bits[rnd(sizeof bits / sizeof *bits)]);
        COUNT("odd file names");
      }
      fpath(names[i], sizeof names[i], leaf); fs[i] = names[i];
      if (i && i != bad && chance(6)) {      /* one of them again */
        int j = (int)rnd(i);
        if (j != bad) { strcpy(names[i], names[j]); vs[i] = vs[j]; m = merged(m, vs[i]); COUNT("inputs given twice"); continue; }
      }
      jv *v; do v = gen_jv(&o, 0); while (v->t != JO);
      vs[i] = v;
      if (chance(12)) {      /* a file that has such a member already, as the result of an earlier merge would */
        jv *l = chance(70) ? jv_new(JA) : gen_jv(&o, 3); if (l->t == JA) for (int q = (int)rnd(4); q > 0; q--) jv_push(l, jv_s(ar_str("old.json", 8), 8));
        jv_set(v, "originals", l); COUNT("inputs that list originals");
      }
      size_t n; char *t = emit_text(v, (int)rnd(16) & ~ST_DUP, &n);
      if (i == bad && badkind == 0) unlink(names[i]);
      else if (i == bad && badkind == 1) spit(names[i], "{\"a\":", 5);
      else if (i == bad && i == 0) spit(names[i], "[1]", 3);
      else { if (i == bad) bad = -1; spit(names[i], t, n); }
      m = m ? merged(m, v) : jv_copy(v);
    }
    char op[700]; fpath(op, sizeof op, "merged.json"); unlink(op);
    OP("merge %d files, bad %d (%d)", nf, bad, badkind);
    hx->sig = hx_mix(hx->sig, jv_nodes(m));
    if (!c24_concurrent && chance(40)) hx_short_read = 1 + (unsigned)rnd(30);
    if (bad < 0 && chance(10)) { strcpy(op, names[rnd(nf)]); COUNT("results over an input"); }
    int out = chance(12) ? 1 + (int)rnd(c24_concurrent ? 2 : 3) : 0, r;   /* where the result cannot be written whole */
    if (out == 1 && access("/dev/full", W_OK) == 0) r = L(cee_json_merge_all(fs, nf, "/dev/full"));
    else if (out == 2) { char no[740]; snprintf(no, sizeof no, "%s.d/x.json", op); r = L(cee_json_merge_all(fs, nf, no)); }
    else if (out == 3) {
      struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old);
      void (*sg)(int) = signal(SIGXFSZ, SIG_IGN);
      lim = old; lim.rlim_cur = rnd(17); setrlimit(RLIMIT_FSIZE, &lim);     /* the list of names alone is longer */
      r = L(cee_json_merge_all(fs, nf, op));
      setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, sg);
    }
    else { out = 0; r = L(cee_json_merge_all(fs, nf, op)); }
    hx_short_read = 0;
    if (out) OP("    into an output that takes %s", out == 3 ? "only a part" : "nothing");
    free(fs);
    CK(open_fds() <= 0, "merging files leaves %d descriptors open", open_fds());
    OB(!r);
    if (out) { CK(r != 0, "merging into a file that %s reports success", out == 1 ? "takes nothing" : out == 2 ? "cannot be made" : "takes only a part"); COUNT("unwritable merges reported"); }
    else if (bad >= 0) { CK(r != 0, "merging with a file that is %s reports success", badkind == 0 ? "missing" : badkind == 1 ? "malformed" : "no object"); COUNT("failed merges reported"); CK(access(op, F_OK) != 0, "a failed merge writes its output"); }
    else {
      CK(r == 0, "merging files failed");
      jv *l = jv_new(JA);
      for (int i = 0; i < nf; i++) jv_push(l, jv_s(names[i], strlen(names[i])));
      jv_set(m, "originals", l);
      size_t n; char *t = slurp(op, &n); jv *back; unsigned u;
      CK(t && ref_parse(t, n, 1, &back, &u) && !(u & REF_U_TRAIL), "the merged file is no JSON text");
      CK(jv_eq(back, m, JEQ_NUMERIC | JEQ_ANYORDER), "the merged file is %s, expected %s", jv_show(back), jv_show(m));
      COUNT("files merged");
    }
    for (int i = 0; i < nf; i++) unlink(names[i]);
  }
  CK(open_fds() <= 0, "%d descriptors are left open", open_fds());
  hx->nontrivial = 1;
  finish(st);
}
