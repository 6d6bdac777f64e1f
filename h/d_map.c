/* C09 maps, C10 sets, C11 comparison counts, C13 dictionaries */
#include "hx.h"
#include <strings.h>
#include "cee.h"
#include "drv.h"
extern struct cee_set *cee_set_union_set(struct cee_state *s, struct cee_set *s1, struct cee_set *s2);
extern struct cee_set *cee_set_clone(struct cee_set *src);
extern void *cee_map_add_e(struct cee_map *m, void *key, void *value, void *ctx, void *(*merge)(void *ctx, void *old_value, void *new_value));

static __thread uint64_t n_cmp;
static int c_str(const void *a, const void *b) { n_cmp++; return strcmp(a, b); }
static int c_case(const void *a, const void *b) { n_cmp++; return strcasecmp(a, b); }
static int c_rev(const void *a, const void *b) { n_cmp++; int r = strcmp(b, a); return r < 0 ? -1000000 : r > 0 ? 1000000 : 0; }
static int c_len(const void *a, const void *b) { n_cmp++; size_t x = strlen(a), y = strlen(b); return x < y ? INT_MIN : x > y ? INT_MAX : strcmp(a, b); }
static cee_cmp_fun cmps[4] = { c_str, c_case, c_rev, c_len };

/* keys: many spellings, some equal under strcasecmp, some equal text at different addresses */
static void *mk_key(struct cee_state *st, int range) {
  int k = (int)rnd(range);
  switch (rnd(4)) {
    case 0: return L(cee_str_mk(st, "k%d", k));
    case 1: return L(cee_str_mk(st, "K%d", k));
    case 2: return L(cee_str_mk(st, "%c", 'A' + k % 58));
    default: return L(cee_str_mk(st, "k%d", k));
  }
}
struct mm { struct cee_map *m; int pol; cee_cmp_fun cmp; size_t n, cap; void **k, **v; };
static long mm_find(struct mm *x, void *key) {
  for (size_t i = 0; i < x->n; i++) if (x->cmp(key, x->k[i]) == 0) return (long)i;
  return -1;
}
static void mm_push(struct mm *x, void *k, void *v) {
  if (x->n == x->cap) { x->cap = x->cap ? 2 * x->cap : 16; x->k = realloc(x->k, x->cap * sizeof(void *)); x->v = realloc(x->v, x->cap * sizeof(void *)); }
  x->k[x->n] = k; x->v[x->n++] = v;
}
static void mm_del(struct mm *x, size_t i) {
  memmove(x->k + i, x->k + i + 1, (x->n - i - 1) * sizeof(void *));
  memmove(x->v + i, x->v + i + 1, (x->n - i - 1) * sizeof(void *));
  x->n--;
}
struct mit { void *magic; struct mm *x; size_t n, stop; int ret, bad; unsigned char *seen; };
static int mit_cb(void *c, void *k, void *v) {
  struct mit *t = c;
  if (t->magic != t) { t->bad |= 1; return 0; }
  long i = mm_find(t->x, k);
  if (i < 0) t->bad |= 2;
  else if (t->x->v[i] != v) t->bad |= 4;
  else if (t->seen[i]) t->bad |= 8;
  else t->seen[i] = 1;
  t->n++;
  return t->n == t->stop ? t->ret : 0;
}
static void mm_check(struct mm *x, int id, const char *w, int deep) {
  CK(cee_map_size(x->m) == x->n, "map %d has size %zu, expected %zu, after %s", id, (size_t)cee_map_size(x->m), x->n, w);
  OB(x->n);
  for (size_t i = 0; i < x->n; i++)
    CK(cee_map_find(x->m, x->k[i]) == x->v[i], "map %d (%zu pairs): wrong value for key %s after %s", id, x->n, (char *)x->k[i], w);
  /* insertion order, without disturbing anything: the listing is a new list */
  struct cee_list *io = L(cee_map_insertion_ordered_keys(x->m));
  CK(cee_list_size(io) == x->n, "map %d: insertion-ordered listing has %zu keys, expected %zu, after %s", id, cee_list_size(io), x->n, w);
  for (size_t i = 0; i < x->n; i++)
    CK(x->cmp(io->a[i], x->k[i]) == 0, "map %d: insertion-ordered key %zu is %s, expected %s, after %s", id, i, (char *)io->a[i], (char *)x->k[i], w);
  if (x->pol == CEE_DP_DEL_RC) LV(cee_del(io));
  if (!deep) return;
  struct cee_list *ks = L(cee_map_keys(x->m)), *vs = L(cee_map_values(x->m));
  CK(cee_list_size(ks) == x->n && cee_list_size(vs) == x->n, "map %d: listings have %zu keys and %zu values, expected %zu, after %s", id, cee_list_size(ks), cee_list_size(vs), x->n, w);
  unsigned char *seen = calloc(1, x->n + 1);
  for (size_t i = 0; i < x->n; i++) {
    long j = mm_find(x, ks->a[i]);
    CK(j >= 0, "map %d lists an unknown key %s after %s", id, (char *)ks->a[i], w);
    CK(!seen[j], "map %d lists key %s twice after %s", id, (char *)ks->a[i], w);
    seen[j] = 1;
    CK(vs->a[i] == x->v[j], "map %d: value listing does not match key listing at %zu after %s", id, i, w);
    OBZ(ks->a[i]);
  }
  if (x->pol == CEE_DP_DEL_RC) { LV(cee_del(ks)); LV(cee_del(vs)); }
  memset(seen, 0, x->n + 1);
  struct mit t = { &t, x, 0, chance(50) ? 0 : 1 + rnd(x->n + 1), chance(50) ? 7 : -3, 0, seen };
  int r = L(cee_map_iterate(x->m, &t, mit_cb));
  size_t want = t.stop && t.stop <= x->n ? t.stop : x->n;
  int wr = t.stop && t.stop <= x->n ? t.ret : 0;
  CK(!t.bad, "map %d: iteration passed a wrong %s after %s", id, t.bad & 1 ? "context" : t.bad & 2 ? "key" : t.bad & 4 ? "value" : "pair twice", w);
  CK(t.n == want && r == wr, "map %d of %zu: iteration made %zu calls and returned %d, expected %zu and %d, after %s", id, x->n, t.n, r, want, wr, w);
  if (wr) COUNT("iterations stopped by the callback");
  free(seen);
  COUNT("deep verifications");
}
/* merging rules: keep old, take new, or a third value that depends on both */
struct mrule { int rule; void *pool[16]; int calls; struct mm *dst, *src; int bad; void *magic; };
static void *mr_third(struct mrule *r, void *o, void *n) {
  int a = 0, b = 0;
  for (int i = 0; i < 16; i++) { if (r->pool[i] == o) a = i; if (r->pool[i] == n) b = i; }
  return r->pool[(a * 5 + b * 3 + 1) % 16];
}
static void *mr_apply(struct mrule *r, void *o, void *n) { return r->rule == 0 ? n : r->rule == 1 ? o : mr_third(r, o, n); }
static void *mr_cb(void *c, void *o, void *n) {
  struct mrule *r = c;
  if (r->magic != r) abort();
  r->calls++;
  return mr_apply(r, o, n);
}
/* after a merge/clone: pairs present before keep their place; the new ones follow in any order */
static void mm_adopt_merge(struct mm *d, struct mm *s, struct mrule *r, int id) {
  size_t old_n = d->n;
  for (size_t i = 0; i < s->n; i++) {
    long j = mm_find(d, s->k[i]);
    if (j >= 0) d->v[j] = r ? mr_apply(r, d->v[j], s->v[i]) : s->v[i];
    else mm_push(d, s->k[i], s->v[i]);
  }
  struct cee_list *io = L(cee_map_insertion_ordered_keys(d->m));
  CK(cee_list_size(io) == d->n, "map %d: merge gave %zu pairs, expected %zu", id, cee_list_size(io), d->n);
  for (size_t i = old_n; i < d->n; i++) {     /* adopt the order of the new block */
    size_t j;
    for (j = i; j < d->n; j++) if (d->cmp(io->a[i], d->k[j]) == 0) break;
    CK(j < d->n, "map %d: unexpected key %s at insertion position %zu after a merge", id, (char *)io->a[i], i);
    void *t = d->k[i]; d->k[i] = d->k[j]; d->k[j] = t;
    t = d->v[i]; d->v[i] = d->v[j]; d->v[j] = t;
  }
  if (d->pol == CEE_DP_DEL_RC) LV(cee_del(io));
}
/* more entries than any 16-bit count holds; key i is the text b<i>, the model is indexed directly */
struct vit { void *magic; void **val; unsigned char *seen; size_t n, N; int bad; };
static long vkey(const char *k, size_t N) { long i = k && *k == 'b' ? strtol(k + 1, NULL, 10) : -1; return i >= 0 && (size_t)i < N ? i : -1; }
static int vit_cb(void *c, void *k, void *v) {
  struct vit *t = c; long i = vkey(k, t->N);
  if (t->magic != t || i < 0 || t->seen[i] || t->val[i] != v) t->bad = 1; else t->seen[i] = 1;
  t->n++;
  return 0;
}
static void vsit_cb(void *c, void *k) {
  struct vit *t = c; long i = vkey(k, t->N);
  if (t->magic != t || i < 0 || t->seen[i] || t->val[i] != k) t->bad = 1; else t->seen[i] = 1;
  t->n++;
}
static void vast_map(struct cee_state *st) {
  size_t N = 65530 + rnd(5000), n = N, pos = 0;
  int dir = (int)rnd(3);
  struct cee_map *m = L(cee_map_mk(st, c_str));
  void *pool[16], **val = calloc(N, sizeof *val), **key = calloc(N, sizeof *key);
  unsigned char *seen = calloc(1, N);
  OP("vast map of %zu keys, order %d", N, dir);
  for (int i = 0; i < 16; i++) pool[i] = L(cee_boxed_from_i32(st, i));
#define VI(q) (dir == 0 ? (q) : dir == 1 ? N - 1 - (q) : (q) % 2 ? N - 1 - (q) / 2 : (q) / 2)
  for (size_t q = 0; q < N; q++) {
    size_t i = VI(q);
    key[i] = L(cee_str_mk(st, "b%07zu", i)); val[i] = pool[rnd(16)];
    CK(L(cee_map_add(m, key[i], val[i])) == NULL, "adding new key %zu to a map of %zu finds an old value", i, q);
    if (q % 4096 == 0 || q + 3 > N || (q > 65530 && q < 65540)) CK(cee_map_size(m) == q + 1, "a map of %zu pairs has size %zu", q + 1, (size_t)cee_map_size(m));
  }
  for (int q = 0; q < 300; q++) {       /* the far end of the insertion order, its start, anywhere */
    size_t i = q % 3 == 0 ? VI(N - 1 - rnd(40)) : q % 3 == 1 ? VI(rnd(40)) : VI(rnd(N)); 
    if (q % 10 == 9 && val[i]) { void *nv = pool[rnd(16)]; CK(L(cee_map_add(m, key[i], nv)) == val[i], "replacing the value of key %zu in a vast map returned a wrong value", i); val[i] = nv; continue; }
    if (q % 3 == 2 && chance(60)) continue;
    CK(L(cee_map_remove(m, key[i])) == val[i], "removing key %zu of a vast map returned a wrong value", i);
    n -= val[i] != NULL; val[i] = NULL;
  }
  CK(cee_map_size(m) == n, "a map of %zu pairs has size %zu", n, (size_t)cee_map_size(m));
  OB(n);
  for (size_t i = 0; i < N; i++) CK(cee_map_find(m, key[i]) == val[i], "a map of %zu pairs: wrong value for key %zu", n, i);
  struct cee_list *io = L(cee_map_insertion_ordered_keys(m));
  CK(cee_list_size(io) == n, "a map of %zu pairs lists %zu keys in insertion order", n, cee_list_size(io));
  for (size_t q = 0; q < N; q++) { size_t i = VI(q); if (val[i]) { CK(vkey(io->a[pos], N) == (long)i, "a map of %zu pairs: insertion-ordered key %zu is %s, not %zu", n, pos, (char *)io->a[pos], i); pos++; } }
  struct vit t = { &t, val, seen, 0, N, 0 };
  CK(L(cee_map_iterate(m, &t, vit_cb)) == 0 && t.n == n && !t.bad, "a map of %zu pairs: iteration made %zu calls%s", n, t.n, t.bad ? ", some of them wrong" : "");
  struct cee_list *ks = L(cee_map_keys(m)), *vs = L(cee_map_values(m));
  CK(cee_list_size(ks) == n && cee_list_size(vs) == n, "a map of %zu pairs lists %zu keys and %zu values", n, cee_list_size(ks), cee_list_size(vs));
  memset(seen, 0, N);
  for (size_t q = 0; q < n; q++) { long i = vkey(ks->a[q], N); CK(i >= 0 && !seen[i] && val[i] == vs->a[q], "a map of %zu pairs: listing is wrong at %zu", n, q); seen[i] = 1; }
  struct cee_map *c = L(cee_map_clone(m));
  CK(cee_map_size(c) == n, "the clone of a map of %zu pairs has size %zu", n, (size_t)cee_map_size(c));
  for (size_t i = 0; i < N; i += 1 + rnd(40)) CK(cee_map_find(c, key[i]) == val[i], "the clone of a map of %zu pairs: wrong value for key %zu", n, i);
  COUNT("maps beyond 16-bit sizes"); COUNTMAX("map size", N);
  hx->nontrivial = 1;
  free(val); free(key); free(seen);
}
static void vast_set(struct cee_state *st) {
  size_t N = 65530 + rnd(5000), n = N;
  int dir = (int)rnd(3);
  struct cee_set *m = L(cee_set_mk(st, c_str)), *o = L(cee_set_mk(st, c_str));
  void **val = calloc(N + 40, sizeof *val), **key = calloc(N + 40, sizeof *key);
  unsigned char *seen = calloc(1, N + 40);
  OP("vast set of %zu elements, order %d", N, dir);
  for (size_t q = 0; q < N; q++) {
    size_t i = VI(q);
    key[i] = val[i] = L(cee_str_mk(st, "b%07zu", i));
    LV(cee_set_add(m, key[i]));
    if (q % 4096 == 0 || q + 3 > N || (q > 65530 && q < 65540)) CK(cee_set_size(m) == q + 1 && !cee_set_empty(m), "a set of %zu elements has size %zu", q + 1, cee_set_size(m));
  }
  for (int q = 0; q < 300; q++) {
    size_t i = rnd(N);
    CK(L(cee_set_remove(m, key[i])) == val[i], "removing element %zu of a vast set returned a wrong element", i);
    n -= val[i] != NULL; val[i] = NULL;
  }
  CK(cee_set_size(m) == n, "a set of %zu elements has size %zu", n, cee_set_size(m));
  for (size_t i = 0; i < N; i++) CK(cee_set_find(m, key[i]) == val[i], "a set of %zu elements: wrong element for %zu", n, i);
  struct vit t = { &t, val, seen, 0, N, 0 };
  LV(cee_set_iterate(m, &t, vsit_cb));
  CK(t.n == n && !t.bad, "a set of %zu elements: iteration made %zu calls%s", n, t.n, t.bad ? ", some of them wrong" : "");
  struct cee_list *vs = L(cee_set_values(m));
  CK(cee_list_size(vs) == n, "a set of %zu elements lists %zu", n, cee_list_size(vs));
  memset(seen, 0, N);
  for (size_t q = 0; q < n; q++) { long i = vkey(vs->a[q], N); CK(i >= 0 && !seen[i] && val[i] == vs->a[q], "a set of %zu elements: listing is wrong at %zu", n, q); seen[i] = 1; }
  /* a union with a few more */
  size_t k = n;
  for (size_t i = N; i < N + 40; i++) { key[i] = val[i] = L(cee_str_mk(st, "b%07zu", i)); LV(cee_set_add(o, key[i])); k++; }
  for (int q = 0; q < 5; q++) { size_t i = rnd(N); if (val[i]) LV(cee_set_add(o, val[i])); }
  struct cee_set *u = L(cee_set_union_set(st, m, o)), *c = L(cee_set_clone(m));
  CK(cee_set_size(u) == k, "a union of %zu elements has size %zu", k, cee_set_size(u));
  CK(cee_set_size(c) == n, "the clone of a set of %zu elements has size %zu", n, cee_set_size(c));
  for (size_t i = 0; i < N + 40; i += 1 + (i < N ? rnd(20) : 0)) {
    CK(cee_set_find(u, key[i]) == val[i], "a union of %zu elements: wrong element for %zu", k, i);
    CK(cee_set_find(c, key[i]) == (i < N ? val[i] : NULL), "the clone of a set of %zu elements: wrong element for %zu", n, i);
  }
  LV(cee_set_clear(m));
  CK(cee_set_size(m) == 0 && cee_set_empty(m) && !cee_set_find(m, key[N - 1]) && !cee_set_find(m, key[0]), "a vast set is not empty after being cleared");
  COUNT("sets beyond 16-bit sizes"); COUNTMAX("set size", N);
  hx->nontrivial = 1;
  OB(k);
  free(val); free(key); free(seen);
}
void d_c09(void) {
  struct cee_state *st = L(cee_state_mk(8));
  if (hx->casenr % 3001 == 17) { vast_map(st); LV(cee_del(st)); return; }
  enum { NM = 3 };
  struct mm m[NM]; memset(m, 0, sizeof m);
  struct mrule rl; memset(&rl, 0, sizeof rl); rl.magic = &rl;
  struct cee_list *hold = L(cee_list_mk(st, 16));    /* keeps keys and values alive */
  for (int i = 0; i < 16; i++) { rl.pool[i] = L(cee_boxed_from_i32(st, i)); LV(cee_list_append(hold, rl.pool[i])); }
  int range = chance(20) ? 300 : chance(50) ? 30 : 6;
  int ci = (int)rnd(4);
  for (int i = 0; i < NM; i++) {
    m[i].pol = chance(60) ? CEE_DP_DEL_RC : CEE_DP_NOOP;
    m[i].cmp = cmps[chance(80) ? ci : (int)rnd(4)];
    enum cee_del_policy o[2] = { m[i].pol, m[i].pol };
    OP("map %d pol=%d cmp=%d range=%d", i, m[i].pol, ci, range);
    m[i].m = m[i].pol == CEE_DP_DEL_RC && chance(50) ? L(cee_map_mk(st, m[i].cmp)) : L(cee_map_mk_e(st, o, m[i].cmp));
  }
  int steps = (int)rndr(8, range == 300 ? 400 : hx_thorough ? 140 : 70);
  int order = (int)rnd(4), ctr = 0;
  if (rnd(300) == 0) {     /* a large map first */
    struct mm *x = &m[0]; int N = (int)rndr(500, hx_thorough ? 3000 : 1200), dir = (int)rnd(3);
    if (x->cmp == c_case) x->cmp = cmps[3], x->m = L(cee_map_mk(st, x->cmp)), x->pol = CEE_DP_DEL_RC;
    OP("bulk of %d keys, order %d", N, dir);
    for (int q = 0; q < N; q++) {
      void *k = L(cee_str_mk(st, "b%06d", dir == 0 ? q : dir == 1 ? N - q : (int)((unsigned)q * 7919u % 1000003u))), *v = rl.pool[rnd(16)];
      LV(cee_list_append(hold, k));
      CK(L(cee_map_add(x->m, k, v)) == NULL, "adding new key %d to a large map finds an old value", q);
      mm_push(x, k, v);
    }
    mm_check(x, 0, "a bulk of additions", 1);
    for (int q = 0, R = chance(50) ? N / 2 : 20; q < R; q++) {
      size_t j = rnd(x->n); void *k = x->k[j];
      CK(L(cee_map_remove(x->m, k)) == x->v[j], "removing from a large map returned a wrong value");
      mm_del(x, j);
    }
    mm_check(x, 0, "a bulk of removals", 1);
    steps = steps > 12 ? 12 : steps; COUNT("large maps"); hx->nontrivial = 1;
  }
  for (int s = 0; s < steps; s++) {
    int i = (int)rnd(NM), op = (int)rnd(24);
    struct mm *x = &m[i];
    char w[96]; int deep = chance(25);
    void *key;
    if (order == 1 && op < 10) key = L(cee_str_mk(st, "s%06d", ctr++));
    else if (order == 2 && op < 10) key = L(cee_str_mk(st, "s%06d", 900000 - ctr++));
    else if (x->n && chance(45)) { key = x->k[rnd(x->n)]; if (chance(50)) key = L(cee_str_mk(st, "%s", (char *)key)); }
    else key = mk_key(st, range);
    LV(cee_list_append(hold, key));
    void *val = rl.pool[rnd(16)];
    long at = mm_find(x, key);
    if (op < 10) {
      snprintf(w, sizeof w, "add of %s key", at >= 0 ? "an existing" : "a new");
      OP("add %d key=%s new=%d n=%zu", i, (char *)key, at < 0, x->n);
      void *old;
      if (chance(15)) {      /* with a combining rule */
        rl.rule = (int)rnd(3); rl.calls = 0;
        old = L(cee_map_add_e(x->m, key, val, &rl, mr_cb));
        CK(rl.calls == (at >= 0), "adding with a combining rule called it %d times", rl.calls);
        CK(old == (at >= 0 ? x->v[at] : NULL), "cee_map_add_e returned a wrong old value for key %s", (char *)key);
        if (at >= 0) x->v[at] = mr_apply(&rl, x->v[at], val); else mm_push(x, key, val);
      } else {
        old = L(cee_map_add(x->m, key, val));
        CK(old == (at >= 0 ? x->v[at] : NULL), "cee_map_add returned a wrong old value for key %s", (char *)key);
        if (at >= 0) x->v[at] = val; else mm_push(x, key, val);
      }
      if (at >= 0) { COUNT("replacements"); } else COUNT("new keys");
    } else if (op < 15) {
      snprintf(w, sizeof w, "removal");
      OP("remove %d key=%s present=%d n=%zu", i, (char *)key, at >= 0, x->n);
      void *old = L(cee_map_remove(x->m, key));
      CK(old == (at >= 0 ? x->v[at] : NULL), "cee_map_remove returned a wrong value for key %s", (char *)key);
      if (at >= 0) { mm_del(x, at); hx->nontrivial = 1; COUNT("removals"); }
      deep |= chance(30);
    } else if (op < 17) {
      void *nk = x->n && chance(40) ? L(cee_str_mk(st, "%s", (char *)x->k[rnd(x->n)])) : mk_key(st, range);
      LV(cee_list_append(hold, nk));
      snprintf(w, sizeof w, "rename of %s key", at >= 0 ? "an existing" : "a missing");
      OP("rename %d %s -> %s present=%d", i, (char *)key, (char *)nk, at >= 0);
      bool r = L(cee_map_rename(x->m, key, nk));
      CK(r == (at >= 0), "cee_map_rename of key %s returned %d", (char *)key, r);
      if (at >= 0) {
        void *v = x->v[at];
        mm_del(x, at);
        long j = mm_find(x, nk);
        if (j >= 0) x->v[j] = v; else mm_push(x, nk, v);
        hx->nontrivial = 1; COUNT("renames");
      }
    } else if (op < 19) {
      int j = (int)rnd(NM + 1);
      if (j == i) continue;
      if (j < NM && m[j].cmp != x->cmp) continue;   /* the other's keys may be equal here: order of application would matter */
      rl.rule = (int)rnd(4); rl.calls = 0;
      int plain = rl.rule == 3;
      snprintf(w, sizeof w, "merge with rule %d", rl.rule);
      OP("merge %d <- %d rule=%d", i, j, rl.rule);
      LV(cee_map_merge(x->m, j == NM ? NULL : m[j].m, plain ? NULL : &rl, plain ? NULL : mr_cb));
      if (j < NM) { mm_adopt_merge(x, &m[j], plain ? NULL : &rl, i); mm_check(&m[j], j, "being merged", 1); if (m[j].n) hx->nontrivial = 1; }
      COUNT("merges"); deep = 1;
    } else if (op < 20) {
      snprintf(w, sizeof w, "clone");
      OP("clone %d n=%zu", i, x->n);
      struct mm c = { L(cee_map_clone(x->m)), x->pol, x->cmp, 0, 0, 0, 0 };
      CK(c.m && c.m != x->m, "cee_map_clone returned no new map");
      mm_adopt_merge(&c, x, NULL, 90);
      mm_check(&c, 90, "being cloned", 1);
      /* the clone is independent of the original */
      if (x->n) {
        void *k0 = x->k[rnd(x->n)];
        LV(cee_map_remove(c.m, k0));
        mm_del(&c, mm_find(&c, k0));
        mm_check(&c, 90, "removal from the clone", 1);
        hx->nontrivial = 1;
      }
      if (chance(50)) { int j = (int)rnd(NM); free(m[j].k); free(m[j].v); m[j] = c; COUNT("clones used further"); }      /* the history goes on with the clone */
      else { free(c.k); free(c.v); }
      COUNT("clones"); deep = 1;
    } else if (op < 23) {
      snprintf(w, sizeof w, "lookup");
      OP("find %d key=%s present=%d", i, (char *)key, at >= 0);
      CK(L(cee_map_find(x->m, key)) == (at >= 0 ? x->v[at] : NULL), "lookup of key %s in map %d is wrong", (char *)key, i);
      COUNT("lookups");
    } else {
      snprintf(w, sizeof w, "calls with a missing key or map");
      OP("null calls");
      CK(cee_map_size(NULL) == 0 && !cee_map_find(NULL, key) && !cee_map_remove(NULL, key) && cee_map_iterate(NULL, NULL, mit_cb) == 0, "a missing map does not count as empty");
      CK(!cee_map_find(x->m, NULL) && !L(cee_map_remove(x->m, NULL)) && !L(cee_map_add(x->m, NULL, val)), "a missing key was found or added");
      CK(!L(cee_map_rename(x->m, NULL, key)) && !L(cee_map_rename(x->m, key, NULL)), "renaming with a missing key succeeded");
    }
    mm_check(x, i, w, deep);
    if (chance(10)) for (int q = 0; q < NM; q++) mm_check(&m[q], q, w, chance(30));
    COUNTMAX("map size", x->n);
  }
  for (int q = 0; q < NM; q++) { mm_check(&m[q], q, "the history", 1); free(m[q].k); free(m[q].v); }
  LV(cee_del(st));
}

/* ---------- C10 */
struct ss { struct cee_set *s; int pol; cee_cmp_fun cmp; size_t n, cap; void **e; };
static long ss_find(struct ss *x, void *k) { for (size_t i = 0; i < x->n; i++) if (x->cmp(k, x->e[i]) == 0) return (long)i; return -1; }
static void ss_push(struct ss *x, void *k) { if (x->n == x->cap) { x->cap = x->cap ? 2 * x->cap : 16; x->e = realloc(x->e, x->cap * sizeof(void *)); } x->e[x->n++] = k; }
struct sit { void *magic; struct ss *x; size_t n; int bad; unsigned char *seen; };
static void sit_cb(void *c, void *v) {
  struct sit *t = c;
  if (t->magic != t) { t->bad |= 1; return; }
  size_t i;
  for (i = 0; i < t->x->n; i++) if (t->x->e[i] == v) break;
  if (i == t->x->n) t->bad |= 2;
  else if (t->seen[i]++) t->bad |= 4;
  t->n++;
}
static void ss_check(struct ss *x, int id, const char *w, int deep) {
  CK(cee_set_size(x->s) == x->n, "set %d has size %zu, expected %zu, after %s", id, cee_set_size(x->s), x->n, w);
  CK(cee_set_empty(x->s) == (x->n == 0), "set %d of %zu: wrong emptiness after %s", id, x->n, w);
  OB(x->n);
  for (size_t i = 0; i < x->n; i++) CK(cee_set_find(x->s, x->e[i]) == x->e[i], "set %d of %zu: element %s not found as stored after %s", id, x->n, (char *)x->e[i], w);
  if (!deep) return;
  unsigned char *seen = calloc(1, x->n + 1);
  struct sit t = { &t, x, 0, 0, seen };
  LV(cee_set_iterate(x->s, &t, sit_cb));
  CK(!t.bad && t.n == x->n, "set %d of %zu: iteration made %zu calls%s after %s", id, x->n, t.n, t.bad & 2 ? " with a foreign element" : t.bad & 4 ? " with an element twice" : t.bad ? " with a wrong context" : "", w);
  struct cee_list *vs = L(cee_set_values(x->s));
  CK(cee_list_size(vs) == x->n, "set %d: listing has %zu elements, expected %zu, after %s", id, cee_list_size(vs), x->n, w);
  memset(seen, 0, x->n + 1);
  for (size_t i = 0; i < x->n; i++) {
    size_t j;
    for (j = 0; j < x->n; j++) if (x->e[j] == vs->a[i]) break;
    CK(j < x->n && !seen[j], "set %d lists a foreign element or one twice after %s", id, w);
    seen[j] = 1;
    OBZ(vs->a[i]);
  }
  if (x->pol == CEE_DP_DEL_RC) LV(cee_del(vs));
  free(seen);
  COUNT("deep verifications");
}
void d_c10(void) {
  struct cee_state *st = L(cee_state_mk(8));
  if (hx->casenr % 3001 == 17) { vast_set(st); LV(cee_del(st)); return; }
  enum { NS = 3 };
  struct ss m[NS]; memset(m, 0, sizeof m);
  struct cee_list *hold = L(cee_list_mk(st, 16));
  int range = chance(20) ? 300 : chance(50) ? 30 : 6, ci = (int)rnd(4);
  for (int i = 0; i < NS; i++) {
    m[i].pol = chance(60) ? CEE_DP_DEL_RC : CEE_DP_NOOP;
    m[i].cmp = cmps[chance(80) ? ci : (int)rnd(4)];
    OP("set %d pol=%d cmp=%d range=%d", i, m[i].pol, ci, range);
    m[i].s = m[i].pol == CEE_DP_DEL_RC && chance(50) ? L(cee_set_mk(st, m[i].cmp)) : L(cee_set_mk_e(st, m[i].pol, m[i].cmp));
  }
  int steps = (int)rndr(8, range == 300 ? 400 : hx_thorough ? 140 : 70);
  int order = (int)rnd(4), ctr = 0;
  if (rnd(300) == 0) {     /* a large set first */
    struct ss *x = &m[0]; int N = (int)rndr(500, hx_thorough ? 3000 : 1200), dir = (int)rnd(3);
    if (x->cmp == c_case) x->cmp = cmps[3], x->s = L(cee_set_mk(st, x->cmp)), x->pol = CEE_DP_DEL_RC;
    OP("bulk of %d elements, order %d", N, dir);
    for (int q = 0; q < N; q++) {
      void *k = L(cee_str_mk(st, "b%06d", dir == 0 ? q : dir == 1 ? N - q : (int)((unsigned)q * 7919u % 1000003u)));
      LV(cee_list_append(hold, k)); LV(cee_set_add(x->s, k)); ss_push(x, k);
    }
    ss_check(x, 0, "a bulk of additions", 1);
    for (int q = 0, R = chance(50) ? N / 2 : 20; q < R; q++) {
      size_t j = rnd(x->n);
      CK(L(cee_set_remove(x->s, x->e[j])) == x->e[j], "removing from a large set returned a wrong element");
      memmove(x->e + j, x->e + j + 1, (x->n - j - 1) * sizeof(void *)); x->n--;
    }
    ss_check(x, 0, "a bulk of removals", 1);
    steps = steps > 12 ? 12 : steps; COUNT("large sets"); hx->nontrivial = 1;
  }
  for (int s = 0; s < steps; s++) {
    int i = (int)rnd(NS), op = (int)rnd(20);
    struct ss *x = &m[i];
    char w[96]; int deep = chance(25);
    void *key;
    if (order == 1 && op < 9) key = L(cee_str_mk(st, "s%06d", ctr++));
    else if (order == 2 && op < 9) key = L(cee_str_mk(st, "s%06d", 900000 - ctr++));
    else if (x->n && chance(45)) { key = x->e[rnd(x->n)]; if (chance(50)) key = L(cee_str_mk(st, "%s", (char *)key)); }
    else key = mk_key(st, range);
    LV(cee_list_append(hold, key));
    long at = ss_find(x, key);
    if (op < 9) {
      snprintf(w, sizeof w, "add of %s element", at >= 0 ? "an equal" : "a new");
      OP("add %d %s new=%d n=%zu", i, (char *)key, at < 0, x->n);
      LV(cee_set_add(x->s, key));
      if (at < 0) ss_push(x, key); else { hx->nontrivial = 1; COUNT("adds of an equal element"); }
      COUNT("adds");
    } else if (op < 14) {
      snprintf(w, sizeof w, "removal");
      OP("remove %d %s present=%d n=%zu", i, (char *)key, at >= 0, x->n);
      void *r = L(cee_set_remove(x->s, key));
      CK(r == (at >= 0 ? x->e[at] : NULL), "cee_set_remove of %s returned %s", (char *)key, r ? "a wrong element" : "nothing");
      if (at >= 0) { memmove(x->e + at, x->e + at + 1, (x->n - at - 1) * sizeof(void *)); x->n--; hx->nontrivial = 1; COUNT("removals"); }
      deep |= chance(30);
    } else if (op < 16) {
      snprintf(w, sizeof w, "lookup");
      OP("find %d %s present=%d", i, (char *)key, at >= 0);
      CK(L(cee_set_find(x->s, key)) == (at >= 0 ? x->e[at] : NULL), "lookup of %s in set %d is wrong", (char *)key, i);
    } else if (op == 16 && chance(30)) {
      snprintf(w, sizeof w, "clear");
      OP("clear %d n=%zu", i, x->n);
      LV(cee_set_clear(x->s));
      x->n = 0; deep = 1; COUNT("clears");
    } else if (op == 17) {
      snprintf(w, sizeof w, "clone");
      OP("clone %d n=%zu", i, x->n);
      struct ss c = { L(cee_set_clone(x->s)), x->pol, x->cmp, 0, 0, 0 };
      for (size_t q = 0; q < x->n; q++) ss_push(&c, x->e[q]);
      ss_check(&c, 90, "being cloned", 1);
      if (c.n) { void *r = L(cee_set_remove(c.s, c.e[c.n - 1])); CK(r == c.e[c.n - 1], "removal from a clone is wrong"); c.n--; ss_check(&c, 90, "removal from the clone", 1); hx->nontrivial = 1; }
      if (chance(50)) { int j = (int)rnd(NS); free(m[j].e); m[j] = c; COUNT("clones and unions used further"); } else free(c.e);
      deep = 1; COUNT("clones");
    } else if (op == 18) {
      int j = (int)rnd(NS);
      if (m[j].cmp != x->cmp) continue;
      snprintf(w, sizeof w, "union");
      OP("union %d %d n=%zu,%zu", i, j, x->n, m[j].n);
      /* the union's temporary listings are reference counted: a no-op set's elements are held by the hold list */
      struct ss u = { L(cee_set_union_set(st, x->s, m[j].s)), CEE_DP_DEL_RC, x->cmp, 0, 0, 0 };
      for (size_t q = 0; q < x->n; q++) ss_push(&u, x->e[q]);
      for (size_t q = 0; q < m[j].n; q++) if (ss_find(&u, m[j].e[q]) < 0) ss_push(&u, m[j].e[q]);
      /* of two equal elements the one of the first set stays */
      ss_check(&u, 91, "a union", 1);
      ss_check(&m[j], j, "being united", 1);
      if (chance(50)) { int q = (int)rnd(NS); free(m[q].e); m[q] = u; COUNT("clones and unions used further"); } else free(u.e);
      deep = 1; hx->nontrivial = 1; COUNT("unions");
    } else {
      snprintf(w, sizeof w, "calls on a missing set");
      OP("null calls");
      CK(cee_set_size(NULL) == 0 && cee_set_empty(NULL) && !cee_set_find(NULL, key) && !cee_set_remove(NULL, key), "a missing set does not count as empty");
    }
    ss_check(x, i, w, deep);
    if (chance(10)) for (int q = 0; q < NS; q++) ss_check(&m[q], q, w, chance(30));
    COUNTMAX("set size", x->n);
  }
  for (int q = 0; q < NS; q++) { ss_check(&m[q], q, "the history", 1); free(m[q].e); }
  LV(cee_del(st));
}

/* ---------- C11 */
static int c_int(const void *a, const void *b) { n_cmp++; int64_t x = *(const int64_t *)a, y = *(const int64_t *)b; return x < y ? -1 : x > y; }
void d_c11(void) {
  struct cee_state *st = L(cee_state_mk(8));
  int pat = (int)rnd(8), use_map = chance(50);
  size_t N = chance(8) ? (size_t)rndr(2000, 8000) : chance(50) ? (size_t)rndr(200, 1500) : (size_t)rndr(20, 250);
  int64_t *keys = malloc(N * 8);
  unsigned char *in = calloc(1, N);
  for (size_t i = 0; i < N; i++) keys[i] = (int64_t)i * 2;
  size_t *ord = malloc(N * sizeof *ord);
  for (size_t i = 0; i < N; i++) ord[i] = i;
  if (pat == 1) for (size_t i = 0; i < N; i++) ord[i] = N - 1 - i;
  else if (pat == 2) for (size_t i = N - 1; i > 0; i--) { size_t j = rnd(i + 1), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
  else if (pat == 3) for (size_t i = 0; i < N; i++) ord[i] = i % 2 ? N - 1 - i / 2 : i / 2;          /* outside in */
  else if (pat == 4) for (size_t i = 0; i < N; i++) ord[i] = i % 2 ? N / 2 + i / 2 : N / 2 - 1 - i / 2;  /* inside out */
  else if (pat == 5) { size_t k = 0, B = 1 + rnd(40); for (size_t b = 0; b < B; b++) for (size_t i = b; i < N; i += B) ord[k++] = i; }  /* interleaved runs */
  else if (pat == 6) { size_t B = 2 + rnd(60); for (size_t i = 0; i + B <= N; i += B) for (size_t a = 0; a < B / 2; a++) { size_t t = ord[i + a]; ord[i + a] = ord[i + B - 1 - a]; ord[i + B - 1 - a] = t; } }
  if (pat == 4) for (size_t i = 0; i < N; i++) if (ord[i] >= N) ord[i] = N - 1;
  OP("pattern %d N=%zu %s", pat, N, use_map ? "map" : "set");
  enum cee_del_policy np[2] = { CEE_DP_NOOP, CEE_DP_NOOP };
  struct cee_set *S = use_map ? NULL : L(cee_set_mk_e(st, CEE_DP_NOOP, c_int));
  struct cee_map *M = use_map ? L(cee_map_mk_e(st, np, c_int)) : NULL;
  size_t n = 0;
  uint64_t worst_ratio = 0;
  void *val = L(cee_boxed_from_i32(st, 1));
#define BOUND(n) (1.4405 * log2((double)(n) + 2) + 2)
  int phases = (int)rndr(1, 4);
  int maprm = 0;
  for (int ph = 0; ph < phases; ph++) {
    for (size_t q = 0; q < N; q++) {
      size_t i = ord[q];
      double b;
      if (ph % 2 == 0) {
        if (in[i]) continue;
        b = BOUND(n + 1); n_cmp = 0;
        if (use_map) LV(cee_map_add(M, &keys[i], val)); else LV(cee_set_add(S, &keys[i]));
        CK((double)n_cmp <= 2 * b, "inserting into %zu elements (pattern %d) took %llu comparisons", n, pat, (unsigned long long)n_cmp);
        in[i] = 1; n++; COUNT("insertions measured");
      } else {
        if (!in[i] || (ph == 1 ? (q % 3 == 0) : chance(40))) continue;
        if (use_map && maprm++ > 400) continue;    /* removing from a map also scans its key order list */
        b = BOUND(n); n_cmp = 0;
        if (use_map) LV(cee_map_remove(M, &keys[i])); else {
          LV(cee_set_remove(S, &keys[i]));
          CK((double)n_cmp <= 3 * b, "removing from %zu elements (pattern %d) took %llu comparisons", n, pat, (unsigned long long)n_cmp);
        }
        in[i] = 0; n--; COUNT("removals measured"); hx->nontrivial = 1;
      }
      if (chance(12) || q == N - 1) {
        int64_t probe = (int64_t)rndr(-1, (int64_t)(2 * N));
        n_cmp = 0;
        void *r = use_map ? L(cee_map_find(M, &probe)) : L(cee_set_find(S, &probe));
        b = BOUND(n);
        CK((double)n_cmp <= b, "looking up among %zu elements (pattern %d) took %llu comparisons, bound %.1f", n, pat, (unsigned long long)n_cmp, b);
        if (b > 0 && (uint64_t)(100.0 * (double)n_cmp / b) > worst_ratio) worst_ratio = (uint64_t)(100.0 * (double)n_cmp / b);
        CK((r != NULL) == (probe >= 0 && probe % 2 == 0 && probe / 2 < (int64_t)N && in[probe / 2]), "lookup of %lld gives a wrong answer", (long long)probe);
        COUNT("lookups measured"); OB(n_cmp);
      }
    }
    /* sweep: every key */
    double b = BOUND(n);
    for (size_t i = 0; i < N; i += 1 + rnd(N > 1000 ? 8 : 2)) {
      n_cmp = 0;
      void *r = use_map ? L(cee_map_find(M, &keys[i])) : L(cee_set_find(S, &keys[i]));
      CK((double)n_cmp <= b, "looking up among %zu elements (pattern %d) took %llu comparisons, bound %.1f", n, pat, (unsigned long long)n_cmp, b);
      if ((uint64_t)(100.0 * (double)n_cmp / b) > worst_ratio) worst_ratio = (uint64_t)(100.0 * (double)n_cmp / b);
      CK((r != NULL) == in[i], "lookup of element %zu gives a wrong answer", i);
      COUNT("lookups measured");
    }
    OP("phase %d n=%zu", ph, n);
  }
  if (N > 100) hx->nontrivial = 1;
  COUNTMAX("lookup comparisons as percent of the bound", worst_ratio);
  free(keys); free(in); free(ord);
  LV(cee_del(st));
}

/* ---------- C13 */
static void dkey(char *b, int kind, uint64_t i) {
  switch (kind) {
    case 0: sprintf(b, "key%llu", (unsigned long long)i); break;
    case 1: {     /* all of equal length from {Aa,BB}: equal hashes under h*31+c */
      int n = 10; char *p = b;
      for (int k = 0; k < n; k++) { memcpy(p, (i >> k) & 1 ? "BB" : "Aa", 2); p += 2; }
      *p = 0; break;
    }
    case 2: sprintf(b, "%c", (char)(1 + i % 255)); if (i >= 255) sprintf(b + 1, "%llu", (unsigned long long)i); break;
    case 3: { size_t l = (size_t)(i % 97); memset(b, 'x', l); sprintf(b + l, "%llu", (unsigned long long)(i / 97)); break; }
    default: sprintf(b, "%llx", (unsigned long long)(i * 0x9E3779B97F4A7C15ull)); break;
  }
}
void d_c13(void) {
  struct cee_state *st = L(cee_state_mk(8));
  size_t size = chance(15) ? 0 : chance(15) ? 1 : chance(10) ? rnd(1000) : rnd(40);
  size_t nadd = chance(30) ? rnd(6) : chance(30) ? size : chance(30) ? size * 4 + 20 : rnd(chance(10) ? 1500 : 120);
  int kind = (int)rnd(5), pol = chance(60) ? CEE_DP_DEL_RC : chance(50) ? CEE_DP_DEL : CEE_DP_NOOP;
  if (kind == 1 && nadd > 700) nadd = 700;
  int huge = rnd(150) == 0;      /* distinct keys only, too many to search the model for */
  int vast = hx->casenr % 1501 == 23;
  if (vast) huge = 1;
  if (huge) { kind = chance(50) ? 0 : 4; size = chance(50) ? rnd(70000) : rnd(20); nadd = vast ? 49100 + rnd(30000) : (size_t)rndr(3000, 20000); COUNT("large dicts"); }
  if (vast) { if (chance(50)) nadd = 65537 + rnd(5000); COUNT("dicts beyond 16-bit sizes"); }
  OP("dict size=%zu adds=%zu kind=%d pol=%d", size, nadd, kind, pol);
  struct cee_dict *d = pol == CEE_DP_DEL_RC && chance(50) ? L(cee_dict_mk(st, size)) : L(cee_dict_mk_e(st, pol, size));
  CK(d != NULL, "cee_dict_mk(%zu) failed", size);
  if (hx_can_oom && hx->casenr % 3 == 1) {
    /* a dict that cannot get its table leaves nothing behind and the state as it was */
    OP("dict without memory for its table");
    uint64_t live = hx_track ? hx_live_blocks() : 0;
    hx_oom_fired = 0; hx_oom_calloc = 1 + (int)(hx->casenr / 3 % 2);
    struct cee_dict *x = L(cee_dict_mk_e(st, pol, size));
    hx_oom_calloc = 0;
    if (hx_oom_fired) {
      COUNT("dicts without a table");
      CK(!x, "a dict is made without a table");
      if (hx_track && !hx_warm) CK(hx_live_blocks() == live, "a dict that could not be made leaves %lld blocks", (long long)(hx_live_blocks() - live));
    }
  }
  uint64_t base = rnd(3) ? 0 : rnd(100000);
  if (kind == 1) base = 0;
  struct { char *k; void *v; } *m = calloc(nadd + 1, sizeof *m);
  char b[256];
  size_t n = 0;
  for (size_t i = 0; i < nadd; i++) {
    int dup = !huge && n && pol != CEE_DP_DEL && chance(10);
    if (dup) strcpy(b, m[rnd(n)].k); else dkey(b, kind, base + i);
    char *k = (char *)L(cee_str_mk(st, "%s", b));
    void *v = L(cee_boxed_from_i64(st, (int64_t)i));
    size_t j;
    if (huge) j = n; else for (j = 0; j < n; j++) if (!strcmp(m[j].k, b)) break;
    LV(cee_dict_add(d, k, v));
    if (j == n) { m[n].k = k; m[n].v = v; n++; } else COUNT("adds of a key already there");
    /* probe at every fill level */
    for (int q = 0; q < 3; q++) {
      size_t r = q == 0 ? j : rnd(n);
      strcpy(b, m[r].k);
      CK(L(cee_dict_find(d, b)) == m[r].v, "after %zu adds (size %zu) the value of key %s is wrong", i + 1, size, b);
    }
    if (huge) { COUNTN("lookups", 3); COUNT("keys added"); continue; }
    dkey(b, kind, base + i + 1 + rnd(50));
    if (chance(30)) strcat(b, "!");
    if (chance(10)) b[0] = 0;
    for (j = 0; j < n; j++) if (!strcmp(m[j].k, b)) break;
    CK(L(cee_dict_find(d, b)) == (j < n ? m[j].v : NULL), "after %zu adds (size %zu) looking up %s key %s is wrong", i + 1, size, j < n ? "the present" : "the absent", b);
    COUNT("keys added"); COUNTN("lookups", 4);
  }
  if (nadd == 0) { CK(L(cee_dict_find(d, (char *)"nothing")) == NULL, "an empty dict finds a key"); COUNT("lookups"); }
  for (size_t j = 0; j < n; j++) { CK(L(cee_dict_find(d, m[j].k)) == m[j].v, "of %zu keys (size %zu) key %s is lost", n, size, m[j].k); COUNT("lookups"); }
  OB(n);
  OP("distinct keys %zu", n);
  if (n > size || kind == 1) hx->nontrivial = 1;
  if (n > size) COUNT("dicts filled beyond their size");
  COUNTMAX("keys in one dict", n);
  free(m);
  LV(cee_del(st));
}
