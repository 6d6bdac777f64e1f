/* C31 the search functions: trees, hash tables, linked queues, linear search */
#include "hx.h"
#include <math.h>
#include "drv.h"
/* declared here, so that the driver builds the same way next to the modules and the release */
typedef enum { FIND, ENTER } ACTION;
typedef enum { preorder, postorder, endorder, leaf } VISIT;
typedef struct musl_entry { char *key; void *data; } MUSL_ENTRY;
struct musl_hsearch_data { struct __tab *__tab; unsigned int u1, u2; };
int musl_hcreate(size_t); void musl_hdestroy(void); MUSL_ENTRY *musl_hsearch(MUSL_ENTRY, ACTION);
int musl_hcreate_r(size_t, struct musl_hsearch_data *); void musl_hdestroy_r(struct musl_hsearch_data *);
int musl_hsearch_r(MUSL_ENTRY, ACTION, MUSL_ENTRY **, struct musl_hsearch_data *);
void musl_insque(void *, void *); void musl_remque(void *);
void *musl_lsearch(const void *, void *, size_t *, size_t, int (*)(const void *, const void *));
void *musl_lfind(const void *, const void *, size_t *, size_t, int (*)(const void *, const void *));
void *musl_tdelete(void *, const void *, void **, int (*)(void *, const void *, const void *));
void *musl_tfind(void *, const void *, void *const *, int (*)(void *, const void *, const void *));
void *musl_tsearch(void *, const void *, void **, int (*)(void *, const void *, const void *));
void musl_twalk(void *, const void *, void (*)(void *, const void *, VISIT, int));
void musl_tdestroy(void *, void *, void (*)(void *, void *));

/* ---- trees */
struct tk { int v, in, seen; };
static __thread struct tree { void *root; struct tk **m; size_t n; int cmps, wrong_ctx, max; } *g_t;
static int t_cmp(void *c, const void *a, const void *b) {
  g_t->cmps++; if (c != g_t) g_t->wrong_ctx = 1;
  int x = ((struct tk *)a)->v, y = ((struct tk *)b)->v;
  return x < y ? -7 : x > y ? 300 : 0;
}
struct walk { struct tree *t; const void *stack[200]; int state[200], kids[200], depth, deepest, events; size_t i; char bad[160]; };
static void t_act(void *c, const void *node, VISIT v, int d) {
  struct walk *w = c; w->events++;
  if (w->bad[0]) return;
  struct tk *k = *(struct tk **)node;
#define BAD(...) do { snprintf(w->bad, sizeof w->bad, __VA_ARGS__); return; } while (0)
  if (v == preorder || v == leaf) {
    if (d != w->depth) BAD("key %d is visited at depth %d below %d open nodes", k->v, d, w->depth);
    if (w->depth) w->kids[w->depth - 1]++;
    if (d > w->deepest) w->deepest = d;
    if (w->depth + 1 >= 200) BAD("the walk goes deeper than %d", w->depth);
  }
  if (v == preorder) { w->stack[w->depth] = node; w->state[w->depth] = w->kids[w->depth] = 0; w->depth++; }
  if (v == postorder || v == endorder) {
    if (!w->depth || w->stack[w->depth - 1] != node) BAD("key %d is visited in the middle of another", k->v);
    if (d != w->depth - 1) BAD("key %d is visited again at depth %d", k->v, d);
    if (w->state[w->depth - 1] != (v == postorder ? 0 : 1)) BAD("key %d is visited in the wrong order", k->v);
    w->state[w->depth - 1]++;
    if (v == endorder) { w->depth--; if (!w->kids[w->depth]) BAD("key %d, which is a leaf, is visited three times", k->v); }
  }
  if (v == postorder || v == leaf) {
    if (w->i >= w->t->n || w->t->m[w->i] != k) BAD("visit %zu finds key %d, expected %d", w->i, k->v, w->i < w->t->n ? w->t->m[w->i]->v : -1);
    w->i++;
  }
  if (v != preorder && v != postorder && v != endorder && v != leaf) BAD("visit kind %d", (int)v);
#undef BAD
}
static size_t t_at(struct tree *t, int v) { size_t i = 0, j = t->n; while (i < j) { size_t k = (i + j) / 2; if (t->m[k]->v < v) i = k + 1; else j = k; } return i; }
static void t_check(struct tree *t, const char *after) {
  struct walk w; memset(&w, 0, sizeof w); w.t = t;
  LV(musl_twalk(&w, t->root, t_act));
  CK(!w.bad[0], "walking a tree of %zu after %s: %s", t->n, after, w.bad);
  CK(w.i == t->n && !w.depth, "walking a tree of %zu after %s visits %zu keys and leaves %d open", t->n, after, w.i, w.depth);
  CK(w.deepest <= 1.45 * log2((double)t->n + 2), "a tree of %zu is %d deep after %s", t->n, w.deepest, after);
  CK(!t->wrong_ctx, "the comparison is given another context");
  COUNT("walks");
}
static __thread size_t d_n; static __thread void *d_ctx; static __thread int d_bad;
static void t_free(void *c, void *k) { struct tk *x = k; if (c != d_ctx) d_bad = 1; if (!x->in) d_bad = 2; x->in = 0; d_n++; }
static void trees(void) {
  struct tree T, *t = &T; memset(t, 0, sizeof *t); g_t = t;
  int range = (int)rndr(1, chance(20) ? 3000 : 60), max = chance(10) ? 3000 : 200; size_t cap = (size_t)range + 1;
  struct tk **m = malloc(cap * sizeof *m), **all = malloc(sizeof *all * 6000); int na = 0; t->m = m;
  int mode = (int)rnd(4), ops = (int)rndr(5, max), next = 0, up = 1;
  for (int s = 0; s < ops; s++) {
    int v = mode == 0 ? next++ % range : mode == 1 ? range - 1 - next++ % range : (int)rnd(range);
    if (s % 97 == 0 && chance(40)) up = !up;
    int op = (int)rnd(10); if (op < 6 && !up && chance(70)) op = 7;
    size_t at = t_at(t, v); int have = at < t->n && t->m[at]->v == v;
    struct tk *k = malloc(sizeof *k); k->v = v; k->in = 0; all[na++] = k;
    t->cmps = 0; int bound = (int)(1.45 * log2((double)t->n + 2)) + 2;
    if (op < 6) {
      OP("tsearch %d", v);
      int oom = hx_can_oom && s % 11 == 7;
      if (oom) { hx_oom_fired = 0; hx_oom_malloc = 1; }
      void *n = L(musl_tsearch(t, k, &t->root, t_cmp));
      hx_oom_malloc = 0;
      if (oom && !n && hx_oom_fired) { COUNT("nodes without memory"); t_check(t, "running out of memory"); continue; }
      CK(n && *(struct tk **)n == (have ? t->m[at] : k), "tsearch of %d among %zu gives %s", v, t->n, n ? have ? "another node than the one that is there" : "another node than a new one" : "nothing");
      if (!have) { memmove(t->m + at + 1, t->m + at, (t->n - at) * sizeof *t->m); t->m[at] = k; k->in = 1; t->n++; COUNT("tree insertions"); }
    } else if (op < 9) {
      OP("tdelete %d", v);
      struct tk *top = t->root ? *(struct tk **)t->root : NULL, *del = have ? t->m[at] : NULL;
      void *p = L(musl_tdelete(t, k, &t->root, t_cmp));
      if (have) { t->m[at]->in = 0; memmove(t->m + at, t->m + at + 1, (t->n - at - 1) * sizeof *t->m); t->n--; COUNT("tree deletions"); }
      else CK(!p, "tdelete of %d, which is not there, gives a node", v);
      if (have && del != top) {
        CK(p, "tdelete of %d, which is not the root, gives nothing", v);
      }
      if (have && p) {
        struct tk *q = *(struct tk **)p; size_t qa = t_at(t, q->v); CK(q->in && qa < t->n && t->m[qa] == q, "tdelete of %d gives a node that is not in the tree", v);
        COUNT("parents of deleted nodes");
      }
      CK(!t->n == !t->root, "a tree of %zu has %s root", t->n, t->root ? "a" : "no");
    } else {
      OP("tfind %d", v);
      void *n = L(musl_tfind(t, k, &t->root, t_cmp));
      CK(have ? n && *(struct tk **)n == t->m[at] : !n, "tfind of %d among %zu gives %s", v, t->n, n ? "a wrong node" : "nothing");
    }
    CK(t->cmps <= bound, "%d comparisons among %zu keys", t->cmps, t->n);
    OB(t->n);
    if (chance(t->n > 100 ? 3 : 20)) t_check(t, "an operation");
    if (na >= 5990) break;
  }
  t_check(t, "all operations");
  if (!chance(4)) { CK(!L(musl_tsearch(t, all[0], NULL, t_cmp)) && !L(musl_tfind(t, all[0], NULL, t_cmp)) && !L(musl_tdelete(t, all[0], NULL, t_cmp)), "a tree search without a root gives a node"); }
  d_n = 0; d_bad = 0; d_ctx = &T; int fr = chance(80);
  OP("tdestroy of %zu", t->n);
  LV(musl_tdestroy(&T, t->root, fr ? t_free : NULL));
  if (fr) CK(d_n == t->n && !d_bad, "destroying a tree of %zu frees %zu keys (%s)", t->n, d_n, d_bad == 1 ? "another context" : d_bad ? "a key that is not in it" : "right context");
  COUNT("trees destroyed"); COUNTMAX("keys in a tree", t->n);
  for (int i = 0; i < na; i++) free(all[i]);
  free(all); free(m);
}
/* ---- hash tables */
static void hashes(void) {
  int n = chance(10) ? (int)rndr(200, 3000) : (int)rnd(60), shared = chance(30), ent = 0, kind = (int)rnd(3);
  size_t size = chance(40) ? rnd(4) : rnd((uint64_t)n + 40);
  struct musl_hsearch_data h; memset(&h, 0, sizeof h);
  struct { char k[24]; int in; MUSL_ENTRY *e; intptr_t v; } *m = calloc(n + 1, sizeof *m);
  OP("hcreate %zu for %d keys kind=%d shared=%d", size, n, kind, shared);
  int ok = shared ? L(musl_hcreate(size)) : L(musl_hcreate_r(size, &h));
  CK(ok, "a hash table of %zu cannot be made", size);
  if (hx_can_oom && !shared && chance(20)) {
    struct musl_hsearch_data g; memset(&g, 0, sizeof g); hx_oom_fired = 0; hx_oom_calloc = 1 + chance(50); uint64_t live = hx_track ? hx_live_blocks() : 0;
    int made = L(musl_hcreate_r(size, &g)); hx_oom_calloc = 0;
    if (hx_oom_fired) {
      CK(!made && !g.__tab, "a hash table is made without memory"); COUNT("tables without memory");
      if (hx_track && !hx_warm) CK(hx_live_blocks() == live, "a table that could not be made leaves %lld blocks", (long long)(hx_live_blocks() - live));
    }
    LV(musl_hdestroy_r(&g));
  }
  for (int i = 0; i < n; i++) {
    if (kind == 0) sprintf(m[i].k, "key%d", i);
    else if (kind == 1) { int b = i; for (int j = 0; j < 12; j++) { m[i].k[2 * j] = (b & 1) ? 'B' : 'A'; m[i].k[2 * j + 1] = (b & 1) ? 'B' - 31 + 0 : 'a'; b >>= 1; } m[i].k[23] = 0; if (i >= 4096) sprintf(m[i].k, "z%d", i); }
    else { sprintf(m[i].k, "%c%c%d", (char)rndr(128, 255), (char)rndr(1, 255), i); }
  }
  for (int s = 0; s < 3 * n + 5; s++) {
    int i = n ? (int)rnd(n) : -1, enter = i >= 0 && chance(45); char b[32]; if (i >= 0) strcpy(b, m[i].k); else strcpy(b, "absent");
    if (i >= 0 && chance(10)) { strcat(b, "?"); i = -1; enter = 0; }
    MUSL_ENTRY it = { enter ? m[i].k : b, enter ? (void *)(intptr_t)(s + 1) : (void *)(intptr_t)-5 }, *e = (void *)&it; int r;
    int oom = hx_can_oom && enter && s % 3 == 1;
    if (oom) { hx_oom_fired = 0; hx_oom_calloc = 1; }
    if (shared) { e = L(musl_hsearch(it, enter ? ENTER : FIND)); r = e != NULL; } else r = L(musl_hsearch_r(it, enter ? ENTER : FIND, &e, &h));
    hx_oom_calloc = 0;
    if (oom && !r && hx_oom_fired) { CK(!e, "an entry is given although there was no memory for it"); CK(!m[i].in, "'%s', which is there, is not found without memory", m[i].k); COUNT("growths without memory"); continue; }
    if (enter) {
      if (!m[i].in) { m[i].in = 1; m[i].v = s + 1; ent++; COUNT("hash entries"); }
      CK(r && e && !strcmp(e->key, m[i].k) && (intptr_t)e->data == m[i].v, "entering '%s' as one of %d gives %s", m[i].k, ent, e ? "another entry" : "nothing");
    } else if (i >= 0 && m[i].in) CK(r && e && e->key == m[i].k && (intptr_t)e->data == m[i].v, "'%s' among %d entries is %s", b, ent, e ? "another entry" : "not found");
    else CK(!r && !e, "'%s', which was not entered, is found among %d entries", b, ent);
    if (e && chance(15)) { m[i].v = 100000 + s; e->data = (void *)m[i].v; }
    OB(r);
  }
  for (int i = 0; i < n; i++) {
    MUSL_ENTRY it = { m[i].k, 0 }, *e = NULL; int r;
    if (shared) { e = L(musl_hsearch(it, FIND)); r = e != NULL; } else r = L(musl_hsearch_r(it, FIND, &e, &h));
    CK(m[i].in ? r && e && e->key == m[i].k && (intptr_t)e->data == m[i].v : !r && !e, "at the end '%s' is %s among %d entries", m[i].k, e ? "wrong" : "missing", ent);
  }
  if (shared) LV(musl_hdestroy()); else LV(musl_hdestroy_r(&h));
  if (!shared) { CK(!h.__tab, "a destroyed table keeps its entries"); if (chance(50)) LV(musl_hdestroy_r(&h)); }
  COUNT("hash tables"); COUNTMAX("entries in a hash table", ent);
  free(m);
}
/* ---- queues */
struct q { struct q *f, *b; int id; };
static void queues(void) {
  enum { N = 40 }; struct q *e[N], *m[N]; int n = 0, circ = chance(40);
  for (int i = 0; i < N; i++) { e[i] = malloc(sizeof *e[i]); e[i]->f = e[i]->b = (void *)1; e[i]->id = i; }
  int in[N] = { 0 };
  LV(musl_insque(e[0], NULL)); CK(!e[0]->f && !e[0]->b, "the first element of a queue has neighbours"); m[n++] = e[0]; in[0] = 1;
  if (circ) { e[0]->f = e[0]->b = e[0]; }
  int ops = (int)rndr(3, 120);
  for (int s = 0; s < ops; s++) {
    int i = (int)rnd(N);
    if (!in[i]) { int p = (int)rnd(n); OP("insque %d after %d", i, m[p]->id); LV(musl_insque(e[i], m[p])); memmove(m + p + 2, m + p + 1, (n - p - 1) * sizeof *m); m[p + 1] = e[i]; n++; in[i] = 1; COUNT("queue insertions"); }
    else if (n > 1) { int p = 0; while (m[p] != e[i]) p++; OP("remque %d", i); LV(musl_remque(e[i])); memmove(m + p, m + p + 1, (n - p - 1) * sizeof *m); n--; in[i] = 0; COUNT("queue removals"); }
    for (int k = 0; k < n; k++) {
      struct q *f = k + 1 < n ? m[k + 1] : circ ? m[0] : NULL, *b = k ? m[k - 1] : circ ? m[n - 1] : NULL;
      CK(m[k]->f == f && m[k]->b == b, "in a %s queue of %d element %d is followed by %d and follows %d", circ ? "circular" : "linear", n, m[k]->id, m[k]->f ? m[k]->f->id : -1, m[k]->b ? m[k]->b->id : -1);
    }
  }
  for (int i = 0; i < N; i++) free(e[i]);
}
/* ---- linear search over an array of pointers to elements */
static int l_cmp(const void *a, const void *b) { return strcmp(a, b); }
static void linear(void) {
  enum { N = 60 }; size_t w = (size_t)rndr(4, 20), n = 0; char *p[N], *m[N]; int range = (int)rndr(1, 50);
  for (int i = 0; i < N; i++) { p[i] = malloc(w); memset(p[i], 0x5a, w); m[i] = NULL; }
  if (chance(50)) for (size_t f = rnd(20); n < f; n++) { snprintf(p[n], w < 12 ? w : 12, "%d", (int)rnd(range)); m[n] = strdup(p[n]); COUNT("linear preloads"); }
  for (int s = 0; s < 80 && n < N; s++) {
    char k[32]; memset(k, 0, sizeof k); snprintf(k, w < 12 ? w : 12, "%d", (int)rnd(range));
    size_t i = 0, n0 = n; while (i < n && strcmp(m[i], k)) i++;
    int add = chance(60);
    OP("%s %s among %zu", add ? "lsearch" : "lfind", k, n);
    char *r = add ? L(musl_lsearch(k, p, &n, w, l_cmp)) : L(musl_lfind(k, p, &n, w, l_cmp));
    if (i < n0) CK(r == p[i] && n == n0, "searching '%s' among %zu does not give the first that equals it", k, n0);
    else if (!add) CK(!r && n == n0, "'%s' is found although it is not there", k);
    else { CK(r == p[n0] && n == n0 + 1 && !memcmp(r, k, w), "'%s' is not appended to %zu", k, n0); m[n0] = strdup(k); COUNT("linear appends"); }
    for (size_t j = 0; j < n; j++) CK(!strcmp(p[j], m[j]), "element %zu changed", j);
    if (n < N) CK(p[n][0] == 0x5a, "an element beyond the last was written");
    COUNT("linear searches");
  }
  for (int i = 0; i < N; i++) { free(p[i]); free(m[i]); }
}
void d_c31(void) {
  int before = hx_track && !hx_warm ? (int)hx_live_blocks() : -1;
  switch (rnd(10)) { case 0: case 1: case 2: case 3: trees(); break; case 4: case 5: case 6: hashes(); break; case 7: case 8: queues(); break; default: linear(); }
  hx->nontrivial = 1;
  if (before >= 0) CK((int)hx_live_blocks() == before, "%d blocks are left", (int)hx_live_blocks() - before);
}
