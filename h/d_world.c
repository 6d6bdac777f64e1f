/* C01-C05 (and C30): a world of objects of every kind, shared, nested and cyclic, under every
   delete policy, next to an ideal object graph that predicts which of them live and what they hold.

   Rules of valid use the generator keeps to:
   - an element owned by a DEL container is in no other RC or DEL container;
   - RC and DEL edges are acyclic (NOOP edges may be cyclic);
   - nothing is deleted that something surviving still points at;
   - references never cross states. */
#include "ref.h"
#include "drvj.h"
enum { K_STR, K_BLOCK, K_BOXED, K_LIST, K_MAP, K_SET, K_DICT, K_STACK, K_TUPLE, K_TRIPLE, K_QUAD, K_NTUP, K_TAGGED, K_ENV, K_CLOS, K_JSON, K_CTX, K_N };
static const char *kname[] = { "str", "block", "boxed", "list", "map", "set", "dict", "stack", "tuple", "triple", "quadruple", "n_tuple", "tagged", "env", "closure", "json", "contexts" };
enum { RC = CEE_DP_DEL_RC, DEL = CEE_DP_DEL, NOOP = CEE_DP_NOOP };
static const char *pname[] = { "RC", "DEL", "NOOP" };
#define MAXO 300
typedef struct wo wo;
typedef struct { wo *c; int pol; } we;
struct wo {
  int kind, nr; void *p; hx_id id; int alive, root, immortal;
  unsigned rc, sim; int ret, unc, pins, dying, mark;
  int pol, pol2, cmpk;
  we *e; int n, cap, lim;
  char *s; size_t sn; uintptr_t tag; char **names; int realloc_;
};
typedef struct { struct cee_state *st; wo *o[MAXO]; int n, nr; wo stk, ctx; int idx; uint64_t base; int gcs; hx_id id; } ws;
typedef struct { int states, ops, pct_del, pct_gc, pct_json, track, deep, observe; } prof;
static __thread int stamp, kept;
static __thread wo *dl[MAXO * 4]; static __thread int ndl;

static int ptrcmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static cee_cmp_fun cmpf(int k) { return k ? ptrcmp : (cee_cmp_fun)strcmp; }
static int eqk(int k, const wo *a, const wo *b) { return a == b || (!k && !strcmp(a->s, b->s)); }

/* ---- the model's own bookkeeping */
static void push(wo *h, wo *c, int pol) {
  if (h->n == h->cap) { int m = h->cap * 2 + 4; we *x = ar_alloc(m * sizeof *x); if (h->n) memcpy(x, h->e, h->n * sizeof *x); h->e = x; h->cap = m; }
  h->e[h->n].c = c; h->e[h->n].pol = pol; h->n++;
}
static void hold(wo *c, int pol) { if (!c) return; if (pol == RC) { if (!c->ret) c->rc++; } else if (pol == DEL) c->ret = 1; }
static void unhold(wo *c, int pol) { if (!c) return; if (pol == RC) { if (!c->ret && c->rc) c->rc--; } else if (pol == DEL) c->ret = 0; }
static void link_(wo *h, wo *c, int pol) { hold(c, pol); push(h, c, pol); }
static int all(ws *w, wo **v) { int k = 0; for (int i = 0; i < w->n; i++) if (w->o[i]->alive) v[k++] = w->o[i]; v[k++] = &w->stk; v[k++] = &w->ctx; return k; }
static int held(ws *w, const wo *c, int mask) {     /* edges of these policies that point at c */
  wo *v[MAXO + 2]; int k = all(w, v), m = 0;
  for (int i = 0; i < k; i++) for (int j = 0; j < v[i]->n; j++) if (v[i]->e[j].c == c && (mask & 1 << v[i]->e[j].pol)) m++;
  return m;
}
static int is_key(ws *w, const wo *c) {
  wo *v[MAXO + 2]; int k = all(w, v);
  for (int i = 0; i < k; i++) {
    int step = v[i]->kind == K_MAP || v[i]->kind == K_DICT ? 2 : v[i]->kind == K_SET ? 1 : 0;
    if (step) for (int j = 0; j < v[i]->n; j += step) if (v[i]->e[j].c == c) return 1;
  }
  return 0;
}
static int reach_(wo *a, const wo *b) {
  if (a == b) return 1;
  if (a->mark == stamp) return 0;
  a->mark = stamp;
  for (int i = 0; i < a->n; i++) if (a->e[i].c && a->e[i].pol != NOOP && reach_(a->e[i].c, b)) return 1;
  return 0;
}
static int reach(wo *a, const wo *b) { stamp++; return reach_(a, b); }
static int can_hold(ws *w, wo *h, int pol, wo *c) {
  if (!c->alive || c->immortal) return 0;
  if (pol == NOOP) return 1;
  if (c->ret || c->unc) return 0;
  if (pol == DEL && (c->rc || held(w, c, 1 << RC | 1 << DEL))) return 0;
  return !h || !reach(c, h);
}
/* ---- objects */
static wo *reg(ws *w, int kind, void *p) {
  if (w->n >= MAXO) hx_harness_error("too many objects");
  wo *o = ar_alloc(sizeof *o);
  memset(o, 0, sizeof *o);
  CK(p, "making a %s returns NULL", kname[kind]);
  o->kind = kind; o->p = p; o->alive = 1; o->nr = ++w->nr; o->id = hx_bind(p);
  CK(L(cee_get_state(p)) == w->st, "a new %s names another state as its own", kname[kind]);
  w->o[w->n++] = o;
  return o;
}
static void compact(ws *w) {     /* forget some of the dead */
  int k = 0;
  for (int i = 0; i < w->n; i++) if (w->o[i]->alive) w->o[k++] = w->o[i];
  w->n = k;
}
static wo *pick(ws *w, unsigned mask) {
  wo *c[MAXO]; int k = 0;
  for (int i = 0; i < w->n; i++) if (w->o[i]->alive && (mask & 1u << w->o[i]->kind)) c[k++] = w->o[i];
  return k ? c[rnd(k)] : NULL;
}
static wo *mk_str(ws *w) {
  char t[160]; int n = (int)rnd(chance(80) ? 12 : 150);
  for (int i = 0; i < n; i++) t[i] = 'a' + rnd(chance(50) ? 3 : 26);
  t[n] = 0;
  void *p = chance(70) ? (void *)L(cee_str_mk(w->st, "%s", t)) : chance(50) ? (void *)L(cee_str_mk_e(w->st, n + 1 + rnd(40), "%s", t)) : (void *)L(cee_str_strn(w->st, t, n));
  wo *o = reg(w, K_STR, p);
  o->s = ar_str(t, n); o->sn = n;
  return o;
}
static void blkinit(void *cxt, void *b) { memset(b, 0x41, *(size_t *)cxt); }
static wo *mk_leaf(ws *w, int json) {
  switch (rnd(json ? 8 : 7)) {
    case 0: {
      size_t n = chance(15) ? rnd(9) : 8 + rnd(100); void *p;
      switch (rnd(3)) { case 0: p = L(cee_block_mk(w->st, n)); break; case 1: p = L(cee_block_mk_nonzero(w->st, n)); break; default: p = L(cee_block_mk_e(w->st, n, &n, (void *)blkinit)); }
      wo *o = reg(w, K_BLOCK, p);
      char *b = ar_alloc(n); for (size_t i = 0; i < n; i++) b[i] = (char)rnd64();
      memcpy(p, b, n);
      o->s = b; o->sn = n;
      return o;
    }
    case 1: { int64_t v = gen_i64(); wo *o = reg(w, K_BOXED, L(cee_boxed_from_i64(w->st, v))); o->tag = (uintptr_t)v; return o; }
    case 7: {
      static const jopt jo = { .maxdepth = 3, .width = 4 };
      jv *v; size_t n; char *t; int line = 0; struct cee_json *j = NULL;
      do v = gen_jv(&jo, 0); while (v->t != JA && v->t != JO);
      t = emit_text(v, (int)rnd(8) & ~ST_DUP, &n);
      CK(L(cee_json_parsex(w->st, t, n, &j, true, &line)) == 0 && j, "a well-formed text is rejected: %s", ar_str(t, n > 300 ? 300 : n));
      wo *o = reg(w, K_JSON, j);
      ssize_t k = L(cee_json_snprint(w->st, NULL, 0, j, 0));
      o->s = ar_alloc(k + 1); o->sn = k;
      LV(cee_json_snprint(w->st, o->s, k + 1, j, 0));
      COUNT("json documents in worlds");
      return o;
    }
    default: return mk_str(w);
  }
}
static wo *child(ws *w, wo *h, int pol, unsigned mask) {
  for (int t = 0; t < 4; t++) { wo *c = pick(w, mask); if (c && can_hold(w, h, pol, c) && (c != h || pol == NOOP)) return c; }
  return (mask & 1 << K_STR) ? mk_str(w) : NULL;
}
#define ANY 0xFFFFu
static int rpol(void) { return chance(50) ? RC : chance(45) ? DEL : NOOP; }
static wo *mk_obj(ws *w, int kind, const prof *pf) {
  wo *o, *c[4]; int po[4] = { 0 };
  enum cee_del_policy dp[4];
  int m = kind == K_TUPLE ? 2 : kind == K_TRIPLE ? 3 : kind == K_QUAD ? 4 : 0;
  switch (kind) {
    case K_LIST: { int p = rpol(); size_t cap = rnd(6); o = reg(w, kind, p == RC && chance(50) ? L(cee_list_mk(w->st, cap)) : L(cee_list_mk_e(w->st, p, cap))); o->pol = p; break; }
    case K_STACK: { int p = rpol(); int cap = chance(5) ? 0 : 1 + (int)rnd(12); o = reg(w, kind, p == RC && chance(50) ? L(cee_stack_mk(w->st, cap)) : L(cee_stack_mk_e(w->st, p, cap))); o->pol = p; o->lim = cap; break; }
    case K_SET: { int p = rpol(), k = (int)rnd(2); o = reg(w, kind, p == RC && chance(50) ? L(cee_set_mk(w->st, cmpf(k))) : L(cee_set_mk_e(w->st, p, cmpf(k)))); o->pol = p; o->cmpk = k; break; }
    case K_MAP: { int p = rpol(), q = rpol(), k = chance(25); dp[0] = p; dp[1] = q; o = reg(w, kind, p == RC && q == RC ? L(cee_map_mk(w->st, cmpf(k))) : L(cee_map_mk_e(w->st, dp, cmpf(k)))); o->pol = p; o->pol2 = q; o->cmpk = k; break; }
    case K_DICT: { int p = rpol(); int n = chance(10) ? 0 : 1 + (int)rnd(20); o = reg(w, kind, p == RC && chance(50) ? L(cee_dict_mk(w->st, n)) : L(cee_dict_mk_e(w->st, p, n))); o->pol = p; o->lim = n + (int)rnd(6); break; }
    case K_TUPLE: case K_TRIPLE: case K_QUAD: {
      int rcall = chance(30) && kind != K_QUAD;
      for (int i = 0; i < m; i++) {
        dp[i] = po[i] = rcall ? RC : rpol();
        c[i] = po[i] == NOOP && chance(15) ? NULL : child(w, NULL, po[i], ANY);
        for (int j = 0; c[i] && j < i; j++) if (c[j] == c[i] && (po[i] == DEL || po[j] == DEL)) { c[i] = mk_str(w); break; }
      }
      void *q[4]; for (int i = 0; i < m; i++) q[i] = c[i] ? c[i]->p : NULL;
      o = reg(w, kind, kind == K_TUPLE ? rcall ? (void *)L(cee_tuple_mk(w->st, q[0], q[1])) : (void *)L(cee_tuple_mk_e(w->st, dp, q[0], q[1]))
                     : kind == K_TRIPLE ? rcall ? (void *)L(cee_triple_mk(w->st, q[0], q[1], q[2])) : (void *)L(cee_triple_mk_e(w->st, dp, q[0], q[1], q[2]))
                     : (void *)L(cee_quadruple_mk_e(w->st, dp, q[0], q[1], q[2], q[3])));
      for (int i = 0; i < m; i++) link_(o, c[i], po[i]);
      break;
    }
    case K_NTUP: {
      wo *cn[16];
      m = chance(12) ? (int)rnd(17) : 1 + (int)rnd(4);
      void *q[16]; memset(q, 0, sizeof q);
      for (int i = 0; i < m; i++) { cn[i] = child(w, NULL, RC, ANY); q[i] = cn[i]->p; }
      void *p = m == 1 ? L(cee_n_tuple_mk(w->st, 1, q[0])) : m == 2 ? L(cee_n_tuple_mk(w->st, 2, q[0], q[1])) : m == 3 ? L(cee_n_tuple_mk(w->st, 3, q[0], q[1], q[2])) : m == 4 ? L(cee_n_tuple_mk(w->st, 4, q[0], q[1], q[2], q[3]))
              : L(cee_n_tuple_mk(w->st, m, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], q[10], q[11], q[12], q[13], q[14], q[15]));
      if (m > 8) COUNT("tuples of more than 8");
      o = reg(w, kind, p);
      for (int i = 0; i < m; i++) link_(o, cn[i], RC);
      break;
    }
    case K_TAGGED: {
      int p = rpol(); c[0] = chance(10) ? NULL : child(w, NULL, p, ANY); uintptr_t tag = rnd64() >> rnd(60);
      void *q = c[0] ? c[0]->p : NULL;
      o = reg(w, kind, p == RC && chance(50) ? L(cee_tagged_mk(w->st, tag, q)) : L(cee_tagged_mk_e(w->st, p, tag, q)));
      o->tag = tag; link_(o, c[0], p);
      break;
    }
    case K_ENV: {
      dp[0] = po[0] = rpol(); dp[1] = po[1] = rpol();
      c[0] = chance(50) ? child(w, NULL, po[0], 1 << K_ENV) : NULL;
      c[1] = chance(75) ? child(w, NULL, po[1], 1 << K_MAP) : NULL;
      if (c[1] && c[1]->cmpk) c[1] = NULL;
      o = reg(w, kind, po[0] == RC && po[1] == RC ? L(cee_env_mk(w->st, c[0] ? c[0]->p : NULL, c[1] ? c[1]->p : NULL)) : L(cee_env_mk_e(w->st, dp, c[0] ? c[0]->p : NULL, c[1] ? c[1]->p : NULL)));
      link_(o, c[0], po[0]); link_(o, c[1], po[1]);
      break;
    }
    case K_CLOS: {
      c[0] = chance(85) ? pick(w, 1 << K_ENV) : NULL;
      o = reg(w, kind, L(cee_closure_mk(w->st, c[0] ? c[0]->p : NULL, NULL)));
      link_(o, c[0], NOOP);
      break;
    }
    default: o = mk_leaf(w, pf->pct_json ? 1 : 0);
  }
  OP("s%d: make %s #%d %s%s%s n=%d", w->idx, kname[o->kind], o->nr, kind >= K_LIST && kind <= K_STACK ? pname[o->pol] : "", kind == K_MAP ? "," : "", kind == K_MAP ? pname[o->pol2] : "", o->n);
  COUNT("objects made");
  return o;
}
/* ---- contents */
typedef struct { const wo *o; int n; } itx;
static int it_map(void *cx, void *k, void *v) {
  itx *x = cx; x->n++;
  for (int i = 0; i < x->o->n; i += 2) if (x->o->e[i].c->p == k) { hx_inlib--; CK(x->o->e[i + 1].c->p == v, "map #%d holds another value for a key", x->o->nr); hx_inlib++; return 0; }
  FAIL("map #%d holds a key that was never put in", x->o->nr);
}
static void it_set(void *cx, void *v) {
  itx *x = cx; x->n++;
  for (int i = 0; i < x->o->n; i++) if (x->o->e[i].c->p == v) return;
  FAIL("set #%d holds an element that was never put in", x->o->nr);
}
static void verify_obj(ws *w, wo *o) {
  const char *kn = kname[o->kind];
  CK(hx_alive(o->id), "%s #%d was released although it is still in use", kn, o->nr);
  CK(o->immortal || L(cee_get_state(o->p)) == w->st, "%s #%d names another state as its own", kn, o->nr);
  switch (o->kind) {
    case K_STR: CK(strlen(o->p) == o->sn && !memcmp(o->p, o->s, o->sn), "str #%d holds \"%.60s\", not \"%.60s\"", o->nr, (char *)o->p, o->s); OBS(o->p, o->sn); break;
    case K_BLOCK: CK(!memcmp(o->p, o->s, o->sn), "block #%d changed", o->nr); CK(L(cee_block_size(o->p)) >= o->sn, "block #%d is too small", o->nr); OBS(o->p, o->sn); break;
    case K_BOXED: CK(L(cee_boxed_to_i64(o->p)) == (int64_t)o->tag, "boxed #%d changed", o->nr); OB(o->tag); break;
    case K_LIST: {
      struct cee_list *l = o->p;
      CK(L(cee_list_size(l)) == (size_t)o->n, "list #%d has %zu elements, not %d", o->nr, cee_list_size(l), o->n);
      for (int i = 0; i < o->n; i++) CK(l->a[i] == o->e[i].c->p, "list #%d: element %d is another", o->nr, i);
      OB(o->n); break;
    }
    case K_STACK: {
      CK(L(cee_stack_size(o->p)) == (size_t)o->n, "stack #%d has %zu elements, not %d", o->nr, (size_t)cee_stack_size(o->p), o->n);
      for (int i = 0; i < o->n; i++) CK(L(cee_stack_top(o->p, i)) == o->e[o->n - 1 - i].c->p, "stack #%d: element %d from the top is another", o->nr, i);
      OB(o->n); break;
    }
    case K_SET: {
      itx x = { o, 0 };
      CK(L(cee_set_size(o->p)) == (size_t)o->n, "set #%d has %zu elements, not %d", o->nr, cee_set_size(o->p), o->n);
      for (int i = 0; i < o->n; i++) CK(L(cee_set_find(o->p, o->e[i].c->p)) == o->e[i].c->p, "set #%d does not find its element #%d", o->nr, o->e[i].c->nr);
      LV(cee_set_iterate(o->p, &x, it_set));
      CK(x.n == o->n, "set #%d visits %d elements of %d", o->nr, x.n, o->n);
      OB(o->n); break;
    }
    case K_MAP: {
      itx x = { o, 0 };
      CK(L(cee_map_size(o->p)) == (size_t)o->n / 2, "map #%d has %zu entries, not %d", o->nr, (size_t)cee_map_size(o->p), o->n / 2);
      for (int i = 0; i < o->n; i += 2) CK(L(cee_map_find(o->p, o->e[i].c->p)) == o->e[i + 1].c->p, "map #%d finds another value under #%d", o->nr, o->e[i].c->nr);
      LV(cee_map_iterate(o->p, &x, it_map));
      CK(x.n == o->n / 2, "map #%d visits %d entries of %d", o->nr, x.n, o->n / 2);
      OB(o->n); break;
    }
    case K_DICT:
      for (int i = 0; i < o->n; i += 2) CK(L(cee_dict_find(o->p, o->e[i].c->p)) == o->e[i + 1].c->p, "dict #%d finds another value under \"%.60s\"", o->nr, o->e[i].c->s);
      OB(o->n); break;
    case K_TUPLE: case K_TRIPLE: case K_QUAD: case K_NTUP:
      for (int i = 0; i < o->n; i++) CK(((void **)o->p)[i] == (o->e[i].c ? o->e[i].c->p : NULL), "%s #%d: slot %d is another", kn, o->nr, i);
      OB(o->n); break;
    case K_TAGGED: { struct cee_tagged *t = o->p; CK(t->tag == o->tag && t->ptr._ == (o->e[0].c ? o->e[0].c->p : NULL), "tagged #%d changed", o->nr); OB(t->tag); break; }
    case K_ENV: { struct cee_env *t = o->p; CK((void *)t->outer == (o->e[0].c ? o->e[0].c->p : NULL) && (void *)t->vars == (o->e[1].c ? o->e[1].c->p : NULL), "env #%d changed", o->nr); break; }
    case K_CLOS: { struct cee_closure *t = o->p; CK((void *)t->env == (o->e[0].c ? o->e[0].c->p : NULL), "closure #%d changed", o->nr); break; }
    case K_JSON: {
      char *b = malloc(o->sn + 1);
      ssize_t k = L(cee_json_snprint(w->st, b, o->sn + 1, o->p, 0));
      CK(k == (ssize_t)o->sn && !memcmp(b, o->s, k), "json #%d prints another text than before", o->nr);
      OBS(b, k);
      free(b);
      break;
    }
    case K_CTX:
      for (int i = 0; i < o->n; i++) CK(L(cee_state_get_context(w->st, o->names[i])) == o->e[i].c->p, "the context \"%s\" is another", o->names[i]);
      OB(o->n); break;
  }
}
static void verify(ws *w) {
  wo *v[MAXO + 2]; int k = all(w, v);
  uint64_t b0 = hx_live_blocks();
  for (int i = 0; i < k; i++) verify_obj(w, v[i]);
  if (hx_track) CK(hx_live_blocks() == b0, "looking at %d objects leaves %lld blocks", k, (long long)(hx_live_blocks() - b0));
  COUNTN("objects verified", k);
  hx->nontrivial = 1;
}
/* ---- deletion */
static int sim_die(wo *x);
static int sim_edge(wo *c, int pol) {
  if (!c || pol == NOOP) return 1;
  if (c->unc || c->immortal) return 0;
  if (pol == DEL) return sim_die(c);
  if (c->ret) return 0;
  c->sim++;
  return c->rc != c->sim || sim_die(c);
}
static int sim_die(wo *x) {
  if (x->dying || x->root || x->immortal) return 0;
  x->dying = 1; dl[ndl++] = x;
  for (int i = 0; i < x->n; i++) if (!sim_edge(x->e[i].c, x->e[i].pol)) return 0;
  return 1;
}
static void sim_reset(ws *w) { for (int i = 0; i < w->n; i++) w->o[i]->sim = w->o[i]->dying = 0; ndl = 0; }
/* nothing that survives (but `except`) may point at what dies */
static int sim_ok(ws *w, const wo *except) {
  wo *v[MAXO + 2]; int k = all(w, v);
  for (int i = 0; i < k; i++) if (!v[i]->dying && v[i] != except)
    for (int j = 0; j < v[i]->n; j++) if (v[i]->e[j].c && v[i]->e[j].c->dying) return 0;
  return 1;
}
static void sim_commit(ws *w) {
  for (int i = 0; i < w->n; i++) { wo *o = w->o[i]; o->rc -= o->sim; }
  for (int i = 0; i < ndl; i++) dl[i]->alive = 0;
}
static void check_dead(ws *w, const char *how) {
  for (int i = 0; i < ndl; i++) {
    if (hx_track && hx_alive(dl[i]->id)) FAIL("%s: %s #%d has no owner any more but was not released", how, kname[dl[i]->kind], dl[i]->nr);
    COUNT("objects released by deletion");
  }
  OB(ndl);
  sim_reset(w); compact(w);
}
static int del_obj(ws *w, wo *x) {
  if (x->ret || x->rc || held(w, x, 7)) return 0;
  sim_reset(w);
  if (!sim_die(x) || !sim_ok(w, NULL)) { sim_reset(w); return 0; }
  sim_commit(w);
  int how = (int)rnd(3);
  OP("s%d: delete %s #%d (%d objects)", w->idx, kname[x->kind], x->nr, ndl);
  if (how == 0) LV(cee_del(x->p)); else if (how == 1) LV(cee_del_e(DEL, x->p)); else LV(cee_del_ref(x->p));
  if (ndl > 1) COUNT("deletions that cascade");
  COUNT("deletions");
  check_dead(w, "after a deletion");
  verify(w);
  return 1;
}
static void gc_mark(wo *o) { if (!o || o->mark == stamp) return; o->mark = stamp; for (int i = 0; i < o->n; i++) gc_mark(o->e[i].c); }
static void do_gc(ws *w) {
  stamp++;
  gc_mark(&w->stk); gc_mark(&w->ctx);
  for (int i = 0; i < w->n; i++) if (w->o[i]->alive && w->o[i]->root) gc_mark(w->o[i]);
  int dead = 0, live = 0;
  OP("s%d: gc", w->idx);
  LV(cee_state_gc(w->st));
  for (int i = 0; i < w->n; i++) {
    wo *o = w->o[i];
    if (!o->alive) continue;
    if (o->mark == stamp) { live++; CK(hx_alive(o->id), "the garbage collector released %s #%d, which is reachable", kname[o->kind], o->nr); }
    else {
      dead++; o->alive = 0;
      if (hx_track && hx_alive(o->id)) FAIL("the garbage collector kept %s #%d, which is not reachable", kname[o->kind], o->nr);
      for (int j = 0; j < o->n; j++) if (o->e[j].c && o->e[j].pol != NOOP && o->e[j].c->mark == stamp) o->e[j].c->unc = 1;
    }
  }
  OB(dead); OB(live);
  w->gcs++;
  COUNT("collections"); COUNTN("objects collected", dead); COUNTN("objects kept by a collection", live);
  if (dead && live) COUNT("collections that keep and release");
  compact(w);
  verify(w);
}
/* ---- edits */
static int map_at(wo *m, wo *k) { for (int i = 0; i < m->n; i += 2) if (eqk(m->cmpk, m->e[i].c, k)) return i; return -1; }
static void cut(wo *o, int at, int k) { memmove(o->e + at, o->e + at + k, (o->n - at - k) * sizeof *o->e); o->n -= k; }
static int key_dies(ws *w, wo *k, int pol) {      /* may the key passed for an existing one be released? 1: it will be; 0: it survives; -1: invalid use */
  if (pol == NOOP) return 0;
  if (pol == RC && k->rc) return k->unc ? -1 : 0;
  if (k->root || k->pins || held(w, k, 7)) return -1;
  return 1;
}
extern __attribute__((weak)) void *cee_map_add_e(struct cee_map *, void *, void *, void *, void *(*)(void *, void *, void *));
static __thread void *mg_old, *mg_new, *mg_ret; static __thread int mg_calls;
static void *mg_rec(void *cx, void *a, void *b) { if (cx != (void *)&mg_calls) FAIL("the combining function gets another context"); mg_calls++; mg_old = a; mg_new = b; return mg_ret ? mg_ret : b; }
static void map_put(ws *w, wo *m) {
  wo *k = child(w, m, m->pol, m->cmpk ? ANY : 1 << K_STR), *v = child(w, m, m->pol2, ANY);
  if (!k || !v || (k == v && (m->pol == DEL || m->pol2 == DEL)) || !can_hold(w, m, m->pol, k)) return;
  int at = map_at(m, k);
  if (at < 0) {
    int fn = chance(20) && cee_map_add_e;
    OP("s%d: map #%d add #%d #%d%s", w->idx, m->nr, k->nr, v->nr, fn ? " with a combining function" : "");
    mg_calls = 0; mg_ret = NULL;
    void *r = fn ? L(cee_map_add_e(m->p, k->p, v->p, &mg_calls, mg_rec)) : L(cee_map_add(m->p, k->p, v->p));
    CK(!mg_calls, "map #%d combines the value of a new key", m->nr);
    CK(r == NULL, "adding a new key to map #%d returns a value", m->nr);
    link_(m, k, m->pol); link_(m, v, m->pol2);
    return;
  }
  if (k == m->e[at].c && m->pol == DEL) return;
  int kd = key_dies(w, k, m->pol);
  if (kd < 0 || (kd && k == v)) return;
  wo *old = m->e[at + 1].c;
  if (k == old) return;      /* the last reference of k would go while it is the key passed */
  if (chance(15) && !(kd && k == old)) v = old;           /* the value it has already */
  wo *res = v;
  int fn = chance(30) && cee_map_add_e;
  if (fn) {                                  /* keep the old one, take the new one, or make a third */
    int how = (int)rnd(3);
    if (how == 0) res = old;
    else if (how == 1) { res = child(w, m, m->pol2, ANY); if (!res || (v == old && m->pol2 == DEL) || (res == v && v != old) || res == k || !can_hold(w, m, m->pol2, res)) res = v; }
    if (m->pol2 == DEL && (res == k || v == k)) return;
  }
  OP("s%d: map #%d replace #%d: #%d -> #%d%s", w->idx, m->nr, k->nr, old->nr, v->nr, kd ? ", key released" : "");
  if (fn) OP("    combined to #%d", res->nr);
  mg_calls = 0; mg_ret = res->p;
  void *r = fn ? L(cee_map_add_e(m->p, k->p, v->p, &mg_calls, mg_rec)) : L(cee_map_add(m->p, k->p, v->p));
  CK(r == old->p, "replacing a value of map #%d does not return the old one", m->nr);
  if (fn) CK(mg_calls == 1 && mg_old == old->p && mg_new == v->p, "map #%d does not combine the old with the new value", m->nr);
  if (v == old) COUNT("values put again");
  if (res != old && res != v) COUNT("combined values");
  if (res != old) { hold(res, m->pol2); unhold(old, m->pol2); m->e[at + 1].c = res; }
  if (kd) { k->alive = 0; CK(!hx_track || !hx_alive(k->id), "the unused key #%d of map #%d was not released", k->nr, m->nr); compact(w); }
  COUNT("map values replaced");
}
static void map_take(ws *w, wo *m) {
  if (!m->n) { wo *k = pick(w, 1 << K_STR); if (k && !m->cmpk) CK(L(cee_map_remove(m->p, k->p)) == NULL, "removing from an empty map returns something"); return; }
  int at = (int)rnd(m->n / 2) * 2;
  wo *k = m->e[at].c, *v = m->e[at + 1].c;
  OP("s%d: map #%d remove #%d", w->idx, m->nr, k->nr);
  CK(L(cee_map_remove(m->p, k->p)) == v->p, "removing from map #%d does not return the value", m->nr);
  unhold(k, m->pol); unhold(v, m->pol2); cut(m, at, 2);
  COUNT("removals");
}
static void map_rename(ws *w, wo *m) {
  if (!m->n) return;
  int at = (int)rnd(m->n / 2) * 2;
  wo *ok = m->e[at].c, *v = m->e[at + 1].c, *k = child(w, m, m->pol, m->cmpk ? ANY : 1 << K_STR);
  if (!k || k == ok || k == v || ok == v || map_at(m, k) >= 0) return;
  if (v->unc || !can_hold(w, m, m->pol, k)) return;
  OP("s%d: map #%d rename #%d to #%d", w->idx, m->nr, ok->nr, k->nr);
  CK(L(cee_map_rename(m->p, ok->p, k->p)), "renaming a key of map #%d fails", m->nr);
  unhold(ok, m->pol); cut(m, at, 2);
  hold(k, m->pol); push(m, k, m->pol); push(m, v, m->pol2);
}
static void *mg_pick(void *cx, void *a, void *b) { return *(int *)cx ? a : b; }
static void map_merge(ws *w, wo *m, wo *s) {
  if (m == s || m->pol == DEL || m->pol2 == DEL || s->pol == DEL || s->pol2 == DEL || m->cmpk != s->cmpk) return;
  if ((m->pol == RC && s->pol != RC) || (m->pol2 == RC && s->pol2 != RC)) return;
  for (int i = 0; i < s->n; i += 2) if (!can_hold(w, m, m->pol, s->e[i].c) || !can_hold(w, m, m->pol2, s->e[i + 1].c)) return;
  int keep = (int)rnd(2), fn = (int)rnd(2);
  OP("s%d: map #%d merge from #%d fn=%d keep=%d", w->idx, m->nr, s->nr, fn, keep);
  LV(cee_map_merge(m->p, s->p, &keep, fn ? mg_pick : NULL));
  for (int i = 0; i < s->n; i += 2) {
    int at = map_at(m, s->e[i].c);
    if (at < 0) { link_(m, s->e[i].c, m->pol); link_(m, s->e[i + 1].c, m->pol2); }
    else if (!fn || !keep) { hold(s->e[i + 1].c, m->pol2); unhold(m->e[at + 1].c, m->pol2); m->e[at + 1].c = s->e[i + 1].c; }
  }
  COUNT("maps merged");
}
static void map_clone(ws *w, wo *s) {
  extern struct cee_map *cee_map_clone(struct cee_map *);
  if (s->pol == DEL || s->pol2 == DEL) return;
  for (int i = 0; i < s->n; i += 2) if (!can_hold(w, NULL, s->pol, s->e[i].c) || !can_hold(w, NULL, s->pol2, s->e[i + 1].c)) return;
  wo *m = reg(w, K_MAP, L(cee_map_clone(s->p)));
  m->pol = s->pol; m->pol2 = s->pol2; m->cmpk = s->cmpk;
  for (int i = 0; i < s->n; i++) link_(m, s->e[i].c, s->e[i].pol);
  OP("s%d: clone map #%d as #%d", w->idx, s->nr, m->nr);
}
static int by_ptr(const void *a, const void *b) { void *x = *(void **)a, *y = *(void **)b; return x < y ? -1 : x > y; }
/* a list of the keys, values or elements */
static void listing(ws *w, wo *h) {
  int what = h->kind == K_MAP ? (int)rnd(3) : 3, step = h->kind == K_MAP ? 2 : 1, off = what == 1 ? 1 : 0;
  int pol = what == 1 ? h->pol2 : h->pol;
  int k = h->n / step;
  wo *c[MAXO * 2];
  if (k > MAXO || (h->cmpk && pol == NOOP)) return;
  for (int i = 0; i < k; i++) { c[i] = h->e[i * step + off].c; if (pol != DEL && !can_hold(w, NULL, RC, c[i])) return; }
  OP("s%d: %s of %s #%d", w->idx, what == 0 ? "keys" : what == 1 ? "values" : what == 2 ? "ordered keys" : "elements", kname[h->kind], h->nr);
  struct cee_list *l = what == 0 ? L(cee_map_keys(h->p)) : what == 1 ? L(cee_map_values(h->p)) : what == 2 ? L(cee_map_insertion_ordered_keys(h->p)) : L(cee_set_values(h->p));
  wo *o = reg(w, K_LIST, l);
  CK(L(cee_list_size(l)) == (size_t)k, "a listing of %s #%d has %zu elements of %d", kname[h->kind], h->nr, cee_list_size(l), k);
  void *a[MAXO], *b[MAXO];
  for (int i = 0; i < k; i++) { a[i] = l->a[i]; b[i] = c[i]->p; }
  qsort(a, k, sizeof *a, by_ptr); qsort(b, k, sizeof *b, by_ptr);
  CK(!memcmp(a, b, k * sizeof *a), "a listing of %s #%d lists other elements", kname[h->kind], h->nr);
  COUNT("listings");
  if (pol == DEL || (h->cmpk && pol == RC)) {      /* looked at, and deleted before anything else happens (the order of pointers is no part of a history) */
    LV(cee_del(l)); o->alive = 0;
    CK(!hx_track || !hx_alive(o->id), "a listing was not released");
    compact(w);
    return;
  }
  for (int i = 0; i < k; i++) { for (int j = 0; j < k; j++) if (c[j] && c[j]->p == l->a[i]) { link_(o, c[j], RC); break; } }
}
static void set_union(ws *w, wo *a, wo *b) {
  extern struct cee_set *cee_set_union_set(struct cee_state *, struct cee_set *, struct cee_set *);
  if (a->pol != RC || b->pol != RC || a->cmpk != b->cmpk) return;
  for (int i = 0; i < a->n; i++) if (!can_hold(w, NULL, RC, a->e[i].c)) return;
  for (int i = 0; i < b->n; i++) if (!can_hold(w, NULL, RC, b->e[i].c)) return;
  wo *u = reg(w, K_SET, L(cee_set_union_set(w->st, a->p, b->p)));
  u->pol = RC; u->cmpk = a->cmpk;
  for (int i = 0; i < a->n; i++) link_(u, a->e[i].c, RC);
  for (int i = 0; i < b->n; i++) { int f = 0; for (int j = 0; j < u->n; j++) f |= eqk(u->cmpk, u->e[j].c, b->e[i].c); if (!f) link_(u, b->e[i].c, RC); }
  OP("s%d: union of #%d and #%d as #%d", w->idx, a->nr, b->nr, u->nr);
  COUNT("unions");
}
static void edit(ws *w, wo *o) {
  wo *c; int at;
  switch (o->kind) {
    case K_LIST:
      switch (rnd(8)) {
        case 0: case 1: case 2:
          if (!(c = child(w, o, o->pol, ANY))) return;
          OP("s%d: list #%d append #%d", w->idx, o->nr, c->nr);
          LV(cee_list_append(o->p, c->p)); link_(o, c, o->pol);
          return;
        case 3:
          if (!(c = child(w, o, o->pol, ANY))) return;
          at = (int)rnd(o->n + 1);
          OP("s%d: list #%d insert #%d at %d", w->idx, o->nr, c->nr, at);
          LV(cee_list_insert(o->p, at, c->p)); link_(o, c, o->pol);
          { we x = o->e[o->n - 1]; memmove(o->e + at + 1, o->e + at, (o->n - 1 - at) * sizeof x); o->e[at] = x; }
          return;
        case 4: case 5: {
          if (!o->n) { CK(!L(cee_list_remove(o->p, 0)), "removing from an empty list succeeds"); return; }
          at = (int)rnd(o->n);
          OP("s%d: list #%d remove %d", w->idx, o->nr, at);
          CK(L(cee_list_remove(o->p, at)), "removing element %d of list #%d fails", at, o->nr);
          unhold(o->e[at].c, o->pol); cut(o, at, 1);
          COUNT("removals");
          return;
        }
        case 6: {
          wo *s = pick(w, 1 << K_LIST);
          if (!s || o->pol == DEL || s->pol == DEL || o->n + s->n > 60) return;
          for (int i = 0; i < s->n; i++) if (!can_hold(w, o, o->pol, s->e[i].c)) return;
          OP("s%d: list #%d merge #%d", w->idx, o->nr, s->nr);
          int n = s->n;
          LV(cee_list_merge(o->p, s->p));
          for (int i = 0; i < n; i++) link_(o, s->e[i].c, o->pol);
          COUNT("lists merged");
          return;
        }
        default: if (chance(50)) LV(cee_use_realloc(o->p)); else LV(cee_use_malloc(o->p)); return;
      }
    case K_STACK:
      if (chance(60)) {
        if (!(c = child(w, o, o->pol, ANY))) return;
        OP("s%d: stack #%d push #%d", w->idx, o->nr, c->nr);
        int r = L(cee_stack_push(o->p, c->p));
        CK(!r == (o->n == o->lim), "pushing to stack #%d returns %d with %d of %d used", o->nr, r, o->n, o->lim);
        if (r) link_(o, c, o->pol);
      } else {
        void *r = L(cee_stack_pop(o->p));
        OP("s%d: stack #%d pop", w->idx, o->nr);
        CK(r == (o->n ? o->e[o->n - 1].c->p : NULL), "stack #%d pops another element", o->nr);
        if (o->n) { unhold(o->e[o->n - 1].c, o->pol); o->n--; }
        COUNT("removals");
      }
      return;
    case K_SET:
      switch (rnd(10)) {
        case 0: case 1: case 2: case 3: {
          if (!(c = child(w, o, o->pol, o->cmpk ? ANY : 1 << K_STR))) return;
          int f = 0; for (int j = 0; j < o->n; j++) f |= eqk(o->cmpk, o->e[j].c, c);
          OP("s%d: set #%d add #%d%s", w->idx, o->nr, c->nr, f ? " (has an equal one)" : "");
          LV(cee_set_add(o->p, c->p));
          if (!f) link_(o, c, o->pol);
          return;
        }
        case 4: case 5:
          if (!o->n) return;
          at = (int)rnd(o->n); c = o->e[at].c;
          OP("s%d: set #%d remove #%d", w->idx, o->nr, c->nr);
          CK(L(cee_set_remove(o->p, c->p)) == c->p, "set #%d removes another element", o->nr);
          unhold(c, o->pol); cut(o, at, 1);
          COUNT("removals");
          return;
        case 6: {
          sim_reset(w);
          int ok = 1;
          for (int i = 0; i < o->n && ok; i++) ok = sim_edge(o->e[i].c, o->pol);
          if (!ok || o->dying || !sim_ok(w, o)) { sim_reset(w); return; }
          /* the set itself must not point (by another edge) at what dies: its edges all go */
          OP("s%d: clear set #%d (%d elements, %d released)", w->idx, o->nr, o->n, ndl);
          LV(cee_set_clear(o->p));
          sim_commit(w); o->n = 0;
          check_dead(w, "after clearing a set");
          CK(L(cee_set_empty(o->p)), "a cleared set is not empty");
          COUNT("sets cleared");
          verify(w);
          return;
        }
        case 7: { wo *b = pick(w, 1 << K_SET); if (b) set_union(w, o, b); return; }
        default: listing(w, o); return;
      }
    case K_MAP:
      switch (rnd(10)) {
        case 0: case 1: case 2: case 3: map_put(w, o); return;
        case 4: case 5: map_take(w, o); return;
        case 6: map_rename(w, o); return;
        case 7: { wo *s = pick(w, 1 << K_MAP); if (s) map_merge(w, o, s); return; }
        case 8: map_clone(w, o); return;
        default: listing(w, o); return;
      }
    case K_DICT: {
      if (o->n / 2 >= o->lim) return;
      wo *k = child(w, o, o->pol, 1 << K_STR), *v = child(w, o, o->pol, ANY);
      if (!k || !v || (k == v && o->pol == DEL) || !can_hold(w, o, o->pol, k)) return;
      for (int i = 0; i < o->n; i += 2) if (!strcmp(o->e[i].c->s, k->s)) return;
      OP("s%d: dict #%d add #%d #%d", w->idx, o->nr, k->nr, v->nr);
      LV(cee_dict_add(o->p, k->p, v->p));
      link_(o, k, o->pol); link_(o, v, o->pol);
      return;
    }
    case K_TUPLE:
      at = (int)rnd(2); c = o->e[at].c;
      if (!c || o->e[at].pol == NOOP || c->unc) return;
      OP("s%d: tuple #%d gives up slot %d", w->idx, o->nr, at);
      LV(cee_decr_indegree(o->e[at].pol, c->p));
      LV(cee_tuple_update_del_policy(o->p, at, CEE_DP_NOOP));
      unhold(c, o->e[at].pol); o->e[at].pol = NOOP;
      return;
    case K_STR: {
      if (is_key(w, o) || o->sn > 3000) return;
      int h = o->root || o->pins || held(w, o, 7);
      if (hx_transcript && h) return;      /* when a text moves is no promise: the builds are compared on texts that may move freely */
      char t[300]; int n = (int)rnd(chance(80) ? 8 : 250);
      for (int i = 0; i < n; i++) t[i] = 'A' + rnd(26);
      t[n] = 0;
      if (h) { if (o->realloc_) { LV(cee_use_malloc(o->p)); o->realloc_ = 0; } }
      else if (chance(40) || hx_transcript) { LV(cee_use_realloc(o->p)); o->realloc_ = 1; }
      char *r; char *ns; size_t nn; int how = (int)rnd(3);
      OP("s%d: str #%d %s %d bytes%s", w->idx, o->nr, how == 0 ? "catf" : how == 1 ? "add" : "replace", how == 1 ? 1 : n, h ? " (shared)" : "");
      if (how == 0) { r = (char *)L(cee_str_catf(o->p, "%s", t)); nn = o->sn + n; ns = ar_alloc(nn + 1); memcpy(ns, o->s, o->sn); memcpy(ns + o->sn, t, n + 1); }
      else if (how == 1) { r = (char *)L(cee_str_add(o->p, 'x')); nn = o->sn + 1; ns = ar_alloc(nn + 1); memcpy(ns, o->s, o->sn); ns[o->sn] = 'x'; ns[nn] = 0; }
      else { r = (char *)L(cee_str_replace(o->p, "%s", t)); nn = n; ns = ar_str(t, n); }
      if (r == o->p && !o->realloc_) { o->s = ns; o->sn = nn; }
      else if (o->realloc_) { o->p = r; o->id = hx_bind(r); o->s = ns; o->sn = nn; }
      else { wo *c2 = reg(w, K_STR, r); c2->s = ns; c2->sn = nn; COUNT("strings that moved while they grew"); }
      COUNT("string edits");
      return;
    }
    case K_BLOCK: { for (int i = 0; i < 4; i++) { size_t q = rnd(o->sn); o->s[q] = (char)rnd64(); ((char *)o->p)[q] = o->s[q]; } return; }
    default: return;
  }
}
/* what is put in and taken out again, over and over, leaves no memory behind */
static void cycles(ws *w) {
  int rep = 3 + (int)rnd(12), what = (int)rnd(7);
  wo *o = NULL, *c = NULL, *v = NULL, *k2 = NULL;
  static const int kinds[7] = { K_LIST, K_STACK, K_SET, K_MAP, K_MAP, K_MAP, 0 };
  if (what < 6) { o = pick(w, 1 << kinds[what]); if (!o) return; }
  switch (what) {
    case 0: case 1:
      if ((what == 1 && o->n == o->lim) || !(c = child(w, o, o->pol, ANY))) return;
      break;
    case 2:
      if (!(c = child(w, o, o->pol, o->cmpk ? ANY : 1 << K_STR))) return;
      for (int j = 0; j < o->n; j++) if (eqk(o->cmpk, o->e[j].c, c)) return;
      break;
    case 3: case 4:
      c = child(w, o, o->pol, o->cmpk ? ANY : 1 << K_STR); v = child(w, o, o->pol2, ANY);
      if (!c || !v || c == v || !can_hold(w, o, o->pol, c) || map_at(o, c) >= 0) return;
      if (what == 4) { k2 = child(w, o, o->pol, o->cmpk ? ANY : 1 << K_STR); if (!k2 || k2 == c || k2 == v || eqk(o->cmpk, k2, c) || map_at(o, k2) >= 0 || !can_hold(w, o, o->pol, k2) || !can_hold(w, o, o->pol, c) || !can_hold(w, o, o->pol2, v)) return; }
      break;
    case 5: {
      if (!o->n || o->pol == DEL || o->pol2 == DEL) return;
      int at = (int)rnd(o->n / 2) * 2; c = o->e[at].c; v = o->e[at + 1].c;
      if (c->unc || v->unc || c->ret || v->ret) return;
      break;
    }
    default:
      if (!(c = child(w, NULL, RC, ANY)) || c->root) return;
  }
  static const char *names[] = { "append and remove", "push and pop", "add and remove", "add and remove", "add, rename and remove", "put again", "root and unroot" };
  OP("s%d: %s #%d: %d times %s #%d", w->idx, o ? kname[o->kind] : "state", o ? o->nr : 0, rep, names[what], c->nr);
  uint64_t b0 = 0, s0 = 0;
  for (int i = 0; i < rep; i++) {
    switch (what) {
      case 0: if (i % 2) { LV(cee_list_append(o->p, c->p)); CK(L(cee_list_remove(o->p, o->n)), "the element just appended is not removed"); }
              else { LV(cee_list_insert(o->p, 0, c->p)); CK(L(cee_list_remove(o->p, 0)), "the element just inserted is not removed"); } break;
      case 1: CK(L(cee_stack_push(o->p, c->p)) && L(cee_stack_pop(o->p)) == c->p, "the element just pushed is not popped"); break;
      case 2: LV(cee_set_add(o->p, c->p)); CK(L(cee_set_remove(o->p, c->p)) == c->p, "the element just added is not removed"); break;
      case 3: LV(cee_map_add(o->p, c->p, v->p)); CK(L(cee_map_remove(o->p, c->p)) == v->p, "the entry just added is not removed"); break;
      case 4: LV(cee_map_add(o->p, c->p, v->p)); CK(L(cee_map_rename(o->p, c->p, k2->p)), "the key just added is not renamed"); CK(L(cee_map_remove(o->p, k2->p)) == v->p, "the entry just renamed is not removed"); break;
      case 5: CK(L(cee_map_add(o->p, c->p, v->p)) == v->p, "putting a value again does not return it"); break;
      default: LV(cee_state_add_gc_root(w->st, c->p)); LV(cee_state_remove_gc_root(w->st, c->p));
    }
    if (i == 1) { b0 = hx_live_blocks(); s0 = hx_serial_now(); }
  }
  if (hx_track && hx_live_blocks() != b0) {
    char b[300]; hx_describe_live(s0, b, sizeof b);
    FAIL("%d times \"%s\" leaves %lld blocks: %s", rep, names[what], (long long)(hx_live_blocks() - b0), b);
  }
  COUNT("repeated operations that leave nothing");
}
static void pinning(ws *w) {
  wo *o = pick(w, ANY);
  if (!o) return;
  if (o->pins && chance(60)) {
    if (chance(50) || o->unc) { OP("s%d: unpin %s #%d", w->idx, kname[o->kind], o->nr); LV(cee_decr_indegree(RC, o->p)); o->pins--; o->rc--; return; }
    sim_reset(w);
    int dies = o->rc == 1;
    if (dies) { o->pins--; if (held(w, o, 7) || !sim_die(o) || !sim_ok(w, NULL)) { o->pins++; sim_reset(w); return; } o->pins++; sim_commit(w); }
    OP("s%d: release a reference of %s #%d%s", w->idx, kname[o->kind], o->nr, dies ? " (the last)" : "");
    LV(cee_del_ref(o->p));
    o->pins--; o->rc--;
    if (dies) { check_dead(w, "after the last reference is released"); verify(w); COUNT("last references released"); }
    return;
  }
  if (o->ret || o->unc) return;
  OP("s%d: pin %s #%d", w->idx, kname[o->kind], o->nr);
  LV(cee_incr_indegree(RC, o->p)); o->pins++; o->rc++;
}
static void rooting(ws *w) {
  wo *c; int at;
  switch (rnd(6)) {
    case 0: case 1:
      if (!(c = pick(w, ANY))) return;
      OP("s%d: root %s #%d", w->idx, kname[c->kind], c->nr);
      LV(cee_state_add_gc_root(w->st, c->p)); c->root = 1; return;
    case 2:
      c = pick(w, ANY);
      if (!c) return;
      OP("s%d: unroot %s #%d", w->idx, kname[c->kind], c->nr);
      LV(cee_state_remove_gc_root(w->st, c->p)); c->root = 0; return;
    case 3: {
      if (!(c = child(w, NULL, RC, ANY))) return;
      char nm[400]; snprintf(nm, sizeof nm, "%.*s%d", (int)rnd(4), "ctx", (int)rnd(4));
      if (chance(20)) { int k = (int)rnd(3), n = k == 0 ? 31 : k == 1 ? 64 : 300; memset(nm, 'n', n); snprintf(nm + n, 8, "%d", (int)rnd(4)); COUNT("contexts with long names"); }
      else if (chance(10)) { snprintf(nm, sizeof nm, "%s", chance(50) ? "100%% %d" : "%s%c"); COUNT("contexts named like formats"); }
      for (at = 0; at < w->ctx.n; at++) if (!strcmp(w->ctx.names[at], nm)) break;
      OP("s%d: context %s = %s #%d", w->idx, nm, kname[c->kind], c->nr);
      LV(cee_state_add_context(w->st, nm, c->p));
      if (at < w->ctx.n) { if (w->ctx.e[at].c != c) { hold(c, RC); unhold(w->ctx.e[at].c, RC); w->ctx.e[at].c = c; } }
      else { w->ctx.names[w->ctx.n] = ar_str(nm, strlen(nm)); link_(&w->ctx, c, RC); }
      return;
    }
    case 4:
      if (!w->ctx.n) { LV(cee_state_remove_context(w->st, "nothing")); return; }
      at = (int)rnd(w->ctx.n);
      OP("s%d: remove context %s", w->idx, w->ctx.names[at]);
      LV(cee_state_remove_context(w->st, w->ctx.names[at]));
      CK(L(cee_state_get_context(w->st, w->ctx.names[at])) == NULL, "a removed context is still there");
      unhold(w->ctx.e[at].c, RC); cut(&w->ctx, at, 1);
      memmove(w->ctx.names + at, w->ctx.names + at + 1, (w->ctx.n - at) * sizeof(char *));
      return;
    default: edit(w, &w->stk);
  }
}
/* a private structure: deleting it gives back every block it took */
static wo *grow(ws *w, int depth) {
  static const int ks[] = { K_LIST, K_MAP, K_SET, K_DICT, K_STACK, K_TUPLE, K_TAGGED, K_LIST, K_MAP };
  if (depth == 0 || chance(25) || w->n > MAXO - 60) return mk_leaf(w, 1);
  int kind = ks[rnd(9)], p = chance(50) ? RC : DEL, q = chance(50) ? RC : DEL, n = (int)rnd(5);
  enum cee_del_policy dp[2] = { p, q };
  wo *o, *c, *k;
  switch (kind) {
    case K_LIST: o = reg(w, kind, L(cee_list_mk_e(w->st, p, rnd(3)))); o->pol = p; while (n--) { c = grow(w, depth - 1); LV(cee_list_append(o->p, c->p)); link_(o, c, p); } break;
    case K_STACK: o = reg(w, kind, L(cee_stack_mk_e(w->st, p, 8))); o->pol = p; o->lim = 8; while (n--) { c = grow(w, depth - 1); LV(cee_stack_push(o->p, c->p)); link_(o, c, p); } break;
    case K_SET: o = reg(w, kind, L(cee_set_mk_e(w->st, p, ptrcmp))); o->pol = p; o->cmpk = 1; while (n--) { c = grow(w, depth - 1); LV(cee_set_add(o->p, c->p)); link_(o, c, p); } break;
    case K_MAP: o = reg(w, kind, L(cee_map_mk_e(w->st, dp, ptrcmp))); o->pol = p; o->pol2 = q; o->cmpk = 1; while (n--) { k = grow(w, depth - 1); c = grow(w, depth - 1); LV(cee_map_add(o->p, k->p, c->p)); link_(o, k, p); link_(o, c, q); } break;
    case K_DICT: o = reg(w, kind, L(cee_dict_mk_e(w->st, p, 8))); o->pol = p; o->lim = 8;
      while (n--) { k = mk_str(w); c = grow(w, depth - 1); int dup = 0; for (int i = 0; i < o->n; i += 2) dup |= !strcmp(o->e[i].c->s, k->s); LV(cee_dict_add(o->p, k->p, c->p)); link_(o, k, p); link_(o, c, p); if (dup) { o->n -= 2; break; } }
      break;
    case K_TUPLE: k = grow(w, depth - 1); c = grow(w, depth - 1); o = reg(w, kind, L(cee_tuple_mk_e(w->st, dp, k->p, c->p))); link_(o, k, p); link_(o, c, q); break;
    default: c = grow(w, depth - 1); o = reg(w, kind, L(cee_tagged_mk_e(w->st, p, 7, c->p))); o->tag = 7; link_(o, c, p);
  }
  return o;
}
static void bracket(ws *w) {
  if (w->n > MAXO / 3) return;
  int n0 = w->n; uint64_t b0 = hx_live_blocks(), s0 = hx_serial_now();
  wo *r = grow(w, 3);
  int made = w->n - n0;
  OP("s%d: private structure of %d objects, deleted as a whole", w->idx, made);
  for (int i = n0; i < w->n; i++) if (w->o[i]->kind != K_DICT) verify_obj(w, w->o[i]);
  LV(cee_del(r->p));
  for (int i = n0; i < w->n; i++) {
    w->o[i]->alive = 0;
    if (hx_track && hx_alive(w->o[i]->id)) FAIL("deleting a structure leaves its %s #%d behind", kname[w->o[i]->kind], w->o[i]->nr);
  }
  w->n = n0;
  if (hx_track && hx_live_blocks() != b0) { char b[300]; hx_describe_live(s0, b, sizeof b); FAIL("deleting a structure of %d objects leaves %lld blocks: %s", made, (long long)(hx_live_blocks() - b0), b); }
  COUNT("private structures deleted"); COUNTN("objects in private structures", made);
}
static void deep(ws *w) {
  int d = 200 + (int)rnd(1800), del = chance(50);
  struct cee_list *l = L(cee_list_mk(w->st, 1)), *first = l;
  hx_id a = hx_bind(first);
  for (int i = 0; i < d; i++) { struct cee_list *m = L(cee_list_mk(w->st, 1)); LV(cee_list_append(m, l)); l = m; }
  hx_id b = hx_bind(l);
  OP("s%d: %d nested lists, %s", w->idx, d, del ? "deleted" : "collected");
  if (del) { LV(cee_del(l)); }
  else {
    LV(cee_state_add_gc_root(w->st, l)); do_gc(w);
    CK(hx_alive(a) && hx_alive(b), "a list nested %d deep was collected while reachable", d);
    LV(cee_state_remove_gc_root(w->st, l)); do_gc(w);
  }
  if (hx_track) CK(!hx_alive(a) && !hx_alive(b), "a list nested %d deep was not released", d);
  COUNT("deep structures");
}
/* thousands of elements that nothing else holds: every one shares the fate of its container, except those taken out or pinned */
static __thread size_t big_seen;
static int big_map(void *cx, void *k, void *v) { (void)cx; (void)k; (void)v; big_seen++; return 0; }
static void big_set(void *cx, void *v) { (void)cx; (void)v; big_seen++; }
static void big(ws *w, int gc) {
  int n = chance(15) ? 10000 + (int)rnd(20000) : 1030 + (int)rnd(5000), p = rpol(), q = rpol(), kind = (int)rnd(7), made = 0, out = 0, pin = -1, last;
  enum cee_del_policy dp[2] = { p, q };
  static const char *kn[] = { "list", "stack", "set", "map", "dict", "json array", "json object" };
  if (kind == 4) q = p;
  if (kind >= 5) p = q = RC;
  hx_id *id = malloc(2 * n * sizeof *id); void **c = malloc(2 * n * sizeof *c); char *fate = calloc(2 * n, 1);   /* what becomes of it when the container goes: p its policy; 9 taken out */
  void *o = NULL; struct cee_json *j = NULL;
  switch (kind) {
    case 0: o = L(cee_list_mk_e(w->st, p, rnd(2 * n))); break;
    case 1: o = L(cee_stack_mk_e(w->st, p, n + (int)rnd(3))); break;
    case 2: o = L(cee_set_mk_e(w->st, p, (cee_cmp_fun)strcmp)); break;
    case 3: o = L(cee_map_mk_e(w->st, dp, (cee_cmp_fun)strcmp)); break;
    case 4: o = L(cee_dict_mk_e(w->st, p, n)); break;
    case 5: o = j = L(cee_json_array_mk(w->st, (int)rnd(n))); break;
    default: o = j = L(cee_json_object_mk(w->st));
  }
  hx_id oi = hx_bind(o);
  OP("s%d: %s of %d elements, %s, %s", w->idx, kn[kind], n, pname[p], pname[q]);
  int front = kind == 0 && chance(30);
  for (int i = 0; i < n; i++) {
    int x = made++;
    int key = kind == 2 || kind == 3 || kind == 4;
    if (kind < 5) c[x] = key ? (void *)L(cee_str_mk(w->st, "b%d", (int)(i * 7919LL % 1000003))) : chance(50) ? (void *)L(cee_str_mk(w->st, "v%d", i)) : (void *)L(cee_boxed_from_i64(w->st, i));
    else c[x] = chance(50) ? (void *)L(cee_json_str_mkf(w->st, "v%d", i)) : (void *)L(cee_json_i64_mk(w->st, i));
    id[x] = hx_bind(c[x]); fate[x] = p;
    if (kind == 3 || kind == 4) { c[made] = L(cee_str_mk(w->st, "w%d", i)); id[made] = hx_bind(c[made]); fate[made] = q; made++; }
    switch (kind) {
      case 0: if (front) LV(cee_list_insert(o, cee_list_size(o) / 2, c[x])); else LV(cee_list_append(o, c[x])); break;
      case 1: CK(L(cee_stack_push(o, c[x])), "a stack of %d refuses element %d", n, i); break;
      case 2: LV(cee_set_add(o, c[x])); break;
      case 3: LV(cee_map_add(o, c[x], c[x + 1])); break;
      case 4: LV(cee_dict_add(o, c[x], c[x + 1])); break;
      case 5: LV(cee_json_array_append(j, c[x])); break;
      default: { char kb[24]; snprintf(kb, sizeof kb, "m%d", i); LV(cee_json_object_set(j, kb, c[x])); }
    }
  }
  last = chance(50);
  int takes = chance(60) ? (int)rnd(kind == 0 ? 40 : 300) : 0;
  for (int i = 0; i < takes; i++) {       /* take some out: from then on they are their own (those under reference counting stay until someone asks) */
    int x = (int)rnd(made);
    if (kind == 3 || kind == 4) x &= ~1;
    if (kind == 0) { int at = front ? (int)rnd(cee_list_size(o)) : last && i == 0 ? n - 1 : (int)rnd(cee_list_size(o)); void *v = ((struct cee_list *)o)->a[at]; for (x = 0; x < made && c[x] != v; x++) ; LV(cee_list_remove(o, at)); }
    else if (kind == 1) { x = made - 1 - i; if (x < 0) break; CK(L(cee_stack_pop(o)) == c[x], "element %d of a stack of %d is another", x, n); }
    else if (fate[x] == 9) continue;
    else if (kind == 2) CK(L(cee_set_remove(o, c[x])) == c[x], "a set of %d does not give up an element", n);
    else if (kind == 3) { CK(L(cee_map_remove(o, c[x])) == c[x + 1], "a map of %d gives up another value", n); fate[x + 1] = 9; }
    else break;
    fate[x] = 9; out++;
  }
  if (chance(40)) { do pin = (int)rnd(made); while (fate[pin] == 9); LV(cee_incr_indegree(RC, c[pin])); }
  size_t left = (kind == 3 || kind == 4 ? made / 2 : made) - out;
  big_seen = left;
  switch (kind) {
    case 0: CK(L(cee_list_size(o)) == left, "a list of %zu counts %zu", left, cee_list_size(o)); break;
    case 1: CK((size_t)L(cee_stack_size(o)) == left, "a stack of %zu counts %zu", left, (size_t)cee_stack_size(o)); break;
    case 2: big_seen = 0; LV(cee_set_iterate(o, NULL, big_set)); CK(L(cee_set_size(o)) == left, "a set of %zu counts %zu", left, cee_set_size(o)); break;
    case 3: big_seen = 0; LV(cee_map_iterate(o, NULL, big_map)); CK(L(cee_map_size(o)) == left, "a map of %zu counts %zu", left, (size_t)cee_map_size(o)); break;
    case 4: for (int i = 0; i < made; i += 2) CK(L(cee_dict_find(o, c[i])) == c[i + 1], "a dict of %zu finds another value", left); break;
  }
  CK(big_seen == left, "a %s of %zu visits %zu elements", kn[kind], left, big_seen);
  OB(left);
  int how = chance(8) ? 2 : gc ? chance(60) : 0;
  if (how == 1) {
    OP("s%d: the %s collected, rooted and not", w->idx, kn[kind]);
    LV(cee_state_add_gc_root(w->st, o));
    do_gc(w);
    if (hx_track) { CK(hx_alive(oi), "a rooted %s of %d was collected", kn[kind], n);
      for (int i = 0; i < made; i++) CK(hx_alive(id[i]) == (fate[i] != 9), "a collection %s element %d of a rooted %s of %d", fate[i] == 9 ? "keeps the removed" : "takes the", i, kn[kind], n); }
    if (pin >= 0) { LV(cee_decr_indegree(RC, c[pin])); pin = -1; }
    LV(cee_state_remove_gc_root(w->st, o));
    do_gc(w);
    if (hx_track) { CK(!hx_alive(oi), "an unreachable %s of %d was kept", kn[kind], n);
      for (int i = 0; i < made; i++) CK(!hx_alive(id[i]), "a collection keeps element %d of an unreachable %s of %d", i, kn[kind], n); }
    COUNT("big containers collected");
  } else if (how == 0) {
    OP("s%d: the %s deleted, %d taken out, %s pinned", w->idx, kn[kind], out, pin >= 0 ? "one" : "none");
    LV(cee_del(o));
    if (hx_track) { CK(!hx_alive(oi), "a deleted %s of %d is still there", kn[kind], n);
      for (int i = 0; i < made; i++) {
        int lives = fate[i] == 9 || fate[i] == NOOP || (i == pin && fate[i] == RC);
        CK(hx_alive(id[i]) == lives, "deleting a %s of %d %s element %d (%s%s)", kn[kind], n, lives ? "releases" : "leaves", i, fate[i] == 9 ? "taken out" : pname[(int)fate[i]], i == pin ? ", pinned" : "");
        if (lives && i != pin && chance(50)) { LV(cee_del(c[i])); }
      } }
    COUNT("big containers deleted");
  } else { OP("s%d: the %s stays until the state goes or collects", w->idx, kn[kind]); COUNT("big containers left to the state"); }
  COUNTMAX("elements of one container", n);
  free(id); free(c); free(fate);
}
/* a text the parser rejects leaves at most garbage that the state takes with it */
static void bad_text(ws *w) {
  static const jopt jo = { .maxdepth = 4, .width = 4 };
  static const char *esc[] = { "\\ud83d", "\\ud83dx", "\\ud83d\\n", "\\ud83d\\u0041", "\\udc00", "\\u12", "\\u12g4", "\\x", "\\", "\\ud83d\\u", "\\ud83d\\ud83d", "\\u", "\\ud800\\udbff", "ok\\n\\ud800\\ue000" };
  jv *v; size_t n; char *t; int line = -7, kind = (int)rnd(3); struct cee_json *j = NULL;
  do v = gen_jv(&jo, 0); while (v->t != JA && v->t != JO);
  t = emit_text(v, (int)rnd(32), &n);
  if (kind == 0) t = mutate(t, &n, 1 + (int)rnd(4));
  else if (kind == 1) { n = rnd(n + 1); }
  else {      /* a text with a broken escape in a key or value, somewhere */
    const char *e = esc[rnd(sizeof esc / sizeof *esc)]; char *b = ar_alloc(n + 200); size_t k = 0;
    int pad = (int)rnd(60);
    k += sprintf(b, "[");
    for (int i = (int)rnd(3); i > 0; i--) k += sprintf(b + k, "{\"a\\n\":");
    if (chance(50)) k += sprintf(b + k, "[");
    if (b[k - 1] == '[' && chance(50)) { memcpy(b + k, t, n); k += n; b[k++] = ','; }
    if (chance(40)) k += sprintf(b + k, "{");
    k += sprintf(b + k, "\"%s", chance(60) ? "\\t" : "");
    for (int i = 0; i < pad; i++) b[k++] = 'a' + i % 26;
    k += sprintf(b + k, "%s", e);
    if (chance(70)) k += sprintf(b + k, "\"");
    if (chance(30)) k += sprintf(b + k, ":1}]");
    t = b; n = k;
  }
  char *x = hx_dup(t, n);
  OP("s%d: parse %zu bytes that may be wrong", w->idx, n);
  int r = L(cee_json_parsex(w->st, x, n, &j, chance(50), &line));
  OB(r); OB(line);
  free(x);
  if (r) COUNT("rejected texts in worlds"); else COUNT("odd texts accepted in worlds");
}
static void many(ws *w) {       /* more references than the counter holds */
  wo *c = mk_str(w);
  int n = 65530 + (int)rnd(12);
  struct cee_list *b = L(cee_list_mk(w->st, 1));
  LV(cee_list_append(b, c->p));
  if (hx->casenr % 2) {        /* all the others go one by one, then one more holder comes and goes */
    int st = chance(50), m = chance(70) ? n : (int)rnd(n); void *a = st ? (void *)L(cee_stack_mk(w->st, n)) : (void *)L(cee_list_mk(w->st, n));
    OP("s%d: str #%d in a list and %d times in a %s, taken out %d times", w->idx, c->nr, n, st ? "stack" : "list", m);
    hx_in();
    for (int i = 0; i < n; i++) if (st) cee_stack_push(a, c->p); else cee_list_append(a, c->p);
    for (int i = 0; i < m; i++) if (st) cee_stack_pop(a); else cee_list_remove(a, n - 1 - i);
    hx_out();
    CK(hx_alive(c->id), "a str was released while a list still holds it (taken out %d times of %d)", m, n);
    struct cee_list *d = L(cee_list_mk(w->st, 1)); LV(cee_list_append(d, c->p)); LV(cee_del(d));
    CK(hx_alive(c->id), "a str was released while a list still holds it (taken out %d times of %d, then one more holder deleted)", m, n);
    LV(cee_del(a));
  } else {
    struct cee_list *a = L(cee_list_mk(w->st, n));
    OP("s%d: str #%d in a list %d times and in another one", w->idx, c->nr, n);
    hx_in(); for (int i = 0; i < n; i++) cee_list_append(a, c->p); hx_out();
    LV(cee_del(a));
  }
  CK(hx_alive(c->id), "a str was released while a list still holds it (%d references before)", n);
  verify_obj(w, c);
  c->unc = 1; c->rc = 1;
  wo *lb = reg(w, K_LIST, b);
  lb->pol = RC; push(lb, c, RC);
  COUNT("reference counts beyond 16 bits");
}
/* a state that lives long or holds much: counts beyond 16 bits, each object's fate asked for by name */
static void scale(int kind) {
  struct cee_state *st = L(cee_state_mk(8));
  int n = 65530 + (int)rnd(300);
  OP("scale %d: %d", kind, n);
  if (kind == 0) {        /* many collections */
    struct cee_list *root = L(cee_list_mk(st, 4));
    struct cee_map *m = L(cee_map_mk(st, (cee_cmp_fun)strcmp));
    LV(cee_list_append(root, m));
    LV(cee_state_add_gc_root(st, root));
    hx_id ri = hx_bind(root), mi = hx_bind(m), old = { 0, 0 };
    void *kept = NULL;
    for (int i = 0; i < n; i++) {
      char *g = (char *)L(cee_str_mk(st, "g%d", i));
      hx_id gi = hx_bind(g), ki = { 0, 0 };
      if (i % 1024 == 1 || i > n - 3) {      /* the map's only value changes: the one before becomes garbage */
        char *k = (char *)L(cee_str_mk(st, "k")); kept = L(cee_str_mk(st, "v%d", i)); ki = hx_bind(kept);
        LV(cee_map_add(m, k, kept));
      }
      LV(cee_state_gc(st));
      if (hx_track) {
        CK(!hx_alive(gi), "collection %d leaves an unreachable str", i + 1);
        CK(hx_alive(ri) && hx_alive(mi), "collection %d took a rooted structure", i + 1);
        if (ki.base) { CK(hx_alive(ki), "collection %d took a value of a rooted map", i + 1); if (old.base) CK(!hx_alive(old), "collection %d leaves a replaced value", i + 1); old = ki; }
        else if (old.base) CK(hx_alive(old), "collection %d took a value of a rooted map", i + 1);
      }
    }
    COUNTMAX("collections of one state", n);
    CK(cee_map_find(m, (void *)"k") == kept, "a rooted map lost its value");
  } else {                /* many objects, half of them reachable through kind: list, roots, map */
    struct cee_list *root = L(cee_list_mk(st, 4));
    struct cee_map *m = L(cee_map_mk(st, (cee_cmp_fun)strcmp));
    LV(cee_state_add_gc_root(st, root)); LV(cee_state_add_gc_root(st, m));
    hx_id *id = malloc(2 * n * sizeof *id); void **p = malloc(2 * n * sizeof *p);
    for (int i = 0; i < 2 * n; i++) {
      p[i] = L(cee_str_mk(st, "x%d", i)); id[i] = hx_bind(p[i]);
      if (i % 2) continue;
      if (kind == 1) LV(cee_list_append(root, p[i])); else if (kind == 2) LV(cee_state_add_gc_root(st, p[i])); else LV(cee_map_add(m, p[i], root));
    }
    for (int round = 0; round < 2; round++) {
      LV(cee_state_gc(st));
      if (hx_track) for (int i = 0; i < 2 * n; i++) CK(hx_alive(id[i]) == (i % 2 == 0), "a collection of %d objects %s object %d", 2 * n, i % 2 ? "leaves the unreachable" : "takes the reachable", i);
    }
    if (kind == 2) { for (int i = 0; i < 2 * n; i += 2) if (i % 3) LV(cee_state_remove_gc_root(st, p[i])); LV(cee_state_gc(st)); if (hx_track) for (int i = 0; i < 2 * n; i += 2) CK(hx_alive(id[i]) == (i % 3 == 0), "of %d roots, %d: wrong fate after removing some", n, i); }
    COUNTMAX("objects in a state at its end", 2 * n);
    free(id); free(p);
  }
  LV(cee_del(st));
  if (!hx_warm && hx_track && hx_live_blocks()) { char b[300]; hx_describe_live(0, b, sizeof b); FAIL("%llu blocks are left after the state is deleted: %s", (unsigned long long)hx_live_blocks(), b); }
  if (hx_live_blocks()) hx_forget_all();
  hx->nontrivial = 1;
  COUNT("long-lived or crowded states");
}
static void st_open(ws *w, int idx) {
  memset(w, 0, sizeof *w);
  w->idx = idx;
  int n = 1 + (int)rnd(12);
  w->st = L(cee_state_mk(n));
  w->id = hx_bind(w->st);
  w->stk.kind = K_STACK; w->stk.p = w->st->stack; w->stk.alive = w->stk.immortal = 1; w->stk.pol = RC; w->stk.lim = n;
  w->ctx.kind = K_CTX; w->ctx.p = w->st->contexts; w->ctx.alive = w->ctx.immortal = 1; w->ctx.pol = RC; w->ctx.names = ar_alloc(64 * sizeof(char *));
  OP("s%d: new state (%d)", idx, n);
}
static void st_close(ws *w) {
  OP("s%d: delete the state with %d objects", w->idx, w->n);
  wo *v[MAXO]; int k = 0;
  for (int i = 0; i < w->n; i++) if (w->o[i]->alive) v[k++] = w->o[i];
  LV(cee_del(w->st));
  if (hx_track) {
    CK(!hx_alive(w->id), "deleting a state does not release it");
    for (int i = 0; i < k; i++) CK(!hx_alive(v[i]->id), "deleting a state leaves its %s #%d behind", kname[v[i]->kind], v[i]->nr);
  }
  COUNT("states deleted"); COUNTN("objects released with their state", k);
  COUNTMAX("objects in a state at its end", k);
  w->st = NULL; w->n = 0;
}
/* everything unreachable: what is left is what an empty state has */
static void drain(ws *w, uint64_t base) {
  OP("s%d: drop every root, context and stack entry, and collect", w->idx);
  for (int i = 0; i < w->n; i++) if (w->o[i]->root) { LV(cee_state_remove_gc_root(w->st, w->o[i]->p)); w->o[i]->root = 0; }
  while (w->ctx.n) { LV(cee_state_remove_context(w->st, w->ctx.names[w->ctx.n - 1])); unhold(w->ctx.e[w->ctx.n - 1].c, RC); w->ctx.n--; }
  while (w->stk.n) { LV(cee_stack_pop(w->st->stack)); unhold(w->stk.e[w->stk.n - 1].c, RC); w->stk.n--; }
  do_gc(w);
  CK(w->n == 0, "objects are left in the model");
  if (hx_track && hx_live_blocks() > base) { char b[300]; hx_describe_live(0, b, sizeof b); FAIL("a collection with nothing reachable leaves %lld blocks: %s", (long long)(hx_live_blocks() - base), b); }
  COUNT("collections of everything");
}
static void step(ws *w, const prof *pf) {
  if (w->n > MAXO - 40) { compact(w); if (w->n > MAXO - 60) { if (chance(30)) { st_close(w); st_open(w, w->idx); return; } do_gc(w); if (w->n > MAXO - 60) { st_close(w); st_open(w, w->idx); } return; } }
  int r = (int)rnd(100);
  if (r < pf->pct_del) { for (int i = 0; i < 3; i++) { wo *o = pick(w, ANY); if (o && del_obj(w, o)) break; } return; }
  r -= pf->pct_del;
  if (r < pf->pct_gc) { do_gc(w); return; }
  r -= pf->pct_gc;
  if (r < 3) { bracket(w); return; }
  if (chance(2)) { bad_text(w); return; }
  if (chance(3)) { cycles(w); return; }
  if (r < 8) { pinning(w); return; }
  if (r < 18) { rooting(w); return; }
  if (r < 42) {
    static const int ks[] = { K_LIST, K_LIST, K_MAP, K_MAP, K_SET, K_SET, K_DICT, K_STACK, K_TUPLE, K_TRIPLE, K_QUAD, K_NTUP, K_TAGGED, K_TAGGED, K_ENV, K_CLOS, K_STR, K_STR, K_STR, K_STR };
    mk_obj(w, ks[rnd(20)], pf);
    return;
  }
  wo *o = pick(w, chance(85) ? 1 << K_LIST | 1 << K_MAP | 1 << K_SET | 1 << K_DICT | 1 << K_STACK | 1 << K_TUPLE : 1 << K_STR | 1 << K_BLOCK);
  if (o) edit(w, o);
}
static void world(const prof *pf) {
  if (pf->deep && pf->pct_gc && hx->casenr % 1201 == 29) { scale((int)(hx->casenr / 1201 % 4)); return; }
  ws W[4]; int k = pf->states > 1 ? 2 + (int)rnd(pf->states - 1) : 1;
  uint64_t base = 0;
  for (int i = 0; i < k; i++) st_open(&W[i], i);
  if (k == 1) { LV(cee_state_gc(W[0].st)); base = hx_live_blocks(); }
  int ops = pf->ops / 2 + (int)rnd(pf->ops);
  int cur = 0, bigat = pf->deep && hx->casenr % 97 == 13 ? (int)rnd(ops) : -1;
  for (int i = 0; i < ops; i++) {
    if (i == bigat) big(&W[cur], pf->pct_gc);
    if (chance(30)) cur = (int)rnd(k);
    step(&W[cur], pf);
    if (chance(8)) for (int j = 0; j < k; j++) verify(&W[j]);
    if (pf->deep && chance(1) && chance(10)) deep(&W[cur]);
    if (k > 1 && chance(2)) { st_close(&W[cur]); for (int j = 0; j < k; j++) if (j != cur) verify(&W[j]); st_open(&W[cur], cur); COUNT("states deleted next to living ones"); }
    if (k > 1 && chance(6)) { do_gc(&W[cur]); for (int j = 0; j < k; j++) if (j != cur) verify(&W[j]); COUNT("collections next to other states"); }
  }
  if (pf->deep && hx->casenr % 601 == 11) { many(&W[0]); }
  for (int j = 0; j < k; j++) verify(&W[j]);
  if (k == 1 && pf->pct_gc && chance(50)) {
    drain(&W[0], base);
  }
  int order = (int)rnd(k);
  for (int j = 0; j < k; j++) { st_close(&W[(order + j) % k]); for (int q = j + 1; q < k; q++) verify(&W[(order + q) % k]); }
  if (!hx_warm && hx_track && hx_live_blocks()) { char b[300]; hx_describe_live(0, b, sizeof b); FAIL("%llu blocks are left after every state is deleted: %s", (unsigned long long)hx_live_blocks(), b); }
  if (hx_track && hx_live_blocks()) hx_forget_all();
}
void d_c01(void) { static const prof p = { .states = 2, .ops = 120, .pct_del = 10, .pct_gc = 3, .pct_json = 1, .deep = 1 }; world(&p); }
void d_c02(void) { static const prof p = { .states = 1, .ops = 90, .pct_del = 6, .pct_gc = 2, .pct_json = 1, .deep = 1 }; world(&p); }
void d_c03(void) { static const prof p = { .states = 1, .ops = 140, .pct_del = 22, .pct_gc = 0, .pct_json = 1, .deep = 1 }; world(&p); }
void d_c04(void) { static const prof p = { .states = 1, .ops = 120, .pct_del = 3, .pct_gc = 7, .pct_json = 1, .deep = 1 }; world(&p); }
void d_c05(void) { static const prof p = { .states = 4, .ops = 160, .pct_del = 8, .pct_gc = 4, .pct_json = 1 }; world(&p); }
