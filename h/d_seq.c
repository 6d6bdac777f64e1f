/* C08 lists, C12 stacks, tuples, tagged values, blocks */
#include "hx.h"
#include "cee.h"
#include "drv.h"

/* ---------- C08 */
#define NL 4
struct lm { struct cee_list *l; int pol; size_t n, cap; void **a; };
struct itlog { void *ctx_magic; size_t n; int stop_at, ret; int bad; struct lm *m; };
static void lm_ins(struct lm *m, size_t at, void *e) {
  if (m->n == m->cap) { m->cap = m->cap ? m->cap * 2 : 16; m->a = realloc(m->a, m->cap * sizeof(void *)); }
  memmove(m->a + at + 1, m->a + at, (m->n - at) * sizeof(void *));
  m->a[at] = e; m->n++;
}
static int it_cb(void *c, void *e, int idx) {
  struct itlog *t = c;
  if (t->ctx_magic != (void *)t) t->bad |= 1;
  if ((size_t)idx != t->n) t->bad |= 2;
  if (t->n >= t->m->n) t->bad |= 8;
  else if (t->m->a[t->n] != e) t->bad |= 4;
  t->n++;
  if (idx == t->stop_at) return t->ret;
  return 0;
}
static void lm_check(struct lm *m, int i, const char *what) {
  size_t s = cee_list_size(m->l), c = cee_list_capacity(m->l);
  CK(s == m->n, "list %d has size %zu, expected %zu, after %s", i, s, m->n, what);
  CK(c >= s, "list %d has capacity %zu below its size %zu after %s", i, c, s, what);
  for (size_t k = 0; k < m->n; k++)
    CK(m->l->a[k] == m->a[k], "list %d holds a wrong element at index %zu of %zu after %s", i, k, m->n, what);
  OB(s);
}
void d_c08(void) {
  struct cee_state *st = L(cee_state_mk(8));
  struct lm m[NL]; memset(m, 0, sizeof m);
  enum { NE = 24 };
  void *el[NE];
  for (int i = 0; i < NE; i++) el[i] = chance(50) ? (void *)L(cee_boxed_from_i32(st, i)) : (void *)L(cee_str_mk(st, "e%d", i));
  int big = chance(3), huge = rnd(400) == 0;
  if (huge) big = 1;
  for (int i = 0; i < NL; i++) {
    size_t cap = chance(30) ? 0 : chance(30) ? 1 : chance(4) ? rnd(3000) : rnd(20);
    m[i].pol = chance(50) ? CEE_DP_DEL_RC : CEE_DP_NOOP;
    OP("list %d cap=%zu pol=%d", i, cap, m[i].pol);
    m[i].l = m[i].pol == CEE_DP_DEL_RC && chance(50) ? L(cee_list_mk(st, cap)) : L(cee_list_mk_e(st, m[i].pol, cap));
    lm_check(&m[i], i, "creation");
  }
  int steps = (int)rndr(huge ? 40 : 10, huge ? 60 : big ? 4000 : hx_thorough ? 120 : 70);
  int bias = (int)rnd(3);
  for (int s = 0; s < steps; s++) {
    int i = (int)rnd(NL), op = (int)rnd(16);
    struct lm *x = &m[i];
    void *e = el[rnd(NE)];
    if (x->pol == CEE_DP_NOOP && chance(10)) e = NULL;   /* a no-op list never touches its elements */
    char w[80];
    if (big && op > 10 && chance(huge ? 40 : 95)) op = 1;
    int grow = huge && s < 26 && m[0].n < 66000;     /* a list doubled by merging it into itself */
    if (grow) { i = 0; x = &m[0]; op = x->n < 10 ? 1 : 12; if (x->pol == CEE_DP_DEL_RC && !e) e = el[0]; }
    if (op <= 4 || (bias == 1 && op <= 6)) {
      snprintf(w, sizeof w, "append at size %zu", x->n);
      OP("append %d (size %zu)", i, x->n);
      LV(cee_list_append(x->l, e)); lm_ins(x, x->n, e); COUNT("appends");
    } else if (op <= 8) {
      size_t at = chance(25) ? 0 : chance(25) ? x->n : rnd(x->n + 1);
      snprintf(w, sizeof w, "insert at %zu of %zu", at, x->n);
      OP("insert %d at %zu of %zu", i, at, x->n);
      if (x->n) hx->nontrivial = 1;
      LV(cee_list_insert(x->l, (int)at, e)); lm_ins(x, at, e); COUNT("inserts");
    } else if (op <= 11) {
      if (x->n == 0 || chance(12)) {
        int at = chance(50) ? (int)x->n : chance(40) ? (int)x->n + (int)rnd(40) : chance(50) ? INT_MAX : -1;
        snprintf(w, sizeof w, "refused remove at %d of %zu", at, x->n);
        OP("remove %d at %d of %zu (refused)", i, at, x->n);
        bool r = L(cee_list_remove(x->l, at));
        CK(!r, "cee_list_remove at index %d of a list of %zu succeeded", at, x->n);
        COUNT("refused removals");
      } else {
        size_t at = chance(25) ? 0 : chance(30) ? x->n - 1 : rnd(x->n);
        snprintf(w, sizeof w, "remove at %zu of %zu", at, x->n);
        OP("remove %d at %zu of %zu", i, at, x->n);
        bool r = L(cee_list_remove(x->l, (int)at));
        CK(r, "cee_list_remove at index %zu of %zu failed", at, x->n);
        memmove(x->a + at, x->a + at + 1, (x->n - at - 1) * sizeof(void *)); x->n--;
        hx->nontrivial = 1; COUNT("removals");
      }
    } else if (op <= 13) {
      int j = (int)rnd(NL + 1);
      if (j < NL && m[j].pol == CEE_DP_NOOP && x->pol == CEE_DP_DEL_RC) {
        int nul = 0;
        for (size_t k = 0; k < m[j].n; k++) nul |= !m[j].a[k];
        if (nul) continue;
      }
      if (grow) j = i;
      if (j < NL && m[j].n + x->n > (huge ? 140000 : 6000)) continue;
      snprintf(w, sizeof w, j == NL ? "merge of no list into %d" : j == i ? "merge of list %d into itself" : "merge into list %d", i);
      OP("merge %d <- %d", i, j);
      LV(cee_list_merge(x->l, j == NL ? NULL : m[j].l));
      if (j < NL) { size_t k = m[j].n; for (size_t q = 0; q < k; q++) lm_ins(x, x->n, m[j].a[q]); if (k) hx->nontrivial = 1; }
      COUNT("merges");
    } else {
      struct itlog t = { &t, 0, chance(50) ? -1 : (int)rnd(x->n + 2), chance(50) ? 1 + (int)rnd(1000) : -1 - (int)rnd(1000), 0, x };
      int nul = chance(5);
      snprintf(w, sizeof w, "iteration");
      OP("iterate %d stop=%d ret=%d null=%d", i, t.stop_at, t.ret, nul);
      int r = L(cee_list_iterate(nul ? NULL : x->l, &t, it_cb));
      size_t want = nul ? 0 : t.stop_at >= 0 && (size_t)t.stop_at < x->n ? (size_t)t.stop_at + 1 : x->n;
      int wr = !nul && t.stop_at >= 0 && (size_t)t.stop_at < x->n ? t.ret : 0;
      CK(!t.bad, "iteration over %zu elements passed a wrong %s", x->n, t.bad & 1 ? "context" : t.bad & 2 ? "index" : "element");
      CK(t.n == want, "iteration over %zu elements made %zu calls, expected %zu", x->n, t.n, want);
      CK(r == wr, "iteration over %zu elements returned %d, expected %d", x->n, r, wr);
      COUNT("iterations"); if (wr) COUNT("iterations stopped by the callback");
    }
    if (!big || s % 64 == 0 || s == steps - 1) for (int k = 0; k < NL; k++) lm_check(&m[k], k, w);
    else lm_check(x, i, w);
    if (s % 16 == 0) {
      CK(cee_list_size(NULL) == 0 && cee_list_capacity(NULL) == 0, "a missing list has a size or capacity");
      CK(!cee_list_remove(NULL, 0), "removing from a missing list succeeded");
    }
    COUNTMAX("list size", x->n); if (x->n > 65536) COUNT("steps on lists over 65536");
  }
  for (int i = 0; i < NL; i++) free(m[i].a);
  LV(cee_del(st));
}

/* ---------- C12 */
static void blk_init(void *cxt, void *block) { int *c = cxt; c[0]++; memset(block, c[1], (size_t)c[2]); }
enum { N12 = 12 };
static __thread _Alignas(16) char pool12[N12][(CEE_SINGLETON_SIZE + 15) / 16 * 16];   /* static storage, one slot per singleton */
struct o12 { int kind; void *p; size_t n, cap; void **v; uintptr_t tag; unsigned char *bytes; };
static void o12_check(struct o12 *o, int i) {
  switch (o->kind) {
    case 0: {
      struct cee_stack *s = o->p;
      CK(cee_stack_size(s) == o->n, "stack %d has size %zu, expected %zu", i, (size_t)cee_stack_size(s), o->n);
      CK(cee_stack_empty(s) == (o->n == 0), "stack %d of %zu: wrong emptiness", i, o->n);
      CK(cee_stack_full(s) == (o->n == o->cap), "stack %d of %zu/%zu: wrong fullness", i, o->n, o->cap);
      for (size_t k = 0; k < o->n + 3; k += o->n > 400 ? 1 + rnd(40) : 1)
        CK(cee_stack_top(s, k) == (k < o->n ? o->v[o->n - 1 - k] : NULL), "stack %d of %zu: wrong element %zu from the top", i, o->n, k);
      CK(cee_stack_top(s, SIZE_MAX) == NULL && cee_stack_top(s, (size_t)1 << 40) == NULL, "stack %d: element far beyond its content", i);
      OB(o->n); break;
    }
    case 1: case 2: case 3: case 4: {
      void **a = o->p;
      for (size_t k = 0; k < o->n; k++) CK(a[k] == o->v[k], "%zu-tuple %d: wrong member %zu", o->n, i, k);
      OB(o->n); break;
    }
    case 5: {
      struct cee_tagged *t = o->p;
      CK(t->tag == o->tag && t->ptr._ == o->v[0], "tagged value %d: wrong %s", i, t->tag == o->tag ? "pointer" : "tag");
      OB(t->tag); break;
    }
    case 8: {
      struct cee_singleton *t = o->p;
      CK(t->tag == o->tag && t->val == (uintptr_t)o->v[0], "singleton %d: wrong %s", i, t->tag == o->tag ? "value" : "tag");
      break;
    }
    case 6:
      CK(cee_block_size(o->p) == o->n, "block %d reports size %zu, expected %zu", i, cee_block_size(o->p), o->n);
      if (o->bytes) { CK(!memcmp(o->p, o->bytes, o->n), "block %d of %zu bytes does not hold what was put in", i, o->n); OBS(o->p, o->n); }
      break;
  }
}
static struct cee_n_tuple *ntup(struct cee_state *st, size_t n, void **v) {
#define V(i) v[i]
#define V16 V(0),V(1),V(2),V(3),V(4),V(5),V(6),V(7),V(8),V(9),V(10),V(11),V(12),V(13),V(14),V(15)
  switch (n) {
    case 0: return L(cee_n_tuple_mk(st, 0));
    case 1: return L(cee_n_tuple_mk(st, 1, v[0]));
    case 2: return L(cee_n_tuple_mk(st, 2, v[0], v[1]));
    case 3: return L(cee_n_tuple_mk(st, 3, v[0], v[1], v[2]));
    case 5: return L(cee_n_tuple_mk(st, 5, v[0], v[1], v[2], v[3], v[4]));
    case 7: return L(cee_n_tuple_mk(st, 7, v[0], v[1], v[2], v[3], v[4], v[5], v[6]));
    default: return L(cee_n_tuple_mk(st, n, V16));   /* surplus arguments are ignored; 16 is the most there can be */
  }
}
void d_c12(void) {
  struct cee_state *st = L(cee_state_mk(rnd(6)));
  enum { NE = 20 };
  void *el[NE];
  for (int i = 0; i < NE; i++) el[i] = chance(50) ? (void *)L(cee_boxed_from_u64(st, rnd64())) : (void *)L(cee_str_mk(st, "x%d", i));
  struct o12 o[N12]; memset(o, 0, sizeof o);
  int n = 0;
  enum cee_del_policy rc4[4] = { CEE_DP_DEL_RC, CEE_DP_DEL_RC, CEE_DP_DEL_RC, CEE_DP_DEL_RC },
                      no4[4] = { CEE_DP_NOOP, CEE_DP_NOOP, CEE_DP_NOOP, CEE_DP_NOOP };
  int steps = (int)rndr(10, hx_thorough ? 150 : 80);
  for (int s = 0; s < steps; s++) {
    if (n < N12 && (n < 3 || chance(20))) {
      struct o12 *x = &o[n];
      memset(x, 0, sizeof *x);
      x->v = malloc(64 * sizeof(void *));
      int noop = chance(40);
      enum cee_del_policy mix[4];
      for (int i = 0; i < 4; i++) mix[i] = noop ? (chance(50) ? CEE_DP_NOOP : CEE_DP_DEL_RC) : CEE_DP_DEL_RC;
      for (int i = 0; i < 16; i++) x->v[i] = el[rnd(NE)];
      x->kind = (int)rnd(chance(50) ? 8 : 9);
      switch (x->kind) {
        case 0: case 7:
          x->kind = 0; x->cap = chance(20) ? rnd(2) : chance(5) ? 200 + rnd(chance(20) ? 70000 : 900) : rnd(32); x->n = 0;
          if (x->cap > 64) x->v = realloc(x->v, x->cap * sizeof(void *));
          OP("stack cap=%zu noop=%d", x->cap, noop);
          x->p = noop ? L(cee_stack_mk_e(st, CEE_DP_NOOP, x->cap)) : L(cee_stack_mk(st, x->cap));
          break;
        case 1:
          x->n = 2; OP("tuple noop=%d", noop);
          x->p = chance(50) ? L(cee_tuple_mk_e(st, mix, x->v[0], x->v[1])) : L(cee_tuple_mk(st, x->v[0], x->v[1]));
          break;
        case 2:
          x->n = 3; OP("triple noop=%d", noop);
          x->p = chance(50) ? L(cee_triple_mk_e(st, mix, x->v[0], x->v[1], x->v[2])) : L(cee_triple_mk(st, x->v[0], x->v[1], x->v[2]));
          break;
        case 3:
          x->n = 4; OP("quadruple noop=%d", noop);
          x->p = L(cee_quadruple_mk_e(st, chance(30) ? mix : noop ? no4 : rc4, x->v[0], x->v[1], x->v[2], x->v[3]));
          break;
        case 4:
          x->n = rnd(17); OP("%zu-tuple", x->n);
          x->p = ntup(st, x->n, x->v);
          if (x->n > 4) hx->nontrivial = 1;
          break;
        case 5:
          x->tag = chance(30) ? UINTPTR_MAX : chance(30) ? rnd(4) : (uintptr_t)rnd64();
          if (chance(20)) x->v[0] = NULL;
          OP("tagged tag=%llx noop=%d null=%d", (unsigned long long)x->tag, noop, !x->v[0]);
          x->p = chance(50) ? L(cee_tagged_mk_e(st, noop ? CEE_DP_NOOP : CEE_DP_DEL_RC, x->tag, x->v[0])) : L(cee_tagged_mk(st, x->tag, x->v[0]));
          break;
        case 8: {
          void *q = pool12[n];
          x->tag = chance(30) ? rnd(4) : (uintptr_t)rnd64(); x->v[0] = (void *)(uintptr_t)(chance(40) ? rnd(2) : rnd64());
          OP("singleton tag=%llx", (unsigned long long)x->tag);
          x->p = L(cee_singleton_init(q, x->tag, (uintptr_t)x->v[0]));
          CK(cee_singleton_init(q, x->tag, (uintptr_t)x->v[0]) == x->p, "a singleton made twice is two objects");
          CK((char *)x->p >= pool12[n] && (char *)x->p + sizeof(struct cee_singleton) <= pool12[n] + CEE_SINGLETON_SIZE, "a singleton lies outside its storage");
          COUNT("singletons");
          break;
        }
        case 6: {
          x->n = chance(20) ? rnd(3) : chance(20) ? 64 * rnd(20) + rnd(3) : rnd(chance(1) ? 300000 : chance(10) ? 9000 : 300);
          int how = (int)rnd(3), ctx[3] = { 0, (int)rnd(256), (int)x->n };
          OP("block n=%zu how=%d", x->n, how);
          x->bytes = malloc(x->n + 1);
          if (how == 0) { x->p = L(cee_block_mk(st, x->n)); memset(x->bytes, 0, x->n); }
          else if (how == 1) { x->p = L(cee_block_mk_e(st, x->n, ctx, blk_init)); CK(ctx[0] == 1, "the block initialiser ran %d times", ctx[0]); memset(x->bytes, ctx[1], x->n); }
          else { x->p = L(cee_block_mk_nonzero(st, x->n)); for (size_t k = 0; k < x->n; k++) x->bytes[k] = (unsigned char)rnd(256); memcpy(x->p, x->bytes, x->n); }
          break;
        }
      }
      n++;
    } else {
      int i = (int)rnd(n);
      struct o12 *x = &o[i];
      if (x->kind == 0) {
        int op = (int)rnd(5);
        if (op <= 2) {
          if (x->cap > 100 && chance(40)) {      /* a burst on a large stack */
            size_t b = rnd(chance(50) ? x->cap - x->n + 1 : 300), d = chance(30) ? rnd(x->n + b + 1) : rnd(5);
            OP("burst %d: push %zu, pop %zu (%zu/%zu)", i, b, d, x->n, x->cap);
            while (b-- && x->n < x->cap) { void *e = el[rnd(NE)]; CK(L(cee_stack_push(x->p, e)), "push on a stack of %zu/%zu is refused", x->n, x->cap); x->v[x->n++] = e; }
            if (x->n == x->cap) { CK(!L(cee_stack_push(x->p, el[0])), "push on a full stack of %zu succeeded", x->cap); COUNT("large stacks filled"); }
            while (d-- && x->n) { void *e = L(cee_stack_pop(x->p)); CK(e == x->v[x->n - 1], "pop from a stack of %zu returned a wrong element", x->n); x->n--; }
          }
          if (x->n < x->cap || chance(50)) {
          void *e = el[rnd(NE)];
          OP("push %d (%zu/%zu)", i, x->n, x->cap);
          int r = L(cee_stack_push(x->p, e));
          CK(!!r == (x->n < x->cap), "push on a stack of %zu/%zu returned %d", x->n, x->cap, r);
          if (x->n < x->cap) x->v[x->n++] = e; else { hx->nontrivial = 1; COUNT("refused pushes"); }
          }
        } else {
          OP("pop %d (%zu/%zu)", i, x->n, x->cap);
          void *e = L(cee_stack_pop(x->p));
          CK(e == (x->n ? x->v[x->n - 1] : NULL), "pop from a stack of %zu returned a wrong element", x->n);
          if (x->n) { x->n--; COUNT("pops"); } else { COUNT("pops of an empty stack"); hx->nontrivial = 1; }
        }
      } else if (x->kind == 1 && chance(50)) {
        int k = (int)rnd(2);
        OP("update policy of tuple %d member %d", i, k);
        LV(cee_tuple_update_del_policy(x->p, k, CEE_DP_NOOP));
      } else if (x->kind == 8) {
        OP("delete singleton %d", i);     /* has no effect: nobody owns it */
        if (chance(50)) LV(cee_del(x->p));
        else { struct cee_list *l = L(cee_list_mk(st, 2)); LV(cee_list_append(l, x->p)); LV(cee_list_append(l, x->p)); LV(cee_del(l)); }
      } else if (x->kind == 6) {
        OP("write block %d", i);
        for (size_t k = 0; k < x->n; k++) ((unsigned char *)x->p)[k] = x->bytes[k] = (unsigned char)rnd(256);
      }
    }
    for (int i = 0; i < n; i++) o12_check(&o[i], i);
    COUNT("full verifications");
  }
  for (int i = 0; i < n; i++) { free(o[i].bytes); free(o[i].v); }
  LV(cee_del(st));
}
