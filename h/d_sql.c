/* C25-C28: the SQLite layer next to an ideal table; the database itself is read through plain SQLite. */
#include "ref.h"
#include <ctype.h>
#include "cee-sqlite3.h"
#include <unistd.h>

enum { FOC_ROWS, FOC_WRITES, FOC_ERRORS, FOC_JOINS };
static __thread int focus;
static __thread sqlite3 *lock_db;

/* SQLite's own memory is not the library's */
#define BAR __asm__ volatile("" ::: "memory")      /* malloc is a builtin: keep the stores around it */
static long long sq_used; static void sq_add(long long n) { __atomic_fetch_add(&sq_used, n, __ATOMIC_RELAXED); }      /* sqlite3_memory_used() is off: it would serialise the threads */
#define sqlite3_memory_used() ((sqlite3_int64)__atomic_load_n(&sq_used, __ATOMIC_RELAXED))
static void *m_malloc(int n) { int s = hx_inlib; hx_inlib = 0; BAR; int64_t *p = malloc((size_t)n + 8); BAR; hx_inlib = s; if (!p) return 0; *p = n; sq_add(n); return p + 1; }
static void m_free(void *p) { if (p) { sq_add(-((int64_t *)p)[-1]); free((int64_t *)p - 1); } }
static void *m_realloc(void *p, int n) { int64_t was = ((int64_t *)p)[-1]; int s = hx_inlib; hx_inlib = 0; BAR; int64_t *q = realloc((int64_t *)p - 1, (size_t)n + 8); BAR; hx_inlib = s; if (!q) return 0; *q = n; sq_add(n - was); return q + 1; }
static int m_size(void *p) { return p ? (int)((int64_t *)p)[-1] : 0; }
static int m_roundup(int n) { return (n + 7) & ~7; }
static int m_init(void *a) { return 0; }
static void m_shut(void *a) {}
void sql_setup(void) {
  static int done; if (done) return; done = 1;
  sqlite3_config(SQLITE_CONFIG_MEMSTATUS, 0);
  sqlite3_mem_methods m = { m_malloc, m_free, m_realloc, m_size, m_roundup, m_init, m_shut, 0 };
  if (sqlite3_config(SQLITE_CONFIG_MALLOC, &m) != SQLITE_OK) hx_harness_error("sqlite3_config");
}

/* ---- the ideal table */
#define MAXC 9
#define MAXR 400
struct col { char *name, *var; int ty; int notnull_db, uniq, chk; };     /* ty: enum cee_sqlite3_type */
struct row { jv *v[MAXC]; };
static __thread struct {
  char *name; int nc; struct col c[MAXC];
  int nr; struct row *r[MAXR];
  struct cee_sqlite3_bind_info info[MAXC + 3]; int ni;      /* info[i] belongs to column ic[i] */
  int ic[MAXC]; jv *def[MAXC];
  sqlite3 *db; struct cee_state *st; struct cee_sqlite3 cs;
  char path[300]; int file; char *other;
  int broken;
} T;
static __thread void *tofree[4000]; static __thread int ntofree;
static char *keepx(const void *p, size_t n) { char *q = hx_dup(p, n); if (ntofree < 4000) tofree[ntofree++] = q; return q; }
static char *keepz(const char *s) { return keepx(s, strlen(s) + 1); }

static jv *v_blob(const char *p, size_t n) { jv *v = jv_s(p, n); v->t = JBLOB; return v; }
static jv *gen_val(int ty) {
  switch (ty) {
    case CEE_SQLITE3_INT: switch (rnd(8)) { case 0: return jv_i(INT_MAX); case 1: return jv_i(INT_MIN); case 2: return jv_i((int)rnd64()); case 3: return jv_i(-1); default: return jv_i(rnd(6)); }
    case CEE_SQLITE3_INT64: switch (rnd(8)) { case 0: return jv_i(INT64_MAX); case 1: return jv_i(INT64_MIN); case 2: return jv_i((int64_t)rnd64()); case 3: return jv_i(4294967296ll + rndr(-3, 3)); case 4: return jv_i(9007199254740993ll); default: return jv_i(rnd(6)); }
    case CEE_SQLITE3_TEXT: {
      static const char *t[] = { "", "a", "b", "c", "x'y", "'; drop table other; --", "');delete from other;--", "%s%n%d%%", "@a", ":a", "\"q\"", "null", "NULL", "1 or 1=1", "0", "12", "?", "a\tb\n", "\\", "\xc3\xa9\xe2\x82\xac" };
      if (chance(75)) { const char *s = t[rnd(chance(50) ? 4 : sizeof t / sizeof *t)]; return jv_s(s, strlen(s)); }
      if (chance(15)) { size_t n = rnd(chance(2) ? 150000 : hx_thorough ? 20000 : 3000); char *p = ar_alloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = "ab'%;\" "[rnd(7)]; p[n] = 0; return jv_s(p, n); }
      size_t n; char *p = gen_text(&n, 30); return jv_s(p, strlen(p)); }
    default: { size_t n = chance(20) ? 0 : rnd(chance(1) ? 150000 : chance(10) ? 2000 : 30); char *p = ar_alloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = (char)rnd64(); return v_blob(p, n); }
  }
}
static int v_same(const jv *a, const jv *b) {          /* SQL equality of stored values (never of NULL) */
  if (a->t == JN || b->t == JN || a->t != b->t) return 0;
  if (a->t == JI) return a->i == b->i;
  if (a->t == JD) return a->d == b->d;
  return a->n == b->n && !memcmp(a->s, b->s, a->n);
}
static int chk_ok(const struct col *c, const jv *v) {
  if (v->t == JN) return !c->notnull_db;
  if (!c->chk) return 1;
  return v->t == JI ? v->i != 4 : !(v->t == JS && v->n == 1 && v->s[0] == 'c');
}
/* may row r be stored?  skip: the row it replaces */
static int row_ok(const struct row *r, const struct row *skip) {
  for (int c = 0; c < T.nc; c++) {
    if (!chk_ok(&T.c[c], r->v[c])) return 0;
    if (T.c[c].uniq) for (int i = 0; i < T.nr; i++) if (T.r[i] != skip && v_same(T.r[i]->v[c], r->v[c])) return 0;
  }
  return 1;
}
static __thread int audit; static __thread long aud_i, aud_u, aud_d;      /* what the triggers of the table must have seen */
static int64_t max_id(void) { int64_t m = 0; for (int i = 0; i < T.nr; i++) if (i == 0 || T.r[i]->v[0]->i > m) m = T.r[i]->v[0]->i; return m; }
static void row_put(struct row *r) {
  int i = T.nr++;
  while (i > 0 && T.r[i - 1]->v[0]->i > r->v[0]->i) { T.r[i] = T.r[i - 1]; i--; }
  T.r[i] = r;
  aud_i++;
}
static struct row *row_new(void) { struct row *r = ar_alloc(sizeof *r); for (int c = 0; c < MAXC; c++) r->v[c] = jv_new(JN); return r; }

/* ---- plain SQLite */
static void raw(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); char *q = sqlite3_vmprintf(fmt, ap); va_end(ap);
  char *e = 0; if (sqlite3_exec(T.db, q, 0, 0, &e) != SQLITE_OK) hx_harness_error("%s: %s", q, e ? e : "?");
  sqlite3_free(q);
}
static jv *col_val(sqlite3_stmt *s, int c) {
  switch (sqlite3_column_type(s, c)) {
    case SQLITE_INTEGER: return jv_i(sqlite3_column_int64(s, c));
    case SQLITE_FLOAT: return jv_d(sqlite3_column_double(s, c));
    case SQLITE_TEXT: { const char *p = (const char *)sqlite3_column_text(s, c); return jv_s(p, sqlite3_column_bytes(s, c)); }
    case SQLITE_BLOB: { int n = sqlite3_column_bytes(s, c); const void *p = sqlite3_column_blob(s, c); return v_blob(n ? p : "", n); }
    default: return jv_new(JN);
  }
}
static void verify_db(const char *after) {
  sqlite3_stmt *s = sqlite3_next_stmt(T.db, NULL);
  CK(!s, "%s leaves a statement open: %s", after, sqlite3_sql(s));
  char q[4000]; int n = snprintf(q, sizeof q, "select id");
  for (int c = 1; c < T.nc; c++) n += snprintf(q + n, sizeof q - n, ",%s", T.c[c].name);
  snprintf(q + n, sizeof q - n, " from %s order by id", T.name);
  int rc = sqlite3_prepare_v2(T.db, q, -1, &s, 0);
  CK(rc == SQLITE_OK, "after %s the table cannot be read: %s", after, sqlite3_errmsg(T.db));
  int i = 0;
  while ((rc = sqlite3_step(s)) == SQLITE_ROW) {
    CK(i < T.nr, "after %s the table has more than the expected %d rows", after, T.nr);
    for (int c = 0; c < T.nc; c++) {
      jv *g = col_val(s, c);
      CK(jv_eq(g, T.r[i]->v[c], 0), "after %s row %lld column %s holds %s, expected %s", after, (long long)T.r[i]->v[0]->i, T.c[c].name, jv_show(g), jv_show(T.r[i]->v[c]));
    }
    i++;
  }
  CK(rc == SQLITE_DONE, "after %s the table cannot be read to its end: %s", after, sqlite3_errmsg(T.db));
  sqlite3_finalize(s);
  CK(i == T.nr, "after %s the table has %d rows, expected %d", after, i, T.nr);
  /* the other table */
  rc = sqlite3_prepare_v2(T.db, "select group_concat(x||'='||y,';') from other", -1, &s, 0);
  CK(rc == SQLITE_OK && sqlite3_step(s) == SQLITE_ROW, "after %s the other table is gone", after);
  CK(sqlite3_column_text(s, 0) && !strcmp((char *)sqlite3_column_text(s, 0), T.other), "after %s another table changed", after);
  sqlite3_finalize(s);
  if (audit) {      /* every change was made exactly once, and no other was made and undone */
    static const char kk[] = "iud"; long ex[3] = { aud_i, aud_u, aud_d };
    rc = sqlite3_prepare_v2(T.db, "select count(*) from audit where k=?", -1, &s, 0);
    CK(rc == SQLITE_OK, "after %s the audit table is gone", after);
    for (int i = 0; i < 3; i++) {
      sqlite3_bind_text(s, 1, kk + i, 1, SQLITE_STATIC);
      CK(sqlite3_step(s) == SQLITE_ROW, "after %s the audit table cannot be read", after);
      long got = (long)sqlite3_column_int64(s, 0);
      sqlite3_reset(s);
      CK(got == ex[i], "after %s the table has seen %ld %s, expected %ld", after, got, i == 0 ? "insertions" : i == 1 ? "updates" : "deletions", ex[i]);
    }
    sqlite3_finalize(s); COUNT("audited comparisons");
  }
  COUNT("full table comparisons");
}

/* functions and handlers used to inject failures */
static __thread int boom_at, boom_calls, boom_fired;
static void boom(sqlite3_context *c, int n, sqlite3_value **v) { boom_calls++; if (boom_at && boom_calls >= boom_at) { boom_fired = 1; sqlite3_result_error(c, "boom", -1); } else sqlite3_result_int(c, 1); }
static int prog_stop(void *p) { return 1; }

enum { FT_NONE, FT_SYNTAX, FT_TABLE, FT_COLUMN, FT_UNBOUND, FT_BOOM, FT_STMT_LAST = FT_BOOM, FT_TRIGGER, FT_QUERYONLY, FT_INTERRUPT, FT_LOCK, FT_EMPTYSTR, FT_RESERVED };
static const char *missing(void) { static const char *const m[] = { "@missing", ":missing", "$missing", "?", "?40", "@missing", "@missing2" }; int i = (int)rnd(7); if (i > 2 && i < 5) COUNT("parameters without a name"); return m[i]; }
static const char *fname[] = { "none", "syntax", "table", "column", "unbound", "boom", "trigger", "queryonly", "interrupt", "lock", "empty", "reserved" };

static void open_table(void) {
  static const char *pool[] = { "a", "ab", "abc", "name", "name2", "val", "x", "order_no", "Key", "i", "val_2", "col_with_a_rather_long_name_0123456789_0123456789", "col_with_a_rather_long_name_0123456789_0123456788", "twin_column_nr_1a", "twin_column_nr_1b", "a_column_whose_name_goes_on_and_on_and_on_until_it_has_well_over_sixty_four_letters_x", "a_column_whose_name_goes_on_and_on_and_on_until_it_has_well_over_sixty_four_letters_y", "a_column_whose_name_goes_on_and_on_and_on_until_it_has_well_over_sixty_four_letters_", "gr\xc3\xb6\xc3\x9f" "e_x", "col$1" };
  static const char *tn[] = { "t", "t_1", "items", "Some_Table" };
  if (T.db) {        /* an abandoned case */
    sqlite3_stmt *x; while ((x = sqlite3_next_stmt(T.db, NULL))) sqlite3_finalize(x);
    sqlite3_close(T.db); if (lock_db) sqlite3_close(lock_db); lock_db = 0;
  }
  memset(&T, 0, sizeof T); ntofree = 0;
  sql_setup();
  T.name = (char *)tn[rnd(4)];
  T.nc = (int)rndr(2, MAXC - 1);
  int used[20] = { 0 };
  for (int c = 0; c < T.nc; c++) {
    struct col *k = &T.c[c];
    if (c == 0) { k->name = "id"; k->ty = chance(70) ? CEE_SQLITE3_INT64 : CEE_SQLITE3_INT; k->uniq = 1; }
    else {
      int p; do p = (int)rnd(20); while (used[p] || (p >= 11 && chance(50)));
      if (c > 1) for (int q = 11; q < 18; q++) if (used[q] && chance(50)) { int t = q == 11 ? 12 : q == 12 ? 11 : q == 13 ? 14 : q == 14 ? 13 : q == 15 ? 16 : q == 16 ? 17 : 15; if (!used[t]) { p = t; COUNT("columns named alike"); } }
      used[p] = 1;
      k->name = (char *)pool[p];
      k->ty = (int)rndr(CEE_SQLITE3_TEXT, CEE_SQLITE3_BLOB);
      if (chance(12)) k->notnull_db = 1;
      if (chance(12) && k->ty != CEE_SQLITE3_BLOB) k->uniq = 1;
      if (chance(12) && k->ty != CEE_SQLITE3_BLOB) k->chk = 1;
    }
    char b[200]; snprintf(b, sizeof b, "%c%s%s", "@:$"[rnd(3)], chance(20) ? "p_" : "", k->name); k->var = ar_str(b, strlen(b));
  }
  char q[6000]; int n = 0;
  n += snprintf(q, sizeof q, "create table %s(id integer primary key", T.name);
  for (int c = 1; c < T.nc; c++) {
    struct col *k = &T.c[c];
    n += snprintf(q + n, sizeof q - n, ",%s %s%s%s", k->name, k->ty == CEE_SQLITE3_TEXT ? "text" : k->ty == CEE_SQLITE3_BLOB ? "blob" : "integer", k->notnull_db ? " not null" : "", k->uniq ? " unique" : "");
    if (k->chk) n += snprintf(q + n, sizeof q - n, " check(%s<>%s)", k->name, k->ty == CEE_SQLITE3_TEXT ? "'c'" : "4");
  }
  snprintf(q + n, sizeof q - n, "); create table other(x integer, y text); insert into other values(1,'one'),(2,'two'),(3,'it''s');");
  OP("%s", q);
  T.file = chance(focus == FOC_ERRORS ? 25 : 4);
  if (T.file) { hx_tmpdir(T.path, sizeof T.path - 60); sprintf(T.path + strlen(T.path), "/db%llx", (unsigned long long)(uintptr_t)&T); unlink(T.path); char j[320]; snprintf(j, sizeof j, "%s-journal", T.path); unlink(j); }
  else strcpy(T.path, ":memory:");
  int sep = chance(30);
  if (sep) { LV(cee_sqlite3_init_db(&T.db, T.path, NULL, chance(50))); LV(cee_sqlite3_init_db(&T.db, T.path, q, chance(50))); }
  else LV(cee_sqlite3_init_db(&T.db, T.path, q, chance(50)));
  CK(T.db, "the database cannot be created");
  if (T.file) raw("pragma synchronous=off");
  T.other = "1=one;2=two;3=it's";
  sqlite3_create_function(T.db, "boom", 1, SQLITE_UTF8, 0, boom, 0, 0);
  T.st = L(cee_state_mk(10));
  const char *nm = chance(90) ? T.name : "a database with a name that is longer than the sixty-four bytes there are for it", *pt = chance(90) ? T.path : "/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path/a/very/long/path";
  LV(cee_sqlite3_init(&T.cs, (char *)nm, (char *)pt, T.st, T.db));
  CK(T.cs.db == T.db && T.cs.state == T.st && !strncmp(T.cs.db_name, nm, sizeof T.cs.db_name - 1) && strlen(T.cs.db_name) < sizeof T.cs.db_name && !strncmp(T.cs.db_path, pt, sizeof T.cs.db_path - 1), "the database record has the name '%.64s' and the path '%.128s'", T.cs.db_name, T.cs.db_path);
  /* binding info in any order */
  for (int i = 0; i < T.nc; i++) T.ic[i] = i;
  for (int i = T.nc - 1; i > 0; i--) { int j = (int)rnd(i + 1), x = T.ic[i]; T.ic[i] = T.ic[j]; T.ic[j] = x; }
  T.ni = T.nc;
  for (int i = 0; i < T.ni; i++) {
    struct cee_sqlite3_bind_info *b = &T.info[i]; struct col *k = &T.c[T.ic[i]];
    memset(b, 0, sizeof *b);
    b->index = i; b->var_name = k->var; b->col_name = k->name; b->type = k->ty;
    if (T.ic[i] && chance(25)) b->not_null = 1;
    if (chance(10)) b->no_update = 1;
    if (T.ic[i] && chance(10)) b->no_return = 1;
    if (!b->no_return && chance(15)) b->no_label = 1;
    OP("info %s %s ty=%d nn=%d nu=%d nr=%d nl=%d", b->var_name, b->col_name, b->type, b->not_null, b->no_update, b->no_return, b->no_label);
  }
}
/* ---- bound values */
static void put_data(struct cee_sqlite3_bind_data *d, int ty, jv *v) {
  memset(d, 0, sizeof *d);
  d->index = (int)rnd64(); d->i = (int)rnd64(); d->i64 = (int64_t)rnd64();
  d->has_value = 1;
  if (v->t == JN) { d->is_null = 1; return; }
  switch (ty) {
    case CEE_SQLITE3_INT: d->i = (int)v->i; d->size = rnd(9); break;
    case CEE_SQLITE3_INT64: d->i64 = v->i; d->size = rnd(9); break;
    case CEE_SQLITE3_TEXT:
      if (v->n && chance(50)) { d->value = keepx(v->s, v->n); d->size = v->n; COUNT("texts without a terminator"); }
      else { d->value = keepz(v->s); d->size = chance(50) ? 0 : v->n; }
      break;
    default: d->value = keepx(v->s, v->n); d->size = v->n; break;
  }
}
static void set_defaults(void) {
  for (int i = 0; i < T.ni; i++) {
    T.def[i] = NULL; memset(&T.info[i].data, 0, sizeof T.info[i].data);
    if (T.ic[i] && chance(15)) { T.def[i] = chance(15) && !T.info[i].not_null ? jv_new(JN) : gen_val(T.info[i].type); put_data(&T.info[i].data, T.info[i].type, T.def[i]); OP("default %s=%s", T.info[i].col_name, jv_show(T.def[i])); }
  }
}
static jv *dflt(int ty) { return ty == CEE_SQLITE3_TEXT ? jv_s("", 0) : ty == CEE_SQLITE3_BLOB ? v_blob("", 0) : jv_i(0); }
/* what is bound for info i */
static jv *resolve(int i, jv **given, int insert) {
  if (given && given[i]) return given[i];
  if (T.def[i]) return T.def[i];
  if (insert && T.info[i].not_null) { COUNT("mandatory columns defaulted"); return dflt(T.info[i].type); }
  return jv_new(JN);
}
static int info_of(int c) { for (int i = 0; i < T.ni; i++) if (T.ic[i] == c) return i; return -1; }
static jv *pick_existing(int c) { if (T.nr && chance(65)) { jv *v = T.r[rnd(T.nr)]->v[c]; int ty = T.c[c].ty;
    if (v->t == JN || (ty == CEE_SQLITE3_INT && v->t == JI && v->i >= INT_MIN && v->i <= INT_MAX) || (ty == CEE_SQLITE3_INT64 && v->t == JI) || (ty == CEE_SQLITE3_TEXT && v->t == JS) || (ty == CEE_SQLITE3_BLOB && v->t == JBLOB)) return v; }
  return NULL; }
static jv *gen_cell(int c) {
  jv *v;
  if (c == 0) { if ((v = pick_existing(0)) && chance(45)) return v; return jv_i(chance(90) ? rndr(1, 60) : T.c[0].ty == CEE_SQLITE3_INT ? rndr(-9, 1000000) : rndr(-9, 1000000000000ll)); }
  if (chance(25) && (v = pick_existing(c))) return v;
  return gen_val(T.c[c].ty);
}
/* given[i] for each info (NULL: no value), and the data array */
static struct cee_sqlite3_bind_data *gen_data(jv **given, int pct) {
  struct cee_sqlite3_bind_data *d = ar_alloc(sizeof *d * (MAXC + 1));
  memset(d, 0, sizeof *d * (MAXC + 1));
  for (int i = 0; i < T.ni; i++) {
    given[i] = NULL;
    if (!chance(pct)) { d[i].i = (int)rnd64(); continue; }
    given[i] = chance(10) && !T.info[i].not_null ? jv_new(JN) : gen_cell(T.ic[i]);
    if (given[i]->t == JN && T.info[i].not_null) given[i] = gen_val(T.info[i].type);
    put_data(&d[i], T.info[i].type, given[i]);
    OP("  %s=%s", T.info[i].col_name, jv_show(given[i]));
  }
  return d;
}

/* ---- conditions and statements */
struct cond { int c; int mod, rem; int boom; };
static struct cond gen_cond(void) {
  struct cond k = { -1, 0, 0, 0 };
  if (chance(85)) k.c = chance(45) ? 0 : (int)rnd(T.nc);
  if (chance(k.c < 0 ? 60 : 15)) { k.mod = (int)rndr(2, 4); k.rem = (int)rnd(k.mod); }
  return k;
}
static int matches(const struct cond *k, const struct row *r, jv *bound) {
  if (k->c >= 0 && !v_same(r->v[k->c], bound)) return 0;
  if (k->mod && ((r->v[0]->i % k->mod) + k->mod) % k->mod != k->rem) return 0;
  return 1;
}
static char *A(const char *fmt, ...) { char b[24000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return ar_str(b, strlen(b)); }
static char *where(const struct cond *k, int fault) {
  char *w = "";
  if (k->c >= 0) w = A(" where %s=%s", T.c[k->c].name, T.c[k->c].var);
  if (k->mod) w = A("%s %s ((id %% %d) + %d) %% %d = %d", w, *w ? "and" : "where", k->mod, k->mod, k->mod, k->rem);
  if (fault == FT_UNBOUND) w = A("%s %s %s is null", w, *w ? "and" : "where", missing());
  if (fault == FT_BOOM) w = A("%s %s boom(id)", w, *w ? "and" : "where");
  if (fault == FT_COLUMN) w = A("%s %s no_such_column = 1", w, *w ? "and" : "where");
  if (fault == FT_SYNTAX) w = A("%s )%s", w, chance(50) ? "" : " where");
  return w;
}
static char *cased(char *s) {       /* leading blanks and any case must not matter */
  char *r = A("%s%s", chance(25) ? "  \n\t" : "", s);
  if (chance(25)) for (char *p = r; *p && *p != '('; p++) { if (*p == ' ' && p > r + 6) break; if (*p >= 'a' && *p <= 'z') *p -= 32; }
  return r;
}
static char *esc(const char *s) { char *r = ar_alloc(2 * strlen(s) + 1), *q = r; for (; *s; s++) { *q++ = *s; if (*s == '%') *q++ = '%'; } return r; }
static char *tbl(int fault) { return fault == FT_TABLE ? "no_such_table" : T.name; }
static char *mk_select(const char *cols, const struct cond *k, int fault, int order) {
  return cased(A("select %s from %s%s%s", cols, tbl(fault), where(k, fault), order == 1 ? " order by id" : order == 2 ? " order by id desc" : ""));
}
static char *mk_insert(const int *cols, int n, int fault) {
  char *a = "", *b = "";
  for (int j = 0; j < n; j++) {
    a = A("%s%s%s", a, j ? "," : "", T.c[cols[j]].name);
    b = A("%s%s%s%s%s", b, j ? ", " : "", fault == FT_UNBOUND && j == n - 1 ? A("coalesce(%s,", missing()) : "", T.c[cols[j]].var, fault == FT_UNBOUND && j == n - 1 ? ")" : "");
  }
  return cased(A("insert into %s (%s%s) values (%s)%s", tbl(fault), a, fault == FT_COLUMN ? ",no_such_column" : "", b, fault == FT_SYNTAX ? " )" : chance(50) ? ";" : ""));
}
static char *mk_set(const int *cols, int n) { char *a = ""; for (int j = 0; j < n; j++) a = A("%s%s%s=%s", a, j ? "," : "", T.c[cols[j]].name, T.c[cols[j]].var); return a; }

/* a subset of the columns, in any order */
static int gen_cols(int *cols, int pct, int with_id) {
  int n = 0; for (int c = with_id ? 0 : 1; c < T.nc; c++) if (chance(pct)) cols[n++] = c;
  for (int i = n - 1; i > 0; i--) { int j = (int)rnd(i + 1), x = cols[i]; cols[i] = cols[j]; cols[j] = x; }
  return n;
}

/* ---- status documents */
enum { S_NONE, S_NULL, S_OBJ, S_ARR };
static __thread jv *kept;          /* what the caller's document held before */
static __thread struct cee_json *sdoc; static struct cee_json **mk_status(int mode) {
  kept = NULL; sdoc = NULL;
  if (mode == S_NONE) return NULL;
  if (mode == S_OBJ) { kept = jv_new(JO); jv_set(kept, "keep1", jv_i(7)); jv_set(kept, "keep2", jv_s("kept", 4)); sdoc = real_build(T.st, kept); }
  if (mode == S_ARR) { kept = jv_new(JA); jv_push(kept, jv_i(7)); jv_push(kept, jv_s("kept", 4)); sdoc = real_build(T.st, kept); }
  return &sdoc;
}
static int gen_smode(void) { return (int)rndr(chance(25) ? S_NONE : S_NULL, S_OBJ); }
static void want(const char *what, const char *k, jv *v) {
  struct cee_json *g = sdoc && cee_json_to_object(sdoc) ? cee_json_object_get(sdoc, (char *)k) : NULL;
  CK(g, "%s: the result has no .%s", what, k);
  char *d = real_diff(g, v, JEQ_ANYORDER);
  CK(!d, "%s: .%s of the result: %s", what, k, d);
}
static void want_not(const char *what, const char *k) {
  struct cee_json *g = sdoc && cee_json_to_object(sdoc) ? cee_json_object_get(sdoc, (char *)k) : NULL;
  CK(!g, "%s: the result has an unexpected .%s", what, k);
}
static void want_kept(const char *what) { if (kept && kept->t == JO) for (size_t i = 0; i < kept->c; i++) want(what, kept->k[i], kept->e[i]); }
static void success(const char *what, int rc) {
  CK(rc == SQLITE_DONE, "%s returns %d (%s)", what, rc, sqlite3_errmsg(T.db));
  want_not(what, "error"); want_kept(what);
  OB(rc); if (sdoc) real_observe(sdoc);
}
static void failure(const char *what, int rc, struct cee_json **sp) {
  CK(rc != SQLITE_DONE && rc != SQLITE_ROW && rc != SQLITE_OK, "%s failed but returns %d", what, rc);
  if (sp) {
    struct cee_json *e = *sp && cee_json_to_object(*sp) ? cee_json_object_get(*sp, "error") : NULL;
    CK(e && e->t != CEE_JSON_NULL && !cee_json_empty(e), "%s failed but its result does not say so", what);
    struct cee_str *s = cee_json_to_str(e); if (s) CK(strlen((char *)s) > 0, "%s: the error is empty", what);
  }
  OB(rc); COUNT("failures reported");
}

/* ---- faults */
static void fault_on(int f) {
  boom_at = boom_calls = boom_fired = 0;
  switch (f) {
    case FT_BOOM: boom_at = (int)rndr(1, 4); break;
    case FT_TRIGGER: for (int i = 0; i < 3; i++) { static const char *w[] = { "insert", "update", "delete" }; raw("create temp trigger tr%d before %s on %s begin select raise(abort,'refused'); end", i, w[i], T.name); } break;
    case FT_QUERYONLY: raw("pragma query_only=1"); break;
    case FT_INTERRUPT: sqlite3_progress_handler(T.db, 1, prog_stop, 0); break;
    case FT_RESERVED: if (sqlite3_open(T.path, &lock_db) != SQLITE_OK || sqlite3_exec(lock_db, "begin immediate", 0, 0, 0) != SQLITE_OK) hx_harness_error("lock"); break;
    case FT_LOCK: if (sqlite3_open(T.path, &lock_db) != SQLITE_OK || sqlite3_exec(lock_db, "begin exclusive", 0, 0, 0) != SQLITE_OK) hx_harness_error("lock"); break;
  }
}
static void fault_off(int f) {
  switch (f) {
    case FT_TRIGGER: for (int i = 0; i < 3; i++) raw("drop trigger temp.tr%d", i); break;
    case FT_QUERYONLY: raw("pragma query_only=0"); break;
    case FT_INTERRUPT: sqlite3_progress_handler(T.db, 0, 0, 0); break;
    case FT_RESERVED: case FT_LOCK: sqlite3_exec(lock_db, "rollback", 0, 0, 0); sqlite3_close(lock_db); lock_db = 0; break;
  }
  boom_at = 0;
}
static int gen_fault(int writes) {
  if (!chance(focus == FOC_ERRORS ? 55 : 6)) return FT_NONE;
  int f = (int)rndr(FT_SYNTAX, FT_LOCK);
  if (f == FT_LOCK && (!T.file || !sqlite3_get_autocommit(T.db))) f = FT_BOOM;
  if (f == FT_INTERRUPT && !sqlite3_get_autocommit(T.db)) f = FT_TABLE;       /* it would roll the caller's transaction back */
  if ((f == FT_TRIGGER || (f == FT_QUERYONLY || f == FT_RESERVED)) && !writes) f = FT_UNBOUND;
  if (f == FT_LOCK && writes && chance(60)) f = FT_RESERVED;       /* another connection is about to write: reading works, writing does not */
  OP("fault %s", fname[f]);
  switch (f) { case FT_SYNTAX: COUNT("faults: malformed statement"); break; case FT_TABLE: case FT_COLUMN: COUNT("faults: unknown name"); break; case FT_UNBOUND: COUNT("faults: unbound parameter"); break;
    case FT_BOOM: COUNT("faults: failure at a row"); break; case FT_TRIGGER: COUNT("faults: refused by a trigger"); break; case FT_QUERYONLY: COUNT("faults: read-only"); break; case FT_INTERRUPT: COUNT("faults: interrupted"); break; case FT_LOCK: COUNT("faults: locked"); break; case FT_RESERVED: COUNT("faults: writes locked"); break; }
  return f;
}
static int sf(int f) { return f <= FT_STMT_LAST ? f : FT_NONE; }               /* faults that are in the text of a statement */
static int f_fatal(int f) { return (f >= FT_SYNTAX && f <= FT_UNBOUND) || f == FT_INTERRUPT || f == FT_LOCK; }   /* always fails */

/* the model of an insert: 1 stored (row in *out), 0 refused */
static int model_insert(jv **vals /* by column, NULL = not listed */, struct row **out) {
  struct row *r = row_new();
  for (int c = 0; c < T.nc; c++) if (vals[c]) r->v[c] = vals[c];
  if (r->v[0]->t == JN) r->v[0] = jv_i(T.nr ? max_id() + 1 : 1);
  if (!row_ok(r, NULL) || T.nr >= MAXR - 1) return 0;
  *out = r; return 1;
}
static int full(void) { return T.nr >= 60; }
static void trim_table(void) { if (full()) { raw("delete from %s where id > (select id from %s order by id limit 1 offset 20)", T.name, T.name); aud_d += T.nr - 21; T.nr = 21; } }

/* ---- operations */
static void op_insert_bind(void) {
  jv *given[MAXC], *vals[MAXC] = { 0 }; int cols[MAXC];
  struct cee_sqlite3_bind_data *d = gen_data(given, 70);
  int n = gen_cols(cols, 75, chance(40)); if (!n) cols[n++] = T.nc - 1;
  int nodata = chance(8); if (nodata) for (int i = 0; i < T.ni; i++) given[i] = NULL;
  int f = gen_fault(1);
  if (f == FT_BOOM) f = FT_TRIGGER;
  char *sql = mk_insert(cols, n, sf(f));
  int mode = gen_smode(), idp = chance(40), id = -77;
  char *key = chance(40) ? "row" : NULL;
  for (int j = 0; j < n; j++) vals[cols[j]] = resolve(info_of(cols[j]), given, 1);
  OP("insert %s status=%d key=%s", sql, mode, key ? key : "-");
  struct cee_json **sp = mk_status(mode);
  fault_on(f);
  int rc = L(cee_sqlite3_insert(&T.cs, T.info, nodata ? NULL : d, sql, sp, key, idp ? &id : NULL));
  fault_off(f);
  struct row *r = NULL;
  int ok = !f_fatal(f) && f != FT_TRIGGER && f != FT_QUERYONLY && f != FT_RESERVED && model_insert(vals, &r);
  if (ok) {
    row_put(r); success("insert", rc);
    if (sp) want("insert", key ? key : "last_insert_rowid", r->v[0]);
    if (idp) { CK(id == (int)r->v[0]->i, "insert reports row %d, expected %lld", id, (long long)r->v[0]->i); if (!sp) COUNT("row ids without a status"); }
    COUNT("rows inserted");
  } else { failure("insert", rc, sp); if (f == FT_NONE) COUNT("constraint violations"); }
}
/* a JSON document for the columns; given[i]: the value a column gets (or NULL), *bad: holds an unusable value */
static jv *gen_doc(jv **given, int pct, int *bad, jv **used, jv **unused, int allow_bad) {
  jv *doc = jv_new(JO); *bad = 0; *used = jv_new(JA); *unused = jv_new(JA);
  int order[MAXC]; for (int i = 0; i < T.ni; i++) order[i] = i;
  for (int i = T.ni - 1; i > 0; i--) { int j = (int)rnd(i + 1), x = order[i]; order[i] = order[j]; order[j] = x; }
  int badat = allow_bad && chance(focus == FOC_ERRORS ? 20 : 3) ? (int)rnd(T.ni) : -1;
  for (int o = 0; o < T.ni; o++) {
    int i = order[o]; given[i] = NULL;
    if (!chance(pct)) continue;
    int ty = T.info[i].type; jv *v;
    if (i == badat) {
      switch (rnd(6)) { case 0: v = jv_b((int)rnd(2)); break; case 1: v = jv_d(1.5); break; case 2: v = jv_new(chance(50) ? JA : JO); break; case 3: v = jv_u(1ull << 63); break;
        case 4: v = ty == CEE_SQLITE3_TEXT ? jv_i(5) : jv_s("5", 1); break; default: v = ty == CEE_SQLITE3_INT ? jv_i(4294967296ll) : ty == CEE_SQLITE3_TEXT ? jv_i(0) : jv_s("", 0); }
      *bad = 1;
    } else if (chance(12)) { v = jv_new(JN); if (!T.info[i].not_null) { given[i] = v; jv_push(*used, jv_s(T.info[i].col_name, strlen(T.info[i].col_name))); } }
    else if (ty == CEE_SQLITE3_BLOB) continue;
    else { v = gen_cell(T.ic[i]); if (v->t == JN && T.info[i].not_null) {} else { given[i] = v; jv_push(*used, jv_s(T.info[i].col_name, strlen(T.info[i].col_name))); } }
    jv_set(doc, T.info[i].col_name, v);
  }
  for (int x = (int)rnd(3); x > 0; x--) { char *k = A("unknown%d", (int)rnd(5));
    if (chance(40)) {      /* nearly the name of a column */
      char *n = T.c[rnd(T.nc)].name; int how = (int)rnd(3), is = 0;
      k = how == 0 ? A("%s", n) : how == 1 ? A("%.*s", (int)strlen(n) - 1, n) : A("%sx", n); if (!how) { size_t at = rnd(strlen(k)); if (k[at] != '_') k[at] = isupper((unsigned char)k[at]) ? tolower(k[at]) : toupper(k[at]); }
      for (int c = 0; c < T.nc; c++) is |= !strcmp(T.c[c].name, k);
      if (is || !*k) continue;
      COUNT("members nearly named like a column");
    }
    else if (chance(15)) { static const char *const odd[] = { "100%", "%s%s", "%d items", "%5$s", "a b", "\"", "'", "\xc3\xa9t\xc3\xa9", "a-b", "@a", "" }; k = A("%s", odd[rnd(sizeof odd / sizeof *odd)]); COUNT("members named like formats"); }
    if (jv_find(doc, k) < 0) { jv_set(doc, k, chance(50) ? jv_s("';drop table other;--", 20) : jv_new(chance(50) ? JO : JN)); jv_push(*unused, jv_s(k, strlen(k))); } }
  OP("  doc %s", jv_show(doc));
  return doc;
}
static int jv_set_eq(struct cee_json *g, jv *m) {        /* as sets of strings */
  struct cee_list *l = g ? cee_json_to_array(g) : NULL;
  size_t n = l ? cee_json_array_length(g) : 0;
  if (n != m->c) return 0;
  for (size_t i = 0; i < m->c; i++) { size_t j; for (j = 0; j < n; j++) { struct cee_str *s = cee_json_to_str(cee_json_array_get(g, (int)j)); if (s && !strcmp((char *)s, m->e[i]->s)) break; } if (j == n) return 0; }
  return 1;
}
static void want_keys(const char *what, jv *used, jv *unused) {
  struct cee_json *d = cee_json_object_get(sdoc, "debug");
  CK(d && cee_json_to_object(d), "%s: the result does not list the keys", what);
  CK(jv_set_eq(cee_json_object_get(d, "used_keys"), used), "%s: the used keys are not %s", what, jv_show(used));
  CK(jv_set_eq(cee_json_object_get(d, "unused_keys"), unused), "%s: the unused keys are not %s", what, jv_show(unused));
  COUNT("key reports checked");
}
static struct cee_sqlite3_db_op *new_op(struct cee_sqlite3_stmt_strs *s, int noinfo) {
  struct cee_sqlite3_db_op op = { s, T.info, NULL };
  struct cee_sqlite3_db_op *n = L(new_cee_sqlite3_db_op(T.st, &op, sizeof(struct cee_sqlite3_bind_info) * (T.ni + 1)));
  if (noinfo) { n->info = NULL; n->data = NULL; }
  return n;
}
/* columns of a dynamic insert */
static void dyn_vals(jv **given, jv **vals) { for (int i = 0; i < T.ni; i++) if (given[i] || T.def[i] || T.info[i].not_null) vals[T.ic[i]] = resolve(i, given, 1); }
/* the statements of an operation serve one document after the other: first one that cannot be used */
static void prime(struct cee_sqlite3_stmt_strs *s, int (*f)(struct cee_sqlite3 *, struct cee_sqlite3_db_op *, struct cee_json *, struct cee_json **)) {
  jv *given[MAXC], *used, *unused; int bad;
  if (!chance(25)) return;
  jv *doc = gen_doc(given, 90, &bad, &used, &unused, 0); jv_set(doc, "id", jv_s("none", 4));
  struct cee_json *st = NULL;
  OP("  the same statements for %s before", jv_show(doc));
  int rc = L(f(&T.cs, new_op(s, 0), real_build(T.st, doc), chance(50) ? &st : NULL));
  CK(rc != SQLITE_DONE && rc != SQLITE_ROW, "a document with an unusable value is taken: %d", rc);
  COUNT("statements used for several documents");
}
static void op_insert_json(void) {
  jv *given[MAXC], *vals[MAXC] = { 0 }, *used, *unused; int bad, cols[MAXC];
  jv *doc = gen_doc(given, 75, &bad, &used, &unused, 1);
  int dyn = chance(60), f = gen_fault(1), n = 0;
  if (f == FT_BOOM) f = FT_TRIGGER;
  if (dyn && (sf(f) && f != FT_TABLE)) f = FT_NONE;
  struct cee_sqlite3_stmt_strs *s = ar_alloc(sizeof *s); memset(s, 0, sizeof *s);
  s->table_name = tbl(f);
  if (dyn) { s->insert_dynamic = true; dyn_vals(given, vals); for (int c = 0; c < T.nc; c++) n += !!vals[c]; if (chance(30)) s->insert_stmt = "insert into other values(9,'wrong')"; }
  else { n = gen_cols(cols, 80, chance(50)); if (!n) cols[n++] = T.nc - 1; s->insert_stmt = mk_insert(cols, n, sf(f)); for (int j = 0; j < n; j++) vals[cols[j]] = resolve(info_of(cols[j]), given, 1); }
  int mode = gen_smode();
  OP("insert_op %s status=%d", dyn ? "dynamic" : s->insert_stmt, mode);
  prime(s, cee_sqlite3_insert_op);
  struct cee_json *rd = real_build(T.st, doc), **sp = mk_status(mode);
  struct cee_sqlite3_db_op *op = new_op(s, 0);
  fault_on(f);
  int rc = L(cee_sqlite3_insert_op(&T.cs, op, rd, sp));
  fault_off(f);
  struct row *r = NULL;
  int ok = !bad && n && !f_fatal(f) && f != FT_TRIGGER && f != FT_QUERYONLY && f != FT_RESERVED && model_insert(vals, &r);
  if (ok) { row_put(r); success("insert_op", rc); if (sp) { want("insert_op", "id", r->v[0]); want_keys("insert_op", used, unused); } COUNT("documents inserted"); if (dyn) COUNT("dynamic inserts"); }
  else { failure("insert_op", rc, sp); if (bad) COUNT("unusable values refused"); else if (f == FT_NONE) COUNT("constraint violations"); }
  char *dd = real_diff(rd, doc, JEQ_ANYORDER); CK(!dd, "insert_op changed its input document: %s", dd);
}
/* without binding info: the document's own keys are the columns */
static void op_insert_noinfo(void) {
  jv *doc = jv_new(JO), *vals[MAXC] = { 0 };
  int n = 0;
  for (int c = 0; c < T.nc; c++) if (T.c[c].ty != CEE_SQLITE3_BLOB && chance(60)) { jv *v = chance(15) ? jv_new(JN) : gen_cell(c); jv_set(doc, T.c[c].name, v); if (v->t != JN) { vals[c] = v; n++; } }
  int how = (int)rnd(2), mode = gen_smode();
  OP("insert by own keys how=%d %s", how, jv_show(doc));
  struct cee_json *rd = real_build(T.st, doc), **sp = mk_status(mode);
  int rc;
  if (how == 0) {
    struct cee_sqlite3_stmt_strs *s = ar_alloc(sizeof *s); memset(s, 0, sizeof *s);
    s->table_name = T.name; s->insert_dynamic = true;
    rc = L(cee_sqlite3_insert_op(&T.cs, new_op(s, 1), rd, sp));
  } else {
    struct cee_sqlite3_bind_info *bi = L(cee_json_to_bind_info(rd));
    char *a = "", *b = ""; int k = 0;
    for (int c = 0; c < T.nc; c++) if (vals[c]) { a = A("%s%s%s", a, k ? "," : "", T.c[c].name); b = A("%s%s@%s", b, k ? "," : "", T.c[c].name); k++; }
    rc = L(cee_sqlite3_insert(&T.cs, bi, NULL, A("insert into %s (%s) values (%s)", T.name, a, b), sp, "id", NULL));
  }
  struct row *r = NULL;
  if (n && model_insert(vals, &r)) { row_put(r); success("insert by own keys", rc); if (sp) want("insert by own keys", "id", r->v[0]); COUNT("documents inserted by their own keys"); }
  else failure("insert by own keys", rc, sp);
}
static void op_insert_array(void) {
  jv *arr = jv_new(JA); int m = (int)rnd(6), fail = 0;
  int f = gen_fault(1); if (f != FT_TABLE && f != FT_QUERYONLY && f != FT_RESERVED && f != FT_LOCK && f != FT_INTERRUPT) f = FT_NONE;
  struct row *rs[8]; int nr0 = T.nr; (void)rs;
  for (int i = 0; i < m; i++) {
    jv *o = jv_new(JO), *vals[MAXC] = { 0 }; int n = 0;
    for (int c = 0; c < T.nc; c++) if (chance(c ? 70 : 30)) {
      jv *v = chance(15) ? jv_new(JN) : T.c[c].ty == CEE_SQLITE3_BLOB ? gen_val(chance(50) ? CEE_SQLITE3_TEXT : CEE_SQLITE3_INT64) : gen_cell(c);
      if (v->t == JBLOB || v->t == JD) v = jv_new(JN);
      jv_set(o, T.c[c].name, v); vals[c] = v; n++;
    }
    jv_push(arr, o);
    struct row *r = NULL;
    if (n && f == FT_NONE && model_insert(vals, &r)) { row_put(r); COUNT("array elements inserted"); } else { fail = 1; }
  }
  OP("insert_json_array %s", jv_show(arr));
  struct cee_json *ra = real_build(T.st, arr);
  fault_on(f);
  int rc = L(cee_sqlite3_insert_json_array(&T.cs, tbl(f), ra));
  fault_off(f);
  CK(!!rc == fail, "insert_json_array returns %d although %s", rc, fail ? "an element could not be stored" : "every element can be stored");
  OB(rc); if (fail) COUNT("array elements refused"); (void)nr0;
  char *dd = real_diff(ra, arr, JEQ_ANYORDER); CK(!dd, "insert_json_array changed its input: %s", dd);
}
/* bind_data_from_json, then an ordinary insert */
static void op_bind_from_json(void) {
  jv *given[MAXC], *vals[MAXC] = { 0 }, *used, *unused; int bad, cols[MAXC];
  jv *doc = gen_doc(given, 75, &bad, &used, &unused, 1);
  struct cee_json *rd = real_build(T.st, doc), *u = NULL, *un = NULL, *er = NULL;
  struct cee_sqlite3_bind_data *d = ar_alloc(sizeof *d * (MAXC + 1)); memset(d, 0, sizeof *d * (MAXC + 1));
  int nul = chance(20);
  if (chance(30)) { u = L(cee_json_array_mk(T.st, 2)); er = L(cee_json_array_mk(T.st, 2)); }
  OP("bind_data_from_json bad=%d", bad);
  LV(cee_sqlite3_bind_data_from_json(T.info, d, rd, nul ? NULL : &u, nul ? NULL : &un, nul ? NULL : &er));
  if (bad) { if (!nul) CK(er && cee_json_array_length(er) >= 1, "bind_data_from_json does not report an unusable value"); COUNT("unusable values refused"); return; }
  if (!nul) {
    CK(er && cee_json_array_length(er) == 0, "bind_data_from_json reports an error for a usable document");
    CK(jv_set_eq(u, used) && jv_set_eq(un, unused), "bind_data_from_json reports other keys than used %s and unused %s", jv_show(used), jv_show(unused));
  }
  int n = gen_cols(cols, 80, chance(50)); if (!n) cols[n++] = T.nc - 1;
  for (int j = 0; j < n; j++) vals[cols[j]] = resolve(info_of(cols[j]), given, 1);
  struct cee_json **sp = mk_status(S_NULL);
  int rc = L(cee_sqlite3_insert(&T.cs, T.info, d, mk_insert(cols, n, 0), sp, NULL, NULL));
  struct row *r = NULL;
  if (model_insert(vals, &r)) { row_put(r); success("insert of a document's data", rc); want("insert", "last_insert_rowid", r->v[0]); COUNT("documents bound"); }
  else failure("insert of a document's data", rc, sp);
}

/* the rows a select gives, as documents */
static int hidden(int c) { return T.info[info_of(c)].no_return; }
static jv *row_doc(struct row *r, const int *cols, int n, int useinfo) {
  if (useinfo && n == 1 && T.info[info_of(cols[0])].no_label) return r->v[cols[0]];
  jv *o = jv_new(JO);
  for (int j = 0; j < n; j++) if (!useinfo || !hidden(cols[j])) jv_set(o, T.c[cols[j]].name, r->v[cols[j]]); else COUNT("hidden columns");
  return o;
}
static __thread int it_left, it_seen;
static __thread struct cee_sqlite3_bind_info *it_info;
static int it_rows(void *cls, struct cee_state *st, struct cee_sqlite3_bind_info *info, sqlite3_stmt *s) {
  CK(info == it_info && st == T.st, "the iteration passes another state or another binding");
  jv *a = cls; jv *o = jv_new(JO);
  for (int i = 0; i < sqlite3_column_count(s); i++) jv_set(o, A("%s", sqlite3_column_name(s, i)), col_val(s, i));
  jv_push(a, o); it_seen++;
  return --it_left == 0;
}
static void op_select(void) {
  jv *given[MAXC]; int cols[MAXC];
  struct cee_sqlite3_bind_data *d = gen_data(given, 60);
  struct cond k = gen_cond();
  if (k.c >= 0 && chance(60)) { jv *v = pick_existing(k.c); int i = info_of(k.c); if (v && !(v->t == JN && T.info[i].not_null)) { given[i] = v; put_data(&d[i], T.info[i].type, v); OP("  %s:=%s", T.c[k.c].name, jv_show(v)); } }
  int n = chance(15) ? 1 : 0;
  if (n) cols[0] = (int)rnd(T.nc); else { n = gen_cols(cols, 80, 1); if (!n) cols[n++] = 0; }
  int useinfo = k.c < 0 && chance(30) ? 0 : 1;
  if (useinfo && n == 1 && hidden(cols[0])) cols[0] = 0;
  if (n == 1 && hidden(cols[0])) useinfo = 0;
  if (!useinfo && k.c >= 0) k.c = -1;
  char *cl = ""; for (int j = 0; j < n; j++) cl = A("%s%s%s", cl, j ? "," : "", T.c[cols[j]].name);
  int f = gen_fault(0), order = (int)rndr(1, 2), how = (int)rnd(6);
  if (!useinfo && f == FT_UNBOUND) f = FT_TABLE;
  if (n == T.nc && chance(30)) { int id = 1; for (int j = 0; j < n; j++) id &= cols[j] == j; if (id) cl = "*"; }
  char *sql = mk_select(cl, &k, sf(f), order);
  jv *bound = k.c >= 0 ? resolve(info_of(k.c), given, 0) : NULL;
  jv *exp = jv_new(JA);
  for (int x = 0; x < T.nr; x++) { struct row *r = T.r[order == 1 ? x : T.nr - 1 - x]; if (matches(&k, r, bound)) jv_push(exp, row_doc(r, cols, n, useinfo)); }
  int bare = useinfo && n == 1 && T.info[info_of(cols[0])].no_label;
  OP("select how=%d info=%d %s", how, useinfo, sql);
  struct cee_sqlite3_bind_info *in = useinfo ? T.info : NULL; struct cee_sqlite3_bind_data *da = useinfo ? d : NULL;
  if (useinfo && chance(30)) {       /* a parameter that belongs to no column, columns that have no parameter */
    struct cee_sqlite3_bind_info *i2 = ar_alloc(sizeof *i2 * (MAXC + 6)); struct cee_sqlite3_bind_data *d2 = ar_alloc(sizeof *d2 * (MAXC + 6)); memset(i2, 0, sizeof *i2 * (MAXC + 6)); memset(d2, 0, sizeof *d2 * (MAXC + 6));
    int m = 0, tail[MAXC], nt = 0, free_at = (int)rnd(T.ni + 1), lim = 0;
    for (int i = 0; i <= T.ni; i++) {
      if (i == free_at) { i2[m].var_name = "@lim"; i2[m].type = CEE_SQLITE3_INT; d2[m].has_value = 1; d2[m].i = 100000; lim = 1; m++; }
      if (i == T.ni) break;
      if (T.ic[i] != k.c && chance(50)) { tail[nt++] = i; continue; }
      i2[m] = T.info[i]; d2[m++] = d[i];
    }
    for (int i = 0; i < nt; i++) { i2[m] = T.info[tail[i]]; i2[m++].var_name = NULL; }
    if (lim && chance(70)) sql = A("%s limit @lim", sql);
    in = i2; da = d2; OP("  %d columns without a parameter; %s", nt, sql); COUNT("bindings without a column or without a parameter");
  }
  it_info = in;
  static const char *hn[] = { "select", "select", "select1", "select_as", "select1_as", "select_iter" };
  const char *what = hn[how];
  int mode = how <= 1 ? (int)(chance(15) ? S_NONE : chance(40) ? S_ARR : S_NULL) : how == 2 ? (int)rndr(S_NONE, bare ? S_NULL : S_OBJ) : how == 3 ? S_OBJ : how == 4 ? (int)rndr(S_NONE, S_OBJ) : (int)rndr(S_NONE, S_NULL);
  struct cee_json **sp = mk_status(mode);
  jv *pre = NULL;
  if ((how == 3 || (how == 4 && !bare)) && mode == S_OBJ && chance(50)) {        /* something is under that name already */
    if (how == 3) { pre = jv_new(JA); jv_push(pre, jv_i(1)); jv_push(pre, jv_s("old", 3)); if (chance(30)) pre = jv_s("old", 3); }
    else { pre = jv_new(JO); jv_set(pre, "older", jv_i(3)); }
    LV(cee_json_object_set(sdoc, "rows", real_build(T.st, pre)));
  }
  it_left = (int)rnd(5); it_seen = 0; jv *seen = jv_new(JA); int lim = it_left;
  fault_on(f);
  int rc;
  switch (how) {
    case 0: case 1: rc = L(cee_sqlite3_select(&T.cs, in, da, sql, sp)); break;
    case 2: rc = L(cee_sqlite3_select1(&T.cs, in, da, sql, sp)); break;
    case 3: rc = L(cee_sqlite3_select_as(&T.cs, in, da, sql, sp, "rows")); break;
    case 4: rc = L(cee_sqlite3_select1_as(&T.cs, in, da, sql, sp, "rows")); break;
    default: rc = cee_sqlite3_select_iter(&T.cs, in, da, sql, seen, it_rows, sp); break;
  }
  int fired = boom_fired;
  fault_off(f);
  if (f_fatal(f) || (f == FT_BOOM && fired && !(how == 5 && lim && it_seen == lim))) {
    if (f == FT_BOOM) COUNT("failures part-way through the rows");
    if (how == 4 && mode == S_NONE) { CK(rc != SQLITE_DONE, "%s failed but returns success", what); }
    else failure(what, rc, sp);
    return;
  }
  CK(rc == SQLITE_DONE, "%s returns %d (%s)", what, rc, sqlite3_errmsg(T.db));
  char *dd = NULL;
  switch (how) {
    case 0: case 1: if (mode == S_NONE) break;
      if (mode == S_ARR) { jv *e = jv_copy(kept); for (size_t i = 0; i < exp->c; i++) jv_push(e, exp->e[i]); exp = e; }
      CK(sdoc, "select gives no array"); dd = real_diff(sdoc, exp, JEQ_ANYORDER); COUNTN("rows selected", exp->c); break;
    case 2: case 4: {
      if (mode == S_NONE) break;
      want_kept(what);
      if (how == 4) { if (pre && exp->c) { for (size_t i = 0; i < exp->e[0]->c; i++) jv_set(pre, exp->e[0]->k[i], exp->e[0]->e[i]); }
        if (exp->c || pre) want(what, "rows", pre ? pre : exp->e[0]); else want_not(what, "rows"); if (pre) COUNT("results added to an existing name"); break; }
      if (!exp->c) { if (!kept) CK(!sdoc, "select1 of nothing gives something"); break; }
      if (kept) { for (size_t i = 0; i < exp->e[0]->c; i++) want(what, exp->e[0]->k[i], exp->e[0]->e[i]); CK(cee_map_size(cee_json_to_object(sdoc)) == kept->c + exp->e[0]->c, "select1 adds other members than the row's"); }
      else { CK(sdoc, "select1 gives nothing"); dd = real_diff(sdoc, exp->e[0], JEQ_ANYORDER); }
      COUNT("single rows selected"); break; }
    case 3: {
      want_kept(what);
      jv *e = jv_new(JA); if (pre) { if (pre->t == JA) e = jv_copy(pre); else jv_push(e, pre); COUNT("results added to an existing name"); }
      for (size_t i = 0; i < exp->c; i++) jv_push(e, exp->e[i]);
      want(what, "rows", e); COUNTN("rows selected", exp->c); break; }
    default: {
      size_t m = lim && (size_t)lim < exp->c ? (size_t)lim : exp->c;
      jv *full = jv_new(JA); for (int x = 0; x < T.nr; x++) { struct row *r = T.r[order == 1 ? x : T.nr - 1 - x]; if (matches(&k, r, bound) && full->c < m) { jv *o = jv_new(JO); for (int j = 0; j < n; j++) jv_set(o, T.c[cols[j]].name, r->v[cols[j]]); jv_push(full, o); } }
      CK(jv_eq(seen, full, JEQ_ANYORDER), "select_iter visits %s, expected %s", jv_show(seen), jv_show(full)); COUNT("iterations"); if (m < exp->c) COUNT("iterations stopped by the callback"); break; }
  }
  CK(!dd, "%s: %s", what, dd);
  if (bare) COUNT("unlabelled rows");
  if (sdoc) real_observe(sdoc);
}

/* the model of an update: -1 refused, else the number of rows */
static int model_update(const struct cond *k, jv *bound, const int *cols, int n, jv **val) {
  int hit[MAXR], m = 0; struct row *nw[MAXR];
  for (int i = 0; i < T.nr; i++) if (matches(k, T.r[i], bound)) { hit[m] = i; m++; }
  if (!m) return 0;
  for (int j = 0; j < m; j++) {
    struct row *r = ar_alloc(sizeof *r); *r = *T.r[hit[j]];
    for (int x = 0; x < n; x++) r->v[cols[x]] = val[x];
    if (r->v[0]->t == JN) return -1;       /* datatype mismatch */
    nw[j] = r;
  }
  for (int j = 0; j < m; j++) {
    for (int c = 0; c < T.nc; c++) if (!chk_ok(&T.c[c], nw[j]->v[c])) {
        int set = 0; for (int x = 0; x < n; x++) set |= cols[x] == c; if (set) return -1; }
    for (int x = 0; x < n; x++) if (T.c[cols[x]].uniq) {
      for (int i = 0; i < T.nr; i++) if (i != hit[j] && v_same(T.r[i]->v[cols[x]], val[x])) return -1;
      if (m > 1 && val[x]->t != JN) return -1;
    }
  }
  struct row *old[MAXR]; int no = 0;
  for (int i = 0, j = 0; i < T.nr; i++) if (j < m && hit[j] == i) j++; else old[no++] = T.r[i];
  for (int i = 0; i < no; i++) T.r[i] = old[i];
  T.nr = no;
  for (int j = 0; j < m; j++) row_put(nw[j]);
  aud_i -= m; aud_u += m;
  return m;
}
static void op_write(void) {
  jv *given[MAXC], *used, *unused; int bad = 0, cols[MAXC], n, icols[MAXC], in;
  int json = chance(50), kind = (int)rnd(4);       /* update, update_if_exists, update_or_insert, select1_or_insert */
  struct cee_sqlite3_bind_data *d = NULL; jv *doc = NULL; struct cee_json *rd = NULL;
  if (kind == 3) json = 0;
  int hollow = json && chance(6);      /* a document that holds nothing of the table */
  if (json) doc = gen_doc(given, hollow ? 0 : 60, &bad, &used, &unused, 1); else d = gen_data(given, 70);
  struct cond ck = gen_cond(), uk;
  if (hollow) ck.c = -1; else
  if (ck.c < 0 && chance(80)) ck.c = 0;
  /* aim at a row that exists */
  if (ck.c >= 0 && !json && chance(60)) { jv *v = pick_existing(ck.c); int i = info_of(ck.c); if (v && v->t != JN) { given[i] = v; put_data(&d[i], T.info[i].type, v); OP("  %s:=%s", T.c[ck.c].name, jv_show(v)); } }
  if (ck.c >= 0 && json && !bad && T.c[ck.c].ty != CEE_SQLITE3_BLOB && chance(60)) { jv *v = pick_existing(ck.c); int i = info_of(ck.c); if (v && v->t != JN) { if (!given[i]) jv_push(used, jv_s(T.c[ck.c].name, strlen(T.c[ck.c].name))); given[i] = v; jv_set(doc, T.c[ck.c].name, v); OP("  %s:=%s", T.c[ck.c].name, jv_show(v)); } }
  uk = ck; if (chance(15)) { uk = gen_cond(); }
  n = gen_cols(cols, 60, chance(8)); if (!n) cols[n++] = T.nc - 1;
  in = gen_cols(icols, 80, chance(60)); if (!in) icols[in++] = T.nc - 1;
  int f = gen_fault(1), fs = 0, fu = 0, fi = 0;
  if (sf(f)) switch (rnd(3)) { case 0: fs = f; break; case 1: fu = f; break; default: fi = f == FT_BOOM ? FT_NONE : f; }
  struct cee_sqlite3_stmt_strs *s = ar_alloc(sizeof *s); memset(s, 0, sizeof *s);
  s->table_name = T.name;
  int useinfo_sel = kind == 3;       /* select1_or_insert returns the row */
  int scols[MAXC], sn = gen_cols(scols, 70, 1); if (!sn) scols[sn++] = 0;
  if (sn == 1) scols[0] = 0;
  char *cl = ""; for (int j = 0; j < sn; j++) cl = A("%s%s%s", cl, j ? "," : "", T.c[scols[j]].name);
  s->select_stmt = mk_select(cl, &ck, fs, 1);
  int templ = json && chance(55), dyn = json && chance(50);
  if (templ) s->update_template = A("update %s set %%s%s", tbl(fu), esc(where(&uk, fu)));
  if (!templ) s->update_stmt = cased(A("update %s set %s%s", tbl(fu), mk_set(cols, n), where(&uk, fu)));
  if (dyn) { s->insert_dynamic = true; fi = 0; } else s->insert_stmt = mk_insert(icols, in, fi);
  /* what is updated */
  jv *uval[MAXC];
  if (templ) { n = 0; for (int i = 0; i < T.ni; i++) if (doc && jv_find(doc, T.info[i].col_name) >= 0 && !T.info[i].no_update && (given[i] || T.def[i])) cols[n++] = T.ic[i]; }
  for (int j = 0; j < n; j++) uval[j] = resolve(info_of(cols[j]), given, 0);
  jv *ivals[MAXC] = { 0 }; int ni = 0;
  if (dyn) { dyn_vals(given, ivals); } else for (int j = 0; j < in; j++) ivals[icols[j]] = resolve(info_of(icols[j]), given, 1);
  for (int c = 0; c < T.nc; c++) ni += !!ivals[c];
  int mode = templ && !n ? (int)rndr(S_NULL, S_OBJ) : gen_smode();
  static const char *kn[] = { "update", "update_if_exists", "update_or_insert", "select1_or_insert" };
  char *what = A("%s%s", kn[kind], json ? "_op" : "");
  OP("%s templ=%d dyn=%d status=%d | %s | %s | %s", what, templ, dyn, mode, s->select_stmt, templ ? s->update_template : s->update_stmt, dyn ? "-" : s->insert_stmt);
  if (json) prime(s, kind == 0 ? cee_sqlite3_update_op : kind == 1 ? cee_sqlite3_update_if_exists_op : cee_sqlite3_update_or_insert_op);
  if (json) rd = real_build(T.st, doc);
  struct cee_json **sp = mk_status(mode);
  struct cee_sqlite3_db_op *op = json ? new_op(s, 0) : NULL;
  fault_on(f);
  int rc;
  switch (kind) {
    case 0: rc = json ? L(cee_sqlite3_update_op(&T.cs, op, rd, sp)) : L(cee_sqlite3_update(&T.cs, T.info, d, s, sp)); break;
    case 1: rc = json ? L(cee_sqlite3_update_if_exists_op(&T.cs, op, rd, sp)) : L(cee_sqlite3_update_if_exists(&T.cs, T.info, d, s, sp)); break;
    case 2: rc = json ? L(cee_sqlite3_update_or_insert_op(&T.cs, op, rd, sp)) : L(cee_sqlite3_update_or_insert(&T.cs, T.info, d, s, sp)); break;
    default: rc = L(cee_sqlite3_select1_or_insert(&T.cs, T.info, d, s, sp)); break;
  }
  int fired = boom_fired;
  fault_off(f);
  /* the model */
  jv *bound = ck.c >= 0 ? resolve(info_of(ck.c), given, 0) : NULL, *ub = uk.c >= 0 ? resolve(info_of(uk.c), given, 0) : NULL;
  struct row *first = NULL, *r = NULL;
  for (int i = 0; i < T.nr && !first; i++) if (matches(&ck, T.r[i], bound)) first = T.r[i];
  int wf = f == FT_TRIGGER || (f == FT_QUERYONLY || f == FT_RESERVED), fail = 0, did = 0;
  if (bad) fail = 1;
  else if (f == FT_INTERRUPT || f == FT_LOCK || (fs && fs != FT_BOOM) || (fs == FT_BOOM && fired)) fail = 1;
  else if (kind == 3 && first) {
    success(what, rc);
    if (sp) { jv *e = row_doc(first, scols, sn, useinfo_sel);
      if (e->t == JO) for (size_t i = 0; i < e->c; i++) want(what, e->k[i], e->e[i]);
      else if (!kept) { char *dd = real_diff(sdoc, e, JEQ_ANYORDER); CK(!dd, "%s: %s", what, dd); }
      want_not(what, "last_insert_rowid"); }
    COUNT("rows found instead of inserted"); return;
  } else if (kind != 3 && first) {
    if (templ && !n) { success(what, rc); want_not(what, "updated_rows"); want_not(what, "last_insert_rowid"); if (json) want_keys(what, used, unused);
      if (sp) { struct cee_json *w = cee_json_object_get(sdoc, "warning"); struct cee_str *ws = w ? cee_json_to_str(w) : NULL; CK(ws && strlen((char *)ws), "%s had nothing to update and does not say so", what); }
      COUNT("nothing to update"); return; }
    int m = 0;
    if ((fu && fu != FT_BOOM) || (fu == FT_BOOM && fired)) fail = 1;
    else if ((f == FT_QUERYONLY || f == FT_RESERVED)) fail = 1;
    else {
      if (f == FT_TRIGGER) { int any = 0; for (int i = 0; i < T.nr; i++) any |= matches(&uk, T.r[i], ub); fail = any; }
      if (!fail) { m = model_update(&uk, ub, cols, n, uval); fail = m < 0; }
    }
    if (!fail) { success(what, rc); if (sp && kind <= 1) want(what, "updated_rows", jv_i(m)); if (sp) want_not(what, "last_insert_rowid"); COUNTN("rows updated", m); COUNT("updates"); did = 1; if (m > 1) COUNT("updates of several rows"); }
  } else if (kind >= 2) {
    if (wf || fi || !ni || !model_insert(ivals, &r)) fail = 1;
    else { row_put(r); success(what, rc); if (sp) want(what, "last_insert_rowid", r->v[0]); COUNT("rows inserted because none was there"); did = 1; }
  } else { success(what, rc); if (sp) { struct cee_json *u = cee_json_object_get(sdoc, "updated_rows"); int64_t x = 0; if (u) CK(!cee_json_to_i64x(u, &x) && x == 0, "%s reports updated rows although no row is there", what); want_not(what, "last_insert_rowid"); } COUNT("updates of a missing row"); did = 1; }
  if (fail) { failure(what, rc, sp); if (bad) COUNT("unusable values refused"); else if (f == FT_NONE) COUNT("constraint violations"); }
  else if (did && json && sp) want_keys(what, used, unused);
  if (json) { char *dd = real_diff(rd, doc, JEQ_ANYORDER); CK(!dd, "%s changed its input document: %s", what, dd); }
}
static void op_delete(void) {
  jv *given[MAXC];
  struct cee_sqlite3_bind_data *d = gen_data(given, 50);
  struct cond k = gen_cond(); if (k.c < 0 && !k.mod && chance(90)) k.c = 0;
  if (k.c >= 0 && chance(60)) { jv *v = pick_existing(k.c); int i = info_of(k.c); if (v && !(v->t == JN && T.info[i].not_null)) { given[i] = v; put_data(&d[i], T.info[i].type, v); OP("  %s:=%s", T.c[k.c].name, jv_show(v)); } }
  int f = gen_fault(1), mode = gen_smode(); char *key = chance(50) ? "gone" : NULL;
  char *sql = cased(A("delete from %s%s", tbl(sf(f)), where(&k, sf(f))));
  OP("delete %s status=%d", sql, mode);
  struct cee_json **sp = mk_status(mode);
  fault_on(f);
  int rc = L(cee_sqlite3_delete(&T.cs, T.info, d, sql, sp, key));
  int fired = boom_fired; fault_off(f);
  jv *bound = k.c >= 0 ? resolve(info_of(k.c), given, 0) : NULL;
  int m = 0; for (int i = 0; i < T.nr; i++) m += matches(&k, T.r[i], bound);
  if (f_fatal(f) || (f == FT_BOOM && fired) || (f == FT_QUERYONLY || f == FT_RESERVED) || (f == FT_TRIGGER && m)) { failure("delete", rc, sp); return; }
  int o = 0; for (int i = 0; i < T.nr; i++) if (!matches(&k, T.r[i], bound)) T.r[o++] = T.r[i];
  T.nr = o; aud_d += m;
  success("delete", rc); if (sp) want("delete", key ? key : "deleted", jv_i(m));
  COUNT("deletes"); COUNTN("rows deleted", m);
}
static void op_next_int(void) {
  int c = (int)rnd(T.nc), f = gen_fault(0);
  if (f == FT_UNBOUND || f == FT_BOOM) f = FT_TABLE;
  struct cond k = { -1, 0, 0, 0 }; if (chance(50)) { k.mod = (int)rndr(2, 4); k.rem = (int)rnd(k.mod); }
  char *w = where(&k, sf(f)); 
  if (chance(50)) { size_t n = rnd(7000); char *pad = ar_alloc(n + 1); memset(pad, ' ', n); pad[n] = 0; w = A("%s%s%s", chance(50) ? pad : "", w, chance(50) ? pad : ""); if (n > 1000) COUNT("long conditions"); }
  int have = 0, isint = 1; int64_t mx = 0;
  jv *best = NULL;
  for (int i = 0; i < T.nr; i++) if (matches(&k, T.r[i], NULL)) { jv *v = T.r[i]->v[c]; if (v->t == JN) continue; have = 1; if (v->t != JI) isint = 0; else if (!best || v->i > mx) { mx = v->i; best = v; } }
  OP("next_int %s %s", T.c[c].name, w);
  struct cee_json **sp = mk_status(chance(20) ? S_NONE : S_NULL);
  fault_on(f);
  int g = L(cee_sqlite3_next_int(&T.cs, T.c[c].name, A("from %s%s", tbl(f), w), sp));
  fault_off(f);
  if (f_fatal(f)) { CK(g == -1 && (!sp || (sdoc && cee_json_object_get(sdoc, "error"))), "next_int fails without an error"); COUNT("failures reported"); return; }
  if (!isint) { CK(g == -1 || have, "next_int of texts"); return; }
  if (!have) CK(g == 1 && !sdoc, "next_int of no rows gives %d", g);
  else if (mx < INT_MAX && mx >= INT_MIN) CK(g == mx + 1 && !sdoc, "next_int gives %d, expected %lld", g, (long long)mx + 1);
  else CK(g == -1 && (sdoc || !sp), "next_int gives %d although the maximum is %lld", g, (long long)mx);
  COUNT("next integers");
}
static void op_run_sql(void) {      /* the basic call: the caller owns the statement */
  jv *given[MAXC]; struct cee_sqlite3_bind_data *d = gen_data(given, 60);
  struct cond k = gen_cond(); int f = gen_fault(0);
  char *sql = mk_select("id", &k, sf(f), 1);
  sqlite3_stmt *s = (void *)0x11; struct cee_json **sp = mk_status((int)rndr(S_NONE, S_OBJ));
  int own = chance(60);
  OP("bind_run_sql own=%d %s", own, sql);
  fault_on(f);
  int rc = L(cee_sqlite3_bind_run_sql(&T.cs, T.info, d, sql, own ? &s : NULL, sp));
  int fired = boom_fired;
  jv *bound = k.c >= 0 ? resolve(info_of(k.c), given, 0) : NULL;
  if (f_fatal(f) || (f == FT_BOOM && fired)) {
    CK(rc != SQLITE_DONE && rc != SQLITE_ROW && rc != SQLITE_OK, "bind_run_sql failed but returns %d", rc);
    if (sf(f) && f != FT_BOOM && sp) CK(sdoc && cee_json_object_get(sdoc, "error"), "bind_run_sql failed but its result does not say so");
    if (own) { CK(s != (void *)0x11, "bind_run_sql does not set the statement"); sqlite3_finalize(s); }
  } else {
    int i = 0; while (i < T.nr && !matches(&k, T.r[i], bound)) i++;
    CK(rc == (i < T.nr ? SQLITE_ROW : SQLITE_DONE), "bind_run_sql returns %d", rc);
    if (own) { if (i < T.nr) CK(sqlite3_column_int64(s, 0) == T.r[i]->v[0]->i, "bind_run_sql finds row %lld, expected %lld", (long long)sqlite3_column_int64(s, 0), (long long)T.r[i]->v[0]->i); sqlite3_finalize(s); }
    COUNT("plain statements");
  }
  fault_off(f);
}
static void op_misc(void) {
  switch (rnd(3)) {
    case 0: { int v = (int)rndr(1, 9999); raw("pragma user_version=%d", v); int g = L(cee_sqlite3_get_pragma_variable(T.db, "user_version")); CK(g == v, "pragma variable reads %d, expected %d", g, v); COUNT("pragma reads"); break; }
    case 1: if (T.file && sqlite3_get_autocommit(T.db)) {
      char p2[340], buf[600]; snprintf(p2, sizeof p2, "%s2", T.path); unlink(p2);
      sqlite3 *d2; if (sqlite3_open(p2, &d2) != SQLITE_OK || sqlite3_exec(d2, "create table z(q); insert into z values(41)", 0, 0, 0) != SQLITE_OK) hx_harness_error("second database");
      sqlite3_close(d2);
      char *e = NULL; OP("attach");
      int rc = L(cee_sqlite3_attach_db(&T.cs, strrchr(p2, 0x2f) + 1, "extra", buf, sizeof buf, &e)); CK(rc == SQLITE_OK, "attach: %s", e ? e : "?");
      struct cee_json **sp = mk_status(S_NULL);
      rc = L(cee_sqlite3_select(&T.cs, NULL, NULL, "select q from extra.z", sp));
      CK(rc == SQLITE_DONE, "select from the attached database: %d", rc);
      jv *a = jv_new(JA), *o = jv_new(JO); jv_set(o, "q", jv_i(41)); jv_push(a, o);
      char *dd = real_diff(sdoc, a, 0); CK(!dd, "attached: %s", dd);
      rc = L(cee_sqlite3_detach_db(&T.cs, "extra", buf, sizeof buf, &e)); CK(rc == SQLITE_OK, "detach: %s", e ? e : "?");
      CK(sqlite3_db_filename(T.db, "extra") == NULL, "the database is still attached"); unlink(p2); COUNT("attached databases"); }
      break;
    default: if (sqlite3_get_autocommit(T.db)) { OP("begin"); cee_sqlite3_begin_transaction(T.db); CK(!sqlite3_get_autocommit(T.db), "begin_transaction"); }
      else { OP("end"); cee_sqlite3_end_transaction(T.db); CK(sqlite3_get_autocommit(T.db), "end_transaction"); COUNT("transactions"); } break;
  }
}
/* ---- C28 */
static void op_join(void) {
  int arr = chance(70), keyed = chance(60), ne = arr ? (int)rnd(5) : 1;
  struct cond k = { -1, 0, 0, 0 }; k.c = (int)rnd(T.nc); if (T.c[k.c].ty == CEE_SQLITE3_BLOB) k.c = 0;
  if (chance(20)) { k.mod = 2; k.rem = (int)rnd(2); }
  int k2 = chance(25) ? (int)rnd(T.nc) : -1; if (k2 >= 0 && (T.c[k2].ty == CEE_SQLITE3_BLOB || k2 == k.c)) k2 = -1;
  /* own binding info: the keys of the elements are not the names of the columns */
  struct cee_sqlite3_bind_info *in = ar_alloc(sizeof *in * 5); memset(in, 0, sizeof *in * 5);
  struct cee_sqlite3_bind_data *d = ar_alloc(sizeof *d * 5); memset(d, 0, sizeof *d * 5);

  /* further entries take no value: they are not looked for in the elements */
  int ni = k2 >= 0 ? 2 : 1, no = chance(40) ? 1 + (int)rnd(2) : 0, at[4], viadata = (int)rnd(3);
  for (int i = 0; i < ni + no; i++) at[i] = i;
  for (int i = ni + no - 1; i > 0; i--) { int j = (int)rnd(i + 1), x = at[i]; at[i] = at[j]; at[j] = x; }
  for (int i = 0; i < ni + no; i++) {
    struct cee_sqlite3_bind_info *b = &in[at[i]]; struct cee_sqlite3_bind_data *x = viadata == 0 || (viadata == 2 && chance(50)) ? &b->data : &d[at[i]];
    if (i == 0) { b->var_name = "@k1"; b->col_name = "link"; b->type = T.c[k.c].ty; }
    else if (i < ni) { b->var_name = ":k2"; b->col_name = "link2"; b->type = T.c[k2].ty; }
    else { b->var_name = i == ni ? "@unused" : "$unused2"; b->col_name = i == ni ? "nolink" : "nolink2"; b->type = (int)rndr(CEE_SQLITE3_INT, CEE_SQLITE3_BLOB); continue; }
    x->has_value = 1; x->i = 4242; x->i64 = 4242; x->value = "4242";
  }
  if (no) COUNT("joins with parameters that take no value");
  jv *fx = NULL; 
  int cols[MAXC], n = gen_cols(cols, 60, 1); if (!n) cols[n++] = 0;
  char *cl = ""; for (int j = 0; j < n; j++) cl = A("%s%s%s as r_%s", cl, j ? "," : "", T.c[cols[j]].name, T.c[cols[j]].name);
  int f = chance(focus == FOC_ERRORS ? 30 : 6) ? (chance(50) ? FT_SYNTAX : chance(50) ? FT_TABLE : chance(50) ? FT_UNBOUND : FT_BOOM) : FT_NONE;
  char *w = A(" where %s=@k1", T.c[k.c].name);
  if (k2 >= 0) w = A("%s and %s=:k2", w, T.c[k2].name);
  if (k.mod) w = A("%s and ((id %% 2)+2)%%2 = %d", w, k.rem);
  int order = (int)rndr(1, 2);
  char *sql = A("select %s from %s%s%s order by id%s", cl, tbl(f), w, f == FT_UNBOUND ? A(" and %s", missing()) : f == FT_SYNTAX ? " ) " : f == FT_BOOM ? " and boom(id)" : "", order == 2 ? " desc" : "");
  jv *els = jv_new(JA), *exp = jv_new(JA); int errat = -1;
  for (int e = 0; e < ne; e++) {
    jv *o = jv_new(JO), *want1 = NULL, *v[2] = { 0, 0 }; int bad = 0;
    jv_set(o, "own", jv_i(e)); if (chance(50)) jv_set(o, "own2", jv_s("text", 4));
    if (keyed && chance(25)) jv_set(o, "rows", jv_i(9));
    if (no && chance(40)) jv_set(o, chance(50) ? "nolink" : "nolink2", chance(50) ? jv_i(rnd(9)) : chance(50) ? jv_s("text", 4) : jv_new(chance(50) ? JN : JA));
    for (int x = 0; x < (k2 >= 0 ? 2 : 1); x++) {
      int c = x ? k2 : k.c;
      v[x] = chance(75) && T.nr ? T.r[rnd(T.nr)]->v[c] : gen_val(T.c[c].ty);
      if (v[x]->t != JI && v[x]->t != JS) v[x] = gen_val(T.c[c].ty);
      if (T.c[c].ty == CEE_SQLITE3_INT && (v[x]->i > INT_MAX || v[x]->i < INT_MIN)) v[x] = jv_i(1);
      if (chance(7)) { bad = 1; switch (rnd(6)) { case 0: v[x] = NULL; break; case 1: v[x] = jv_new(JN); break; case 2: v[x] = jv_b(1); break; case 3: v[x] = jv_d(0.5); break; case 4: v[x] = T.c[c].ty == CEE_SQLITE3_TEXT ? jv_i(3) : jv_s("3", 1); break;
          default: v[x] = jv_new(chance(50) ? JA : JO); } }
      if (v[x]) jv_set(o, x ? "link2" : "link", v[x]);
    }
    jv_push(els, o);
    jv *rows = jv_new(JA);
    if (!bad) for (int y = 0; y < T.nr; y++) { struct row *r = T.r[order == 1 ? y : T.nr - 1 - y];
      if (!matches(&k, r, v[0]) || (k2 >= 0 && !v_same(r->v[k2], v[1]))) continue;
      jv *ro = jv_new(JO); for (int j = 0; j < n; j++) jv_set(ro, A("r_%s", T.c[cols[j]].name), r->v[cols[j]]); jv_push(rows, ro); }
    want1 = jv_copy(o);
    if (keyed) jv_set(want1, "rows", rows); else if (rows->c) for (size_t i = 0; i < rows->e[0]->c; i++) jv_set(want1, rows->e[0]->k[i], rows->e[0]->e[i]);
    jv_push(exp, want1);
    if (bad && errat < 0) errat = e;
    COUNTN("rows joined", rows->c);
  }
  (void)fx;
  OP("join arr=%d keyed=%d %s | %s", arr, keyed, sql, jv_show(els));
  struct cee_json *re = real_build(T.st, arr ? els : els->e[0]);
  fault_on(f);
  char *key = keyed ? "rows" : NULL;
  if (arr) LV(cee_sqlite3_json_array_join_table(&T.cs, re, in, viadata ? d : NULL, sql, key)); else LV(cee_sqlite3_json_object_join_table(&T.cs, re, in, viadata ? d : NULL, sql, key));
  int fired = boom_fired; fault_off(f);
  if (f == FT_BOOM && !fired) f = FT_NONE;
  int boomed = 0, ended = 0;
  for (int e = 0; e < ne; e++) {
    struct cee_json *g = arr ? cee_json_array_get(re, e) : re;
    CK(g && cee_json_to_object(g), "join: element %d is gone", e);
    struct cee_json *er = cee_json_object_get(g, "error");
    if (!er && keyed && cee_json_object_get(g, "rows")) er = cee_json_select(g, ".rows.error");
    if (f == FT_SYNTAX || f == FT_TABLE || f == FT_UNBOUND) { CK(er, "join with a failing statement: element %d says nothing", e); COUNT("join failures reported"); break; }
    if (f == FT_BOOM && er && e != errat) { boomed = 1; COUNT("join failures reported"); break; }
    if (ended) {      /* the elements after one that failed: as they were, joined, or saying why not */
      char *dd = er ? NULL : real_diff(g, els->e[e], JEQ_ANYORDER);
      if (dd && f != FT_BOOM) dd = real_diff(g, exp->e[e], JEQ_ANYORDER);
      CK(!dd || f == FT_BOOM, "join: element %d, after one with an unusable key: %s", e, dd); COUNT("elements after an unusable one"); continue;
    }
    if (e == errat) { CK(cee_json_object_get(g, "error"), "join: element %d has an unusable key and says nothing: %s", e, jv_show(els->e[e])); COUNT("unusable keys reported");
      jv *o = els->e[e]; for (size_t i = 0; i < o->c; i++) { char *dd = real_diff(cee_json_object_get(g, o->k[i]), o->e[i], JEQ_ANYORDER); CK(!dd, "join: element %d has an unusable key, and its member %s changes: %s", e, o->k[i], dd); }
      CK(cee_map_size(cee_json_to_object(g)) == o->c + 1, "join: element %d has an unusable key and gets rows: %s", e, jv_show(o));
      ended = 1; continue; }
    char *dd = real_diff(g, exp->e[e], JEQ_ANYORDER);
    CK(!dd, "join: element %d (%s): %s", e, jv_show(els->e[e]), dd);
    COUNT("elements joined");
    for (int u = 0; u < e; u++) {}
  }
  if (f == FT_BOOM && !boomed && errat < 0 && ne) FAIL("join: a statement failed and no element says so");
  if (arr) CK(cee_json_array_length(re) == (size_t)ne, "join changes the number of elements");
  real_observe(re);
}

static double real_val(void) { double d; do d = chance(40) ? (double)rndr(-100, 100) : gen_double(); while (d == 0 && signbit(d)); return d; }
static void seed_rows(void) {
  int n = (int)rnd(15), many = chance(4);
  if (many) { n = (int)rndr(60, 340); COUNT("tables of many rows"); }
  for (int i = 0; i < n; i++) {
    struct row *r = row_new(); r->v[0] = jv_i(rndr(1, many ? 2000 : 60));
    for (int c = 1; c < T.nc; c++) r->v[c] = chance(15) ? jv_new(JN) : T.c[c].ty == CEE_SQLITE3_BLOB && chance(30) ? jv_d(real_val()) : gen_val(T.c[c].ty);
    if (!row_ok(r, NULL)) continue;
    char *q = A("insert into %s values(?", T.name); for (int c = 1; c < T.nc; c++) q = A("%s,?", q);
    sqlite3_stmt *s; if (sqlite3_prepare_v2(T.db, A("%s)", q), -1, &s, 0) != SQLITE_OK) hx_harness_error("seed: %s", sqlite3_errmsg(T.db));
    for (int c = 0; c < T.nc; c++) { jv *v = r->v[c]; switch (v->t) { case JI: sqlite3_bind_int64(s, c + 1, v->i); break; case JD: sqlite3_bind_double(s, c + 1, v->d); break; case JS: sqlite3_bind_text(s, c + 1, v->s, (int)v->n, SQLITE_STATIC); break; case JBLOB: sqlite3_bind_blob(s, c + 1, v->n ? v->s : "", (int)v->n, SQLITE_STATIC); break; } }
    if (sqlite3_step(s) != SQLITE_DONE) hx_harness_error("seed row: %s", sqlite3_errmsg(T.db));
    sqlite3_finalize(s); row_put(r);
  }
}
static void select_op_child(void *a) {
  struct cee_sqlite3_stmt_strs *s = ar_alloc(sizeof *s); memset(s, 0, sizeof *s); s->table_name = T.name; s->select_stmt = A("select id from %s", T.name);
  jv *doc = jv_new(JO); jv_set(doc, "nothing", jv_i(1));
  struct cee_json *rd = real_build(T.st, doc), *st = NULL;
  cee_sqlite3_select_op(&T.cs, new_op(s, 0), rd, a ? &st : NULL);
  if (a && !st) _exit(3);
}
/* ---- opening: databases that cannot be opened, scripts that fail inside a transaction */
int sql_concurrent;
static __thread char o_path[340], *o_script;
static void failing_script(void *a) {
  sqlite3 *d = NULL; int how = (int)(uintptr_t)a;
  if (how >= 2 && (sqlite3_open(o_path, &d) != SQLITE_OK || sqlite3_exec(d, how == 2 ? "pragma foreign_keys=on" : "begin; insert into a values(8); update a set x = 9;", 0, 0, 0) != SQLITE_OK)) { fprintf(stderr, "harness: %s\n", sqlite3_errmsg(d)); _exit(0); }
  cee_sqlite3_init_db(how ? &d : NULL, o_path, o_script, true);
}
static void o_unlink(void) { char j[360]; unlink(o_path); snprintf(j, sizeof j, "%s-journal", o_path); unlink(j); }
static void op_open(void) {
  char d[256]; hx_tmpdir(d, sizeof d); int tx = chance(50); sqlite3 *db = NULL;
  switch (rnd(sql_concurrent ? 2 : 3)) {
    case 0: {       /* cannot be opened */
      int where = (int)rnd(3);
      switch (where) { case 0: snprintf(o_path, sizeof o_path, "%s/absent-%llx/db", d, (unsigned long long)(uintptr_t)&T); break; case 1: snprintf(o_path, sizeof o_path, "%s", d); break; default: snprintf(o_path, sizeof o_path, "/dev/null/db"); break; }
      char *q = chance(50) ? NULL : chance(70) ? "create table a(x);" : "no statement";
      int how = (int)rnd(3); OP("open %s %s tx=%d handle=%d", where == 0 ? "absent/db" : where == 1 ? "a directory" : "/dev/null/db", q ? q : "-", tx, how);      /* the same words in every thread */
      sqlite3_int64 m0 = sqlite3_memory_used();
      if (how == 0) LV(cee_sqlite3_init_db(NULL, o_path, q, tx));
      else LV(cee_sqlite3_init_db(&db, o_path, q, tx));
      CK(!db, "a database that cannot be opened has a handle");
      if (!sql_concurrent) CK(sqlite3_memory_used() == m0, "opening %s fails and leaves %lld bytes of a connection", o_path, (long long)(sqlite3_memory_used() - m0));
      COUNT("databases that cannot be opened");
      break;
    }
    case 1: {       /* created and closed, or created and handed over, or through an open handle */
      snprintf(o_path, sizeof o_path, "%s/op%llx", d, (unsigned long long)(uintptr_t)&T); o_unlink();
      int keep = chance(50); OP("create keep=%d tx=%d", keep, tx);
      sqlite3_int64 m0 = sqlite3_memory_used();
      if (keep && chance(50)) { LV(cee_sqlite3_init_db(&db, o_path, NULL, tx)); CK(db, "no handle"); sqlite3 *was = db; LV(cee_sqlite3_init_db(&db, o_path, "create table a(x); insert into a values(5);", tx)); CK(db == was, "the handle of an open database changes"); }
      else LV(cee_sqlite3_init_db(keep ? &db : NULL, o_path, "create table a(x); insert into a values(5);", tx));
      if (keep) { CK(db, "no handle"); CK(sqlite3_get_autocommit(db), "init_db leaves a transaction open"); CK(!sqlite3_next_stmt(db, NULL), "init_db leaves a statement open"); CK(sqlite3_close(db) == SQLITE_OK, "the new connection cannot be closed"); }
      if (!sql_concurrent) CK(sqlite3_memory_used() == m0, "creating a database leaves %lld bytes of a connection", (long long)(sqlite3_memory_used() - m0));
      sqlite3 *o; sqlite3_stmt *st; if (sqlite3_open(o_path, &o) != SQLITE_OK) hx_harness_error("reopen");
      CK(sqlite3_prepare_v2(o, "select x from a", -1, &st, 0) == SQLITE_OK && sqlite3_step(st) == SQLITE_ROW && sqlite3_column_int(st, 0) == 5 && sqlite3_step(st) == SQLITE_DONE, "the new database lacks what its script put in: %s", sqlite3_errmsg(o));
      sqlite3_finalize(st); sqlite3_close(o); o_unlink();
      COUNT("databases created");
      break;
    }
    default: {      /* a script that fails inside its transaction stops the program and changes nothing */
      static char *scripts[] = { "create table b(y); insert into a values(6); insert into nosuch values(1);", "delete from a; drop table a; selct 1;", "insert into a values(7); insert into u values(1); insert into u values(1);", "update a set x = x + 1; insert into u(v) values(null);" };
      snprintf(o_path, sizeof o_path, "%s/os%llx", d, (unsigned long long)(uintptr_t)&T); o_unlink(); o_script = scripts[rnd(4)];
      int how = (int)rnd(4);       /* no handle, a new one, one whose commit fails, one that is in a transaction already */
      if (how == 2) o_script = "insert into a values(6); insert into kid values(77); insert into u values(3);"; else if (how == 3) o_script = chance(50) ? "insert into a values(6);" : "create table b(y);";
      sqlite3 *o; sqlite3_stmt *st; if (sqlite3_open(o_path, &o) != SQLITE_OK || sqlite3_exec(o, "create table a(x); insert into a values(5); create table u(v unique not null); create table dad(k integer primary key); create table kid(k references dad deferrable initially deferred);", 0, 0, 0) != SQLITE_OK) hx_harness_error("script database");
      sqlite3_close(o);
      OP("failing script %d %s", how, o_script);
      int rc = hx_fork(failing_script, (void *)(uintptr_t)how);
      CK(rc, "a script that fails is taken for one that worked: %s", o_script);
      if (sqlite3_open(o_path, &o) != SQLITE_OK) hx_harness_error("reopen");
      CK(sqlite3_prepare_v2(o, "select (select group_concat(x) from a)||(select count(*) from u)||(select count(*) from sqlite_master where type='table')", -1, &st, 0) == SQLITE_OK && sqlite3_step(st) == SQLITE_ROW && !strcmp((const char *)sqlite3_column_text(st, 0), "504"), "a script that fails inside its transaction leaves changes: %s", o_script);
      sqlite3_finalize(st); sqlite3_close(o); o_unlink();
      COUNT("failing scripts stopped");
      break;
    }
  }
}
/* ---- sizes beyond 16 bits: rows, columns, bytes, elements */
static void v_check_el(struct cee_json *g, int64_t id, const char *what) {
  jv *w = jv_new(JO); char b[40]; sprintf(b, "t%lld", (long long)(id * 7919 % 1000003));
  jv_set(w, "id", jv_i(id)); jv_set(w, "n", jv_i(id % 1000)); jv_set(w, "t", jv_s(b, strlen(b)));
  char *dd = real_diff(g, w, JEQ_ANYORDER); CK(!dd, "%s: row %lld: %s", what, (long long)id, dd);
}
static __thread int64_t v_it_next;
static int v_it(void *cls, struct cee_state *st, struct cee_sqlite3_bind_info *info, sqlite3_stmt *s) { CK(cls == &v_it_next, "the iteration passes another context"); CK(sqlite3_column_int64(s, 0) == v_it_next, "the iteration visits row %lld, expected %lld", (long long)sqlite3_column_int64(s, 0), (long long)v_it_next); v_it_next++; return 0; }
static int64_t v_int(const char *q) { sqlite3_stmt *s; if (sqlite3_prepare_v2(T.db, q, -1, &s, 0) != SQLITE_OK || sqlite3_step(s) != SQLITE_ROW) hx_harness_error("%s: %s", q, sqlite3_errmsg(T.db)); int64_t v = sqlite3_column_int64(s, 0); sqlite3_finalize(s); return v; }
static void sql_vast(int kind) {
  if (T.db) { sqlite3_stmt *x; while ((x = sqlite3_next_stmt(T.db, NULL))) sqlite3_finalize(x); sqlite3_close(T.db); if (lock_db) sqlite3_close(lock_db); lock_db = 0; }
  memset(&T, 0, sizeof T); ntofree = 0;
  sql_setup();
  strcpy(T.path, ":memory:"); T.name = "big";
  LV(cee_sqlite3_init_db(&T.db, T.path, "create table big(id integer primary key, n integer, t text);", true));
  T.st = L(cee_state_mk(10));
  LV(cee_sqlite3_init(&T.cs, "big", T.path, T.st, T.db));
  int64_t N = 65530 + (int64_t)rnd(600);
  if (kind == 0 || kind == 3 || kind == 6) raw("begin; with recursive c(i) as (select 1 union all select i+1 from c where i<%lld) insert into big select i, i%%1000, 't'||(i*7919%%1000003) from c; commit;", (long long)N);
  OP("vast %d %lld", kind, (long long)N);
  struct cee_sqlite3_stmt_strs *ss = ar_alloc(sizeof *ss); memset(ss, 0, sizeof *ss); ss->table_name = "big";
  int rc;
  switch (kind) {
    case 0: {        /* a result of very many rows */
      int how = (int)rnd(3), W = how == 1 ? S_OBJ : S_NULL;
      struct cee_json **sp = mk_status(W), *a;
      if (how == 2) { v_it_next = 1; rc = L(cee_sqlite3_select_iter(&T.cs, NULL, NULL, "select id from big order by id", &v_it_next, v_it, sp)); CK(rc == SQLITE_DONE && v_it_next == N + 1, "an iteration over %lld rows visits %lld and returns %d", (long long)N, (long long)v_it_next - 1, rc); COUNT("iterations"); break; }
      if (how == 0) { rc = L(cee_sqlite3_select(&T.cs, NULL, NULL, "select * from big order by id", sp)); a = sdoc; }
      else { rc = L(cee_sqlite3_select_as(&T.cs, NULL, NULL, "select * from big order by id", sp, "rows")); want_kept("select_as"); a = cee_json_object_get(sdoc, "rows"); }
      CK(rc == SQLITE_DONE && a, "a select of %lld rows returns %d", (long long)N, rc);
      CK(cee_json_array_length(a) == N, "a select of %lld rows gives %lld", (long long)N, (long long)cee_json_array_length(a));
      for (int64_t i = 1; i <= N; i += i > 70 && i < N - 70 && (i < 32700 || i > 32800) ? 1 + rnd(60) : 1) v_check_el(cee_json_array_get(a, (int)i - 1), i, "select");
      break;
    }
    case 1: case 4: {        /* very many columns and variables */
      int W = 250 + (int)rnd(chance(50) ? 20 : 700), u = (int)rnd(W), wide_bad = 0; (void)wide_bad;
      char *c = ar_alloc((size_t)W * 60 + 200), *q = c, *ins = ar_alloc((size_t)W * 60 + 200), *iq = ins, *sel = ar_alloc((size_t)W * 60 + 200);
      q += sprintf(q, "create table wide(id integer primary key"); for (int i = 0; i < W; i++) q += sprintf(q, ",c%d %s", i, i % 3 == 1 ? "text" : "integer"); sprintf(q, ");");
      raw("%s", c);
      struct cee_sqlite3_bind_info *in = ar_alloc(sizeof *in * (W + 1)); memset(in, 0, sizeof *in * (W + 1));
      struct cee_sqlite3_bind_data *d = ar_alloc(sizeof *d * (W + 1)); memset(d, 0, sizeof *d * (W + 1));
      jv *doc = jv_new(JO);
      iq += sprintf(iq, "insert into wide(c0"); for (int i = 1; i < W; i++) iq += sprintf(iq, ",c%d", i); iq += sprintf(iq, ") values(@c0"); for (int i = 1; i < W; i++) iq += sprintf(iq, ",@c%d", i); sprintf(iq, ")");
      for (int i = 0; i < W; i++) {
        char b[30]; sprintf(b, "@c%d", i); in[i].var_name = ar_str(b, strlen(b)); in[i].col_name = in[i].var_name + 1; in[i].index = i;
        in[i].type = i % 3 == 1 ? CEE_SQLITE3_TEXT : i % 3 ? CEE_SQLITE3_INT : CEE_SQLITE3_INT64;
        jv *v = in[i].type == CEE_SQLITE3_TEXT ? jv_s(b, strlen(b)) : jv_i(i * 11 - 700);
        put_data(&d[i], in[i].type, v); jv_set(doc, in[i].col_name, v);
      }
      struct cee_sqlite3_db_op o = { ss, in, NULL };
      struct cee_json *rd = real_build(T.st, doc), **sp = mk_status(S_NULL);
      ss->table_name = "wide";
      int how = (int)rnd(4);
      OP("%d columns, way %d", W, how);
      switch (how) {
        case 0: rc = L(cee_sqlite3_insert(&T.cs, in, d, ins, sp, NULL, NULL)); break;
        case 1: ss->insert_dynamic = true; rc = L(cee_sqlite3_insert_op(&T.cs, L(new_cee_sqlite3_db_op(T.st, &o, sizeof *in * (W + 1))), rd, sp)); break;
        case 2: { jv *els = jv_new(JA); jv_push(els, doc); rc = L(cee_sqlite3_insert_json_array(&T.cs, "wide", real_build(T.st, els))) ? SQLITE_ERROR : SQLITE_DONE; break; }
        default: rc = L(cee_sqlite3_insert(&T.cs, L(cee_json_to_bind_info(rd)), NULL, ins, sp, NULL, NULL));
      }
      CK(rc == SQLITE_DONE && v_int("select count(*) from wide") == 1, "an insert into %d columns returns %d (%s)", W, rc, sqlite3_errmsg(T.db));
      if (kind == 4) {       /* change every second column of the one row */
        jv *nd = jv_new(JO); char *ud = ar_alloc((size_t)W * 60 + 200), *uq = ud; int m = 0;
        uq += sprintf(uq, "update wide set ");
        for (int i = 0; i < W; i++) if (i % 2 || i == u) {
          jv *v = in[i].type == CEE_SQLITE3_TEXT ? jv_s("new", 3) : jv_i(-i);
          jv_set(nd, in[i].col_name, v); jv_set(doc, in[i].col_name, v); put_data(&d[i], in[i].type, v);
          uq += sprintf(uq, "%sc%d=@c%d", m++ ? "," : "", i, i);
        }
        ss->select_stmt = "select id from wide";
        int templ = chance(60);
        if (templ) ss->update_template = "update wide set %s where id>0"; else ss->update_stmt = ud;
        sp = mk_status(S_NULL);
        struct cee_sqlite3_db_op o2 = { ss, in, NULL };
        rc = templ || chance(50) ? L(cee_sqlite3_update_op(&T.cs, L(new_cee_sqlite3_db_op(T.st, &o2, sizeof *in * (W + 1))), real_build(T.st, nd), sp)) : L(cee_sqlite3_update(&T.cs, in, d, ss, sp));
        success("update of many columns", rc); want("update of many columns", "updated_rows", jv_i(1));
      }
      sqlite3_stmt *s; if (sqlite3_prepare_v2(T.db, "select * from wide", -1, &s, 0) != SQLITE_OK || sqlite3_step(s) != SQLITE_ROW) hx_harness_error("wide");
      for (int i = 0; i < W; i++) CK(jv_eq(col_val(s, i + 1), doc->e[i], 0), "column %d of %d holds %s, not %s", i, W, jv_show(col_val(s, i + 1)), jv_show(doc->e[i]));
      sqlite3_finalize(s); (void)sel;
      jv *back = jv_new(JO); jv_set(back, "id", jv_i(1)); for (int i = 0; i < W; i++) jv_set(back, in[i].col_name, doc->e[i]);
      sp = mk_status(S_NULL);
      rc = L(cee_sqlite3_select1(&T.cs, NULL, NULL, "select * from wide", sp));
      CK(rc == SQLITE_DONE && sdoc, "a select of %d columns returns %d", W + 1, rc);
      char *dd = real_diff(sdoc, back, 0); CK(!dd, "a row of %d columns: %s", W + 1, dd);
      COUNTMAX("columns of a row", W);
      break;
    }
    case 2: case 5: {        /* very long texts and blobs */
      size_t k = 65530 + rnd(12) + (chance(50) ? rnd(200000) : 0); char *b = ar_alloc(k + 1); for (size_t i = 0; i < k; i++) b[i] = (char)('a' + i * 7 % 26); b[k] = 0;
      struct cee_sqlite3_bind_info in[4] = { { 0, "@n", "n", CEE_SQLITE3_INT }, { 1, ":t", "t", CEE_SQLITE3_TEXT }, { 2, "@b", "n", CEE_SQLITE3_BLOB } };
      struct cee_sqlite3_bind_data d[4]; memset(d, 0, sizeof d);
      jv *t = jv_s(b, k); int blob = chance(40);
      d[0].has_value = 1; d[0].i = 7; put_data(&d[1], CEE_SQLITE3_TEXT, t); put_data(&d[2], CEE_SQLITE3_BLOB, v_blob(b, k));
      struct cee_json **sp = mk_status(S_NULL);
      OP("%zu bytes blob=%d", k, blob);
      if (kind == 2) { rc = L(cee_sqlite3_insert(&T.cs, in, d, blob ? "insert into big(n,t) values(@b,:t)" : "insert into big(n,t) values(@n,:t)", sp, NULL, NULL)); success("insert of a long text", rc); want("insert of a long text", "last_insert_rowid", jv_i(1)); }
      else {
        raw("insert into big(n,t) values(1,'short')"); ss->select_stmt = "select id from big where n=1";
        jv *doc = jv_new(JO); jv_set(doc, "t", t); jv_set(doc, "n", jv_i(7)); struct cee_sqlite3_bind_info *i2 = ar_alloc(sizeof in); memcpy(i2, in, sizeof in); memset(&i2[2], 0, sizeof i2[2]);
        struct cee_sqlite3_db_op o = { ss, i2, NULL };
        if (chance(50)) { ss->update_template = "update big set %s where id=1"; rc = L(cee_sqlite3_update_op(&T.cs, L(new_cee_sqlite3_db_op(T.st, &o, sizeof in)), real_build(T.st, doc), sp)); blob = 0; }
        else { ss->update_stmt = blob ? "update big set t=:t, n=@b where id=1" : "update big set t=:t, n=@n where id=1"; rc = L(cee_sqlite3_update(&T.cs, in, d, ss, sp)); }
        success("update with a long text", rc); want("update with a long text", "updated_rows", jv_i(1));
      }
      sqlite3_stmt *s; if (sqlite3_prepare_v2(T.db, "select n,t from big", -1, &s, 0) != SQLITE_OK || sqlite3_step(s) != SQLITE_ROW) hx_harness_error("long");
      CK(jv_eq(col_val(s, 1), t, 0), "a text of %zu bytes is stored with %d", k, sqlite3_column_bytes(s, 1));
      CK(jv_eq(col_val(s, 0), blob ? v_blob(b, k) : jv_i(7), 0), "next to a text of %zu bytes the other column is wrong", k);
      sqlite3_finalize(s);
      sp = mk_status(S_NULL); rc = L(cee_sqlite3_select1(&T.cs, NULL, NULL, "select t, n from big", sp));
      CK(rc == SQLITE_DONE && sdoc, "a select of a long text returns %d", rc);
      want("select of a long text", "t", t); if (!blob) want("select of a long text", "n", jv_i(7)); else { jv *w = v_blob(b, k); want("select of a long blob", "n", w); }
      COUNTMAX("bytes of a text", k);
      break;
    }
    case 3: {        /* writes to very many rows */
      struct cee_json **sp = mk_status(S_NULL);
      struct cee_sqlite3_bind_info in[2] = { { 0, "@n", "n", CEE_SQLITE3_INT } }; struct cee_sqlite3_bind_data d[2]; memset(d, 0, sizeof d); d[0].has_value = 1; d[0].i = -5;
      int g = L(cee_sqlite3_next_int(&T.cs, "id", "from big", sp)); CK(g == N + 1, "next_int of %lld rows gives %d", (long long)N, g);
      ss->select_stmt = "select id from big where id>0"; ss->update_stmt = "update big set n=@n where id>0";
      rc = L(cee_sqlite3_update(&T.cs, in, d, ss, sp)); success("update of many rows", rc); want("update of many rows", "updated_rows", jv_i(N));
      CK(v_int("select count(*) from big where n=-5") == N, "an update of %lld rows reaches %lld", (long long)N, (long long)v_int("select count(*) from big where n=-5"));
      sp = mk_status(S_NULL); rc = L(cee_sqlite3_delete(&T.cs, in, d, "delete from big where n=@n and id<>3", sp, NULL));
      success("delete of many rows", rc); want("delete of many rows", "deleted", jv_i(N - 1));
      CK(v_int("select count(*) from big") == 1 && v_int("select id from big") == 3, "a delete of %lld rows leaves others", (long long)N - 1);
      COUNTN("rows updated", N);
      break;
    }
    default: {       /* joins: very many elements, or very many rows for one */
      int many = kind == 6, ne = many ? 3 : chance(75) ? 300 + (int)rnd(400) : 65530 + (int)rnd(50);
      if (!many) { raw("with recursive c(i) as (select 1 union all select i+1 from c where i<400) insert into big select i, i%%100, 't'||i from c; create index bn on big(n);"); }
      jv *els = jv_new(JA);
      for (int e = 0; e < ne; e++) { jv *o = jv_new(JO); jv_set(o, "link", jv_i(many ? e : e % 450)); jv_push(els, o); }
      struct cee_sqlite3_bind_info in[2] = { { 0, "@k", "link", CEE_SQLITE3_INT } };
      struct cee_sqlite3_bind_data d[2]; memset(d, 0, sizeof d); d[0].has_value = 1;
      struct cee_json *re = real_build(T.st, els);
      OP("join of %d elements", ne);
      LV(cee_sqlite3_json_array_join_table(&T.cs, re, in, d, many ? "select id from big where n%2=@k order by id" : "select id,n from big where id=@k", "rows"));
      CK(cee_json_array_length(re) == ne, "a join changes %d elements to %lld", ne, (long long)cee_json_array_length(re));
      for (int e = 0; e < ne; e++) {
        if (!many && e > 300 && e < ne - 300 && e % 16) continue;
        struct cee_json *g = cee_json_array_get(re, e), *rows = cee_json_object_get(g, "rows"); int64_t id = e % 450;
        int64_t want_n = many ? (e == 0 ? N / 2 : e == 1 ? N - N / 2 : 0) : id >= 1 && id <= 400;
        CK(rows || !want_n, "join: element %d of %d has no rows", e, ne);
        int64_t have = rows ? cee_json_array_length(rows) : 0, x = 0;
        CK(have == want_n, "join: element %d of %d has %lld rows, expected %lld", e, ne, (long long)have, (long long)want_n);
        if (many) for (int64_t i = 0; i < have; i += 1 + (i > 100 && i < have - 100 ? rnd(50) : 0)) { struct cee_json *r = cee_json_array_get(rows, (int)i), *ri = cee_json_object_get(r, "id"); CK(ri && !cee_json_to_i64x(ri, &x) && x == (e == 0 ? 2 * i + 2 : 2 * i + 1), "join: row %lld of element %d is row %lld of the table", (long long)i, e, (long long)x); }
        else if (have) { struct cee_json *r = cee_json_array_get(rows, 0), *ri = cee_json_object_get(r, "id"); CK(ri && !cee_json_to_i64x(ri, &x) && x == id, "join: element %d of %d has row %lld, expected %lld", e, ne, (long long)x, (long long)id); }
      }
      COUNTN("rows joined", many ? N : ne); COUNTMAX("elements joined at once", ne);
    }
  }
  hx->nontrivial = 1; COUNT("histories beyond 16-bit sizes");
  LV(cee_del(T.st));
  if (!hx_warm && hx_track && hx_live_blocks()) { char b[300]; hx_describe_live(0, b, sizeof b); FAIL("%llu blocks are left after the state is deleted: %s", (unsigned long long)hx_live_blocks(), b); }
  if (hx_live_blocks()) hx_forget_all();
  rc = sqlite3_close(T.db);
  CK(rc == SQLITE_OK, "the connection cannot be closed: %d", rc);
  T.db = NULL;
  for (int i = 0; i < ntofree; i++) free(tofree[i]);
  ntofree = 0;
}
static void hist(int foc) {
  if (hx->casenr % 331 == 77 && foc != FOC_ERRORS) { int q = (int)(hx->casenr / 331); sql_vast(foc == FOC_ROWS ? q % 3 : foc == FOC_WRITES ? 3 + q % 3 : 6 + q % 2); return; }
  static const int wt[4][10] = {
    /* ins json noinf array bfj select write delete next/run/misc join */
    { 16, 14, 6, 8, 6, 30, 6, 4, 6, 4 },
    { 10, 6, 2, 2, 2, 8, 44, 14, 10, 2 },
    { 14, 12, 2, 6, 4, 20, 24, 8, 10, 8 },
    { 8, 4, 2, 4, 2, 14, 4, 4, 2, 60 } };
  focus = foc;
  open_table();
  if (foc == FOC_ERRORS && chance(6)) op_open();
  set_defaults();
  seed_rows();
  audit = chance(50); aud_i = aud_u = aud_d = 0;
  if (audit) {
    raw("create table audit(k,id); create trigger au_i after insert on %s begin insert into audit values('i',new.id); end; create trigger au_u after update on %s begin insert into audit values('u',new.id); end; create trigger au_d after delete on %s begin insert into audit values('d',old.id); end", T.name, T.name, T.name);
    OP("audited by triggers");
  }
  verify_db("seeding");
  int steps = (int)rndr(4, hx_thorough ? 60 : 24);
  for (int s = 0; s < steps; s++) {
    int x = (int)rnd(100), op = 0;
    while (op < 9 && x >= wt[foc][op]) x -= wt[foc][op++];
    if (full() && (T.nr >= MAXR - 50 || chance(10))) trim_table();
    switch (op) {
      case 0: op_insert_bind(); break; case 1: op_insert_json(); break; case 2: op_insert_noinfo(); break; case 3: op_insert_array(); break; case 4: op_bind_from_json(); break;
      case 5: op_select(); break; case 6: op_write(); break; case 7: op_delete(); break; case 9: op_join(); break;
      default: switch (rnd(3)) { case 0: op_next_int(); break; case 1: op_run_sql(); break; default: op_misc(); } break;
    }
    verify_db("the operation");
    if (chance(8)) set_defaults();
    hx->nontrivial = 1;
  }
  if (!sqlite3_get_autocommit(T.db)) { cee_sqlite3_end_transaction(T.db); verify_db("end_transaction"); }
  if (foc == FOC_ROWS && hx->casenr % 2 == 0 && chance(6)) {
    int st = hx_fork(select_op_child, (void *)1);
    if (st) COUNT("known:select_op-status"); else COUNT("select_op with a result");
  }
  /* nothing is left in the state, nothing open in the database */
  if (chance(20)) { sdoc = NULL; LV(cee_state_gc(T.st)); }
  LV(cee_del(T.st));
  if (!hx_warm && hx_track && hx_live_blocks()) { char b[300]; hx_describe_live(0, b, sizeof b); FAIL("%llu blocks are left after the state is deleted: %s", (unsigned long long)hx_live_blocks(), b); }
  if (hx_live_blocks()) hx_forget_all();
  if (chance(5) && !T.file) {
    OP("drop_all_tables"); LV(cee_sqlite3_drop_all_tables(&T.db, T.path));
    sqlite3_stmt *q; CK(sqlite3_prepare_v2(T.db, "select count(*) from sqlite_master where type='table'", -1, &q, 0) == SQLITE_OK && sqlite3_step(q) == SQLITE_ROW, "drop_all_tables: %s", sqlite3_errmsg(T.db));
    CK(sqlite3_column_int(q, 0) == 0, "drop_all_tables leaves %d tables", sqlite3_column_int(q, 0)); sqlite3_finalize(q); COUNT("databases emptied");
  }
  int rc = sqlite3_close(T.db);
  CK(rc == SQLITE_OK, "the connection cannot be closed: %d", rc);
  T.db = NULL;
  for (int i = 0; i < ntofree; i++) free(tofree[i]);
  ntofree = 0;
}
void d_c25(void) { hist(FOC_ROWS); }
void d_c26(void) { hist(FOC_WRITES); }
void d_c27(void) { hist(FOC_ERRORS); }
void d_c28(void) { hist(FOC_JOINS); }
