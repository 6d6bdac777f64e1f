From a611ea1ed20615980d801b4198e373b8291f068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 01/67] fix: size formatted strings with the copied va_list

cee_str_mkv consumed ap while measuring and then formatted with the
exhausted list, so every string built through it (JSON keys included)
held garbage.
---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 9e70323..9083bec 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1914,7 +1914,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
diff --git a/str.c b/str.c
index 458626b..df207c0 100644
--- a/str.c
+++ b/str.c
@@ -77,7 +77,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
-- 
2.43.0


From fc8cce908fc69f5180ae4d5977cb5fa141944730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 02/67] fix: terminate the trace chain when a resized block is
 re-chained

A resized string kept its old forward link, which made the chain cyclic
and cee_state_gc loop forever or sweep freed blocks.
---
 cee-resize.h  |  1 +
 release/cee.c | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cee-resize.h b/cee-resize.h
index dc49b5a..ae957b5 100644
--- a/cee-resize.h
+++ b/cee-resize.h
@@ -6,6 +6,7 @@ static void S(chain) (struct S(header) * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
diff --git a/release/cee.c b/release/cee.c
index 9083bec..a1131b2 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1390,6 +1390,7 @@ static void _cee_boxed_chain (struct _cee_boxed_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -1805,6 +1806,7 @@ static void _cee_str_chain (struct _cee_str_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -2262,6 +2264,7 @@ static void _cee_dict_chain (struct _cee_dict_header * h, struct cee_state * st)
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -2427,6 +2430,7 @@ static void _cee_map_chain (struct _cee_map_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -2807,6 +2811,7 @@ static void _cee_set_chain (struct _cee_set_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3131,6 +3136,7 @@ static void _cee_stack_chain (struct _cee_stack_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3298,6 +3304,7 @@ static void _cee_tuple_chain (struct _cee_tuple_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3426,6 +3433,7 @@ static void _cee_triple_chain (struct _cee_triple_header * h, struct cee_state *
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3547,6 +3555,7 @@ static void _cee_quadruple_chain (struct _cee_quadruple_header * h, struct cee_s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3668,6 +3677,7 @@ static void _cee_list_chain (struct _cee_list_header * h, struct cee_state * st)
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -3872,6 +3882,7 @@ static void _cee_tagged_chain (struct _cee_tagged_header * h, struct cee_state *
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4020,6 +4031,7 @@ static void _cee_closure_chain (struct _cee_closure_header * h, struct cee_state
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4136,6 +4148,7 @@ static void _cee_block_chain (struct _cee_block_header * h, struct cee_state * s
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4272,6 +4285,7 @@ static void _cee_n_tuple_chain (struct _cee_n_tuple_header * h, struct cee_state
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
@@ -4406,6 +4420,7 @@ static void _cee_env_chain (struct _cee_env_header * h, struct cee_state * st) {
   h->cs.state = st;
 
   h->cs.trace_prev = st->trace_tail;
+  h->cs.trace_next = NULL; /* a resized struct may carry its old link */
   st->trace_tail->trace_next = &h->cs;
 
   st->trace_tail = &h->cs;
-- 
2.43.0


From 46d92f7df070d7d7266476d557052d44908d5c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 03/67] fix: never use the mark of fresh blocks as a gc mark

Every other gc used mark 0, which fresh blocks carry, so garbage
allocated since the previous gc survived.
---
 release/cee.c | 5 +++--
 state.c       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index a1131b2..6cfd18f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4673,10 +4673,11 @@ void cee_state_gc (struct cee_state * s) {
   cee_trace(s, (enum cee_trace_action)mark);
   _cee_state_sweep(s, (enum cee_trace_action) mark);
 
-  if (s->next_mark == 0) {
+  /* never use 0, it is the mark of blocks allocated since the last gc */
+  if (s->next_mark == 2) {
     s->next_mark = 1;
   } else {
-    s->next_mark = 0;
+    s->next_mark = 2;
   }
 }
 
diff --git a/state.c b/state.c
index a76f1cb..33a4290 100644
--- a/state.c
+++ b/state.c
@@ -148,9 +148,10 @@ void cee_state_gc (struct cee_state * s) {
   cee_trace(s, (enum cee_trace_action)mark);
   S(sweep)(s, (enum cee_trace_action) mark);
   
-  if (s->next_mark == 0) {
+  /* never use 0, it is the mark of blocks allocated since the last gc */
+  if (s->next_mark == 2) {
     s->next_mark = 1;
   } else {
-    s->next_mark = 0;
+    s->next_mark = 2;
   }
 }
-- 
2.43.0


From b0728a9733b220d9c22a7b34e212f228db4e2bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 04/67] fix: keep the insertion order list of a live map alive
 in gc

The list was never marked, so the first gc freed it and the next update
or listing of the map used freed memory.
---
 map.c         | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/map.c b/map.c
index ee52dd6..38904b8 100644
--- a/map.c
+++ b/map.c
@@ -68,6 +68,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], S(trace_pair));
       break;
   }
diff --git a/release/cee.c b/release/cee.c
index 6cfd18f..4f4893f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2525,6 +2525,7 @@ static void _cee_map_trace(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], _cee_map_trace_pair);
       break;
   }
-- 
2.43.0


From 33b11e73af63877e02acaee60c30a383139aaaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 05/67] fix: visit every block at most once while marking

Marking followed shared blocks once per path and never returned on
cyclic graphs.
---
 cee-common.c  | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cee-common.c b/cee-common.c
index effb658..bd9496d 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -15,6 +15,8 @@ void cee_trace (void *p, enum cee_trace_action ta) {
   if (!p) return;
   
   struct cee_sect * cs = FIND_SECT(p);
+  /* already marked in this gc: don't follow shared or cyclic paths again */
+  if (ta > CEE_TRACE_MARK && cs->gc_mark == ta - CEE_TRACE_MARK) return;
   cs->trace(p, ta);
 }
 
diff --git a/release/cee.c b/release/cee.c
index 4f4893f..95ad9a2 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1247,6 +1247,8 @@ void cee_trace (void *p, enum cee_trace_action ta) {
   if (!p) return;
 
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
+  /* already marked in this gc: don't follow shared or cyclic paths again */
+  if (ta > CEE_TRACE_MARK && cs->gc_mark == ta - CEE_TRACE_MARK) return;
   cs->trace(p, ta);
 }
 
-- 
2.43.0


From 5d55a1259c57f9fd0daeb8b4c66ceec48331b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 06/67] fix: mark closures and their environments in gc

Reachable closures were swept by the first gc.
---
 closure.c     | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/closure.c b/closure.c
index cd0fd23..96cab35 100644
--- a/closure.c
+++ b/closure.c
@@ -28,6 +28,8 @@ static void S(trace) (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
diff --git a/release/cee.c b/release/cee.c
index 95ad9a2..4f12caf 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4101,6 +4101,8 @@ static void _cee_closure_trace (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
-- 
2.43.0


From 218eeab761316e4013ad2772f9feebd5e0c662a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 07/67] fix: don't reference count keys in the insertion order
 list of a map

The list counted keys whatever the delete policy of the map, and
freed keys of maps created with CEE_DP_NOOP.
---
 map.c         | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/map.c b/map.c
index 38904b8..489d40f 100644
--- a/map.c
+++ b/map.c
@@ -85,7 +85,7 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   ZERO_CEE_SECT(&m->cs);
diff --git a/release/cee.c b/release/cee.c
index 4f12caf..dbda237 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2544,7 +2544,7 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct _cee_map_header);
   struct _cee_map_header * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   do{ memset(&m->cs, 0, sizeof(struct cee_sect)); } while(0);;
-- 
2.43.0


From fd1ffac2fa7f8622d5d712d14a8045b4218cfa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 08/67] fix: pass the delete policy when the elements of a set
 are deleted

cee_del of a non-empty set dereferenced NULL.
---
 release/cee.c | 2 +-
 set.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index dbda237..3229320 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2900,7 +2900,7 @@ static void _cee_set_trace(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], _cee_set_free_pair_follow);
+      musl_tdestroy(&h->del_policy, h->_[0], _cee_set_free_pair_follow);
       _cee_set_de_chain(h);
       free(h);
       break;
diff --git a/set.c b/set.c
index 88ca5ff..ccf7d5e 100644
--- a/set.c
+++ b/set.c
@@ -51,7 +51,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], S(free_pair_follow));
+      musl_tdestroy(&h->del_policy, h->_[0], S(free_pair_follow));
       S(de_chain)(h);
       free(h);
       break;
-- 
2.43.0


From bfdff023a61de48cd20c70882f976175784ba42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 09/67] fix: drop the reference of an element removed from a
 set

As cee_list_remove and cee_map_remove do.
---
 release/cee.c | 1 +
 set.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 3229320..9969685 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3036,6 +3036,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, _cee_set_cmp);
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
diff --git a/set.c b/set.c
index ccf7d5e..8d387d8 100644
--- a/set.c
+++ b/set.c
@@ -187,6 +187,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, S(cmp));
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
-- 
2.43.0


From 10cbfa6000e2af5e47dc60e04738c0d857716614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 10/67] fix: treat a NULL set or map as documented

cee.h promises NULL, 0 or true for these calls, they crashed.
---
 map.c         | 4 ++--
 release/cee.c | 8 ++++++--
 set.c         | 4 ++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/map.c b/map.c
index 489d40f..ac6b80e 100644
--- a/map.c
+++ b/map.c
@@ -153,7 +153,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) * b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
@@ -179,7 +179,7 @@ static void cee_map_ordered_key_delete(struct S(header) *b, void *deleted_key){
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) *b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
diff --git a/release/cee.c b/release/cee.c
index 9969685..1d0e609 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2612,7 +2612,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
@@ -2638,7 +2638,7 @@ static void cee_map_ordered_key_delete(struct _cee_map_header *b, void *deleted_
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
@@ -2945,11 +2945,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size == 0;
 }
@@ -2996,6 +2998,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void **oldp = (void **) musl_tfind(h, key, h->_, _cee_set_cmp);
   if (oldp == NULL)
@@ -3028,6 +3031,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void ** old = (void **)musl_tfind(h, key, h->_, _cee_set_cmp);
   if (old == NULL)
diff --git a/set.c b/set.c
index 8d387d8..f0d0521 100644
--- a/set.c
+++ b/set.c
@@ -96,11 +96,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct S(header) * h = FIND_HEADER(s);
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct S(header) * h = FIND_HEADER(s);
   return h->size == 0;
 }
@@ -147,6 +149,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void **oldp = (void **) musl_tfind(h, key, h->_, S(cmp));
   if (oldp == NULL)
@@ -179,6 +182,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void ** old = (void **)musl_tfind(h, key, h->_, S(cmp));
   if (old == NULL)
-- 
2.43.0


From addee393b37d1dae78277914c254c34f099fb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 11/67] fix: return 0 when an empty list is iterated

An uninitialized value was returned.
---
 list.c        | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.c b/list.c
index 86a29b1..4be0a17 100644
--- a/list.c
+++ b/list.c
@@ -135,7 +135,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
 		       int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct S(header) *m = FIND_HEADER(x);
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
diff --git a/release/cee.c b/release/cee.c
index 1d0e609..f1b1954 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3856,7 +3856,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
          int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct _cee_list_header *m = (struct _cee_list_header *)((void *)((char *)(x) - (__builtin_offsetof(struct _cee_list_header, _))));
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
-- 
2.43.0


From a3af4ec170ea6c533d2d2c64b18a0f10144196d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 12/67] fix: merge a list into itself without looping forever

Merging the same JSON document twice reaches this, since the first merge
shares its arrays.
---
 cee-json/release/cee-json.c |  5 +++--
 cee-json/value.c            |  5 +++--
 list.c                      | 11 ++++-------
 release/cee.c               | 10 ++++------
 4 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 748e29d..4b7312f 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -843,8 +843,9 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  /* s may be d: only append the elements present at the begin */
+  size_t i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
diff --git a/cee-json/value.c b/cee-json/value.c
index da17aab..f837c91 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -619,8 +619,9 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  /* s may be d: only append the elements present at the begin */
+  size_t i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
diff --git a/list.c b/list.c
index 4be0a17..156f8e8 100644
--- a/list.c
+++ b/list.c
@@ -143,13 +143,10 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int S(_add_v)(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
-
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, S(_add_v));
+  /* src may be dest: only merge the elements present at the begin */
+  size_t i, n = cee_list_size(src);
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
diff --git a/release/cee.c b/release/cee.c
index f1b1954..3928e42 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3864,15 +3864,13 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int _cee_list__add_v(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
 
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, _cee_list__add_v);
+  /* src may be dest: only merge the elements present at the begin */
+  size_t i, n = cee_list_size(src);
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
 
 struct _cee_tagged_header {
-- 
2.43.0


From 453bb9cc3ac95f1a69382c95981f62aa49381e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 13/67] fix: saturate in_degree instead of wrapping around

The 65536th reference reset the count to 0, and dropping one of them
freed a block that all others still point to.
---
 cee-common.c  | 8 +++++++-
 release/cee.c | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/cee-common.c b/cee-common.c
index bd9496d..0ceb5f5 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -41,6 +41,9 @@ void cee_del_ref(void *p) {
   
   struct cee_sect * cs = FIND_SECT(p);
   
+  /* a saturated in_degree is unknown, leave the block to its state */
+  if (cs->in_degree == UINT16_MAX) return;
+
   if (cs->in_degree) cs->in_degree --;
   
   /* if it's retained by an owner,
@@ -71,13 +74,16 @@ static void _cee_common_incr_rc (void * p) {
   struct cee_sect * cs = FIND_SECT(p);
   if (cs->retained) return;
   
-  cs->in_degree ++;
+  if (cs->in_degree < UINT16_MAX)
+    cs->in_degree ++;
 }
 
 static void _cee_common_decr_rc (void * p) {
   struct cee_sect * cs = FIND_SECT(p);
   if (cs->retained) return;
   
+  if (cs->in_degree == UINT16_MAX) return;
+
   if (cs->in_degree)
     cs->in_degree --;
   else {
diff --git a/release/cee.c b/release/cee.c
index 3928e42..1b97a09 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1272,6 +1272,8 @@ void cee_del_ref(void *p) {
   if (!p) return;
 
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
+  /* a saturated in_degree is unknown, leave the block to its state */
+  if (cs->in_degree == UINT16_MAX) return;
 
   if (cs->in_degree) cs->in_degree --;
 
@@ -1302,6 +1304,7 @@ void cee_use_malloc(void * p) {
 static void _cee_common_incr_rc (void * p) {
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
   if (cs->retained) return;
+  if (cs->in_degree < UINT16_MAX)
 
   cs->in_degree ++;
 }
@@ -1309,6 +1312,7 @@ static void _cee_common_incr_rc (void * p) {
 static void _cee_common_decr_rc (void * p) {
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
   if (cs->retained) return;
+  if (cs->in_degree == UINT16_MAX) return;
 
   if (cs->in_degree)
     cs->in_degree --;
-- 
2.43.0


From a360ec5a8e3e60515a07f7f991a4140c786a3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 14/67] fix: keep the rc of values exact when a map entry is
 merged or re-added

A value that was not stored, or was stored already, stayed counted for
the temporary tuple, so it was never freed.
---
 map.c         | 6 ++++++
 release/cee.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/map.c b/map.c
index ac6b80e..56c3283 100644
--- a/map.c
+++ b/map.c
@@ -137,7 +137,13 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
     if (new_value != old_value) {
       t1->_[1] = new_value; 
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
+      if (new_value != value) {
+        cee_incr_indegree(b->del_policies._.val, new_value);
+        cee_decr_indegree(b->del_policies._.val, value); /* t gives up value */
+      }
     }
+    else if (value != old_value || b->del_policies._.val == CEE_DP_DEL_RC)
+      cee_decr_indegree(b->del_policies._.val, value); /* t gives up value */
     cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);    
     return old_value;
diff --git a/release/cee.c b/release/cee.c
index 1b97a09..8001239 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2600,7 +2600,13 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
     if (new_value != old_value) {
       t1->_[1] = new_value;
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
+      if (new_value != value) {
+        cee_incr_indegree(b->del_policies._.val, new_value);
+        cee_decr_indegree(b->del_policies._.val, value); /* t gives up value */
     }
+    }
+    else if (value != old_value || b->del_policies._.val == CEE_DP_DEL_RC)
+      cee_decr_indegree(b->del_policies._.val, value); /* t gives up value */
     cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);
     return old_value;
-- 
2.43.0


From 2428d89a8c71c96f853b10667047612aad465d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 15/67] fix: count the references of an environment

Deleting one environment freed the outer environment and variables
that other environments or containers still used.
---
 env.c         | 4 ++++
 release/cee.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/env.c b/env.c
index 983c90f..ac5f3af 100644
--- a/env.c
+++ b/env.c
@@ -58,6 +58,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
   
   return &h->_;
 }
diff --git a/release/cee.c b/release/cee.c
index 8001239..f786026 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4534,6 +4534,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
 
   return &h->_;
 }
-- 
2.43.0


From 15a5c94e9336ca15459528ae0b6bfbb617e34a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 16/67] fix: apply the delete policy of a dict to its elements

It was applied to the inner lists, which always counted references.
---
 dict.c        | 8 ++++----
 release/cee.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dict.c b/dict.c
index fee19b8..2cd14a9 100644
--- a/dict.c
+++ b/dict.c
@@ -35,8 +35,8 @@ static void S(trace)(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       S(de_chain)(m);
       free(m);
@@ -54,10 +54,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
   
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
   
   m->size = size;
diff --git a/release/cee.c b/release/cee.c
index f786026..b1cc3f0 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2337,8 +2337,8 @@ static void _cee_dict_trace(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       _cee_dict_de_chain(m);
       free(m);
@@ -2356,10 +2356,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct _cee_dict_header);
   struct _cee_dict_header * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
 
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
 
   m->size = size;
-- 
2.43.0


From 7b9b8f95262c10ae96c60e3aa46426f8ac349d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 17/67] fix: don't read a string after it was reallocated in
 cee_str_add

---
 release/cee.c | 4 ++--
 str.c         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index b1cc3f0..66c0415 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2038,8 +2038,8 @@ struct cee_str * cee_str_add(struct cee_str * str, char c) {
   }else{
     struct _cee_str_header * b1 = _cee_str_resize(b, (2 * ((b->cs.mem_block_size) > (64) ? (b->cs.mem_block_size): (64))));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct _cee_str_header);
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c; /* b may be freed by now */
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
diff --git a/str.c b/str.c
index df207c0..9f76b0f 100644
--- a/str.c
+++ b/str.c
@@ -193,8 +193,8 @@ struct cee_str * cee_str_add(struct cee_str * str, char c) {
   }else{
     struct S(header) * b1 = S(resize)(b, _CEE_NEWSIZE(b->cs.mem_block_size, CEE_BLOCK));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct S(header));
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c; /* b may be freed by now */
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
-- 
2.43.0


From d217f2529049c4da036bb21a0bf9958b261323e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 18/67] fix: terminate the string made by cee_str_strn

---
 release/cee.c | 1 +
 str.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 66c0415..a74719a 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1909,6 +1909,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct _cee_str_header);
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
diff --git a/str.c b/str.c
index 9f76b0f..ac49bbf 100644
--- a/str.c
+++ b/str.c
@@ -64,6 +64,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct S(header));
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
-- 
2.43.0


From 2c564285122ab089ca93bd2b735823fd85774bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 19/67] fix: allocate the n bytes asked for by cee_str_mk_e

n was ignored when a format is given, contrary to cee.h.
---
 release/cee.c | 4 ++++
 str.c         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index a74719a..6011645 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1970,7 +1970,10 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
@@ -1992,6 +1995,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
diff --git a/str.c b/str.c
index ac49bbf..9055bca 100644
--- a/str.c
+++ b/str.c
@@ -125,7 +125,10 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
@@ -147,6 +150,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
-- 
2.43.0


From 86b09e809722a429ecc6b2eed727ef00e64e2a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 20/67] fix: trim all leading and trailing white space

cee_str_ltrim kept the last leading blank, cee_str_rtrim never removed
the first character.
---
 release/cee.c | 4 ++--
 str.c         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 6011645..2775b95 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2105,7 +2105,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
@@ -2120,7 +2120,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
diff --git a/str.c b/str.c
index 9055bca..899e59e 100644
--- a/str.c
+++ b/str.c
@@ -260,7 +260,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
@@ -275,7 +275,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
-- 
2.43.0


From 0095ce42910790ba54b80b4b09f8780170a88a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 21/67] fix: size the results of str_replace_all and
 str_replace_all_ext

The terminator and unreplaced text were not accounted for (heap
overflow), and an empty replacement divided by zero.
---
 release/cee.c | 10 +++-------
 str.c         | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 2775b95..ab68b51 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2169,8 +2169,7 @@ str_replace_at_offset(const char *str, size_t offset, size_t len, char *new_subs
 char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
-  double ratio = new_len/old_len + 1;
-  char *new_str = malloc(orig_len * ratio);
+  char *new_str = malloc((orig_len / old_len) * new_len + orig_len + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
@@ -2196,7 +2195,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  int min_old_len = 1000, max_new_len = 0;
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -2222,10 +2221,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  size_t new_strlen = (str_len/min_old_len) * max_new_len + str_len; /* make it larger to be safer */
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
diff --git a/str.c b/str.c
index 899e59e..05d115f 100644
--- a/str.c
+++ b/str.c
@@ -324,8 +324,7 @@ str_replace_at_offset(const char *str, size_t offset, size_t len, char *new_subs
 char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
-  double ratio = new_len/old_len + 1;
-  char  *new_str = malloc(orig_len * ratio);
+  char  *new_str = malloc((orig_len / old_len) * new_len + orig_len + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
@@ -351,7 +350,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  int min_old_len = 1000, max_new_len = 0;
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -377,10 +376,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  size_t new_strlen = (str_len/min_old_len) * max_new_len + str_len; /* make it larger to be safer */
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
-- 
2.43.0


From 936800d07cf4970a64ed6d57cf456c1e2602e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 22/67] fix: chop a string view at a delimiter that ends or
 exceeds it

A delimiter longer than the view made the count wrap around, and one at
the very end was returned as part of the chunk.
---
 strview.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/strview.c b/strview.c
index 48c477b..e43fda9 100644
--- a/strview.c
+++ b/strview.c
@@ -203,21 +203,20 @@ SVDEF String_View sv_chop_by_sv(String_View *sv, String_View thicc_delim)
 {
     String_View window = sv_from_parts(sv->data, thicc_delim.count);
     size_t i = 0;
-    while (i + thicc_delim.count < sv->count 
+    while (i + thicc_delim.count <= sv->count 
         && !(sv_eq(window, thicc_delim))) 
     {
         i++;
         window.data++;
     }
 
+    if (i + thicc_delim.count > sv->count) {
+        // thicc_delim isn't found, take everything
+        return sv_chop_left(sv, sv->count);
+    }
+
     String_View result = sv_from_parts(sv->data, i);
 
-    if (i + thicc_delim.count == sv->count) {
-        // include last <thicc_delim.count> characters if they aren't 
-        //  equal to thicc_delim
-        result.count += thicc_delim.count; 
-    }
-    
     // Chop!
     sv->data  += i + thicc_delim.count;
     sv->count -= i + thicc_delim.count;
-- 
2.43.0


From d4822722b1770e6e0f63ab753d674b42cece1b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 23/67] fix: initialize singletons once, before threads can
 share them

---
 cee-json/release/cee-json.c | 10 ++++++++++
 cee-json/value.c            | 11 +++++++++++
 release/cee.c               |  4 ++++
 singleton.c                 |  4 ++++
 4 files changed, 29 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 4b7312f..a1c4d1c 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -259,6 +259,16 @@ struct cee_json * cee_json_null () {
   static char b[CEE_SINGLETON_SIZE];
   return (struct cee_json *)cee_singleton_init(b, (uintptr_t)CEE_JSON_NULL, 0);
 }
+/*
+ * the singletons are shared by all states: initialize them
+ * before any thread is created
+ */
+__attribute__((constructor)) static void init_singletons () {
+  cee_json_true();
+  cee_json_false();
+  cee_json_undefined();
+  cee_json_null();
+}
 
 struct cee_json * cee_list_to_json(struct cee_list *v) {
   struct cee_state *st = cee_get_state(v);
diff --git a/cee-json/value.c b/cee-json/value.c
index f837c91..c007eba 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -36,6 +36,17 @@ struct cee_json * cee_json_null () {
   return (struct cee_json *)cee_singleton_init(b, (uintptr_t)CEE_JSON_NULL, 0);  
 }
 
+/*
+ * the singletons are shared by all states: initialize them
+ * before any thread is created
+ */
+__attribute__((constructor)) static void init_singletons () {
+  cee_json_true();
+  cee_json_false();
+  cee_json_undefined();
+  cee_json_null();
+}
+
 struct cee_json * cee_list_to_json(struct cee_list *v) {
   struct cee_state *st = cee_get_state(v);
   return (struct cee_json *)cee_tagged_mk (st, CEE_JSON_ARRAY, v);
diff --git a/release/cee.c b/release/cee.c
index ab68b51..85f0cc5 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4024,7 +4024,11 @@ static void _cee_singleton_noop(void *p, enum cee_trace_action ta) {}
 
 struct cee_singleton * cee_singleton_init(void *s, uintptr_t tag, uintptr_t val) {
   struct _cee_singleton_header * b = (struct _cee_singleton_header* )s;
+  /* it may be shared by threads: don't write it again once it is initialized */
+  if (b->cs.trace == _cee_singleton_noop && b->_ == tag && b->val == val)
+    return (struct cee_singleton *)&(b->_);
   do{ memset(&b->cs, 0, sizeof(struct cee_sect)); } while(0);;
+  b->cs.retained = 1; /* no reference counting */
   b->cs.trace = _cee_singleton_noop;
   b->cs.resize_method = CEE_RESIZE_WITH_IDENTITY;
   b->cs.mem_block_size = 0;
diff --git a/singleton.c b/singleton.c
index 00d8fea..eb8cfe7 100644
--- a/singleton.c
+++ b/singleton.c
@@ -26,7 +26,11 @@ static void S(noop)(void *p, enum cee_trace_action ta) {}
 
 struct cee_singleton * cee_singleton_init(void *s, uintptr_t tag, uintptr_t val) {
   struct S(header) * b = (struct S(header)* )s;
+  /* it may be shared by threads: don't write it again once it is initialized */
+  if (b->cs.trace == S(noop) && b->_ == tag && b->val == val)
+    return (struct cee_singleton *)&(b->_);
   ZERO_CEE_SECT(&b->cs);
+  b->cs.retained = 1; /* no reference counting */
   b->cs.trace = S(noop);
   b->cs.resize_method = CEE_RESIZE_WITH_IDENTITY;
   b->cs.mem_block_size = 0;
-- 
2.43.0


From be06450ce4879d8412accdeb83e33a70f73809ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 24/67] fix: read no byte behind the end of the buffer to parse

---
 cee-json/release/cee-json.c | 58 ++++++++++++++++++++++-------------
 cee-json/tokenizer.c        | 61 ++++++++++++++++++++++++-------------
 2 files changed, 75 insertions(+), 44 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index a1c4d1c..7a8f1f4 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1934,11 +1934,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
 
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -2116,12 +2116,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '\0' && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end && *end != '\0') { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end || *end != '"') return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -2139,8 +2139,15 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   }
   return false; /*  ill formed string */
 }
+static bool is_digit(char *p, char *buf_end) {
+  return p < buf_end && isdigit((unsigned char)*p);
+}
+static bool is_char(char *p, char *buf_end, char c) {
+  return p < buf_end && *p == c;
+}
 
 static bool parse_number(struct tokenizer *t) {
+  char *buf_end = t->buf_end; /* there may be no '\0' after it */
   char *start = t->buf;
   char *end = start;
 
@@ -2152,31 +2159,31 @@ static bool parse_number(struct tokenizer *t) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end))
+  if (!is_digit(end, buf_end))
     return false;
 
   /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end))
+  while (is_digit(++end, buf_end))
     continue;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if (is_char(end, buf_end, '.')) {
+    if (!is_digit(++end, buf_end))
       return false;
-    while (isdigit(*++end))
+    while (is_digit(++end, buf_end))
       continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if (is_char(end, buf_end, 'e') || is_char(end, buf_end, 'E')) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if (is_char(end, buf_end, '+') || is_char(end, buf_end, '-'))
       ++end;
-    if (!isdigit(*end))
+    if (!is_digit(end, buf_end))
       return false;
-    while (isdigit(*++end))
+    while (is_digit(++end, buf_end))
       continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
@@ -2185,19 +2192,26 @@ static bool parse_number(struct tokenizer *t) {
   }
 
   /* 5th STEP: convert string to number */
-  char *endptr=NULL;
+  char *endptr=NULL, *num = NULL, small[64];
+  size_t len = end - start;
+  num = len < sizeof small ? small : malloc(len + 1);
+  memcpy(num, start, len);
+  num[len] = '\0';
   if (is_exponent || !is_integer) {
     t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+    t->number.real = strtod(num, &endptr);
   }
   else {
     t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+    t->number.i64 = strtoll(num, &endptr, 10);
   }
 
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  bool converted = num != endptr;
+  if (num != small)
+    free(num);
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -2227,17 +2241,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -2256,7 +2270,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index f7cf12a..4e0e738 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -1,6 +1,7 @@
 #ifndef CEE_JSON_AMALGAMATION
 #include <stdlib.h>
 #include <ctype.h>
+#include <string.h>
 #include "cee.h"
 #include "cee-json.h"
 #include "tokenizer.h"
@@ -179,11 +180,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
   
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -361,12 +362,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '\0' && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end && *end != '\0') { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end || *end != '"') return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -385,7 +386,16 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   return false; /*  ill formed string */
 }
 
+static bool is_digit(char *p, char *buf_end) {
+  return p < buf_end && isdigit((unsigned char)*p);
+}
+
+static bool is_char(char *p, char *buf_end, char c) {
+  return p < buf_end && *p == c;
+}
+
 static bool parse_number(struct tokenizer *t) {
+  char *buf_end = t->buf_end; /* there may be no '\0' after it */
   char *start = t->buf;
   char *end = start;
 
@@ -397,31 +407,31 @@ static bool parse_number(struct tokenizer *t) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end)) 
+  if (!is_digit(end, buf_end))
     return false;
 
   /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end)) 
+  while (is_digit(++end, buf_end))
     continue;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if (is_char(end, buf_end, '.')) {
+    if (!is_digit(++end, buf_end))
       return false;
-    while (isdigit(*++end)) 
+    while (is_digit(++end, buf_end))
       continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if (is_char(end, buf_end, 'e') || is_char(end, buf_end, 'E')) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if (is_char(end, buf_end, '+') || is_char(end, buf_end, '-'))
       ++end;
-    if (!isdigit(*end)) 
+    if (!is_digit(end, buf_end))
       return false;
-    while (isdigit(*++end))
+    while (is_digit(++end, buf_end))
       continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
@@ -430,19 +440,26 @@ static bool parse_number(struct tokenizer *t) {
   }
 
   /* 5th STEP: convert string to number */
-  char *endptr=NULL;
+  char *endptr=NULL, *num = NULL, small[64];
+  size_t len = end - start;
+  num = len < sizeof small ? small : malloc(len + 1);
+  memcpy(num, start, len);
+  num[len] = '\0';
   if (is_exponent || !is_integer) {
     t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+    t->number.real = strtod(num, &endptr);
   }
   else {
     t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+    t->number.i64 = strtoll(num, &endptr, 10);
   }
 
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  bool converted = num != endptr;
+  if (num != small)
+    free(num);
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -472,17 +489,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -501,7 +518,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
-- 
2.43.0


From 15bd127bbd1b803277111635d83dc123ad690cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 25/67] fix: reject leading zeros of fractions and exponents
 too

---
 cee-json/release/cee-json.c | 6 +++---
 cee-json/tokenizer.c        | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 7a8f1f4..da397c5 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2165,6 +2165,9 @@ static bool parse_number(struct tokenizer *t) {
   /* 2nd STEP: skips until a non digit char found */
   while (is_digit(++end, buf_end))
     continue;
+  /*  can't be a number that starts with zero followed n numbers (ex: 012, -023, 01.5) */
+  if ((end-1) != (start+offset_sign) && '0' == start[offset_sign])
+    return false;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
   if (is_char(end, buf_end, '.')) {
@@ -2186,9 +2189,6 @@ static bool parse_number(struct tokenizer *t) {
     while (is_digit(++end, buf_end))
       continue;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number */
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 4e0e738..c07eb7b 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -414,6 +414,10 @@ static bool parse_number(struct tokenizer *t) {
   while (is_digit(++end, buf_end))
     continue;
 
+  /*  can't be a number that starts with zero followed n numbers (ex: 012, -023, 01.5) */
+  if ((end-1) != (start+offset_sign) && '0' == start[offset_sign])
+    return false;
+
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
   if (is_char(end, buf_end, '.')) {
     if (!is_digit(++end, buf_end))
@@ -434,9 +438,6 @@ static bool parse_number(struct tokenizer *t) {
     while (is_digit(++end, buf_end))
       continue;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number */
-- 
2.43.0


From fee4ca08a3718865a56b3524d7bbc710ec3a11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 26/67] fix: don't clamp integers beyond the signed 64-bit
 range

---
 cee-json/release/cee-json.c | 10 ++++++++++
 cee-json/tokenizer.c        | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index da397c5..054d192 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2203,7 +2203,17 @@ static bool parse_number(struct tokenizer *t) {
   }
   else {
     t->type = NUMBER_IS_I64;
+    errno = 0;
     t->number.i64 = strtoll(num, &endptr, 10);
+    if (errno == ERANGE && !offset_sign) {
+      t->type = NUMBER_IS_U64;
+      errno = 0;
+      t->number.u64 = strtoull(num, &endptr, 10);
+    }
+    if (errno == ERANGE) {
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(num, &endptr);
+    }
   }
 
   t->buf = end; /* skips entire length of number */
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index c07eb7b..2973cdf 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -1,6 +1,7 @@
 #ifndef CEE_JSON_AMALGAMATION
 #include <stdlib.h>
 #include <ctype.h>
+#include <errno.h>
 #include <string.h>
 #include "cee.h"
 #include "cee-json.h"
@@ -452,7 +453,17 @@ static bool parse_number(struct tokenizer *t) {
   }
   else {
     t->type = NUMBER_IS_I64;
+    errno = 0;
     t->number.i64 = strtoll(num, &endptr, 10);
+    if (errno == ERANGE && !offset_sign) {
+      t->type = NUMBER_IS_U64;
+      errno = 0;
+      t->number.u64 = strtoull(num, &endptr, 10);
+    }
+    if (errno == ERANGE) {
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(num, &endptr);
+    }
   }
 
   t->buf = end; /* skips entire length of number */
-- 
2.43.0


From 4aeb19a8c2c42f275ca4f482e4bf207439e72e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 27/67] fix: reject a string that ends with a lone high
 surrogate

---
 cee-json/release/cee-json.c | 2 ++
 cee-json/tokenizer.c        | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 054d192..cb762a4 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2081,6 +2081,8 @@ second_iter:
       d++;
     }
   }
+  if (second_surrogate_expected)
+    goto return_err;
 
   switch (state) {
   case UNESCAPING:
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 2973cdf..41dc97b 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -329,6 +329,9 @@ second_iter:
     }
   }
 
+  if (second_surrogate_expected)
+    goto return_err;
+
   switch (state) {
   case UNESCAPING:
       if (!utf8_validate(out_start, d))
-- 
2.43.0


From 061eb5e92c1afc0c3b2fcc166a9be0d447b553bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 28/67] fix: indent values nested deeper than 127 levels

---
 cee-json/release/cee-json.c | 4 ++--
 cee-json/snprint.c          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index cb762a4..e5745b2 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1385,7 +1385,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -1441,7 +1441,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
 
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 789077f..338f578 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -12,7 +12,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map  * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -68,7 +68,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
   
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
-- 
2.43.0


From 8d014eff2b76de1d2301b33517a2762a8239943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 29/67] fix: print values as deeply nested as the parser
 accepts

---
 cee-json/release/cee-json.c | 3 ++-
 cee-json/snprint.c          | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index e5745b2..097f4e5 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1374,6 +1374,7 @@ int cee_json_parsex(struct cee_state * st, char * buf, uintptr_t len, struct cee
 /* JSON snprint
    C reimplementation of cppcms's json.cpp
 */
+/* a value is printed completely if the parser accepts its depth */
 
 
 
@@ -1560,7 +1561,7 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
 
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 514);
   push (st, 0, false, sp, j);
 
   uintptr_t offset = 0;
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 338f578..4e5e800 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -8,6 +8,9 @@
 #include <sys/types.h>
 #endif
 
+/* a value is printed completely if the parser accepts its depth */
+#define PRINT_DEPTH 514
+
 struct counter {
   uintptr_t next;
   struct cee_list * array;
@@ -187,7 +190,7 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
   
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, PRINT_DEPTH);
   push (st, 0, false, sp, j);
   
   uintptr_t offset = 0;
-- 
2.43.0


From 8483ab2186748cc032e79a129af965fc2312d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 30/67] fix: stay within the size of the buffer to print to

---
 cee-json/release/cee-json.c | 28 ++++++++++++++++++++++++----
 cee-json/snprint.c          | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 097f4e5..6062e7f 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1552,9 +1552,9 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
 }
 
 /*
- * compute how many bytes are needed to serialize cee_json as a string
+ * buf is NULL or large enough for the whole text
  */
-ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
+static ssize_t print_all (struct cee_state *st, char *buf, struct cee_json *j,
      enum cee_json_fmt f) {
   struct cee_tuple * cur;
   struct cee_json * cur_json;
@@ -1722,6 +1722,26 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
 }
 
 
+/*
+ * compute how many bytes are needed to serialize cee_json as a string
+ * and write at most size bytes of it, including the terminating '\0'
+ */
+ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
+     enum cee_json_fmt f) {
+  size_t len = print_all(st, NULL, j, f);
+  if (buf == NULL || size == 0)
+    return len;
+  if (len < size)
+    print_all(st, buf, j, f);
+  else {
+    char *all = malloc(len + 1);
+    print_all(st, all, j, f);
+    memcpy(buf, all, size - 1);
+    buf[size - 1] = '\0';
+    free(all);
+  }
+  return len;
+}
 /*
  * the memory allocated by this function is tracked by cee_state
  */
@@ -1730,10 +1750,10 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1/*\0*/);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
-  return cee_json_snprint(st, buf, buf_size, j, f);
+  return cee_json_snprint(st, buf, buf_size + 1, j, f);
 }
 
 
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 4e5e800..02327ad 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -181,10 +181,10 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
 }
 
 /*
- * compute how many bytes are needed to serialize cee_json as a string
+ * buf is NULL or large enough for the whole text
  */
-ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
-			  enum cee_json_fmt f) {
+static ssize_t print_all (struct cee_state *st, char *buf, struct cee_json *j,
+                          enum cee_json_fmt f) {
   struct cee_tuple * cur;
   struct cee_json * cur_json;
   struct counter * ccnt;
@@ -351,6 +351,29 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
 }
 
 
+/*
+ * compute how many bytes are needed to serialize cee_json as a string
+ * and write at most size bytes of it, including the terminating '\0'
+ */
+ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct cee_json *j,
+			  enum cee_json_fmt f) {
+  size_t len = print_all(st, NULL, j, f);
+  if (buf == NULL || size == 0)
+    return len;
+
+  if (len < size)
+    print_all(st, buf, j, f);
+  else {
+    char *all = malloc(len + 1);
+    print_all(st, all, j, f);
+    memcpy(buf, all, size - 1);
+    buf[size - 1] = '\0';
+    free(all);
+  }
+  return len;
+}
+
+
 /*
  * the memory allocated by this function is tracked by cee_state
  */
@@ -359,10 +382,10 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1/*\0*/);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
-  return cee_json_snprint(st, buf, buf_size, j, f);
+  return cee_json_snprint(st, buf, buf_size + 1, j, f);
 }
 
 
-- 
2.43.0


From f4b1690d2b6bbe8a3a0b52ec47a3ed2786592dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 31/67] fix: print doubles so that they are read back unchanged

---
 cee-json/release/cee-json.c | 30 ++++++++++++++++++++++++++++++
 cee-json/snprint.c          | 31 +++++++++++++++++++++++++++++++
 2 files changed, 61 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 6062e7f..f847389 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1551,6 +1551,23 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
   *offp = offset;
 }
 
+/*
+ * print a double with as few digits as needed to read the same double back
+ */
+static size_t double_snprint(char *buf, size_t size, double d) {
+  static const int precisions[] = { 6, 15, 16, 17 };
+  char num[32] = "null"; /* JSON has no infinity and no NaN */
+  int i;
+  if (__builtin_isfinite(d))
+    for (i = 0; i < 4; i++) {
+      snprintf(num, sizeof num, "%.*g", precisions[i], d);
+      if (strtod(num, NULL) == d)
+        break;
+    }
+  if (d == 0 && __builtin_signbit(d))
+    strcpy(num, "-0.0"); /* the integer 0 has no sign */
+  return snprintf(buf, size, "%s", num);
+}
 /*
  * buf is NULL or large enough for the whole text
  */
@@ -1645,6 +1662,19 @@ static ssize_t print_all (struct cee_state *st, char *buf, struct cee_json *j,
         }
         break;
       case CEE_JSON_DOUBLE:
+        {
+          double d = 0;
+          cee_json_to_doublex(cur_json, &d);
+          pad(&offset, buf, ccnt, f);
+          incr = double_snprint (NULL, 0, d);
+          if (buf)
+            double_snprint (buf+offset, incr+1/*\0*/, d);
+          offset+=incr;
+          if (ccnt->more_siblings)
+            delimiter(&offset, buf, f, ccnt, ',');
+          cee_del(cee_stack_pop(sp));
+        }
+        break;
       case CEE_JSON_I64:
       case CEE_JSON_U64:
         {
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 02327ad..de9ac35 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -180,6 +180,24 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
   *offp = offset;
 }
 
+/*
+ * print a double with as few digits as needed to read the same double back
+ */
+static size_t double_snprint(char *buf, size_t size, double d) {
+  static const int precisions[] = { 6, 15, 16, 17 };
+  char num[32] = "null"; /* JSON has no infinity and no NaN */
+  int i;
+  if (__builtin_isfinite(d))
+    for (i = 0; i < 4; i++) {
+      snprintf(num, sizeof num, "%.*g", precisions[i], d);
+      if (strtod(num, NULL) == d)
+        break;
+    }
+  if (d == 0 && __builtin_signbit(d))
+    strcpy(num, "-0.0"); /* the integer 0 has no sign */
+  return snprintf(buf, size, "%s", num);
+}
+
 /*
  * buf is NULL or large enough for the whole text
  */
@@ -274,6 +292,19 @@ static ssize_t print_all (struct cee_state *st, char *buf, struct cee_json *j,
         }
         break;
       case CEE_JSON_DOUBLE:
+        {
+          double d = 0;
+          cee_json_to_doublex(cur_json, &d);
+          pad(&offset, buf, ccnt, f);
+          incr = double_snprint (NULL, 0, d);
+          if (buf)
+            double_snprint (buf+offset, incr+1/*\0*/, d);
+          offset+=incr;
+          if (ccnt->more_siblings)
+            delimiter(&offset, buf, f, ccnt, ',');
+          cee_del(cee_stack_pop(sp));
+        }
+        break;
       case CEE_JSON_I64:
       case CEE_JSON_U64:
         {
-- 
2.43.0


From c7acbb796161c56b140c2319d51f26f7cf9b0c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 32/67] fix: use the field name passed for a * of a selector

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index f847389..6f76bd9 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1053,7 +1053,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
diff --git a/cee-json/value.c b/cee-json/value.c
index c007eba..eb7d88c 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -830,7 +830,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
-- 
2.43.0


From 3c203ab4dad107d5b4aeafc74c5b6b08f0d6ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 33/67] fix: select any kind of number with :n

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 6f76bd9..a3bc3d0 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1014,7 +1014,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && cee_json_to_boxed(o) == NULL) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
diff --git a/cee-json/value.c b/cee-json/value.c
index eb7d88c..aa1f53b 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -791,7 +791,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && cee_json_to_boxed(o) == NULL) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
-- 
2.43.0


From ca615a4b64ca67f89c4e8c6d515d1d0756e2b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 34/67] fix: make an array of any value of an object that is
 appended to

---
 cee-json/release/cee-json.c | 6 ++++--
 cee-json/value.c            | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index a3bc3d0..4e38bee 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -287,7 +287,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
@@ -658,7 +658,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      struct cee_state *state = cee_get_state(cee_json_to_object(j));
+      struct cee_json *llist = cee_json_array_mk(state, 2);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
diff --git a/cee-json/value.c b/cee-json/value.c
index aa1f53b..5a6787c 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -64,7 +64,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
@@ -435,7 +435,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      struct cee_state *state = cee_get_state(cee_json_to_object(j));
+      struct cee_json *llist = cee_json_array_mk(state, 2);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
-- 
2.43.0


From 8cf44bcd177e4eec385567dfd0c5e93ad03ba9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 35/67] fix: convert the string of a json object's key to i64

---
 cee-json/release/cee-json.c | 19 ++++++++-----------
 cee-json/value.c            | 22 ++++++++++------------
 2 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 4e38bee..d4eb842 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -565,17 +565,13 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
 }
 
 static int str2i64(char *s, int64_t *ip) {
-  int64_t i = 0;
-  char c ;
-  int scanned = sscanf(s, "%" SCNd64 "%c", &i, &c);
-  if (scanned == 1) {
+  char *end = s;
+  errno = 0;
+  int64_t i = strtoll(s, &end, 10);
+  if (end == s || *end != '\0' || errno == ERANGE)
+    return 1;
     if (ip) *ip = i;
     return 0;
-  }
-  if (scanned > 1) {
-    return 1;
-  }
-  return 1;
 }
 
 bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
@@ -584,13 +580,14 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
     return false;
 
   struct cee_json *old_val = cee_json_object_get(j, key);
+  if (NULL == old_val)
+    return false;
   int64_t i64 = 0;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
diff --git a/cee-json/value.c b/cee-json/value.c
index 5a6787c..a7c54c6 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -342,17 +342,13 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
 }
 
 static int str2i64(char *s, int64_t *ip) {
-  int64_t i = 0;
-  char c ;
-  int scanned = sscanf(s, "%" SCNd64 "%c", &i, &c);
-  if (scanned == 1) {
-    if (ip) *ip = i;
-    return 0;
-  }
-  if (scanned > 1) {
+  char *end = s;
+  errno = 0;
+  int64_t i = strtoll(s, &end, 10);
+  if (end == s || *end != '\0' || errno == ERANGE)
     return 1;
-  }
-  return 1;
+  if (ip) *ip = i;
+  return 0;
 }
 
 bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
@@ -361,13 +357,15 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
     return false;
   
   struct cee_json *old_val = cee_json_object_get(j, key);
+  if (NULL == old_val)
+    return false;
+
   int64_t i64 = 0;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
-- 
2.43.0


From 3b813e829ae740145d536ccb5c12d456c6765520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 36/67] fix: return no int for a number that is not an int

---
 cee-json/release/cee-json.c | 5 ++++-
 cee-json/value.c            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index d4eb842..d80653e 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -404,7 +404,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i64 = cee_boxed_to_i64(p->value.boxed);
+    if (i64 != (int)i64)
+      return ERANGE;
+    *r = (int)i64;
     return 0;
   }
   else
diff --git a/cee-json/value.c b/cee-json/value.c
index a7c54c6..42dc80e 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -181,7 +181,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i64 = cee_boxed_to_i64(p->value.boxed);
+    if (i64 != (int)i64)
+      return ERANGE;
+    *r = (int)i64;
     return 0;
   }
   else
-- 
2.43.0


From 05cc12676cede2c7fb9d31a9e8e32eb75f0ec717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 37/67] fix: escape control characters completely and within
 the buffer

---
 cee-json/release/cee-json.c | 16 +++++++++++++---
 cee-json/value.c            | 18 +++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index d80653e..68bf828 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1088,6 +1088,14 @@ int cee_json_select_as_int(struct cee_json *o, int *x, char *fmt){
     return cee_json_to_intx(i, x);
   return 1;
 }
+static size_t escaped_size(int c){
+  switch( c ){
+  case '"' : case '\\': case '\b': case '\f': case '\n': case '\r': case '\t':
+    return 2;
+  default:
+    return '\x00' <= c && c <= '\x1f' ? 6 : 1;
+  }
+}
 
 size_t cee_json_escape_string(const char *s, size_t s_size,
                               char *dest, size_t dest_size,
@@ -1095,6 +1103,8 @@ size_t cee_json_escape_string(const char *s, size_t s_size,
   int j = 0, c, i;
   for( i = 0; i < s_size; i++ ){
     c = s[i];
+    if( j + escaped_size(c) > dest_size )
+      break; /* the rest does not fit */
     switch( c ){
     case '"' : dest[j] = '\\', dest[j+1] = '"', j+= 2; break;
     case '\\': dest[j] = '\\', dest[j+1] = '\\', j+= 2; break;
@@ -1105,9 +1115,9 @@ size_t cee_json_escape_string(const char *s, size_t s_size,
     case '\t': dest[j] = '\\', dest[j+1] = 't', j+= 2; break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        char buf[8];
+        snprintf(buf, sizeof buf, "\\u%04x", c);
+        memcpy(dest+j, buf, 6), j += 6;
       }else{
         dest[j] = c, j++;
       }
diff --git a/cee-json/value.c b/cee-json/value.c
index 42dc80e..d878fd2 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -867,12 +867,24 @@ int cee_json_select_as_int(struct cee_json *o, int *x, char *fmt){
   return 1;
 }
 
+static size_t escaped_size(int c){
+  switch( c ){
+  case '"' : case '\\': case '\b': case '\f': case '\n': case '\r': case '\t':
+    return 2;
+  default:
+    return '\x00' <= c && c <= '\x1f' ? 6 : 1;
+  }
+}
+
 size_t cee_json_escape_string(const char *s,  size_t s_size,
                               char *dest, size_t dest_size,
                               char **next_dest_p, size_t *next_dest_size){
   int j = 0, c, i;
   for( i = 0; i < s_size; i++ ){
     c = s[i];
+    if( j + escaped_size(c) > dest_size )
+      break; /* the rest does not fit */
+
     switch( c ){
     case '"' : dest[j] = '\\', dest[j+1] = '"',  j+= 2; break;
     case '\\': dest[j] = '\\', dest[j+1] = '\\', j+= 2; break;
@@ -883,9 +895,9 @@ size_t cee_json_escape_string(const char *s,  size_t s_size,
     case '\t': dest[j] = '\\', dest[j+1] = 't',  j+= 2; break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        char buf[8];
+        snprintf(buf, sizeof buf, "\\u%04x", c);
+        memcpy(dest+j, buf, 6), j += 6;
       }else{
         dest[j] = c, j++;
       }
-- 
2.43.0


From 1edab8961b2abeb095eeb7a9cea2c6bc48d43051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:38 +0000
Subject: [PATCH 38/67] fix: release the state of a buffer that is no json

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 68bf828..b12f302 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -918,6 +918,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
     j = NULL;
+    cee_del(st);
   }
   return j;
 }
diff --git a/cee-json/value.c b/cee-json/value.c
index d878fd2..2d9079e 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -696,6 +696,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
     j = NULL;
+    cee_del(st);
   }
   return j;
 }
-- 
2.43.0


From b04fc06a8e2612a935d23d563a8a0254a500d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 39/67] fix: release files and memory when json files cannot be
 merged

---
 cee-json/cee_json_merge.c   | 19 +++++++++++++++----
 cee-json/release/cee-json.c | 18 ++++++++++++++----
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/cee-json/cee_json_merge.c b/cee-json/cee_json_merge.c
index 8071a49..c0d8ff9 100644
--- a/cee-json/cee_json_merge.c
+++ b/cee-json/cee_json_merge.c
@@ -4,6 +4,13 @@
 #include "cee-json.h"
 #endif
 
+static int merge_failed(struct cee_state *state, FILE *f0, FILE *fn){
+  if( fn ) fclose(fn);
+  fclose(f0);
+  cee_del(state);
+  return 1;
+}
+
 int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   static char perror_buf[128] = {0};
 
@@ -19,7 +26,11 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   j0 = cee_json_load_from_FILE(state, f0, true, &line);
   if( j0 == NULL ){
     fprintf(stderr, "error at %s:%d\n", json_files[0], line);
-    return 1;
+    return merge_failed(state, f0, NULL);
+  }
+  if( cee_json_to_object(j0) == NULL ){
+    fprintf(stderr, "%s is not an object\n", json_files[0]);
+    return merge_failed(state, f0, NULL);
   }
 
   for( int i = 1; i < json_file_count; i++ ){
@@ -27,13 +38,13 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     if( !fn ){
       snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
       perror(perror_buf);
-      return 1;
+      return merge_failed(state, f0, NULL);
     }
     line = -1;
     jn = cee_json_load_from_FILE(state, fn, true, &line);
     if( jn == NULL ){
       fprintf(stderr, "error at %s:%d\n", json_files[i], line);
-      return 1;
+      return merge_failed(state, f0, fn);
     }
     cee_json_merge(j0, jn);
     fclose(fn);
@@ -42,7 +53,7 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
-    return 1;
+    return merge_failed(state, f0, NULL);
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
   cee_json_object_set(j0, "originals", inputs);
diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index b12f302..bc41a53 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2360,6 +2360,12 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
     }
   }
 }
+static int merge_failed(struct cee_state *state, FILE *f0, FILE *fn){
+  if( fn ) fclose(fn);
+  fclose(f0);
+  cee_del(state);
+  return 1;
+}
 
 
 
@@ -2381,7 +2387,11 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   j0 = cee_json_load_from_FILE(state, f0, true, &line);
   if( j0 == NULL ){
     fprintf(stderr, "error at %s:%d\n", json_files[0], line);
-    return 1;
+    return merge_failed(state, f0, NULL);
+  }
+  if( cee_json_to_object(j0) == NULL ){
+    fprintf(stderr, "%s is not an object\n", json_files[0]);
+    return merge_failed(state, f0, NULL);
   }
 
   for( int i = 1; i < json_file_count; i++ ){
@@ -2389,13 +2399,13 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     if( !fn ){
       snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
       perror(perror_buf);
-      return 1;
+      return merge_failed(state, f0, NULL);
     }
     line = -1;
     jn = cee_json_load_from_FILE(state, fn, true, &line);
     if( jn == NULL ){
       fprintf(stderr, "error at %s:%d\n", json_files[i], line);
-      return 1;
+      return merge_failed(state, f0, fn);
     }
     cee_json_merge(j0, jn);
     fclose(fn);
@@ -2404,7 +2414,7 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
-    return 1;
+    return merge_failed(state, f0, NULL);
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
   cee_json_object_set(j0, "originals", inputs);
-- 
2.43.0


From 4a955828812de98073111cafc4487736314291a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 40/67] fix: report errors of a select and finalize its
 statement

---
 sqlite3/cee-sqlite3.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 51fc7ea..81f7309 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -206,6 +206,9 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
         if( bound[i] == 0 ){ // this parameter is not bound.
           const char *parameter = sqlite3_bind_parameter_name(sql_stmt, i+1);
           cee_json_set_error(ret, "SQL:%s:'%s' the %dth parameter '%s' is not bound", cs->db_name, sql, i+1, parameter);
+          sqlite3_finalize(sql_stmt);
+          if( sql_stmt_pp )
+            *sql_stmt_pp = NULL;
           return SQLITE_ERROR;
         }
       }
@@ -419,21 +422,19 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
   struct cee_json *result = NULL, *my_status = NULL;
   
   int rc = cee_sqlite3_bind_run_sql(cs, info, data, sql, &stmt, &my_status);
-  if( rc != SQLITE_ROW && rc != SQLITE_DONE ){
-    if( status ){
-      accept_result(state, status, &result);
-      cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
-      cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
-    }
-    return rc;
-  }
-  while( rc != SQLITE_DONE ){
+  while( rc == SQLITE_ROW ){
     if( f(cls, state, info, stmt) ){
       sqlite3_finalize(stmt);
       return SQLITE_DONE;
     }
     rc = sqlite3_step(stmt);
   }
+  if( rc != SQLITE_DONE && status ){
+    *status = NULL; /* an array cannot hold the error */
+    accept_result(state, status, &result);
+    cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
+  }
   sqlite3_finalize(stmt);
   return rc;
 }
-- 
2.43.0


From 57fc6a27fec19ff6f9659fdba5775ef25d948c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 41/67] fix: report row ids of more than 32 bits

---
 sqlite3/cee-sqlite3.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 81f7309..6d2fe36 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -267,7 +267,7 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                          cs->db_name, rc, insert, sqlite3_errmsg(db));
     else if( result ){
-      int row_id = sqlite3_last_insert_rowid(db);
+      int64_t row_id = sqlite3_last_insert_rowid(db);
       cee_json_object_set_i64(result, "last_insert_rowid", row_id);
     }
   }
@@ -291,7 +291,7 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    int64_t row_id = sqlite3_last_insert_rowid(db);
     if( key )
       cee_json_object_set_i64(result, key, row_id);
     else
@@ -591,7 +591,7 @@ int cee_sqlite3_select1_or_insert(struct cee_sqlite3 *cs,
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                        cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    int64_t row_id = sqlite3_last_insert_rowid(db);
     cee_json_object_set_i64(*status, "last_insert_rowid", row_id);
   }
 
-- 
2.43.0


From 541f3f3937baf3ffe1d5440e68398b45288b9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 42/67] fix: report the rows changed by this update or delete

---
 sqlite3/cee-sqlite3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 6d2fe36..dac9502 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -320,7 +320,7 @@ int cee_sqlite3_delete(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
 		       cs->db_name, rc, delete_sql, sqlite3_errmsg(db));
-  if( key )
+  else if( key )
     cee_json_object_set_i64(result, key, sqlite3_changes(cs->db));
   else
     cee_json_object_set_i64(result, "deleted", sqlite3_changes(cs->db));
@@ -370,7 +370,7 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
                          cs->db_name, rc, update, sqlite3_errmsg(db));
     else if( status )
       cee_json_object_set_i64(*status, "updated_rows",
-                              sqlite3_total_changes(db));
+                              sqlite3_changes(db));
   }
   return rc;
 }
-- 
2.43.0


From da142ad1bebad288e7d871405dc4c13624c09f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 43/67] fix: bind every key of a json object to its own value

---
 sqlite3/cee-sqlite3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index dac9502..25b5c0c 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1031,9 +1031,9 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     if( info[i].var_name ) continue;
     switch( val->t ){
     case CEE_JSON_I64:
-      if ( cee_json_to_intx(val, &info[i].data.i))
+      if ( cee_json_to_i64x(val, &info[i].data.i64))
         cee_segfault();
-      info[i].type = CEE_SQLITE3_INT;
+      info[i].type = CEE_SQLITE3_INT64;
       break;
     case CEE_JSON_STRING:
       info[i].data.value = cee_json_to_str(val)->_;
@@ -1048,6 +1048,7 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     info[i].col_name = cee_str_mk(is->state,  "%s", key->_)->_;
     info[i].var_name = cee_str_mk(is->state, "@%s", key->_)->_;
     info[i].data.has_value = 1;
+    break; /* the other slots are for other keys */
   }
   return 0;
 }
-- 
2.43.0


From d67bb589037d4b8285e27071df429f9a529de5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 44/67] fix: don't run an operation with a value of the wrong
 type

---
 sqlite3/cee-sqlite3.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 25b5c0c..73416ee 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -666,7 +666,8 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         }
         break;
       case CEE_SQLITE3_TEXT:
-        if( (data[i].value = cee_json_to_str(value)->_) ){
+        if( cee_json_to_str(value) ){
+          data[i].value = cee_json_to_str(value)->_;
           if( p->used )
             cee_json_array_append_strf(p->used,"%s", info[i].col_name);
           data[i].has_value = 1;
@@ -679,7 +680,8 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         break;
       case CEE_SQLITE3_BLOB:
         // decode the string as base64 encoding
-        cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
+        if( p->errors )
+          cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
                                    info[i].col_name);
         return 1;
       }
@@ -813,8 +815,9 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
   }
 
   /* populate aaa.data with the key/value pairs from json */
+  int unusable = 0;
   if( aaa.info )
-    cee_json_object_iterate(json, &aaa, populate_usage);
+    unusable = cee_json_object_iterate(json, &aaa, populate_usage);
   else {
     if( NULL != aaa.data )
       cee_segfault();
@@ -833,7 +836,8 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
     stmts->insert_stmt_x = (char*)cee_str_mk(state, "insert into %s (%s) values (%s)",
                                              stmts->table_name, aaa.insert_colums, aaa.insert_values);
 
-  int rc = f (cs, aaa.info, data, stmts, status);
+  /* don't store some of the values if others cannot be used */
+  int rc = unusable ? SQLITE_MISMATCH : f (cs, aaa.info, data, stmts, status);
 
   struct cee_json *debug = cee_json_object_mk(state);
   if( stmts->update_template ){
@@ -890,7 +894,8 @@ int cee_sqlite3_insert_op(struct cee_sqlite3 *cs,
                                       op->stmts,
                                       status,
                                       cee_sqlite3_insert_wrapper);
-  cee_json_object_rename(*status, "last_insert_rowid", "id");
+  if( status )
+    cee_json_object_rename(*status, "last_insert_rowid", "id");
   return rc;
 }
 
-- 
2.43.0


From a7708ad21e4958e4d86f21cceb50af5393aa8d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 45/67] fix: insert json objects of any size and return whether
 it failed

---
 sqlite3/cee-sqlite3.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 73416ee..a08f8a7 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1109,7 +1109,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 struct insert_columns_values {
   struct cee_str *insert_colums;
   struct cee_str *insert_values;
-  struct cee_sqlite3_bind_info info [50];
+  struct cee_sqlite3_bind_info *info; /* one for each value, and the end */
   int idx;
 };
 
@@ -1154,6 +1154,7 @@ collect_colums_values (void *ctx, struct cee_str *key, struct cee_json *val) {
 struct insert_more_ctx {
   char *table_name;
   struct cee_sqlite3 *cs;
+  int failed;
 };
 
 static int
@@ -1164,6 +1165,8 @@ insert_one_json_object (void *ctx, struct cee_json *one, int idx) {
   int size;
 
   struct insert_columns_values one_ctx = {0};
+  one_ctx.info = cee_block_mk(state, (cee_map_size(cee_json_to_object(one)) + 1)
+                                     * sizeof(struct cee_sqlite3_bind_info));
   one_ctx.insert_colums = cee_str_mk(state, "");
   one_ctx.insert_values = cee_str_mk(state, "");
   cee_json_object_iterate(one, &one_ctx, collect_colums_values);
@@ -1180,7 +1183,8 @@ insert_one_json_object (void *ctx, struct cee_json *one, int idx) {
   char *err_msg = NULL;
   fprintf(stderr, "%s\n", sql->_);
   struct cee_json *status = NULL;
-  cee_sqlite3_insert(p->cs, one_ctx.info, NULL, sql->_, &status, NULL, NULL);
+  if( cee_sqlite3_insert(p->cs, one_ctx.info, NULL, sql->_, &status, NULL, NULL) != SQLITE_DONE )
+    p->failed = 1;
   char *buf; size_t len;
   cee_json_asprint(state, &buf, &len, status, 0);
   fprintf(stderr, "%s\n", buf);
@@ -1195,7 +1199,9 @@ cee_sqlite3_insert_json_array(struct cee_sqlite3 *cs,
   struct insert_more_ctx  ctx;
   ctx.table_name = table_name;
   ctx.cs = cs;
-  return cee_json_array_iterate(array, &ctx, insert_one_json_object);
+  ctx.failed = 0;
+  cee_json_array_iterate(array, &ctx, insert_one_json_object);
+  return ctx.failed;
 }
 
 int cee_sqlite3_attach_db(struct cee_sqlite3 *cs, char *db_file, char *as_name,
-- 
2.43.0


From 40b2e034fb7cc203336f322deb5083c7a4af1f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 46/67] fix: don't crash in select1_as when no row is selected

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index a08f8a7..2c807be 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -982,7 +982,7 @@ cee_sqlite3_select1_as(struct cee_sqlite3 *cs,
   }
 
   accept_result(cs->state, status, &result);
-  if( status ){
+  if( status && one ){
     struct cee_json *old = cee_json_object_get(*status, key);
     if( old )
       cee_json_merge(old, one);
-- 
2.43.0


From 17eb1cae5389db84552c90d36f063576a60dbe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 47/67] fix: don't truncate the condition of next_int

---
 sqlite3/cee-sqlite3.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 2c807be..e6e7728 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1081,9 +1081,8 @@ cee_json_to_bind_info(struct cee_json *input) {
 int
 cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
                      char *from_clause, struct cee_json **status) {
-  char qx[128];
-  snprintf(qx, sizeof qx, "select max(%s) as max_value %s;",
-           int_column_name, from_clause);
+  char *qx = (char *)cee_str_mk(cs->state, "select max(%s) as max_value %s;",
+                                int_column_name, from_clause);
 
   struct cee_json *input = NULL, *max_value = NULL;
   cee_sqlite3_select1(cs, NULL, NULL, qx, &input);
-- 
2.43.0


From fe0972c94d9da3edb666bfcc346351c6c7298294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 48/67] fix: don't join with the key of another row when a key
 has the wrong type

---
 sqlite3/join.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sqlite3/join.c b/sqlite3/join.c
index e8c8e5f..7212896 100644
--- a/sqlite3/join.c
+++ b/sqlite3/join.c
@@ -32,7 +32,9 @@ static int join_one (void *ctx, void *elem, int idx) {
     }
     switch( value->t ){
       case CEE_JSON_I64:
-        if( cee_json_to_intx(value, &item->i) ){
+        if( info[i].type == CEE_SQLITE3_INT64
+            ? cee_json_to_i64x(value, &item->i64)
+            : info[i].type != CEE_SQLITE3_INT || cee_json_to_intx(value, &item->i) ){
           cee_json_object_set_strf(
             one, "error", "failed to convert json key %s's value to int",
             info[i].col_name);
@@ -40,6 +42,12 @@ static int join_one (void *ctx, void *elem, int idx) {
         }
         break; /* switch */
       case CEE_JSON_STRING:
+        if( info[i].type != CEE_SQLITE3_TEXT ){
+          cee_json_object_set_strf(
+            one, "error", "failed to use json key %s's value as a text",
+            info[i].col_name);
+          return 1; /* stop */
+        }
         item->value = cee_json_to_str(value)->_;
         break; /* switch */
       case CEE_JSON_NULL:
-- 
2.43.0


From 9941d3a542259f8faaa384e0ecbb652ec16b4348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 49/67] fix: make an empty blob of NULL

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index bc41a53..d670618 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -543,6 +543,7 @@ struct cee_json * cee_json_object_kv(struct cee_state *st, char *key, struct cee
 
 struct cee_json* cee_json_blob_mk(struct cee_state *st, const void *src, size_t bytes) {
   struct cee_block *m = cee_block_mk_nonzero(st, bytes);
+  if (bytes) /* src may be NULL */
   memcpy(m->_, src, bytes);
   struct cee_tagged *t = cee_tagged_mk (st, CEE_JSON_BLOB, m);
   return (struct cee_json*)t;
diff --git a/cee-json/value.c b/cee-json/value.c
index 2d9079e..91932ee 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -320,7 +320,8 @@ struct cee_json * cee_json_object_kv(struct cee_state *st, char *key, struct cee
 
 struct cee_json* cee_json_blob_mk(struct cee_state *st, const void *src, size_t bytes) {
   struct cee_block *m = cee_block_mk_nonzero(st, bytes);
-  memcpy(m->_, src, bytes);
+  if (bytes) /* src may be NULL */
+    memcpy(m->_, src, bytes);
   struct cee_tagged *t = cee_tagged_mk (st, CEE_JSON_BLOB, m);
   return (struct cee_json*)t;
 }
-- 
2.43.0


From 038d9d757d3bbd2874518f40737a890097cac2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 50/67] fix: don't insert or pass silently when the select of
 an upsert or update fails

---
 sqlite3/cee-sqlite3.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index e6e7728..07b417c 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -260,6 +260,10 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
     rc = cee_sqlite3_bind_run_sql(cs, info, data, update, NULL, status);
     if( rc != SQLITE_DONE )
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, update, sqlite3_errmsg(db));
+  }else if( rc != SQLITE_DONE ){
+    /* don't insert if it is unknown whether the row exists */
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
+                       cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
   }else{
     char *insert = stmts->insert_dynamic ? stmts->insert_stmt_x : stmts->insert_stmt;
     rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
@@ -371,7 +375,9 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
     else if( status )
       cee_json_object_set_i64(*status, "updated_rows",
                               sqlite3_changes(db));
-  }
+  }else if( rc != SQLITE_DONE )
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
+                       cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
   return rc;
 }
 
-- 
2.43.0


From 38a97c1252f31951896879c9dc2abce84b32875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 51/67] fix: look names up in the outer scopes of a scope
 without variables

---
 env.c         | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/env.c b/env.c
index ac5f3af..ea531b9 100644
--- a/env.c
+++ b/env.c
@@ -73,7 +73,7 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
+  while (e) {
     if ( (ret = cee_map_find(e->vars, key)) ) 
       return ret;
     e = e->outer;
diff --git a/release/cee.c b/release/cee.c
index 85f0cc5..eb6d461 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4554,7 +4554,7 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
+  while (e) {
     if ( (ret = cee_map_find(e->vars, key)) )
       return ret;
     e = e->outer;
-- 
2.43.0


From 7814f9df90210571cf26a54a6ad41b17b2d359dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 52/67] fix: accept any C string as the key of a context

---
 release/cee.c | 3 ++-
 state.c       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index eb6d461..dfb50f7 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4675,7 +4675,8 @@ void cee_state_remove_gc_root(struct cee_state * s, void * key) {
  * but it will not survive cee_del(cee_state *).
  */
 void cee_state_add_context (struct cee_state * s, char * key, void * val) {
-  cee_map_add(s->contexts, key, val);
+  /* key may be any C string, a key of the map is reference counted and marked */
+  cee_map_add(s->contexts, cee_str_mk(s, "%s", key), val);
 }
 
 /*
diff --git a/state.c b/state.c
index 33a4290..0b28b17 100644
--- a/state.c
+++ b/state.c
@@ -123,7 +123,8 @@ void cee_state_remove_gc_root(struct cee_state * s, void * key) {
  * but it will not survive cee_del(cee_state *).
  */
 void cee_state_add_context (struct cee_state * s, char * key, void * val) {
-  cee_map_add(s->contexts, key, val);
+  /* key may be any C string, a key of the map is reference counted and marked */
+  cee_map_add(s->contexts, cee_str_mk(s, "%s", key), val);
 }
 
 /*
-- 
2.43.0


From 4a88516f9bfd501c3973025d22e4b9aae16ae90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 53/67] fix: don't copy the reference count of a string that
 grows

---
 cee-resize.h  |  2 ++
 release/cee.c | 30 ++++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/cee-resize.h b/cee-resize.h
index ae957b5..55eca43 100644
--- a/cee-resize.h
+++ b/cee-resize.h
@@ -54,6 +54,8 @@ static struct S(header) * S(resize)(struct S(header) * h, size_t n)
       ret = malloc(n); 
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       S(chain)(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
diff --git a/release/cee.c b/release/cee.c
index dfb50f7..99f4d34 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1444,6 +1444,8 @@ static struct _cee_boxed_header * _cee_boxed_resize(struct _cee_boxed_header * h
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_boxed_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -1860,6 +1862,8 @@ static struct _cee_str_header * _cee_str_resize(struct _cee_str_header * h, size
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_str_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -2319,6 +2323,8 @@ static struct _cee_dict_header * _cee_dict_resize(struct _cee_dict_header * h, s
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_dict_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -2485,6 +2491,8 @@ static struct _cee_map_header * _cee_map_resize(struct _cee_map_header * h, size
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_map_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -2873,6 +2881,8 @@ static struct _cee_set_header * _cee_set_resize(struct _cee_set_header * h, size
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_set_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -3203,6 +3213,8 @@ static struct _cee_stack_header * _cee_stack_resize(struct _cee_stack_header * h
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_stack_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -3371,6 +3383,8 @@ static struct _cee_tuple_header * _cee_tuple_resize(struct _cee_tuple_header * h
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_tuple_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -3500,6 +3514,8 @@ static struct _cee_triple_header * _cee_triple_resize(struct _cee_triple_header
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_triple_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -3622,6 +3638,8 @@ static struct _cee_quadruple_header * _cee_quadruple_resize(struct _cee_quadrupl
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_quadruple_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -3744,6 +3762,8 @@ static struct _cee_list_header * _cee_list_resize(struct _cee_list_header * h, s
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_list_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -3947,6 +3967,8 @@ static struct _cee_tagged_header * _cee_tagged_resize(struct _cee_tagged_header
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_tagged_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -4100,6 +4122,8 @@ static struct _cee_closure_header * _cee_closure_resize(struct _cee_closure_head
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_closure_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -4219,6 +4243,8 @@ static struct _cee_block_header * _cee_block_resize(struct _cee_block_header * h
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_block_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -4356,6 +4382,8 @@ static struct _cee_n_tuple_header * _cee_n_tuple_resize(struct _cee_n_tuple_head
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_n_tuple_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
@@ -4491,6 +4519,8 @@ static struct _cee_env_header * _cee_env_resize(struct _cee_env_header * h, size
       ret = malloc(n);
       memcpy(ret, h, h->cs.mem_block_size);
       ret->cs.mem_block_size = n;
+      ret->cs.in_degree = 0; /* nothing points to the copy yet */
+      ret->cs.retained = 0;
       _cee_env_chain(ret, state); /* add the new struct to the chain */
       break;
     case CEE_RESIZE_WITH_IDENTITY:
-- 
2.43.0


From d6d6143a0d516c219628d72ec4ae47e9a57960e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 54/67] fix: cee_set_add counted an element that was in the set
 already

---
 release/cee.c | 3 +++
 set.c         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 99f4d34..551185e 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2983,6 +2983,9 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
+  /* val itself may be in m already: don't count it twice */
+  if (musl_tfind(h, val, h->_, _cee_set_cmp))
+    return;
   void ** oldp = (void **) musl_tsearch(h, val, h->_, _cee_set_cmp);
 
   if (oldp == NULL)
diff --git a/set.c b/set.c
index f0d0521..93e6b56 100644
--- a/set.c
+++ b/set.c
@@ -113,6 +113,9 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct S(header) * h = FIND_HEADER(m);
+  /* val itself may be in m already: don't count it twice */
+  if (musl_tfind(h, val, h->_, S(cmp)))
+    return;
   void ** oldp = (void **) musl_tsearch(h, val, h->_, S(cmp));
   
   if (oldp == NULL)
-- 
2.43.0


From 4c18b4d65344e6d5e1600105079b29e6bce20a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 55/67] fix: don't read past the end of an incomplete selector

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index d670618..00ac8d4 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1029,6 +1029,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
        * the above check for JSEL_NEXT_INVALID prevents us from
        * accumulating at the start of the fmt string if no token was
        * yet selected. */
+      if (*p == '\0') goto notfound; /* "." or "[" or ":" at the end */
       if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
diff --git a/cee-json/value.c b/cee-json/value.c
index 91932ee..8d4fd80 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -807,6 +807,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
        * the above check for JSEL_NEXT_INVALID prevents us from
        * accumulating at the start of the fmt string if no token was
        * yet selected. */
+      if (*p == '\0') goto notfound; /* "." or "[" or ":" at the end */
       if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
-- 
2.43.0


From 3eea1d14aece95db10494c1136f2d6fd771a5a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 56/67] fix: don't pass the null data of an empty view to
 memcmp

---
 strview.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strview.c b/strview.c
index e43fda9..f16490f 100644
--- a/strview.c
+++ b/strview.c
@@ -249,7 +249,8 @@ SVDEF bool sv_eq(String_View a, String_View b)
     if (a.count != b.count) {
         return false;
     } else {
-        return memcmp(a.data, b.data, a.count) == 0;
+        // an empty view may have no data (SV_NULL)
+        return a.count == 0 || memcmp(a.data, b.data, a.count) == 0;
     }
 }
 
-- 
2.43.0


From 5053d9bee5eb004b3fddc66890ed25cb7f43f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 57/67] fix: don't return a next int beyond the range of an int

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 07b417c..746a401 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <alloca.h>
+#include <limits.h>
 
 void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool transaction){
   sqlite3 *db = NULL;
@@ -1099,7 +1100,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 
   if( (max_value = cee_json_select(input, ".max_value:n")) ){
     int int_value = 0;
-    if( !cee_json_to_intx(max_value, &int_value) )
+    if( !cee_json_to_intx(max_value, &int_value) && int_value < INT_MAX )
       return int_value + 1;
   }else if( cee_json_select(input, ".max_value:!") ){
     /* no rows */
-- 
2.43.0


From 998fb7c62a926f8ea6817360894918234c756e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 58/67] fix: pass the room of a formatted string, not the size
 of its block

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 551185e..7b749b7 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1948,7 +1948,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
 
   h->capacity = s - sizeof(struct _cee_str_header);
 
-  vsnprintf(h->_, s, fmt, ap);
+  vsnprintf(h->_, h->capacity, fmt, ap); /* s includes the header */
   return (struct cee_str *)(h->_);
 }
 
diff --git a/str.c b/str.c
index 05d115f..53ddab7 100644
--- a/str.c
+++ b/str.c
@@ -99,7 +99,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   
   h->capacity = s - sizeof(struct S(header));
 
-  vsnprintf(h->_, s, fmt, ap);
+  vsnprintf(h->_, h->capacity, fmt, ap); /* s includes the header */
   return (struct cee_str *)(h->_);
 }
 
-- 
2.43.0


From 14cb9b8eb7cf71451a456888aee3e42228510755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 59/67] fix: do not parse what could not be read from a file

---
 cee-json/release/cee-json.c | 10 +++++++---
 cee-json/value.c            | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 00ac8d4..9ee2ea9 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -869,10 +869,14 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof,
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
+  off_t size = fstat(fd, &buf) == 0 ? buf.st_size : 0, have = 0;
   char * b = malloc(size);
-  read(fd, b, size);
+  while (have < size) {
+    ssize_t n = read(fd, b + have, size - have);
+    if (n <= 0) break;
+    have += n;
+  }
+  size = have; /* what could not be read is not parsed */
 
   int line = 0;
   struct cee_json * j = NULL;
diff --git a/cee-json/value.c b/cee-json/value.c
index 8d4fd80..95c84bb 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -647,10 +647,14 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof, 
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
+  off_t size = fstat(fd, &buf) == 0 ? buf.st_size : 0, have = 0;
   char * b = malloc(size);
-  read(fd, b, size);
+  while (have < size) {
+    ssize_t n = read(fd, b + have, size - have);
+    if (n <= 0) break;
+    have += n;
+  }
+  size = have; /* what could not be read is not parsed */
 
   int line = 0;
   struct cee_json * j = NULL;
-- 
2.43.0


From 4381d126303cd30c35cda1e8f463f9f4df5958e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 60/67] fix: cee_json_merge_all reports a result that could not
 be written

---
 cee-json/cee_json_merge.c   | 4 ++--
 cee-json/release/cee-json.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cee-json/cee_json_merge.c b/cee-json/cee_json_merge.c
index c0d8ff9..b17d2d3 100644
--- a/cee-json/cee_json_merge.c
+++ b/cee-json/cee_json_merge.c
@@ -62,9 +62,9 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
+  bool saved = cee_json_save(state, j0, f_combined, 1);
   fclose(f_combined);
   fclose(f0);
   cee_del(state);
-  return 0;
+  return saved ? 0 : 1;
 }
diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 9ee2ea9..83480c5 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2429,11 +2429,11 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
+  bool saved = cee_json_save(state, j0, f_combined, 1);
   fclose(f_combined);
   fclose(f0);
   cee_del(state);
-  return 0;
+  return saved ? 0 : 1;
 }
 
 #endif
-- 
2.43.0


From 26b723f660aba101c71b30359fb4962f21632167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 61/67] fix: a selector index beyond the range of int selects
 nothing

---
 cee-json/release/cee-json.c | 4 +++-
 cee-json/value.c            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 83480c5..2ace708 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1013,7 +1013,9 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         goto notfound;
       } else if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
-        int idx = atoi(token); /* cee_json API index is int. */
+        long idx = strtol(token, NULL, 10); /* cee_json API index is int. */
+        if (idx != (int)idx)
+          goto notfound;
         if ((o = cee_json_array_get(o,idx)) == NULL)
           goto notfound;
       } else if (next == JSEL_OBJ) {
diff --git a/cee-json/value.c b/cee-json/value.c
index 95c84bb..d11ce59 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -791,7 +791,9 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         goto notfound;
       } else if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
-        int idx = atoi(token); /* cee_json API index is int. */
+        long idx = strtol(token, NULL, 10); /* cee_json API index is int. */
+        if (idx != (int)idx)
+          goto notfound;
         if ((o = cee_json_array_get(o,idx)) == NULL)
           goto notfound;
       } else if (next == JSEL_OBJ) {
-- 
2.43.0


From 50bd36620c71b78e72dca66958d9563add48d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 62/67] fix: count "\r\n" as one line end

---
 cee-json/release/cee-json.c | 5 ++++-
 cee-json/tokenizer.c        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 2ace708..b8db88f 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2312,8 +2312,11 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
     case ']':
         t->buf++;
         return c;
-    case '\n':
     case '\r':
+        if (t->buf + 1 < t->buf_end && t->buf[1] == '\n')
+          break; /* the '\n' of "\r\n" counts this line */
+    /* fallthrough */
+    case '\n':
         t->line++;
     /* fallthrough */
     case ' ':
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 41dc97b..3601841 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -491,8 +491,11 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
     case ']':
         t->buf++;
         return c;
-    case '\n':
     case '\r':
+        if (t->buf + 1 < t->buf_end && t->buf[1] == '\n')
+          break; /* the '\n' of "\r\n" counts this line */
+    /* fallthrough */
+    case '\n':
         t->line++;
     /* fallthrough */
     case ' ':
-- 
2.43.0


From 1a3302f592623549d6d158966c525c616c4e1939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 63/67] fix: keep cee_json_merge_all's message buffer off
 shared storage

---
 cee-json/cee_json_merge.c   | 2 +-
 cee-json/release/cee-json.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/cee_json_merge.c b/cee-json/cee_json_merge.c
index b17d2d3..7be00e4 100644
--- a/cee-json/cee_json_merge.c
+++ b/cee-json/cee_json_merge.c
@@ -12,7 +12,7 @@ static int merge_failed(struct cee_state *state, FILE *f0, FILE *fn){
 }
 
 int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
-  static char perror_buf[128] = {0};
+  char perror_buf[128] = {0};
 
   FILE *f0 = fopen(json_files[0], "r"), *fn, *f_combined;
   if( !f0 ){
diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index b8db88f..a480bb3 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2384,7 +2384,7 @@ static int merge_failed(struct cee_state *state, FILE *f0, FILE *fn){
 
 
 int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
-  static char perror_buf[128] = {0};
+  char perror_buf[128] = {0};
 
   FILE *f0 = fopen(json_files[0], "r"), *fn, *f_combined;
   if( !f0 ){
-- 
2.43.0


From e483943a0013a88fcd9cb01df3e367453d63c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 64/67] fix: report a database that cannot be opened without
 reading through a null handle, and release it

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 746a401..d52d6e2 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -13,7 +13,8 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
   else {
     rc = sqlite3_open(db_file, &db);
     if( rc != SQLITE_OK ){
-      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(*db_p));
+      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(db));
+      sqlite3_close(db);
       db = NULL;
       goto my_ret;
     }
-- 
2.43.0


From be1941532c9a27286ed2d185f350631bd9f33fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 65/67] fix: cee_sqlite3_next_int accepts a null status like
 the other calls

---
 sqlite3/cee-sqlite3.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index d52d6e2..3333996 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1095,7 +1095,8 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
   struct cee_json *input = NULL, *max_value = NULL;
   cee_sqlite3_select1(cs, NULL, NULL, qx, &input);
   if( cee_json_select(input, ".error") ){
-    *status = input;
+    if( status )
+      *status = input;
     return -1;
   }
 
@@ -1108,7 +1109,8 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
     return 1;
   }
 
-  *status = input;
+  if( status )
+    *status = input;
   return -1;
 }
 
-- 
2.43.0


From 442da6e072bfe6ba26f305ec7b7958feb30ec2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:36 +0000
Subject: [PATCH 66/67] fix: cee_sqlite3_insert reports the row id also when no
 status is asked for

---
 sqlite3/cee-sqlite3.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 3333996..2e1fcd0 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -296,12 +296,10 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
   rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, insert, sqlite3_errmsg(db));
-  else if( result ){
+  else{
     int64_t row_id = sqlite3_last_insert_rowid(db);
-    if( key )
-      cee_json_object_set_i64(result, key, row_id);
-    else
-      cee_json_object_set_i64(result, "last_insert_rowid", row_id);
+    if( result )
+      cee_json_object_set_i64(result, key ? key : "last_insert_rowid", row_id);
     if( id )
       *id = row_id;
   }
-- 
2.43.0


From 0c5366332143aa3f7de74482d6ebcd2de9899ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:06 +0000
Subject: [PATCH 67/67] fix: a dict that cannot get its table leaves the
 state's chain

---
 dict.c        | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dict.c b/dict.c
index 2cd14a9..74a1897 100644
--- a/dict.c
+++ b/dict.c
@@ -76,6 +76,7 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   else {
     cee_del(m->keys);
     cee_del(m->vals);
+    S(de_chain)(m);
     free(m);
     return NULL;
   }
diff --git a/release/cee.c b/release/cee.c
index 7b749b7..473caaf 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2385,6 +2385,7 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   else {
     cee_del(m->keys);
     cee_del(m->vals);
+    _cee_dict_de_chain(m);
     free(m);
     return NULL;
   }
-- 
2.43.0

