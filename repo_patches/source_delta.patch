From 9ae20c99acf862e4a699de5959427ab311e05724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 01/34] fix: address deferred entries by defer_func_t so
 cancel/fire hit the right one

defer_t and raii_array_t have different layouts and defer_func_t is larger
than raii_array_t, so raii_deferred() returned a meaningless index and
raii_deferred_cancel()/raii_deferred_fire() aborted.
---
 src/raii.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 9130d51..de63f45 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -342,18 +342,19 @@ static RAII_INLINE void raii_deferred_array_free(defer_t *array) {
     raii_array_free((raii_array_t *)array);
 }
 
-static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, raii_array_t *elem) {
-    RAII_ASSERT(elem >= (raii_array_t *)array->base.base);
-    return (size_t)(elem - (raii_array_t *)array->base.base);
+static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, defer_func_t *elem) {
+    defer_func_t *base = ((const raii_array_t *)array)->base;
+    RAII_ASSERT(elem >= base);
+    return (size_t)(elem - base);
 }
 
-static RAII_INLINE raii_array_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
-    RAII_ASSERT(index <= array->base.elements);
-    return &((raii_array_t *)array->base.base)[index];
+static RAII_INLINE defer_func_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
+    RAII_ASSERT(index < ((const raii_array_t *)array)->elements);
+    return &((defer_func_t *)((const raii_array_t *)array)->base)[index];
 }
 
 static RAII_INLINE size_t raii_deferred_array_len(const defer_t *array) {
-    return array->base.elements;
+    return ((const raii_array_t *)array)->elements;
 }
 
 static void deferred_canceled(void *data) {}
@@ -363,7 +364,7 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 
     RAII_ASSERT(num_defers != 0 && deferred != NULL);
 
-    if (deferred == (defer_func_t *)raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
+    if (deferred == raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
         /* If we're cancelling the last defer we armed, there's no need to waste
          * space of a deferred callback to an empty function like
          * disarmed_defer(). */
@@ -378,13 +379,13 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 void raii_deferred_cancel(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    raii_deferred_internal(scope, (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index));
+    raii_deferred_internal(scope, raii_deferred_array_get_element(&scope->defer, index));
 }
 
 void raii_deferred_fire(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    defer_func_t *deferred = (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index);
+    defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
     deferred->func(deferred->data);
@@ -460,7 +461,7 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
         deferred->data = data;
         deferred->check = check;
 
-        return raii_deferred_array_get_index(&scope->defer, (raii_array_t *)deferred);
+        return raii_deferred_array_get_index(&scope->defer, deferred);
     }
 }
 
-- 
2.43.0


From 07f2c5475c0503a0b4364754e4405ff27e8b18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 02/34] fix: disarm a fired defer before running it

The function may defer more work, which moves the array the entry lives in,
or throw, which left the entry armed to run a second time.
---
 src/raii.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index de63f45..69cad8d 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -388,9 +388,12 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
     defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
-    deferred->func(deferred->data);
-
+    /* Disarm first, the function may itself defer (moving the array), or throw. */
+    func_t func = deferred->func;
+    void *data = deferred->data;
     raii_deferred_internal(scope, deferred);
+
+    func(data);
 }
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
-- 
2.43.0


From 144e273a4e01b5b752ea871517eb8a9f6688f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 03/34] fix: remove a defer from its scope before running it

A defer that throws was still registered when unwinding resumed, so it ran
again, without end. A defer registered from a running defer was dropped, or
written through an array that had moved.
---
 src/raii.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 69cad8d..aa23db8 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -398,21 +398,19 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    defer_func_t *defers = array->base;
     bool defer_ran = false;
-    size_t i;
 
     scope->is_recovered = is_empty(scope->err);
 
-    for (i = array->elements; i != generation; i--) {
-        defer_func_t *defer = &defers[i - 1];
+    while (array->elements > generation) {
+        /* Remove before running, the function may itself defer (moving the array), or throw. */
+        defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
         defer_ran = true;
 
-        if (!is_empty(scope->err) && !is_empty(defer->check))
+        if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
 
-        defer->func(defer->data);
-        defer->data = NULL;
+        defer.func(defer.data);
     }
 
     if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
@@ -423,7 +421,6 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
         }
     }
 
-    array->elements = generation;
     if (!is_empty(scope->protector)) {
         ex_unprotected_ptr(scope->protector);
         RAII_FREE(scope->protector);
-- 
2.43.0


From 5838276194146d9e9bead09c1e8db7a3636d82f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 04/34] fix: keep a scope usable after its defers were run

raii_array_reset() clears the type raii_deferred_free() checks, so whatever
was deferred or allocated after raii_deferred_clean() never ran nor was freed.
---
 src/raii.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raii.c b/src/raii.c
index aa23db8..f81d1be 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -440,6 +440,7 @@ void raii_deferred_free(memory_t *scope) {
     if (is_type(&scope->defer, RAII_DEF_ARR)) {
         raii_deferred_run(scope, 0);
         raii_deferred_array_reset(&scope->defer);
+        raii_deferred_init(&scope->defer);
     }
 }
 
-- 
2.43.0


From 08f0173fc64bc5138a8acda084f5f5bdc8098564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 05/34] fix: release scope memory through its defers only

malloc_full()/calloc_full() also registered the block as a protected pointer,
passing the block where the address of a pointer variable is expected. A throw
then dereferenced the block's content, or released memory its scope releases
again; a second block linked the shared protector to itself; and freeing the
scope left it on the context's stack. A block whose defer could not be
recorded was returned anyway, and leaked.
---
 src/raii.c | 49 ++++++++++++++++++-------------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index f81d1be..ef1788d 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -217,17 +217,25 @@ unique_t *unique_init_arena(void) {
     return raii;
 }
 
-void *malloc_full(memory_t *scope, size_t size, func_t func) {
-    void *arena = try_malloc(size);
-    if (is_empty(scope->protector))
-        scope->protector = try_malloc(sizeof(ex_ptr_t));
+/* Have `scope` release `ptr` with `func`, when its `defers` are run. */
+static void *raii_bind(memory_t *scope, void *ptr, func_t func) {
+    size_t mid = raii_deferred(scope, func, ptr);
+    if (UNLIKELY(mid == (size_t)-1)) {
+        RAII_FREE(ptr);
+        errno = ENOMEM;
+        raii_panic("Deferred allocation failed!");
+    }
 
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
+    scope->mid = mid;
 
-    return arena;
+    return ptr;
+}
+
+void *malloc_full(memory_t *scope, size_t size, func_t func) {
+    void *arena = try_malloc(size);
+
+    return raii_bind(scope, arena, func);
 }
 
 RAII_INLINE void *malloc_default(size_t size) {
@@ -247,15 +255,8 @@ RAII_INLINE void *malloc_arena(memory_t *scope, size_t size) {
 
 void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     void *arena = try_calloc(count, size);
-    if (is_empty(scope->protector))
-        scope->protector = try_calloc(1, sizeof(ex_ptr_t));
-
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
-    scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
 
-    return arena;
+    return raii_bind(scope, arena, func);
 }
 
 RAII_INLINE void *calloc_default(int count, size_t size) {
@@ -398,34 +399,20 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    bool defer_ran = false;
 
     scope->is_recovered = is_empty(scope->err);
 
     while (array->elements > generation) {
         /* Remove before running, the function may itself defer (moving the array), or throw. */
         defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
-        defer_ran = true;
-
         if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
 
         defer.func(defer.data);
     }
 
-    if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
+    if (generation == 0)
         scope->is_protected = false;
-        if (!defer_ran) {
-            scope->protector->func(*scope->protector->ptr);
-            *scope->protector->ptr = NULL;
-        }
-    }
-
-    if (!is_empty(scope->protector)) {
-        ex_unprotected_ptr(scope->protector);
-        RAII_FREE(scope->protector);
-        scope->protector = NULL;
-    }
 }
 
 size_t raii_deferred_count(memory_t *scope) {
-- 
2.43.0


From bb400fb39874df3d665f764bfa5bfa4225666ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 06/34] fix: keep a promise's result and error to itself

A thread allocated its result in its parent's scope and stored its exception
there: both raced with the parent and other threads, and the exception was
raised by whichever future was read first, or lost when another thread
started. thrd_get() used the future after freeing it, and a thread without
argument, or returning NULL through thrd_sync(), crashed.
---
 src/future.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/future.c b/src/future.c
index 53d67a6..17f0c7a 100644
--- a/src/future.c
+++ b/src/future.c
@@ -10,9 +10,12 @@ Modified from https://gist.github.com/Geal/8f85e02561d101decf9a
 
 #include "raii.h"
 
-static promise *promise_create(void) {
-    promise *p = calloc_default(1, sizeof(promise));
-    p->scope = raii_local();
+/* Everything a thread sets is allocated here, before it starts,
+the caller's `scope` and error condition are not shared with it. */
+static promise *promise_create(memory_t *scope) {
+    promise *p = calloc_full(scope, 1, sizeof(promise), RAII_FREE);
+    p->scope = calloc_full(scope, 1, sizeof(memory_t), RAII_FREE);
+    p->result = calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
     atomic_flag_clear(&p->mutex);
     atomic_flag_clear(&p->done);
     p->type = RAII_PROMISE;
@@ -24,9 +27,9 @@ static void promise_set(promise *p, void_t res, bool is_args) {
     atomic_lock(&p->mutex);
     if (!is_empty(res)) {
         if (is_args) {
-            p->result = (raii_values_t *)res;
+            memcpy(p->result, res, sizeof(raii_values_t));
+            RAII_FREE(res);
         } else {
-            p->result = (raii_values_t *)calloc_full(p->scope, 1, sizeof(raii_values_t), RAII_FREE);
             p->result->value.object = res;
         }
     }
@@ -71,14 +74,13 @@ static int thrd_raii_wrapper(void_t arg) {
     future_arg *f = (future_arg *)arg;
     int err = 0;
     void_t res = nullptr;
-    f->value->scope->err = nullptr;
     rpmalloc_init();
 
     guard {
         res = f->func((args_t)f->arg);
     } guarded_exception(f->value->scope);
 
-    promise_set(f->value, res, (is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
+    promise_set(f->value, res, (!is_empty(f->arg) && is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
         RAII_FREE(f);
@@ -101,7 +103,7 @@ static void thrd_start(future f, promise *value, void_t arg) {
 }
 
 future thrd_async(thrd_func_t fn, void_t args) {
-    promise *p = promise_create();
+    promise *p = promise_create(raii_init());
     future f = future_create(fn);
     f->value = p;
     thrd_start(f, p, args);
@@ -110,12 +112,13 @@ future thrd_async(thrd_func_t fn, void_t args) {
 
 values_type thrd_get(future f) {
     if (is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
-        raii_values_t *r = promise_get(f->value);
+        promise *p = f->value;
+        raii_values_t *r = promise_get(p);
         future_close(f);
-        promise_close(f->value);
-        if (is_empty(r))
-            return thrd_value(0)->value;
+        if (!is_empty(r->extended))
+            raii_deferred(raii_init(), RAII_FREE, r->extended);
 
+        promise_close(p);
         return r->value;
     }
 
@@ -132,8 +135,8 @@ RAII_INLINE void thrd_wait(future f, wait_func yield) {
 }
 
 RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size) {
-    raii_deferred(args->context, RAII_FREE, value);
-    raii_values_t *result = (raii_values_t *)calloc_full(args->context, 1, sizeof(raii_values_t), RAII_FREE);
+    /* Released by the thread getting the result, this one can't use it's scope. */
+    raii_values_t *result = (raii_values_t *)try_calloc(1, sizeof(raii_values_t));
     result->value.object = value;
     result->size = size;
     result->extended = value;
-- 
2.43.0


From 857ff528a6d98b6258a828105ec1074179eb45e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 07/34] fix: bind everything of a thread scope to that scope

Arguments and promises of spawned threads were bound to the caller's scope:
by the thread itself, racing with the caller; and thrd_sync() then emptied
that scope, running unrelated defers and freeing promises of pending futures.
It also used futures after freeing them, as did thrd_is_finish(), and threads
could not be added after a thrd_sync(). The protection of the arrays linked
one protector twice, and of each future, a local variable.
---
 src/future.c | 53 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/future.c b/src/future.c
index 17f0c7a..cd4240f 100644
--- a/src/future.c
+++ b/src/future.c
@@ -203,6 +203,19 @@ future_t thrd_pool(size_t count, size_t queue_count) {
     return pool;
 }
 
+static void thrd_scope_free(void_t data) {
+    future_t pool = (future_t)data;
+    RAII_FREE(pool->futures);
+    RAII_FREE(pool->results);
+}
+
+static future_t thrd_scope_local(void) {
+    if (is_raii_empty() || is_empty(raii_local()->arena) || !is_type(raii_local()->arena, RAII_SPAWN))
+        raii_panic("No initialization, No `thrd_scope`!");
+
+    return (future_t)raii_local()->arena;
+}
+
 future_t thrd_scope(void) {
     unique_t *scope = unique_init(), *spawn = raii_init();
     future_t pool = (future_t)calloc_full(scope, 1, sizeof(struct future_pool), RAII_FREE);
@@ -212,8 +225,7 @@ future_t thrd_scope(void) {
     pool->cpu_present = thrd_cpu_count();
     pool->futures = NULL;
     pool->results = NULL;
-    ex_protect_ptr(scope->protector, &pool->futures, RAII_FREE);
-    ex_protect_ptr(scope->protector, &pool->results, RAII_FREE);
+    raii_deferred(scope, thrd_scope_free, pool);
     pool->type = RAII_SPAWN;
     spawn->arena = pool;
 
@@ -221,18 +233,14 @@ future_t thrd_scope(void) {
 }
 
 result_t thrd_spawn(thrd_func_t fn, void_t args) {
-    if (is_raii_empty() || !is_type(raii_local()->arena, RAII_SPAWN))
-        raii_panic("No initialization, No `thrd_scope`!");
-
-    future_t pool = (future_t)raii_local()->arena;
+    future_t pool = thrd_scope_local();
     if (pool->thread_count % pool->cpu_present == 0) {
         pool->futures = try_realloc(pool->futures, (pool->thread_count + pool->cpu_present) * sizeof(pool->futures[0]));
         pool->results = try_realloc(pool->results, (pool->thread_count + pool->cpu_present) * sizeof(pool->results[0]));
     }
 
-    promise *p = promise_create();
+    promise *p = promise_create(pool->scope);
     future f = future_create(fn);
-    ex_protect_ptr(raii_local()->protector, &f, RAII_FREE);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
     f_arg->arg = args;
@@ -255,9 +263,14 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     va_list args;
     va_start(args, desc);
-    args_t params = raii_args_ex(raii_local(), desc, args);
+    memory_t *scope = thrd_scope_local()->scope;
+    args_t params = raii_args_ex(scope, desc, args);
     va_end(args);
 
+    /* Bound here, the thread can't use this `scope`. */
+    params->defer_set = true;
+    raii_deferred(scope, (func_t)args_free, params);
+
     return thrd_spawn(fn, (void_t)params);
 }
 
@@ -268,23 +281,27 @@ future_t thrd_sync(future_t v) {
     int i, x;
     memory_t *scope = v->scope;
     for (i = 0; i < v->thread_count; i++) {
-        raii_values_t *result = promise_get(v->futures[i]->value);
+        if (v->results[i]->is_ready)
+            continue;
+
+        promise *p = v->futures[i]->value;
+        raii_values_t *result = promise_get(p);
         size_t size = result->size;
         v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
         if (size > 0) {
             v->results[i]->result->extended = calloc_full(scope, 1, size, RAII_FREE);
             memcpy(v->results[i]->result->extended, result->extended, size);
             v->results[i]->result->value.object = v->results[i]->result->extended;
+            RAII_FREE(result->extended);
         } else {
             v->results[i]->result->value.array = result->value.array;
         }
 
         v->results[i]->is_ready = true;
         future_close(v->futures[i]);
-        promise_close(v->futures[i]->value);
+        promise_close(p);
     }
 
-    raii_deferred_clean();
     return v;
 }
 
@@ -297,20 +314,18 @@ void thrd_then(result_func_t callback, future_t iter, void_t result) {
 
 void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
-        memory_t *scope = f->scope;
-        ex_ptr_t *err = scope->protector;
+        if (!is_raii_empty() && raii_local()->arena == (void *)f)
+            raii_local()->arena = NULL;
+
         f->type = -1;
-        RAII_FREE(f->futures);
-        RAII_FREE(f->results);
-        ex_unprotected_ptr(err);
-        raii_delete(scope);
+        raii_delete(f->scope);
     }
 }
 
 RAII_INLINE bool thrd_is_finish(future_t f) {
     size_t i;
     for (i = 0; i < f->thread_count; i++) {
-        if (!thrd_is_done(f->futures[i]))
+        if (!f->results[i]->is_ready && !thrd_is_done(f->futures[i]))
             return false;
     }
 
-- 
2.43.0


From 948c3f2d28e6ba33774f45b939d84b1b4fd456ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 08/34] fix: store pointer and long string arguments

The 'p' case fell through, consuming another argument and copying over the
object, and a string longer than an argument slot was copied to NULL.
---
 src/raii.c | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index ef1788d..e8b55c3 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -580,9 +580,8 @@ RAII_INLINE values_type args_in(args_t params, size_t index) {
 }
 
 args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
-    size_t i, len, count = simd_strlen(desc);
+    size_t i, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
-    void_t p;
     string s;
     params->args_size = sizeof(raii_values_t);
     params->args = try_calloc(count, params->args_size);
@@ -617,14 +616,7 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
             case 's':
                 // string argument
                 s = (char *)va_arg(argp, char *);
-                len = simd_strlen(s);
-                if (len > sizeof(raii_values_t)) {
-                    params->args_size += len + 1;
-                    params->args = try_realloc(params->args, params->args_size);
-                    strncpy(params->args[i].value.char_ptr, s, len);
-                } else {
-                    params->args[i].value.char_ptr = s;
-                }
+                params->args[i].value.char_ptr = s;
                 break;
             case 'a':
                 // array argument
@@ -640,13 +632,8 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 break;
             case 'p':
                 // void pointer (any arbitrary pointer) argument
-                params->args[i].value.object = va_arg(argp, void *);
             default:
-                p = va_arg(argp, void *);
-                len = sizeof(p);
-                params->args_size += len;
-                params->args = try_realloc(params->args, params->args_size);
-                memcpy(params->args[i].value.object, p, sizeof(p));
+                params->args[i].value.object = va_arg(argp, void *);
                 break;
         }
     }
-- 
2.43.0


From 779e2a92a0b135365f8bfcaeaea1000ccf486cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 09/34] fix: let a guard handle only the exceptions of its own
 context

The guard to unwind was taken from thread state: an exception caught by a try
inside the guarded section ran the guard's defers, and marked it failed. The
context's fields deciding this were not initialized, and the hook functions
are shared, so a guard ending in one thread left others without. A guard that
could not be created left its hooks installed, to crash on the next throw.
---
 include/exception.h |  6 ++++++
 include/raii.h      |  5 ++++-
 src/except.c        |  9 +++++++--
 src/raii.c          | 10 +++++++++-
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index 7ced475..f83719d 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -227,6 +227,9 @@ throws an exception of given message. */
     ex_err.stack = 0;                       \
     ex_err.ex = 0;                          \
     ex_err.unstack = 0;                     \
+    ex_err.is_raii = false;                 \
+    ex_err.data = 0;                        \
+    ex_err.prev = 0;                        \
     ex_err.is_rethrown = false;             \
     /* global context updated */            \
     ex_update(&ex_err);                     \
@@ -304,6 +307,9 @@ throws an exception of given message. */
     ex_err.stack = 0;                       \
     ex_err.ex = 0;                          \
     ex_err.unstack = 0;                     \
+    ex_err.is_raii = false;                 \
+    ex_err.data = 0;                        \
+    ex_err.prev = 0;                        \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
diff --git a/include/raii.h b/include/raii.h
index 2bb3d15..948a69a 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -535,12 +535,15 @@ are only valid between these sections.
     void *s##__FUNCTION__ = raii_init()->arena;         \
     ex_setup_func sf##__FUNCTION__ = exception_setup_func;      \
     ex_unwind_func uf##__FUNCTION__ = exception_unwind_func;    \
+    unique_t *_$##__FUNCTION__ = unique_init();         \
     exception_unwind_func = (ex_unwind_func)raii_deferred_free; \
     exception_setup_func = guard_set;                   \
-    unique_t *_$##__FUNCTION__ = unique_init();         \
     (_$##__FUNCTION__)->status = RAII_GUARDED_STATUS;   \
     raii_local()->arena = (void *)_$##__FUNCTION__;     \
     ex_try {                                            \
+        /* this context is the guard's, nested ones are not */  \
+        ex_err.data = (void *)_$##__FUNCTION__;         \
+        ex_err.prev = (void *)_$##__FUNCTION__;         \
         do {
 
     /* This ends an scoped guard section, it replaces `}`.
diff --git a/src/except.c b/src/except.c
index 088d247..0f19a4f 100644
--- a/src/except.c
+++ b/src/except.c
@@ -109,7 +109,9 @@ static void ex_unwind_stack(ex_context_t *ctx) {
 
     ctx->unstack = 1;
 
-    if (ctx->is_unwind && exception_unwind_func) {
+    if (ctx->is_unwind && is_guard(ctx->data)) {
+        raii_deferred_free(ctx->data);
+    } else if (ctx->is_unwind && exception_unwind_func) {
         exception_unwind_func(ctx->data);
     } else if (ctx->is_unwind && ctx->is_raii && ctx->data == (void *)raii_local()) {
         raii_deferred_clean();
@@ -393,7 +395,10 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     ctx->function = function;
     ctx->panic = message;
 
-    if (exception_setup_func)
+    /* The functions are shared by all threads, the guard of a context is not. */
+    if (is_guard(ctx->data))
+        guard_set(ctx, ctx->ex, ctx->panic);
+    else if (exception_setup_func)
         exception_setup_func(ctx, ctx->ex, ctx->panic);
     else if (ctx->is_raii)
         raii_unwind_set(ctx, ctx->ex, ctx->panic);
diff --git a/src/raii.c b/src/raii.c
index e8b55c3..f0b4226 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -511,7 +511,15 @@ RAII_INLINE void raii_defer_fire(size_t index) {
 }
 
 void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
-    memory_t *scope = raii_local()->arena;
+    memory_t *scope = (memory_t *)ctx->data;
+    /* A nested `try` of the guarded section, or another thread, not the guard's own context. */
+    if (!is_guard(scope)) {
+        if (ctx->is_raii)
+            raii_unwind_set(ctx, ex, message);
+
+        return;
+    }
+
     scope->err = (void *)ex;
     scope->panic = message;
     ctx->is_guarded = true;
-- 
2.43.0


From 587c49003ccb7ef5ec30b2c5add3ffb19b2c5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 10/34] fix: honour a recover made while unwinding a guard

With memory in the guard its defers run before the jump, and the recovered
state was turned back into a rethrow. A throw after a recover skipped the
guard's remaining defers.
---
 src/except.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 0f19a4f..3e79841 100644
--- a/src/except.c
+++ b/src/except.c
@@ -403,6 +403,8 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     else if (ctx->is_raii)
         raii_unwind_set(ctx, ctx->ex, ctx->panic);
 
+    /* A defer may recover while unwinding, a guard has no handlers to skip. */
+    ctx->state = is_guard(ctx->data) ? ex_throw_st : ctx->state | ex_throw_st;
     ex_unwind_stack(ctx);
     ex_signal_unblock(all);
 
@@ -416,7 +418,7 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
 #ifdef _WIN32
     RaiseException(EXCEPTION_PANIC, 0, 0, NULL);
 #endif
-    ex_longjmp(ctx->buf, ctx->state | ex_throw_st);
+    ex_longjmp(ctx->buf, ctx->state);
 }
 
 #ifdef _WIN32
-- 
2.43.0


From 39564bda8306a12f3f44d8befa40b93013830e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 11/34] fix: free every protected pointer when unwinding

A NULL one ended the unwinding, leaving the others, and none was freed if a
scope holding memory was unwound as well.
---
 src/except.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/except.c b/src/except.c
index 3e79841..cbdb96a 100644
--- a/src/except.c
+++ b/src/except.c
@@ -109,25 +109,25 @@ static void ex_unwind_stack(ex_context_t *ctx) {
 
     ctx->unstack = 1;
 
+    while (p && p->type == ex_protected_st) {
+        if (*p->ptr) {
+            if ((got_uncaught_exception = (temp == *p->ptr)))
+                break;
+
+            p->type = -1;
+            p->func(*p->ptr);
+        }
+
+        temp = *p->ptr;
+        p = p->next;
+    }
+
     if (ctx->is_unwind && is_guard(ctx->data)) {
         raii_deferred_free(ctx->data);
     } else if (ctx->is_unwind && exception_unwind_func) {
         exception_unwind_func(ctx->data);
     } else if (ctx->is_unwind && ctx->is_raii && ctx->data == (void *)raii_local()) {
         raii_deferred_clean();
-    } else {
-        while (p && p->type == ex_protected_st) {
-            if ((got_uncaught_exception = (temp == *p->ptr)))
-                break;
-
-            if (*p->ptr) {
-                p->type = -1;
-                p->func(*p->ptr);
-            }
-
-            temp = *p->ptr;
-            p = p->next;
-        }
     }
 
     ctx->unstack = 0;
-- 
2.43.0


From 251d2784de6561f3ecd353dfd19e34e098d44fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 12/34] fix: run the thread's defers on termination wherever
 they were set up

The context that first used the thread scope may be a try that has ended: an
uncaught signal then exited without running the defers.
---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index cbdb96a..ca6efbf 100644
--- a/src/except.c
+++ b/src/except.c
@@ -354,7 +354,7 @@ int ex_uncaught_exception(void) {
 }
 
 void ex_terminate(void) {
-    if (ex_local()->is_raii)
+    if (!is_raii_empty())
         raii_destroy();
 
     if (ex_uncaught_exception() || got_uncaught_exception)
-- 
2.43.0


From fdbd30edeb712cdda8decadd223a3a52d650bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 13/34] fix: caught() and raii_message() tell the current
 exception

They crashed in a thread without scope (and the crash, an exception itself,
was handled by the same block, without end), and compared with the scope's
error, which may be that of an exception handled long before.
---
 src/raii.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index f0b4226..352934b 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -471,17 +471,22 @@ RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
 
 bool raii_caught(const char *err) {
     memory_t *scope = raii_local();
-    const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
+    ex_context_t *ctx = ex_local();
+    bool is_caught = false;
 
-    if (exception == NULL && is_str_eq(err, ex_local()->ex)) {
-        ex_local()->state = ex_catch_st;
-        return true;
-    }
+    /* The scope's error may be of an exception handled before. */
+    if (!is_empty((void *)ctx->ex))
+        is_caught = is_str_eq(err, ctx->ex) || is_str_eq(err, ctx->panic);
+    else if (!is_empty(scope))
+        is_caught = is_str_eq(err, raii_message_by(scope));
 
-    if ((scope->is_recovered = is_str_eq(err, exception)))
-        ex_local()->state = ex_catch_st;
+    if (!is_empty(scope))
+        scope->is_recovered = is_caught;
 
-    return scope->is_recovered;
+    if (is_caught)
+        ctx->state = ex_catch_st;
+
+    return is_caught;
 }
 
 bool raii_is_caught(memory_t *scope, const char *err) {
@@ -494,8 +499,13 @@ bool raii_is_caught(memory_t *scope, const char *err) {
 
 const char *raii_message(void) {
     memory_t *scope = raii_local();
-    const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
-    return exception == NULL ? ex_local()->ex : exception;
+    ex_context_t *ctx = ex_local();
+
+    /* The scope's error may be of an exception handled before. */
+    if (!is_empty((void *)ctx->ex))
+        return (const char *)(!is_empty((void *)ctx->panic) ? ctx->panic : ctx->ex);
+
+    return is_empty(scope) ? NULL : raii_message_by(scope);
 }
 
 RAII_INLINE const char *raii_message_by(memory_t *scope) {
-- 
2.43.0


From c6d7107536d0deb4def58f4c973684f83b763faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 14/34] fix: clear and free all chunks of an arena, once

arena_clear() put chunks on the free list without taking them from the arena,
so the arena and the next user of the chunk handed out the same memory; the
walk then followed the links it had just changed. arena_free() read chunks
after freeing them, missing all but the first, and ended chunk reuse for good.
---
 src/arena.c | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index 1459b31..b1a62c7 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -32,11 +32,16 @@ void arena_free(arena_t arena) {
         return;
 
     if (is_type(arena, RAII_ARENA + RAII_STRUCT)) {
-        num_free += (int)arena->threshold + 1;
-        if (arena->is_global)
+        if (arena->is_global) {
             RAII_FREE(arena->base);
-        else
-            arena_clear(arena);
+        } else {
+            arena_t chunk, next;
+            for (chunk = arena->next; chunk; chunk = next) {
+                next = chunk->next;
+                memset(chunk, -1, sizeof(arena_t));
+                RAII_FREE(chunk);
+            }
+        }
 
         memset(arena, -1, sizeof(arena_t));
         RAII_FREE(arena);
@@ -109,23 +114,28 @@ void arena_clear(arena_t arena) {
         return;
 
     while (!arena->is_global && arena->next && is_type(arena->next, RAII_ARENA)) {
-        arena_t tmp = arena->next;
+        arena_t chunk = arena->next;
+        struct arena_s previous = *chunk;
         if (num_free < (int)arena->threshold) {
-            arena->next->next = free_list;
-            free_list = arena->next;
+            chunk->next = free_list;
+            chunk->limit = arena->limit;
+            free_list = chunk;
             num_free++;
-            free_list->limit = arena->limit;
-            if (is_zero(free_list->bytes))
-                arena->avail -= arena->bytes;
-            else
-                arena->avail -= free_list->bytes;
         } else {
-            memset(arena->next, -1, sizeof(arena_t));
-            RAII_FREE(arena->next);
-            arena->next = NULL;
+            memset(chunk, -1, sizeof(arena_t));
+            RAII_FREE(chunk);
         }
 
-        arena = tmp;
+        /* Back to the state saved in the chunk, when it was added. */
+        arena->next = previous.next;
+        arena->avail = previous.avail;
+        arena->limit = previous.limit;
+        arena->bytes = previous.bytes;
+    }
+
+    if (!arena->is_global) {
+        arena->base = NULL;
+        arena->total = 0;
     }
 }
 
-- 
2.43.0


From 2bb592acf41a8dda99eb4d7115b2d57ba0f69818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 15/34] fix: panic when an arena can't grow, as documented

arena_calloc() cleared the NULL it got.
---
 src/arena.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arena.c b/src/arena.c
index b1a62c7..13ff08f 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -71,8 +71,9 @@ void *arena_alloc(arena_t arena, long nbytes) {
                 ptr = RAII_MALLOC(arena->total);
 
             if (ptr == NULL) {
+                arena->total -= m;
                 errno = ENOMEM;
-                return NULL;
+                raii_panic("Arena allocation failed!");
             }
 
             if (arena->is_global) {
-- 
2.43.0


From ddb849d5706c91784b4a9343e2fc0097e2d1e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:44 +0000
Subject: [PATCH 16/34] fix: lock the list of free arena chunks

All threads share it, two could take the same chunk.
---
 src/arena.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/arena.c b/src/arena.c
index 13ff08f..0725711 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -7,6 +7,7 @@ union header {
 
 static arena_t free_list = NULL;
 static int num_free = 0;
+static atomic_spinlock free_lock = 0;
 
 /**
  * Will allow to translate back and forth between the pointer
@@ -58,9 +59,14 @@ void *arena_alloc(arena_t arena, long nbytes) {
     while (nbytes > arena->limit - arena->avail) {
         arena_t ptr;
         char *limit;
+        atomic_lock(&free_lock);
         if ((ptr = free_list) != NULL) {
             free_list = free_list->next;
             num_free--;
+        }
+        atomic_unlock(&free_lock);
+
+        if (ptr != NULL) {
             limit = ptr->limit;
         } else {
             long m = align_up(sizeof(union header) + nbytes + arena->threshold * 1024, sizeof(u16));
@@ -117,12 +123,18 @@ void arena_clear(arena_t arena) {
     while (!arena->is_global && arena->next && is_type(arena->next, RAII_ARENA)) {
         arena_t chunk = arena->next;
         struct arena_s previous = *chunk;
+        bool is_reused = false;
+        atomic_lock(&free_lock);
         if (num_free < (int)arena->threshold) {
             chunk->next = free_list;
             chunk->limit = arena->limit;
             free_list = chunk;
             num_free++;
-        } else {
+            is_reused = true;
+        }
+        atomic_unlock(&free_lock);
+
+        if (!is_reused) {
             memset(chunk, -1, sizeof(arena_t));
             RAII_FREE(chunk);
         }
-- 
2.43.0


From fa11b1a9036d0a51d800aa654263123af8476842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 17/34] fix: compare whole strings in simd_strcmp

A first string of 8 characters, or an empty one, compared equal to any
other; caught(sig_abrt) was always true.
---
 src/swar.c | 34 +++++-----------------------------
 1 file changed, 5 insertions(+), 29 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 89beccd..b05146d 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -389,37 +389,13 @@ RAII_INLINE uint64_t simd_htou(const char *s, uint32_t len) {
 }
 
 RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
-    int len = simd_strlen(str0);
-    int fast = len / sizeof(size_t) + 1;
-    int offset = (fast - 1) * sizeof(size_t);
-    int current_block = 0;
-
-    if (len <= sizeof(size_t)) { fast = 0; }
-
-    size_t *lstr0 = (size_t *)str0;
-    size_t *lstr1 = (size_t *)str1;
-
-    while (current_block < fast) {
-        if ((lstr0[current_block] ^ lstr1[current_block])) {
-            int pos;
-            for (pos = current_block * sizeof(size_t); pos < len; ++pos) {
-                if ((str0[pos] ^ str1[pos]) || (str0[pos] == 0) || (str1[pos] == 0)) {
-                    return  (int)((unsigned char)str0[pos] - (unsigned char)str1[pos]);
-                }
-            }
-        }
-
-        ++current_block;
-    }
-
-    while (len > offset) {
-        if ((str0[offset] ^ str1[offset])) {
-            return (int)((unsigned char)str0[offset] - (unsigned char)str1[offset]);
-        }
-        ++offset;
+    /* By bytes, a word may reach past the end of either string. */
+    while (*str0 && *str0 == *str1) {
+        ++str0;
+        ++str1;
     }
 
-    return 0;
+    return (int)((unsigned char)*str0 - (unsigned char)*str1);
 }
 
 RAII_INLINE size_t simd_strlen(const char *str) {
-- 
2.43.0


From 6c8b8178926f674142e8554ecfe332eaca710f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 18/34] fix: carry the backtrace along when rethrowing

A context rethrown into kept whatever its stack held as backtrace, and
termination crashed printing it. A thread's own context is gone by the
time its exception is thrown in the thread getting the result.
---
 src/except.c | 2 ++
 src/future.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index ca6efbf..c03da5e 100644
--- a/src/except.c
+++ b/src/except.c
@@ -387,6 +387,8 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     ex_signal_block(all);
     if (is_empty(dump))
         ex_trace_set(ctx, NULL);
+    else if (dump != ctx->backtrace)
+        *ctx->backtrace = *dump;
 
     ctx->ex = exception;
     ctx->file = file;
diff --git a/src/future.c b/src/future.c
index cd4240f..ca30414 100644
--- a/src/future.c
+++ b/src/future.c
@@ -51,7 +51,7 @@ static void promise_close(promise *p) {
         atomic_flag_clear(&p->mutex);
         atomic_flag_clear(&p->done);
         if (!is_empty(p->scope->err))
-            ex_throw(p->scope->err, "unknown", 0, "thrd_raii_wrapper", p->scope->panic, p->scope->backtrace);
+            ex_throw(p->scope->err, "unknown", 0, "thrd_raii_wrapper", p->scope->panic, NULL);
     }
 }
 
-- 
2.43.0


From 13ba98adc1ca5790479604951cb195a8a350bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 19/34] fix: search exactly the given bytes in simd_memchr and
 simd_memrchr

---
 src/swar.c | 61 ++++++++++++++++++++++++++----------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index b05146d..7f4001e 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -144,29 +144,26 @@ RAII_INLINE uint32_t memchr8k(const char *s, uint8_t c) {
 static RAII_INLINE uint32_t _memrchr(bool Printable, bool Known, const char *s, uint32_t len, uint8_t c) {
     const char *p = s + len;
 
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
-
-    // Advance to leave multiple of 8 bytes
-    p -= partLen;
-
-    // Check first 8 bytes
-    if (hasbyte(first, c)) {
-        return (p - s) + _memchr8(Printable, true, true, (char *)&first, c);
+    // Check the last bytes, to leave a multiple of 8, past them is anything but c
+    uint32_t partLen = len & 7;
+    if (partLen) {
+        uint64_t last = extend(c ^ 1);
+        p -= partLen;
+        memcpy(&last, p, partLen);
+        if (hasbyte(last, c))
+            return (p - s) + _memchr8(Printable, true, true, (char *)&last, c);
     }
 
     // Check words for that byte
     for (;;) {
-        if (hasbyte(cast(p), c)) {
-            return (p - s) + _memchr8(Printable, true, true, p, c);
-        }
-        p -= 8;
         if (!Known) {
             if (p == s)
                 return -1;
         }
+        p -= 8;
+        if (hasbyte(cast(p), c)) {
+            return (p - s) + _memchr8(Printable, true, true, p, c);
+        }
     }
 }
 
@@ -175,28 +172,26 @@ static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, u
     const char *p = s;
     const char *end = s + len;
 
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
-
-    // Check first 8 bytes
-    if (hasbyte(first, c))
-        return _memchr8(Printable, true, false, (char *)&first, c);
-
-    // Advance to leave multiple of 8 bytes
-    p += partLen;
+    // Check the first bytes, to leave a multiple of 8, past them is anything but c
+    uint32_t partLen = len & 7;
+    if (partLen) {
+        uint64_t first = extend(c ^ 1);
+        memcpy(&first, p, partLen);
+        if (hasbyte(first, c))
+            return _memchr8(Printable, true, false, (char *)&first, c);
+        p += partLen;
+    }
 
     // Check words for that byte
     for (;;) {
-        if (hasbyte(cast(p), c)) {
-            return (p - s) + _memchr8(Printable, true, false, p, c);
-        }
-        p += 8;
         if (!Known) {
             if (p == end)
                 return -1;
         }
+        if (hasbyte(cast(p), c)) {
+            return (p - s) + _memchr8(Printable, true, false, p, c);
+        }
+        p += 8;
     }
 }
 
@@ -469,11 +464,13 @@ RAII_INLINE size_t simd_strlen(const char *str) {
 }
 
 RAII_INLINE string simd_memchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memchr(false, false, s, len, c);
+    uint32_t i = _memchr(false, false, s, len, c);
+    return i == (uint32_t)-1 ? NULL : (char *)s + i;
 }
 
 RAII_INLINE string simd_memrchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memrchr(false, false, s, len, c) - 3;
+    uint32_t i = _memrchr(false, false, s, len, c);
+    return i == (uint32_t)-1 ? NULL : (char *)s + i;
 }
 
 // Find char in binary string. Char c is known to be in s + len
-- 
2.43.0


From b4dfead10a22906d5826250077872f263067a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 20/34] fix: convert all 64-bit values in simd_itoa

---
 src/swar.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 7f4001e..8445e9e 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -262,21 +262,21 @@ RAII_INLINE uint32_t simd_itoa(int64_t x, char *buf) {
     bool neg = x < 0;
     *buf = '-'; // Always write
     buf += neg; // But advance only if negative
-    x = abs(x);
+    uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x; // abs() is for int only
 
     char tmp[20];
     char *p = tmp + 20;
 
-    while (x >= 100) {
+    while (u >= 100) {
         p -= 2;
-        utoa2p_ex(x % 100, p);
-        x /= 100;
+        utoa2p_ex(u % 100, p);
+        u /= 100;
     }
 
     p -= 2;
-    utoa2p_ex(x, p);
+    utoa2p_ex(u, p);
 
-    p += x < 10;
+    p += u < 10;
 
     uint32_t len = tmp + 20 - p;
 
-- 
2.43.0


From 6e7a2dedf7e58731bdbc3bfd5bbecb6d4bc6dcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 21/34] fix: decode base64 in a thread without a scope yet

---
 src/raii.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raii.c b/src/raii.c
index 352934b..b5da8a9 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -194,7 +194,7 @@ RAII_INLINE u_string raii_encode64(u_string_t src) {
 }
 
 RAII_INLINE u_string raii_decode64(u_string_t src) {
-    return str_decode64_ex(raii_local(), src);
+    return str_decode64_ex(raii_init(), src);
 }
 
 unique_t *unique_init(void) {
-- 
2.43.0


From ba3ad8322ea26ac8ed2c1f08c7b37f997e2a9934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 22/34] fix: give nothing for an argument out of range

---
 src/raii.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raii.c b/src/raii.c
index b5da8a9..8cc55ca 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -592,9 +592,11 @@ RAII_INLINE values_type get_args(args_t params, int item) {
 }
 
 RAII_INLINE values_type args_in(args_t params, size_t index) {
+    values_type none = {0};
+
     return (index >= 0 && index < params->n_args)
         ? params->args[index].value
-        : ((raii_values_t *)0)->value;
+        : none;
 }
 
 args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
-- 
2.43.0


From f6da03f8d5f639922d2b9456efd7a7f0ec90d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 23/34] fix: signals are marked as set up once all handlers are
 installed

A thread entering try, guard or raii_init while another was still in
ex_signal_setup took the handlers for installed and was killed by its
signal.
---
 src/except.c | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/except.c b/src/except.c
index c03da5e..8f472b5 100644
--- a/src/except.c
+++ b/src/except.c
@@ -573,7 +573,7 @@ void ex_signal_reset(int sig) {
     exception_signal_set = false;
 }
 
-void ex_signal(int sig, const char *ex) {
+static void ex_signal_install(int sig, const char *ex) {
     int i;
 
     for (i = 0; i < max_ex_sig; i++) {
@@ -609,7 +609,12 @@ void ex_signal(int sig, const char *ex) {
                 sig, ex);
     else
         ex_sig[i].ex = ex, ex_sig[i].sig = sig;
+#endif
+}
 
+void ex_signal(int sig, const char *ex) {
+    ex_signal_install(sig, ex);
+#if !defined(_WIN32)
     exception_signal_set = true;
 #endif
 }
@@ -628,58 +633,63 @@ void ex_signal_setup(void) {
     ex_signal_seh(CONTROL_C_EXIT, EX_NAME(sig_int));
 #endif
 #ifdef SIGSEGV
-    ex_signal(SIGSEGV, EX_NAME(sig_segv));
+    ex_signal_install(SIGSEGV, EX_NAME(sig_segv));
 #endif
 
 #ifdef SIGABRT
-    ex_signal(SIGABRT, EX_NAME(sig_abrt));
+    ex_signal_install(SIGABRT, EX_NAME(sig_abrt));
 #endif
 
 #ifdef SIGFPE
-    ex_signal(SIGFPE, EX_NAME(sig_fpe));
+    ex_signal_install(SIGFPE, EX_NAME(sig_fpe));
 #endif
 
 #ifdef SIGILL
-    ex_signal(SIGILL, EX_NAME(sig_ill));
+    ex_signal_install(SIGILL, EX_NAME(sig_ill));
 #endif
 
 #ifdef SIGBREAK
-    ex_signal(SIGBREAK, EX_NAME(sig_break));
+    ex_signal_install(SIGBREAK, EX_NAME(sig_break));
 #endif
 
 #ifdef SIGINT
-    ex_signal(SIGINT, EX_NAME(sig_int));
+    ex_signal_install(SIGINT, EX_NAME(sig_int));
 #endif
 
 #ifdef SIGTERM
-    ex_signal(SIGTERM, EX_NAME(sig_term));
+    ex_signal_install(SIGTERM, EX_NAME(sig_term));
 #endif
 
 #if !defined(_WIN32)
 #ifdef SIGQUIT
-    ex_signal(SIGQUIT, EX_NAME(sig_quit));
+    ex_signal_install(SIGQUIT, EX_NAME(sig_quit));
 #endif
 
 #ifdef SIGHUP
-    ex_signal(SIGHUP, EX_NAME(sig_hup));
+    ex_signal_install(SIGHUP, EX_NAME(sig_hup));
 #endif
 
 #ifdef SIGWINCH
-    ex_signal(SIGWINCH, EX_NAME(sig_winch));
+    ex_signal_install(SIGWINCH, EX_NAME(sig_winch));
 #endif
 #ifdef SIGTRAP
-    ex_signal(SIGTRAP, EX_NAME(sig_trap));
+    ex_signal_install(SIGTRAP, EX_NAME(sig_trap));
 #endif
 #endif
 
 #ifdef SIGALRM
-    ex_signal(SIGALRM, EX_NAME(sig_alrm));
+    ex_signal_install(SIGALRM, EX_NAME(sig_alrm));
 #endif
 
 #ifdef SIGBUS
-    ex_signal(SIGBUS, EX_NAME(sig_bus));
+    ex_signal_install(SIGBUS, EX_NAME(sig_bus));
 #elif SIG_BUS
-    ex_signal(SIG_BUS, EX_NAME(sig_bus));
+    ex_signal_install(SIG_BUS, EX_NAME(sig_bus));
+#endif
+
+#if !defined(_WIN32)
+    /* Only now: other threads need not install them when set. */
+    exception_signal_set = true;
 #endif
 }
 
-- 
2.43.0


From 3b4332af6e0531b48519d1fda41eb82a7ac64f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 24/34] fix: guards in several threads raced on the
 process-wide exception functions

A guard set exception_setup_func and exception_unwind_func to its own and put
back what it had found. The two are shared by all threads: guards of several
threads (every future and spawned task runs in one) raced on them, and guards
that overlapped left them at a guard's functions, the user's own lost. They are
not needed there: throwing and unwinding know a guard's context by its data.
---
 include/raii.h | 14 +++++---------
 src/raii.c     |  4 +---
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 948a69a..5e95e71 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -470,7 +470,7 @@ C_API void *try_malloc(size_t);
 C_API void *try_realloc(void *, size_t);
 
 C_API void guard_set(ex_context_t *ctx, const char *ex, const char *message);
-C_API void guard_reset(void *scope, ex_setup_func set, ex_unwind_func unwind);
+C_API void guard_reset(void *scope);
 C_API void guard_delete(memory_t *ptr);
 
 #ifndef MAX
@@ -517,7 +517,7 @@ throws an exception of given message. */
 return given `value` when done, use `NONE` for no return. */
 #define _return(value)              \
     raii_delete(_$##__FUNCTION__);  \
-    guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+    guard_reset(s##__FUNCTION__);                            \
     ex_update(ex_err.next);         \
     if (ex_local() == &ex_err)      \
         ex_update(ex_err.next);     \
@@ -533,11 +533,7 @@ are only valid between these sections.
     if (!exception_signal_set)                          \
         ex_signal_setup();                              \
     void *s##__FUNCTION__ = raii_init()->arena;         \
-    ex_setup_func sf##__FUNCTION__ = exception_setup_func;      \
-    ex_unwind_func uf##__FUNCTION__ = exception_unwind_func;    \
     unique_t *_$##__FUNCTION__ = unique_init();         \
-    exception_unwind_func = (ex_unwind_func)raii_deferred_free; \
-    exception_setup_func = guard_set;                   \
     (_$##__FUNCTION__)->status = RAII_GUARDED_STATUS;   \
     raii_local()->arena = (void *)_$##__FUNCTION__;     \
     ex_try {                                            \
@@ -556,7 +552,7 @@ are only valid between these sections.
         if ((is_type(&(_$##__FUNCTION__)->defer, RAII_DEF_ARR)))    \
             raii_deferred_free(_$##__FUNCTION__);                   \
     } ex_finally {                                                  \
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);                            \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
     return result;                                                  \
@@ -570,7 +566,7 @@ are only valid between these sections.
     } ex_catch_if {                                                 \
         raii_deferred_free(_$##__FUNCTION__);                       \
     } ex_finally {                                                  \
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);                            \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
 }
@@ -590,7 +586,7 @@ are only valid between these sections.
             ((memory_t *)error)->backtrace = ex_err.backtrace;      \
         }                                                           \
     } ex_finally{\
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);                            \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
 }
diff --git a/src/raii.c b/src/raii.c
index 8cc55ca..1b67234 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -537,12 +537,10 @@ void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
     ex_unwind_set(ctx, scope->is_protected);
 }
 
-void guard_reset(void *scope, ex_setup_func set, ex_unwind_func unwind) {
+void guard_reset(void *scope) {
     raii_local()->arena = scope;
     ex_swap_reset(ex_local());
     ex_local()->is_guarded = false;
-    exception_setup_func = set;
-    exception_unwind_func = unwind;
 }
 
 void guard_delete(memory_t *ptr) {
-- 
2.43.0


From 1af20934c31628aad66472cd400ef4591c5d4cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 25/34] fix: whether a thread returned by reference was read
 from what its argument points at

The wrapper took any argument for a list: a number was dereferenced, memory
that begins with the number of RAII_ARGS was misread, and of threads sharing
a list, one that returned a number after another had returned by reference
crashed. The thread itself now knows what it called thrd_returning with.
---
 include/raii.h | 2 ++
 src/future.c   | 4 ++--
 src/raii.c     | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 5e95e71..812e142 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -172,6 +172,8 @@ struct memory_s {
     ex_backtrace_t *backtrace;
     void *volatile err;
     const char *volatile panic;
+    /* the arguments this thread called `thrd_returning` with */
+    void *returning;
 };
 
 typedef struct args_s {
diff --git a/src/future.c b/src/future.c
index ca30414..e2f90cb 100644
--- a/src/future.c
+++ b/src/future.c
@@ -80,7 +80,7 @@ static int thrd_raii_wrapper(void_t arg) {
         res = f->func((args_t)f->arg);
     } guarded_exception(f->value->scope);
 
-    promise_set(f->value, res, (!is_empty(f->arg) && is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
+    promise_set(f->value, res, (!is_empty(f->arg) && raii_init()->returning == f->arg));
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
         RAII_FREE(f);
@@ -140,7 +140,7 @@ RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size
     result->value.object = value;
     result->size = size;
     result->extended = value;
-    args->is_returning = true;
+    raii_init()->returning = (void_t)args;
     return result;
 }
 
diff --git a/src/raii.c b/src/raii.c
index 1b67234..c02add8 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -111,6 +111,7 @@ memory_t *raii_init(void) {
         scope->protector = NULL;
         scope->panic = NULL;
         scope->err = NULL;
+        scope->returning = NULL;
         scope->is_protected = false;
         scope->is_recovered = false;
         scope->mid = -1;
-- 
2.43.0


From 1eba42c367e5d60ed6c40043aff152623cd02af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 26/34] fix: two threads setting up signals at once could lose
 one of them

Both could pick the same slot of the table for different signals; the one
written first then had a handler but no exception.
---
 src/except.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 8f472b5..16ff60d 100644
--- a/src/except.c
+++ b/src/except.c
@@ -577,7 +577,10 @@ static void ex_signal_install(int sig, const char *ex) {
     int i;
 
     for (i = 0; i < max_ex_sig; i++) {
-        if (!ex_sig[i].ex || ex_sig[i].sig == sig)
+        /* Taken at once: other threads may be setting up the same table. */
+        if (!ex_sig[i].ex)
+            c89atomic_compare_and_swap_32((c89atomic_uint32 *)&ex_sig[i].sig, 0, (c89atomic_uint32)sig);
+        if (ex_sig[i].sig == sig)
             break;
     }
 
-- 
2.43.0


From b34dc003f40ccd77117d9783d6cc709477b9ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 27/34] fix: naming an exception for a signal left the other
 signals without theirs

ex_signal() marked the signals as set up, so when called before the first
try or scope the usual ones were never installed.
---
 src/except.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/except.c b/src/except.c
index 16ff60d..47b4c4a 100644
--- a/src/except.c
+++ b/src/except.c
@@ -616,6 +616,11 @@ static void ex_signal_install(int sig, const char *ex) {
 }
 
 void ex_signal(int sig, const char *ex) {
+#if !defined(_WIN32)
+    if (!exception_signal_set)
+        ex_signal_setup();
+
+#endif
     ex_signal_install(sig, ex);
 #if !defined(_WIN32)
     exception_signal_set = true;
-- 
2.43.0


From ae18d3953acd711792637315c7c7c65141952413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 28/34] fix: joined text is bound to its scope like every other
 result, failing to is an exception

---
 src/swar.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 8445e9e..deb3d4e 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -647,7 +647,7 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     for (i = 0; i < num_args; i++)
         strsize += simd_strlen(va_arg(ap, string));
 
-    string res = try_calloc(1, strsize + 1);
+    string res = defer ? calloc_full(defer, 1, strsize + 1, RAII_FREE) : try_calloc(1, strsize + 1);
     strsize = 0;
 
     va_copy(ap, ap_copy);
@@ -658,9 +658,6 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     }
     va_end(ap);
 
-    if (defer)
-        raii_deferred(defer, RAII_FREE, res);
-
     return res;
 }
 
-- 
2.43.0


From 76fc7b7604b1986eb705044fcf26dab5d783220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 29/34] fix: running out of memory for an argument list is an
 exception, and leaks nothing

---
 src/future.c |  6 +++++-
 src/raii.c   | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index e2f90cb..4c0c304 100644
--- a/src/future.c
+++ b/src/future.c
@@ -269,7 +269,11 @@ result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
 
     /* Bound here, the thread can't use this `scope`. */
     params->defer_set = true;
-    raii_deferred(scope, (func_t)args_free, params);
+    if (raii_deferred(scope, (func_t)args_free, params) == (size_t)-1) {
+        args_free(params);
+        errno = ENOMEM;
+        raii_panic("Deferred allocation failed!");
+    }
 
     return thrd_spawn(fn, (void_t)params);
 }
diff --git a/src/raii.c b/src/raii.c
index c02add8..1c49986 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -576,7 +576,11 @@ values_type raii_get_args(memory_t *scope, void_t params, int item) {
         if (is_empty(scope))
             scoped = is_empty(args->context) ? raii_init() : args->context;
 
-        raii_deferred(scoped, (func_t)args_free, params);
+        if (UNLIKELY(raii_deferred(scoped, (func_t)args_free, params) == (size_t)-1)) {
+            args_free(args);
+            errno = ENOMEM;
+            raii_panic("Deferred allocation failed!");
+        }
     }
 
     return args_in(args, item);
@@ -603,7 +607,13 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
     args_t params = try_calloc(1, sizeof(struct args_s));
     string s;
     params->args_size = sizeof(raii_values_t);
-    params->args = try_calloc(count, params->args_size);
+    params->args = RAII_CALLOC(count, params->args_size);
+    if (is_empty(params->args)) {
+        RAII_FREE(params);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     params->args_size = params->args_size * count;
 
     for (i = 0; i < count; i++) {
-- 
2.43.0


From e28550041ebc7a078b7b9a2b3de6242dfbd9f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 30/34] fix: simd_atod() took decimals a tenth too small and
 with the opposite sign

---
 src/swar.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index deb3d4e..6364c7a 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -6,14 +6,6 @@
 #define CODE_SECTION
 #endif
 
-// Copy the sign from src to dst that is unsigned.
-// *** dst is up to 63 bit
-static RAII_INLINE int64_t _copySign(int64_t src, uint64_t dst) {
-    // This is better than `src > 0 ? dst : -dst` that is using cmov
-    uint64_t m = ~(src >> 63); // all 1s if >= 0 (opposite of abs)
-    return (dst + m) ^ m; // flip if src negative
-}
-
 RAII_INLINE uintptr_t cast(const char *src) {
     uintptr_t ret;
     memcpy(&ret, src, sizeof(uintptr_t));
@@ -516,23 +508,28 @@ RAII_INLINE double simd_atod(const char *s, uint32_t len) {
         return simd_atoi(s, len);
     }
 
+    // The sign is of the whole number, "-0" has none
+    bool neg = !!len & (*s == '-');
+
     // Do the int part
     int64_t ipart = simd_atoi(s, ilen);
     s += ilen + 1;
     len -= ilen + 1;
 
-    // Int of decimal part
-    int64_t dpart = simd_atou(s, len);
+    // No decimal part
+    if (len == 0)
+        return ipart;
 
-    // To add the two parts we need matching signs
-    dpart = _copySign(ipart, dpart);
+    // Int of decimal part
+    uint64_t dpart = simd_atou(s, len);
 
     // Array of 20 * 8 = 160 bytes
     static const CODE_SECTION double scales[20] = {
         1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10,
         1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18, 1e-19, 1e-20};
 
-    return ipart + dpart * scales[len];
+    double decimals = dpart * scales[len - 1];
+    return neg ? ipart - decimals : ipart + decimals;
 }
 
 // Convert uint to %0<N>u, N <= 8
-- 
2.43.0


From ed762d6c5f8541ae5d51f06315386d3eaee446c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 31/34] fix: a scope with an arena is released when its arena
 can't be made

---
 src/raii.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index 1c49986..e928c84 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -212,7 +212,9 @@ unique_t *unique_init(void) {
 
 unique_t *unique_init_arena(void) {
     unique_t *raii = unique_init();
+    protected(raii, (func_t)raii_delete);
     raii->arena = (void *)arena_init(0);
+    unprotected(raii);
     raii->is_arena = true;
 
     return raii;
-- 
2.43.0


From fd3a222e4947c6a3a123562687f8d99bbdf8a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:04 +0000
Subject: [PATCH 32/34] fix: a thread that cannot be made is not started, and
 its future is released

---
 src/future.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/future.c b/src/future.c
index 4c0c304..0b7de9d 100644
--- a/src/future.c
+++ b/src/future.c
@@ -93,13 +93,18 @@ static int thrd_raii_wrapper(void_t arg) {
 }
 
 static void thrd_start(future f, promise *value, void_t arg) {
+    protected(f, RAII_FREE);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
     f_arg->arg = arg;
     f_arg->value = value;
     f_arg->type = RAII_FUTURE_ARG;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
+    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success) {
+        RAII_FREE(f_arg);
         throw(future_error);
+    }
+
+    unprotected(f);
 }
 
 future thrd_async(thrd_func_t fn, void_t args) {
@@ -240,18 +245,13 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
     }
 
     promise *p = promise_create(pool->scope);
+    /* Nothing may fail once the thread is started, it could not be waited for. */
+    pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
     future f = future_create(fn);
-    future_arg *f_arg = try_calloc(1, sizeof(future_arg));
-    f_arg->func = f->func;
-    f_arg->arg = args;
-    f_arg->value = p;
-    f_arg->type = RAII_FUTURE_ARG;
     f->value = p;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
-        throw(future_error);
+    thrd_start(f, p, args);
 
     pool->futures[pool->thread_count] = f;
-    pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
     pool->results[pool->thread_count]->is_ready = false;
     pool->results[pool->thread_count]->result = NULL;
     pool->results[pool->thread_count]->type = RAII_VALUE;
-- 
2.43.0


From 2471fbfe61a0762fea505710fe1fb2ab71cedfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:54 +0000
Subject: [PATCH 33/34] fix: a spawn scope that cannot be made is released

---
 src/future.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 0b7de9d..2197b08 100644
--- a/src/future.c
+++ b/src/future.c
@@ -223,6 +223,7 @@ static future_t thrd_scope_local(void) {
 
 future_t thrd_scope(void) {
     unique_t *scope = unique_init(), *spawn = raii_init();
+    protected(scope, (func_t)raii_delete);
     future_t pool = (future_t)calloc_full(scope, 1, sizeof(struct future_pool), RAII_FREE);
 
     pool->scope = scope;
@@ -230,7 +231,12 @@ future_t thrd_scope(void) {
     pool->cpu_present = thrd_cpu_count();
     pool->futures = NULL;
     pool->results = NULL;
-    raii_deferred(scope, thrd_scope_free, pool);
+    if (raii_deferred(scope, thrd_scope_free, pool) == (size_t)-1) {
+        errno = ENOMEM;
+        raii_panic("Deferred allocation failed!");
+    }
+
+    unprotected(scope);
     pool->type = RAII_SPAWN;
     spawn->arena = pool;
 
-- 
2.43.0


From 04b2a681c5da239109b61880f33fc69363f9340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:13 +0000
Subject: [PATCH 34/34] fix: a result that cannot be bound to the asking scope
 is not lost

---
 src/future.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index 2197b08..e46f3d7 100644
--- a/src/future.c
+++ b/src/future.c
@@ -119,10 +119,12 @@ values_type thrd_get(future f) {
     if (is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
         promise *p = f->value;
         raii_values_t *r = promise_get(p);
-        future_close(f);
-        if (!is_empty(r->extended))
-            raii_deferred(raii_init(), RAII_FREE, r->extended);
+        if (!is_empty(r->extended) && raii_deferred(raii_init(), RAII_FREE, r->extended) == (size_t)-1) {
+            errno = ENOMEM;
+            raii_panic("Deferred allocation failed!");
+        }
 
+        future_close(f);
         promise_close(p);
         return r->value;
     }
-- 
2.43.0

