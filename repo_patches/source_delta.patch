From 53f8af9b53c823947c553f624078f075e61b0e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 001/104] fix: don't crash when a coroutine that is closing
 other coroutines is itself cancelled

---
 cr.c | 13 +++++++++++--
 cr.h |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index fdd5bb0..692d64e 100644
--- a/cr.c
+++ b/cr.c
@@ -296,6 +296,7 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     cr->no_blocking1 = 0;
     cr->no_blocking2 = 0;
     cr->done = 0;
+    cr->closing = 0;
     cr->mem = *ptr ? 1 : 0;
 #if defined DILL_VALGRIND
     cr->sid = VALGRIND_STACK_REGISTER((char*)(cr + 1) - stacksz, cr);
@@ -380,10 +381,16 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
     struct dill_cr *cr = dill_cont(vfs, struct dill_cr, vfs);
     /* If the coroutine has already finished, we are done. */
     if(!cr->done) {
+        /* Waiting for a coroutine which is itself waiting, even indirectly,
+           for this coroutine to finish would never end. */
+        struct dill_cr *it;
+        for(it = ctx->r->closer; it; it = it->closer)
+            dill_assert(it != cr);
         /* No blocking calls from this point on. */
         cr->no_blocking1 = 1;
-        /* Resume the coroutine if it was blocked. */
-        if(!cr->ready.next)
+        /* Resume the coroutine if it was blocked. If it is closing other
+           coroutines leave it alone: It will resume once they are done. */
+        if(!cr->ready.next && !cr->closing)
             dill_cancel(cr, ECANCELED);
         /* Wait for the coroutine to stop executing. With no clauses added,
            the only mechanism to resume is through dill_cancel(). This is not
@@ -391,7 +398,9 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
            coroutine that is being shut down is not permitted to block, we
            should get control back pretty quickly. */
         cr->closer = ctx->r;
+        ctx->r->closing = 1;
         int rc = dill_wait();
+        ctx->r->closing = 0;
         /* This assertion triggers when coroutine tries to close a bundle that
            it is part of. There's no sane way to handle that so let's just
            crash the process. */
diff --git a/cr.h b/cr.h
index 627bd72..5846a09 100644
--- a/cr.h
+++ b/cr.h
@@ -68,6 +68,8 @@ struct dill_cr {
     unsigned int done : 1;
     /* If true, the coroutine was launched with go_mem. */
     unsigned int mem : 1;
+    /* Set while the coroutine is waiting for a different coroutine to stop. */
+    unsigned int closing : 1;
     /* When the coroutine handle is being closed, this points to the
        coroutine that is doing the hclose() call. */
     struct dill_cr *closer;
-- 
2.43.0


From 664a36de62c99ae36b6d6c66878c74fd45020a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 002/104] fix: let any number of coroutines wait for a bundle,
 and release them when it is closed

---
 cr.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/cr.c b/cr.c
index 692d64e..ec6ae7f 100644
--- a/cr.c
+++ b/cr.c
@@ -74,13 +74,20 @@ struct dill_bundle {
     struct dill_hvfs vfs;
     /* List of coroutines in this bundle. */
     struct dill_list crs;
-    /* If somebody is doing hdone() on this bundle, here's the clause
-       to trigger when all coroutines are finished. */
-    struct dill_clause *waiter;
+    /* List of clauses (dill_bundleclause) to trigger when all coroutines
+       are finished. */
+    struct dill_list waiters;
     /* If true, the bundle was created by bundle_mem. */
     unsigned int mem : 1;
 };
 
+/* Clause used by a coroutine waiting for the bundle to finish. */
+struct dill_bundleclause {
+    struct dill_clause cl;
+    /* An item in dill_bundle::waiters. */
+    struct dill_list item;
+};
+
 DILL_CT_ASSERT(sizeof(struct dill_bundle_storage) >=
     sizeof(struct dill_bundle));
 
@@ -91,7 +98,7 @@ int dill_bundle_mem(struct dill_bundle_storage *mem) {
     b->vfs.query = dill_bundle_query;
     b->vfs.close = dill_bundle_close;
     dill_list_init(&b->crs);
-    b->waiter = NULL;
+    dill_list_init(&b->waiters);
     b->mem = 1;
     return dill_hmake(&b->vfs);
 }
@@ -117,6 +124,20 @@ static void *dill_bundle_query(struct dill_hvfs *vfs, const void *type) {
     return NULL;
 }
 
+/* Unblocks everyone waiting for the bundle. */
+static void dill_bundle_release(struct dill_bundle *self) {
+    while(!dill_list_empty(&self->waiters)) {
+        struct dill_bundleclause *bcl = dill_cont(
+            dill_list_next(&self->waiters), struct dill_bundleclause, item);
+        dill_trigger(&bcl->cl, 0);
+    }
+}
+
+static void dill_bundle_cancel(struct dill_clause *cl) {
+    struct dill_bundleclause *bcl = dill_cont(cl, struct dill_bundleclause, cl);
+    dill_list_erase(&bcl->item);
+}
+
 static void dill_bundle_close(struct dill_hvfs *vfs) {
     struct dill_bundle *self = (struct dill_bundle*)vfs;
     struct dill_list *it = &self->crs;
@@ -124,6 +145,7 @@ static void dill_bundle_close(struct dill_hvfs *vfs) {
         struct dill_cr *cr = dill_cont(it, struct dill_cr, bundle);
         dill_cr_close(&cr->vfs);
     }
+    dill_bundle_release(self);
     if(!self->mem) free(self);
 }
 
@@ -135,13 +157,12 @@ int dill_bundle_wait(int h, int64_t deadline) {
     /* If there are no coroutines in the bundle succeed immediately. */
     if(dill_list_empty(&self->crs)) return 0;
     /* Otherwise wait for all coroutines to finish. */
-    struct dill_clause cl;
-    self->waiter = &cl;
-    dill_waitfor(&cl, 0, NULL);
+    struct dill_bundleclause bcl;
+    dill_list_insert(&bcl.item, &self->waiters);
+    dill_waitfor(&bcl.cl, 0, dill_bundle_cancel);
     struct dill_tmclause tmcl;
     dill_timer(&tmcl, 1, deadline);
     int id = dill_wait();
-    self->waiter = NULL;
     if(dill_slow(id < 0)) return -1;
     if(dill_slow(id == 1)) {errno = ETIMEDOUT; return -1;}
     dill_assert(id == 0);
@@ -358,7 +379,7 @@ void dill_epilogue(void) {
         if(dill_list_oneitem(&ctx->r->bundle)) {
             struct dill_bundle *b = dill_cont(ctx->r->bundle.next,
                 struct dill_bundle, crs);
-            if(b->waiter) dill_trigger(b->waiter, 0);
+            dill_bundle_release(b);
         }
         dill_list_erase(&ctx->r->bundle);
         dill_cr_close(&ctx->r->vfs);
-- 
2.43.0


From 5822e6ffd3c6bb5168afa6d89b42419841f57905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 003/104] fix: don't use a stale pointer when the handle table
 grows while a handle is being closed

---
 handle.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/handle.c b/handle.c
index 3d658ca..e000630 100644
--- a/handle.c
+++ b/handle.c
@@ -155,6 +155,8 @@ int dill_hclose(int h) {
     hndl->vfs->close(hndl->vfs);
     /* Restore the previous state. */
     dill_no_blocking(old);
+    /* In case handle array was reallocated we have to recompute the pointer. */
+    hndl = &ctx->handles[h];
     /* Mark the cache as invalid. */
     hndl->ptr = NULL;
     /* Return a handle to the shared pool. */
-- 
2.43.0


From 02b39b0801cd8441a05fa52d29a3b6e360fe08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 004/104] fix: don't define a zero-sized array when choosing
 from no clauses

---
 chan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chan.c b/chan.c
index 4d10324..debf9ce 100644
--- a/chan.c
+++ b/chan.c
@@ -327,7 +327,7 @@ int dill_choose(struct dill_chclause *clauses, int nclauses, int64_t deadline) {
     /* There are no clauses immediately available. */
     if(dill_slow(deadline == 0)) {errno = ETIMEDOUT; return -1;}
     /* Let's wait. */
-    struct dill_chanclause chcls[nclauses];
+    struct dill_chanclause chcls[nclauses ? nclauses : 1];
     for(i = 0; i != nclauses; ++i) {
         struct dill_halfchan *ch = dill_hquery(clauses[i].ch,
             dill_halfchan_type);
-- 
2.43.0


From 6ddeb94e2058b82e013df1d1e5329bdce2613082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 005/104] fix: wait correctly for deadlines more than INT_MAX
 milliseconds away

---
 cr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index ec6ae7f..91f9def 100644
--- a/cr.c
+++ b/cr.c
@@ -21,6 +21,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <string.h>
@@ -496,7 +497,11 @@ int dill_wait(void)  {
                     int64_t deadline = dill_cont(
                         dill_rbtree_first(&ctx->timers),
                         struct dill_tmclause, item)->item.val;
-                    timeout = (int) (nw >= deadline ? 0 : deadline - nw);
+                    /* The pollset can't wait for longer than INT_MAX
+                       milliseconds at a time. */
+                    if(nw >= deadline) timeout = 0;
+                    else if(deadline - nw > INT_MAX) timeout = INT_MAX;
+                    else timeout = (int)(deadline - nw);
                 }
             }
             /* Wait for events. */
-- 
2.43.0


From 2fe5fd2e53d325fff2c371fd6a51091f3e1530a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 006/104] fix: refuse to launch a coroutine in a buffer too
 small to hold its bookkeeping data

---
 cr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index 91f9def..128afae 100644
--- a/cr.c
+++ b/cr.c
@@ -272,6 +272,8 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     int new_bundle = bndl < 0;
     if(new_bundle) {
         if(*ptr) {
+            if(dill_slow(len < sizeof(struct dill_bundle_storage))) {
+                err = ENOMEM; goto error1;}
             bndl = dill_bundle_mem(*ptr);
             *ptr = ((uint8_t*)*ptr) + sizeof(struct dill_bundle_storage);
             len -= sizeof(struct dill_bundle_storage);
@@ -296,10 +298,10 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
         uintptr_t top = (uintptr_t)*ptr;
         top += len;
         top &= ~(uintptr_t)15;
-        stacksz = top - (uintptr_t)*ptr;
         cr = (struct dill_cr*)top;
-        if(dill_slow(stacksz < sizeof(struct dill_cr))) {
+        if(dill_slow(top < (uintptr_t)*ptr + sizeof(struct dill_cr))) {
             err = ENOMEM; goto error2;}
+        stacksz = top - (uintptr_t)*ptr;
     }
 #if defined DILL_CENSUS
     /* Mark the bytes in the stack as unused. */
-- 
2.43.0


From ff46c0464aa5dd575bfb7d4152d5441da2997728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 007/104] fix: report EBADF when a coroutine is launched in a
 bundle with a negative handle

---
 cr.c      |  2 +-
 libdill.h | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cr.c b/cr.c
index 128afae..2e41d96 100644
--- a/cr.c
+++ b/cr.c
@@ -269,7 +269,7 @@ int dill_prologue(sigjmp_buf **jb, void **ptr, size_t len, int bndl,
     if(dill_slow(rc < 0)) {err = ECANCELED; goto error1;}
     /* If bundle is not supplied by the user create one. If user supplied a
        memory to use put the bundle at the beginning of the block. */
-    int new_bundle = bndl < 0;
+    int new_bundle = bndl == -1;
     if(new_bundle) {
         if(*ptr) {
             if(dill_slow(len < sizeof(struct dill_bundle_storage))) {
diff --git a/libdill.h b/libdill.h
index 7063aa0..cc337db 100644
--- a/libdill.h
+++ b/libdill.h
@@ -258,8 +258,15 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
 #define dill_go(fn) dill_go_(fn, NULL, 0, -1)
 #define dill_go_mem(fn, ptr, len) dill_go_(fn, ptr, len, -1)
 
-#define dill_bundle_go(bndl, fn) dill_go_(fn, NULL, 0, bndl)
-#define dill_bundle_go_mem(bndl, fn, ptr, len) dill_go_(fn, ptr, len, bndl)
+/* -1 asks for a new bundle so it must not be passed on as an invalid handle. */
+#define dill_bndl_(bndl) \
+    __extension__ ({int dill_bndl__ = (bndl);\
+        dill_bndl__ < 0 ? -2 : dill_bndl__;})
+
+#define dill_bundle_go(bndl, fn) \
+    dill_go_(fn, NULL, 0, dill_bndl_(bndl))
+#define dill_bundle_go_mem(bndl, fn, ptr, len) \
+    dill_go_(fn, ptr, len, dill_bndl_(bndl))
 
 struct dill_bundle_storage {char _[64];} DILL_ALIGN;
 
-- 
2.43.0


From a5340dbedbc02d049c0d9a3c7a96732d8a59e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 008/104] fix: don't access memory out of bounds when cleaning
 a descriptor number that is out of range

---
 epoll.c.inc  | 2 ++
 kqueue.c.inc | 2 ++
 poll.c.inc   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/epoll.c.inc b/epoll.c.inc
index c925125..28a9cdf 100644
--- a/epoll.c.inc
+++ b/epoll.c.inc
@@ -175,6 +175,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* There's no state associated with an fd we can't wait for. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/kqueue.c.inc b/kqueue.c.inc
index 92a0674..886c740 100644
--- a/kqueue.c.inc
+++ b/kqueue.c.inc
@@ -172,6 +172,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* There's no state associated with an fd we can't wait for. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     /* We cannot clean an fd that someone is waiting for. */
diff --git a/poll.c.inc b/poll.c.inc
index a575799..52ba23f 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -166,6 +166,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
 
 int dill_pollset_clean(int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
+    /* There's no state associated with an fd we can't wait for. */
+    if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) return 0;
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
     if(!fdi->cached) return 0;
     if(dill_slow(fdi->in || fdi->out)) {errno = EBUSY; return -1;}
-- 
2.43.0


From f41fffd4cf8bf4f983c6a4b35dda6520965c64e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 009/104] fix: initialise new pollset entries when using poll()

---
 poll.c.inc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/poll.c.inc b/poll.c.inc
index 52ba23f..46471e2 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -132,6 +132,8 @@ int dill_pollset_in(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
+        ctx->pollset[fdi->idx].revents = 0;
     }
     if(dill_slow(fdi->in)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLIN;
@@ -155,6 +157,8 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
         fdi->idx = ctx->pollset_size;
         ++ctx->pollset_size;
         ctx->pollset[fdi->idx].fd = fd;
+        ctx->pollset[fdi->idx].events = 0;
+        ctx->pollset[fdi->idx].revents = 0;
     }
     if(dill_slow(fdi->out)) {errno = EBUSY; return -1;}
     ctx->pollset[fdi->idx].events |= POLLOUT;
-- 
2.43.0


From f5935cfd1d2ddb39626150f3d48e52d339fa44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 010/104] fix: don't crash in poll() loop on events nobody is
 waiting for

---
 poll.c.inc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/poll.c.inc b/poll.c.inc
index 46471e2..56da04d 100644
--- a/poll.c.inc
+++ b/poll.c.inc
@@ -197,6 +197,7 @@ int dill_pollset_poll(int timeout) {
     if(numevs < 0 && errno == EINTR) return -1;
     dill_assert(numevs >= 0);
     /* Fire file descriptor events as needed. */
+    int fired = 0;
     int i;
     for(i = 0; i != ctx->pollset_size; ++i) {
         struct pollfd *pfd = &ctx->pollset[i];
@@ -206,11 +207,13 @@ int dill_pollset_poll(int timeout) {
               pfd->revents & (POLLIN | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLIN;
             dill_trigger(&fdi->in->cl, 0);
+            fired = 1;
         }
         if(fdi->out && 
               pfd->revents & (POLLOUT | POLLERR | POLLHUP | POLLNVAL)) {
             pfd->events &= ~POLLOUT;
             dill_trigger(&fdi->out->cl, 0);
+            fired = 1;
         }
         /* If nobody is polling for the fd remove it from the pollset. */
         if(!pfd->events) {
@@ -228,6 +231,8 @@ int dill_pollset_poll(int timeout) {
             --i;
         }
     }
-    return numevs > 0;
+    /* Return 1 if at least one coroutine was resumed. There may be events on
+       fds nobody is waiting for any more, e.g. POLLHUP. */
+    return fired;
 }
 
-- 
2.43.0


From 13c228dd1ec94b51aaf35ac1a9ecdc58aa317046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 011/104] fix: don't access the cached page size from several
 threads without synchronisation

---
 stack.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stack.c b/stack.c
index b13453e..edb4077 100644
--- a/stack.c
+++ b/stack.c
@@ -50,11 +50,14 @@ static size_t dill_align(size_t val, size_t unit) {
 
 /* Get memory page size. The query is done once. The value is cached. */
 static size_t dill_page_size(void) {
-    static long pgsz = 0;
+    /* The variable is shared by all the threads. */
+    static long cached = 0;
+    long pgsz = __atomic_load_n(&cached, __ATOMIC_RELAXED);
     if(dill_fast(pgsz))
         return (size_t)pgsz;
     pgsz = sysconf(_SC_PAGE_SIZE);
     dill_assert(pgsz > 0);
+    __atomic_store_n(&cached, pgsz, __ATOMIC_RELAXED);
     return (size_t)pgsz;
 }
 
-- 
2.43.0


From 76997152342e24b6a0f07be1d107430e7b6475e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 012/104] fix: don't leak a descriptor when several threads ask
 for random numbers at the same time

---
 utils.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/utils.c b/utils.c
index eb3582d..a13a4f3 100644
--- a/utils.c
+++ b/utils.c
@@ -110,10 +110,16 @@ const char *dill_rstrip(const char *string, char delim) {
 }
 
 int dill_random(uint8_t *buf, size_t len) {
-    static int fd = -1;
+    /* The file descriptor is shared by all the threads. */
+    static int cached = -1;
+    int fd = __atomic_load_n(&cached, __ATOMIC_ACQUIRE);
     if(dill_slow(fd < 0)) {
-        fd = open("/dev/urandom", O_RDONLY);
-        dill_assert(fd >= 0);
+        int nfd = open("/dev/urandom", O_RDONLY);
+        if(dill_slow(nfd < 0)) return -1;
+        if(__atomic_compare_exchange_n(&cached, &fd, nfd, 0,
+              __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) fd = nfd;
+        /* A different thread was faster. */
+        else close(nfd);
     }
     ssize_t sz = read(fd, buf, len);
     if(dill_slow(sz < 0)) return -1;
-- 
2.43.0


From 4f2c908084e47ae9ac960c89978be11d54f73c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 013/104] fix: initialise TLS only once even if several threads
 use it first at the same time

---
 tls.c | 51 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/tls.c b/tls.c
index 958b10e..ef5165f 100644
--- a/tls.c
+++ b/tls.c
@@ -26,6 +26,9 @@
 #include <openssl/bio.h>
 #include <openssl/err.h>
 #include <openssl/ssl.h>
+#if defined DILL_THREADS
+#include <pthread.h>
+#endif
 #include <stdint.h>
 #include <stdlib.h>
 
@@ -465,28 +468,38 @@ static void dill_tls_term(void) {
     EVP_cleanup();
 }
 
+static void dill_tls_doinit(void) {
+    SSL_library_init();
+    SSL_load_error_strings();
+    /* Create our own custom BIO type. */
+    int idx = BIO_get_new_index();
+    dill_tls_cbio = BIO_meth_new(idx, "bsock");
+    dill_assert(dill_tls_cbio);
+    int rc = BIO_meth_set_create(dill_tls_cbio, dill_tls_cbio_create);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_destroy(dill_tls_cbio, dill_tls_cbio_destroy);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_write(dill_tls_cbio, dill_tls_cbio_write);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_read(dill_tls_cbio, dill_tls_cbio_read);
+    dill_assert(rc == 1);
+    rc = BIO_meth_set_ctrl(dill_tls_cbio, dill_tls_cbio_ctrl);
+    dill_assert(rc == 1);
+    /* Deallocate the method once the process exits. */
+    rc = atexit(dill_tls_term);
+    dill_assert(rc == 0);
+}
+
 static void dill_tls_init(void) {
+#if defined DILL_THREADS
+    static pthread_once_t once = PTHREAD_ONCE_INIT;
+    int rc = pthread_once(&once, dill_tls_doinit);
+    dill_assert(rc == 0);
+#else
     static int init = 0;
     if(dill_slow(!init)) {
-        SSL_library_init();
-        SSL_load_error_strings();
-        /* Create our own custom BIO type. */
-        int idx = BIO_get_new_index();
-        dill_tls_cbio = BIO_meth_new(idx, "bsock");
-        dill_assert(dill_tls_cbio);
-        int rc = BIO_meth_set_create(dill_tls_cbio, dill_tls_cbio_create);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_destroy(dill_tls_cbio, dill_tls_cbio_destroy);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_write(dill_tls_cbio, dill_tls_cbio_write);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_read(dill_tls_cbio, dill_tls_cbio_read);
-        dill_assert(rc == 1);
-        rc = BIO_meth_set_ctrl(dill_tls_cbio, dill_tls_cbio_ctrl);
-        dill_assert(rc == 1);
-        /* Deallocate the method once the process exits. */
-        rc = atexit(dill_tls_term);
-        dill_assert(rc == 0);
+        dill_tls_doinit();
         init = 1;
     }
+#endif
 }
-- 
2.43.0


From 04b9dfb8f3d87d4fc1361e42ab3e63b63655f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 014/104] fix: load DNS configuration once in a thread-safe
 manner and report failures

---
 ipaddr.c | 64 ++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 005777d..49de8d3 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -38,6 +38,7 @@
 #include <ifaddrs.h>
 #endif
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
 
@@ -51,9 +52,46 @@
 DILL_CT_ASSERT(sizeof(struct dill_ipaddr) >= sizeof(struct sockaddr_in));
 DILL_CT_ASSERT(sizeof(struct dill_ipaddr) >= sizeof(struct sockaddr_in6));
 
-static struct dns_resolv_conf *dill_dns_conf = NULL;
-static struct dns_hosts *dill_dns_hosts = NULL;
-static struct dns_hints *dill_dns_hints = NULL;
+/* DNS configuration. It is loaded only once, when first needed. It is shared
+   by all the threads and never changes afterwards. */
+struct dill_dns {
+    struct dns_resolv_conf *conf;
+    struct dns_hosts *hosts;
+    struct dns_hints *hints;
+};
+
+static struct dill_dns *dill_dns_cached = NULL;
+
+static struct dill_dns *dill_dns(void) {
+    /* TODO: Maybe re-read the configuration once in a while? */
+    struct dill_dns *self = __atomic_load_n(&dill_dns_cached, __ATOMIC_ACQUIRE);
+    if(dill_fast(self)) return self;
+    int err;
+    struct dill_dns *dns = malloc(sizeof(struct dill_dns));
+    if(dill_slow(!dns)) {errno = ENOMEM; return NULL;}
+    dns->conf = dns_resconf_local(&err);
+    if(dill_slow(!dns->conf)) {err = ENOENT; goto error1;}
+    dns->hosts = dns_hosts_local(&err);
+    if(dill_slow(!dns->hosts)) goto error2;
+    dns->hints = dns_hints_local(dns->conf, &err);
+    if(dill_slow(!dns->hints)) goto error3;
+    if(__atomic_compare_exchange_n(&dill_dns_cached, &self, dns, 0,
+          __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return dns;
+    /* A different thread was faster. */
+    dns_hints_close(dns->hints);
+    dns_hosts_close(dns->hosts);
+    dns_resconf_close(dns->conf);
+    free(dns);
+    return self;
+error3:
+    dns_hosts_close(dns->hosts);
+error2:
+    dns_resconf_close(dns->conf);
+error1:
+    free(dns);
+    errno = err;
+    return NULL;
+}
 
 static int dill_ipaddr_ipany(struct dill_ipaddr *addr, int port, int mode)
 {
@@ -317,22 +355,12 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
         return rc1 + rc2;
     }
     /* We are going to do a DNS query here so load DNS config files,
-       unless they are already chached. */
-    if(dill_slow(!dill_dns_conf)) {
-        /* TODO: Maybe re-read the configuration once in a while? */
-        dill_dns_conf = dns_resconf_local(&rc);
-        if(!dill_dns_conf) {
-            errno = ENOENT;
-            return -1;
-        }
-        dill_dns_hosts = dns_hosts_local(&rc);
-        dill_assert(dill_dns_hosts);
-        dill_dns_hints = dns_hints_local(dill_dns_conf, &rc);
-        dill_assert(dill_dns_hints);
-    }
+       unless they are already cached. */
+    struct dill_dns *dns = dill_dns();
+    if(dill_slow(!dns)) return -1;
     /* Launch the actual DNS query. */
-    struct dns_resolver *resolver = dns_res_open(dill_dns_conf,
-        dill_dns_hosts, dill_dns_hints, NULL, dns_opts(), &rc);
+    struct dns_resolver *resolver = dns_res_open(dns->conf,
+        dns->hosts, dns->hints, NULL, dns_opts(), &rc);
     if(!resolver) {
         if(errno == ENFILE || errno == EMFILE) {
             return -1;
-- 
2.43.0


From ac8dba7006cc715b4a45dbb7f004f33f2b23e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 015/104] fix: report DNS failures from ipaddr_remotes instead
 of crashing

---
 ipaddr.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 49de8d3..770ba3d 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -361,13 +361,7 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     /* Launch the actual DNS query. */
     struct dns_resolver *resolver = dns_res_open(dns->conf,
         dns->hosts, dns->hints, NULL, dns_opts(), &rc);
-    if(!resolver) {
-        if(errno == ENFILE || errno == EMFILE) {
-            return -1;
-        }
-        dill_assert(resolver);
-    }
-    dill_assert(port >= 0 && port <= 0xffff);
+    if(dill_slow(!resolver)) {errno = rc; return -1;}
     char portstr[8];
     snprintf(portstr, sizeof(portstr), "%d", port);
     struct addrinfo hints;
@@ -376,8 +370,8 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     struct dns_addrinfo *ai = dns_ai_open(name, portstr,
         mode == DILL_IPADDR_IPV4 ? DNS_T_A : DNS_T_AAAA, &hints,
         resolver, &rc);
-    dill_assert(ai);
     dns_res_close(resolver);
+    if(dill_slow(!ai)) {errno = rc; return -1;}
     /* Wait for the results. */
     int nresults = 0;
     struct addrinfo *it = NULL;
@@ -402,6 +396,11 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             continue;
         }
         if(rc == ENOENT || (rc >= DNS_EBASE && rc <= DNS_ELAST)) break;
+        if(dill_slow(rc != 0)) {
+            dns_ai_close(ai);
+            errno = rc;
+            return -1;
+        }
         if(naddrs && mode == DILL_IPADDR_IPV4 && it->ai_family == AF_INET) {
             struct sockaddr_in *inaddr = (struct sockaddr_in*)addrs;
             memcpy(inaddr, it->ai_addr, sizeof (struct sockaddr_in));
-- 
2.43.0


From 3b6b108060a55feeea79c6871d2c3229949c81dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 016/104] fix: don't pass DNS options in a literal that is
 already out of scope

---
 dns/dns.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dns/dns.h b/dns/dns.h
index dc88ab5..06c900d 100644
--- a/dns/dns.h
+++ b/dns/dns.h
@@ -149,9 +149,12 @@ extern int dns_debug;
 #define DNS_PRAGMA_QUIET _Pragma("GCC diagnostic ignored \"-Woverride-init\"")
 #define DNS_PRAGMA_POP _Pragma("GCC diagnostic pop")
 
-/* GCC parses the _Pragma operator less elegantly than clang. */
-#define dns_quietinit(...) \
-	__extension__ ({ DNS_PRAGMA_PUSH DNS_PRAGMA_QUIET __VA_ARGS__; DNS_PRAGMA_POP })
+/*
+ * GCC parses the _Pragma operator less elegantly than clang. It would have to
+ * be wrapped in a statement expression, but then a compound literal, whose
+ * address is taken, wouldn't outlive that expression.
+ */
+#define dns_quietinit(...) __VA_ARGS__
 #else
 #define DNS_PRAGMA_PUSH
 #define DNS_PRAGMA_QUIET
-- 
2.43.0


From 618a8e53e486374137b42d3a6a604a435c54c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 017/104] fix: refuse an invalid port in ipaddr_remotes instead
 of crashing

---
 ipaddr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index 770ba3d..4f4672d 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -305,7 +305,10 @@ int dill_ipaddr_remote(struct dill_ipaddr *addr, const char *name, int port,
 int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
       const char *name, int port, int mode, int64_t deadline) {
     /* Check the arguments. */
-    if(dill_slow(!addrs || naddrs <= 0 || !name)) {errno = EINVAL; return -1;}
+    if(dill_slow(!addrs || naddrs <= 0 || !name || port < 0 || port > 0xffff)) {
+        errno = EINVAL;
+        return -1;
+    }
     switch(mode) {
     case 0:
         mode = DILL_IPADDR_PREF_IPV4;
-- 
2.43.0


From fe84ff573a4c58da532446e881ab8aae116d9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 018/104] fix: leave a malformed iolist unchanged

---
 iol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iol.c b/iol.c
index c1d4d12..a69d0ac 100644
--- a/iol.c
+++ b/iol.c
@@ -51,7 +51,7 @@ int dill_iolcheck(struct iolist *first, struct iolist *last,
     return 0;
 error:;
     struct iolist *it2;
-    for(it2 = first; it2 != it; it2 = it2->iol_next) it->iol_rsvd = 0;
+    for(it2 = first; nbf; it2 = it2->iol_next, nbf--) it2->iol_rsvd = 0;
     errno = EINVAL;
     return -1;
 }
-- 
2.43.0


From 8f395d2ad7ae527fd655df649d6ba5b5f787e8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 019/104] fix: refuse malformed iolists before doing anything
 and allow no iolist when receiving

---
 bsock.c |  8 ++++----
 msock.c | 10 ++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/bsock.c b/bsock.c
index e659a0d..01b721f 100644
--- a/bsock.c
+++ b/bsock.c
@@ -27,6 +27,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_bsock_type);
@@ -49,8 +50,8 @@ int dill_bsendl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow(!first || !last || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(!first)) {errno = EINVAL; return -1;}
+    if(dill_slow(dill_iolcheck(first, last, NULL, NULL) < 0)) return -1;
     return b->bsendl(b, first, last, deadline);
 }
 
@@ -58,8 +59,7 @@ int dill_brecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_bsock_vfs *b = dill_hquery(s, dill_bsock_type);
     if(dill_slow(!b)) return -1;
-    if(dill_slow((first && !last) || (!first && last) || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(dill_iolcheck(first, last, NULL, NULL) < 0)) return -1;
     return b->brecvl(b, first, last, deadline);
 }
 
diff --git a/msock.c b/msock.c
index c493bba..dc63bb7 100644
--- a/msock.c
+++ b/msock.c
@@ -27,6 +27,7 @@
 
 #define DILL_DISABLE_RAW_NAMES
 #include "libdillimpl.h"
+#include "iol.h"
 #include "utils.h"
 
 dill_unique_id(dill_msock_type);
@@ -49,8 +50,8 @@ int dill_msendl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
     if(dill_slow(!m)) return -1;
-    if(dill_slow(!first || !last || last->iol_next)) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(!first)) {errno = EINVAL; return -1;}
+    if(dill_slow(dill_iolcheck(first, last, NULL, NULL) < 0)) return -1;
     return m->msendl(m, first, last, deadline);
 }
 
@@ -58,10 +59,7 @@ ssize_t dill_mrecvl(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
     if(dill_slow(!m)) return -1;
-    if(dill_slow((last && last->iol_next) ||
-          (!first && last) ||
-          (first && !last))) {
-        errno = EINVAL; return -1;}
+    if(dill_slow(dill_iolcheck(first, last, NULL, NULL) < 0)) return -1;
     return m->mrecvl(m, first, last, deadline);
 }
 
-- 
2.43.0


From 388014e1ad8fd6ca288e974444381b2a55268c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 020/104] fix: don't ignore errors when dropping received bytes

---
 fd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fd.c b/fd.c
index 92e9388..67bde4e 100644
--- a/fd.c
+++ b/fd.c
@@ -328,6 +328,7 @@ int dill_fd_recv(int s, struct dill_fd_rxbuf *rxbuf, struct dill_iolist *first,
                 /* Skip specified number of bytes. */
                 dill_assert(it == begin);
                 int rc = dill_fd_skip(s, it->iol_len, deadline);
+                if(dill_slow(rc < 0)) return -1;
                 goto next;
             }
             if(it == end || !it->iol_next->iol_base || !it->iol_next->iol_len) {
-- 
2.43.0


From f1c50c838104940018b9a7f762b04eba26ea40d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 021/104] fix: allow iolists of any length to be sent and
 received

---
 fd.c | 101 +++++++++++++++++++++++++++++------------------------------
 1 file changed, 50 insertions(+), 51 deletions(-)

diff --git a/fd.c b/fd.c
index 67bde4e..4720bbd 100644
--- a/fd.c
+++ b/fd.c
@@ -34,6 +34,7 @@
 
 #define DILL_FD_CACHESIZE 32
 #define DILL_FD_BUFSIZE 1984
+#define DILL_FD_IOVSIZE 64
 
 #if defined MSG_NOSIGNAL
 #define FD_NOSIGNAL MSG_NOSIGNAL
@@ -148,30 +149,53 @@ int dill_fd_accept(int s, struct sockaddr *addr, socklen_t *addrlen,
     return as;
 }
 
+/* Moves the start of the list n bytes further and past any empty buffers.
+   The list is passed in a copy of its first item. Returns 0 if there's nothing
+   left in the list, 1 otherwise. */
+static int dill_fd_advance(struct dill_iolist *curr, size_t n) {
+    while(curr->iol_len <= n) {
+        n -= curr->iol_len;
+        if(!curr->iol_next) {
+            curr->iol_len = 0;
+            return 0;
+        }
+        *curr = *curr->iol_next;
+    }
+    curr->iol_base = (uint8_t*)curr->iol_base + n;
+    curr->iol_len -= n;
+    return 1;
+}
+
+/* Fills in the iovec array. Both the operating system and the stack of
+   the coroutine limit the number of buffers that can be processed at once.
+   Returns number of items filled in. */
+static size_t dill_fd_toiov(struct dill_iolist *curr, struct iovec *iov) {
+    size_t n;
+    for(n = 0; curr && n != DILL_FD_IOVSIZE; curr = curr->iol_next) {
+        if(!curr->iol_len) continue;
+        iov[n].iov_base = curr->iol_base;
+        iov[n].iov_len = curr->iol_len;
+        ++n;
+    }
+    return n;
+}
+
 int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
-    /* Make a local iovec array. */
-    /* TODO: This is dangerous, it may cause stack overflow.
-       There should probably be a on-heap per-socket buffer for that. */
-    size_t niov;
-    int rc = dill_iolcheck(first, last, &niov, NULL);
+    int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov];
-    dill_ioltoiov(first, iov);
-    /* Message header will act as an iterator in the following loop. */
+    /* This will act as an iterator in the following loop. */
+    struct dill_iolist curr = *first;
+    if(!dill_fd_advance(&curr, 0)) return 0;
+    struct iovec iov[DILL_FD_IOVSIZE];
     struct msghdr hdr;
     memset(&hdr, 0, sizeof(hdr));
     hdr.msg_iov = iov;
-    hdr.msg_iovlen = niov;
     /* It is very likely that at least one byte can be sent. Therefore,
        to improve efficiency, try to send and resort to fdout() only after
        send failed. */
     while(1) {
-        while(hdr.msg_iovlen && !hdr.msg_iov[0].iov_len) {
-            hdr.msg_iov++;
-            hdr.msg_iovlen--;
-        }
-        if(!hdr.msg_iovlen) return 0;
+        hdr.msg_iovlen = dill_fd_toiov(&curr, iov);
         ssize_t sz = sendmsg(s, &hdr, FD_NOSIGNAL);
         dill_assert(sz != 0);
         if(sz < 0) {
@@ -181,20 +205,9 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
             }
             sz = 0;
         }
-        /* Adjust the iovec array so that it doesn't contain data
-           that was already sent. */
-        while(sz) {
-            struct iovec *head = &hdr.msg_iov[0];
-            if(head->iov_len > sz) {
-                head->iov_base += sz;
-                head->iov_len -= sz;
-                break;
-            }
-            sz -= head->iov_len;
-            hdr.msg_iov++;
-            hdr.msg_iovlen--;
-            if(!hdr.msg_iovlen) return 0;
-        }
+        /* Adjust the list so that it doesn't contain data that was
+           already sent. */
+        if(!dill_fd_advance(&curr, sz)) return 0;
         /* Wait till more data can be sent. */
         int rc = dill_fdout(s, deadline);
         if(dill_slow(rc < 0)) return -1;
@@ -204,20 +217,17 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
 /* Same as dill_fd_recv() but with no rx buffering. */
 static int dill_fd_recv_(int s, struct dill_iolist *first,
       struct dill_iolist *last, int64_t deadline) {
-    /* Make a local iovec array. */
-    /* TODO: This is dangerous, it may cause stack overflow.
-       There should probably be a on-heap per-socket buffer for that. */
-    size_t niov;
-    int rc = dill_iolcheck(first, last, &niov, NULL);
+    int rc = dill_iolcheck(first, last, NULL, NULL);
     if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov];
-    dill_ioltoiov(first, iov);
-    /* Message header will act as an iterator in the following loop. */
+    /* This will act as an iterator in the following loop. */
+    struct dill_iolist curr = *first;
+    if(!dill_fd_advance(&curr, 0)) return 0;
+    struct iovec iov[DILL_FD_IOVSIZE];
     struct msghdr hdr;
     memset(&hdr, 0, sizeof(hdr));
     hdr.msg_iov = iov;
-    hdr.msg_iovlen = niov;
     while(1) {
+        hdr.msg_iovlen = dill_fd_toiov(&curr, iov);
         ssize_t sz = recvmsg(s, &hdr, 0);
         if(dill_slow(sz == 0)) {errno = EPIPE; return -1;}
         if(sz < 0) {
@@ -227,20 +237,9 @@ static int dill_fd_recv_(int s, struct dill_iolist *first,
             }
             sz = 0;
         }
-        /* Adjust the iovec array so that it doesn't contain buffers
-           that ware already filled in. */
-        while(sz) {
-            struct iovec *head = &hdr.msg_iov[0];
-            if(head->iov_len > sz) {
-                head->iov_base += sz;
-                head->iov_len -= sz;
-                break;
-            }
-            sz -= head->iov_len;
-            hdr.msg_iov++;
-            hdr.msg_iovlen--;
-            if(!hdr.msg_iovlen) return 0;
-        }
+        /* Adjust the list so that it doesn't contain buffers that were
+           already filled in. */
+        if(!dill_fd_advance(&curr, sz)) return 0;
         /* Wait for more data. */
         int rc = dill_fdin(s, deadline);
         if(dill_slow(rc < 0)) return -1;
-- 
2.43.0


From 0dbe72a5a1f8bd5c5ada7660da218a6a8e05169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 022/104] fix: honour deadlines and cancellation even if the
 peer never stops sending

---
 fd.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/fd.c b/fd.c
index 4720bbd..295d7fb 100644
--- a/fd.c
+++ b/fd.c
@@ -180,6 +180,17 @@ static size_t dill_fd_toiov(struct dill_iolist *curr, struct iovec *iov) {
     return n;
 }
 
+/* Waits till the transfer can continue. If there's always more data available,
+   for example because the peer never stops sending, the file descriptor is
+   always ready. The deadline has to be honoured even in that case. */
+static int dill_fd_wait(int s, int out, int64_t deadline) {
+    int rc = out ? dill_fdout(s, deadline) : dill_fdin(s, deadline);
+    if(dill_slow(rc < 0)) return -1;
+    if(dill_slow(deadline > 0 && dill_now() > deadline)) {
+        errno = ETIMEDOUT; return -1;}
+    return 0;
+}
+
 int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
       int64_t deadline) {
     int rc = dill_iolcheck(first, last, NULL, NULL);
@@ -209,7 +220,7 @@ int dill_fd_send(int s, struct dill_iolist *first, struct dill_iolist *last,
            already sent. */
         if(!dill_fd_advance(&curr, sz)) return 0;
         /* Wait till more data can be sent. */
-        int rc = dill_fdout(s, deadline);
+        int rc = dill_fd_wait(s, 1, deadline);
         if(dill_slow(rc < 0)) return -1;
     }
 }
@@ -241,7 +252,7 @@ static int dill_fd_recv_(int s, struct dill_iolist *first,
            already filled in. */
         if(!dill_fd_advance(&curr, sz)) return 0;
         /* Wait for more data. */
-        int rc = dill_fdin(s, deadline);
+        int rc = dill_fd_wait(s, 0, deadline);
         if(dill_slow(rc < 0)) return -1;
     }
 }
@@ -249,7 +260,14 @@ static int dill_fd_recv_(int s, struct dill_iolist *first,
 /* Skip len bytes. If len is negative skip until error occurs. */
 static int dill_fd_skip(int s, ssize_t len, int64_t deadline) {
     uint8_t buf[512];
+    unsigned int chunks = 0;
     while(len) {
+        /* Let other coroutines run, check the deadline and whether
+           the coroutine was canceled once in a while. */
+        if(dill_slow(++chunks % 128 == 0)) {
+            int rc = dill_fd_wait(s, 0, deadline);
+            if(dill_slow(rc < 0)) return -1;
+        }
         size_t to_recv = len < 0 || len > sizeof(buf) ? sizeof(buf) : len;
         struct dill_iolist iol = {buf, to_recv, NULL, 0};
         int rc = dill_fd_recv_(s, &iol, &iol, deadline);
@@ -378,7 +396,7 @@ next:
         if(curr.iol_base) curr.iol_base += sz;
         curr.iol_len -= sz;
         /* Wait for more data. */
-        int rc = dill_fdin(s, deadline);
+        int rc = dill_fd_wait(s, 0, deadline);
         if(dill_slow(rc < 0)) return -1;
     }
 }
-- 
2.43.0


From 455669ac3fc452ac097b04303c108caba73dc6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 023/104] fix: release the handle in tcp_close and ipc_close

---
 ipc.c | 5 +++--
 tcp.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipc.c b/ipc.c
index 06d64ab..d9f0e32 100644
--- a/ipc.c
+++ b/ipc.c
@@ -321,10 +321,11 @@ int dill_ipc_close(int s, int64_t deadline) {
     int rc = dill_ipc_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_ipc_hclose(&self->hvfs);
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return 0;
 error:
-    dill_ipc_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
diff --git a/tcp.c b/tcp.c
index cdc72c9..4cc24f7 100644
--- a/tcp.c
+++ b/tcp.c
@@ -233,10 +233,11 @@ int dill_tcp_close(int s, int64_t deadline) {
     int rc = dill_tcp_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
-    dill_tcp_hclose(&self->hvfs);
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return 0;
 error:
-    dill_tcp_hclose(&self->hvfs);
+    dill_hclose(s);
     errno = err;
     return -1;
 }
-- 
2.43.0


From b2be24ec384af98dfdb1dfcbf711c5cde08ac185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 024/104] fix: don't discard unreceived data when a TCP
 connection is closed in an orderly manner

The peer may have half-closed the connection and still be receiving.
---
 fd.c  | 11 +++++++++++
 fd.h  |  2 ++
 tcp.c |  7 ++++++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/fd.c b/fd.c
index 295d7fb..b157b21 100644
--- a/fd.c
+++ b/fd.c
@@ -416,6 +416,17 @@ void dill_fd_close(int s) {
     close(s);
 }
 
+void dill_fd_closegracefully(int s) {
+    int rc = dill_fdclean(s);
+    dill_assert(rc == 0);
+    /* Let the kernel deliver any pending outbound data in the background. */
+    struct linger lng;
+    lng.l_onoff=0;
+    lng.l_linger=0;
+    setsockopt(s, SOL_SOCKET, SO_LINGER, (void*)&lng, sizeof(lng));
+    close(s);
+}
+
 int dill_fd_own(int s) {
     int n = dup(s);
     if(dill_slow(n < 0)) return -1;
diff --git a/fd.h b/fd.h
index 58f65ea..89d13c1 100644
--- a/fd.h
+++ b/fd.h
@@ -76,6 +76,8 @@ int dill_fd_recv(
     int64_t deadline);
 void dill_fd_close(
     int s);
+void dill_fd_closegracefully(
+    int s);
 int dill_fd_own(
     int s);
 int dill_fd_check(
diff --git a/tcp.c b/tcp.c
index 4cc24f7..fa7c7e2 100644
--- a/tcp.c
+++ b/tcp.c
@@ -56,6 +56,7 @@ struct dill_tcp_conn {
     unsigned int outdone: 1;
     unsigned int inerr : 1;
     unsigned int outerr : 1;
+    unsigned int closed : 1;
     unsigned int mem : 1;
 };
 
@@ -84,6 +85,7 @@ static int dill_tcp_makeconn(int fd, void *mem) {
     self->outdone = 0;
     self->inerr = 0;
     self->outerr = 0;
+    self->closed = 0;
     self->mem = 1;
     /* Create the handle. */
     return dill_hmake(&self->hvfs);
@@ -233,6 +235,8 @@ int dill_tcp_close(int s, int64_t deadline) {
     int rc = dill_tcp_brecvl(&self->bvfs, NULL, NULL, deadline);
     dill_assert(rc < 0);
     if(dill_slow(errno != EPIPE)) {err = errno; goto error;}
+    /* If the peer has half-closed the connection it may still be receiving. */
+    self->closed = 1;
     rc = dill_hclose(s);
     dill_assert(rc == 0);
     return 0;
@@ -244,7 +248,8 @@ error:
 
 static void dill_tcp_hclose(struct dill_hvfs *hvfs) {
     struct dill_tcp_conn *self = (struct dill_tcp_conn*)hvfs;
-    dill_fd_close(self->fd);
+    if(self->closed) dill_fd_closegracefully(self->fd);
+    else dill_fd_close(self->fd);
     dill_fd_termrxbuf(&self->rxbuf);
     if(!self->mem) free(self);
 }
-- 
2.43.0


From b3377a11789f446198bd4eb2b5190d5c6021563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 025/104] fix: make results of coroutines visible to their
 callers in optimised programs

---
 libdill.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/libdill.h b/libdill.h
index cc337db..5197db5 100644
--- a/libdill.h
+++ b/libdill.h
@@ -126,7 +126,17 @@ DILL_EXPORT int dill_hclose(int h);
 /*  Coroutines                                                                */
 /******************************************************************************/
 
+/* Once launched, coroutine keeps running concurrently with its caller. Compiler
+   must not look into it: If it found out that the coroutine doesn't store its
+   pointer arguments anywhere it would assume that the memory they point to
+   doesn't change any more and the caller would never see the results. */
+#if defined __clang__
+#define dill_coroutine __attribute__((noinline, optnone))
+#elif defined __GNUC__ && __GNUC__ >= 8
+#define dill_coroutine __attribute__((noinline, noipa))
+#else
 #define dill_coroutine __attribute__((noinline))
+#endif
 
 DILL_EXPORT extern volatile void *dill_unoptimisable;
 
@@ -235,6 +245,10 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
    Given that there's no other way to do this, screw other compilers for now.
    See https://gcc.gnu.org/onlinedocs/gcc-3.2/gcc/Statement-Exprs.html */
 
+/* The loop below never iterates. It's there to make compiler believe that the
+   coroutine may have been already launched when dill_setjmp() returns, which,
+   in fact, it is when dill_setjmp() returns for the second time. */
+
 /* A bug in gcc have been observed where name clash between variable in the
    outer scope and a local variable in this macro causes the variable to
    get weird values. To avoid that, we use fancy names (dill_*__). */ 
@@ -246,11 +260,13 @@ DILL_EXPORT __attribute__((noinline)) void dill_epilogue(void);
         int dill_handle__ = dill_prologue(&dill_ctx__, &dill_stk__, (len),\
             (bndl), __FILE__, __LINE__);\
         if(dill_handle__ >= 0) {\
-            if(!dill_setjmp(*dill_ctx__)) {\
-                dill_setsp(dill_stk__);\
-                fn;\
-                dill_epilogue();\
-            }\
+            do {\
+                if(!dill_setjmp(*dill_ctx__)) {\
+                    dill_setsp(dill_stk__);\
+                    fn;\
+                    dill_epilogue();\
+                }\
+            } while(*(volatile int*)&dill_handle__ < 0);\
         }\
         dill_handle__;\
     })
-- 
2.43.0


From 309af3bb01fb3e217e875455f466bc58d060d7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 026/104] fix: don't crash or misbehave on errors when passing
 descriptors over IPC sockets

Broken connection raised SIGPIPE or failed an assertion, so did an invalid
descriptor. Concurrent operation in the same direction broke the connection
instead of being refused. Superfluous descriptors were leaked.
---
 ipc.c | 84 +++++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 25 deletions(-)

diff --git a/ipc.c b/ipc.c
index d9f0e32..5babe52 100644
--- a/ipc.c
+++ b/ipc.c
@@ -33,6 +33,12 @@
 #include "fd.h"
 #include "utils.h"
 
+#if defined MSG_NOSIGNAL
+#define FD_NOSIGNAL MSG_NOSIGNAL
+#else
+#define FD_NOSIGNAL 0
+#endif
+
 static int dill_ipc_resolve(const char *addr, struct sockaddr_un *su);
 
 dill_unique_id(dill_ipc_listener_type);
@@ -222,25 +228,36 @@ int dill_ipc_sendfd(int s, int fd, int64_t deadline) {
     memset(&msg, 0, sizeof (msg));
     msg.msg_iov = &iov;
     msg.msg_iovlen = 1;
-    char control [sizeof(struct cmsghdr) + 10];
-    msg.msg_control = control;
+    union {
+        struct cmsghdr hdr;
+        unsigned char buf[CMSG_SPACE(sizeof(fd))];
+    } control;
+    memset(&control, 0, sizeof(control));
+    msg.msg_control = &control;
     msg.msg_controllen = sizeof(control);
     struct cmsghdr *cmsg;
     cmsg = CMSG_FIRSTHDR(&msg);
     cmsg->cmsg_level = SOL_SOCKET;
     cmsg->cmsg_type = SCM_RIGHTS;
     cmsg->cmsg_len = CMSG_LEN(sizeof(fd));
-    *((int*)CMSG_DATA(cmsg)) = fd;
+    memcpy(CMSG_DATA(cmsg), &fd, sizeof(fd));
     msg.msg_controllen = cmsg->cmsg_len;
-    int rc = dill_fdout(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = sendmsg(self->fd, &msg, 0);
-    if(dill_slow(sz == 0)) {self->outdone = 1; errno = EPIPE; return -1;}
-    if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+    self->sbusy = 1;
+    ssize_t sz;
+    while(1) {
+        sz = dill_fdout(self->fd, deadline);
+        if(dill_slow(sz < 0)) break;
+        sz = sendmsg(self->fd, &msg, FD_NOSIGNAL);
+        if(dill_fast(sz > 0)) break;
+        if(errno == EWOULDBLOCK || errno == EAGAIN) continue;
+        /* Nothing was sent if, for example, fd is not valid. The connection
+           can still be used in such case. */
+        if(errno == EPIPE) errno = ECONNRESET;
+        if(errno == ECONNRESET) self->outerr = 1;
+        break;
     }
-    return 0;
+    self->sbusy = 0;
+    return sz < 0 ? -1 : 0;
 }
 
 int dill_ipc_recvfd(int s, int64_t deadline) {
@@ -255,27 +272,44 @@ int dill_ipc_recvfd(int s, int64_t deadline) {
     iov.iov_base = buf;
     iov.iov_len = sizeof(buf);
     struct msghdr msg;
-    memset(&msg, 0, sizeof(msg));
-    msg.msg_iov = &iov;
-    msg.msg_iovlen = 1;
-    unsigned char control[1024];
-    msg.msg_control = control;
-    msg.msg_controllen = sizeof(control);
-    int rc = dill_fdin(self->fd, deadline);
-    if(dill_slow(rc < 0)) return -1;
-    ssize_t sz = recvmsg(self->fd, &msg, 0);
+    union {
+        struct cmsghdr hdr;
+        unsigned char buf[1024];
+    } control;
+    self->rbusy = 1;
+    ssize_t sz;
+    while(1) {
+        sz = dill_fdin(self->fd, deadline);
+        if(dill_slow(sz < 0)) {self->rbusy = 0; return -1;}
+        memset(&msg, 0, sizeof(msg));
+        msg.msg_iov = &iov;
+        msg.msg_iovlen = 1;
+        msg.msg_control = &control;
+        msg.msg_controllen = sizeof(control);
+        sz = recvmsg(self->fd, &msg, 0);
+        if(dill_fast(sz >= 0)) break;
+        if(errno != EWOULDBLOCK && errno != EAGAIN) break;
+    }
+    self->rbusy = 0;
     if(dill_slow(sz == 0)) {self->indone = 1; errno = EPIPE; return -1;}
     if(dill_slow(sz < 0)) {
-       if(errno == ECONNRESET) {self->outerr = 1; return -1;}
-       dill_assert(0);
+        self->inerr = 1;
+        if(errno == EPIPE) errno = ECONNRESET;
+        return -1;
     }
     /* Loop over the auxiliary data to find the embedded file descriptor. */
     int fd = -1;
     struct cmsghdr *cmsg = CMSG_FIRSTHDR(&msg);
     while(cmsg) {
-        if (cmsg->cmsg_level == SOL_SOCKET && cmsg->cmsg_type  == SCM_RIGHTS) {
-            fd = *(int*)CMSG_DATA(cmsg);
-            break;
+        if(cmsg->cmsg_level == SOL_SOCKET && cmsg->cmsg_type == SCM_RIGHTS) {
+            size_t i;
+            for(i = 0; i != (cmsg->cmsg_len - CMSG_LEN(0)) / sizeof(int); i++) {
+                int curr;
+                memcpy(&curr, CMSG_DATA(cmsg) + i * sizeof(int), sizeof(int));
+                /* If the peer has sent several descriptors keep just one. */
+                if(fd < 0) fd = curr;
+                else close(curr);
+            }
         }
         cmsg = CMSG_NXTHDR(&msg, cmsg);
     }
-- 
2.43.0


From 59c7a37646174b2d41a74d249f02791c9881278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 027/104] fix: don't leak the descriptor if a socket cannot be
 created from it

---
 ipc.c | 12 ++++++++----
 tcp.c | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/ipc.c b/ipc.c
index 5babe52..e489e36 100644
--- a/ipc.c
+++ b/ipc.c
@@ -112,12 +112,14 @@ int dill_ipc_fromfd_mem(int fd, struct dill_ipc_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -434,12 +436,14 @@ int dill_ipc_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_ipc_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
diff --git a/tcp.c b/tcp.c
index fa7c7e2..da85dc5 100644
--- a/tcp.c
+++ b/tcp.c
@@ -102,12 +102,14 @@ int dill_tcp_fromfd_mem(int fd, struct dill_tcp_storage *mem) {
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makeconn(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
@@ -317,12 +319,14 @@ int dill_tcp_listener_fromfd_mem(int fd,
     if(dill_slow(fd < 0)) {err = errno; goto error1;}
     /* Set the socket to non-blocking mode */
     rc = dill_fd_unblock(fd);
-    if(dill_slow(rc < 0)) {err = errno; goto error1;}
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Create the handle */
     int h = dill_tcp_makelistener(fd, mem);
-    if(dill_slow(h < 0)) {err = errno; goto error1;}
+    if(dill_slow(h < 0)) {err = errno; goto error2;}
     /* Return the handle */
     return h;
+error2:
+    dill_fd_close(fd);
 error1:
     errno = err;
     return -1;
-- 
2.43.0


From 3c0c792c45e32f5115b36085f4b560c40d78d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 028/104] fix: don't leak memory if second handle of IPC pair
 cannot be created

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index e489e36..81678c6 100644
--- a/ipc.c
+++ b/ipc.c
@@ -597,6 +597,7 @@ int dill_ipc_pair(int s[2]) {
     conn1->mem = 0;
     return 0;
 error6:
+    free(conn1);
     rc = dill_hclose(s[0]);
     goto error2;
 error5:
-- 
2.43.0


From 86f34a9e7795a35ac3494884bc88d6dbe8cfaede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 029/104] fix: refuse NULL memory in ipc_listen_mem instead of
 crashing

---
 ipc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipc.c b/ipc.c
index 81678c6..f5f2b6a 100644
--- a/ipc.c
+++ b/ipc.c
@@ -452,6 +452,7 @@ error1:
 int dill_ipc_listen_mem(const char *addr, int backlog,
       struct dill_ipc_listener_storage *mem) {
     int err;
+    if(dill_slow(!mem)) {err = EINVAL; goto error1;}
     /* Create a UNIX address out of the address string. */
     struct sockaddr_un su;
     int rc = dill_ipc_resolve(addr, &su);
-- 
2.43.0


From d8ce3009b567777f4c20c3deffa488c603ff346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 030/104] fix: release the handle when a protocol is detached

It kept pointing to memory that was already deallocated. Also, ws_detach did
not close the socket in the case of failure.
---
 http.c   |  7 +++++--
 prefix.c |  5 ++++-
 suffix.c |  5 ++++-
 term.c   |  9 ++++++---
 tls.c    |  6 ++++--
 ws.c     | 22 +++++++++++++++++-----
 6 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/http.c b/http.c
index 8dcb106..e4595bc 100644
--- a/http.c
+++ b/http.c
@@ -116,8 +116,11 @@ int dill_http_detach(int s, int64_t deadline) {
     if(dill_slow(u < 0)) {err = errno; goto error;}
     u = dill_suffix_detach(u, deadline);
     if(dill_slow(u < 0)) {err = errno; goto error;}
-error:
-    if(!obj->mem) free(obj);
+error:;
+    /* The underlying sockets are gone in any case, only the handle is left. */
+    obj->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return u;
 }
diff --git a/prefix.c b/prefix.c
index 1746872..f2327ee 100644
--- a/prefix.c
+++ b/prefix.c
@@ -116,8 +116,11 @@ int dill_prefix_detach(int s) {
     struct dill_prefix_sock *self = dill_hquery(s, dill_prefix_type);
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
+    /* Close the handle but leave the underlying socket open. */
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/suffix.c b/suffix.c
index 1dce9e8..ea0f89c 100644
--- a/suffix.c
+++ b/suffix.c
@@ -120,8 +120,11 @@ int dill_suffix_detach(int s, int64_t deadline) {
     struct dill_suffix_sock *self = dill_hquery(s, dill_suffix_type);
     if(dill_slow(!self)) {err = errno; goto error;}
     if(dill_slow(self->inerr || self->outerr)) {err = ECONNRESET; goto error;}
+    /* Close the handle but leave the underlying socket open. */
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
     if(s >= 0) dill_hclose(s);
diff --git a/term.c b/term.c
index 5c91677..fa8a028 100644
--- a/term.c
+++ b/term.c
@@ -144,12 +144,15 @@ int dill_term_detach(int s, int64_t deadline) {
             }
         }
     }
+    /* Close the handle but leave the underlying socket open. */
     int u = self->u;
-    if(!self->mem) free(self);
-    return u;
-error:;
+    self->u = -1;
     int rc = dill_hclose(s);
     dill_assert(rc == 0);
+    return u;
+error:
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return -1;
 }
diff --git a/tls.c b/tls.c
index ef5165f..1945c94 100644
--- a/tls.c
+++ b/tls.c
@@ -280,10 +280,12 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     int u = self->u;
     self->u = -1;
-    dill_tls_hclose(&self->hvfs);
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
 error:
-    dill_tls_hclose(&self->hvfs);
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
     errno = err;
     return -1;
 }
diff --git a/ws.c b/ws.c
index 013a516..40116b7 100644
--- a/ws.c
+++ b/ws.c
@@ -543,9 +543,10 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
+    int err;
     if(!self->outdone) {
         int rc = dill_ws_done(s, status, buf, len, deadline);
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) {err = errno; goto error;}
     }
     while(1) {
         struct dill_iolist iol = {NULL, SIZE_MAX, NULL, 0};
@@ -553,18 +554,29 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
             deadline);
         if(sz < 0) {
              if(errno == EPIPE) break;
-             return -1;
+             err = errno;
+             goto error;
         }
     }
+    /* Close the handle but leave the underlying socket open. */
     int u = self->u;
-    if(!self->mem) free(self);
+    self->u = -1;
+    int rc = dill_hclose(s);
+    dill_assert(rc == 0);
     return u;
+error:
+    rc = dill_hclose(s);
+    dill_assert(rc == 0);
+    errno = err;
+    return -1;
 }
 
 static void dill_ws_hclose(struct dill_hvfs *hvfs) {
     struct dill_ws_sock *self = (struct dill_ws_sock*)hvfs;
-    int rc = dill_hclose(self->u);
-    dill_assert(rc == 0);
+    if(dill_fast(self->u >= 0)) {
+        int rc = dill_hclose(self->u);
+        dill_assert(rc == 0);
+    }
     if(!self->mem) free(self);
 }
 
-- 
2.43.0


From cea073934364ad909449ee38698c70b6e6275a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 031/104] fix: refuse terminal messages that don't fit into
 TERM socket

---
 term.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/term.c b/term.c
index fa8a028..79d3f60 100644
--- a/term.c
+++ b/term.c
@@ -67,7 +67,7 @@ static void *dill_term_hquery(struct dill_hvfs *hvfs, const void *type) {
 int dill_term_attach_mem(int s, const void *buf, size_t len,
       struct dill_term_storage *mem) {
     int err;
-    if(dill_slow(!mem && len > DILL_MAX_TERMINATOR_LENGTH)) {
+    if(dill_slow(!mem || len > DILL_MAX_TERMINATOR_LENGTH)) {
         err = EINVAL; goto error;}
     if(dill_slow(len > 0 && !buf)) {err = EINVAL; goto error;}
     /* Take ownership of the underlying socket. */
@@ -85,7 +85,7 @@ int dill_term_attach_mem(int s, const void *buf, size_t len,
     self->mvfs.mrecvl = dill_term_mrecvl;
     self->u = s;
     self->len = len;
-    memcpy(self->buf, buf, len);
+    if(len > 0) memcpy(self->buf, buf, len);
     self->indone = 0;
     self->outdone = 0;
     self->mem = 1;
-- 
2.43.0


From 9019a0291253184101b2bbbbb32f7d642e92590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 032/104] fix: return EPIPE once TERM socket is done

---
 term.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/term.c b/term.c
index 79d3f60..c41d19b 100644
--- a/term.c
+++ b/term.c
@@ -160,6 +160,7 @@ error:
 static int dill_term_msendl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     /* TODO: Check that it's not the terminal message. */
     return dill_msendl(self->u, first, last, deadline);
 }
@@ -167,6 +168,7 @@ static int dill_term_msendl(struct dill_msock_vfs *mvfs,
 static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_term_sock *self = dill_cont(mvfs, struct dill_term_sock, mvfs);
+    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(self->len == 0) {
         ssize_t sz = dill_mrecvl(self->u, first, last, deadline);
         if(dill_slow(sz < 0)) return -1;
-- 
2.43.0


From c22ec6ac4efb8a9ae465bef2379c11f681700c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 033/104] fix: receive messages of any size via TERM socket
 correctly

Buffers longer than the terminal message were used incorrectly, messages
shorter than it were followed by garbage and messages longer than the buffer
were silently truncated.
---
 term.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/term.c b/term.c
index c41d19b..010bc92 100644
--- a/term.c
+++ b/term.c
@@ -179,11 +179,16 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         }
         return sz;
     }
+    /* No buffers means that the message should be dropped. */
+    struct dill_iolist drop = {NULL, SIZE_MAX, NULL, 0};
+    if(!first) first = last = &drop;
     struct dill_iolist trimmed = {0};
     int rc = dill_ioltrim(first, self->len, &trimmed);
     uint8_t buf[self->len];
     struct dill_iolist iol = {buf, self->len, rc < 0 ? NULL : &trimmed, 0}; 
-    ssize_t sz = dill_mrecvl(self->u, &iol, rc < 0 ? &iol : last, deadline);
+    if(rc < 0) last = &iol;
+    else if(!trimmed.iol_next) last = &trimmed;
+    ssize_t sz = dill_mrecvl(self->u, &iol, last, deadline);
     if(dill_slow(sz < 0)) return -1;
     if(dill_slow(sz == self->len &&
           dill_slow(memcmp(self->buf, buf, self->len) == 0))) {
@@ -191,7 +196,8 @@ static ssize_t dill_term_mrecvl(struct dill_msock_vfs *mvfs,
         errno = EPIPE;
         return -1;
     }
-    dill_iolto(buf, self->len, first);
+    rc = dill_iolto(buf, sz < self->len ? sz : self->len, first);
+    if(dill_slow(rc < 0)) {errno = EMSGSIZE; return -1;}
     return sz;
 }
 
-- 
2.43.0


From 5eb4bfde3a22abc56fa1433d7a4112d8d8817373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 034/104] fix: receive a PREFIX message that doesn't fill all
 the supplied buffers

---
 prefix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prefix.c b/prefix.c
index f2327ee..116aa26 100644
--- a/prefix.c
+++ b/prefix.c
@@ -183,7 +183,7 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     struct dill_iolist *old_next = it->iol_next;
     it->iol_len = rmn;
     it->iol_next = NULL;
-    rc = dill_brecvl(self->u, first, last, deadline);
+    rc = dill_brecvl(self->u, first, it, deadline);
     /* Get iolist to its original state. */
     it->iol_len = old_len;
     it->iol_next = old_next;
-- 
2.43.0


From 2ef2f1d92bb1e2e9869556460e04934a1ad98509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 035/104] fix: refuse PREFIX messages whose size cannot be
 represented

---
 prefix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prefix.c b/prefix.c
index 116aa26..35e7d27 100644
--- a/prefix.c
+++ b/prefix.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -143,6 +144,8 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
         szbuf[self->bigendian ? (self->hdrlen - i - 1) : i] = sz & 0xff;
         sz >>= 8;
     }
+    /* The size cannot be expressed in the header. */
+    if(dill_slow(sz > 0)) {errno = EMSGSIZE; return -1;}
     struct dill_iolist hdr = {szbuf, sizeof(szbuf), first, 0};
     int rc = dill_bsendl(self->u, &hdr, last, deadline);
     if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
@@ -161,6 +164,9 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     int i;
     for(i = 0; i != self->hdrlen; ++i) {
         uint8_t c = szbuf[self->bigendian ? i : (self->hdrlen - i - 1)];
+        /* The message is larger than any conceivable buffer. */
+        if(dill_slow(sz > (SSIZE_MAX >> 8))) {
+            self->inerr = 1; errno = EMSGSIZE; return -1;}
         sz <<= 8;
         sz |= c;
     }
-- 
2.43.0


From eaf81e469f70de47750782f3433c8a5e7a8bcdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 036/104] fix: receive SUFFIX messages into multiple buffers
 and never accept more than fits

Also, allow for the message to be dropped.
---
 suffix.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/suffix.c b/suffix.c
index ea0f89c..835d7e9 100644
--- a/suffix.c
+++ b/suffix.c
@@ -159,21 +159,23 @@ static ssize_t dill_suffix_mrecvl(struct dill_msock_vfs *mvfs,
     iol.iol_base = self->buf + self->suffixlen - 1;
     iol.iol_len = 1;
     size_t sz = 0;
-    struct dill_iolist it = *first;
+    /* No buffers means that the message should be dropped. */
+    struct dill_iolist it = {NULL, SIZE_MAX, NULL, 0};
+    if(first) it = *first;
     while(1) {
         /* Check for suffix. */
         if(memcmp(self->buf, self->suffix, self->suffixlen) == 0) break;
         /* Ignore empty iolist items. */
-        while(first->iol_len == 0) {
+        while(it.iol_len == 0) {
             if(!it.iol_next) {self->inerr = 1; errno = EMSGSIZE; return -1;}
             it = *it.iol_next;
         }
         /* Move one character to the user's iolist. */
-        if(it.iol_base && it.iol_len > 0) {
+        if(it.iol_base) {
             ((uint8_t*)it.iol_base)[0] = self->buf[0];
             it.iol_base = ((uint8_t*)it.iol_base) + 1;
-            it.iol_len--;
         }
+        it.iol_len--;
         /* Read new character into the temporary buffer. */
         memmove(self->buf, self->buf + 1, self->suffixlen - 1);
         rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
-- 
2.43.0


From d850d4012025a0d6db624ae24c926cf7fb490a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 037/104] fix: don't break PREFIX and SUFFIX sockets by
 concurrent use

---
 prefix.c | 12 ++++++++++--
 suffix.c | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/prefix.c b/prefix.c
index 35e7d27..1149bdf 100644
--- a/prefix.c
+++ b/prefix.c
@@ -148,7 +148,11 @@ static int dill_prefix_msendl(struct dill_msock_vfs *mvfs,
     if(dill_slow(sz > 0)) {errno = EMSGSIZE; return -1;}
     struct dill_iolist hdr = {szbuf, sizeof(szbuf), first, 0};
     int rc = dill_bsendl(self->u, &hdr, last, deadline);
-    if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {
+        /* Nothing was sent if the socket is used by other coroutine. */
+        if(errno != EBUSY) self->outerr = 1;
+        return -1;
+    }
     return 0;
 }
 
@@ -159,7 +163,11 @@ static ssize_t dill_prefix_mrecvl(struct dill_msock_vfs *mvfs,
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     uint8_t szbuf[self->hdrlen];
     int rc = dill_brecv(self->u, szbuf, self->hdrlen, deadline);
-    if(dill_slow(rc < 0)) {self->inerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {
+        /* Nothing was received if the socket is used by other coroutine. */
+        if(errno != EBUSY) self->inerr = 1;
+        return -1;
+    }
     uint64_t sz = 0;
     int i;
     for(i = 0; i != self->hdrlen; ++i) {
diff --git a/suffix.c b/suffix.c
index 835d7e9..2419da5 100644
--- a/suffix.c
+++ b/suffix.c
@@ -142,7 +142,11 @@ static int dill_suffix_msendl(struct dill_msock_vfs *mvfs,
     last->iol_next = &iol;
     int rc = self->uvfs->bsendl(self->uvfs, first, &iol, deadline);
     last->iol_next = NULL;
-    if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {
+        /* Nothing was sent if the socket is used by other coroutine. */
+        if(errno != EBUSY) self->outerr = 1;
+        return -1;
+    }
     return 0;
 }
 
@@ -154,7 +158,11 @@ static ssize_t dill_suffix_mrecvl(struct dill_msock_vfs *mvfs,
     /* First fill in the temporary buffer. */
     struct dill_iolist iol = {self->buf, self->suffixlen, NULL, 0};
     int rc = self->uvfs->brecvl(self->uvfs, &iol, &iol, deadline);
-    if(dill_slow(rc < 0)) {self->inerr = 1; return -1;}
+    if(dill_slow(rc < 0)) {
+        /* Nothing was received if the socket is used by other coroutine. */
+        if(errno != EBUSY) self->inerr = 1;
+        return -1;
+    }
     /* Read the input, character by character. */
     iol.iol_base = self->buf + self->suffixlen - 1;
     iol.iol_len = 1;
-- 
2.43.0


From 8d08f24441d563c92129ec4d665e1be5dcd9717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 038/104] fix: report failure to bind a UDP socket

---
 udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udp.c b/udp.c
index c3bda63..bc7b22c 100644
--- a/udp.c
+++ b/udp.c
@@ -82,7 +82,7 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     /* Start listening. */
     if(local) {
         rc = bind(s, dill_ipaddr_sockaddr(local), dill_ipaddr_len(local));
-        if(s < 0) {err = errno; goto error2;}
+        if(dill_slow(rc < 0)) {err = errno; goto error2;}
         /* Get the ephemeral port number. */
         if(dill_ipaddr_port(local) == 0) {
             struct dill_ipaddr baddr;
-- 
2.43.0


From 25c0583e46c4bbbfecb5f6356d85754b3cdde2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 039/104] fix: refuse handles that aren't UDP sockets in UDP
 functions

---
 udp.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/udp.c b/udp.c
index bc7b22c..a483829 100644
--- a/udp.c
+++ b/udp.c
@@ -200,32 +200,32 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
 
 int dill_udp_send(int s, const struct dill_ipaddr *addr,
       const void *buf, size_t len) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_sendl_(m, addr, &iol, &iol);
+    return dill_udp_sendl_(&obj->mvfs, addr, &iol, &iol);
 }
 
 ssize_t dill_udp_recv(int s, struct dill_ipaddr *addr, void *buf, size_t len,
       int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
     struct dill_iolist iol = {(void*)buf, len, NULL, 0};
-    return dill_udp_recvl_(m, addr, &iol, &iol, deadline);
+    return dill_udp_recvl_(&obj->mvfs, addr, &iol, &iol, deadline);
 }
 
 int dill_udp_sendl(int s, const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_sendl_(m, addr, first, last);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_sendl_(&obj->mvfs, addr, first, last);
 }
 
 ssize_t dill_udp_recvl(int s, struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
-    struct dill_msock_vfs *m = dill_hquery(s, dill_msock_type);
-    if(dill_slow(!m)) return -1;
-    return dill_udp_recvl_(m, addr, first, last, deadline);
+    struct dill_udp_sock *obj = dill_hquery(s, dill_udp_type);
+    if(dill_slow(!obj)) return -1;
+    return dill_udp_recvl_(&obj->mvfs, addr, first, last, deadline);
 }
 
 static int dill_udp_msendl(struct dill_msock_vfs *mvfs,
-- 
2.43.0


From 7110b24f92e01585a6e47269f272e61a6ecde757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 040/104] fix: allow sending via UDP socket while other
 coroutine is receiving

---
 udp.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/udp.c b/udp.c
index a483829..593312c 100644
--- a/udp.c
+++ b/udp.c
@@ -133,7 +133,6 @@ static int dill_udp_sendl_(struct dill_msock_vfs *mvfs,
       const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
     struct dill_udp_sock *obj = dill_cont(mvfs, struct dill_udp_sock, mvfs);
-    if(dill_slow(obj->busy)) {errno = EBUSY; return -1;}
     /* If no destination IP address is provided, fall back to the stored one. */
     const struct dill_ipaddr *dstaddr = addr;
     if(!dstaddr) {
-- 
2.43.0


From 2a65286d5c648d8e7f6d58de27bc08b0f9b5369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 041/104] fix: report UDP packets that don't fit into the
 buffer

---
 udp.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/udp.c b/udp.c
index 593312c..b81682b 100644
--- a/udp.c
+++ b/udp.c
@@ -172,20 +172,23 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     /* Make a local iovec array. */
     /* TODO: This is dangerous, it may cause stack overflow.
        There should probably be a on-heap per-socket buffer for that. */
-    size_t niov;
-    int rc = dill_iolcheck(first, last, &niov, NULL);
+    size_t niov, nbytes;
+    int rc = dill_iolcheck(first, last, &niov, &nbytes);
     if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov];
+    struct iovec iov[niov + 1];
     dill_ioltoiov(first, iov);
     hdr.msg_iov = (struct iovec*)iov;
     hdr.msg_iovlen = niov;
     while(1) {
-        ssize_t sz = recvmsg(obj->fd, &hdr, 0);
+        /* MSG_TRUNC makes recvmsg return the real size of the packet. */
+        ssize_t sz = recvmsg(obj->fd, &hdr, MSG_TRUNC);
         if(sz >= 0) {
             /* If remote IP address is specified we'll silently drop all
                packets coming from different addresses. */
             if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
                 continue;
+            /* No buffers means that the packet should be dropped. */
+            if(dill_slow(first && sz > nbytes)) {errno = EMSGSIZE; return -1;}
             if(addr) *addr = raddr;
             return sz;
         }
-- 
2.43.0


From 78712a68bfc75a62e63021907de104306e6c60a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 042/104] fix: allow iolists of any length and items to be
 skipped in UDP sockets

---
 udp.c | 70 ++++++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 17 deletions(-)

diff --git a/udp.c b/udp.c
index b81682b..068da88 100644
--- a/udp.c
+++ b/udp.c
@@ -129,6 +129,11 @@ error1:
     return -1;
 }
 
+/* Longer iolists are sent and received via a temporary buffer. */
+#define DILL_UDP_IOVSIZE 64
+/* No UDP packet is longer than this. */
+#define DILL_UDP_MAXSIZE 65536
+
 static int dill_udp_sendl_(struct dill_msock_vfs *mvfs,
       const struct dill_ipaddr *addr,
       struct dill_iolist *first, struct dill_iolist *last) {
@@ -144,16 +149,29 @@ static int dill_udp_sendl_(struct dill_msock_vfs *mvfs,
     hdr.msg_name = (void*)dill_ipaddr_sockaddr(dstaddr);
     hdr.msg_namelen = dill_ipaddr_len(dstaddr);
     /* Make a local iovec array. */
-    /* TODO: This is dangerous, it may cause stack overflow.
-       There should probably be a on-heap per-socket buffer for that. */
-    size_t niov;
-    int rc = dill_iolcheck(first, last, &niov, NULL);
+    size_t niov, nbytes;
+    int rc = dill_iolcheck(first, last, &niov, &nbytes);
     if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov];
-    dill_ioltoiov(first, iov);
-    hdr.msg_iov = (struct iovec*)iov;
+    struct iovec iov[DILL_UDP_IOVSIZE];
+    void *tmp = NULL;
+    if(dill_fast(niov <= DILL_UDP_IOVSIZE))
+        dill_ioltoiov(first, iov);
+    else {
+        if(dill_slow(nbytes > DILL_UDP_MAXSIZE)) {errno = EMSGSIZE; return -1;}
+        tmp = malloc(DILL_UDP_MAXSIZE);
+        if(dill_slow(!tmp)) {errno = ENOMEM; return -1;}
+        rc = dill_iolfrom(tmp, nbytes, first);
+        dill_assert(rc == 0);
+        iov[0].iov_base = tmp;
+        iov[0].iov_len = nbytes;
+        niov = 1;
+    }
+    hdr.msg_iov = iov;
     hdr.msg_iovlen = niov;
     ssize_t sz = sendmsg(obj->fd, &hdr, 0);
+    int err = errno;
+    free(tmp);
+    errno = err;
     if(dill_fast(sz >= 0)) return 0;
     if(errno == EAGAIN || errno == EWOULDBLOCK) return 0;
     return -1;
@@ -169,16 +187,29 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     memset(&hdr, 0, sizeof(hdr));
     hdr.msg_name = (void*)&raddr;
     hdr.msg_namelen = sizeof(struct dill_ipaddr);
-    /* Make a local iovec array. */
-    /* TODO: This is dangerous, it may cause stack overflow.
-       There should probably be a on-heap per-socket buffer for that. */
+    /* Make a local iovec array. Items with no buffer are to be skipped which
+       requires a temporary buffer as well. */
     size_t niov, nbytes;
     int rc = dill_iolcheck(first, last, &niov, &nbytes);
     if(dill_slow(rc < 0)) return -1;
-    struct iovec iov[niov + 1];
-    dill_ioltoiov(first, iov);
-    hdr.msg_iov = (struct iovec*)iov;
+    struct iovec iov[DILL_UDP_IOVSIZE];
+    void *tmp = NULL;
+    int usetmp = niov > DILL_UDP_IOVSIZE;
+    struct dill_iolist *it;
+    for(it = first; it; it = it->iol_next)
+        if(!it->iol_base && it->iol_len) usetmp = 1;
+    if(dill_slow(usetmp)) {
+        tmp = malloc(DILL_UDP_MAXSIZE);
+        if(dill_slow(!tmp)) {errno = ENOMEM; return -1;}
+        iov[0].iov_base = tmp;
+        iov[0].iov_len = DILL_UDP_MAXSIZE;
+        niov = 1;
+    }
+    else dill_ioltoiov(first, iov);
+    hdr.msg_iov = iov;
     hdr.msg_iovlen = niov;
+    ssize_t res = -1;
+    int err;
     while(1) {
         /* MSG_TRUNC makes recvmsg return the real size of the packet. */
         ssize_t sz = recvmsg(obj->fd, &hdr, MSG_TRUNC);
@@ -188,16 +219,21 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
             if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
                 continue;
             /* No buffers means that the packet should be dropped. */
-            if(dill_slow(first && sz > nbytes)) {errno = EMSGSIZE; return -1;}
+            if(dill_slow(first && sz > nbytes)) {err = EMSGSIZE; break;}
+            if(tmp) dill_iolto(tmp, sz, first);
             if(addr) *addr = raddr;
-            return sz;
+            res = sz;
+            break;
         }
-        if(errno != EAGAIN && errno != EWOULDBLOCK) return -1;
+        if(errno != EAGAIN && errno != EWOULDBLOCK) {err = errno; break;}
         obj->busy = 1;
         rc = dill_fdin(obj->fd, deadline);
         obj->busy = 0;
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) {err = errno; break;}
     }
+    free(tmp);
+    if(dill_slow(res < 0)) errno = err;
+    return res;
 }
 
 int dill_udp_send(int s, const struct dill_ipaddr *addr,
-- 
2.43.0


From 23ae03f2ec2937ad4f305ac751491c0cb01acfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 043/104] fix: honour the deadline even if there's a flood of
 unwanted UDP packets

---
 udp.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/udp.c b/udp.c
index 068da88..9e6c5eb 100644
--- a/udp.c
+++ b/udp.c
@@ -210,14 +210,25 @@ static ssize_t dill_udp_recvl_(struct dill_msock_vfs *mvfs,
     hdr.msg_iovlen = niov;
     ssize_t res = -1;
     int err;
+    unsigned int dropped = 0;
     while(1) {
         /* MSG_TRUNC makes recvmsg return the real size of the packet. */
         ssize_t sz = recvmsg(obj->fd, &hdr, MSG_TRUNC);
         if(sz >= 0) {
             /* If remote IP address is specified we'll silently drop all
                packets coming from different addresses. */
-            if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0))
+            if(obj->hasremote && !dill_ipaddr_equal(&raddr, &obj->remote, 0)) {
+                /* There may be a never-ending flow of such packets. Let other
+                   coroutines run and check the deadline once in a while. */
+                if(++dropped % 128) continue;
+                obj->busy = 1;
+                rc = dill_fdin(obj->fd, deadline);
+                obj->busy = 0;
+                if(dill_slow(rc < 0)) {err = errno; break;}
+                if(dill_slow(deadline > 0 && dill_now() > deadline)) {
+                    err = ETIMEDOUT; break;}
                 continue;
+            }
             /* No buffers means that the packet should be dropped. */
             if(dill_slow(first && sz > nbytes)) {err = EMSGSIZE; break;}
             if(tmp) dill_iolto(tmp, sz, first);
-- 
2.43.0


From 0a1cc0e65d50e4b6ddfb1a3f2ce6231f124b97d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 044/104] fix: allow empty items with no buffer in dill_iolfrom

---
 iol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iol.c b/iol.c
index a69d0ac..b613638 100644
--- a/iol.c
+++ b/iol.c
@@ -98,7 +98,7 @@ int dill_iolfrom(void *dst, size_t dstlen, struct dill_iolist *first) {
     uint8_t *p = dst;
     while(first) {
         if(dstlen < first->iol_len) return -1;
-        memcpy(p, first->iol_base, first->iol_len);
+        if(first->iol_len) memcpy(p, first->iol_base, first->iol_len);
         p += first->iol_len;
         dstlen -= first->iol_len;
         first = first->iol_next;
-- 
2.43.0


From 89333610b73da10a79da3150015e44ef990993b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 045/104] fix: don't allow two UDP sockets to use the same
 address

---
 udp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/udp.c b/udp.c
index 9e6c5eb..1c7f628 100644
--- a/udp.c
+++ b/udp.c
@@ -79,6 +79,11 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     /* Set it to non-blocking mode. */
     int rc = dill_fd_unblock(s);
     if(dill_slow(rc < 0)) {err = errno; goto error2;}
+    /* With UDP, address reuse would mean that several sockets could be bound
+       to the same address and steal packets from each other. */
+    int opt = 0;
+    rc = setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt));
+    if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Start listening. */
     if(local) {
         rc = bind(s, dill_ipaddr_sockaddr(local), dill_ipaddr_len(local));
-- 
2.43.0


From 38e45c11474afbb972cf6f1c4c49851189a463f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 046/104] fix: refuse HTTP requests and statuses with an
 unknown protocol version

---
 http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http.c b/http.c
index e4595bc..05a02c7 100644
--- a/http.c
+++ b/http.c
@@ -180,7 +180,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     /* Protocol. */
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -229,7 +229,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start != 8 &&
+    if(dill_slow(pos - start != 8 ||
           memcmp(obj->rxbuf + start, "HTTP/1.1", 8) != 0)) {
         errno = EPROTO; return -1;}
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From 36536aa54d06dea0a0fde0cec576b334738f6756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 047/104] fix: strip trailing spaces from received HTTP field
 values

---
 http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 05a02c7..5102f9b 100644
--- a/http.c
+++ b/http.c
@@ -306,7 +306,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Value. */
     start = pos;
-    pos = dill_rstrip(obj->rxbuf + sz, ' ') - obj->rxbuf;
+    pos = dill_rstrip(obj->rxbuf + start, ' ') - obj->rxbuf;
     if(dill_slow(pos - start > valuelen - 1)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
-- 
2.43.0


From 3e7a1dec759d11fad723d5c6704fc5b510c3f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 048/104] fix: refuse strings that would break the framing of
 HTTP messages

---
 http.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/http.c b/http.c
index 5102f9b..dd93629 100644
--- a/http.c
+++ b/http.c
@@ -129,8 +129,10 @@ int dill_http_sendrequest(int s, const char *command, const char *resource,
       int64_t deadline) {
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
-    if (strpbrk(command, " \t\n") != NULL) {errno = EINVAL; return -1;}
-    if (strpbrk(resource, " \t\n") != NULL) {errno = EINVAL; return -1;}
+    if (!*command || strpbrk(command, " \t\r\n") != NULL) {
+        errno = EINVAL; return -1;}
+    if (!*resource || strpbrk(resource, " \t\r\n") != NULL) {
+        errno = EINVAL; return -1;}
     struct dill_iolist iol[4];
     iol[0].iol_base = (void*)command;
     iol[0].iol_len = strlen(command);
@@ -192,6 +194,7 @@ int dill_http_sendstatus(int s, int status, const char *reason, int64_t deadline
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     if(dill_slow(status < 100 || status > 599)) {errno = EINVAL; return -1;}
+    if(dill_slow(strpbrk(reason, "\r\n") != NULL)) {errno = EINVAL; return -1;}
     char buf[4];
     buf[0] = (status / 100) + '0';
     status %= 100;
@@ -258,9 +261,9 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     struct dill_http_sock *obj = dill_hquery(s, dill_http_type);
     if(dill_slow(!obj)) return -1;
     /* Check whether name contains only valid characters. */
-    if (strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\n") != NULL) {
+    if (!*name || strpbrk(name, "(),/:;<=>?@[\\]{}\" \t\r\n") != NULL) {
         errno = EINVAL; return -1;}
-    if (strlen(value) == 0) {errno = EPROTO; return -1;}
+    if (strpbrk(value, "\r\n") != NULL) {errno = EINVAL; return -1;}
     struct dill_iolist iol[3];
     iol[0].iol_base = (void*)name;
     iol[0].iol_len = strlen(name);
@@ -271,6 +274,7 @@ int dill_http_sendfield(int s, const char *name, const char *value,
     iol[1].iol_next = &iol[2];
     iol[1].iol_rsvd = 0;
     const char *start = dill_lstrip(value, ' ');
+    if(*start == 0) {errno = EPROTO; return -1;}
     const char *end = dill_rstrip(start, ' ');
     dill_assert(start < end);
     iol[2].iol_base = (void*)start;
-- 
2.43.0


From 94f3a993c0ffada098d6f5bc5670decf2fb3c60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 049/104] fix: don't overflow zero-sized buffers when receiving
 via HTTP

---
 http.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/http.c b/http.c
index dd93629..a55d44c 100644
--- a/http.c
+++ b/http.c
@@ -167,7 +167,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     size_t start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > commandlen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= commandlen)) {errno = EMSGSIZE; return -1;}
     memcpy(command, obj->rxbuf + start, pos - start);
     command[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -175,7 +175,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     start = pos;
     while(obj->rxbuf[pos] != 0 && obj->rxbuf[pos] != ' ') ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > resourcelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= resourcelen)) {errno = EMSGSIZE; return -1;}
     memcpy(resource, obj->rxbuf + start, pos - start);
     resource[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -250,7 +250,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
         (obj->rxbuf[start + 2] - '0');
     while(obj->rxbuf[pos] == ' ') ++pos;
     /* Reason. */
-    if(sz - pos > reasonlen - 1) {errno = EMSGSIZE; return -1;}
+    if(sz - pos >= reasonlen) {errno = EMSGSIZE; return -1;}
     memcpy(reason, obj->rxbuf + pos, sz - pos);
     reason[sz - pos] = 0;
     return status;
@@ -301,7 +301,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
           obj->rxbuf[pos] != ':')
         ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
-    if(dill_slow(pos - start > namelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= namelen)) {errno = EMSGSIZE; return -1;}
     memcpy(name, obj->rxbuf + start, pos - start);
     name[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -311,7 +311,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     /* Value. */
     start = pos;
     pos = dill_rstrip(obj->rxbuf + start, ' ') - obj->rxbuf;
-    if(dill_slow(pos - start > valuelen - 1)) {errno = EMSGSIZE; return -1;}
+    if(dill_slow(pos - start >= valuelen)) {errno = EMSGSIZE; return -1;}
     memcpy(value, obj->rxbuf + start, pos - start);
     value[pos - start] = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
-- 
2.43.0


From 1893fa240060f1bead1d7c64471b1ef49c04718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 050/104] fix: refuse HTTP lines with binary zeroes and fields
 with no name

---
 http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http.c b/http.c
index a55d44c..9df8cb3 100644
--- a/http.c
+++ b/http.c
@@ -160,6 +160,7 @@ int dill_http_recvrequest(int s, char *command, size_t commandlen,
     ssize_t sz = dill_mrecv(obj->u, obj->rxbuf, sizeof(obj->rxbuf) - 1,
         deadline);
     if(dill_slow(sz < 0)) return -1;
+    if(dill_slow(memchr(obj->rxbuf, 0, sz) != NULL)) {errno = EPROTO; return -1;}
     obj->rxbuf[sz] = 0;
     size_t pos = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -225,6 +226,7 @@ int dill_http_recvstatus(int s, char *reason, size_t reasonlen,
     ssize_t sz = dill_mrecv(obj->u, obj->rxbuf, sizeof(obj->rxbuf) - 1,
         deadline);
     if(dill_slow(sz < 0)) return -1;
+    if(dill_slow(memchr(obj->rxbuf, 0, sz) != NULL)) {errno = EPROTO; return -1;}
     obj->rxbuf[sz] = 0;
     size_t pos = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -291,6 +293,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
     ssize_t sz = dill_mrecv(obj->u, obj->rxbuf, sizeof(obj->rxbuf) - 1,
         deadline);
     if(dill_slow(sz < 0)) return -1;
+    if(dill_slow(memchr(obj->rxbuf, 0, sz) != NULL)) {errno = EPROTO; return -1;}
     obj->rxbuf[sz] = 0;
     size_t pos = 0;
     while(obj->rxbuf[pos] == ' ') ++pos;
@@ -301,6 +304,7 @@ int dill_http_recvfield(int s, char *name, size_t namelen,
           obj->rxbuf[pos] != ':')
         ++pos;
     if(dill_slow(obj->rxbuf[pos] == 0)) {errno = EPROTO; return -1;}
+    if(dill_slow(pos == start)) {errno = EPROTO; return -1;}
     if(dill_slow(pos - start >= namelen)) {errno = EMSGSIZE; return -1;}
     memcpy(name, obj->rxbuf + start, pos - start);
     name[pos - start] = 0;
-- 
2.43.0


From 7f19fdf80194168de9e7043c967286b2735ba825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 051/104] fix: report EPROTO when HTTP is attached to something
 that is not a bytestream

---
 http.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http.c b/http.c
index 9df8cb3..75fbd2c 100644
--- a/http.c
+++ b/http.c
@@ -62,7 +62,9 @@ int dill_http_attach_mem(int s, struct dill_http_storage *mem) {
     struct dill_http_sock *obj = (struct dill_http_sock*)mem;
     if(dill_slow(!mem)) {err = EINVAL; goto error;}
     /* Check whether underlying socket is a bytestream. */
-    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {err = errno; goto error;}
+    void *q = dill_hquery(s, dill_bsock_type);
+    if(dill_slow(!q && errno == ENOTSUP)) {err = EPROTO; goto error;}
+    if(dill_slow(!q)) {err = errno; goto error;}
     /* Take the ownership of the underlying socket. */
     s = dill_hown(s);
     if(dill_slow(s < 0)) {err = errno; goto error;}
-- 
2.43.0


From de05214afb7e744ded3b00a34c8b84098a1d6fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 052/104] fix: don't leak the socket if WebSocket handshake is
 refused by the server

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 40116b7..cc09767 100644
--- a/ws.c
+++ b/ws.c
@@ -119,7 +119,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     char reason[256];
     rc = dill_http_recvstatus(s, reason, sizeof(reason), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto error;}
-    if(dill_slow(rc != 101)) {errno = EPROTO; return -1;}
+    if(dill_slow(rc != 101)) {err = EPROTO; goto error;}
     int has_upgrade = 0;
     int has_connection = 0;
     int has_key = 0;
-- 
2.43.0


From 998b162b83b22cee635d29e95959039c837210b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 053/104] fix: report EPROTO when WebSocket is attached to
 something that is not a bytestream

---
 ws.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ws.c b/ws.c
index cc09767..6cc5ea9 100644
--- a/ws.c
+++ b/ws.c
@@ -69,7 +69,9 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
       const char *host, struct dill_ws_storage *mem, int64_t deadline) {
     int err;
     if(dill_slow(!mem)) {err = EINVAL; goto error;}
-    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {err = errno; goto error;}
+    void *q = dill_hquery(s, dill_bsock_type);
+    if(dill_slow(!q && errno == ENOTSUP)) {err = EPROTO; goto error;}
+    if(dill_slow(!q)) {err = errno; goto error;}
     struct dill_ws_sock *self = (struct dill_ws_sock*)mem;
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
@@ -191,7 +193,9 @@ int dill_ws_attach_server_mem(int s, int flags,
       struct dill_ws_storage *mem, int64_t deadline) {
     int err;
     if(dill_slow(!mem)) {err = EINVAL; goto error;}
-    if(dill_slow(!dill_hquery(s, dill_bsock_type))) {err = errno; goto error;}
+    void *q = dill_hquery(s, dill_bsock_type);
+    if(dill_slow(!q && errno == ENOTSUP)) {err = EPROTO; goto error;}
+    if(dill_slow(!q)) {err = errno; goto error;}
     struct dill_ws_sock *self = (struct dill_ws_sock*)mem;
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-- 
2.43.0


From 8bd0fda2e03c340d2b2552bf2e7917bc49eab507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 054/104] fix: refuse WebSocket handshake with no Host field
 instead of returning garbage

---
 ws.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 6cc5ea9..2729dc3 100644
--- a/ws.c
+++ b/ws.c
@@ -275,7 +275,8 @@ int dill_ws_attach_server_mem(int s, int flags,
            continue;
         }
     }
-    if(dill_slow(!has_upgrade || !has_connection || !has_key || !has_version)) {
+    if(dill_slow(!has_host || !has_upgrade || !has_connection || !has_key ||
+          !has_version)) {
         err = EPROTO; goto error;}
 
     /* Send HTTP response back to the client. */
-- 
2.43.0


From 2bc2b3931528b0e54becc5d536965e6090f6ece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 055/104] fix: don't read out of bounds when decoding base64
 with non-ASCII characters

---
 utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.c b/utils.c
index a13a4f3..ce653d2 100644
--- a/utils.c
+++ b/utils.c
@@ -172,11 +172,11 @@ int dill_base64_decode(const char *in, size_t in_len, uint8_t *out,
         0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF};
 
     for(io = 0, ii = 0, v = 0, rem = 0; ii < in_len; ii++) {
-        if(isspace(in[ii]))
+        if(isspace((uint8_t)in[ii]))
             continue;
         if(in[ii] == '=')
             break;
-        ch = DECODEMAP[(int)(in[ii])];
+        ch = DECODEMAP[(uint8_t)in[ii]];
         /*  Discard invalid characters as per RFC 2045. */
         if(ch == 0xFF)
             break; 
-- 
2.43.0


From 7d2ee24b2a0ba5e14ee767fd20037f1975ca6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 056/104] fix: refuse WebSocket keys with spaces, wrong padding
 or trailing garbage

---
 ws.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ws.c b/ws.c
index 2729dc3..0dfc9af 100644
--- a/ws.c
+++ b/ws.c
@@ -620,6 +620,11 @@ int dill_ws_response_key(const char *request_key, char *response_key) {
     int rc = dill_base64_decode(request_key, strlen(request_key),
         nonce, sizeof(nonce));
     if(dill_slow(rc != sizeof(nonce))) {errno = EPROTO; return -1;}
+    /* Nothing but the padded base64 encoding of the nonce is allowed. */
+    if(dill_slow(strlen(request_key) != 24 ||
+          strspn(request_key, "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
+              "abcdefghijklmnopqrstuvwxyz0123456789+/") != 22 ||
+          strcmp(request_key + 22, "==") != 0)) {errno = EPROTO; return -1;}
     /* Create the response key. */
     struct dill_sha1 sha1;
     dill_sha1_init(&sha1);
-- 
2.43.0


From 1f6e2fa00331c533f310a9babf2b808c4e4b8206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 057/104] fix: refuse WebSocket terminal messages that cannot
 be sent

---
 ws.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ws.c b/ws.c
index 0dfc9af..555608b 100644
--- a/ws.c
+++ b/ws.c
@@ -530,6 +530,9 @@ int dill_ws_done(int s, int status, const void *buf, size_t len,
       int64_t deadline) {
     if(dill_slow((status != 0 && (status < 1000 || status > 4999)) ||
         (!buf && len > 0))) {errno = EINVAL; return -1;}
+    /* Control frames are limited to 125 bytes. Message can't be sent without
+       a status. */
+    if(dill_slow(len > (status ? 123 : 0))) {errno = EINVAL; return -1;}
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
-- 
2.43.0


From dd469ad5a811add173487f6a6373a7e2081f5acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 058/104] fix: receive WebSocket messages and close frames
 correctly

Fragmented messages overwrote their own beginning, masked payload spanning
several buffers was garbled, skipping a message crashed, a close frame in the
middle of a message caused memory to be accessed out of bounds, wrong sequences
of frames were accepted and the stream was used even after a failure had left
it in the middle of a frame.
---
 ws.c | 127 +++++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 80 insertions(+), 47 deletions(-)

diff --git a/ws.c b/ws.c
index 555608b..13886b1 100644
--- a/ws.c
+++ b/ws.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -41,6 +42,7 @@ struct dill_ws_sock {
     int flags;
     unsigned int indone : 1;
     unsigned int outdone: 1;
+    unsigned int inerr : 1;
     unsigned int server : 1;
     unsigned int mem : 1;
     uint16_t status;
@@ -84,6 +86,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
     self->server = 0;
     self->mem = 1;
     self->status = 0;
@@ -208,6 +211,7 @@ int dill_ws_attach_server_mem(int s, int flags,
     self->flags = flags;
     self->indone = 0;
     self->outdone = 0;
+    self->inerr = 0;
     self->server = 1;
     self->mem = 1;
     self->status = 0;
@@ -377,18 +381,40 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     return 0;
 }
 
-static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
-      struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
-    struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
-    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
-    int rc = dill_iolcheck(first, last, NULL, NULL);
+/* Receives payload of the close frame. */
+static ssize_t dill_ws_recvclose(struct dill_ws_sock *self, size_t sz,
+      const uint8_t *mask, int64_t deadline) {
+    uint8_t buf[125];
+    int rc = dill_brecv(self->u, buf, sz, deadline);
     if(dill_slow(rc < 0)) return -1;
+    if(self->server) {
+        size_t i;
+        for(i = 0; i != sz; ++i) buf[i] ^= mask[i % 4];
+    }
+    if(dill_slow(sz == 1)) {errno = EPROTO; return -1;}
+    if(sz >= 2) {
+        uint16_t status = dill_gets(buf);
+        if(dill_slow(status < 1000 || status > 4999)) {
+            errno = EPROTO; return -1;}
+        self->status = status;
+        self->msglen = sz - 2;
+        memcpy(self->msg, buf + 2, sz - 2);
+    }
+    self->indone = 1;
+    errno = EPIPE;
+    return -1;
+}
+
+static ssize_t dill_ws_recvmsg(struct dill_ws_sock *self, int *flags,
+      struct dill_iolist *first, int64_t deadline) {
+    int rc;
     size_t res = 0;
-    /* Message may consist of multiple frames. Read them one by one. */
-    struct dill_iolist it;
+    int started = 0;
+    /* The part of the iolist that was not filled in yet. */
+    struct dill_iolist it = {NULL, 0, NULL, 0};
     if(first) it = *first;
+    /* Message may consist of multiple frames. Read them one by one. */
     while(1) {
-        struct dill_iolist iol_msg;
         uint8_t hdr1[2];
         rc = dill_brecv(self->u, hdr1, sizeof(hdr1), deadline);
         if(dill_slow(rc < 0)) return -1;
@@ -397,30 +423,24 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
         /* TODO: Other opcodes. */
         switch(opcode) {
         case 0:
+            /* Nothing to continue. */
+            if(dill_slow(!started)) {errno = EPROTO; return -1;}
             break;
         case 1:
-            if(flags) *flags = DILL_WS_TEXT;
-            break;
         case 2:
-            if(flags) *flags = DILL_WS_BINARY;
+            /* Previous message is not finished yet. */
+            if(dill_slow(started)) {errno = EPROTO; return -1;}
+            if(flags) *flags = opcode == 1 ? DILL_WS_TEXT : DILL_WS_BINARY;
+            started = 1;
             break;
         case 8:
-            it.iol_base = &self->status;
-            it.iol_len = 2;
-            it.iol_next = &iol_msg;
-            it.iol_rsvd = 0;
-            iol_msg.iol_base = self->msg;
-            iol_msg.iol_len = sizeof(self->msg);
-            iol_msg.iol_next = NULL;
-            iol_msg.iol_rsvd = 0;
-            self->indone = 1;
             break;
         default:
             errno = EPROTO;
             return -1;
         }
         if(!self->server ^ !(hdr1[1] & 0x80)) {errno = EPROTO; return -1;}
-        size_t sz = hdr1[1] & 0x7f;
+        uint64_t sz = hdr1[1] & 0x7f;
         if(sz == 126) {
             uint8_t hdr2[2];
             rc = dill_brecv(self->u, hdr2, sizeof(hdr2), deadline);
@@ -433,7 +453,6 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             if(dill_slow(rc < 0)) return -1;
             sz = dill_getll(hdr2);
         }
-        res += sz;
         /* Control frames cannot be fragmented or longer than 125 bytes. */
         if(dill_slow(opcode >= 8 && (sz > 125 || !(hdr1[0] & 0x80)))) {
             errno = EPROTO; return -1;}
@@ -442,40 +461,54 @@ static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
             rc = dill_brecv(self->u, mask, sizeof(mask), deadline);
             if(dill_slow(rc < 0)) return -1;
         }
+        if(dill_slow(opcode == 8))
+            return dill_ws_recvclose(self, sz, mask, deadline);
+        /* The message is larger than any conceivable buffer. */
+        if(dill_slow(sz > SSIZE_MAX - res)) {errno = EMSGSIZE; return -1;}
+        res += sz;
         /* Frame may be read into multiple iolist elements. */
-        while(1) {
-            size_t toread = sz < it.iol_len ? sz : it.iol_len;
-            if(toread > 0) {
-                rc = dill_brecv(self->u, it.iol_base, toread, deadline);
-                if(dill_slow(rc < 0)) return -1;
-                if(self->server) {
-                    size_t i;
-                    for(i = 0; i != toread; ++i)
-                        ((uint8_t*)it.iol_base)[i] ^= mask[i % 4];
+        size_t pos = 0;
+        while(pos < sz) {
+            size_t toread = sz - pos;
+            uint8_t *base = NULL;
+            if(first) {
+                while(it.iol_len == 0) {
+                    if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; return -1;}
+                    it = *it.iol_next;
                 }
+                if(toread > it.iol_len) toread = it.iol_len;
+                base = it.iol_base;
+            }
+            rc = dill_brecv(self->u, base, toread, deadline);
+            if(dill_slow(rc < 0)) return -1;
+            if(self->server && base) {
+                size_t i;
+                for(i = 0; i != toread; ++i) base[i] ^= mask[(pos + i) % 4];
             }
-            sz -= toread;
-            if(sz == 0) break;
-            if(dill_slow(!it.iol_next)) {errno = EMSGSIZE; return -1;}
-            it = *it.iol_next;
+            if(first) {
+                if(base) it.iol_base = base + toread;
+                it.iol_len -= toread;
+            }
+            pos += toread;
         }
         if(hdr1[0] & 0x80) break;
     }
-    if(dill_slow(self->indone)) {
-        if(dill_slow(res == 1)) {errno = EPROTO; return -1;}
-        if(res >= 2) {
-           self->status = dill_gets((uint8_t*)&self->status);
-           if(dill_slow(self->status < 1000 || self->status > 4999)) {
-               errno = EPROTO; return -1;}
-           self->msglen = (uint8_t)res - 2;
-        }
-        else self->msglen = 0;
-        errno = EPIPE;
-        return -1;
-    }
     return res;
 }
 
+static ssize_t dill_ws_recvl_base(struct dill_msock_vfs *mvfs, int *flags,
+      struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
+    struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
+    if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
+    int rc = dill_iolcheck(first, last, NULL, NULL);
+    if(dill_slow(rc < 0)) return -1;
+    ssize_t sz = dill_ws_recvmsg(self, flags, first, deadline);
+    /* Nothing was received if the socket is used by other coroutine. */
+    if(dill_slow(sz < 0 && !self->indone && errno != EBUSY)) self->inerr = 1;
+    return sz;
+}
+
 int dill_ws_send(int s, int flags, const void *buf, size_t len,
       int64_t deadline) {
     struct dill_ws_sock *self = dill_hquery(s, dill_ws_type);
-- 
2.43.0


From b388f6ff60aa0ced0b85628fe2ba2b77161aa6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 059/104] fix: don't use a WebSocket connection after a message
 was sent only partially

---
 ws.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ws.c b/ws.c
index 13886b1..5a6c153 100644
--- a/ws.c
+++ b/ws.c
@@ -43,6 +43,7 @@ struct dill_ws_sock {
     unsigned int indone : 1;
     unsigned int outdone: 1;
     unsigned int inerr : 1;
+    unsigned int outerr : 1;
     unsigned int server : 1;
     unsigned int mem : 1;
     uint16_t status;
@@ -87,6 +88,7 @@ int dill_ws_attach_client_mem(int s, int flags, const char *resource,
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
+    self->outerr = 0;
     self->server = 0;
     self->mem = 1;
     self->status = 0;
@@ -212,6 +214,7 @@ int dill_ws_attach_server_mem(int s, int flags,
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
+    self->outerr = 0;
     self->server = 1;
     self->mem = 1;
     self->status = 0;
@@ -330,6 +333,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_ws_sock *self = dill_cont(mvfs, struct dill_ws_sock, mvfs);
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
@@ -359,11 +363,15 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
         sz += 4;
     }
     rc = dill_bsend(self->u, buf, sz, deadline);
-    if(dill_slow(rc < 0)) return -1;
+    if(dill_slow(rc < 0)) {
+        /* Nothing was sent if the socket is used by other coroutine. */
+        if(errno != EBUSY) self->outerr = 1;
+        return -1;
+    }
     /* On the server side we can send the payload as is. */
     if(self->server) {
         rc = dill_bsendl(self->u, first, last, deadline);
-        if(dill_slow(rc < 0)) return -1;
+        if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
         return 0;
     }
     /* On the client side, the payload has to be masked. */
@@ -374,7 +382,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
             uint8_t b = ((uint8_t*)first->iol_base)[i] ^
                 mask[pos++ % sizeof(mask)];
             rc = dill_bsend(self->u, &b, 1, deadline); 
-            if(dill_slow(rc < 0)) return -1;
+            if(dill_slow(rc < 0)) {self->outerr = 1; return -1;}
         }
         first = first->iol_next;
     }
-- 
2.43.0


From c2564c0b19d6e348e77f1e10efc06a3136914779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 060/104] fix: report an error from ws_detach if the peer
 didn't do the closing handshake

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index 5a6c153..e88ec94 100644
--- a/ws.c
+++ b/ws.c
@@ -602,7 +602,7 @@ int dill_ws_detach(int s, int status, const void *buf, size_t len,
         ssize_t sz = dill_ws_recvl_base(&self->mvfs, NULL, &iol, &iol,
             deadline);
         if(sz < 0) {
-             if(errno == EPIPE) break;
+             if(self->indone) break;
              err = errno;
              goto error;
         }
-- 
2.43.0


From 483c54c5ddd2b783fc333e352590e592d04e8054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 061/104] fix: don't overflow the buffer when WebSocket client
 sends more than 64kB

---
 ws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ws.c b/ws.c
index e88ec94..6c59e13 100644
--- a/ws.c
+++ b/ws.c
@@ -337,7 +337,7 @@ static int dill_ws_sendl_base(struct dill_msock_vfs *mvfs, uint8_t type,
     size_t len;
     int rc = dill_iolcheck(first, last, NULL, &len);
     if(dill_slow(rc < 0)) return -1;
-    uint8_t buf[12];
+    uint8_t buf[14];
     size_t sz;
     buf[0] = 0x80 | type;
     if(len > 0xffff) {
-- 
2.43.0


From d50fecbbc52e9520c78a3b47cc4ba7701557df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 062/104] fix: don't write past the end of the buffer with
 maximum size SOCKS5 credentials

---
 socks5.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socks5.c b/socks5.c
index a919801..c6f6815 100644
--- a/socks5.c
+++ b/socks5.c
@@ -113,9 +113,9 @@ static int s5_client_auth(int s, const char *username, const char *password,
             uint8_t plen = (uint8_t)strlen(password);
             upauth[0] = RFC1929_VER; // VER = 1
             upauth[1] = ulen; // ULEN
-            strcpy((char *)(upauth + 2), username); // UNAME
+            memcpy((void *)(upauth + 2), (void *)username, ulen); // UNAME
             upauth[2 + ulen] = plen; // PLEN
-            strcpy((char *)(upauth + 3 + ulen), password); // PASSWD
+            memcpy((void *)(upauth + 3 + ulen), (void *)password, plen); // PASSWD
             err = dill_bsend(s, (void *)upauth, 3 + ulen + plen, deadline);
             if(dill_slow(err)) return -1;
             uint8_t upauthr[2];
-- 
2.43.0


From 5062b347ab82f4cb1b329483a148093859702807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 063/104] fix: don't abort when SOCKS5 proxy chooses a method
 that was not offered

---
 socks5.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/socks5.c b/socks5.c
index c6f6815..9996d2e 100644
--- a/socks5.c
+++ b/socks5.c
@@ -103,8 +103,8 @@ static int s5_client_auth(int s, const char *username, const char *password,
             // proxy accepted NO AUTH REQ'D, so we're done
             return 0;
         case S5METH_USERPASS:
-            dill_assert(!!username);
-            dill_assert(!!password);
+            // proxy chose a method that wasn't offered
+            if(dill_slow(!username || !password)) {errno = EPROTO; return -1;}
             // USER/PASS AUTH - per RFC 1929
             // max USER, PASS is 255 bytes (plus 3 bytes for VER, ULEN, PLEN)
             uint8_t upauth[513];
@@ -128,9 +128,8 @@ static int s5_client_auth(int s, const char *username, const char *password,
             errno = EACCES; return -1;
         default:
             // something is fishy as the proxy accepted something not requested
-            dill_assert(0);
+            errno = EPROTO; return -1;
     }
-    return -1;
 }
 
 int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
-- 
2.43.0


From 58564b8fc4e9fd284ab60ba948249121b0faa046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 064/104] fix: set errno when SOCKS5 client fails to
 authenticate to the proxy

---
 socks5.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socks5.c b/socks5.c
index 9996d2e..e65c62f 100644
--- a/socks5.c
+++ b/socks5.c
@@ -202,14 +202,14 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         resp[1] = S5AUTH_FAIL;
         err = dill_bsend(s, (void *)resp, 2, deadline);
         if(dill_slow(err)) return -1;
-        return -1;
+        errno = EACCES; return -1;
     }
     // no compatible AUTH (auth fail)
     resp[0] = RFC1928_VER; // VER
     resp[1] = S5METH_NOMETHOD;
     err = dill_bsend(s, (void *)resp, 2, deadline);
     if(dill_slow(err)) return -1;
-    return -1;
+    errno = EACCES; return -1;
 accept_noauth:
     // accept NOAUTH, no further auth req'd
     resp[0] = RFC1928_VER; // VER
-- 
2.43.0


From 19bac20ca421c0207873172f72229758dceee281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 065/104] fix: refuse empty hostname in
 socks5_client_connectbyname

---
 socks5.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/socks5.c b/socks5.c
index e65c62f..751ab8c 100644
--- a/socks5.c
+++ b/socks5.c
@@ -358,6 +358,7 @@ static int s5_client_connectbyname(int s, const char *hostname, int port, int64_
     // validate input
     if(dill_slow(!hostname)) {errno = EINVAL; return -1;}
     if(dill_slow(strlen(hostname) > 255)) {errno = EINVAL; return -1;}
+    if(dill_slow(hostname[0] == 0)) {errno = EINVAL; return -1;}
     if((port <= 0) || (port>65535)) {errno = EINVAL; return -1;}
     // largest possible connect request = 255 chars for name + 7 bytes for
     // VER, CMD, RSV, ATYP, ALEN, PORT[2]
-- 
2.43.0


From 451e76b586d83ad20d1a91290dbcf07adff2f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 066/104] fix: don't do misaligned reads of the port in SOCKS5
 commands

---
 socks5.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/socks5.c b/socks5.c
index 751ab8c..9162bf9 100644
--- a/socks5.c
+++ b/socks5.c
@@ -436,17 +436,17 @@ int dill_socks5_proxy_recvcommand(int s, struct dill_ipaddr *ipaddr,
     }
     _socks5_addr s5addr;
     s5addr.atyp = conn[3];
-    uint16_t *port = NULL;
+    uint8_t *port = NULL;
     switch(s5addr.atyp) {
         case S5ADDR_IPV4:
             memcpy((void *)&(s5addr.addr), (void *)&(conn[4]), S5ADDR_IPV4_SZ);
             s5addr.alen = S5ADDR_IPV4_SZ;
-            port = (uint16_t *)&(conn[4 + S5ADDR_IPV4_SZ]);
+            port = &(conn[4 + S5ADDR_IPV4_SZ]);
             break;
         case S5ADDR_IPV6:
             memcpy((void *)&(s5addr.addr), (void *)&(conn[4]), S5ADDR_IPV6_SZ);
             s5addr.alen = S5ADDR_IPV6_SZ;
-            port = (uint16_t *)&(conn[4 + S5ADDR_IPV6_SZ]);
+            port = &(conn[4 + S5ADDR_IPV6_SZ]);
             break;
         case S5ADDR_NAME:
             // first octet is len
@@ -454,10 +454,10 @@ int dill_socks5_proxy_recvcommand(int s, struct dill_ipaddr *ipaddr,
             // add null terminator
             s5addr.addr[conn[4]] = '\x00';
             s5addr.alen = conn[4];
-            port = (uint16_t *)&(conn[4 + 1 + conn[4]]);
+            port = &(conn[4 + 1 + conn[4]]);
             break;
     }
-    s5addr.port = (int)ntohs(*port);
+    s5addr.port = port[0] << 8 | port[1];
     err = s5_s5addr_to_ipaddr(ipaddr, &s5addr, deadline);
     if(err) return -1;
     return conn[1];
@@ -473,25 +473,25 @@ int dill_socks5_proxy_recvcommandbyname(int s, char *host, int *port,
     if((conn[1] < DILL_SOCKS5_CONNECT) || (conn[1] > DILL_SOCKS5_UDP_ASSOCIATE)) {
         errno = EPROTO ; return -1;
     }
-    uint16_t *s5port = NULL;
+    uint8_t *s5port = NULL;
     switch(conn[3]) {
         case S5ADDR_IPV4:
             inet_ntop(AF_INET, (void *)&(conn[4]), host, 256);
-            s5port = (uint16_t *)&(conn[4 + S5ADDR_IPV4_SZ]);
+            s5port = &(conn[4 + S5ADDR_IPV4_SZ]);
             break;
         case S5ADDR_IPV6:
             inet_ntop(AF_INET6, (void *)&(conn[4]), host, 256);
-            s5port = (uint16_t *)&(conn[4 + S5ADDR_IPV6_SZ]);
+            s5port = &(conn[4 + S5ADDR_IPV6_SZ]);
             break;
         case S5ADDR_NAME:
             // first octet is len
             memcpy((void *)host, (void *)&(conn[5]), conn[4]);
             // add null terminator
             host[conn[4]] = '\x00';
-            s5port = (uint16_t *)&(conn[4 + 1 + conn[4]]);
+            s5port = &(conn[4 + 1 + conn[4]]);
             break;
     }
-    *port = (int)ntohs(*s5port);
+    *port = s5port[0] << 8 | s5port[1];
     return conn[1];
 }
 
-- 
2.43.0


From 426ec4f19d86de861d148260f95398b54a5e959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 067/104] fix: refuse SOCKS5 host names with embedded NUL
 instead of truncating them

---
 socks5.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socks5.c b/socks5.c
index 9162bf9..5f18dd3 100644
--- a/socks5.c
+++ b/socks5.c
@@ -310,6 +310,8 @@ static int s5_recv_command_request_response(int s, uint8_t *conn, int64_t deadli
             // Read string + 2 bytes for port
             err = dill_brecv(s, conn + 5, conn[4] + 2, deadline);
             if(dill_slow(err)) return -1;
+            // the name is going to be passed around as a C string
+            if(dill_slow(memchr(conn + 5, 0, conn[4]))) {errno = EPROTO; return -1;}
             break;
         default:
             errno = EPROTO;
-- 
2.43.0


From d23fcdcbf5555a13e2d26c0fdac0044f9a062663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 068/104] fix: refuse SOCKS5 credentials with embedded NUL
 instead of truncating them

---
 socks5.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/socks5.c b/socks5.c
index 5f18dd3..6c63996 100644
--- a/socks5.c
+++ b/socks5.c
@@ -193,7 +193,9 @@ int dill_socks5_proxy_auth(int s, dill_socks5_auth_function *auth_fn,
         char *uname = (char *)&authr[2];
         char *passwd = (char *)&authr[3+ulen];
         // attempt to determine source address
-        if((*auth_fn)(uname, passwd)) {
+        // credentials with embedded NULs can't be passed to the callback
+        if(!memchr(uname, 0, ulen) && !memchr(passwd, 0, plen) &&
+              (*auth_fn)(uname, passwd)) {
             // auth accepted based on uname, passwd, ipaddr
             goto pwauth_success;
         }
-- 
2.43.0


From 67765d76d43b26f364b2d604349e54dea169a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 069/104] fix: don't abort when OpenSSL asks the TLS socket's
 BIO for an unknown operation

---
 tls.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tls.c b/tls.c
index 1945c94..5626b5a 100644
--- a/tls.c
+++ b/tls.c
@@ -456,11 +456,9 @@ static long dill_tls_cbio_ctrl(BIO *bio, int cmd, long larg, void *parg) {
     switch(cmd) {
     case BIO_CTRL_FLUSH:
         return 1;
-    case BIO_CTRL_PUSH:
-    case BIO_CTRL_POP:
-        return 0;
     default:
-        dill_assert(0);
+        /* Any other control operation is not supported. */
+        return 0;
     }
 }
 
-- 
2.43.0


From 2946bb82d877fe025cacb0d5324a2ffe80e9600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 070/104] fix: don't return a TLS socket if the initial
 handshake failed

---
 tls.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 5626b5a..2a61588 100644
--- a/tls.c
+++ b/tls.c
@@ -119,8 +119,9 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     while(1) {
         ERR_clear_error();
         int rc = SSL_connect(ssl);
-        if(dill_tls_followup(self, rc)) break;
+        if(!dill_tls_followup(self, rc)) continue;
         if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        break;
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
@@ -205,8 +206,9 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     while(1) {
         ERR_clear_error();
         rc = SSL_accept(ssl);
-        if(dill_tls_followup(self, rc)) break;
+        if(!dill_tls_followup(self, rc)) continue;
         if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        break;
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-- 
2.43.0


From 590363365ada796c64e1f85cc97a29a72e6d574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 071/104] fix: don't free BIO twice or leak OpenSSL objects
 when TLS attach fails

---
 tls.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/tls.c b/tls.c
index 2a61588..80eaac9 100644
--- a/tls.c
+++ b/tls.c
@@ -99,7 +99,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -120,15 +120,13 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
         ERR_clear_error();
         int rc = SSL_connect(ssl);
         if(!dill_tls_followup(self, rc)) continue;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_slow(errno != 0)) {err = errno; goto error3;}
         break;
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
     SSL_free(ssl);
 error2:
@@ -186,7 +184,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
 	  SSL_set_bio(ssl, bio, bio);
     /* Take ownership of the underlying socket. */
     s = dill_hown(s);
-    if(dill_slow(s < 0)) {err = errno; goto error1;}
+    if(dill_slow(s < 0)) {err = errno; goto error3;}
     /* Create the object. */
     struct dill_tls_sock *self = (struct dill_tls_sock*)mem;
     self->hvfs.query = dill_tls_hquery;
@@ -207,15 +205,13 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
         ERR_clear_error();
         rc = SSL_accept(ssl);
         if(!dill_tls_followup(self, rc)) continue;
-        if(dill_slow(errno != 0)) {err = errno; goto error4;}
+        if(dill_slow(errno != 0)) {err = errno; goto error3;}
         break;
     }
     /* Create the handle. */
     int h = dill_hmake(&self->hvfs);
-    if(dill_slow(h < 0)) {err = errno; goto error4;}
+    if(dill_slow(h < 0)) {err = errno; goto error3;}
     return h;
-error4:
-    BIO_vfree(bio);
 error3:
     SSL_free(ssl);
 error2:
-- 
2.43.0


From ff22d012115ba09f9d35c23020fa34b4679b0a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 072/104] fix: honour deadlines when attaching, finishing and
 detaching TLS sockets

---
 tls.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tls.c b/tls.c
index 80eaac9..41aa246 100644
--- a/tls.c
+++ b/tls.c
@@ -109,7 +109,7 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -194,7 +194,7 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = -1;
+    self->deadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -245,6 +245,7 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
+    self->deadline = deadline;
     while(1) {
         ERR_clear_error();
         int rc = SSL_shutdown(self->ssl);
@@ -269,6 +270,7 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     /* Wait for the handshake acknowledgement from the peer. */
     if(!self->indone) {
+        self->deadline = deadline;
         while(1) {
             ERR_clear_error();
             int rc = SSL_shutdown(self->ssl);
-- 
2.43.0


From 30c10cf44a0b2e4eb7bbf34a0a4df34478192bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 073/104] fix: handle empty, skipped and huge buffers in TLS
 sockets

---
 tls.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/tls.c b/tls.c
index 41aa246..91f5ef8 100644
--- a/tls.c
+++ b/tls.c
@@ -23,6 +23,7 @@
 */
 
 #include <errno.h>
+#include <limits.h>
 #include <openssl/bio.h>
 #include <openssl/err.h>
 #include <openssl/ssl.h>
@@ -296,13 +297,13 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     self->deadline = deadline;
-    struct dill_iolist *it = first;
-    while(1) {
+    struct dill_iolist *it;
+    for(it = first; it; it = it->iol_next) {
         uint8_t *base = it->iol_base;
         size_t len = it->iol_len;
         while(len > 0) {
             ERR_clear_error();
-            int rc = SSL_write(self->ssl, base, len);
+            int rc = SSL_write(self->ssl, base, len > INT_MAX ? INT_MAX : len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     self->outerr = 1;
@@ -312,8 +313,6 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
                 len -= rc;
             }
         }
-        if(it == last) break;
-        it = it->iol_next;
     }
     return 0;
 }
@@ -324,26 +323,27 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     self->deadline = deadline;
-    struct dill_iolist *it = first;
-    while(1) {
+    /* Data that the user wants to skip are decrypted here. */
+    uint8_t skipped[DILL_TLS_BUFSIZE];
+    struct dill_iolist *it;
+    for(it = first; it; it = it->iol_next) {
         uint8_t *base = it->iol_base;
         size_t len = it->iol_len;
-        while(1) {
+        while(len > 0) {
+            size_t max = base ? INT_MAX : sizeof(skipped);
             ERR_clear_error();
-            int rc = SSL_read(self->ssl, base, len);
+            int rc = SSL_read(self->ssl, base ? base : skipped,
+                len > max ? max : len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     if(errno == EPIPE) self->indone = 1;
                     else self->inerr = 1;
                     return -1;
                 }
-                if(rc == len) break;
-                base += rc;
+                if(base) base += rc;
                 len -= rc;
             }
         }
-        if(it == last) break;
-        it = it->iol_next;
     }
     return 0;
 }
-- 
2.43.0


From 586b5ebea45f4a4183054787e391700a7f28e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 074/104] fix: don't mix up deadlines of concurrent send and
 recv on a TLS socket

---
 tls.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/tls.c b/tls.c
index 91f5ef8..8f5d491 100644
--- a/tls.c
+++ b/tls.c
@@ -47,12 +47,13 @@ struct dill_tls_sock {
     SSL_CTX *ctx;
     SSL *ssl;
     int u;
-    int64_t deadline;
     unsigned int indone : 1;
     unsigned int outdone: 1;
     unsigned int inerr : 1;
     unsigned int outerr : 1;
     unsigned int mem : 1;
+    int64_t indeadline;
+    int64_t outdeadline;
 };
 
 DILL_CHECK_STORAGE(dill_tls_sock, dill_tls_storage)
@@ -110,7 +111,8 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = deadline;
+    self->indeadline = deadline;
+    self->outdeadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -195,7 +197,8 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->ctx = ctx;
     self->ssl = ssl;
     self->u = s;
-    self->deadline = deadline;
+    self->indeadline = deadline;
+    self->outdeadline = deadline;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -246,7 +249,7 @@ int dill_tls_done(int s, int64_t deadline) {
     if(dill_slow(!self)) return -1;
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
-    self->deadline = deadline;
+    self->outdeadline = deadline;
     while(1) {
         ERR_clear_error();
         int rc = SSL_shutdown(self->ssl);
@@ -271,7 +274,8 @@ int dill_tls_detach(int s, int64_t deadline) {
     }
     /* Wait for the handshake acknowledgement from the peer. */
     if(!self->indone) {
-        self->deadline = deadline;
+        self->indeadline = deadline;
+        self->outdeadline = deadline;
         while(1) {
             ERR_clear_error();
             int rc = SSL_shutdown(self->ssl);
@@ -296,7 +300,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
-    self->deadline = deadline;
+    self->outdeadline = deadline;
     struct dill_iolist *it;
     for(it = first; it; it = it->iol_next) {
         uint8_t *base = it->iol_base;
@@ -322,7 +326,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
-    self->deadline = deadline;
+    self->indeadline = deadline;
     /* Data that the user wants to skip are decrypted here. */
     uint8_t skipped[DILL_TLS_BUFSIZE];
     struct dill_iolist *it;
@@ -440,14 +444,14 @@ static int dill_tls_cbio_destroy(BIO *bio) {
 
 static int dill_tls_cbio_write(BIO *bio, const char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
-    int rc = dill_bsend(self->u, buf, len, self->deadline);
+    int rc = dill_bsend(self->u, buf, len, self->outdeadline);
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
 
 static int dill_tls_cbio_read(BIO *bio, char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
-    int rc = dill_brecv(self->u, buf, len, self->deadline);
+    int rc = dill_brecv(self->u, buf, len, self->indeadline);
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
-- 
2.43.0


From 7eb07dd83205df04d2b8b17032bf5b04089824c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 075/104] fix: report truncated TLS stream as ECONNRESET rather
 than as an orderly shutdown

---
 tls.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tls.c b/tls.c
index 8f5d491..da46f39 100644
--- a/tls.c
+++ b/tls.c
@@ -403,6 +403,8 @@ static int dill_tls_followup(struct dill_tls_sock *self, int rc) {
         /* Error from our custom BIO. */
         dill_assert(rc == -1);
         if(errno == 0) return 0;
+        /* The connection was cut without TLS-level termination. */
+        if(errno == EPIPE) errno = ECONNRESET;
         return 1;
     case SSL_ERROR_SSL:        
         dill_tls_process_errors();
-- 
2.43.0


From c9a03a54bcb4780b0f416417113d95c1cc29e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 076/104] fix: don't loop forever when a failed TLS connection
 is used again

---
 tls.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tls.c b/tls.c
index da46f39..83c3d3f 100644
--- a/tls.c
+++ b/tls.c
@@ -252,6 +252,7 @@ int dill_tls_done(int s, int64_t deadline) {
     self->outdeadline = deadline;
     while(1) {
         ERR_clear_error();
+        errno = 0;
         int rc = SSL_shutdown(self->ssl);
         if(rc == 0) {self->outdone = 1; return 0;}
         if(rc == 1) {self->outdone = 1; self->indone = 1; return 0;}
@@ -307,6 +308,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         size_t len = it->iol_len;
         while(len > 0) {
             ERR_clear_error();
+            errno = 0;
             int rc = SSL_write(self->ssl, base, len > INT_MAX ? INT_MAX : len);
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
@@ -336,6 +338,7 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
         while(len > 0) {
             size_t max = base ? INT_MAX : sizeof(skipped);
             ERR_clear_error();
+            errno = 0;
             int rc = SSL_read(self->ssl, base ? base : skipped,
                 len > max ? max : len);
             if(dill_tls_followup(self, rc)) {
@@ -402,7 +405,8 @@ static int dill_tls_followup(struct dill_tls_sock *self, int rc) {
     case SSL_ERROR_SYSCALL:
         /* Error from our custom BIO. */
         dill_assert(rc == -1);
-        if(errno == 0) return 0;
+        /* The connection has already failed and OpenSSL won't use it any more. */
+        if(errno == 0) errno = ECONNRESET;
         /* The connection was cut without TLS-level termination. */
         if(errno == EPIPE) errno = ECONNRESET;
         return 1;
-- 
2.43.0


From 180da7f702d74ea6b793ec47fb4a0a71f2c229e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 077/104] fix: don't fail to detach TLS socket when there are
 data not yet received

---
 tls.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tls.c b/tls.c
index 83c3d3f..3587bb5 100644
--- a/tls.c
+++ b/tls.c
@@ -273,15 +273,20 @@ int dill_tls_detach(int s, int64_t deadline) {
         int rc = dill_tls_done(s, deadline);
         if(dill_slow(rc < 0)) {err = errno; goto error;}
     }
-    /* Wait for the handshake acknowledgement from the peer. */
+    /* Wait for the handshake acknowledgement from the peer. Drop the data
+       that were not received by the user. */
     if(!self->indone) {
         self->indeadline = deadline;
         self->outdeadline = deadline;
+        uint8_t dropped[DILL_TLS_BUFSIZE];
         while(1) {
             ERR_clear_error();
-            int rc = SSL_shutdown(self->ssl);
-            if(rc == 1) break;
-            if(dill_tls_followup(self, rc)) {err = errno; goto error;}
+            errno = 0;
+            int rc = SSL_read(self->ssl, dropped, sizeof(dropped));
+            if(!dill_tls_followup(self, rc) || errno == 0) continue;
+            if(errno == EPIPE) break;
+            err = errno;
+            goto error;
         }
     }
     int u = self->u;
-- 
2.43.0


From 73bf768bd24d3e4de467de0c836567de6ce7f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 078/104] fix: cancelled accept and connect have no effect

A coroutine that was cancelled used to accept a waiting connection and to drop
it right away because no handle can be created for it. The connection should be
left to other coroutines accepting from the same listener.
---
 fd.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fd.c b/fd.c
index b157b21..202e839 100644
--- a/fd.c
+++ b/fd.c
@@ -112,8 +112,10 @@ int dill_fd_unblock(int s) {
 
 int dill_fd_connect(int s, const struct sockaddr *addr, socklen_t addrlen,
       int64_t deadline) {
+    int rc = dill_canblock();
+    if(dill_slow(rc < 0)) return -1;
     /* Initiate connect. */
-    int rc = connect(s, addr, addrlen);
+    rc = connect(s, addr, addrlen);
     if(rc == 0) return 0;
     if(dill_slow(errno != EINPROGRESS)) return -1;
     /* Connect is in progress. Let's wait till it's done. */
@@ -132,6 +134,9 @@ int dill_fd_accept(int s, struct sockaddr *addr, socklen_t *addrlen,
       int64_t deadline) {
     int as;
     while(1) {
+        /* Don't grab a connection if there's no way to hand it out. */
+        int rc = dill_canblock();
+        if(dill_slow(rc < 0)) return -1;
         /* Try to accept new connection synchronously. */
         as = accept(s, addr, addrlen);
         if(dill_fast(as >= 0))
@@ -141,7 +146,7 @@ int dill_fd_accept(int s, struct sockaddr *addr, socklen_t *addrlen,
         /* Propagate other errors to the caller. */
         if(dill_slow(errno != EAGAIN && errno != EWOULDBLOCK)) return -1;
         /* Operation is in progress. Wait till new connection is available. */
-        int rc = dill_fdin(s, deadline);
+        rc = dill_fdin(s, deadline);
         if(dill_slow(rc < 0)) return -1;
     }
     int rc = dill_fd_unblock(as);
-- 
2.43.0


From 31cb7e4f622b12ca8ffa668e47c9fdca96d5a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 079/104] fix: ipaddr_local refuses invalid mode and port

Invalid mode used to abort the program if there was a name and to give a random
wildcard address otherwise. Invalid port was silently truncated if the name was
that of a network interface.
---
 ipaddr.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index 4f4672d..30a3e01 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -217,7 +217,20 @@ const char *dill_ipaddr_str(const struct dill_ipaddr *addr, char *ipstr) {
 
 int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
       int mode) {
-    if(mode == 0) mode = DILL_IPADDR_PREF_IPV4;
+    if(dill_slow(port < 0 || port > 0xffff)) {errno = EINVAL; return -1;}
+    switch(mode) {
+    case 0:
+        mode = DILL_IPADDR_PREF_IPV4;
+        break;
+    case DILL_IPADDR_IPV4:
+    case DILL_IPADDR_IPV6:
+    case DILL_IPADDR_PREF_IPV4:
+    case DILL_IPADDR_PREF_IPV6:
+        break;
+    default:
+        errno = EINVAL;
+        return -1;
+    }
     memset(addr, 0, sizeof(struct dill_ipaddr));
     if(!name) 
         return dill_ipaddr_ipany(addr, port, mode);
-- 
2.43.0


From 4bf5274fc23c336369147b8d1b18fd06e7dfdb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 080/104] fix: network interface can have several addresses of
 the same family

ipaddr_local used to abort the program in such case.
---
 ipaddr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 30a3e01..812f8de 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -256,12 +256,10 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
             continue;
         switch(it->ifa_addr->sa_family) {
         case AF_INET:
-            dill_assert(!ipv4);
-            ipv4 = it;
+            if(!ipv4) ipv4 = it;
             break;
         case AF_INET6:
-            dill_assert(!ipv6);
-            ipv6 = it;
+            if(!ipv6) ipv6 = it;
             break;
         }
         if(ipv4 && ipv6)
-- 
2.43.0


From dc8fddc1b86432a27ca9c2e5464ebc2ee3ac8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 081/104] fix: ipaddr_local reports failure to list network
 interfaces

It used to abort the program if the list couldn't be retrieved or was empty.
---
 ipaddr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipaddr.c b/ipaddr.c
index 812f8de..8a65602 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -243,8 +243,7 @@ int dill_ipaddr_local(struct dill_ipaddr *addr, const char *name, int port,
     /* Address is not a literal. It must be an interface name then. */
     struct ifaddrs *ifaces = NULL;
     rc = getifaddrs (&ifaces);
-    dill_assert (rc == 0);
-    dill_assert (ifaces);
+    if(dill_slow(rc != 0)) return -1;
     /*  Find first IPv4 and first IPv6 address. */
     struct ifaddrs *ipv4 = NULL;
     struct ifaddrs *ipv6 = NULL;
-- 
2.43.0


From 4f1ebb76be1619d66fc66748eb59a8e70e05371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 082/104] fix: don't look up IP address literals in DNS

An address literal of the other family than requested was passed to the DNS
resolver as if it were a name.
---
 ipaddr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index 8a65602..6d29654 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -334,7 +334,7 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
     }
     /* Name may be a IP address literal. */
     memset(addrs, 0, sizeof(struct dill_ipaddr));
-    int rc = dill_ipaddr_literal(addrs, name, port, mode);
+    int rc = dill_ipaddr_literal(addrs, name, port, 0);
     if(rc == 0) {
         if(dill_slow(mode == DILL_IPADDR_IPV6 &&
               dill_ipaddr_family(addrs) == AF_INET)) return 0;
-- 
2.43.0


From 28f2437cb828768a08a96ca863dceaaad17656be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 083/104] fix: retry the DNS query when there's no reply

---
 ipaddr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ipaddr.c b/ipaddr.c
index 6d29654..9e0606b 100644
--- a/ipaddr.c
+++ b/ipaddr.c
@@ -394,8 +394,15 @@ int dill_ipaddr_remotes(struct dill_ipaddr *addrs, int naddrs,
             int fd = dns_ai_pollfd(ai);
             int events = dns_ai_events(ai);
             dill_assert(fd >= 0);
+            /* If the packet gets lost or the server is dead the resolver has
+               to be given a chance to re-send the query. */
+            int64_t timeout = dns_ai_timeout(ai);
+            int64_t retry = dill_now() + timeout * 1000;
+            int last = deadline >= 0 && deadline <= retry;
             int rc = (events & DNS_POLLOUT) ?
-                dill_fdout(fd, deadline) : dill_fdin(fd, deadline);
+                dill_fdout(fd, last ? deadline : retry) :
+                dill_fdin(fd, last ? deadline : retry);
+            if(dill_slow(rc < 0 && errno == ETIMEDOUT && !last)) rc = 0;
             /* There's no guarantee that the file descriptor will be reused
                in next iteration. We have to clean the fdwait cache here
                to be on the safe side. */
-- 
2.43.0


From 2ec583530eefaab07fd3b6550fab12273b0f2903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 084/104] fix: try next DNS server if the connection is refused

---
 dns/dns.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dns/dns.c b/dns/dns.c
index 064440a..a66e989 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -6917,7 +6917,13 @@ exec:
 		if (dns_so_elapsed(&R->so) >= dns_resconf_timeout(R->resconf))
 			dgoto(R->sp, DNS_R_FOREACH_A);
 
-		if ((error = dns_so_check(&R->so)))
+		error = dns_so_check(&R->so);
+
+		/* Nobody is listening there. Try the next server. */
+		if (error == ECONNREFUSED)
+			dgoto(R->sp, DNS_R_FOREACH_A);
+
+		if (error)
 			goto error;
 
 		if (!dns_p_setptr(&F->answer, dns_so_fetch(&R->so, &error)))
-- 
2.43.0


From f0f6834581fb34b7330ac664d2dcff42f45288ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 085/104] fix: DNS query is malformed if the search list
 contains the root domain

---
 dns/dns.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dns/dns.c b/dns/dns.c
index a66e989..be349c0 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -4847,9 +4847,11 @@ size_t dns_resconf_search(void *dst, size_t lim, const void *qname, size_t qlen,
 		/* FALL THROUGH */
 	case 1:
 		if (srchi < lengthof(resconf->search) && (slen = strlen(resconf->search[srchi]))) {
-			len	= dns__printstring(dst, lim, 0, qname, qlen);
-			len	= dns_d_anchor(dst, lim, dst, len);
-			len	+= dns__printstring(dst, lim, len, resconf->search[srchi], slen);
+			len	= dns_d_anchor(dst, lim, qname, qlen);
+
+			/* The root domain adds nothing to the name. */
+			if (slen != 1 || resconf->search[srchi][0] != '.')
+				len	+= dns__printstring(dst, lim, len, resconf->search[srchi], slen);
 
 			srchi++;
 
-- 
2.43.0


From 9667bc7455ddf14e25d75b39d6e2ebaba203e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 086/104] fix: buffer overread when resolving very long names

---
 dns/dns.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index be349c0..7f49593 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -6705,6 +6705,10 @@ exec:
 			R->search	= 0;
 
 			while ((len = dns_resconf_search(host, sizeof host, R->qname, R->qlen, R->resconf, &R->search))) {
+				/* The name with the suffix does not fit. */
+				if (len >= sizeof host)
+					continue;
+
 /*
  * FIXME: Some sort of bug, either with this code or with GCC 3.3.5 on
  * OpenBSD 4.4, overwites the stack guard. If the bug is in this file, it
@@ -6797,6 +6801,10 @@ exec:
 		if (!(len = dns_resconf_search(host, sizeof host, R->qname, R->qlen, R->resconf, &R->search)))
 			dgoto(R->sp, DNS_R_SWITCH);
 
+		/* The name with the suffix does not fit. */
+		if (len >= sizeof host)
+			dgoto(R->sp, DNS_R_SEARCH);
+
 		if (!(P = dns_p_make(DNS_P_QBUFSIZ, &error)))
 			goto error;
 
-- 
2.43.0


From b9d269ab8d344c058cfcf24e122875d16af55c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 087/104] fix: DNS query for a different name if a label is
 empty or too long

---
 dns/dns.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 7f49593..dadb2ca 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -1686,6 +1686,10 @@ size_t dns_d_comp(void *dst_, size_t lim, const void *src_, size_t len, struct d
 		ch	= src.b[src.x];
 
 		if (ch == '.') {
+			/* Only the root has an empty label. */
+			if (src.x - src.p > DNS_D_MAXLABEL || (src.x == src.p && len > 1))
+				goto illegal;
+
 			if (dst.p < lim)
 				dst.b[dst.p]	= (0x3f & (src.x - src.p));
 
@@ -1701,6 +1705,9 @@ size_t dns_d_comp(void *dst_, size_t lim, const void *src_, size_t len, struct d
 	} /* while() */
 
 	if (src.x > src.p) {
+		if (src.x - src.p > DNS_D_MAXLABEL)
+			goto illegal;
+
 		if (dst.p < lim)
 			dst.b[dst.p]	= (0x3f & (src.x - src.p));
 
@@ -1755,6 +1762,10 @@ size_t dns_d_comp(void *dst_, size_t lim, const void *src_, size_t len, struct d
 		*error = DNS_EILLEGAL;
 
 	return dst.p;
+illegal:
+	*error = DNS_EILLEGAL;
+
+	return 0;
 } /* dns_d_comp() */
 
 
-- 
2.43.0


From 6ce61a2397429cded674446dcecf2dde237032b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 088/104] fix: sources missing in the lookup line of
 resolv.conf aren't used

---
 dns/dns.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index dadb2ca..f6102e8 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -4181,6 +4181,8 @@ skip:
 
 			break;
 		case DNS_RESCONF_LOOKUP:
+			memset(resconf->lookup, '\0', sizeof resconf->lookup);
+
 			for (i = 1, j = 0; i < wc && j < lengthof(resconf->lookup); i++) {
 				switch (dns_resconf_keyword(words[i])) {
 				case DNS_RESCONF_FILE:
-- 
2.43.0


From 0b9c099cb02d62a22be6233026b94c32e47222e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 089/104] fix: endless loop expanding a name with a compression
 loop that contains labels

---
 dns/dns.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dns/dns.c b/dns/dns.c
index f6102e8..d01a5f1 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -1849,8 +1849,6 @@ size_t dns_d_expand(void *dst, size_t lim, unsigned short src, struct dns_packet
 
 			dstp++;
 
-			nptrs	= 0;
-
 			continue;
 		case 0x01:	/* RESERVED */
 			goto reserved;
-- 
2.43.0


From 32ac3b323dcfcb3f66a8381d4f1ee4fcde45f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 090/104] fix: search list applied to the target of an alias

---
 dns/dns.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index d01a5f1..98fc800 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -6982,6 +6982,10 @@ exec:
 			if (!R->nodata)
 				dns_p_movptr(&R->nodata, &F->answer);
 
+			/* The search list doesn't apply to targets of aliases. */
+			if (R->sp > 0)
+				dgoto(R->sp, DNS_R_SWITCH);
+
 			dgoto(R->sp, DNS_R_SEARCH);
 		}
 
-- 
2.43.0


From 51927b7593b028acf0fac07a3557d610a5927747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 091/104] fix: wrong data sent when sending a DNS query over
 TCP is resumed

---
 dns/dns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns/dns.c b/dns/dns.c
index 98fc800..5199c86 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -5913,7 +5913,7 @@ static int dns_so_tcp_send(struct dns_socket *so) {
 	so->query->data[-2] = 0xff & (so->query->end >> 8);
 	so->query->data[-1] = 0xff & (so->query->end >> 0);
 
-	qsrc = &so->query->data[-2] + so->qout;
+	qsrc = &so->query->data[-2];
 	qend = so->query->end + 2;
 
 	while (so->qout < qend) {
-- 
2.43.0


From fbabb4e10b09924bd1cb786aa5ad475f38520173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 092/104] fix: DNS query retried over TCP gets the reply to the
 previous one

---
 dns/dns.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dns/dns.c b/dns/dns.c
index 5199c86..fa4216a 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -5813,6 +5813,15 @@ int dns_so_submit(struct dns_socket *so, struct dns_packet *Q, struct sockaddr *
 	struct dns_rr rr;
 	int error	= -1;
 
+	/* The reply to an abandoned query may still arrive on the connection. */
+	switch (so->state) {
+	case DNS_SO_TCP_CONN:
+	case DNS_SO_TCP_SEND:
+	case DNS_SO_TCP_RECV:
+		if ((error = dns_so_closefd(so, &so->tcp)))
+			return error;
+	}
+
 	dns_so_reset(so);
 
 	if ((error = dns_rr_parse(&rr, 12, Q)))
-- 
2.43.0


From 39ab7c7f2ecbddca1a09a60209f754bfb66caa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 093/104] fix: buffer overflow when merging DNS replies with
 uncommon records

---
 dns/dns.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dns/dns.c b/dns/dns.c
index fa4216a..1783d5e 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -2129,10 +2129,10 @@ int dns_rr_cmp(struct dns_rr *r0, struct dns_packet *P0, struct dns_rr *r1, stru
 		return (r0->section == DNS_S_QD)? -1 : 1;
 	}
 
-	if ((error = dns_any_parse(&any0, r0, P0)))
+	if ((error = dns_any_parse(dns_any_init(&any0, sizeof any0), r0, P0)))
 		return -1;
 
-	if ((error = dns_any_parse(&any1, r1, P1)))
+	if ((error = dns_any_parse(dns_any_init(&any1, sizeof any1), r1, P1)))
 		return 1;
 
 	return dns_any_cmp(&any0, r0->type, &any1, r1->type);
-- 
2.43.0


From 0ea8bf4e45e0616b74f71f9a053977a5ed9f85ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 094/104] fix: uninitialised data used when resolving an empty
 name

---
 dns/dns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns/dns.c b/dns/dns.c
index 1783d5e..91e2849 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -1722,7 +1722,7 @@ size_t dns_d_comp(void *dst_, size_t lim, const void *src_, size_t len, struct d
 	}
 
 #if 1
-	if (dst.p < lim) {
+	if (dst.p > 0 && dst.p < lim) {
 		struct { unsigned char label[DNS_D_MAXLABEL + 1]; size_t len; unsigned short p, x, y; } a, b;
 		unsigned i;
 
-- 
2.43.0


From 9640c6ed4714b4f1a2a38f10fbfa699d80d71c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 095/104] fix: undefined shift parsing IPv4 addresses in DNS
 replies

---
 dns/dns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dns/dns.c b/dns/dns.c
index 91e2849..aaa828e 100644
--- a/dns/dns.c
+++ b/dns/dns.c
@@ -2509,7 +2509,7 @@ int dns_a_parse(struct dns_a *a, struct dns_rr *rr, struct dns_packet *P) {
 	if (rr->rd.len != 4)
 		return DNS_EILLEGAL;
 
-	addr	= ((0xff & P->data[rr->rd.p + 0]) << 24)
+	addr	= ((0xffU & P->data[rr->rd.p + 0]) << 24)
 		| ((0xff & P->data[rr->rd.p + 1]) << 16)
 		| ((0xff & P->data[rr->rd.p + 2]) << 8)
 		| ((0xff & P->data[rr->rd.p + 3]) << 0);
-- 
2.43.0


From 263e99db705ae1d7beaca9492ca1a0d5fe192835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:01 +0000
Subject: [PATCH 096/104] fix: happyeyeballs_connect makes two attempts at once
 if the address arrives late

---
 happyeyeballs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 9fedfb3..adecbb0 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -113,10 +113,10 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     dill_assert(errno == ETIMEDOUT);
     /* From now we can use any address. */
     while(1) {
-        nw = dill_now();
         idx = dill_choose(cls, 2, -1);
         if(dill_slow(idx < 0 && errno == ECANCELED)) goto cancel;
         dill_assert(idx >= 0 && errno == 0);
+        nw = dill_now();
 use_address:
         /* Ignore 0.0.0.0 addresses. */
         if(dill_ipaddr_equal(&addr, &nulladdr, 0)) continue;
-- 
2.43.0


From 865ba2ac2d91b754889fcd63105ef2f9c8609c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:01 +0000
Subject: [PATCH 097/104] fix: happyeyeballs_connect accepts invalid port and
 never ends

---
 happyeyeballs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index adecbb0..9744c7d 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -151,7 +151,7 @@ cancel:
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     int res = -1;
     int err = 0;
-    if(dill_slow(!name || port <= 0)) {err = EINVAL; goto exit1;}
+    if(dill_slow(!name || port <= 0 || port > 0xffff)) {err = EINVAL; goto exit1;}
     int chconns[2];
     struct dill_chstorage chconns_storage;
     int rc = dill_chmake_mem(&chconns_storage, chconns);
-- 
2.43.0


From d8049d6797e6db4ace1554822668316c867491da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:01 +0000
Subject: [PATCH 098/104] fix: happyeyeballs_connect crashes when out of memory

---
 happyeyeballs.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/happyeyeballs.c b/happyeyeballs.c
index 9744c7d..f407409 100644
--- a/happyeyeballs.c
+++ b/happyeyeballs.c
@@ -68,6 +68,7 @@ static dill_coroutine void dill_happyeyeballs_attempt(struct dill_ipaddr addr,
 
 static dill_coroutine void dill_happyeyeballs_coordinator(
       const char *name, int port, int ch) {
+    int err = 0;
     struct dill_ipaddr nulladdr;
     int rc = dill_ipaddr_local(&nulladdr, "0.0.0.0", 0, DILL_IPADDR_IPV4);
     dill_assert(rc == 0);
@@ -77,22 +78,20 @@ static dill_coroutine void dill_happyeyeballs_coordinator(
     int chipv6[2];
     struct dill_chstorage chipv6_storage;
     rc = dill_chmake_mem(&chipv6_storage, chipv6);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto exit1;}
     int chipv4[2];
     struct dill_chstorage chipv4_storage;
     rc = dill_chmake_mem(&chipv4_storage, chipv4);
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto exit2;}
     struct dill_bundle_storage bndl_storage;
     int bndl = dill_bundle_mem(&bndl_storage);
-    dill_assert(bndl >= 0);
+    if(dill_slow(bndl < 0)) {err = errno; goto exit3;}
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV6, chipv6[1]));
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto cancel;}
     rc = dill_bundle_go(bndl, dill_happyeyeballs_dnsquery(name, port,
         DILL_IPADDR_IPV4, chipv4[1]));
-    if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-    dill_assert(rc == 0);
+    if(dill_slow(rc < 0)) {err = errno; goto cancel;}
     /* RFC says to wait for 50ms for IPv6 result irrespective of whether
        IPv4 address arrives. */
     struct dill_ipaddr addr;
@@ -122,8 +121,7 @@ use_address:
         if(dill_ipaddr_equal(&addr, &nulladdr, 0)) continue;
         /* Launch the connect attempt. */
         rc = dill_bundle_go(bndl, dill_happyeyeballs_attempt(addr, ch));
-        if(dill_slow(rc < 0 && errno == ECANCELED)) goto cancel;
-        dill_assert(rc == 0);
+        if(dill_slow(rc < 0)) {err = errno; goto cancel;}
         /* Alternate between IPv4 and IPv6 addresses. */
         if(idx == 0) {
             int tmp = cls[0].ch;
@@ -138,14 +136,23 @@ use_address:
 cancel:
     rc = dill_hclose(bndl);
     dill_assert(rc == 0);
+exit3:
     rc = dill_hclose(chipv4[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv4[1]);
     dill_assert(rc == 0);
+exit2:
     rc = dill_hclose(chipv6[0]);
     dill_assert(rc == 0);
     rc = dill_hclose(chipv6[1]);
     dill_assert(rc == 0);
+exit1:
+    if(dill_slow(err != 0 && err != ECANCELED)) {
+        /* Let the main function know. */
+        err = -err;
+        rc = dill_chsend(ch, &err, sizeof(int), -1);
+        dill_assert(rc == 0 || errno == ECANCELED);
+    }
 }
 
 int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
@@ -161,6 +168,7 @@ int dill_happyeyeballs_connect(const char *name, int port, int64_t deadline) {
     int conn;
     rc = dill_chrecv(chconns[0], &conn, sizeof(int), deadline);
     if(dill_slow(rc < 0)) {err = errno; goto exit3;}
+    if(dill_slow(conn < 0)) {err = -conn; goto exit3;}
     res = conn;
 exit3:
     rc = dill_hclose(coord);
-- 
2.43.0


From ffd6f7bd82ebab9b4b6e26cf47ad09dcaa57cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:11 +0000
Subject: [PATCH 099/104] fix: process aborts if epoll_ctl fails when waiting
 for a file descriptor anew

---
 epoll.c.inc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/epoll.c.inc b/epoll.c.inc
index 28a9cdf..f6c223d 100644
--- a/epoll.c.inc
+++ b/epoll.c.inc
@@ -105,9 +105,10 @@ int dill_pollset_in(struct dill_fdclause *fdcl, int id, int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
     if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) {errno = EBADF; return -1;}
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
-    /* If not yet cached, check whether the fd exists and if it does,
-       add it to the pollset. */
-    if(dill_slow(!fdi->cached)) {
+    /* If not yet in the kernel-side pollset, check whether the fd exists and
+       if it does, add it there. Doing so here rather than when polling makes
+       it possible to report the errors. */
+    if(dill_slow(!fdi->cached || !fdi->currevs)) {
         struct epoll_event ev;
 #ifdef DILL_VALGRIND
         memset(&ev.data, 0, sizeof(ev.data)); //Keep Valgrind happy
@@ -141,9 +142,10 @@ int dill_pollset_out(struct dill_fdclause *fdcl, int id, int fd) {
     struct dill_ctx_pollset *ctx = &dill_getctx->pollset;
     if(dill_slow(fd < 0 || fd >= ctx->nfdinfos)) {errno = EBADF; return -1;}
     struct dill_fdinfo *fdi = &ctx->fdinfos[fd];
-    /* If not yet cached, check whether the fd exists and if it does,
-       add it to pollset. */
-    if(dill_slow(!fdi->cached)) {
+    /* If not yet in the kernel-side pollset, check whether the fd exists and
+       if it does, add it there. Doing so here rather than when polling makes
+       it possible to report the errors. */
+    if(dill_slow(!fdi->cached || !fdi->currevs)) {
         struct epoll_event ev;
 #ifdef DILL_VALGRIND
         memset(&ev.data, 0, sizeof(ev.data)); //Keep Valgrind happy
-- 
2.43.0


From e1065ade1f940fca79e37a736a26fdbc34499fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:37 +0000
Subject: [PATCH 100/104] fix: concurrent use of a TLS socket in one direction
 breaks the connection

---
 tls.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tls.c b/tls.c
index 3587bb5..8970f83 100644
--- a/tls.c
+++ b/tls.c
@@ -47,6 +47,8 @@ struct dill_tls_sock {
     SSL_CTX *ctx;
     SSL *ssl;
     int u;
+    unsigned int rbusy : 1;
+    unsigned int sbusy : 1;
     unsigned int indone : 1;
     unsigned int outdone: 1;
     unsigned int inerr : 1;
@@ -113,6 +115,8 @@ int dill_tls_attach_client_mem(int s, struct dill_tls_storage *mem,
     self->u = s;
     self->indeadline = deadline;
     self->outdeadline = deadline;
+    self->rbusy = 0;
+    self->sbusy = 0;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -199,6 +203,8 @@ int dill_tls_attach_server_mem(int s, const char *cert, const char *pkey,
     self->u = s;
     self->indeadline = deadline;
     self->outdeadline = deadline;
+    self->rbusy = 0;
+    self->sbusy = 0;
     self->indone = 0;
     self->outdone = 0;
     self->inerr = 0;
@@ -247,13 +253,16 @@ error1:
 int dill_tls_done(int s, int64_t deadline) {
     struct dill_tls_sock *self = dill_hquery(s, dill_tls_type);
     if(dill_slow(!self)) return -1;
+    if(dill_slow(self->sbusy)) {errno = EBUSY; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     self->outdeadline = deadline;
     while(1) {
         ERR_clear_error();
         errno = 0;
+        self->sbusy = 1;
         int rc = SSL_shutdown(self->ssl);
+        self->sbusy = 0;
         if(rc == 0) {self->outdone = 1; return 0;}
         if(rc == 1) {self->outdone = 1; self->indone = 1; return 0;}
         if(dill_tls_followup(self, rc)) break;
@@ -282,7 +291,9 @@ int dill_tls_detach(int s, int64_t deadline) {
         while(1) {
             ERR_clear_error();
             errno = 0;
+            self->rbusy = 1;
             int rc = SSL_read(self->ssl, dropped, sizeof(dropped));
+            self->rbusy = 0;
             if(!dill_tls_followup(self, rc) || errno == 0) continue;
             if(errno == EPIPE) break;
             err = errno;
@@ -304,6 +315,7 @@ error:
 static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
+    if(dill_slow(self->sbusy)) {errno = EBUSY; return -1;}
     if(dill_slow(self->outdone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->outerr)) {errno = ECONNRESET; return -1;}
     self->outdeadline = deadline;
@@ -314,7 +326,9 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
         while(len > 0) {
             ERR_clear_error();
             errno = 0;
+            self->sbusy = 1;
             int rc = SSL_write(self->ssl, base, len > INT_MAX ? INT_MAX : len);
+            self->sbusy = 0;
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     self->outerr = 1;
@@ -331,6 +345,7 @@ static int dill_tls_bsendl(struct dill_bsock_vfs *bvfs,
 static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
       struct dill_iolist *first, struct dill_iolist *last, int64_t deadline) {
     struct dill_tls_sock *self = dill_cont(bvfs, struct dill_tls_sock, bvfs);
+    if(dill_slow(self->rbusy)) {errno = EBUSY; return -1;}
     if(dill_slow(self->indone)) {errno = EPIPE; return -1;}
     if(dill_slow(self->inerr)) {errno = ECONNRESET; return -1;}
     self->indeadline = deadline;
@@ -344,8 +359,10 @@ static int dill_tls_brecvl(struct dill_bsock_vfs *bvfs,
             size_t max = base ? INT_MAX : sizeof(skipped);
             ERR_clear_error();
             errno = 0;
+            self->rbusy = 1;
             int rc = SSL_read(self->ssl, base ? base : skipped,
                 len > max ? max : len);
+            self->rbusy = 0;
             if(dill_tls_followup(self, rc)) {
                 if(dill_slow(errno != 0)) {
                     if(errno == EPIPE) self->indone = 1;
-- 
2.43.0


From f93664aa5196e8ac575da6f76adf6886487bf4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:42 +0000
Subject: [PATCH 101/104] fix: failing tcp_listen and udp_open modify the local
 address

---
 tcp.c | 4 +++-
 udp.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tcp.c b/tcp.c
index da85dc5..bd18916 100644
--- a/tcp.c
+++ b/tcp.c
@@ -349,15 +349,17 @@ int dill_tcp_listen_mem(struct dill_ipaddr *addr, int backlog,
     if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* If the user requested an ephemeral port,
        retrieve the port number assigned by the OS. */
+    int port = 0;
     if(dill_ipaddr_port(addr) == 0) {
         struct dill_ipaddr baddr;
         socklen_t len = sizeof(struct dill_ipaddr);
         rc = getsockname(s, (struct sockaddr*)&baddr, &len);
         if(rc < 0) {err = errno; goto error2;}
-        dill_ipaddr_setport(addr, dill_ipaddr_port(&baddr));
+        port = dill_ipaddr_port(&baddr);
     }
     int h = dill_tcp_makelistener(s, mem);
     if(dill_slow(h < 0)) {err = errno; goto error2;}
+    if(port) dill_ipaddr_setport(addr, port);
     return h;
 error2:
     close(s);
diff --git a/udp.c b/udp.c
index 1c7f628..dfd2a07 100644
--- a/udp.c
+++ b/udp.c
@@ -85,6 +85,7 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     rc = setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt));
     if(dill_slow(rc < 0)) {err = errno; goto error2;}
     /* Start listening. */
+    int port = 0;
     if(local) {
         rc = bind(s, dill_ipaddr_sockaddr(local), dill_ipaddr_len(local));
         if(dill_slow(rc < 0)) {err = errno; goto error2;}
@@ -94,7 +95,7 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
             socklen_t len = sizeof(struct dill_ipaddr);
             rc = getsockname(s, (struct sockaddr*)&baddr, &len);
             if(dill_slow(rc < 0)) {err = errno; goto error2;}
-            dill_ipaddr_setport(local, dill_ipaddr_port(&baddr));
+            port = dill_ipaddr_port(&baddr);
         }
     }
     /* Create the object. */
@@ -111,6 +112,7 @@ int dill_udp_open_mem(struct dill_ipaddr *local,
     /* Create the handle. */
     int h = dill_hmake(&obj->hvfs);
     if(dill_slow(h < 0)) {err = errno; goto error2;}
+    if(port) dill_ipaddr_setport(local, port);
     return h;
 error2:
     dill_fd_close(s);
-- 
2.43.0


From 16c4c185c6dded1c54531f4774842c201f0c4d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:35 +0000
Subject: [PATCH 102/104] fix: stack size census subtracted the size of dill_cr
 instead of adding it

For coroutines using little stack the result was negative and printed as
a huge number. In all other cases the reported size was too small.
---
 cr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cr.c b/cr.c
index 2e41d96..c84167f 100644
--- a/cr.c
+++ b/cr.c
@@ -441,7 +441,7 @@ static void dill_cr_close(struct dill_hvfs *vfs) {
             /* dill_cr is located on the stack so we have to take that into
                account. Also, it may be necessary to align the top of the stack
                to a 16-byte boundary, so add 16 bytes to account for that. */
-            size_t used = cr->stacksz - i - sizeof(struct dill_cr) + 16;
+            size_t used = cr->stacksz - i + sizeof(struct dill_cr) + 16;
             if(used > cr->census->max_stack)
                 cr->census->max_stack = used;
             break;
-- 
2.43.0


From fc839197662a7d52e166f326b8fe5b38041a5876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:35 +0000
Subject: [PATCH 103/104] fix: results of the stack size census were leaked
 when a thread ended

---
 cr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cr.c b/cr.c
index c84167f..fcc32a7 100644
--- a/cr.c
+++ b/cr.c
@@ -221,12 +221,12 @@ int dill_ctx_cr_init(struct dill_ctx_cr *ctx) {
 void dill_ctx_cr_term(struct dill_ctx_cr *ctx) {
 #if defined DILL_CENSUS
     struct dill_slist *it;
-    for(it = dill_slist_next(&ctx->census); it != &ctx->census;
-          it = dill_slist_next(it)) {
+    while((it = dill_slist_pop(&ctx->census)) != &ctx->census) {
         struct dill_census_item *ci =
             dill_cont(it, struct dill_census_item, crs);
         fprintf(stderr, "%s:%d - maximum stack size %zu B\n",
             ci->file, ci->line, ci->max_stack);
+        free(ci);
     }
 #endif
 }
-- 
2.43.0


From ea276ed8556f9240040c1037811abf965f77d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:13 +0000
Subject: [PATCH 104/104] fix: TLS socket takes another connection's OpenSSL
 error for its own

---
 tls.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/tls.c b/tls.c
index 8970f83..1dc458b 100644
--- a/tls.c
+++ b/tls.c
@@ -470,16 +470,47 @@ static int dill_tls_cbio_destroy(BIO *bio) {
     return 1;
 }
 
+/* OpenSSL's error queue belongs to the thread. While a coroutine is blocked
+   in the BIO other coroutines may use OpenSSL. The errors of the former have to
+   be put aside so that neither sees the errors of the other. */
+#define DILL_TLS_MAXERRS 16
+
+static int dill_tls_saveerrs(unsigned long *errs) {
+    int n = 0;
+    while(n != DILL_TLS_MAXERRS) {
+        errs[n] = ERR_get_error();
+        if(errs[n] == 0) break;
+        ++n;
+    }
+    return n;
+}
+
+static void dill_tls_restoreerrs(const unsigned long *errs, int n) {
+    int err = errno;
+    ERR_clear_error();
+    int i;
+    for(i = 0; i != n; ++i)
+        ERR_put_error(ERR_GET_LIB(errs[i]), 0, ERR_GET_REASON(errs[i]),
+            __FILE__, __LINE__);
+    errno = err;
+}
+
 static int dill_tls_cbio_write(BIO *bio, const char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
+    unsigned long errs[DILL_TLS_MAXERRS];
+    int nerrs = dill_tls_saveerrs(errs);
     int rc = dill_bsend(self->u, buf, len, self->outdeadline);
+    dill_tls_restoreerrs(errs, nerrs);
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
 
 static int dill_tls_cbio_read(BIO *bio, char *buf, int len) {
     struct dill_tls_sock *self = (struct dill_tls_sock*)BIO_get_data(bio);
+    unsigned long errs[DILL_TLS_MAXERRS];
+    int nerrs = dill_tls_saveerrs(errs);
     int rc = dill_brecv(self->u, buf, len, self->indeadline);
+    dill_tls_restoreerrs(errs, nerrs);
     if(dill_slow(rc < 0)) return -1;
     return len;
 }
-- 
2.43.0

