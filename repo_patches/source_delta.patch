From 6b5d4ab492d14eb61709868c056872eead95dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:47 +0000
Subject: [PATCH 01/39] fix: return changelist errors and receipts without
 waiting

kevent() waited for events after placing errors or receipts in the
eventlist.  If the wait timed out or failed they were lost (the call
returned 0 or -1), and as the wait was sized by the whole eventlist rather
than by what was left of it, edge triggered and one-shot events could be
fetched and then dropped.  As documented for EV_RECEIPT, return the entries
at once and leave the pending events alone.
---
 src/common/kevent.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 51f347b..54552b1 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -430,10 +430,15 @@ kevent(int kqfd,
     }
 
     /*
-     * If we have space remaining after processing
-     * the changelist, copy events out.
+     * If there's space in the eventlist and processing
+     * the changelist didn't add any entries to it, copy
+     * events out.
+     *
+     * If the changelist did add entries (errors or receipts)
+     * they're returned immediately, without waiting for or
+     * draining any pending events.
      */
-    if ((el_end - el_p) > 0) {
+    if ((el_p == eventlist) && (el_end > el_p)) {
         /*
          * Allow cancellation in kevent_wait as we
          * may be waiting a long time for the thread
@@ -466,8 +471,8 @@ kevent(int kqfd,
             goto out;
         }
     /*
-     * If we have no space, return how many kevents
-     * were added by copyin.
+     * Otherwise return how many kevents were added
+     * by copyin.
      */
     } else {
         rv = el_p - eventlist;
-- 
2.43.0


From bcdef4d4540d4dab06897f2d178fb155739622fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:47 +0000
Subject: [PATCH 02/39] fix: map bounds check is off by one

An index equal to the size of the map was accepted, and the word after the
map was read or written.
---
 src/common/map.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/map.c b/src/common/map.c
index 991cda5..d3a106c 100644
--- a/src/common/map.c
+++ b/src/common/map.c
@@ -58,7 +58,7 @@ map_new(size_t len)
 int
 map_insert(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), NULL, ptr)) {
@@ -74,7 +74,7 @@ map_insert(struct map *m, int idx, void *ptr)
 int
 map_remove(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), ptr, NULL)) {
@@ -89,7 +89,7 @@ map_remove(struct map *m, int idx, void *ptr)
 int
 map_replace(struct map *m, int idx, void *oldp, void *newp)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), oldp, newp)) {
@@ -105,7 +105,7 @@ map_replace(struct map *m, int idx, void *oldp, void *newp)
 void *
 map_lookup(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
         return (NULL);
 
     return (void *)atomic_ptr_load(&m->data[idx]);
@@ -114,7 +114,7 @@ map_lookup(struct map *m, int idx)
 void *
 map_delete(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return ((void *)-1);
 
     return (void *)atomic_ptr_swap(&(m->data[idx]), NULL);
-- 
2.43.0


From 87907716c238c37ad7bd9044d11d29ff3b711e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:47 +0000
Subject: [PATCH 03/39] fix: kevent() before the first kqueue() dereferences a
 NULL map

---
 src/common/kqueue.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index c532258..4094e4c 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -335,6 +335,9 @@ kqueue_free_by_id(int id)
 struct kqueue *
 kqueue_lookup(int kq)
 {
+    if (kqmap == NULL)  /* kqueue() has not been called yet */
+        return (NULL);
+
     return ((struct kqueue *) map_lookup(kqmap, kq));
 }
 
-- 
2.43.0


From 5b538fd0f4ea801df08308c156454fe38139167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:47 +0000
Subject: [PATCH 04/39] fix: EV_ADD | EV_DISABLE left the event source in an
 inconsistent state

The knote was created with EV_DISABLE already set, so kn_create and
kn_disable both took it for a disabled one: descriptors stayed registered
with epoll (and enabling them later failed, leaving a dangling pointer
behind), user events were reported as failed.
---
 src/common/kevent.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 54552b1..2277f34 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -196,7 +196,7 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
                 return (-1);
             }
             memcpy(&kn->kev, src, sizeof(kn->kev));
-            kn->kev.flags &= ~EV_ENABLE;
+            kn->kev.flags &= ~(EV_ENABLE | EV_DISABLE);    /* Created enabled, disabled below if requested */
             kn->kn_kq = kq;
             assert(filt->kn_create);
             rv = filt->kn_create(filt, kn);
@@ -215,10 +215,8 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
             *out = kn;
 
 /* XXX- FIXME Needs to be handled in kn_create() to prevent races */
-            if (src->flags & EV_DISABLE) {
-                kn->kev.flags |= EV_DISABLE;
-                return filt->kn_disable(filt, kn);
-            }
+            if ((src->flags & EV_DISABLE) && (knote_disable(filt, kn) < 0))
+                return (-1);
             //........................................
             return (rv);
         } else {
-- 
2.43.0


From 4277317a5b83d78484288fe6587e28f19d75cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:20 +0000
Subject: [PATCH 05/39] fix: ignore system flags in the changelist

A change carrying EV_EOF was stored as such in the knote, which the epoll
code then took for a disabled one: deleting it left its descriptor
registered with epoll and the freed fd_state was used for the next event.
---
 src/common/kevent.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 2277f34..1837556 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -174,8 +174,18 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
 {
     struct knote  *kn = NULL;
     struct filter *filt;
+    struct kevent kev;
     int rv = 0;
 
+    /*
+     * EV_EOF, EV_ERROR and friends are only ever set by
+     * us, they have no meaning on input and must not find
+     * their way into the knote.
+     */
+    memcpy(&kev, src, sizeof(kev));
+    kev.flags &= ~EV_SYSFLAGS;
+    src = &kev;
+
     if (src->flags & EV_DISPATCH && src->flags & EV_ONESHOT) {
         dbg_puts("Error: EV_DISPATCH and EV_ONESHOT are mutually exclusive");
         errno = EINVAL;
-- 
2.43.0


From fe605ded33f4ab99d805f6e8bcb17de99ada412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:20 +0000
Subject: [PATCH 06/39] fix: deleting a knote whose descriptor was closed and
 reused

epoll_ctl(2) fails with ENOENT rather than EBADF if the number of the
closed descriptor has been given to another file.  The knote was freed
regardless, but the fd_state kept pointing to it.
---
 src/linux/platform.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index ac69799..91a2b14 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1514,9 +1514,10 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
         case EPOLL_CTL_MOD:
             /*
              * File descriptor went away and we weren't notified
-             * not necessarily an error.
+             * not necessarily an error.  Its number may be in use
+             * again, for a file epoll knows nothing about.
              */
-            if (errno == EBADF) {
+            if ((errno == EBADF) || (errno == ENOENT)) {
                 int kn_ev = 0;
 
                 if (kn == fds->fds_read) {
-- 
2.43.0


From 4b692beae06919494cadd9cfc50ac46b9a35c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:02 +0000
Subject: [PATCH 07/39] fix: timeouts of more than 24 days overflow

The timeout in milliseconds did not fit into the int epoll_wait(2) takes:
kevent() returned early, or waited forever.
---
 src/linux/platform.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 91a2b14..d7011d8 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -15,6 +15,7 @@
  */
 
 #define _GNU_SOURCE
+#include <limits.h>
 #include <poll.h>
 #include <signal.h>
 
@@ -663,8 +664,8 @@ linux_kevent_wait(struct kqueue *kq, int nevents, const struct timespec *ts)
     int timeout, nret;
 
     /* Use a high-resolution syscall if the timeout value's tv_nsec value has a resolution
-     * finer than a millisecond. */
-    if (ts != NULL && (ts->tv_nsec % 1000000 != 0)) {
+     * finer than a millisecond, or if the timeout is too long for epoll_wait(). */
+    if (ts != NULL && ((ts->tv_nsec % 1000000 != 0) || (ts->tv_sec >= INT_MAX / 1000))) {
         nret = linux_kevent_wait_hires(kq, ts);
         if (nret <= 0)
             return (nret);
-- 
2.43.0


From 512081c3c8cda9ff9530d451426e917283645bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:02 +0000
Subject: [PATCH 08/39] fix: the surrogate eventfds for regular files leak into
 executed programs

---
 src/linux/read.c  | 2 +-
 src/linux/write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index a769f65..50caedc 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -186,7 +186,7 @@ evfilt_read_knote_create(struct filter *filt, struct knote *kn)
             kn->epoll_events |= EPOLLONESHOT;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
-        evfd = eventfd(0, 0);
+        evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
             dbg_perror("eventfd(2)");
             return (-1);
diff --git a/src/linux/write.c b/src/linux/write.c
index d253604..c73dd86 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -105,7 +105,7 @@ evfilt_write_knote_create(struct filter *filt, struct knote *kn)
             kn->epoll_events |= EPOLLONESHOT;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
-        evfd = eventfd(0, 0);
+        evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
             dbg_perror("eventfd(2)");
             return (-1);
-- 
2.43.0


From 14a3c3e8fd72752872c21801480aa3620d690887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:02 +0000
Subject: [PATCH 09/39] fix: EVFILT_WRITE data contains part of the data passed
 in

SIOCOUTQ stores an int, the other half of the field kept whatever was in
the change that registered the event.
---
 src/linux/write.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linux/write.c b/src/linux/write.c
index c73dd86..eb72675 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -61,10 +61,15 @@ evfilt_write_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
     }
 
     /* On return, data contains the the amount of space remaining in the write buffer */
-    if (!(dst->flags & EV_EOF) && (ioctl(dst->ident, SIOCOUTQ, &dst->data) < 0)) {
+    if (!(dst->flags & EV_EOF)) {
+        int i;
+        if (ioctl(dst->ident, SIOCOUTQ, &i) < 0) {
             /* race condition with socket close, so ignore this error */
             dbg_puts("ioctl(2) of socket failed");
             dst->data = 0;
+        } else {
+            dst->data = i;
+        }
     }
 
 done:
-- 
2.43.0


From 72260a86fd9b5d30a8210ecb852309f8578b4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:02 +0000
Subject: [PATCH 10/39] fix: EV_ONESHOT and EV_DISPATCH have no effect on
 EVFILT_READ of a regular file

One-shot events were not deleted, and dispatched ones not disabled, so that
enabling them again did nothing.  Allow disabling the event of a file that
was read to its end, too.
---
 src/linux/read.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index 50caedc..b723a58 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -99,8 +99,11 @@ evfilt_read_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
             }
             /* FIXME: race here, should we check the EOF status again ? */
 #endif
+            return (1);
         }
 
+        if (knote_copyout_flag_actions(filt, src) < 0) return -1;
+
         return (1);
     }
 
@@ -270,7 +273,8 @@ int
 evfilt_read_knote_disable(struct filter *filt, struct knote *kn)
 {
     if (kn->kn_flags & KNFL_FILE) {
-        if (epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
+        /* Not registered if the end of the file has been reached */
+        if (kn->kn_registered && epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
             dbg_perror("epoll_ctl(2)");
             return (-1);
         }
-- 
2.43.0


From 29381febac7e332e90f399054f4ee930e772552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:11 +0000
Subject: [PATCH 11/39] fix: modifying a timer

A timer that was one-shot or dispatched stayed so for epoll after it was
made periodic and fired only once, and changing the interval of a disabled
timer failed.
---
 src/linux/timer.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/linux/timer.c b/src/linux/timer.c
index 2e2082d..f14065e 100644
--- a/src/linux/timer.c
+++ b/src/linux/timer.c
@@ -203,9 +203,14 @@ evfilt_timer_knote_modify(struct filter *filt, struct knote *kn,
 {
     struct itimerspec ts;
     int flags;
+    int events;
 
     dbg_printf("timer_fd=%i - modified", kn->kn_timerfd);
 
+    /* A disabled timer has no timerfd, the values are used when it's enabled again */
+    if (kn->kn_timerfd == -1)
+        goto done;
+
     convert_timedata_to_itimerspec(&ts, kev->data, kev->fflags,
                                    kev->flags & EV_ONESHOT);
     flags = (kev->fflags & NOTE_ABSOLUTE) ? TFD_TIMER_ABSTIME : 0;
@@ -214,7 +219,16 @@ evfilt_timer_knote_modify(struct filter *filt, struct knote *kn,
         return (-1);
     }
 
-    kn->kev.flags = kev->flags | EV_CLEAR;
+    events = EPOLLIN | EPOLLET;
+    if (kev->flags & (EV_ONESHOT | EV_DISPATCH))
+        events |= EPOLLONESHOT;
+    if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_MOD, kn->kn_timerfd, EPOLL_EV_KN(events, kn)) < 0) {
+        dbg_printf("epoll_ctl(2): %s", strerror(errno));
+        return (-1);
+    }
+
+done:
+    kn->kev.flags = kev->flags | EV_CLEAR | (kn->kev.flags & EV_DISABLE);
     kn->kev.fflags = kev->fflags;
     kn->kev.data = kev->data;
 
-- 
2.43.0


From 1f5f7bb8bb0760965640a910bcb462c94deb568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:11 +0000
Subject: [PATCH 12/39] fix: abort when a process that is not ours to wait for
 exits

The exit status of a process that isn't a child, or was already waited for,
is not available.  That's no reason to fail an assertion, or to keep
failing to report its exit.
---
 src/linux/proc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index ba7d2a2..f7cce7e 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -41,8 +41,9 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
 
     /* Get the exit status _without_ reaping the process, waitpid() should still work in the caller */
     if (waitid(P_PID, (id_t)src->kev.ident, &info, WEXITED | WNOHANG | WNOWAIT) < 0) {
+        /* Not our child, or already reaped.  It's gone, but there's no way to find out the status */
         dbg_printf("waitid(2): %s", strerror(errno));
-        return (-1);
+        goto done;
     }
 
     /*
@@ -72,6 +73,7 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
         return (0);
     }
 
+done:
     dst->data = status;
     dst->flags |= EV_EOF; /* Set in macOS and FreeBSD kqueue implementations */
 
-- 
2.43.0


From 9e3ca61a9ba707ac63200f167f17e2b0e2dffb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:11 +0000
Subject: [PATCH 13/39] fix: disabling or deleting a process event without
 fflags fails with EBADF

---
 src/linux/proc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index f7cce7e..5337ec6 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -85,6 +85,8 @@ done:
 int
 evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 {
+    if (kn->kn_procfd < 0) return (0);    /* No NOTE_* fflags, nothing to monitor */
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, kn->kn_procfd, EPOLL_EV_KN(EPOLLIN, kn)) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return -1;
@@ -95,6 +97,8 @@ evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 int
 evfilt_proc_knote_disable(struct filter *filt, struct knote *kn)
 {
+    if (kn->kn_procfd < 0) return (0);    /* No NOTE_* fflags, nothing to monitor */
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_DEL, kn->kn_procfd, NULL) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return (-1);
@@ -158,6 +162,8 @@ evfilt_proc_knote_delete(struct filter *filt, struct knote *kn)
 {
     int rv = 0;
 
+    if (kn->kn_procfd < 0) return (0);
+
     /* If it's enabled, we need to remove the pidfd from epoll */
     if (KNOTE_ENABLED(kn) && (evfilt_proc_knote_disable(filt, kn) < 0)) rv = -1;
 
-- 
2.43.0


From 5e5bc5e63460ac6bf1d72df12f9045421e2345f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:11 +0000
Subject: [PATCH 14/39] fix: descriptor leaks when a process or user event
 can't be registered

---
 src/linux/proc.c | 9 ++++++++-
 src/linux/user.c | 8 +++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index 5337ec6..459bfad 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -126,6 +126,7 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
     }
     if (fcntl(pfd, F_SETFD, FD_CLOEXEC) < 0) {
         dbg_perror("fcntl(2)");
+        (void) close(pfd);
         return (-1);
     }
     dbg_printf("created pidfd=%i monitoring pid=%u", pfd, (unsigned int)kn->kev.ident);
@@ -142,7 +143,13 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
 
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    return evfilt_proc_knote_enable(filt, kn);
+    if (evfilt_proc_knote_enable(filt, kn) < 0) {
+        (void) close(pfd);
+        kn->kn_procfd = -1;
+        return (-1);
+    }
+
+    return (0);
 }
 
 int
diff --git a/src/linux/user.c b/src/linux/user.c
index a24d0e9..345e8ed 100644
--- a/src/linux/user.c
+++ b/src/linux/user.c
@@ -120,7 +120,6 @@ linux_evfilt_user_knote_create(struct filter *filt, struct knote *kn)
         } else {
             dbg_perror("eventfd(2)");
         }
-        close(evfd);
         kn->kn_eventfd = -1;
         return (-1);
     }
@@ -129,8 +128,11 @@ linux_evfilt_user_knote_create(struct filter *filt, struct knote *kn)
     kn->kn_eventfd = evfd;
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    if (KNOTE_ENABLED(kn))
-        return linux_evfilt_user_knote_enable(filt, kn);
+    if (KNOTE_ENABLED(kn) && (linux_evfilt_user_knote_enable(filt, kn) < 0)) {
+        (void) close(evfd);
+        kn->kn_eventfd = -1;
+        return (-1);
+    }
 
     return (0);
 }
-- 
2.43.0


From cddadd9cb5cee398aca8b0bd7c51c7cdcd337e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:11 +0000
Subject: [PATCH 15/39] fix: modifying a process event drops its internal flags

Without EV_ONESHOT the exit was reported over and over again, and a disabled
event was taken for an enabled one.
---
 src/linux/proc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index 459bfad..a60e020 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -143,7 +143,7 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
 
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    if (evfilt_proc_knote_enable(filt, kn) < 0) {
+    if (KNOTE_ENABLED(kn) && (evfilt_proc_knote_enable(filt, kn) < 0)) {
         (void) close(pfd);
         kn->kn_procfd = -1;
         return (-1);
@@ -156,7 +156,7 @@ int
 evfilt_proc_knote_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
 {
     /* We don't need to make any changes to the pidfd, just record the new flags */
-    kn->kev.flags = kev->flags;
+    kn->kev.flags = kev->flags | (kn->kev.flags & (EV_DISABLE | EV_ONESHOT | EV_CLEAR));
     kn->kev.fflags = kev->fflags;
 
     if (kn->kn_procfd < 0) return evfilt_proc_knote_create(filt, kn);
-- 
2.43.0


From 3804dc9df7d5f9830a365f28a74be69785f1beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 16/39] fix: rejected modifications are reported with whatever
 errno was left over

The filters that can't modify a knote didn't set errno, so the EV_ERROR
entry could contain 0, which stands for success.
---
 src/linux/read.c  | 2 +-
 src/linux/vnode.c | 1 +
 src/linux/write.c | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index b723a58..cc0eb07 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -231,9 +231,9 @@ evfilt_read_knote_modify(UNUSED struct filter *filt, struct knote *kn,
          */
         if ((kev->flags & EV_CLEAR))
             return (0);
-        return (-1);
     }
 
+    errno = ENOSYS; /* STUB */
     return (-1);
 }
 
diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 3c28575..e0b299d 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -289,6 +289,7 @@ evfilt_vnode_knote_modify(struct filter *filt, struct knote *kn,
     (void)filt;
     (void)kn;
     (void)kev;
+    errno = ENOSYS;
     return (-1); /* FIXME - STUB */
 }
 
diff --git a/src/linux/write.c b/src/linux/write.c
index eb72675..e882ac3 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -168,9 +168,9 @@ evfilt_write_knote_modify(UNUSED struct filter *filt, struct knote *kn,
          */
         if ((kev->flags & EV_CLEAR))
             return (0);
-        return (-1);
     }
 
+    errno = ENOSYS; /* STUB */
     return (-1);
 }
 
-- 
2.43.0


From 746a77283e1420c1b40a001ea528bbb2dca2913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 17/39] fix: vnode events stop after anyone closes the file

Watching for IN_CLOSE made the knote one-shot as soon as any descriptor for
the file was closed, by any process, and used up the watch of events that
were registered as one-shot.  Leave one-shot processing to the common code.
---
 src/linux/vnode.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index e0b299d..f9335cc 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -125,7 +125,7 @@ add_watch(struct filter *filt, struct knote *kn)
         return (-1);
 
     /* Convert the fflags to the inotify mask */
-    mask = IN_CLOSE;
+    mask = 0;
     if (kn->kev.fflags & NOTE_DELETE)
         mask |= IN_ATTRIB | IN_DELETE_SELF;
     if (kn->kev.fflags & NOTE_WRITE)
@@ -137,8 +137,8 @@ add_watch(struct filter *filt, struct knote *kn)
         mask |= IN_ATTRIB;
     if (kn->kev.fflags & NOTE_RENAME)
         mask |= IN_MOVE_SELF;
-    if (kn->kev.flags & EV_ONESHOT)
-        mask |= IN_ONESHOT;
+    if (mask == 0)
+        mask = IN_CLOSE; /* inotify doesn't allow an empty mask */
 
     /* Create an inotify descriptor */
     ifd = inotify_init1(IN_CLOEXEC);
@@ -214,12 +214,7 @@ evfilt_vnode_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
         return (0);
     }
 
-    /* Check if the watched file has been closed, and
-       XXX-this may not exactly match the kevent() behavior if multiple file de
-scriptors reference the same file.
-    */
     if (evt->mask & IN_CLOSE_WRITE || evt->mask & IN_CLOSE_NOWRITE) {
-        src->kev.flags |= EV_ONESHOT; /* KLUDGE: causes the knote to be deleted */
         dst->filter = 0; /* KLUDGE: causes the event to be discarded */
         return (0);
     }
-- 
2.43.0


From 3670a6abe1c94ff9427bef7bf317c5cb35d90232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:56 +0000
Subject: [PATCH 18/39] fix: vnode events that were not asked for, or don't say
 what happened

NOTE_EXTEND was only reported together with NOTE_WRITE, events that match
none of the requested fflags were returned with fflags set to zero, and the
result of a failed fstat(2) was used.
---
 src/linux/vnode.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index f9335cc..40ebc82 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -225,8 +225,8 @@ evfilt_vnode_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
 
     /* No error checking because fstat(2) should rarely fail */
     //FIXME: EINTR
-    if (fstat(src->kev.ident, &sb) < 0 && errno == ENOENT) {
-        if (src->kev.fflags & NOTE_DELETE)
+    if (fstat(src->kev.ident, &sb) < 0) {
+        if (errno == ENOENT && src->kev.fflags & NOTE_DELETE)
             dst->fflags |= NOTE_DELETE;
     } else {
         if ((evt->mask & IN_ATTRIB || evt->mask & IN_MODIFY)) {
@@ -240,7 +240,7 @@ evfilt_vnode_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
                 dst->fflags |= NOTE_TRUNCATE;
 #endif
             if (sb.st_size > src->kn_vnode.size &&
-                src->kev.fflags & NOTE_WRITE)
+                src->kev.fflags & (NOTE_WRITE | NOTE_EXTEND))
                 dst->fflags |= NOTE_EXTEND;
             src->kn_vnode.nlink = sb.st_nlink;
             src->kn_vnode.size = sb.st_size;
@@ -256,6 +256,12 @@ evfilt_vnode_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
     if (evt->mask & IN_DELETE_SELF && src->kev.fflags & NOTE_DELETE)
         dst->fflags |= NOTE_DELETE;
 
+    /* One of the events we had to watch for, but nothing the user asked for */
+    if (dst->fflags == 0) {
+        dst->filter = 0;
+        return (0);
+    }
+
     if (knote_copyout_flag_actions(filt, src) < 0) return -1;
 
     return (1);
-- 
2.43.0


From b74dd5acae4d492af3f1b86077f09b11ce300004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:07 +0000
Subject: [PATCH 19/39] fix: registering an invalid signal number is reported
 as a success

...and close(2) is called with -1 if there's no signalfd to be had.
---
 src/linux/signal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linux/signal.c b/src/linux/signal.c
index dccb03f..7edcfb8 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -86,7 +86,10 @@ signalfd_create(int epoll_fd, struct knote *kn, int signum)
 
     /* Create a signalfd */
     sigemptyset(&sigmask);
-    sigaddset(&sigmask, signum);
+    if (sigaddset(&sigmask, signum) < 0) {
+        dbg_perror("sigaddset(3)");
+        return (-1);
+    }
 
     sigfd = signalfd(-1, &sigmask, flags);
 
@@ -101,7 +104,7 @@ signalfd_create(int epoll_fd, struct knote *kn, int signum)
         } else {
             dbg_perror("signalfd(2)");
         }
-        goto errout;
+        return (-1);
     }
 
     /* Block the signal handler from being invoked */
-- 
2.43.0


From bb86ec066797fc72f3d9aca9b915a3c7a341a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:21 +0000
Subject: [PATCH 20/39] fix: NOTE_TRIGGER is ignored when the user event is
 added

---
 src/linux/user.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linux/user.c b/src/linux/user.c
index 345e8ed..c5fb24a 100644
--- a/src/linux/user.c
+++ b/src/linux/user.c
@@ -134,6 +134,9 @@ linux_evfilt_user_knote_create(struct filter *filt, struct knote *kn)
         return (-1);
     }
 
+    if (kn->kev.fflags & NOTE_TRIGGER)
+        (void) eventfd_raise(evfd);
+
     return (0);
 }
 
-- 
2.43.0


From 508e25ec444ded745debc02704280959d65bf553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:21 +0000
Subject: [PATCH 21/39] fix: kq_mtx is unlocked twice if F_SETOWN_EX fails

The caller unlocks it.  The descriptors are no longer in use either.
---
 src/linux/platform.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index d7011d8..df201e8 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -554,7 +554,8 @@ linux_kqueue_init(struct kqueue *kq)
     sig_owner.pid = monitoring_tid;
     if (fcntl(kq->pipefd[0], F_SETOWN_EX, &sig_owner) < 0) {
         dbg_printf("fd=%i - failed setting F_SETOWN to tid=%u: %s", monitoring_tid, kq->kq_id, strerror(errno));
-        tracing_mutex_unlock(&kq_mtx);
+        fd_map[kq->pipefd[0]] = -1;
+        fd_use_cnt[kq->kq_id]--;
         goto error;
     }
     dbg_printf("kq=%p - monitoring fd=%i for closure", kq, kq->pipefd[0]);
-- 
2.43.0


From 0416eedf7153fd2d15acac402808fc2bd003b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:21 +0000
Subject: [PATCH 22/39] fix: kqueue() leaves cancellation disabled if it's out
 of memory

---
 src/common/kqueue.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 4094e4c..8f9eac8 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -367,8 +367,12 @@ kqueue(void)
     pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &prev_cancel_state);
 #endif
     kq = calloc(1, sizeof(*kq));
-    if (kq == NULL)
+    if (kq == NULL) {
+#ifndef _WIN32
+        pthread_setcancelstate(prev_cancel_state, NULL);
+#endif
         return (-1);
+    }
 
     tracing_mutex_init(&kq->kq_mtx, NULL);
 
-- 
2.43.0


From 415dbecd01c32127b2f581a8503e99e846918461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:21 +0000
Subject: [PATCH 23/39] fix: kqueue() hangs if the monitoring thread runs out
 of memory

---
 src/linux/platform.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index df201e8..34e6847 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -262,6 +262,12 @@ monitoring_thread_loop(UNUSED void *arg)
     fd_map = calloc(nb_max_fd, sizeof(int));
     if (fd_map == NULL) {
     error:
+        /* Let kqueue init resume, so that it can fail */
+        pthread_mutex_lock(&monitoring_thread_mtx);
+        monitoring_tid = 0;
+        pthread_detach(pthread_self());
+        pthread_cond_signal(&monitoring_thread_cond);
+        pthread_mutex_unlock(&monitoring_thread_mtx);
         return NULL;
     }
     for (i = 0; i < nb_max_fd; i++)
@@ -270,6 +276,7 @@ monitoring_thread_loop(UNUSED void *arg)
     fd_use_cnt = calloc(nb_max_fd, sizeof(unsigned int));
     if (fd_use_cnt == NULL){
         free(fd_map);
+        fd_map = NULL;
         goto error;
     }
 
@@ -345,6 +352,12 @@ linux_kqueue_start_thread(void)
     }
     /* Wait for thread creating to be done as we need monitoring_tid to be available */
     pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
+    if (monitoring_tid == 0) {
+        dbg_puts("monitoring thread failed to start");
+        pthread_mutex_unlock(&monitoring_thread_mtx);
+
+        return (-1);
+    }
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
     return (0);
-- 
2.43.0


From 4c6ca34c381454a145d93d9d96a85c5880453e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:52 +0000
Subject: [PATCH 24/39] fix: registering one of EVFILT_READ and EVFILT_WRITE
 changes the other

Adding, disabling or deleting the second event of a descriptor replaced the
epoll options of the first: it could lose EPOLLRDHUP, turn from level to
edge triggered and miss events, or the other way round.
---
 src/linux/platform.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 34e6847..62afc08 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1360,6 +1360,35 @@ int epoll_fd_state_mod(struct fd_state **fds_p, struct knote *kn, int ev)
     return (0);
 }
 
+/** Determine the epoll events for an FD which may have two knotes
+ *
+ * Option flags like EPOLLET or EPOLLRDHUP apply to the FD and not
+ * to a single knote, so they have to be kept as long as a knote
+ * which needs them is registered.
+ *
+ * An FD is only edge triggered if all the knotes are, otherwise
+ * events the level triggered one relies on would be lost.
+ *
+ * @param[in] fds     for the FD, may be NULL.
+ * @param[in] kn      which is being added or removed.
+ * @param[in] want_ev EPOLLIN and/or EPOLLOUT.
+ * @return the flags to pass to epoll.
+ */
+static int epoll_fd_events(struct fd_state *fds, struct knote *kn, int want_ev)
+{
+    struct knote *other = NULL;
+    int          kn_ev = (kn->kev.filter == EVFILT_READ) ? EPOLLIN : EPOLLOUT;
+
+    if (fds && (want_ev & ~kn_ev))
+        other = (kn_ev == EPOLLIN) ? fds->fds_write : fds->fds_read;
+
+    if (!other) return kn->epoll_events;
+    if (!(want_ev & kn_ev)) return other->epoll_events;
+
+    return ((kn->epoll_events | other->epoll_events) & ~EPOLLET) |
+           (kn->epoll_events & other->epoll_events & EPOLLET);
+}
+
 /** Disassociate a knote from an fd_ev possibly freeing the fd_ev
  *
  * @param[in] kn   to remove FD tracking entry for.
@@ -1511,6 +1540,8 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
     else
         return (0);
 
+    if ((opn != EPOLL_CTL_DEL) && (op != EPOLL_CTL_MOD)) want = epoll_fd_events(fds, kn, want_ev);
+
     dbg_printf("fd=%i op=0x%04x (%s) opn=0x%04x (%s) %s",
                fd,
                op, epoll_op_dump(op),
-- 
2.43.0


From c584bd5b2d6a36f49f1eb1e26e52a3f0e4565d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:28 +0000
Subject: [PATCH 25/39] fix: disabled events are returned when the descriptor
 hangs up

epoll always reports EPOLLHUP and EPOLLERR.  If the descriptor was still
registered for the other one of EVFILT_READ and EVFILT_WRITE, the disabled
event was returned, too.
---
 src/linux/platform.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 62afc08..b11de19 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -898,7 +898,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             /*
              *    FD, or errored, or other side shutdown
              */
-            if ((kn = fds->fds_read) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
+            if ((kn = fds->fds_read) && KNOTE_ENABLED(kn) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
@@ -909,7 +909,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
             /*
              *    FD is writable, or errored, or other side shutdown
              */
-            if ((kn = write) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
+            if ((kn = write) && KNOTE_ENABLED(kn) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
                 if (el_p >= el_end) goto oos;
 
                 rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
-- 
2.43.0


From 4b3f62f2e505310e4243c7e01928bf7ba0360541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:01 +0000
Subject: [PATCH 26/39] fix: READ/WRITE events are registered without state if
 memory is short

---
 src/linux/platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index b11de19..f15302b 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1531,7 +1531,7 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
     want_ev = EV_EPOLLINOUT(want);
      if (!have_ev && want_ev) {        /* There's no events registered and we want some */
         opn = EPOLL_CTL_ADD;
-        epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev);
+        if (epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev) < 0) return (-1);
     }
     else if (have_ev && !want_ev)       /* We have events registered but don't want any */
         opn = EPOLL_CTL_DEL;
-- 
2.43.0


From 798cbf30d841f539e66388dc20c65d37b7f0102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:28 +0000
Subject: [PATCH 27/39] fix: late close signals free the wrong kqueue, or abort

---
 src/linux/platform.c | 61 +++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index f15302b..897880b 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -63,9 +63,10 @@ static enum thread_exit_state monitoring_thread_state;
 static int *fd_map;
 
 /*
- * Map kqueue id to counter for kq cleanups.
+ * Map the read side of kqueue pipes to the number of signals still to be received for it.
  * When use counter is at 0, cleanup can be performed by signal handler.
- * Otherwise, it means cleanup was already performed for this FD in linux_kqueue_reused.
+ * Otherwise, the signal was raised for an earlier kqueue whose pipe used the same FD,
+ * and which was already cleaned up because its id was reused (see kqueue_free_by_id).
  */
 static unsigned int *fd_use_cnt;
 
@@ -124,23 +125,23 @@ monitoring_thread_cleanup(UNUSED void *arg)
             if (fcntl(kq->kq_id, F_GETFD) < 0) {
                 dbg_printf("kq=%p - fd=%i forcefully cleaning up, current use_count=%u: %s",
                            kq,
-                           kq->kq_id, fd_use_cnt[kq->kq_id],
+                           kq->kq_id, fd_use_cnt[kq->pipefd[0]],
                            errno == EBADF ? "File descriptor already closed" : strerror(errno));
-                fd_use_cnt[kq->kq_id] = 0;
+                fd_use_cnt[kq->pipefd[0]] = 0;
             } else {
                 /*
                  * If there's no use cnt for the kqueue then something
                  * has gone very wrong.
                  */
-                assert(fd_use_cnt[kq->kq_id] > 0);
+                assert(fd_use_cnt[kq->pipefd[0]] > 0);
             }
 
-            if (fd_use_cnt[kq->kq_id] == 0) {
-                dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
+            if (fd_use_cnt[kq->pipefd[0]] == 0) {
+                dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, kq->kq_id, fd_use_cnt[kq->pipefd[0]]);
                 kqueue_free(kq);
             } else {
                 dbg_printf("kq=%p - fd=%i is alive use_count=%u.  Skipping, this is likely a leak...",
-                           kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
+                           kq, kq->kq_id, fd_use_cnt[kq->pipefd[0]]);
             }
         }
 
@@ -186,44 +187,34 @@ monitoring_thread_kqueue_cleanup(int signal_fd)
         return;
     }
 
-    kq = kqueue_lookup(fd);
-    if (!kq) {
-        /* Should not happen */
-        dbg_printf("fd=%i - no kqueue associated", fd);
-        assert(0);
-        return;
-    }
-
     /*
      * We should never have more pending signals than we have
-     * allocated kqueues against a given ID.
+     * allocated kqueues whose pipe used this FD.
      */
-    assert(fd_use_cnt[kq->kq_id] > 0);
+    assert(fd_use_cnt[signal_fd] > 0);
 
     /*
      * Decrement use counter as signal handler has been run for
      * this FD.  We rely on using an RT signal so that multiple
      * signals are queued.
-     *
-     * Use count is tracked with the kq_id.
      */
-    fd_use_cnt[kq->kq_id]--;
+    fd_use_cnt[signal_fd]--;
 
     /*
-     * If kqueue instance for this FD hasn't been cleaned up yet
+     * When the main kqueue code frees a kq, the file descriptors
+     * of its pipe often get reused.
      *
-     * When the main kqueue code frees a kq, the file descriptor
-     * of the kq often gets reused.
-     *
-     * We maintain a count of how many allocations have been
-     * performed against a given file descriptor ID, and only
-     * free the kqueue here if that count is zero.
+     * We maintain a count of how many signals are outstanding
+     * for a given file descriptor, and only free the kqueue here
+     * if there are no more, and if it's (still) the one whose
+     * pipe was closed.
      */
-    if (fd_use_cnt[kq->kq_id] == 0) {
-        dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, fd, fd_use_cnt[kq->kq_id]);
+    kq = kqueue_lookup(fd);
+    if ((fd_use_cnt[signal_fd] == 0) && kq && (kq->pipefd[0] == signal_fd)) {
+        dbg_printf("kq=%p - fd=%i sfd=%i cleaning up...", kq, fd, signal_fd);
         kqueue_free(kq);
     } else {
-        dbg_printf("kq=%p - fd=%i use_count=%u skipping...", kq, fd, fd_use_cnt[kq->kq_id]);
+        dbg_printf("kq=%p - fd=%i sfd=%i use_count=%u skipping...", kq, fd, signal_fd, fd_use_cnt[signal_fd]);
     }
 }
 
@@ -551,10 +542,10 @@ linux_kqueue_init(struct kqueue *kq)
     /* Update pipe FD map */
     fd_map[kq->pipefd[0]] = kq->kq_id;
 
-    /* Mark this id as in use */
-    fd_use_cnt[kq->kq_id]++;
+    /* Mark the read side as in use */
+    fd_use_cnt[kq->pipefd[0]]++;
 
-    dbg_printf("kq=%p - fd=%i use_count=%u", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
+    dbg_printf("kq=%p - fd=%i use_count=%u", kq, kq->kq_id, fd_use_cnt[kq->pipefd[0]]);
 
     assert(monitoring_tid != 0);
 
@@ -568,7 +559,7 @@ linux_kqueue_init(struct kqueue *kq)
     if (fcntl(kq->pipefd[0], F_SETOWN_EX, &sig_owner) < 0) {
         dbg_printf("fd=%i - failed setting F_SETOWN to tid=%u: %s", monitoring_tid, kq->kq_id, strerror(errno));
         fd_map[kq->pipefd[0]] = -1;
-        fd_use_cnt[kq->kq_id]--;
+        fd_use_cnt[kq->pipefd[0]]--;
         goto error;
     }
     dbg_printf("kq=%p - monitoring fd=%i for closure", kq, kq->pipefd[0]);
-- 
2.43.0


From d8541a067044b44c7e11548007d8964de984cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:44 +0000
Subject: [PATCH 28/39] fix: using or creating a kqueue in a forked child
 deadlocks

A thread of the parent which is waiting in kevent() holds the mutex of
its kqueue. In the child nothing will ever release it, but the stale
kqueue stays in the map, so kevent() on it, or kqueue() being given the
same descriptor number, waits for the mutex forever.
---
 src/common/kqueue.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 8f9eac8..cde0049 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -198,6 +198,8 @@ libkqueue_parent_fork(void)
 void
 libkqueue_child_fork(void)
 {
+    struct kqueue *kq;
+
     libkqueue_in_child = true;
 
     if (!libkqueue_fork_cleanup_active)
@@ -209,6 +211,20 @@ libkqueue_child_fork(void)
     if (kqops.libkqueue_fork)
         kqops.libkqueue_fork();
 
+    /*
+     * Forget the kqueues which were just closed.
+     *
+     * The threads of the parent don't exist here, so
+     * any mutex one of them held (i.e. the one of a kqueue
+     * it was waiting on) will never be released, and
+     * using or freeing that kqueue would deadlock.
+     *
+     * They stay in kq_list so that the memory we're not
+     * allowed to free remains reachable.
+     */
+    LIST_FOREACH(kq, &kq_list, kq_entry)
+        map_remove(kqmap, kq->kq_id, kq);
+
     tracing_mutex_unlock(&kq_mtx);
 }
 #endif
-- 
2.43.0


From 9d2a86204571e8842e1d677d2bbc172d0b1eca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:21 +0000
Subject: [PATCH 29/39] fix: identifiers that do not fit the operating system's
 type are refused

READ, WRITE, VNODE, SIGNAL and PROC truncated the identifier to an int, so 2^32 + 5 registered descriptor, signal or process 5.
---
 src/linux/platform.c | 5 +++++
 src/linux/proc.c     | 6 ++++++
 src/linux/signal.c   | 6 ++++++
 src/linux/vnode.c    | 6 ++++++
 4 files changed, 23 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 897880b..371ac83 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1086,6 +1086,11 @@ linux_get_descriptor_type(struct knote *kn)
     int ret, lsock, stype;
     const int fd = (int)kn->kev.ident;
 
+    if (kn->kev.ident > INT_MAX) {  /* Not truncated to some other descriptor */
+        errno = EBADF;
+        return (-1);
+    }
+
     /*
      * Determine the actual descriptor type.
      */
diff --git a/src/linux/proc.c b/src/linux/proc.c
index a60e020..efa5549 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -13,6 +13,7 @@
  * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
+#include <limits.h>
 #include "private.h"
 
 /* We depend on the SYS_pidfd_open call to determine when a process has exited
@@ -118,6 +119,11 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
         return 0;
     }
 
+    if (kn->kev.ident > INT_MAX) {  /* Not truncated to some other process */
+        errno = ESRCH;
+        return (-1);
+    }
+
     /* Returns an FD, which, when readable, indicates the process has exited */
     pfd = syscall(SYS_pidfd_open, (pid_t)kn->kev.ident, 0);
     if (pfd < 0) {
diff --git a/src/linux/signal.c b/src/linux/signal.c
index 7edcfb8..3e3d836 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -13,6 +13,7 @@
  * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
+#include <limits.h>
 #include "private.h"
 
 #include <signal.h>
@@ -151,6 +152,11 @@ evfilt_signal_knote_create(struct filter *filt, struct knote *kn)
 {
     int fd;
 
+    if (kn->kev.ident > INT_MAX) {  /* Not truncated to some other signal */
+        errno = EINVAL;
+        return (-1);
+    }
+
     fd = signalfd_create(filter_epoll_fd(filt), kn, kn->kev.ident);
     if (fd > 0) {
         kn->kev.flags |= EV_CLEAR;
diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 40ebc82..9218377 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -13,6 +13,7 @@
  * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
+#include <limits.h>
 #include "private.h"
 
 #ifndef NDEBUG
@@ -272,6 +273,11 @@ evfilt_vnode_knote_create(struct filter *filt, struct knote *kn)
 {
     struct stat sb;
 
+    if (kn->kev.ident > INT_MAX) {  /* Not truncated to some other descriptor */
+        errno = EBADF;
+        return (-1);
+    }
+
     if (fstat(kn->kev.ident, &sb) < 0) {
         dbg_puts("fstat failed");
         return (-1);
-- 
2.43.0


From 5f1fe4905d629bd0d3caa54bf66e83574017a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:49 +0000
Subject: [PATCH 30/39] fix: a thread cancelled in kqueue() leaks the kqueue it
 created

The cancellation was acted on after the kqueue had been created, when
nobody could get to know its descriptor.  With debug messages on it could
also be acted on while kq_mtx was held.
---
 src/common/kqueue.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index cde0049..c1c44e3 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -374,14 +374,15 @@ kqueue(void)
     tracing_mutex_init(&kq_mtx, NULL);
 #else
     int prev_cancel_state;
+
+    pthread_testcancel();
+    pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &prev_cancel_state);
+
     tracing_mutex_lock(&kq_mtx);
     (void) pthread_once(&kq_is_initialized, libkqueue_init);
     tracing_mutex_unlock(&kq_mtx);
 #endif
 
-#ifndef _WIN32
-    pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &prev_cancel_state);
-#endif
     kq = calloc(1, sizeof(*kq));
     if (kq == NULL) {
 #ifndef _WIN32
@@ -427,9 +428,11 @@ kqueue(void)
     kq_cnt++;
     tracing_mutex_unlock(&kq_mtx);
 #ifndef _WIN32
+    /*
+     * Don't test for cancellation here, nobody would be
+     * able to close the kqueue that was just created.
+     */
     pthread_setcancelstate(prev_cancel_state, NULL);
-    if (prev_cancel_state == PTHREAD_CANCEL_ENABLE)
-        pthread_testcancel();
 #endif
 
     return (kq->kq_id);
-- 
2.43.0


From 72d7f38395632020d522c3be14eb82d7312491d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:39 +0000
Subject: [PATCH 31/39] fix: events are lost if the thread is cancelled before
 kevent() returns

A pending cancellation was acted on after one-shot and EV_CLEAR events had
been consumed.  Leave it pending if there are events to return.
---
 src/common/kevent.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 1837556..d8eea06 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -502,9 +502,12 @@ out:
     /*
      *  Test for cancellations first, so we don't
      *  double unlock the kqueue.
+     *
+     *  Not if there are events to return though, they've
+     *  already been consumed and would be lost.
      */
     pthread_setcancelstate(prev_cancel_state, NULL);
-    if (prev_cancel_state == PTHREAD_CANCEL_ENABLE) {
+    if ((rv <= 0) && (prev_cancel_state == PTHREAD_CANCEL_ENABLE)) {
         dbg_printf("Checking for deferred cancellations");
         pthread_testcancel();
     }
-- 
2.43.0


From 344bbbe280c08b5de6a9a1ce5a34ccdd6ae885e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:19 +0000
Subject: [PATCH 32/39] fix: repeating an invalid EVFILT_LIBKQUEUE query is
 reported as a success

kn_modify failed without setting errno, so the EV_ERROR entry had data 0.
---
 src/common/libkqueue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/libkqueue.c b/src/common/libkqueue.c
index 97223a4..e514c1b 100644
--- a/src/common/libkqueue.c
+++ b/src/common/libkqueue.c
@@ -79,6 +79,7 @@ common_libkqueue_knote_create(struct filter *filt, struct knote *kn)
         break;
 #endif
     default:
+        errno = EINVAL;     /* kn_modify must set errno */
         return (-1);
     }
 
-- 
2.43.0


From 2723300580d7c9e9bf8a2e95e5f2fd9c77501272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:40 +0000
Subject: [PATCH 33/39] fix: a signal event whose signalfd is descriptor 0 is
 freed while registered

signalfd() returning 0, which it does if the application closed its
standard input, was treated as a failure: the descriptor stayed in the
epoll set, referring to a freed knote.
---
 src/linux/signal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linux/signal.c b/src/linux/signal.c
index 3e3d836..03e064b 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -158,7 +158,7 @@ evfilt_signal_knote_create(struct filter *filt, struct knote *kn)
     }
 
     fd = signalfd_create(filter_epoll_fd(filt), kn, kn->kev.ident);
-    if (fd > 0) {
+    if (fd >= 0) {
         kn->kev.flags |= EV_CLEAR;
         kn->kn_signalfd = fd;
         return (0);
-- 
2.43.0


From 923a85c57410505b1522859ee6ca598503a4ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:40 +0000
Subject: [PATCH 34/39] fix: descriptor 0 of a kqueue is not closed when it is
 freed or forked

epoll_create1() and pipe() may return 0 if the application closed its
standard input.
---
 src/linux/platform.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 371ac83..65303c0 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -405,11 +405,11 @@ linux_libkqueue_fork(void)
         close(kq->epollfd);
         kq->epollfd = -1;
 
-        if ((kq->pipefd[0] > 0) && (close(kq->pipefd[0]) < 0))
+        if ((kq->pipefd[0] >= 0) && (close(kq->pipefd[0]) < 0))
             dbg_perror("close(2)");
         kq->pipefd[0] = -1;
 
-        if ((kq->pipefd[1] > 0) && (close(kq->pipefd[1]) < 0))
+        if ((kq->pipefd[1] >= 0) && (close(kq->pipefd[1]) < 0))
             dbg_perror("close(2)");
         kq->pipefd[1] = -1;
     }
@@ -581,7 +581,7 @@ linux_kqueue_free(struct kqueue *kq)
     ssize_t ret;
     int pipefd;
 
-    if (kq->epollfd > 0) {
+    if (kq->epollfd >= 0) {
         dbg_printf("epoll_fd=%i - closed", kq->epollfd);
 
         if (close(kq->epollfd) < 0)
@@ -614,7 +614,7 @@ linux_kqueue_free(struct kqueue *kq)
     }
 
     pipefd = kq->pipefd[0];
-    if (pipefd > 0) {
+    if (pipefd >= 0) {
         if (close(pipefd) < 0) {
             dbg_perror("close(2) - kq_fd=%i", kq->pipefd[0]);
         } else {
-- 
2.43.0


From b1a6d3241816deceb12a4cd9b704d75655ff700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:57 +0000
Subject: [PATCH 35/39] fix: kevent() unlocks the global mutex according to the
 setting it was locked under

NOTE_THREAD_SAFE may be switched by another thread between the lock and the
unlock of kq_mtx, which left it locked for good, or unlocked it without
having locked it.
---
 src/common/kevent.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index d8eea06..409e64e 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -359,6 +359,8 @@ kevent(int kqfd,
 #ifndef _WIN32
     int prev_cancel_state;
 #endif
+    /* Another thread may change the setting whilst we hold the global mutex */
+    bool thread_safe = libkqueue_thread_safe;
 #ifndef NDEBUG
     static atomic_uint _kevent_counter = 0;
     unsigned int myid = 0;
@@ -384,14 +386,14 @@ kevent(int kqfd,
      * any operations that might free the
      * kqueue from progressing.
      */
-    if (libkqueue_thread_safe)
+    if (thread_safe)
         tracing_mutex_lock(&kq_mtx);
 
     /* Convert the descriptor into an object pointer */
     kq = kqueue_lookup(kqfd);
     if (kq == NULL) {
         errno = ENOENT;
-        if (libkqueue_thread_safe)
+        if (thread_safe)
             tracing_mutex_unlock(&kq_mtx);
 #ifndef _WIN32
         pthread_setcancelstate(prev_cancel_state, NULL);
@@ -410,7 +412,7 @@ kevent(int kqfd,
      * nothing else can use this kqueue until
      * we release the lock.
      */
-    if (libkqueue_thread_safe)
+    if (thread_safe)
         tracing_mutex_unlock(&kq_mtx);
 #ifndef NDEBUG
     if (libkqueue_debug) {
-- 
2.43.0


From 809de9a7233a7bea6ed4180856b268eaa9fff933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 36/39] fix: refuse a kqueue whose descriptor is above the
 tables' size

The tables indexed by the kqueue's FD are as large as the FD limit was
when the monitoring thread started. When the limit is raised after that,
a kqueue with a higher FD wrote beyond their end.
---
 src/linux/platform.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 65303c0..50f0bab 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -539,6 +539,16 @@ linux_kqueue_init(struct kqueue *kq)
             goto error;
     }
 
+    /*
+     * The tables are as large as the FD limit was when the
+     * monitoring thread started, it may've been raised since.
+     */
+    if (kq->pipefd[0] >= nb_max_fd) {
+        dbg_printf("fd=%i - above the limit when the monitoring thread started", kq->pipefd[0]);
+        errno = EMFILE;
+        goto error;
+    }
+
     /* Update pipe FD map */
     fd_map[kq->pipefd[0]] = kq->kq_id;
 
-- 
2.43.0


From 39a95abc3f7d0917680112b4aa680988ff6e1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:02 +0000
Subject: [PATCH 37/39] fix: free everything when a kqueue can't be entered in
 the map

The platform's part of the kqueue was not freed, and an out of range
map_delete() returned a pointer that is not NULL.
---
 src/common/kqueue.c | 3 +++
 src/common/map.c    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index c1c44e3..20d62ef 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -420,7 +420,10 @@ kqueue(void)
 
     if (map_insert(kqmap, kq->kq_id, kq) < 0) {
         dbg_printf("kq=%p - map insertion failed, freeing", kq);
+        kqueue_lock(kq);
         filter_unregister_all(kq);
+        kqops.kqueue_free(kq);
+        kqueue_unlock(kq);
         tracing_mutex_unlock(&kq_mtx);
         goto error;
     }
diff --git a/src/common/map.c b/src/common/map.c
index d3a106c..05c38ef 100644
--- a/src/common/map.c
+++ b/src/common/map.c
@@ -115,7 +115,7 @@ void *
 map_delete(struct map *m, int idx)
 {
     if (unlikely(idx < 0 || idx >= (int)m->len))
-           return ((void *)-1);
+           return (NULL);
 
     return (void *)atomic_ptr_swap(&(m->data[idx]), NULL);
 }
-- 
2.43.0


From 8280fee821ec9484998bb23f42b2541a05727897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:46 +0000
Subject: [PATCH 38/39] fix: wait for the monitoring thread with a predicate,
 condition variables wake up spuriously

---
 src/linux/platform.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 50f0bab..5620f16 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -38,6 +38,7 @@ static __thread struct epoll_event epoll_events[MAX_KEVENT];
  */
 static pthread_t monitoring_thread;
 static pid_t monitoring_tid; /* Monitoring thread */
+static bool monitoring_thread_started; /* Initialized, or failed to. Protected by monitoring_thread_mtx */
 
 static pthread_mutex_t monitoring_thread_mtx = PTHREAD_MUTEX_INITIALIZER;
 static pthread_cond_t monitoring_thread_cond = PTHREAD_COND_INITIALIZER;
@@ -256,6 +257,7 @@ monitoring_thread_loop(UNUSED void *arg)
         /* Let kqueue init resume, so that it can fail */
         pthread_mutex_lock(&monitoring_thread_mtx);
         monitoring_tid = 0;
+        monitoring_thread_started = true;
         pthread_detach(pthread_self());
         pthread_cond_signal(&monitoring_thread_cond);
         pthread_mutex_unlock(&monitoring_thread_mtx);
@@ -275,6 +277,7 @@ monitoring_thread_loop(UNUSED void *arg)
      * Now that thread is initialized, let kqueue init resume
      */
     pthread_mutex_lock(&monitoring_thread_mtx);    /* Must try to lock to ensure parent is waiting on signal */
+    monitoring_thread_started = true;
     pthread_cond_signal(&monitoring_thread_cond);
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
@@ -335,6 +338,7 @@ static int
 linux_kqueue_start_thread(void)
 {
     pthread_mutex_lock(&monitoring_thread_mtx);
+    monitoring_thread_started = false;
     if (pthread_create(&monitoring_thread, NULL, monitoring_thread_loop, NULL)) {
          dbg_perror("linux_kqueue_start_thread failure");
          pthread_mutex_unlock(&monitoring_thread_mtx);
@@ -342,7 +346,8 @@ linux_kqueue_start_thread(void)
          return (-1);
     }
     /* Wait for thread creating to be done as we need monitoring_tid to be available */
-    pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
+    while (!monitoring_thread_started)
+        pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
     if (monitoring_tid == 0) {
         dbg_puts("monitoring thread failed to start");
         pthread_mutex_unlock(&monitoring_thread_mtx);
-- 
2.43.0


From f478e66fc4d2fd6e91c0b629294975fdf63e8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 39/39] fix: the monitoring thread of a forked child doesn't
 end with its last kqueue

---
 src/common/kqueue.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 20d62ef..054ba44 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -220,10 +220,13 @@ libkqueue_child_fork(void)
      * using or freeing that kqueue would deadlock.
      *
      * They stay in kq_list so that the memory we're not
-     * allowed to free remains reachable.
+     * allowed to free remains reachable, but they're not
+     * counted, as they'd keep the monitoring thread of the
+     * child running after its last kqueue is closed.
      */
     LIST_FOREACH(kq, &kq_list, kq_entry)
         map_remove(kqmap, kq->kq_id, kq);
+    kq_cnt = 0;
 
     tracing_mutex_unlock(&kq_mtx);
 }
-- 
2.43.0

