/* fork(): kqueues are not inherited, the child can use the library afresh, the parent is not
 * affected; whatever the parent's threads are doing (C21). */
#include "hx.h"
static int kq[2], t1 = -1, n1 = -9, waiting;
static struct kevent e1[2];
static void *waiter(void *a)
{
    n1 = kevent(kq[0], NULL, 0, e1, 2, NULL);
    return NULL;
}
#ifdef BUSY
static int bop, bkq = -1;
static void *busy(void *a)
{
    struct kevent ev[2];
    switch (bop) {
    case 0: bkq = kqueue(); break;
    case 1: chg(kq[0], 41, EVFILT_USER, EV_ADD | EV_CLEAR, NOTE_TRIGGER, 0, NULL); break;
    case 2: ev_get(kq[0], ev, 2); break;
    case 3: chg(kq[0], 5, EVFILT_USER, EV_DELETE, 0, 0, NULL); break;
    }
    return NULL;
}
#endif
static void reg(int q, int fd, int file)
{
    switch (nd_pick(7)) {
    case 0: break;
    case 1: ASSUME(chg(q, 5, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, NULL) == 0); break;
    case 2: ASSUME(chg(q, 5, EVFILT_TIMER, EV_ADD, 0, 1000, NULL) == 0); break;
    case 3: ASSUME(chg(q, SIGUSR1, EVFILT_SIGNAL, EV_ADD, 0, 0, NULL) == 0); break;
    case 4: ASSUME(chg(q, fd, EVFILT_READ, EV_ADD, 0, 0, NULL) == 0); break;
    case 5: ASSUME(chg(q, 77, EVFILT_PROC, EV_ADD, NOTE_EXIT, 0, NULL) == 0); break;
    case 6: ASSUME(chg(q, file, EVFILT_READ, EV_ADD, 0, 0, NULL) == 0); break;
    }
}
static void works(int q, uint64_t u)
{
    struct kevent ev[4];
    int n, seen = 0;
    CHECK(chg(q, 99, EVFILT_USER, EV_ADD | EV_ONESHOT, NOTE_TRIGGER, 0, (void *)u) == 0, "a kqueue takes registrations");
    n = ev_get(q, ev, 4);
    for (int i = 0; i < n; i++) seen += ev[i].ident == 99 && ev[i].udata == (void *)u;
    CHECK(seen == 1, "a kqueue returns its events");
}
void harness(void)
{
    struct kevent ev[4];
    int nkq, fd, file, b0, cleanup = 1, old[NFD], kind[NFD], q, r;
#ifdef LOW0
    g_low = 0;
#endif
    km_init();
    fd = km_user_fd(0); file = km_user_fd(1);
    kuf[0].mode = S_IFSOCK; kuf[1].mode = S_IFREG; kuf[1].size = 10; kuf[1].pos = 10;
    kproc[0].pid = 77; kproc[0].state = 1;
    nkq = 1 + nd_pick(2);
    kq[0] = kqueue(); ASSUME(kq[0] >= 0);
    reg(kq[0], fd, file);
    if (nkq > 1) { kq[1] = kqueue(); ASSUME(kq[1] >= 0); }
#ifndef BUSY
    if (nd_pick(2)) {
        struct kevent c;
        EV_SET(&c, 0, EVFILT_LIBKQUEUE, EV_ADD, NOTE_FORK_CLEANUP, 0, NULL);
        CHECK(kevent(kq[0], &c, 1, NULL, 0, &T0) == 0, "clean-up can be switched off");
        cleanup = 0;
        if (nd_pick(2)) {
            EV_SET(&c, 0, EVFILT_LIBKQUEUE, EV_ADD, NOTE_FORK_CLEANUP, 1, NULL);
            CHECK(kevent(kq[0], &c, 1, NULL, 0, &T0) == 0, "clean-up can be switched on again");
            cleanup = 1;
        }
    }
    if (nd_pick(2)) { t1 = km_spawn(waiter, NULL); km_others(); waiting = !km_done(t1); if (waiting) COVER("waiting"); }
#endif
#ifdef BUSY
    bop = nd_pick(4);
    ASSUME(bop != 0 || nkq == 1);
    g_preempt = BUSY; g_preempt_sys = 1;
    t1 = km_spawn(busy, NULL); km_step(t1);
    if (!km_done(t1)) COVER("busy");
    g_preempt = 0;
    km_user_fd(2);
#endif
    CHECK(g_atfork_n == 1, "the library takes notice of fork()");
#ifdef AGAIN
    g_pre(); g_par();           /* another child, earlier */
#endif
    /* fork() */
    g_pre();
    b0 = km_open_count();
    for (int i = 0; i < NFD; i++) { old[i] = kfd[i].kind != K_FREE; kind[i] = kfd[i].kind; }
    if (nd_pick(2)) {
        g_par();
        CHECK(km_open_count() == b0, "fork() leaves the parent's descriptors alone");
#ifdef BUSY
        km_others();
        CHECK(km_done(t1), "fork() does not hold up the threads of the parent");
#endif
        CHECK(g_locks == waiting, "no lock is left held");
        if (waiting) CHECK(!km_done(t1), "fork() does not end a wait");
        else works(kq[0], 0x111);
        if (nkq > 1) works(kq[1], 0x222);
        q = kqueue();
        CHECK(q >= 0, "the parent can make kqueues after a fork()");
        works(q, 0x333);
        km_close(q);
        km_others();
        COVER("parent");
        COVER("end");
        sx_stop();
    }
    km_fork_child();
    g_chi();
    for (int i = 0; i < NFD; i++) if (old[i]) {
        if (kind[i] == K_USER || kind[i] == K_STD || !cleanup) CHECK(kfd[i].kind == kind[i], "fork() leaves the application's descriptors alone");
        else if (kind[i] == K_EPOLL || kind[i] == K_PIPER || kind[i] == K_PIPEW) CHECK(kfd[i].kind == K_FREE, "kqueues are not inherited");
    }
    CHECK(!g_close_bad && !g_user_touch, "fork() closes the kqueues and nothing else");
    if (cleanup) {
        errno = 0;
        r = kevent(kq[0], NULL, 0, ev, 2, &T0);
        CHECK(r == -1 && errno != 0, "a kqueue is not usable in the child");
        COVER("child");
    }
    /* a fresh one, most likely with the same number */
    q = kqueue();
    CHECK(q >= 0, "the child can make kqueues of its own");
    if (q < 0) sx_stop();
    CHECK(ev_get(q, ev, 4) == 0, "a new kqueue has no events");
    works(q, 0x444);
    r = kqueue();
    CHECK(r >= 0 && r != q, "the child can make kqueues of its own");
    works(r, 0x555);
    works(q, 0x666);
#ifdef AGAIN
    {   /* a child of the child */
        int p = nd_pick(2), q2;
        ASSUME(cleanup || nkq == 1);
        g_pre();
        if (p) g_par();
        else {
            km_fork_child();
            g_chi();
            CHECK(!g_close_bad && !g_user_touch, "fork() closes the kqueues and nothing else");
            if (cleanup) CHECK(kevent(q, NULL, 0, ev, 2, &T0) == -1 && kevent(r, NULL, 0, ev, 2, &T0) == -1, "a kqueue is not usable in the child");
            q2 = kqueue();
            CHECK(q2 >= 0, "the child can make kqueues of its own");
            CHECK(ev_get(q2, ev, 4) == 0, "a new kqueue has no events");
            works(q2, 0x888);
            km_close(q2); km_others();
            COVER("grandchild");
            sx_stop();
        }
    }
#endif
    b0 = km_open_count();
    km_close(q); km_others();
    CHECK(km_open_count() == b0 - 3 || !cleanup, "closing a kqueue in the child gives back its descriptors");
    works(r, 0x777);
    km_close(r); km_others();
    CHECK(km_open_count() == b0 - 6 || !cleanup, "closing a kqueue in the child gives back its descriptors");
    CHECK(km_mon_running() == 0 || !cleanup, "when all kqueues of the child are closed no thread is left over");
    CHECK(!g_close_bad && !g_user_touch, "the application's descriptors are left alone");
    if (cleanup && nd_pick(2)) { q = kqueue(); CHECK(q >= 0, "the child can make kqueues of its own"); works(q, 0x999); }
    for (int i = g_atexit_n - 1; i >= 0; i--) if (g_atexit[i]) g_atexit[i]();
    COVER("end");
}
