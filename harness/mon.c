/* kqueues come and go, descriptor numbers are reused, and the thread that cleans up runs
 * at any time: every open kqueue works, every closed one is cleaned up (C20). */
#include "hx.h"
#ifndef NOPS
#define NOPS 5
#endif
#ifndef NKQ
#define NKQ 3
#endif
#ifndef NLOW
#define NLOW 2              /* descriptors the application has below the first kqueue */
#endif
static int kq[NKQ], uf[NLOW];
static uint64_t ud[NKQ];
static int made;
static void mk(int i)
{
    struct kevent ev[2];
    ASSUME(km_kind_count(K_EPOLL) < NEP && km_open_count() + 4 < NFD - 6);
    kq[i] = kqueue();
    CHECK(kq[i] >= 0, "kqueue() succeeds while there are descriptors left");
    if (kq[i] < 0) sx_stop();
    for (int j = 0; j < NKQ; j++) CHECK(j == i || kq[j] != kq[i], "each open kqueue has its own descriptor");
    CHECK(kfd[kq[i]].kind != K_FREE && kfd[kq[i]].kind != K_USER, "the descriptor returned is open");
    CHECK(ev_get(kq[i], ev, 2) == 0, "a new kqueue has no events");
    ud[i] = 0x5000 + made++;
#ifdef REG
    CHECK(chg(kq[i], 9, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, (void *)ud[i]) == 0, "a new kqueue takes registrations, and has none before");
#endif
}
static void works(int i)
{
    struct kevent ev[2];
    CHECK(kfd[kq[i]].kind != K_FREE, "an open kqueue stays open");
#ifndef REG
    CHECK(chg(kq[i], 9, EVFILT_USER, EV_ADD | EV_ONESHOT, NOTE_TRIGGER, 0, (void *)ud[i]) == 0, "an open kqueue takes registrations");
#else
    CHECK(chg(kq[i], 9, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)ud[i]) == 0, "an open kqueue keeps its registrations");
#endif
    CHECK(ev_get(kq[i], ev, 2) == 1 && ev[0].ident == 9 && ev[0].udata == (void *)ud[i], "an open kqueue returns its own events");
}
void harness(void)
{
    int b0, closed = 0, live;
#ifdef LOW0
    g_low = 0;
#endif
    km_init();
    for (int i = 0; i < NLOW; i++) uf[i] = km_user_fd(i);
    for (int i = 0; i < NKQ; i++) kq[i] = -1;
    b0 = km_open_count();
#ifdef SPUR
    g_spurious = SPUR;
#endif
    mk(0);
#ifdef START2
    mk(1);
#endif
#ifdef PREEMPT
    g_preempt = PREEMPT;
#endif
    for (int k = 0; k < NOPS; k++) {
        int i;
        switch (nd_pick(4)) {
        case 0: for (i = 0; i < NKQ && kq[i] >= 0; i++) ;
            ASSUME(i < NKQ);
            mk(i);
            break;
        case 1: i = nd_pick(NKQ);
            ASSUME(kq[i] >= 0);
            km_close(kq[i]); kq[i] = -1; closed++;
            break;
        case 2: i = nd_pick(NLOW);
            if (uf[i] >= 0) { km_close(uf[i]); uf[i] = -1; COVER("app closes"); }
            else { uf[i] = km_user_fd(i); ASSUME(uf[i] >= 0); COVER("app opens"); }
            break;
        case 3: km_others(); COVER("thread runs"); break;
        }
        for (i = 0; i < NKQ; i++) if (kq[i] >= 0) works(i);
    }
    if (nd_pick(2)) km_others();
    for (int i = 0; i < NKQ; i++) if (kq[i] >= 0) works(i);
#ifdef EXIT
    {   /* the process ends */
        static const int keep[] = { 0, 1 };
        int k = keep[nd_pick(2)];
        if (k) for (int i = 0; i < NKQ; i++) if (kq[i] >= 0) { km_close(kq[i]); kq[i] = -1; }
        for (int i = g_atexit_n - 1; i >= 0; i--) if (g_atexit[i]) g_atexit[i]();
        g_preempt = 0;
        km_others();
        CHECK(km_mon_running() == 0 && km_zombie_threads() == 0, "at exit the thread has ended");
        CHECK(g_locks == 0, "no lock is left held");
        for (int i = 0; i < NLOW; i++) k = k && uf[i] >= 0 && uf[i] < g_low + NLOW;     /* no number of a kqueue taken over */
        if (k) CHECK(km_open_count() == b0, "at exit closed kqueues have been cleaned up");
        for (int i = 0; i < NLOW; i++) CHECK(uf[i] < 0 || kfd[uf[i]].kind == K_USER, "the application's descriptors are left alone");
        COVER("exit");
        sx_stop();
    }
#endif
    for (int i = 0; i < NKQ; i++) if (kq[i] >= 0) { km_close(kq[i]); kq[i] = -1; }
    km_others();
    CHECK(km_open_count() == b0, "when all kqueues are closed no descriptor is left over");
    CHECK(km_mon_running() == 0, "when all kqueues are closed no thread is left over");
    for (int i = 0; i < NLOW; i++) CHECK(uf[i] < 0 || kfd[uf[i]].kind == K_USER, "the application's descriptors are left alone");
    CHECK(!g_close_bad, "no descriptor is closed twice");
    CHECK(!g_user_touch, "the application's descriptors are left alone");
    CHECK(g_locks == 0, "no lock is left held");
    CHECK(km_zombie_threads() == 0, "a thread that ended is detached or joined");
    live = g_live;
    /* and again */
    mk(0); works(0);
    km_close(kq[0]); km_others();
    CHECK(g_live == live, "when all kqueues are closed no memory is left over");
    CHECK(km_zombie_threads() == 0, "a thread that ended is detached or joined");
    CHECK(km_open_count() == b0, "when all kqueues are closed no descriptor is left over");
    if (closed) COVER("closed");
    COVER("end");
}
