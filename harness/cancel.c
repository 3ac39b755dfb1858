/* A thread is cancelled while it is inside kevent() or kqueue(), or waits: nothing stays locked,
 * the kqueue stays usable; the cancellation state is the caller's again on every return (C28). */
#include "hx.h"
int mk_pthread_cancel(pthread_t t);
static int kq, bop, b_rc = -9, b_after, b_kq = -1, b_off;
static struct kevent bev[2];
static void *worker(void *a)
{
    if (b_off) g_cancel_state[g_cur] = PTHREAD_CANCEL_DISABLE;
    switch (bop) {
    case 0: b_rc = kevent(kq, NULL, 0, bev, 2, NULL); break;                /* waits */
    case 1: b_rc = ev_get(kq, bev, 2); break;
    case 2: b_rc = chg(kq, 41, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, NULL); break;
    case 3: b_rc = chg(kq, 5, EVFILT_USER, EV_DELETE, 0, 0, NULL); break;
    case 4: b_rc = chg(kq, 6, EVFILT_TIMER, EV_ADD, 0, 1000, NULL); break;
    case 5: b_kq = kqueue(); b_rc = b_kq < 0 ? -1 : 0; break;
    case 7: b_rc = chg(23, 1, EVFILT_USER, EV_ADD, 0, 0, NULL); CHECK(b_rc != 0, "there is no such kqueue"); break;
    case 8: b_rc = chg(kq, 1, EVFILT_USER, EV_DELETE, 0, 0, NULL); CHECK(b_rc == ENOENT, "there is no such event"); break;
    case 9: g_faults = 1; b_kq = kqueue(); b_rc = b_kq < 0 ? -1 : 0; g_faults = 0; if (b_rc) COVER("failed"); break;
    case 6: b_rc = kevent(kq, NULL, 0, bev, 2, &(struct timespec){ 1, 500 }); break;
    }
    CHECK(g_cancel_state[g_cur] == (b_off ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE), "the cancellation state is the caller's again");
    b_after = 1;
    return NULL;
}
#ifdef TWO
static int o_rc = -9;
static void *other(void *a) { o_rc = chg(kq, 44, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, NULL); return NULL; }
#endif
static void works(int q, uint64_t u)
{
    struct kevent ev[4];
    int n, seen = 0;
    CHECK(chg(q, 99, EVFILT_USER, EV_ADD | EV_ONESHOT, NOTE_TRIGGER, 0, (void *)u) == 0, "the kqueue takes changes");
    n = ev_get(q, ev, 4);
    CHECK(n >= 1, "the kqueue returns events");
    for (int i = 0; i < n; i++) seen += ev[i].ident == 99 && ev[i].udata == (void *)u;
    CHECK(seen == 1, "the kqueue returns its events");
}
void harness(void)
{
    int t, pend = 0, clear;
    km_init();
    bop = nd_pick(10);
    b_off = nd_pick(2);
    if (bop != 5 || nd_pick(2)) {
        kq = kqueue(); ASSUME(kq >= 0);
        clear = nd_pick(2);
        CHECK(chg(kq, 5, EVFILT_USER, EV_ADD | (clear ? EV_CLEAR : EV_ONESHOT), 0, 0, (void *)0x5) == 0, "add");
        if (nd_pick(2)) { pend = 1; ASSUME(chg(kq, 5, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)0x5) == 0); }
    } else kq = -1;
    g_preempt = 1; g_preempt_sys = 1;
    t = km_spawn(worker, NULL);
    if (nd_pick(2)) km_step(t);
    g_preempt = 0; g_faults = 0;
#ifdef TWO
    {   /* another thread wants the same kqueue */
        int u = km_spawn(other, NULL);
        km_step(u);
        if (!km_done(u)) COVER("held up");
    }
#endif
    if (km_done(t)) { COVER("returned"); CHECK(b_after, "the call returns"); }
    else {
        mk_pthread_cancel((pthread_t)t);
        km_others();
        if (b_off && bop == 0 && !pend) { sx_stop(); }
        CHECK(km_done(t), "a cancelled thread does not stay in the library");
        if (!b_after) { COVER("cancelled"); CHECK(!b_off, "a thread that does not allow cancellation is not cancelled"); }
        else COVER("finished");
    }
    km_join(t);
    g_faults = 0;
    CHECK(g_locks == 0, "no lock is left held");
#ifdef TWO
    CHECK(o_rc == 0 || kq < 0, "a thread held up by the cancelled one goes on");
#endif
    if (pend && bop != 3 && !b_after) {
        struct kevent ev[2];
        CHECK(ev_get(kq, ev, 2) == 1 && ev[0].ident == 5, "cancelling a thread loses no event");
        COVER("kept");
    }
    if (kq >= 0) works(kq, 0x99);
    {
        int q = kqueue();
        CHECK(q >= 0, "kqueues can be made");
        works(q, 0x98);
        km_close(q); km_others();
        if (b_kq >= 0) { works(b_kq, 0x97); km_close(b_kq); km_others(); }
    }
    if (kq >= 0) { km_close(kq); km_others(); }
    CHECK(g_locks == 0, "no lock is left held");
    CHECK(km_open_count() == 0 && km_mon_running() == 0, "everything is given back in the end");
    COVER("end");
}
