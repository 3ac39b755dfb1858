/* Resource exhaustion: a call that fails changes nothing and leaves nothing behind (C19).
 * One call of the library fails, at any place where the system may refuse. */
#include "src.h"
#define FL (EV_CLEAR | EV_ONESHOT | EV_DISPATCH | EV_DISABLE)
#ifndef NFAULT
#define NFAULT 1
#endif
static int kq2, b0, l0;
static void faulty(void) { g_faults = NFAULT; g_injected = 0; }
static int well(void) { int i = g_injected; g_faults = 0; return !i; }
#ifdef KQ
void harness(void)      /* kqueue() itself, the first or a later one */
{
    int kq, first = nd_pick(2), cs, b;
    struct kevent ev[2];
    km_init();
    b = km_open_count();
    /* the library is initialised; its monitoring thread has to be started again if this is the first kqueue */
    kq2 = kqueue();
    ASSUME(kq2 >= 0);
    if (first) { km_close(kq2); km_others(); }
    b0 = km_open_count(); l0 = g_live;
    cs = nd_pick(2) ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
    g_cancel_state[0] = cs;
    faulty();
    kq = kqueue();
    if (kq < 0) {
        CHECK(!well(), "kqueue() fails only if the system refuses something");
        km_others();
        CHECK(km_open_count() == b0, "a kqueue() that fails leaves no descriptor behind");
        if (!first) CHECK(g_live == l0, "a kqueue() that fails leaves no memory behind");
        COVER("refused");
    } else well();
    CHECK(g_cancel_state[0] == cs, "the cancellation state is restored");
    CHECK(g_locks == 0, "no lock is left held");
    /* the library works after it */
    kq = kqueue();
    CHECK(kq >= 0, "kqueue() works again when the system no longer refuses");
    if (kq < 0) sx_stop();
    CHECK(chg(kq, 1, EVFILT_USER, EV_ADD | EV_CLEAR, NOTE_TRIGGER, 0, NULL) == 0 && ev_get(kq, ev, 2) == 1, "a kqueue made afterwards works");
    /* and ends its thread with the last kqueue */
    if (kq2 != kq && kfd[kq2].kind == K_PIPEW) km_close(kq2);
    km_close(kq); km_others();
    for (int i = g_low; i < NFD; i++) if (kfd[i].kind == K_PIPEW) { km_close(i); km_others(); }
    CHECK(km_mon_running() == 0, "when all kqueues are closed no thread is left over");
    CHECK(km_open_count() == b, "when all kqueues are closed no descriptor is left over");
    COVER("end");
}
#else
void harness(void)
{
    struct kevent ev[4], c;
    unsigned f = sx_nd(16) & FL;
    int kq, r, n, here = 0, b1, l1, was;
    ASSUME(!((f & EV_ONESHOT) && (f & EV_DISPATCH)));
    kq2 = HX_kq();
    ASSUME(kq2 >= 0);
    s_setup();
#ifdef REGFILE
    for (int i = 0; i < 2; i++) { kuf[i].mode = S_IFREG; kuf[i].size = 10; kuf[i].pos = 3; }
#endif
    b0 = km_open_count(); l0 = g_live;
    kq = kqueue();
    ASSUME(kq >= 0);
    /* another registration, which is not to be affected */
    CHECK(s_add(kq, 1, EV_CLEAR, NULL) == 0, "a registration without faults succeeds");
    b1 = km_open_count(); l1 = g_live;
    if (nd_pick(2)) {           /* adding */
        faulty();
        r = s_add(kq, 0, f, NULL);
        was = well();
        here = r == 0;
        if (r) {
            CHECK(!was, "a change fails only if the system refuses something");
            CHECK(r > 0, "a change that fails is reported with an error number");
            COVER("add refused");
            if (f & EV_DISABLE) sx_cover("disable refused");
            n = s_do(kq, 0, EV_DELETE);
            CHECK(n == ENOENT || ((f & EV_DISABLE) && n == 0), "what could not be added does not exist");
            CHECK(km_open_count() == b1, "a registration that fails leaves no descriptor behind");
            CHECK(g_live == l1, "a registration that fails leaves no memory behind");
            CHECK(s_add(kq, 0, f, NULL) == 0, "the registration succeeds when the system no longer refuses");
            here = 1;
        }
    } else {
        ASSUME(s_add(kq, 0, f, NULL) == 0);
        here = 1;
    }
    /* one more operation under faults */
    n = nd_pick(5);
    if (n == 4) { if (!IS(EVFILT_USER)) s_fire(kq, 0, f, NULL); }
    faulty();
    switch (n) {
    case 0: r = s_do(kq, 0, EV_DELETE); here = 0; break;
    case 1: r = s_do(kq, 0, EV_DISABLE); break;
    case 2: r = s_do(kq, 0, EV_ENABLE); break;
    case 3: r = s_add(kq, 0, f & ~EV_DISABLE, NULL); break;
    case 4: r = IS(EVFILT_USER) ? chg(kq, s_id(0), FILT, 0, NOTE_TRIGGER, 0, NULL) : ev_get(kq, ev, 4) < 0 ? EIO : 0;
    }
    was = well();
    CHECK(r == 0 || !was || (n == 3 && (LEVELISH || IS(EVFILT_VNODE))), "a call fails only if the system refuses something");
    if (r) COVER("refused");
    CHECK(g_locks == 0, "no lock is left held");
    (void)c; (void)here;
    /* the other registration still works */
    if (IS(EVFILT_SIGNAL)) ASSUME((g_sigblock >> (s_id(1) - 1)) & 1);
    s_fire(kq, 1, EV_CLEAR, NULL);
    n = ev_get(kq, ev, 4);
    r = 0;
    for (int e = 0; e < n; e++) r |= ev[e].ident == s_id(1);
#ifndef REGFILE
    CHECK(r, "other registrations are not affected");
#endif
    /* everything can be given back */
    s_do(kq, 0, EV_DELETE);
    s_do(kq, 1, EV_DELETE);
    CHECK(s_do(kq, 0, EV_DELETE) == ENOENT, "after a failure a registration can still be deleted");
    km_close(kq);
    km_others();
    CHECK(km_open_count() == b0, "a failure leaves no descriptor behind");
    CHECK(g_live == l0, "a failure leaves no memory behind");
    CHECK(!g_close_bad, "no descriptor is closed twice");
    CHECK(!g_user_touch, "the application's descriptors are left alone");
    COVER("end");
}
#endif
