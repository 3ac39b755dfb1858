/* Signal events (C25): two different signals, any numbers. */
#include "hx.h"
#ifndef NOPS
#define NOPS 4
#endif
#define BIT(s) (1ULL << ((s) - 1))
static int kq, nreg[2], off[2], pend[3];
static int sig[3];
static uint64_t ud[2];
static unsigned fl[2];
static int known(int i) { return nreg[i] && !off[i]; }
static void wait_(int room)
{
    struct kevent ev[3];
    int exp = 0, n, seen[2] = { 0, 0 };
    for (int i = 0; i < 2; i++) exp += known(i) && pend[i];
    n = ev_get(kq, ev, room);
    CHECK(n == (exp < room ? exp : room), "a wait returns every watched signal that arrived");
    for (int e = 0; e < n; e++) {
        int i = ev[e].ident == (uintptr_t)sig[0] ? 0 : 1;
        CHECK(ev[e].ident == (uintptr_t)sig[i] && ev[e].filter == EVFILT_SIGNAL, "the event carries the number of the signal");
        CHECK(known(i) && pend[i] && !seen[i], "only a watched signal that arrived is returned, once");
        CHECK(ev[e].udata == (void *)ud[i], "the event carries the user data");
        CHECK(ev[e].data == 1, "data is one occurrence");
        CHECK(!(ev[e].flags & EV_ERROR), "the event is not an error");
        CHECK(!((g_sigpend >> (sig[i] - 1)) & 1), "a returned signal is no longer pending");
        seen[i] = 1; pend[i] = 0;
        if (fl[i] & EV_ONESHOT) nreg[i] = 0;
        if (fl[i] & EV_DISPATCH) off[i] = 1;
        COVER("event");
    }
}
void harness(void)
{
    uint64_t blocked, other;
    kq = HX_kq();
    ASSUME(kq >= 0);
    for (int i = 0; i < 3; i++) {
        sig[i] = (int)(1 + nd_below(64));
        ASSUME(sig[i] != SIGKILL && sig[i] != SIGSTOP && (sig[i] < 32 || sig[i] > 33));
        for (int j = 0; j < i; j++) ASSUME(sig[i] != sig[j]);
    }
    g_sigblock = other = nd() & BIT(sig[2]);         /* what the application blocks itself */
    for (int i = 0; i < 2; i++) {
        if (i && !nd_pick(2)) continue;
        fl[i] = (int[]){ 0, EV_CLEAR, EV_ONESHOT, EV_DISPATCH }[nd_pick(4)];
        ud[i] = nd();
        CHECK(chg(kq, sig[i], EVFILT_SIGNAL, EV_ADD | fl[i], sx_nd(32), nd(), (void *)ud[i]) == 0, "any signal that can be blocked can be watched");
        nreg[i] = 1;
    }
    /* faults of its own apart, a thread of the library leaves every signal to the application's threads */
    for (int j = 0; j < 3; j++)
        CHECK(((km_lib_blocks() | BIT(SIGSEGV) | BIT(SIGBUS) | BIT(SIGFPE) | BIT(SIGILL) | BIT(SIGTRAP)) >> (sig[j] - 1)) & 1,
              "a thread of the library takes no signal of the application");
    blocked = BIT(sig[0]) | (nreg[1] ? BIT(sig[1]) : 0);
    CHECK(g_sigblock == (blocked | other), "exactly the watched signals are blocked in addition");
    for (int k = 0; k < NOPS; k++) {
        int i = nd_pick(2), rc;
        switch (nd_pick(6)) {
        case 0: ASSUME((g_sigblock >> (sig[i] - 1)) & 1); km_raise(sig[i]); pend[i] = 1; break;
        case 1: ASSUME(i == 0); g_sigpend |= BIT(sig[2]); pend[2] = 1; COVER("other"); break;
        case 2: wait_(1 + nd_pick(2)); break;
        case 3:
            rc = chg(kq, sig[i], EVFILT_SIGNAL, EV_DISABLE, 0, 0, NULL);
            CHECK(rc == (nreg[i] ? 0 : ENOENT), "disabling succeeds if the signal is watched");
            if (nreg[i]) off[i] = 1;
            break;
        case 4:
            rc = chg(kq, sig[i], EVFILT_SIGNAL, EV_ENABLE, 0, 0, NULL);
            CHECK(rc == (nreg[i] ? 0 : ENOENT), "enabling succeeds if the signal is watched");
            off[i] = 0;
            break;
        case 5:
            rc = chg(kq, sig[i], EVFILT_SIGNAL, EV_DELETE, 0, 0, NULL);
            CHECK(rc == (nreg[i] ? 0 : ENOENT), "deleting succeeds if the signal is watched");
            nreg[i] = 0; off[i] = 0;
            COVER("deleted");
            break;
        }
        CHECK((g_sigblock & BIT(sig[2])) == other, "a signal that is not watched is neither blocked nor unblocked");
        CHECK(((g_sigpend >> (sig[2] - 1)) & 1) == (uint64_t)pend[2], "a signal that is not watched is not consumed");
        for (int j = 0; j < 2; j++) {
            CHECK(((g_sigpend >> (sig[j] - 1)) & 1) == (uint64_t)pend[j], "a signal is not consumed before it is returned");
            if (nreg[j]) CHECK((g_sigblock >> (sig[j] - 1)) & 1, "a watched signal stays blocked");
        }
    }
    wait_(3);
    {   /* numbers that name no signal, or one that cannot be watched */
        uint64_t bad = nd();
        ASSUME(bad == 0 || bad > 64);
        CHECK(chg(kq, bad, EVFILT_SIGNAL, EV_ADD, 0, 0, NULL) != 0, "a number that is no signal is refused");
        COVER("invalid");
    }
    COVER("end");
}
