/* EVFILT_READ and EVFILT_WRITE on the same descriptor are independent (C16). */
#include "hx.h"
#ifndef NOPS
#define NOPS 4
#endif
enum { R, W };
static const short F[2] = { EVFILT_READ, EVFILT_WRITE };
static const uint32_t CAUSE[2] = { EPOLLIN | EPOLLHUP | EPOLLERR, EPOLLOUT | EPOLLHUP | EPOLLERR };
static int kq, fd, here[2], on[2], woke[2];
static unsigned fl[2];
static uint64_t ud[2];
#ifdef CLR
#define BASE EV_CLEAR
#else
#define BASE 0
#endif
static void get(void)
{
    struct kevent ev[4];
    int n = ev_get(kq, ev, 4), seen[2] = { 0, 0 };
    uint32_t m = kuf[0].mask;
    CHECK(n >= 0 && n <= 2, "at most one event per filter is returned");
    for (int e = 0; e < n; e++) {
        int s = ev[e].filter == EVFILT_READ ? R : W;
        CHECK(ev[e].ident == (uintptr_t)fd && ev[e].filter == F[s] && !seen[s], "each filter's event is returned once, for the descriptor");
        CHECK(here[s] && on[s], "only an enabled registration is returned");
        CHECK(m & CAUSE[s], "a filter is returned for its own condition only");
        CHECK(ev[e].udata == (void *)ud[s], "each filter returns its own user data");
        seen[s] = 1;
        COVER(s ? "write" : "read");
    }
    for (int s = 0; s < 2; s++) {
        int must = here[s] && on[s] && (m & CAUSE[s]);
#ifdef CLR
        must = must && woke[s];
#endif
        CHECK(!must || seen[s], "an enabled filter whose condition holds is returned whatever happens to the other one");
        woke[s] = 0;
        if (seen[s] && (fl[s] & EV_ONESHOT)) here[s] = 0;
        if (seen[s] && (fl[s] & EV_DISPATCH)) on[s] = 0;
    }
    if (seen[0] && seen[1]) COVER("both");
}
static void add(int s)
{
    static const unsigned k[] = { 0, EV_ONESHOT, EV_DISPATCH };
    ASSUME(!here[s]);
    fl[s] = k[nd_pick(3)] | BASE;
    ud[s] = nd();
    CHECK(chg(kq, fd, F[s], EV_ADD | fl[s], 0, 0, (void *)ud[s]) == 0, "a filter can be added whatever the state of the other one");
    here[s] = on[s] = woke[s] = 1;
}
void harness(void)
{
    static const uint32_t masks[] = { 0, EPOLLIN, EPOLLOUT, EPOLLIN | EPOLLOUT, EPOLLIN | EPOLLOUT | EPOLLHUP, EPOLLERR };
    kq = HX_kq();
    ASSUME(kq >= 0);
    fd = km_user_fd(0);
    kuf[0].mode = S_IFSOCK; kuf[0].inq = 3; kuf[0].outq = 4;
#ifdef BOTH
    add(0); add(1);
#else
    add(nd_pick(2));
#endif
#ifdef ONESLOT
    {   /* an event list with room for one of the two */
        struct kevent ev;
        int seen[2] = { 0, 0 };
        ASSUME(!(fl[0] & (EV_ONESHOT | EV_DISPATCH)) && !(fl[1] & (EV_ONESHOT | EV_DISPATCH)));
        km_ready(0, EPOLLIN | EPOLLOUT);
        for (int k = 0; k < 3; k++) if (ev_get(kq, &ev, 1) == 1) seen[ev.filter == EVFILT_WRITE] = 1;
        COVER("one slot");
        CHECK(seen[0] && seen[1], "both filters are returned in turn if the event list has room for one event");
        sx_stop();
    }
#endif
    for (int k = 0; k < NOPS; k++) {
        int s = nd_pick(2);
        switch (nd_pick(6)) {
        case 0: add(s); break;
        case 1: CHECK(chg(kq, fd, F[s], EV_DELETE, 0, 0, NULL) == (here[s] ? 0 : ENOENT), "deleting succeeds exactly if the filter is registered"); here[s] = 0; break;
        case 2: ASSUME(here[s]); CHECK(chg(kq, fd, F[s], EV_DISABLE, 0, 0, NULL) == 0, "disabling succeeds"); on[s] = 0; break;
        case 3: ASSUME(here[s]); CHECK(chg(kq, fd, F[s], EV_ENABLE, 0, 0, NULL) == 0, "enabling succeeds"); if (!on[s]) woke[s] = 1; on[s] = 1; break;
        case 4: ASSUME(s == 0); km_ready(0, masks[nd_pick(6)]); woke[0] = woke[1] = 1; break;
        case 5: ASSUME(s == 0); get(); break;
        }
    }
    get();
    for (int s = 0; s < 2; s++)
        CHECK(chg(kq, fd, F[s], EV_DELETE, 0, 0, NULL) == (here[s] ? 0 : ENOENT), "each filter exists exactly as long as it was not deleted or fired once");
    CHECK(!g_user_touch, "the descriptor itself is left alone");
    COVER("end");
}
