/* Any short history of changes, readiness changes and waits on one filter (C01). */
#include "hx.h"
#ifndef NOPS
#define NOPS 3
#endif
int fds[3], kq;
static uintptr_t ident(void)
{
#if FILT == EVFILT_READ || FILT == EVFILT_WRITE || FILT == EVFILT_VNODE
    switch (nd_pick(3)) { case 0: return fds[0]; case 1: return fds[1]; default: return (uintptr_t)-1; }
#elif FILT == EVFILT_PROC
    return nd_pick(2) ? 77 : 78;
#elif FILT == EVFILT_SIGNAL
    { int s = nd_below(80) ; return s; }
#else
    return nd_pick(2) ? 1 : 0x100000001ULL;
#endif
}
static intptr_t hdata(void)
{
#if FILT == EVFILT_TIMER
    static const intptr_t x[] = { 0, 1000000007, INTPTR_MAX, INTPTR_MIN };
    return x[nd_pick(4)];
#else
    return nd();
#endif
}
void harness(void)
{
    struct kevent k, ev[2];
    kq = HX_kq();
    ASSUME(kq >= 0);
    fds[0] = km_user_fd(0);
    fds[1] = km_user_fd(1);
    kuf[1].mode = S_IFREG; kuf[1].size = 10;
    kuf[0].mask = sx_nd(32) & (EPOLLIN|EPOLLOUT|EPOLLERR|EPOLLHUP|EPOLLRDHUP);
    kproc[0].pid = 77; kproc[0].state = 1;
    for (int i = 0; i < NOPS; i++) {
        switch (nd_pick(3)) {
        case 0: {
            EV_SET(&k, ident(), FILT, sx_nd(16), sx_nd(32), hdata(), (void *)nd());
            int n = nd_pick(2);
            kevent(kq, &k, 1, ev, n, &T0);
            break; }
        case 1:
            ev_get(kq, ev, 1 + nd_pick(2));
            break;
        case 2:
#if FILT == EVFILT_TIMER
            if (km_find(K_TIMER, 0) >= 0) km_timer_fire(km_find(K_TIMER, 0), 1);
#elif FILT == EVFILT_PROC
            km_exit(0, CLD_EXITED, 3);
#elif FILT == EVFILT_SIGNAL
            km_raise(1 + nd_below(64));
#elif FILT == EVFILT_VNODE
            km_vnode_event(nd_pick(2), sx_nd(12));
#elif FILT == EVFILT_READ || FILT == EVFILT_WRITE
            km_ready(0, sx_nd(32) & (EPOLLIN|EPOLLOUT|EPOLLERR|EPOLLHUP|EPOLLRDHUP));
            if (nd_pick(2)) km_close(fds[0]);
#endif
            break;
        }
    }
    COVER("end");
}
