/* Descriptors the library opens are not inherited by programs the application runs (C24). */
#include "src.h"
#ifndef NOPS
#define NOPS 3
#endif
#define CX(m) CHECK(km_noncloexec() == 0, "a descriptor " m " is close-on-exec")
void harness(void)
{
    int kq, k2 = -1;
    struct kevent ev[2];
    unsigned fl;
    kq = HX_kq();
    ASSUME(kq >= 0);
    CX("of a kqueue");
    s_setup();
    if (nd_pick(2)) { k2 = kqueue(); ASSUME(k2 >= 0); CX("of a kqueue"); }
#ifdef REGFILE
    kuf[0].mode = S_IFREG; kuf[0].size = 10; kuf[0].pos = 3;
#endif
    fl = (unsigned)sx_nd(16) & (EV_CLEAR | EV_ONESHOT | EV_DISPATCH | EV_DISABLE);
    ASSUME(!((fl & EV_ONESHOT) && (fl & EV_DISPATCH)));
    ASSUME(s_add(kq, 0, fl, NULL) == 0);
    CX("opened for a registration");
    for (int i = 0; i < NOPS; i++) {
        switch (nd_pick(5)) {
        case 0: s_do(kq, 0, EV_DISABLE); break;
        case 1: s_do(kq, 0, EV_ENABLE); COVER("enabled"); break;
        case 2: s_add(kq, 0, fl, NULL); break;
        case 3: ASSUME(!IS(EVFILT_PROC) || kproc[0].state == 1);
            ASSUME(!IS(EVFILT_SIGNAL) || g_sigblock); s_fire(kq, 0, fl, NULL); break;
        case 4: ev_get(kq, ev, 2); break;
        }
        CX("opened for a registration");
    }
    COVER("end");
}
