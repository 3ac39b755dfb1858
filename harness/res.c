/* Every descriptor and every byte taken for a registration or a kqueue is given back (C18). */
#include "src.h"
#ifndef NOPS
#define NOPS 3
#endif
static unsigned fl_of(void)
{
    unsigned f = sx_nd(16) & (EV_CLEAR | EV_ONESHOT | EV_DISPATCH | EV_DISABLE);
    ASSUME(!((f & EV_ONESHOT) && (f & EV_DISPATCH)));
    return f;
}
static int reg[2];
static unsigned fl[2];
void harness(void)
{
    int kq2 = HX_kq(), kq, b0, l0, b1, l1, closed = 0, added = 0;
    struct kevent ev[4];
    ASSUME(kq2 >= 0);
    s_setup();
#ifdef REGFILE
    for (int i = 0; i < 2; i++) { kuf[i].mode = S_IFREG; kuf[i].size = 10; kuf[i].pos = 3; }
#endif
    b0 = km_open_count(); l0 = g_live;
    kq = kqueue();
    ASSUME(kq >= 0);
    b1 = km_open_count(); l1 = g_live;
    for (int k = 0; k < NOPS + 1; k++) {
        int c = k ? nd_pick(7 + (s_fd[0] >= 0)) : 0, i = 0;
        if (k && (c == 0 || ((reg[0] | closed) & 1 && ((reg[1] << 1) | closed) & 2 && c != 5 && c != 6))) i = nd_pick(2);
        else if (k && !reg[0] && reg[1]) i = 1;
        switch (c) {
        case 0: fl[i] = fl_of();
            ASSUME(!(closed & (1 << i)));
            if (s_add(kq, i, fl[i], NULL) == 0) reg[i] = 1;
            break;
        case 1: s_do(kq, i, EV_DELETE); reg[i] = 0; break;
        case 2: s_do(kq, i, EV_DISABLE); break;
        case 3: s_do(kq, i, EV_ENABLE); break;
        case 4: if (IS(EVFILT_SIGNAL)) ASSUME((g_sigblock >> (s_id(i) - 1)) & 1);
                if (IS(EVFILT_PROC)) ASSUME(kproc[i].state == 1);
                s_fire(kq, i, fl[i], NULL); break;
        case 5: ev_get(kq, ev, 4); break;
        case 6: {      /* a change that fails */
                struct kevent e;
                EV_SET(&e, FILT == EVFILT_TIMER ? 0x77 : (uintptr_t)NFD - 1 + 200, FILT, EV_ADD | (FILT == EVFILT_USER ? EV_DISPATCH | EV_ONESHOT : 0),
                       FILT == EVFILT_TIMER ? NOTE_SECONDS | NOTE_USECONDS : s_ff(0), -1, NULL);
                CHECK(kevent(kq, &e, 1, ev, 4, &T0) == 1 && (ev[0].flags & EV_ERROR), "a change that cannot be made is reported");
                COVER("failing"); } break;
        case 7: ASSUME(!(closed & (1 << i))); km_close(s_fd[i]); closed |= 1 << i; COVER("closed"); break;
        }
    }
    (void)added;
    if (nd_pick(2)) {
        for (int i = 0; i < 2; i++) s_do(kq, i, EV_DELETE);
        CHECK(km_open_count() == b1, "deleting a registration gives back every descriptor taken for it");
        CHECK(g_live == l1, "deleting a registration gives back all memory taken for it");
        COVER("deleted");
    }
    km_close(kq);
    km_others();
    CHECK(km_open_count() == b0, "closing a kqueue gives back every descriptor taken for it and its registrations");
    CHECK(g_live == l0, "closing a kqueue gives back all memory taken for it and its registrations");
    CHECK(!g_close_bad, "no descriptor is closed twice");
    CHECK(!g_user_touch, "the application's descriptors are left alone");
    COVER("end");
}
