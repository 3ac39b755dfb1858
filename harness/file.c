/* EVFILT_READ and EVFILT_WRITE on regular files (C14, C15). */
#include "hx.h"
void harness(void)
{
    struct kevent ev[3];
    struct kuf *u = &kuf[0];
    int kq = HX_kq(), fd, n, on = 1, here = 1, ended = 0;
    unsigned fl;
    uint64_t ud = nd();
    ASSUME(kq >= 0);
    fd = km_user_fd(0);
    u->mode = S_IFREG;
    u->size = (off_t)sx_nd(40); u->pos = (off_t)sx_nd(40);
    { static const unsigned k[] = { 0, EV_ONESHOT, EV_DISPATCH }; fl = k[nd_pick(3)]; }
#ifdef RD
    CHECK(chg(kq, fd, EVFILT_READ, EV_ADD | fl, 0, 0, (void *)ud) == 0, "a regular file can be watched");
    for (int r = 0; r < 3; r++) {
        n = ev_get(kq, ev, 3);
#ifndef GROW
        ASSUME(!(ended && u->pos != u->size));      /* known finding: growth after the end was reported */
#else
        if (ended) { CHECK(n == (u->pos != u->size), "a file that grows after its end was reached is returned again"); COVER("grown"); sx_stop(); }
#endif
        CHECK(n == (here && on && u->pos != u->size), "a file is returned exactly if its position is not at its end");
        if (n == 1) {
            CHECK(ev[0].ident == (uintptr_t)fd && ev[0].filter == EVFILT_READ && ev[0].udata == (void *)ud, "the event names the file");
            CHECK(ev[0].data == u->size - u->pos, "data is the distance to the end of the file");
            if (fl & EV_ONESHOT) here = 0;
            if (fl & EV_DISPATCH) on = 0;
            COVER("event");
        } else if (here && on) { ended = 1; COVER("at end"); }
        switch (nd_pick(4)) {
        case 0: u->pos = (off_t)sx_nd(40); break;
        case 1: u->size = (off_t)sx_nd(40); break;
        case 2: ASSUME(here); CHECK(chg(kq, fd, EVFILT_READ, EV_DISABLE, 0, 0, NULL) == 0, "disabling succeeds"); on = 0; break;
        case 3: ASSUME(here && !on); CHECK(chg(kq, fd, EVFILT_READ, EV_ENABLE, 0, 0, NULL) == 0, "enabling succeeds"); on = 1; ended = 0; break;
        }
    }
#else
    CHECK(chg(kq, fd, EVFILT_WRITE, EV_ADD | fl, 0, 5, (void *)ud) == 0, "a regular file can be watched");
    for (int r = 0; r < 3; r++) {
        n = ev_get(kq, ev, 3);
        CHECK(n == (here && on), "a regular file is always writable");
        if (n == 1) {
            CHECK(ev[0].ident == (uintptr_t)fd && ev[0].filter == EVFILT_WRITE && ev[0].udata == (void *)ud, "the event names the file");
            CHECK(!(ev[0].flags & (EV_EOF | EV_ERROR)), "no end or error is reported");
            if (fl & EV_ONESHOT) here = 0;
            if (fl & EV_DISPATCH) on = 0;
            COVER("event");
        }
        switch (nd_pick(3)) {
        case 0: break;
        case 1: ASSUME(here); CHECK(chg(kq, fd, EVFILT_WRITE, EV_DISABLE, 0, 0, NULL) == 0, "disabling succeeds"); on = 0; break;
        case 2: ASSUME(here && !on); CHECK(chg(kq, fd, EVFILT_WRITE, EV_ENABLE, 0, 0, NULL) == 0, "enabling succeeds"); on = 1; break;
        }
    }
#endif
    if (here) CHECK(chg(kq, fd, FILT, EV_DELETE, 0, 0, NULL) == 0, "deleting succeeds");
    CHECK(!g_user_touch, "the file itself and its position are left alone");
    CHECK(km_kind_count(K_EVENTFD) == 0, "no descriptor is left over");
    COVER("end");
}
