/* User events: the filter-flag algebra and triggering (C10). */
#include "hx.h"
#ifndef NMOD
#define NMOD 3
#endif
#define IDENT 0xfedcba9876543210ULL
static const unsigned kinds[] = { 0, EV_CLEAR, EV_ONESHOT, EV_DISPATCH };
void harness(void)
{
    int kq = HX_kq(), kind, here = 1, on = 1, trig, n;
    unsigned fl;
    uint32_t ff, m;
    void *ud = (void *)nd();
    struct kevent ev[2];
    ASSUME(kq >= 0);
    kind = nd_pick(4); fl = kinds[kind];
    ff = sx_nd(32) & (NOTE_FFCTRLMASK | NOTE_TRIGGER | NOTE_FFLAGSMASK);
    ASSUME(chg(kq, IDENT, EVFILT_USER, EV_ADD | fl, ff, nd(), ud) == 0);
    m = ff & NOTE_FFLAGSMASK;
    trig = (ff & NOTE_TRIGGER) != 0;
    /* another event that nobody triggers */
    ASSUME(chg(kq, (uint32_t)IDENT, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, NULL) == 0);
    for (int k = 0; k < NMOD; k++) {
        switch (nd_pick(4)) {
        case 0:     /* modify */
            ASSUME(here);
            ff = sx_nd(32) & (NOTE_FFCTRLMASK | NOTE_TRIGGER | NOTE_FFLAGSMASK);
            ud = (void *)nd();
            CHECK(chg(kq, IDENT, EVFILT_USER, EV_ADD | fl, ff, nd(), ud) == 0, "modifying a user event succeeds");
            switch (ff & NOTE_FFCTRLMASK) {
            case NOTE_FFAND: m &= ff & NOTE_FFLAGSMASK; COVER("and"); break;
            case NOTE_FFOR: m |= ff & NOTE_FFLAGSMASK; COVER("or"); break;
            case NOTE_FFCOPY: m = ff & NOTE_FFLAGSMASK; COVER("copy"); break;
            }
            if (on && (ff & NOTE_TRIGGER)) trig = 1;
            break;
        case 1:     /* wait */
            n = ev_get(kq, ev, 2);
            CHECK(n == (here && on && trig), "a user event is returned exactly if it was triggered");
            if (n == 1) {
                CHECK(ev[0].ident == IDENT && ev[0].filter == EVFILT_USER, "the triggered event and no other is returned");
                CHECK(ev[0].fflags == m, "filter flags are those stored, combined as each change asked, without control bits");
                CHECK(ev[0].udata == ud, "user data of the last change");
                if (kind) trig = 0;
                if (fl & EV_ONESHOT) here = 0;
                if (fl & EV_DISPATCH) on = 0;
                COVER("event");
            }
            break;
        case 2:     /* enable / disable */
            ASSUME(here);
            if (nd_pick(2)) { CHECK(chg(kq, IDENT, EVFILT_USER, EV_ENABLE, 0, 0, NULL) == 0, "enabling succeeds"); on = 1; }
            else { CHECK(chg(kq, IDENT, EVFILT_USER, EV_DISABLE, 0, 0, NULL) == 0, "disabling succeeds"); on = 0; }
            break;
        case 3:     /* trigger without other changes */
            ASSUME(here && on);
            CHECK(chg(kq, IDENT, EVFILT_USER, (fl & EV_DISPATCH) ? EV_ADD | fl : 0, NOTE_FFNOP | NOTE_TRIGGER, 0, ud) == 0, "triggering succeeds");
            trig = 1;
            break;
        }
    }
    n = ev_get(kq, ev, 2);
    CHECK(n == (here && on && trig), "a user event is returned exactly if it was triggered");
    if (n == 1) CHECK(ev[0].fflags == m, "filter flags are those stored, combined as each change asked, without control bits");
    COVER("end");
}
