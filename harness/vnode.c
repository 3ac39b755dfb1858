/* File changes and the events that report them (C13). */
#include "hx.h"
#ifndef NOPS
#define NOPS 3
#endif
#define ALLN (NOTE_DELETE | NOTE_WRITE | NOTE_EXTEND | NOTE_ATTRIB | NOTE_LINK | NOTE_RENAME)
static int kq, fd, here = 1, on = 1;
static unsigned ff, fl, must, might;
static off_t size0;                     /* size and links at the last report */
static nlink_t link0;
static uint64_t ud;

static void change(void)
{
    struct kuf *u = &kuf[0];
    unsigned m = 0, p = 0;
    uint32_t in = 0;
    switch (nd_pick(8)) {
    case 0: in = IN_MODIFY; m = NOTE_WRITE; COVER("write"); break;                          /* overwrite in place */
    case 1: u->size += 1 + sx_nd(16); in = IN_MODIFY; m = NOTE_WRITE; COVER("grow"); break;
    case 2: u->size = sx_nd(4); in = IN_MODIFY; m = NOTE_WRITE; break;                       /* truncate or so */
    case 3: in = IN_ATTRIB; m = NOTE_ATTRIB; COVER("attrib"); break;
    case 4: ASSUME(u->nlink > 0); u->nlink++; in = IN_ATTRIB; p = NOTE_ATTRIB; COVER("link"); break;
    case 5: ASSUME(u->nlink > 0); u->nlink--; in = IN_ATTRIB; p = NOTE_ATTRIB; COVER("unlink"); break;
    case 6: in = IN_MOVE_SELF; m = NOTE_RENAME; COVER("rename"); break;
    case 7: { static const uint32_t o[] = { IN_OPEN, IN_ACCESS, IN_CLOSE_WRITE, IN_CLOSE_NOWRITE }; in = o[nd_pick(4)]; COVER("other"); } break;
    }
    km_vnode_event(0, in);
    if (!here || !on) return;
    must |= m & ff;
    might |= (m | p) & ff;
}
/* drain, as an application does: wait until nothing is left */
static void drain(void)
{
    struct kevent ev[2];
    unsigned got = 0, lo = must, hi = might;
    int n, rounds = 0, any = 0;
    /* the link count and the size are compared with the last report */
    if (here && on) {
        if (kuf[0].nlink != link0) { lo |= ff & NOTE_LINK; hi |= ff & NOTE_LINK; }
        if (kuf[0].nlink == 0) { if (link0 != 0) lo |= ff & NOTE_DELETE; hi |= ff & NOTE_DELETE; }
        if (kuf[0].size > size0) { lo |= ff & NOTE_EXTEND; if (ff & (NOTE_EXTEND | NOTE_WRITE)) hi |= NOTE_EXTEND; }
    }
    for (;;) {
        n = ev_get(kq, ev, 2);
        CHECK(n >= 0 && n <= 1, "a wait returns a file's event or nothing");
        if (n == 1) {
            CHECK(here && on, "only an enabled registration is returned");
            CHECK(ev[0].ident == (uintptr_t)fd && ev[0].filter == EVFILT_VNODE && ev[0].udata == (void *)ud, "the event names the descriptor and carries the user data");
            CHECK(ev[0].fflags != 0, "an event says what happened");
            CHECK((ev[0].fflags & ~hi) == 0, "an event only names changes that were asked for and that happened");
            got |= ev[0].fflags;
            any = 1;
            COVER("event");
            if (fl & EV_ONESHOT) { here = 0; break; }
            if (fl & EV_DISPATCH) { on = 0; break; }
        } else if (km_find(K_INOTIFY, 0) < 0 || !kfd[km_find(K_INOTIFY, 0)].cnt) break;
        if (++rounds > NOPS + 1) { CHECK(0, "reading the events of a file comes to an end"); break; }
    }
    if (here && on) CHECK((lo & ~got) == 0, "every change that was asked for is reported");
    else if (any) CHECK(lo == 0 || got != 0, "the change is reported");
    must = might = 0;
    size0 = kuf[0].size; link0 = kuf[0].nlink;
}
void harness(void)
{
    kq = HX_kq();
    ASSUME(kq >= 0);
    fd = km_user_fd(0);
    kuf[0].mode = S_IFREG; kuf[0].size = 10; kuf[0].nlink = 1 + nd_pick(2);
    ff = sx_nd(32) & ALLN;
#ifdef ONLY
    ff &= ONLY;
#endif
#ifdef KIND
    fl = KIND;
#else
    { static const unsigned k[] = { EV_CLEAR, 0, EV_ONESHOT, EV_DISPATCH }; fl = k[nd_pick(4)]; }
#endif
    ud = nd();
#ifndef KIND
    if (nd_pick(2)) {       /* changes before the registration do not count */
        km_vnode_event(0, IN_MODIFY); kuf[0].size = 20;
    }
#endif
    CHECK(chg(kq, fd, EVFILT_VNODE, EV_ADD | fl, ff, 0, (void *)ud) == 0, "an open file can be watched");
    size0 = kuf[0].size; link0 = kuf[0].nlink;
    for (int k = 0; k < NOPS; k++) {
        if (nd_pick(3) < 2) change(); else drain();
    }
    drain();
    CHECK(!g_user_touch, "the watched descriptor itself is left alone");
    COVER("end");
}
