/* Changes that name nothing that exists (C22): any 64-bit identifier, any flags. */
#include "src.h"
void harness(void)
{
    struct kevent ev[2], k;
    int kq = HX_kq(), open0, live0, n, r;
    uint64_t id;
    unsigned fl;
    ASSUME(kq >= 0);
    s_setup();
    CHECK(s_add(kq, 0, 0, (void *)0x11) == 0, "an existing source can be registered");
    open0 = km_open_count(); live0 = g_live;
#ifdef ABSENT       /* a change without EV_ADD, of something that could be registered but is not */
    fl = sx_nd(16) & (EV_DELETE | EV_ENABLE | EV_DISABLE | EV_CLEAR | EV_ONESHOT | EV_DISPATCH);
    ASSUME(!((fl & EV_ONESHOT) && (fl & EV_DISPATCH)));
    EV_SET(&k, s_id(1), FILT, fl, s_ff(1) | (IS(EVFILT_USER) && nd_pick(2) ? NOTE_TRIGGER : 0), s_data(1), (void *)nd());
    if (nd_pick(2)) k.ident = nd(), ASSUME(k.ident != s_id(0));
    id = k.ident;
    if (nd_pick(2)) {
        errno = 0;
        CHECK(kevent(kq, &k, 1, NULL, 0, &T0) == -1 && errno == ENOENT, "a change of what does not exist is refused with ENOENT");
        COVER("no room");
    } else {
        r = kevent(kq, &k, 1, ev, 1, &T0);
        CHECK(r == 1 && (ev[0].flags & EV_ERROR) && ev[0].data == ENOENT && ev[0].ident == id && ev[0].filter == FILT, "a change of what does not exist is reported with ENOENT");
        COVER("reported");
    }
    CHECK(km_open_count() == open0 && g_live == live0, "a refused change leaves nothing behind");
    if (id == s_id(1)) {
        s_fire(kq, 1, 0, (void *)0x22);
        CHECK(ev_get(kq, ev, 2) == 0, "a refused change registers nothing");
        if (!IS(EVFILT_PROC) || kproc[1].state == 1) CHECK(s_add(kq, 1, EV_ONESHOT, (void *)0x22) == 0 && s_do(kq, 1, EV_DELETE) == 0, "it can be added later");
    }
#else
    id = nd();
    EV_SET(&k, id, FILT, EV_ADD | (sx_nd(16) & (EV_ENABLE | EV_DISABLE | EV_CLEAR | EV_ONESHOT | EV_DISPATCH | EV_RECEIPT)), sx_nd(32), nd(), (void *)nd());
    fl = k.flags;
    switch (FILT) {
    case EVFILT_READ: case EVFILT_WRITE: case EVFILT_VNODE:
        ASSUME(id > INT_MAX || id >= NFD || kfd[id].kind == K_FREE);
        break;
    case EVFILT_PROC: ASSUME(id != 77 && id != 78); k.fflags |= NOTE_EXIT; break;
    case EVFILT_SIGNAL: ASSUME(id == 0 || id > 64); break;
    }
#ifdef ANYFILT
    k.filter = (short)sx_nd(16);
    ASSUME(k.filter > -1 || k.filter < -12 || k.filter == EVFILT_AIO || k.filter == EVFILT_NETDEV || k.filter == EVFILT_FS || k.filter == EVFILT_LIO);
#endif
    errno = 0;
    if (nd_pick(2)) {
        r = kevent(kq, &k, 1, NULL, 0, &T0);
        CHECK(r == -1 && errno != 0, "the change is refused");
        COVER("no room");
    } else {
        r = kevent(kq, &k, 1, ev, 1, &T0);
        CHECK(r == 1 && (ev[0].flags & EV_ERROR) && ev[0].data != 0 && ev[0].ident == id && ev[0].filter == k.filter, "the change is reported as refused");
        COVER("reported");
    }
    CHECK(km_open_count() == open0 && g_live == live0, "a refused change leaves nothing behind");
    CHECK(!g_user_touch && !g_close_bad, "a refused change touches no descriptor of the application");
#endif
    k.flags = EV_DELETE;
    CHECK(kevent(kq, &k, 1, NULL, 0, &T0) == -1, "a refused change registers nothing");
    s_fire(kq, 0, 0, (void *)0x11);
    n = ev_get(kq, ev, 2);
    CHECK(n == 1 && ev[0].ident == s_id(0) && ev[0].filter == FILT && ev[0].udata == (void *)0x11, "the existing registration is not affected");
    CHECK(s_do(kq, 0, EV_DELETE) == (IS(EVFILT_PROC) ? ENOENT : 0), "the existing registration can be deleted");
    COVER("end");
}
