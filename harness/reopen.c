/* A watched descriptor is closed by the application and its number is used again for another
 * file: changes that succeed take effect on the new file, and the old registration returns
 * nothing (C06). */
#include "hx.h"
static const unsigned short fls[] = { 0, EV_CLEAR, EV_ONESHOT, EV_DISPATCH };
#define OTHER (FILT == EVFILT_READ ? EVFILT_WRITE : EVFILT_READ)
#define BITOF(f) ((f) == EVFILT_READ ? EPOLLIN : EPOLLOUT)
void harness(void)
{
    struct kevent ev[4];
    int kq = HX_kq(), fd, n, both, del, fired, off, rc, seen = 0;
    unsigned fl, fl2;
    ASSUME(kq >= 0);
    fd = km_user_fd(0);
    kuf[0].mode = kuf[1].mode = S_IFSOCK;
    fl = fls[nd_pick(4)]; both = nd_pick(2); fired = nd_pick(2); off = nd_pick(2); del = nd_pick(2);
#ifdef DELETED
    ASSUME(del && !both);       /* nothing is left of the old registration */
#else
    ASSUME(!del || both);
#endif
    CHECK(chg(kq, fd, FILT, EV_ADD | fl, 0, 0, (void *)1) == 0, "a descriptor can be watched");
    if (both) CHECK(chg(kq, fd, OTHER, EV_ADD | fl, 0, 0, (void *)2) == 0, "a descriptor can be watched");
    if (fired) { km_ready(0, BITOF(FILT)); n = ev_get(kq, ev, 4); CHECK(n == 1 && ev[0].udata == (void *)1, "a descriptor that is ready is returned"); }
    if (off) { rc = chg(kq, fd, FILT, EV_DISABLE, 0, 0, NULL); CHECK(rc == (fired && fl == EV_ONESHOT ? ENOENT : 0), "an event can be disabled"); }
    km_close(fd);
    CHECK(ev_get(kq, ev, 4) == 0, "a closed descriptor is not returned");
    n = km_user_fd(1);
    ASSUME(n == fd);
    km_ready(1, EPOLLIN | EPOLLOUT);
    CHECK(ev_get(kq, ev, 4) == 0, "a descriptor that was not added is not returned");
    km_ready(1, 0);
    if (del) { rc = chg(kq, fd, FILT, EV_DELETE, 0, 0, NULL); CHECK(rc == 0 || rc == ENOENT, "what is left of a closed descriptor can be deleted"); COVER("deleted"); }
    fl2 = fls[nd_pick(4)];
    rc = chg(kq, fd, FILT, EV_ADD | fl2, 0, 0, (void *)3);
    if (del) CHECK(rc == 0, "a descriptor can be watched");
    if (rc == 0) {
        if (off && !del) CHECK(chg(kq, fd, FILT, EV_ENABLE, 0, 0, NULL) == 0, "an event that was added can be enabled");
        km_ready(1, BITOF(FILT));
        n = ev_get(kq, ev, 4);
        for (int i = 0; i < n; i++) { seen += ev[i].udata == (void *)3 && ev[i].filter == FILT; CHECK(ev[i].udata == (void *)3, "the old descriptor is not returned"); }
        CHECK(seen == 1, "a descriptor that was added again is returned when it is ready");
        COVER("added");
    }
    CHECK(g_locks == 0, "no lock is left held");
    COVER("end");
}
