/* The limit on descriptors is changed after the library was first used (C19): a kqueue that gets a number above
 * the limit at that time works, or kqueue() fails and leaves nothing behind. */
#include "hx.h"
int mk_eventfd(unsigned v, int fl); int mk_close(int fd);
static int works(int q, int id)
{
    struct kevent ev[2];
    CHECK(chg(q, id, EVFILT_USER, EV_ADD | EV_ONESHOT, NOTE_TRIGGER, 0, (void *)(intptr_t)(id + 1)) == 0, "a kqueue that was made takes changes");
    CHECK(ev_get(q, ev, 2) == 1 && ev[0].ident == (uintptr_t)id && ev[0].udata == (void *)(intptr_t)(id + 1), "a kqueue that was made returns its events");
    return 1;
}
void harness(void)
{
    int k1, k2, fds[NFD], n = 0, high, open0, restart, top, lim0;
    km_init();
    g_rlim = 9 + nd_pick(6);
    lim0 = g_rlim;
    k1 = kqueue(); ASSUME(k1 >= 0);
    works(k1, 1);
    restart = nd_pick(2);       /* the last kqueue is closed, so that the clean-up thread starts again later */
    if (restart) { km_close(k1); km_others(); }
    if (nd_pick(2)) g_rlim = NFD; else g_rlim += nd_pick(3);
    top = nd_pick(NFD - 6);
    for (int i = 0; i < top; i++) { fds[n] = mk_eventfd(0, 0); if (fds[n] < 0) break; n++; }
    open0 = km_open_count();
    k2 = kqueue();
    if (k2 >= 0) {
        COVER("made");
        if (k2 >= lim0) COVER("high");
        for (int i = 0; i < n; i++) mk_close(fds[i]);
        n = 0; g_rlim = NFD;
        works(k2, 2);
        if (!restart) works(k1, 3);
        km_close(k2); km_others();
    } else {
        COVER("refused");
        if (!restart) CHECK(km_open_count() == open0, "a kqueue() that fails leaves no descriptor open");
    }
    for (int i = 0; i < n; i++) mk_close(fds[i]);
    g_rlim = NFD;
    if (!restart) { works(k1, 4); km_close(k1); km_others(); }
    km_others();
    CHECK(g_locks == 0, "no lock is left held");
    CHECK(km_open_count() == 0 && km_mon_running() == 0, "everything is given back in the end");
    k2 = kqueue();
    CHECK(k2 >= 0, "a kqueue can be made afterwards");
    works(k2, 5); km_close(k2); km_others();
    COVER("end");
}
