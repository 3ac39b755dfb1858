/* A wakeup that turns out not to be an event does not end the wait (C17). */
#include "hx.h"
static int fire, fired;
void h_env(int where)
{
    if (where != ENV_WAIT || !fire) return;
    fire = 0; fired = 1;
    km_vnode_event(0, IN_MODIFY);       /* written to, without growing */
}
void harness(void)
{
    struct kevent ev[2];
    struct timespec ts = { 5, 0 };
    int kq = HX_kq(), fd, n;
    ASSUME(kq >= 0);
    fd = km_user_fd(0);
    kuf[0].mode = S_IFREG; kuf[0].size = 10; kuf[0].nlink = 1;
    ASSUME(chg(kq, fd, EVFILT_VNODE, EV_ADD | EV_CLEAR, NOTE_EXTEND, 0, NULL) == 0);
    fire = 1; g_env_on = 1;
    n = kevent(kq, NULL, 0, ev, 2, nd_pick(2) ? NULL : &ts);
    CHECK(fired, "the call waits");
    CHECK(n != 0 || g_tw_n || g_blocked, "a change that is not asked for does not end the wait");
    COVER("end");
}
