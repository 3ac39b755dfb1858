/* Event lists of every size against more ready sources than fit (C02): two sockets
 * watched for reading and writing, a timer, a user event and a process. */
#include "hx.h"
#ifndef TOTAL
#define TOTAL 600
#endif
static struct kevent l[TOTAL + 2];
void harness(void)
{
    static const int sizes[] = { 0, 1, 2, 3, 4, 5, 7, 511, 512, 513, TOTAL };
    int kq = HX_kq(), f0, f1, n, rv, tot = 0;
    ASSUME(kq >= 0);
    f0 = km_user_fd(0); f1 = km_user_fd(1);
    kuf[0].mode = kuf[1].mode = S_IFSOCK;
    kproc[0].pid = 77; kproc[0].state = 1;
    if (nd_bool()) { ASSUME(chg(kq, f0, EVFILT_READ, EV_ADD | (nd_bool() ? EV_CLEAR : 0), 0, 0, NULL) == 0); }
    if (nd_bool()) { ASSUME(chg(kq, f0, EVFILT_WRITE, EV_ADD | (nd_bool() ? EV_ONESHOT : 0), 0, 0, NULL) == 0); }
    if (nd_bool()) { ASSUME(chg(kq, f1, EVFILT_WRITE, EV_ADD, 0, 0, NULL) == 0); }
    if (nd_bool()) { ASSUME(chg(kq, f1, EVFILT_READ, EV_ADD | (nd_bool() ? EV_DISPATCH : 0), 0, 0, NULL) == 0); }
    if (nd_bool()) { ASSUME(chg(kq, 5, EVFILT_USER, EV_ADD, NOTE_TRIGGER, 0, NULL) == 0); }
    if (nd_bool()) { ASSUME(chg(kq, 5, EVFILT_TIMER, EV_ADD, 0, 10, NULL) == 0); km_timer_fire(km_find(K_TIMER, 0), 2); }
    if (nd_bool()) { ASSUME(chg(kq, 77, EVFILT_PROC, EV_ADD, NOTE_EXIT, 0, NULL) == 0); km_exit(0, CLD_EXITED, 1); }
    km_ready(0, EPOLLIN | EPOLLOUT);
    km_ready(1, sx_nd(5) & (EPOLLIN | EPOLLOUT | EPOLLHUP));
    n = sizes[nd_pick(sizeof(sizes) / sizeof(sizes[0]))];
    for (int i = 0; i < TOTAL + 2; i++) l[i].filter = 99;
    for (int round = 0; round < 2; round++) {
        rv = kevent(kq, NULL, 0, n || nd_bool() ? l + 1 : NULL, n, &T0);
        CHECK(rv >= 0 && rv <= n && rv <= 512, "no more events are returned than there is room for");
        CHECK(g_wait_max <= 512 && g_wait_max <= n, "no more events are asked for than there is room for");
        CHECK(l[0].filter == 99 && l[n < TOTAL ? n + 1 : TOTAL + 1].filter == 99, "nothing outside the event list is written");
        for (int i = 0; i < rv && i < 8; i++) {
            CHECK(l[1 + i].filter != 99 && l[1 + i].filter != 0, "every counted entry was filled in");
            l[1 + i].filter = 99;
        }
        for (int i = 1; i <= 8 && i <= n; i++) CHECK(i <= rv || l[i].filter == 99, "entries that are not counted are not written");
        tot += rv;
    }
    if (tot) COVER("events");
    COVER("end");
}
