/* How long a call waits (C17). */
#include "hx.h"
static int kq, fire, u_fired;
void h_env(int where)
{
    if (where != ENV_WAIT || !fire) return;
    fire = 0; u_fired = 1;
    km_ready(0, EPOLLIN);
}
void harness(void)
{
    struct timespec ts, ts0;
    struct kevent ch[2], ev[3];
    int fd, n, inf, nch = 0, nev, early, err, t = 0;
    long q, r;
    int nz;
    kq = HX_kq();
    ASSUME(kq >= 0);
    fd = km_user_fd(0);
    kuf[0].mode = S_IFSOCK; kuf[0].inq = 5;
    ASSUME(chg(kq, fd, EVFILT_READ, EV_ADD | (nd_pick(2) ? EV_CLEAR : 0), 0, 0, NULL) == 0);
    g_waits = 0;
    inf = nd_pick(2);
#ifdef LONG
    ts.tv_sec = 2000000 + (int64_t)sx_nd(32);
#else
    ts.tv_sec = (int64_t)sx_nd(21);
#endif
    q = (long)nd_below(1000); r = nd_pick(2) ? (long)nd_below(1000000) : 0;
    ts.tv_nsec = q * 1000000 + r;
    nz = ts.tv_sec != 0 || ts.tv_nsec != 0;
    ts0 = ts;
    early = nd_pick(3);         /* ready before, during, never */
    if (early == 0) km_ready(0, EPOLLIN);
    if (early == 1) { fire = 1; g_env_on = 1; ASSUME(inf || nz); }
    err = early == 2 ? nd_pick(2) : 0;
    if (err) g_wait_err = EINTR;
    nev = nd_pick(3);
    switch (nd_pick(4)) {
    case 0: break;
    case 1: EV_SET(&ch[0], 1, EVFILT_USER, EV_ADD, 0, 0, NULL); nch = 1; break;
    case 2: EV_SET(&ch[0], 1, EVFILT_USER, EV_ADD | EV_RECEIPT, 0, 0, NULL); nch = 1; t = 1; break;
    case 3: EV_SET(&ch[0], 1, EVFILT_USER, EV_DELETE, 0, 0, NULL); nch = 1; t = 1; break;
    }
    errno = 0;
    n = kevent(kq, nch ? ch : NULL, nch, ev, nev, inf ? NULL : &ts);
    int en = errno;
    CHECK(ts.tv_sec == ts0.tv_sec && ts.tv_nsec == ts0.tv_nsec, "the timeout is not modified");
    if (t) {
        CHECK(g_waits == 0 && n == (nev ? 1 : -1), "a call with something to report about its changes does not wait");
        COVER("report");
    } else if (nev == 0) {
        CHECK(g_waits == 0 && n == 0, "a call without room for events does not wait");
        COVER("no room");
    } else if (err) {
        CHECK(n == -1 && en == EINTR, "an interrupted wait fails with EINTR");
        COVER("interrupted");
    } else if (early == 0) {
        CHECK(n == 1, "a call returns at once if an event is pending");
        CHECK(g_tw_n == 0 && !g_wait_inf, "a call returns at once if an event is pending");
        COVER("pending");
    } else if (early == 1) {
        CHECK(u_fired, "the call waits");
        CHECK(n == 1 && ev[0].ident == (uintptr_t)fd, "a call that is waiting returns an event that arises meanwhile");
        COVER("meanwhile");
    } else if (inf) {
        CHECK(g_wait_inf && g_blocked, "without a timeout the call waits until there is an event");
        COVER("forever");
    } else {
        CHECK(n == 0, "a call returns 0 when its time is up");
        CHECK(!g_wait_inf && g_tw_n == (nz ? 1 : 0), "the call waits once, unless the time is zero");
        if (g_tw_n == 1 && g_tw_kind == 1) {
            CHECK(g_tw_ms >= ts0.tv_sec * 1000 + q + (r != 0), "a call does not return before its time is up");
            CHECK(g_tw_ms <= ts0.tv_sec * 1000 + q + 1, "a call does not wait longer than asked for");
            COVER("milliseconds");
        }
        if (g_tw_n == 1 && g_tw_kind == 2) {
            CHECK(g_tw_ts.tv_sec == ts0.tv_sec && g_tw_ts.tv_nsec >= ts0.tv_nsec, "a call does not return before its time is up");
            CHECK(g_tw_ts.tv_nsec - ts0.tv_nsec <= 1000000, "a call does not wait longer than asked for");
            COVER("fine");
        }
        COVER("time up");
    }
    COVER("end");
}
