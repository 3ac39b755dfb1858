/* One thread waits on a kqueue without a limit while others use the library (C26).
 * default:  calls on other kqueues, and making kqueues, do not wait for it
 * -DSAME:   a change of the same kqueue does not wait for it either, and a trigger ends the wait
 * -DBEHIND: while one thread is held up by a call on the kqueue being waited on, others go on with other kqueues
 */
#include "hx.h"
static int kq, k2, op, ufd, w_rc = -9, b_done, c_done;
static struct kevent wev[2];
static void *waiter(void *a) { w_rc = kevent(kq, NULL, 0, wev, 2, NULL); return NULL; }
static void use_other(void)
{
    struct kevent ev[2];
    int q;
    switch (op) {
    case 0:
        q = kqueue();
        CHECK(q >= 0, "a kqueue can be made while another is waited on");
        CHECK(chg(q, 7, EVFILT_USER, EV_ADD | EV_CLEAR, NOTE_TRIGGER, 0, (void *)0x70) == 0, "a kqueue can be changed while another is waited on");
        CHECK(ev_get(q, ev, 2) == 1 && ev[0].ident == 7 && ev[0].udata == (void *)0x70, "a kqueue returns its events while another is waited on");
        km_close(q);
        break;
    case 1:
        CHECK(chg(k2, 7, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)0x71) == 0, "a kqueue can be changed while another is waited on");
        CHECK(ev_get(k2, ev, 2) == 1 && ev[0].ident == 7 && ev[0].udata == (void *)0x71, "a kqueue returns its events while another is waited on");
        break;
    case 2:
        CHECK(kevent(k2, NULL, 0, ev, 2, &(struct timespec){ 0, 5000000 }) == 0, "a wait of some length ends while another kqueue is waited on");
        break;
    case 3:
        km_close(k2);
        break;
    }
}
static void *user(void *a) { use_other(); b_done = 1; return NULL; }
static void *same(void *a)
{
    CHECK(chg(kq, 5, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)0x5) == 0, "a change made while a thread waits is accepted");
    c_done = 1;
    return NULL;
}
void harness(void)
{
    int w, b, c = -1, lim = nd_pick(2);
    km_init();
    kq = kqueue(); ASSUME(kq >= 0);
    k2 = kqueue(); ASSUME(k2 >= 0);
    ufd = km_user_fd(0); kuf[0].mode = S_IFSOCK; kuf[0].inq = 3;
    CHECK(chg(kq, 5, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, (void *)0x5) == 0, "add");
    CHECK(chg(kq, ufd, EVFILT_READ, EV_ADD, 0, 0, (void *)0x6) == 0, "add");
    CHECK(chg(k2, 7, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, (void *)0x7) == 0, "add");
    w = km_spawn(waiter, NULL);
    if (lim) { g_preempt = 1; g_preempt_sys = 1; }
    km_step(w);
    op = nd_pick(4);
#ifdef SAME
    c = km_spawn(same, NULL);
    km_step(c);
    if (lim) km_step(w);
    g_preempt = 0;
    km_others();
    CHECK(c_done, "a change by another thread takes effect while a thread waits");
    CHECK(km_done(w) && w_rc == 1 && wev[0].ident == 5, "a trigger by another thread ends the wait");
    COVER("end");
    sx_stop();
#endif
#ifdef BEHIND
    c = km_spawn(same, NULL);
    km_step(c);
#endif
    b = km_spawn(user, NULL);
    km_step(b);
    if (!km_done(b)) km_step(w);        /* the processor was taken away; the waiter goes on to its wait */
    g_preempt = 0;
    km_others();
    CHECK(b_done, "calls on other kqueues do not wait for a thread that waits");
#ifdef BEHIND
    COVER("end"); sx_stop();
#endif
    if (!km_done(w)) {
        COVER("waiting");
        km_ready(0, EPOLLIN);
        km_others();
    }
    CHECK(km_done(w) && w_rc == 1 && wev[0].udata == (void *)0x6, "the wait ends with its event");
    km_close(kq); if (op != 3) km_close(k2);
    km_others();
    CHECK(g_locks == 0, "no lock is left held");
    CHECK(km_open_count() == 0 && km_mon_running() == 0, "everything is given back in the end");
    COVER("end");
}
