/* A kqueue is closed while another thread is about to use it, or in a call (C26): every call returns, nothing is used
 * after it was freed, other kqueues (also one that gets the same number) are not affected. -DTOGGLE: the thread-safe
 * setting is switched instead of closing. */
#include "src.h"
#ifndef PRE
#define PRE 1
#endif
static int kq, k2, k3 = -1, op, rc = -9, fin, re, tog;
static struct kevent got[2];
static void works(int q, int id)
{
    struct kevent ev[4];
    int n, seen = 0;
    CHECK(chg(q, id, EVFILT_USER, EV_ADD | EV_ONESHOT, NOTE_TRIGGER, 0, (void *)0x77) == 0, "an open kqueue takes changes");
    n = ev_get(q, ev, 4);
    for (int i = 0; i < n; i++) seen += ev[i].ident == (uintptr_t)id && ev[i].filter == EVFILT_USER && ev[i].udata == (void *)0x77;
    CHECK(seen == 1, "an open kqueue returns its events");
}
static void *user(void *a)
{
    switch (op) {
    case 0: rc = s_add(kq, 0, 0, (void *)1); break;
    case 1: rc = s_add(kq, 1, EV_ONESHOT, (void *)1); break;
    case 2: rc = s_do(kq, 0, EV_DELETE); break;
    case 3: rc = s_do(kq, 0, EV_DISABLE); break;
    case 4: rc = ev_get(kq, got, 2); break;
    }
    fin = 1;
    return NULL;
}
static void *closer(void *a)
{
#ifdef TOGGLE
    struct kevent k;
    EV_SET(&k, 1, EVFILT_LIBKQUEUE, EV_ADD, NOTE_THREAD_SAFE, tog, 0);
    CHECK(kevent(k2, &k, 1, NULL, 0, &T0) == 0, "the thread-safe setting can be switched");
#else
    km_close(kq);
    if (re) { k3 = kqueue(); CHECK(k3 >= 0, "a kqueue can be made"); works(k3, 31); }
#endif
    return NULL;
}
void harness(void)
{
    int a, b, pend;
    kq = HX_kq(); ASSUME(kq >= 0);
    k2 = kqueue(); ASSUME(k2 >= 0);
    s_setup();
    CHECK(s_add(kq, 0, 0, (void *)5) == 0, "add");
    pend = nd_pick(2);
    if (pend) s_fire(kq, 0, 0, (void *)5);
    op = nd_pick(5); re = op < 4 && nd_pick(2);     /* a wait may end up on the new kqueue */ tog = nd_pick(2);
    g_preempt = PRE; g_preempt_sys = 1;
    a = km_spawn(user, NULL); b = km_spawn(closer, NULL);
    if (nd_pick(2)) km_step(b);
    km_join(a); km_join(b);
    g_preempt = 0;
    km_others();
    CHECK(fin, "the call returns");
    CHECK(op == 4 ? rc >= -1 && rc <= 2 : rc != -9, "the call returns a result");
    CHECK(g_locks == 0, "no lock is left held");
#ifdef TOGGLE
    if (op < 4 && !(op == 0 && !IS(EVFILT_USER))) CHECK(rc == 0, "a change is not affected by another thread's setting");
    if (op == 4) CHECK(rc == pend, "a wait is not affected by another thread's setting");
    works(kq, 33);
    km_close(kq); km_others();
#endif
    works(k2, 32);
    if (k3 >= 0) { works(k3, 34); km_close(k3); km_others(); }
    km_close(k2); km_others();
    CHECK(!g_close_bad && !g_user_touch, "no descriptor is closed twice");
    CHECK(km_open_count() == 0 && km_mon_running() == 0, "everything is given back in the end");
    COVER("end");
}
