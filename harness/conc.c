/* Two threads use the library at the same time (C26): what their calls return, and what is pending
 * afterwards, is what some order of the calls, made one after the other, would give. */
#include "src.h"
#ifndef NOPS
#define NOPS 1                  /* calls per thread */
#endif
#ifndef PRE
#define PRE 2
#endif
#define STICKY (IS(EVFILT_READ) || IS(EVFILT_WRITE) || IS(EVFILT_PROC) || IS(EVFILT_SIGNAL))    /* the condition outlives the registration */
#define NOMOD (IS(EVFILT_READ) || IS(EVFILT_WRITE) || IS(EVFILT_VNODE))                        /* registrations that cannot be changed */
enum { ADD, DEL, WAIT, TRIG, DIS, EN, NEW };
struct op { int kind, q, i, room, rc; struct kevent ev[2]; };
struct reg { int ex, en, pend, cond; uint64_t ud; };
static struct op ops[2][NOPS];
static struct reg reg[2][2];
static unsigned fl[2];
static int kq[2], fin[2], q_of[2];
static uint64_t myud(int t) { return t ? 0xb0 : 0xa0; }

static void run(int t, struct op *o)
{
    int q;
    struct kevent ev[2];
    switch (o->kind) {
    case ADD:  o->rc = s_add(kq[o->q], o->i, fl[o->i], (void *)myud(t)); break;
    case DEL:  o->rc = s_do(kq[o->q], o->i, EV_DELETE); break;
    case DIS:  o->rc = s_do(kq[o->q], o->i, EV_DISABLE); break;
    case EN:   o->rc = s_do(kq[o->q], o->i, EV_ENABLE); break;
    case TRIG: o->rc = chg(kq[o->q], s_id(o->i), FILT, 0, NOTE_TRIGGER, 0, (void *)myud(t)); break;
    case WAIT: o->rc = ev_get(kq[o->q], o->ev, o->room); break;
    case NEW:
        q = kqueue();
        CHECK(q >= 0 && q != kq[0] && q != kq[1], "a thread can make a kqueue");
        CHECK(chg(q, 7, EVFILT_USER, EV_ADD | EV_CLEAR, NOTE_TRIGGER, 0, (void *)myud(t)) == 0, "a thread can use its own kqueue");
        CHECK(ev_get(q, ev, 2) == 1 && ev[0].ident == 7 && ev[0].udata == (void *)myud(t), "a thread gets the events of its own kqueue");
        km_close(q);
        COVER("own kqueue");
        break;
    }
}
static void *worker(void *a)
{
    int t = (int)(intptr_t)a;
    for (int k = 0; k < NOPS; k++) run(t, &ops[t][k]);
    fin[t] = 1;
    return NULL;
}
static int ready(struct reg *r) { return r->ex && r->en && (r->pend || (STICKY && r->cond)); }
/* would the call give this, now? */
static int step(struct reg m[2][2], int t, struct op *o)
{
    struct reg *r = &m[o->q][o->i];
    int n;
    switch (o->kind) {
    case ADD:
        if (r->ex && NOMOD) return o->rc != 0;
        if (!r->ex) r->ex = r->en = 1, r->pend = 0;
        if (IS(EVFILT_TIMER)) r->pend = 0;
        r->ud = myud(t);
        return o->rc == 0;
    case DEL:  n = r->ex; r->ex = 0; return o->rc == (n ? 0 : ENOENT);
    case DIS:  if (r->ex) r->en = 0; return o->rc == (r->ex ? 0 : ENOENT);
    case EN:   if (r->ex) r->en = 1; return o->rc == (r->ex ? 0 : ENOENT);
    case TRIG: if (r->ex) { if (r->en) r->pend = 1; r->ud = myud(t); } return o->rc == (r->ex ? 0 : ENOENT);
    case WAIT:
        r = m[o->q];
        n = ready(&r[0]) + ready(&r[1]);
        if (o->rc != (n < o->room ? n : o->room)) return 0;
        for (int e = 0; e < o->rc; e++) {
            int i = o->ev[e].ident == s_id(0) ? 0 : 1;
            if (o->ev[e].ident != s_id(i) || o->ev[e].filter != FILT || o->ev[e].udata != (void *)r[i].ud || !ready(&r[i])) return 0;
            if (e && o->ev[0].ident == o->ev[1].ident) return 0;
        }
        for (int e = 0; e < o->rc; e++) {
            int i = o->ev[e].ident == s_id(0) ? 0 : 1;
            if (fl[i] & (EV_CLEAR | EV_ONESHOT)) r[i].pend = 0;
            if (fl[i] & EV_ONESHOT) r[i].ex = 0;
            if (IS(EVFILT_PROC)) r[i].ex = 0;
            if (IS(EVFILT_SIGNAL)) m[0][i].cond = m[1][i].cond = 0;
        }
        return 1;
    }
    return 1;
}
static int order(struct reg m0[2][2], int a, int b, struct op *drain)
{
    struct reg m[2][2];
    if (a == NOPS && b == NOPS) {
        memcpy(m, m0, sizeof m);
        return step(m, 0, &drain[0]) && step(m, 0, &drain[1]);
    }
    if (a < NOPS) { memcpy(m, m0, sizeof m); if (step(m, 0, &ops[0][a]) && order(m, a + 1, b, drain)) return 1; }
    if (b < NOPS) { memcpy(m, m0, sizeof m); if (step(m, 1, &ops[1][b]) && order(m, a, b + 1, drain)) return 1; }
    return 0;
}
void harness(void)
{
    struct op drain[2];
    int th[2], two = 0;
    kq[0] = HX_kq(); kq[1] = -1;
    ASSUME(kq[0] >= 0);
    s_setup();
#ifdef OWNQ
    q_of[1] = OWNQ;
#else
    q_of[1] = nd_pick(2);
#endif
    ASSUME(!(IS(EVFILT_SIGNAL) && q_of[1]));    /* both kqueues report a signal, or one does */
    if (q_of[1]) { kq[1] = kqueue(); ASSUME(kq[1] >= 0); two = 1; }
    for (int i = 0; i < 2; i++) fl[i] = i ? EV_CLEAR : (IS(EVFILT_READ) || IS(EVFILT_WRITE)) ? EV_ONESHOT : (int[]){ EV_CLEAR, EV_ONESHOT }[nd_pick(2)];
    if (IS(EVFILT_READ) || IS(EVFILT_WRITE)) fl[1] = 0;
    for (int i = 0; i < 2; i++) {
        struct reg *r = &reg[0][i];
        if (i == 0 ? nd_pick(2) : 1) {
            r->ex = r->en = 1; r->ud = 0x10 + i;
            CHECK(s_add(kq[0], i, fl[i], (void *)r->ud) == 0, "add");
            if (two && i == 0) { reg[1][0] = *r; CHECK(s_add(kq[1], i, fl[i], (void *)r->ud) == 0, "add"); }
            if (i == 0 && nd_pick(2)) {
                s_fire(kq[0], i, fl[i], (void *)r->ud); r->pend = 1; reg[0][i].cond = reg[1][i].cond = STICKY;
                if (two && IS(EVFILT_USER)) s_fire(kq[1], i, fl[i], (void *)r->ud);
                if (two) reg[1][i].pend = !IS(EVFILT_TIMER);
                if (STICKY) reg[0][i].pend = reg[1][i].pend = 0;
            }
        }
    }
    for (int t = 0; t < 2; t++)
        for (int k = 0; k < NOPS; k++) {
            struct op *o = &ops[t][k];
#ifdef NEWQ
            o->kind = t == 0 ? NEW : (int[]){ NEW, ADD, DEL, WAIT }[nd_pick(4)]; o->q = t ? q_of[1] : 0;
#else
            o->kind = nd_pick(IS(EVFILT_USER) ? NEW : TRIG); o->q = t ? q_of[1] : 0;
#endif
            o->i = o->kind == WAIT || o->kind == NEW ? 0 : NOPS > 1 ? 0 : nd_pick(2);
            o->room = o->kind == WAIT ? 1 + nd_pick(2) : 0;
        }
    g_preempt = PRE; g_preempt_sys = 1;
    for (int t = 0; t < 2; t++) th[t] = km_spawn(worker, (void *)(intptr_t)t);
    if (nd_pick(2)) km_step(th[1]);
    km_join(th[0]); km_join(th[1]);
    g_preempt = 0; g_preempt_sys = 0;
    km_others();
    CHECK(fin[0] && fin[1], "calls of two threads return");
    CHECK(g_locks == 0, "no lock is left held");
    for (int q = 0; q < 2; q++) {
        drain[q] = (struct op){ .kind = WAIT, .q = q, .room = 2 };
        if (q <= two) run(0, &drain[q]);
    }
    CHECK(order(reg, 0, 0, drain), "calls of two threads act as if made one after the other");
    for (int q = 0; q <= two; q++) { km_close(kq[q]); km_others(); }
    CHECK(km_open_count() == 0 && km_mon_running() == 0, "everything is given back in the end");
    COVER("end");
}
