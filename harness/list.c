/* One kevent() call with a change list and an event list: what it returns and what it
 * writes (C02), and how the changes are processed and reported (C03). */
#include "hx.h"
#ifndef NCH
#define NCH 3           /* longest change list */
#endif
#ifndef NEV
#define NEV 4           /* longest event list */
#endif
#ifndef NIDS
#define NIDS 2          /* user events known beforehand */
#endif
#define CK(p, c, m) do { if (PROP == (p)) CHECK(c, m); } while (0)
static int exists[3], trig[3];
static struct kevent ch[NCH + 1], al[NCH + NEV + 3], orig[NCH + NEV + 3];
static int bad_ident;

/* what the change does, applied to the reference; its errno, or 0 (-1: some error) */
static int apply(const struct kevent *k)
{
    int i = (int)k->ident - 1;
    if ((k->flags & EV_DISPATCH) && (k->flags & EV_ONESHOT)) return EINVAL;
    if (k->filter != EVFILT_USER && k->filter != EVFILT_READ) return -1;
    if (k->filter == EVFILT_READ) return (k->flags & EV_ADD) ? -1 : ENOENT;     /* not a descriptor */
    if (!exists[i]) {
        if (!(k->flags & EV_ADD)) return ENOENT;
        exists[i] = 1;
        trig[i] = (k->fflags & NOTE_TRIGGER) != 0;
        return 0;
    }
    if (k->flags & EV_DELETE) { exists[i] = trig[i] = 0; return 0; }
    if (k->fflags & NOTE_TRIGGER) trig[i] = 1;
    return 0;
}
static void mk(struct kevent *k)
{
    unsigned rc = nd_bool() ? EV_RECEIPT : 0;
    intptr_t d = (intptr_t)nd();
    void *u = (void *)nd();
    switch (nd_pick(6)) {
    case 0: EV_SET(k, 1 + nd_pick(3), EVFILT_USER, EV_ADD | EV_CLEAR | rc, nd_bool() ? NOTE_TRIGGER : 0, d, u); break;
    case 1: EV_SET(k, 1 + nd_pick(3), EVFILT_USER, EV_DELETE | rc, 0, d, u); break;
    case 2: EV_SET(k, bad_ident, EVFILT_READ, EV_ADD | rc, 0, d, u); break;
    case 3: { short f = (short)sx_nd(16);
              ASSUME(f >= 0 || f < EVFILT_LIBKQUEUE);
              EV_SET(k, 1, f, EV_ADD | rc, 0, d, u); COVER("unknown filter"); } break;
    case 4: EV_SET(k, 1, EVFILT_USER, EV_ADD | EV_DISPATCH | EV_ONESHOT | rc, 0, d, u); break;
    case 5: EV_SET(k, nd(), EVFILT_READ, EV_DELETE | rc, 0, d, u); break;
    }
}
static int same(const struct kevent *a, const struct kevent *b)
{
    return a->ident == b->ident && a->filter == b->filter && a->udata == b->udata && a->fflags == b->fflags;
}
void harness(void)
{
    struct kevent k, *ev;
    int kq = HX_kq(), nch, nev, rv, want = 0, fail = 0, applied = 0, ready = 0, alias = 0, err[NCH + 1], who[NCH + 1];
    ASSUME(kq >= 0);
    bad_ident = NFD - 1;
    for (int i = 0; i < NIDS; i++) {
        int t = nd_pick(2);
        ASSUME(chg(kq, 1 + i, EVFILT_USER, EV_ADD | EV_CLEAR, t ? NOTE_TRIGGER : 0, 0, (void *)0x77) == 0);
        exists[i] = 1; trig[i] = t;
    }
    nch = nd_pick(NCH + 1);
    nev = nd_pick(NEV + 1);
    for (int i = 0; i < nch; i++) mk(&ch[i]);
    for (int i = 0; i < NCH + NEV + 3; i++) EV_SET(&al[i], 0xdead0000u + i, -111, 0x1234, 5, 6, (void *)7);
#ifdef ALIAS
    alias = 1;
    ev = al + 1;                               /* the same array for both */
    for (int i = 0; i < nch; i++) ev[i] = ch[i];
#else
    ev = al + 1;
#endif
    for (int i = 0; i < NCH + NEV + 3; i++) orig[i] = al[i];

    /* reference */
    for (int i = 0; i < nch; i++) {
        int e = apply(&ch[i]);
        if (e || (ch[i].flags & EV_RECEIPT)) {
            if (want == nev) { fail = e ? e : EFAULT; applied = i + 1; break; }
            err[want] = e; who[want] = i; want++;
        }
    }
    (void)applied;
    for (int i = 0; i < 3; i++) ready += trig[i];

    errno = 0;
    rv = kevent(kq, nch ? (alias ? ev : ch) : NULL, nch, nev || nd_pick(2) ? ev : NULL, nev, &T0);
    int en = errno;

    /* C02 */
    CK(2, rv >= -1 && rv <= nev, "the return value is -1 or a number of events within the room given");
    CK(2, rv != -1 || en != 0, "a failing call sets errno");
    for (int i = 0; i < NCH + NEV + 3; i++)
        if (i < 1 || i > nev) {
            CK(2, al[i].ident == orig[i].ident && al[i].filter == orig[i].filter && al[i].flags == orig[i].flags && al[i].fflags == orig[i].fflags &&
                  al[i].data == orig[i].data && al[i].udata == orig[i].udata, "nothing outside the event list is written");
        }
    for (int i = 0; i < rv; i++)
        CK(2, ev[i].filter == EVFILT_USER || (ev[i].flags & EV_ERROR), "every counted entry was filled in");
    if (nev == 0) {
        CK(2, rv <= 0, "without an event list no event is counted");
        CK(2, g_waits == 0, "without room for events the call does not wait");
    }
    /* C03 */
    if (fail) {
        CK(3, rv == -1, "a report that does not fit makes the call fail");
        if (fail > 0) CK(3, en == fail, "a failing change that cannot be reported in the event list sets errno");
        CK(3, en != 0, "a failing change that cannot be reported in the event list sets errno");
        COVER("no room");
    } else if (want) {
        CK(3, rv == want, "failed changes and receipts, and nothing else, are returned at once");
        CK(3, g_waits == 0, "a call with something to report about its changes does not wait");
        for (int i = 0; i < want && i < rv; i++) {
            CK(3, same(&ev[i], &ch[who[i]]), "reports come in the order of the changes and repeat the change");
            CK(3, (ev[i].flags & EV_ERROR) != 0, "a report is marked EV_ERROR");
            if (err[i] == 0) CK(3, ev[i].data == 0, "the receipt of a successful change has data 0");
            else if (err[i] > 0) CK(3, ev[i].data == err[i], "the report of a failed change has its error number in data");
            else CK(3, ev[i].data > 0, "the report of a failed change has an error number in data");
        }
        COVER("reports");
    } else {
        CK(3, rv == (ready < nev ? ready : nev), "with nothing to report the call returns the pending events");
        for (int i = 0; i < rv; i++) CK(3, !(ev[i].flags & EV_ERROR), "a pending event is not a report");
        COVER("events");
    }
    /* every change before a failure took effect in order, none after it; pending events were kept */
    int got = (want || fail || rv < 0) ? 0 : rv;
    struct kevent more[4];
    int r2 = ev_get(kq, more, 4);
    CK(3, r2 == ready - got, "pending events are neither drained nor lost by a call that does not return them");
    for (int i = 0; i < 3; i++) {
        int r = chg(kq, 1 + i, EVFILT_USER, EV_DELETE, 0, 0, NULL);
        CK(3, r == (exists[i] ? 0 : ENOENT), "the changes before the first unreportable one, and only those, took effect in order");
    }
    COVER("end");
}
