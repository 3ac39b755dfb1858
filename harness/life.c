/* The life of registrations of one filter against a reference: every sequence of NOPS
 * operations on NID identifiers. PROP selects the assertions (C04..C09). */
#include "src.h"
#ifndef NID
#define NID 1
#endif
#ifndef NOPS
#define NOPS 5
#endif
#ifndef ADDFL
#define ADDFL (EV_CLEAR | EV_ONESHOT | EV_DISPATCH | EV_DISABLE | EV_ENABLE)
#endif
#ifndef MUSTFL
#define MUSTFL 0
#endif
#define CK(p, c, m) do { if (PROP == (p)) CHECK(c, m); } while (0)
enum { ABSENT, ON, OFF };
static int st[2], trig[2], cond[2], dirty[2], gone[2], kq;
static unsigned fl[2];
static void *ud[2];

static int is_clear(int i) { return (fl[i] & EV_CLEAR) != 0; }
/* would a wait have to report instance i now? */
static int must(int i)
{
    if (st[i] != ON) return 0;
    switch (FI(i)) {
    case EVFILT_READ: case EVFILT_WRITE: return cond[i] && (!is_clear(i) || trig[i]);
    case EVFILT_PROC: case EVFILT_SIGNAL: return cond[i];
    default: return trig[i];
    }
}
static void delivered(int i)
{
    if (!(ISI(i, EVFILT_USER) && !(fl[i] & (EV_CLEAR | EV_ONESHOT | EV_DISPATCH)))) trig[i] = 0;
    if (ISI(i, EVFILT_SIGNAL)) cond[i] = 0;
    if (ISI(i, EVFILT_PROC) || (fl[i] & EV_ONESHOT)) { st[i] = ABSENT; trig[i] = 0; gone[i] = 1; COVER("oneshot gone"); }
    else if (fl[i] & EV_DISPATCH) { st[i] = OFF; gone[i] = 2; if (!ISI(i, EVFILT_USER)) trig[i] = 0; COVER("dispatched"); }
}
static void get(int n)
{
    struct kevent ev[2 * NID];
    int seen[2] = { 0, 0 }, want[2], k;
    for (int i = 0; i < NID; i++) want[i] = must(i);
    k = ev_get(kq, ev, n);
    CK(6, k >= 0, "a wait with a zero timeout succeeds");
    for (int e = 0; e < k; e++) {
        int i = (NID > 1 && (MIXED ? ev[e].filter == FILT2 : ev[e].ident == s_id(1))) ? 1 : 0;
        CK(9, ev[e].ident == s_id(i), "a returned event carries the identifier it was registered with");
        CK(9, ev[e].filter == FI(i), "a returned event carries the filter it was registered with");
        CK(9, ev[e].udata == ud[i], "a returned event carries the user data of the last change");
        CK(6, !(ev[e].flags & EV_ERROR), "a returned event is not marked as an error");
        CK(5, st[i] != ABSENT, "no event is returned for a registration that does not exist");
        CK(5, st[i] != OFF, "no event is returned for a disabled registration");
        CK(6, !seen[i], "one call returns a registration's event once");
        CK(6, want[i] || st[i] != ON, "an event is returned only if something happened since it was last returned");
        if (gone[i] == 1) CK(7, st[i] != ABSENT, "a one-shot event is returned once only");
        if (gone[i] == 2) CK(8, st[i] != OFF, "a dispatched event is not returned again before it is enabled");
        seen[i] = 1;
        COVER("event");
    }
    for (int i = 0; i < NID; i++) {
        CK(6, !want[i] || seen[i] || k == n, "an enabled registration whose condition holds is returned");
        if (fl[i] & EV_ONESHOT) CK(7, !want[i] || seen[i] || k == n, "a one-shot registration whose condition holds is returned");
        if (fl[i] & EV_DISPATCH) CK(8, !want[i] || seen[i] || k == n, "an enabled dispatch registration whose condition holds is returned");
        if (seen[i]) delivered(i);
    }
}
static void op_add(int i)
{
    unsigned f = (sx_nd(16) & (ADDFL)) | (MUSTFL);
    int rc;
    ASSUME(!((f & EV_ONESHOT) && (f & EV_DISPATCH)) && !((f & EV_DISABLE) && (f & EV_ENABLE)));
    ASSUME(st[i] == ABSENT);
    if (ISI(i, EVFILT_PROC)) ASSUME(kproc[i].state == 1 || kproc[i].state == 2);
    ud[i] = (void *)(PROP == 9 ? nd() : 0x1000 + i);
    rc = s_add(kq, i, f, ud[i]);
    CK(4, rc == 0, "adding an event that does not exist succeeds");
    if (gone[i] == 1) CK(7, rc == 0, "a one-shot event can be added again");
    fl[i] = f; st[i] = (f & EV_DISABLE) ? OFF : ON;
    trig[i] = LEVELI(i) ? 1 : 0;
    gone[i] = 0;
    if (ISI(i, EVFILT_SIGNAL) || ISI(i, EVFILT_PROC)) fl[i] |= EV_CLEAR;
}
#ifdef MOD
/* add it again, with other user data */
static void op_mod(int i)
{
    void *u = (void *)(PROP == 9 ? nd() : 0x2000 + i);
    int rc, on = st[i] == ON;
    unsigned f = fl[i] & ~(EV_DISABLE | EV_ENABLE);
    ASSUME(st[i] != ABSENT);
    if (!(f & EV_ONESHOT) && !ISI(i, EVFILT_PROC) && nd_bool()) f ^= EV_DISPATCH;
    rc = s_add(kq, i, f, u);
    if (ISI(i, EVFILT_VNODE)) CK(4, rc != 0, "a file event cannot be modified");
    else if (!LEVELI(i) || is_clear(i)) CK(4, rc == 0, "modifying an event that exists succeeds");
    if (rc != 0) return;
    ud[i] = u; fl[i] = f;
    if (ISI(i, EVFILT_TIMER) && on) trig[i] = 0;       /* starts again */
    COVER("modified");
}
#endif
static unsigned other(unsigned f) { return (unsigned)sx_nd(16) & f; }    /* flags that have no say here */
static void op(void)
{
    int i = NID > 1 ? nd_pick(NID) : 0, rc;
#ifdef MOD
    if (nd_pick(2)) { op_mod(i); return; }
#endif
    switch (nd_pick(LEVELI(i) ? 7 : 6)) {
    case 0: op_add(i); break;
    case 1:
        rc = s_do(kq, i, EV_DELETE | other(EV_ENABLE | EV_DISABLE | EV_CLEAR | EV_ONESHOT));
        CK(4, rc == (st[i] == ABSENT ? ENOENT : 0), "deleting succeeds if and only if the event exists");
        if (gone[i] == 1) CK(7, rc == ENOENT, "a one-shot event no longer exists once it was returned");
        if (gone[i] == 2) CK(8, rc == 0, "a dispatched event still exists");
        st[i] = ABSENT; trig[i] = 0; gone[i] = 0;
        break;
    case 2:
        rc = s_do(kq, i, EV_DISABLE | other(EV_CLEAR | EV_ONESHOT));
        CK(4, rc == (st[i] == ABSENT ? ENOENT : 0), "disabling succeeds if and only if the event exists");
        if (st[i] == ON) { st[i] = OFF; if (ISI(i, EVFILT_TIMER) || ISI(i, EVFILT_VNODE)) trig[i] = 0; }
        break;
    case 3:
        rc = s_do(kq, i, EV_ENABLE | other(EV_CLEAR | EV_ONESHOT));
        CK(4, rc == (st[i] == ABSENT ? ENOENT : 0), "enabling succeeds if and only if the event exists");
        if (gone[i] == 2) CK(8, rc == 0, "a dispatched event can be enabled again");
        if (st[i] == OFF) { st[i] = ON; gone[i] = 0; if (LEVELI(i)) trig[i] = 1; }
        break;
    case 4:
        ASSUME(ISI(i, EVFILT_SIGNAL) ? (g_sigblock >> (s_id(i) - 1)) & 1 : 1);
        ASSUME(ISI(i, EVFILT_USER) ? st[i] != ABSENT : 1);
        ASSUME(ISI(i, EVFILT_PROC) ? kproc[i].state == 1 : 1);
        s_fire(kq, i, fl[i], ud[i]);
        cond[i] = 1;
        if (st[i] == ON) trig[i] = 1;
        break;
    case 5: get(NID > 1 && nd_pick(2) ? 1 : 2 * NID); break;
    case 6: ASSUME(cond[i]); s_calm(i); cond[i] = 0; break;
    }
}
void harness(void)
{
    kq = HX_kq();
    ASSUME(kq >= 0);
    s_setup();
    op_add(0);
#ifdef BOTH
    op_add(1);
#endif
    for (int k = 0; k < NOPS; k++) op();
    get(2 * NID);
    COVER("end");
}
