/* Registrations are identified by kqueue, filter and full identifier: NV symbolic identifiers,
 * two filters, NKQ kqueues, NOPS operations, against a reference set (C04). */
#include "hx.h"
#ifndef NV
#define NV 3
#endif
#ifndef NOPS
#define NOPS 4
#endif
#ifndef NKQ
#define NKQ 1
#endif
#ifndef NF
#define NF 2
#endif
#define MAXR (NOPS + NV)
static const short filt[2] = { EVFILT_USER, EVFILT_TIMER };
static struct { int used, off, q, f; uintptr_t id; uint64_t ud; } r[MAXR];
static uintptr_t id[NV];
static int kq[NKQ], nud;
static int find(int q, int f, uintptr_t x)
{
    for (int i = 0; i < MAXR; i++) if (r[i].used && r[i].q == q && r[i].f == f && r[i].id == x) return i;
    return -1;
}
static void add(int q, int f, uintptr_t x)
{
    int i = 0;
    ASSUME(find(q, f, x) < 0);
    while (r[i].used) i++;
    r[i].used = 1; r[i].off = 0; r[i].q = q; r[i].f = f; r[i].id = x; r[i].ud = 0x100 + nud++;
    CHECK(chg(kq[q], x, filt[f], EV_ADD | EV_CLEAR, f ? NOTE_SECONDS : 0, f ? 1000 + nud : 0, (void *)r[i].ud) == 0, "adding an event that does not exist succeeds");
}
static void look(void)
{
    struct kevent ev[2 * MAXR];
    for (int i = 0; i < MAXR; i++) if (r[i].used && r[i].f == 0)
        CHECK(chg(kq[r[i].q], r[i].id, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)r[i].ud) == 0, "an event that was added exists");
    for (int i = 0; i < NFD; i++) if (kfd[i].kind == K_TIMER) km_timer_fire(i, 1);
    for (int q = 0; q < NKQ; q++) {
        int n = ev_get(kq[q], ev, 2 * MAXR), seen[MAXR] = { 0 };
        for (int e = 0; e < n; e++) {
            int i;
            for (i = 0; i < MAXR; i++) if (r[i].used && r[i].ud == (uint64_t)ev[e].udata) break;
            CHECK(i < MAXR, "only events that exist are returned");
            if (i == MAXR) continue;
            CHECK(!r[i].off, "only events that are enabled are returned");
            CHECK(r[i].q == q, "an event is returned by the kqueue it was added to");
            CHECK(filt[r[i].f] == ev[e].filter, "an event is returned with its filter");
            CHECK(r[i].id == ev[e].ident, "an event is returned with its full identifier");
            CHECK(!seen[i]++, "one call returns a registration's event once");
        }
        for (int i = 0; i < MAXR; i++) if (r[i].used && r[i].q == q && !r[i].off) CHECK(seen[i], "an event that exists, is enabled and happens is returned");
    }
}
void harness(void)
{
    km_init();
    for (int q = 0; q < NKQ; q++) { kq[q] = kqueue(); ASSUME(kq[q] >= 0); }
    for (int i = 0; i < NV; i++) {
        id[i] = nd();
#ifdef SORTED
        if (i) ASSUME(id[i] > id[i - 1]);
#endif
    }
#ifdef TREE
    /* all orders of NV identifiers, then remove some */
    for (int i = 0; i < NV; i++) { for (int j = 0; j < i; j++) ASSUME(id[i] != id[j]); add(0, 0, id[i]); }
#endif
    for (int k = 0; k < NOPS; k++) {
        int v = nd_pick(NV), f = NF > 1 ? nd_pick(NF) : 0, q = NKQ > 1 ? nd_pick(NKQ) : 0, i, rc;
#ifdef TREE
        switch (1) {
#else
        switch (nd_pick(4)) {
#endif
        case 0: add(q, f, id[v]); COVER("added"); break;
        case 1: i = find(q, f, id[v]);
            rc = chg(kq[q], id[v], filt[f], EV_DELETE, 0, 0, NULL);
            CHECK(rc == (i < 0 ? ENOENT : 0), "deleting succeeds if and only if the event exists");
            if (i >= 0) { r[i].used = 0; COVER("deleted"); }
            break;
        case 2: i = find(q, f, id[v]);
            rc = chg(kq[q], id[v], filt[f], EV_DISABLE, 0, 0, NULL);
            CHECK(rc == (i < 0 ? ENOENT : 0), "disabling succeeds if and only if the event exists");
            if (i >= 0) { r[i].off = 1; COVER("disabled"); }
            break;
        case 3: i = find(q, f, id[v]);
            rc = chg(kq[q], id[v], filt[f], EV_ENABLE, 0, 0, NULL);
            CHECK(rc == (i < 0 ? ENOENT : 0), "enabling succeeds if and only if the event exists");
            if (i >= 0) r[i].off = 0;
            break;
        }
    }
    look();
    COVER("end");
}
