/* Timers: conversion of the period, repetition, expiration count, re-arming (C11). */
#include "hx.h"
#ifndef BITS
#define BITS 40
#endif
static const unsigned units[] = { 0, NOTE_SECONDS, NOTE_USECONDS, NOTE_NSECONDS };
static const int64_t per_s[] = { 1000, 1, 1000000, 1000000000 };
static int kq, tfd;
static int armed_as(const struct timespec *t, int64_t data, int u)
{
    /* t is data units: whole seconds and a rest of less than one second, both exact */
    return t->tv_nsec >= 0 && t->tv_nsec < 1000000000 && t->tv_nsec % (1000000000 / per_s[u]) == 0 &&
           t->tv_sec * per_s[u] + t->tv_nsec / (1000000000 / per_s[u]) == data;
}
#ifdef SPLIT
static int64_t S_, R_;
static int64_t amount(int u)            /* whole seconds of any size, and any rest */
{
    static const int64_t big[] = { 0, 1, 59, 86400, 2147483648LL, 9000000000LL };
    S_ = big[nd_pick(6)];
    R_ = nd_below(per_s[u]);
    ASSUME(S_ || R_);
    return S_ * per_s[u] + R_;
}
static int armed(const struct timespec *t, int64_t d, int u)
{ return t->tv_sec == S_ && t->tv_nsec == R_ * (1000000000 / per_s[u]); }
#else
static int64_t amount(int u) { return 1 + (int64_t)sx_nd(BITS); }
#define armed armed_as
#endif
static void check_armed(int64_t data, int u, unsigned fl, unsigned ff)
{
    tfd = km_find(K_TIMER, 0);
    CHECK(tfd >= 0 && km_find(K_TIMER, 1) < 0, "a timer has one underlying timer");
    if (tfd < 0) sx_stop();
    CHECK(armed(&kfd[tfd].its.it_value, data, u), "the first expiration is exactly the given amount of the given unit");
    if (fl & EV_ONESHOT) CHECK(kfd[tfd].its.it_interval.tv_sec == 0 && kfd[tfd].its.it_interval.tv_nsec == 0, "a one-shot timer does not repeat");
    else CHECK(armed(&kfd[tfd].its.it_interval, data, u), "a repeating timer repeats with the given period");
    CHECK(!(kfd[tfd].tflags & TFD_TIMER_ABSTIME) == !(ff & NOTE_ABSOLUTE), "the time is absolute exactly if asked for");
}
static const unsigned kinds[] = { 0, EV_ONESHOT, EV_DISPATCH, EV_CLEAR };
#ifdef CONV
void harness(void)      /* conversion, at creation, modification and enabling */
{
    int u = nd_pick(4);
    unsigned fl = kinds[nd_pick(2)], ab = nd_bool() ? NOTE_ABSOLUTE : 0;
    int64_t d = amount(u);
    kq = HX_kq();
    ASSUME(kq >= 0);
    CHECK(chg(kq, 1, EVFILT_TIMER, EV_ADD | fl, units[u] | ab, d, NULL) == 0, "adding a timer succeeds");
    check_armed(d, u, fl, ab);
    switch (nd_pick(3)) {
    case 0:
        u = nd_pick(4); fl = kinds[nd_pick(2)]; ab = nd_bool() ? NOTE_ABSOLUTE : 0; d = amount(u);
        CHECK(chg(kq, 1, EVFILT_TIMER, EV_ADD | fl, units[u] | ab, d, NULL) == 0, "modifying a timer succeeds");
        check_armed(d, u, fl, ab);
        COVER("modified");
        break;
    case 1:
        CHECK(chg(kq, 1, EVFILT_TIMER, EV_DISABLE, 0, 0, NULL) == 0, "disabling a timer succeeds");
        if (nd_pick(2)) {
            u = nd_pick(4); fl = kinds[nd_pick(2)]; ab = nd_bool() ? NOTE_ABSOLUTE : 0; d = amount(u);
            CHECK(chg(kq, 1, EVFILT_TIMER, EV_ADD | fl, units[u] | ab, d, NULL) == 0, "modifying a disabled timer succeeds");
        }
        CHECK(chg(kq, 1, EVFILT_TIMER, EV_ENABLE, 0, 0, NULL) == 0, "enabling a timer succeeds");
        check_armed(d, u, fl, ab);
        COVER("enabled");
        break;
    }
    COVER("end");
}
#else
#ifndef NOPS
#define NOPS 4
#endif
void harness(void)      /* histories of two timers */
{
    struct kevent ev[4];
    int64_t d[2] = { 10, 20 };
    unsigned fl[2];
    int here[2] = { 0, 0 }, on[2] = { 0, 0 }, n, i, seen;
    uint64_t cnt[2] = { 0, 0 };
    kq = HX_kq();
    ASSUME(kq >= 0);
    fl[0] = kinds[nd_pick(4)];
    ASSUME(chg(kq, 1, EVFILT_TIMER, EV_ADD | fl[0], NOTE_SECONDS, d[0], NULL) == 0);
    here[0] = on[0] = 1;
    for (int k = 0; k < NOPS; k++) {
        i = nd_pick(2);
        tfd = -1;
        for (int f = g_low; f < NFD; f++) if (kfd[f].kind == K_TIMER && kfd[f].its.it_value.tv_sec == d[i]) tfd = f;
        switch (nd_pick(5)) {
        case 0:     /* add, or modify: starts over with nothing pending */
            if (here[i]) COVER("modify");
            fl[i] = kinds[nd_pick(4)];
            d[i] = d[i] == 10 + 10 * i ? 30 + i : 10 + 10 * i;
            CHECK(chg(kq, 1 + i, EVFILT_TIMER, EV_ADD | fl[i], NOTE_SECONDS, d[i], (void *)(uintptr_t)(100 + k)) == 0, "adding or modifying a timer succeeds");
            if (!here[i]) on[i] = 1;
            here[i] = 1; cnt[i] = 0;
            break;
        case 1:     /* expirations */
            ASSUME(here[i] && on[i]);
            CHECK(tfd >= 0, "an enabled timer is armed with its period");
            if (tfd < 0) sx_stop();
            ASSUME(kfd[tfd].tarmed);
            COVER("fired");
            { uint64_t m = 1 + sx_nd(16);
              km_timer_fire(tfd, m);
              cnt[i] = (fl[i] & EV_ONESHOT) ? 1 : cnt[i] + m; }
            break;
        case 2:
            n = ev_get(kq, ev, 4);
            CHECK(n == (cnt[0] != 0) + (cnt[1] != 0), "exactly the timers that expired are returned");
            seen = 0;
            for (int e = 0; e < n; e++) {
                int j = (int)ev[e].ident - 1;
                CHECK(ev[e].filter == EVFILT_TIMER && (j == 0 || j == 1) && !(seen & (1 << j)), "each timer that expired is returned once");
                if (j != 0 && j != 1) sx_stop();
                seen |= 1 << j;
                CHECK(ev[e].data == (int64_t)cnt[j], "data is the number of expirations since the last return");
                cnt[j] = 0;
                if (fl[j] & EV_ONESHOT) here[j] = on[j] = 0;
                if (fl[j] & EV_DISPATCH) on[j] = 0;
                COVER("event");
            }
            break;
        case 3:
            ASSUME(here[i]);
            if (nd_pick(2)) { CHECK(chg(kq, 1 + i, EVFILT_TIMER, EV_ENABLE, 0, 0, NULL) == 0, "enabling succeeds"); on[i] = 1; }
            else { CHECK(chg(kq, 1 + i, EVFILT_TIMER, EV_DISABLE, 0, 0, NULL) == 0, "disabling succeeds"); on[i] = 0; cnt[i] = 0; }
            break;
        case 4:
            ASSUME(here[i]);
            CHECK(chg(kq, 1 + i, EVFILT_TIMER, EV_DELETE, 0, 0, NULL) == 0, "deleting succeeds");
            here[i] = on[i] = 0; cnt[i] = 0;
            break;
        }
    }
    n = ev_get(kq, ev, 4);
    CHECK(n == (cnt[0] != 0) + (cnt[1] != 0), "exactly the timers that expired are returned");
    COVER("end");
}
#endif
