/* EVFILT_LIBKQUEUE: versions and settings (C23); with DBGSET also where debug messages go (C27). */
#include "hx.h"
#ifndef NOPS
#define NOPS 3
#endif
static int kq, set[3] = { 1, 1, 0 };            /* thread-safe, fork clean-up, debug */
static int calls, pend;
static char prefix[8], want[8];
static int have_prefix;
static void sink(char const *fmt, ...)
{
    va_list ap;
    const char *p;
    va_start(ap, fmt);
    CHECK(strlen(fmt) > 10 && fmt[0] == '%' && fmt[1] == 's', "a message starts with the prefix");
    p = va_arg(ap, const char *);
    CHECK(p != NULL, "a message has a prefix");
    if (have_prefix & 1) CHECK(strcmp(p, want) == 0, "a message has the prefix that was set");
    va_end(ap);
    calls++;
}
static int ask(unsigned flags, unsigned ff, intptr_t data, struct kevent *out, int room)
{
    struct kevent k;
    static const struct timespec t0;
    EV_SET(&k, 7, EVFILT_LIBKQUEUE, EV_ADD | flags, ff, data, (void *)0x77);
    errno = 0;
    return kevent(kq, &k, 1, room ? out : NULL, room, &t0);
}
static void version(void)
{
    struct kevent a, b;
    const char *s;
    unsigned n[3] = { 0, 0, 0 }, v, k = 0;
    CHECK(ask(0, NOTE_VERSION, 0, &a, 1) == 1 && !(a.flags & EV_ERROR), "the version is returned");
    CHECK(a.ident == 7 && a.filter == EVFILT_LIBKQUEUE && a.fflags == NOTE_VERSION, "the reply names what was asked");
    CHECK(ask(0, NOTE_VERSION_STR, 0, &b, 1) == 1 && !(b.flags & EV_ERROR), "the version is returned as text");
    CHECK(b.ident == 7 && b.filter == EVFILT_LIBKQUEUE && b.fflags == NOTE_VERSION_STR, "the reply names what was asked");
    s = b.udata;
    CHECK(s != NULL && s != (char *)0x77 && *s, "the text is not empty");
    if (!s || s == (char *)0x77) sx_stop();
    for (; *s && k < 3; s++) {
        if (*s >= '0' && *s <= '9') n[k] = n[k] * 10 + (*s - '0');
        else if (*s == '.') k++;
        else break;
    }
    v = (unsigned)a.data;
    CHECK((v >> 24) == n[0] && ((v >> 16) & 255) == n[1] && ((v >> 8) & 255) == n[2], "number and text name the same version");
    CHECK((a.data & ~(intptr_t)0xffffffff) == 0 && v != 0, "the number has the documented form");
    CHECK(ask(0, NOTE_VERSION, 0, NULL, 0) == -1 && errno != 0, "without room for the reply the question fails");
    COVER("version");
}
static void setting(int i)
{
    struct kevent a;
    int val = nd_pick(2), receipt = nd_pick(2), n;
    intptr_t data = val ? (intptr_t)nd() : 0;       /* any number above 0 is true */
    ASSUME(!val || data > 0);
    n = ask(receipt ? EV_RECEIPT : 0, i == 0 ? NOTE_THREAD_SAFE : i == 1 ? NOTE_FORK_CLEANUP : NOTE_DEBUG, data, &a, 1);
    if (receipt) {
        CHECK(n == 1 && a.ident == 7 && a.filter == EVFILT_LIBKQUEUE, "a receipt is returned if asked for");
        CHECK(!(a.flags & EV_ERROR), "a setting is accepted");
        CHECK(a.data == set[i], "the receipt has the value the setting had before");
        COVER("receipt");
    } else if (pend) { CHECK(n == 1 && a.filter == EVFILT_USER, "a setting is accepted, and pending events are returned"); pend = 0; }
    else CHECK(n == 0, "a setting is accepted");
    set[i] = val;
    COVER("set");
}
void harness(void)
{
    struct kevent a, ev[2];
    int n;
    km_init();
    kq = kqueue(); ASSUME(kq >= 0);
    CHECK(chg(kq, 7, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, (void *)0x123) == 0, "a user event with the same identifier");
    for (int k = 0; k < NOPS; k++) {
#ifdef DBGSET
        switch (nd_pick(5)) {
        case 0: setting(2); break;
        case 1: for (int i = 0; i < 7; i++) want[i] = prefix[i] = (char)('a' + nd_below(16)); n = nd_pick(8); want[n] = prefix[n] = 0;
            CHECK(ask(0, NOTE_DEBUG_PREFIX, (intptr_t)prefix, &a, 1) == 0, "a prefix is accepted");
            memset(prefix, 'X', sizeof(prefix) - 1);
            have_prefix |= 1;
            COVER("prefix");
            break;
        case 2: CHECK(ask(0, NOTE_DEBUG_FUNC, (intptr_t)sink, &a, 1) == 0, "a function is accepted"); have_prefix |= 2; break;
        case 3: CHECK(ask(0, NOTE_DEBUG_FUNC, 0, &a, 1) == 0, "the function can be taken back"); have_prefix &= ~2; break;
        case 4: {
            int c0 = calls;
            have_prefix &= 3;
            CHECK(chg(kq, 7, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)0x123) == 0, "a change");
            if (set[2] && (have_prefix & 2)) { CHECK(calls > c0, "messages go to the function that was set"); COVER("messages"); }
            else CHECK(calls == c0, "no messages go to a function that is not set or while messages are off");
            CHECK(ev_get(kq, ev, 2) == 1 && ev[0].ident == 7 && ev[0].filter == EVFILT_USER, "messages change no result");
            break; }
        }
#else
        switch (nd_pick(5)) {
        case 0: version(); break;
        case 1: setting(0); break;
        case 2: setting(1); break;
        case 3: {       /* anything else */
            unsigned ff = (unsigned)sx_nd(32);
            ASSUME(ff == 0 || ff > NOTE_DEBUG_FUNC);
            if (nd_pick(2)) {
                n = ask(sx_nd(16) & EV_RECEIPT, ff, nd(), &a, 1);
                CHECK(n == 1 && (a.flags & EV_ERROR) && a.data != 0 && a.ident == 7 && a.fflags == ff, "an unknown question is refused");
            } else CHECK(ask(0, ff, nd(), NULL, 0) == -1 && errno != 0, "an unknown question is refused");
            COVER("unknown");
            break; }
        case 4: CHECK(chg(kq, 7, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)0x123) == 0, "other filters work"); pend = 1; break;
        }
        CHECK(g_locks == 0, "no lock is left held");
#endif
    }
#ifndef DBGSET
    n = ev_get(kq, ev, 2);
    CHECK(n == pend && (!n || (ev[0].ident == 7 && ev[0].filter == EVFILT_USER && ev[0].udata == (void *)0x123)), "events of other filters are not affected, a question is no event");
#endif
    n = kqueue();
    CHECK(n >= 0, "kqueues can be made");
    km_close(n); km_close(kq); km_others();
    CHECK(km_open_count() == 0 && g_locks == 0, "kqueues are cleaned up");
    for (int i = g_atexit_n - 1; i >= 0; i--) if (g_atexit[i]) g_atexit[i]();
    COVER("end");
}
