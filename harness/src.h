/* src.h - one event source per filter (-DFILT=...), two instances each, behind one interface. */
#ifndef SRC_H
#define SRC_H
#include "hx.h"
#define IS(f) (FILT == (f))
#define LEVELISH (IS(EVFILT_READ) || IS(EVFILT_WRITE))
/* FILT2: the second instance has another filter, and the same identifier if it can */
#ifndef FILT2
#define FILT2 FILT
#endif
#define MIXED (FILT2 != FILT)
#define FI(i) ((i) ? FILT2 : FILT)
#define ISI(i, f) (FI(i) == (f))
#define LEVELI(i) (ISI(i, EVFILT_READ) || ISI(i, EVFILT_WRITE))
#ifndef UFMODE
#define UFMODE S_IFSOCK
#endif
static int s_fd[2];

static void s_setup(void)
{
    for (int i = 0; i < 2; i++) {
        s_fd[i] = (LEVELI(i) || ISI(i, EVFILT_VNODE)) ? km_user_fd(i) : -1;
        kuf[i].mode = ISI(i, EVFILT_VNODE) ? S_IFREG : UFMODE;
        kuf[i].inq = 7; kuf[i].size = 10;
        kproc[i].pid = 77 + i; kproc[i].state = 1;
    }
}
static uintptr_t s_id(int i)
{
    if (LEVELI(i) || ISI(i, EVFILT_VNODE)) return s_fd[i];
    if (ISI(i, EVFILT_PROC)) return 77 + i;
    if (MIXED && i && !ISI(i, EVFILT_SIGNAL)) return s_id(0);
    if (ISI(i, EVFILT_SIGNAL)) return i ? SIGUSR2 : SIGUSR1;
    return i ? 0x100000001ULL : 1;          /* same lower half: identifiers are not truncated */
}
static unsigned s_ff(int i)
{
    if (ISI(i, EVFILT_VNODE)) return NOTE_ATTRIB;
    if (ISI(i, EVFILT_PROC)) return NOTE_EXIT;
    if (ISI(i, EVFILT_TIMER)) return NOTE_SECONDS;
    return 0;
}
static intptr_t s_data(int i) { return ISI(i, EVFILT_TIMER) ? 10 + i : 0; }
#ifdef RCPT
/* every change asks for a receipt, and there is room for it only */
static int s_chg(int kq, uintptr_t id, unsigned flags, void *ud, int i)
{
    struct kevent k, ev;
    EV_SET(&k, id, FI(i), flags | EV_RECEIPT, s_ff(i), s_data(i), ud);
    if (kevent(kq, &k, 1, &ev, 1, &T0) != 1) return -3;
    return (ev.flags & EV_ERROR) && ev.ident == id && ev.filter == FI(i) && ev.data >= 0 && ev.data < 200 ? (int)ev.data : -4;
}
static int s_add(int kq, int i, unsigned flags, void *ud) { return s_chg(kq, s_id(i), EV_ADD | flags, ud, i); }
static int s_do(int kq, int i, unsigned flags) { return s_chg(kq, s_id(i), flags, NULL, i); }
#else
static int s_add(int kq, int i, unsigned flags, void *ud) { return chg(kq, s_id(i), FI(i), EV_ADD | flags, s_ff(i), s_data(i), ud); }
static int s_do(int kq, int i, unsigned flags) { return chg(kq, s_id(i), FI(i), flags, s_ff(i), s_data(i), NULL); }
#endif

/* something happens on instance i (flags, ud: as registered; only user events need them) */
static void s_fire(int kq, int i, unsigned flags, void *ud)
{
    switch (FI(i)) {
    case EVFILT_READ:   km_ready(i, kuf[i].mask | EPOLLIN); break;
    case EVFILT_WRITE:  km_ready(i, kuf[i].mask | EPOLLOUT); break;
    case EVFILT_SIGNAL: km_raise((int)s_id(i)); break;
    case EVFILT_PROC:   km_exit(i, CLD_EXITED, 3); break;
    case EVFILT_VNODE:  km_vnode_event(i, IN_ATTRIB); break;
    case EVFILT_TIMER:
        for (int f = g_low; f < NFD; f++)
            if (kfd[f].kind == K_TIMER && kfd[f].its.it_value.tv_sec == 10 + i) { km_timer_fire(f, 1); break; }
        break;
    case EVFILT_USER:
        chg(kq, s_id(i), FI(i), (flags & EV_DISPATCH) ? EV_ADD | EV_DISPATCH : 0, NOTE_TRIGGER, 0, ud);
        break;
    }
}
/* the condition goes away again (data read, buffer full) */
static void s_calm(int i) { if (LEVELI(i)) km_ready(i, 0); }
#endif
