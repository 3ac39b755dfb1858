/* hx.h - helpers shared by the harnesses */
#ifndef HX_H
#define HX_H
#include "km.h"
#include "sys/event.h"
static const struct timespec T0 = { 0, 0 };
#ifdef DBG
#define HX_DBG() (g_debug = 1)
#else
#define HX_DBG() ((void)0)
#endif
/* LOW0: the application has closed its standard descriptors: before the kqueue is made, or after */
static inline int HX_kq(void)
{
#ifdef LOW0
    int q, early = nd_pick(2);
    if (early) g_low = 0;
    km_init(); HX_DBG();
    q = kqueue();
    if (!early) { g_low = 0; for (int i = 0; i < 3; i++) kfd[i].kind = K_FREE; }
    return q;
#else
    km_init(); HX_DBG();
    return kqueue();
#endif
}
/* one change, no room for events: 0, or the errno of the -1 */
static inline int chg(int kq, uintptr_t id, short filt, unsigned flags, unsigned ff, intptr_t data, void *ud)
{
    struct kevent k;
    int r;
    EV_SET(&k, id, filt, flags, ff, data, ud);
    errno = 0;
    r = kevent(kq, &k, 1, NULL, 0, &T0);
    if (r == 0) return 0;
    return r < 0 ? (errno ? errno : -1) : -2;
}
/* fetch up to n events without waiting */
static inline int ev_get(int kq, struct kevent *ev, int n) { return kevent(kq, NULL, 0, ev, n, &T0); }
#endif
