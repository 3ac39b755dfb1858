/* What an EVFILT_READ (-DRD, C14) or EVFILT_WRITE (C15) event says, for every kind of descriptor. */
#include "hx.h"
#ifdef RD
#define FILT EVFILT_READ
#define CAUSE (EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLERR)
#else
#define FILT EVFILT_WRITE
#define CAUSE (EPOLLOUT | EPOLLHUP | EPOLLERR)
#endif
enum { STREAM, DGRAM, SEQP, LISTEN, PIPE, CHR, BPF, ANON, NKIND };
void harness(void)
{
    struct kevent ev[2];
    struct kuf *u = &kuf[0];
    int kq = HX_kq(), fd, n, kind, sock, passive;
    unsigned fl;
    uint64_t ud = nd();
    ASSUME(kq >= 0);
    fd = km_user_fd(0);
    kind = nd_pick(NKIND);
    u->mode = kind == PIPE ? S_IFIFO : kind == CHR ? S_IFCHR : kind == ANON ? 0 : S_IFSOCK;
    u->stype = kind == DGRAM ? SOCK_DGRAM : kind == SEQP ? SOCK_SEQPACKET : SOCK_STREAM;
    u->listening = kind == LISTEN; u->bpf = kind == BPF;
    sock = (kind != PIPE && kind != CHR); passive = kind == LISTEN || kind == BPF || kind == ANON;
    { static const unsigned k[] = { 0, EV_CLEAR, EV_ONESHOT, EV_DISPATCH }; fl = k[nd_pick(4)]; }
    CHECK(chg(kq, fd, FILT, EV_ADD | fl, 0, nd(), (void *)ud) == 0, "an open descriptor can be watched");
    for (int r = 0; r < 2; r++) {
        uint32_t m = sx_nd(14) & (EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP | EPOLLERR);
        int eof;
        u->inq = (int)sx_nd(31); u->outq = (int)sx_nd(31); u->soerr = (int)nd_below(134); u->ioctl_fails = nd_bool();
        if (kind == ANON) u->soerr = 0;
        { int soerr = u->soerr, inq = (u->ioctl_fails || (u->listening)) ? 0 : u->inq;
          int outq = (u->ioctl_fails || kind == PIPE) ? 0 : u->outq;
        if (kind == ANON) ASSUME(!(m & EPOLLERR));
        km_ready(0, m);
        n = ev_get(kq, ev, 2);
        CHECK(n == ((m & CAUSE) != 0), "an event is returned exactly if the descriptor is ready, closed by the peer or in error");
        if (n != 1) continue;
        COVER("event");
        CHECK(ev[0].ident == (uintptr_t)fd && ev[0].filter == FILT && ev[0].udata == (void *)ud, "the event names the descriptor and carries the user data");
#ifdef RD
        eof = (m & (EPOLLRDHUP | EPOLLHUP | EPOLLERR)) != 0;
        if (passive) CHECK(ev[0].data == 1, "a listening socket reports a pending connection");
        else CHECK(ev[0].data == inq, "data is the number of bytes that can be read");
        if (kind == STREAM && inq == 0 && !u->ioctl_fails) eof = 1;
        (void)outq;
#else
        eof = (m & (EPOLLHUP | EPOLLERR)) != 0;
        if (!eof) CHECK(ev[0].data == outq, "data is the number of bytes in the send queue");
        (void)inq; (void)passive;
#endif
        CHECK(!(ev[0].flags & EV_EOF) == !eof, "EV_EOF is set exactly if the peer closed or the descriptor is in error");
        if (eof) COVER("eof");
        if (m & EPOLLERR) { CHECK(ev[0].fflags == (unsigned)(sock ? soerr : EIO), "the error of the descriptor is returned in fflags"); COVER("error"); }
        else CHECK(ev[0].fflags == 0, "no error is returned if there is none");
        }
        if (fl == EV_ONESHOT || fl == EV_DISPATCH) break;
    }
    CHECK(!g_user_touch, "the watched descriptor is not read, written, moved or closed");
    COVER("end");
}
