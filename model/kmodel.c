/*
 * kmodel.c - model of the operating-system interface libkqueue uses (Linux).
 * Compiled to bitcode for the symbolic runs and by gcc for replays.
 */
#include "km.h"
#define TID0 100                /* thread ids: TID0 + thread */

struct kfd   kfd[NFD];
struct kint  kint_[NEP][NFD];
struct kuf   kuf[NUF];
struct kproc kproc[NPROC];

int g_spurious, g_live, g_faults, g_injected, g_locks, g_cancel_state[NTHR];
int g_waits, g_wait_inf, g_wait_max, g_blocked, g_wait_err, g_user_touch, g_close_bad;
int g_tw_n, g_tw_kind; int64_t g_tw_ms; struct timespec g_tw_ts;
uint64_t g_sigpend, g_sigblock;        /* g_sigblock: of the application's first thread */
static uint64_t g_mask[64];            /* of the others */
int g_rlim, g_rot, g_env_on, g_debug, g_text_max, g_low = 3;
int g_mon_q[NMON], g_mon_n;
int g_cur, g_preempt, g_preempt_sys;
static void sched_sys(void), test_cancel(void);
int g_atexit_n, g_atfork_n;
void (*g_pre)(void), (*g_par)(void), (*g_chi)(void);
void (*g_atexit[8])(void);

__attribute__((weak)) void h_env(int where) { }

/* ------------------------------------------------------------------ */
/* fault injection: any fallible call may fail, at most g_faults times  */
static int fault(void)
{
    if (g_faults <= 0) return 0;
    if (!sx_concrete(sx_nd(1))) return 0;
    g_faults--; g_injected++;
    return 1;
}
#define FAULT(e) do { if (fault()) { errno = (e); return -1; } } while (0)

/* ------------------------------------------------------------------ */
void km_init(void)
{
    for (int i = 0; i < g_low; i++) { kfd[i].kind = K_STD; kfd[i].cloexec = 1; }
    for (int i = 0; i < NUF; i++) { kuf[i].mode = S_IFSOCK; kuf[i].stype = SOCK_STREAM; kuf[i].nlink = 1; }
}

static int fd_ok(int fd) { return fd >= 0 && fd < NFD && kfd[fd].kind != K_FREE; }

int km_newfd(int kind)
{
    for (int i = g_low; i < (g_rlim ? g_rlim : NFD); i++)
        if (kfd[i].kind == K_FREE) {
            struct kfd z = { 0 };
            kfd[i] = z;
            kfd[i].kind = kind;
            return i;
        }
    errno = EMFILE;
    return -1;
}

int km_user_fd(int u)
{
    int fd = km_newfd(K_USER);
    if (fd >= 0) { kfd[fd].uf = u; kfd[fd].cloexec = 1; }
    return fd;
}
int km_open_count(void)
{
    int n = 0;
    for (int i = g_low; i < NFD; i++)
        if (kfd[i].kind != K_FREE && kfd[i].kind != K_USER) n++;
    return n;
}
int km_kind_count(int kind)
{
    int n = 0;
    for (int i = g_low; i < NFD; i++) if (kfd[i].kind == kind) n++;
    return n;
}
int km_noncloexec(void)
{
    int n = 0;
    for (int i = g_low; i < NFD; i++)
        if (kfd[i].kind != K_FREE && !kfd[i].cloexec) n++;
    return n;
}
int km_find(int kind, int nth)
{
    for (int i = g_low; i < NFD; i++)
        if (kfd[i].kind == kind) { if (nth == 0) return i; nth--; }
    return -1;
}
void km_wake(int fd)
{
    for (int e = 0; e < NEP; e++) if (kint_[e][fd].in) kint_[e][fd].edge = 1;
}
void km_ready(int u, uint32_t mask)
{
    kuf[u].mask = mask;
    for (int i = g_low; i < NFD; i++) if (kfd[i].kind == K_USER && kfd[i].uf == u) km_wake(i);
}

uint32_t km_poll(int fd)
{
    struct kfd *f = &kfd[fd];
    switch (f->kind) {
    case K_EVENTFD: return EPOLLOUT | (f->cnt ? EPOLLIN : 0);
    case K_TIMER:   return f->cnt ? EPOLLIN : 0;
    case K_SIGNAL:  return (g_sigpend & f->sset) ? EPOLLIN : 0;
    case K_INOTIFY: return f->cnt ? EPOLLIN : 0;
    case K_PIDFD:   return (kproc[f->pid].state >= 2) ? EPOLLIN : 0;
    case K_USER:    return kuf[f->uf].mask;
    case K_PIPER:   return !f->peer_open ? EPOLLHUP : 0;
    case K_PIPEW:   return EPOLLOUT;
    default:        return 0;
    }
}
static uint32_t ep_rev(int e, int fd)
{
    struct kint *k = &kint_[e][fd];
    if (!k->in || k->off) return 0;
    if ((k->ev & EPOLLET) && !k->edge) return 0;
    return km_poll(fd) & (k->ev | EPOLLERR | EPOLLHUP);
}
int km_ep_ready(int e)
{
    for (int i = g_low; i < NFD; i++) if (ep_rev(e, i)) return 1;
    return 0;
}

/* ------------------------------------------------------------------ */
/* descriptors                                                         */
static void mon_signal(int r, int tid);
static int do_close(int fd, int user)
{
    if (!fd_ok(fd)) { if (!user && fd >= 0) g_close_bad++; errno = EBADF; return -1; }
    if (kfd[fd].kind == K_USER && !user) g_user_touch++;
    if (kfd[fd].kind == K_STD) { if (!user) g_user_touch++; return 0; }
    for (int e = 0; e < NEP; e++) { struct kint z = { 0 }; kint_[e][fd] = z; }
    if (kfd[fd].kind == K_EPOLL) {
        int e = kfd[fd].ep;
        for (int i = 0; i < NFD; i++) { struct kint z = { 0 }; kint_[e][i] = z; }
    }
    if (kfd[fd].kind == K_PIPEW && kfd[fd].peer_open) {
        int r = kfd[fd].peer;
        kfd[r].peer_open = 0;
        if (kfd[r].async && kfd[r].sig && kfd[r].owner) mon_signal(r, kfd[r].owner);
        km_wake(r);
    }
    if (kfd[fd].kind == K_PIPER && kfd[fd].peer_open) kfd[kfd[fd].peer].peer_open = 0;
    kfd[fd].kind = K_FREE;
    return 0;
}
int mk_close(int fd) { sched_sys(); test_cancel(); return do_close(fd, 0); }
void km_close(int fd) { do_close(fd, 1); }
int mk_dup(int fd) { errno = EMFILE; return -1; }

int mk_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    int arg = 0;
    if (!fd_ok(fd)) { errno = EBADF; return -1; }
    switch (cmd) {
    case F_GETFD: return kfd[fd].cloexec ? FD_CLOEXEC : 0;
    case F_SETFD:
        FAULT(ENOMEM);
        va_start(ap, cmd); arg = va_arg(ap, int); va_end(ap);
        kfd[fd].cloexec = arg & FD_CLOEXEC;
        return 0;
    case F_GETFL: return (kfd[fd].nonblock ? O_NONBLOCK : 0) | (kfd[fd].async ? O_ASYNC : 0);
    case F_SETFL:
        FAULT(ENOMEM);
        va_start(ap, cmd); arg = va_arg(ap, int); va_end(ap);
        kfd[fd].nonblock = !!(arg & O_NONBLOCK);
        kfd[fd].async = !!(arg & O_ASYNC);
        return 0;
    case F_SETSIG:
        FAULT(EINVAL);
        va_start(ap, cmd); arg = va_arg(ap, int); va_end(ap);
        kfd[fd].sig = arg;
        return 0;
    case F_SETOWN_EX: {
        struct f_owner_ex *o;
        FAULT(ESRCH);
        va_start(ap, cmd); o = va_arg(ap, struct f_owner_ex *); va_end(ap);
        if (o->type == F_OWNER_TID) kfd[fd].owner = o->pid;
        return 0;
    }
    default: errno = EINVAL; return -1;
    }
}

int mk_pipe2(int *p, int flags)
{
    int r, w;
    FAULT(EMFILE);
    r = km_newfd(K_PIPER);
    if (r < 0) return -1;
    w = km_newfd(K_PIPEW);
    if (w < 0) { kfd[r].kind = K_FREE; return -1; }
    kfd[r].peer = w; kfd[w].peer = r;
    kfd[r].peer_open = kfd[w].peer_open = 1;
    kfd[r].cloexec = kfd[w].cloexec = !!(flags & O_CLOEXEC);
    kfd[r].nonblock = kfd[w].nonblock = !!(flags & O_NONBLOCK);
    p[0] = r; p[1] = w;
    return 0;
}
int mk_pipe(int *p) { return mk_pipe2(p, 0); }

/* A read that would block: the library must never sit in one. */
static ssize_t would_block(int fd)
{
    if (!kfd[fd].nonblock) g_blocked = 1;
    errno = EAGAIN;
    return -1;
}

ssize_t mk_read(int fd, void *buf, size_t n)
{
    sched_sys(); test_cancel();
    struct kfd *f;
    if (!fd_ok(fd)) { errno = EBADF; return -1; }
    f = &kfd[fd];
    switch (f->kind) {
    case K_EVENTFD: case K_TIMER:
        if (n < 8) { errno = EINVAL; return -1; }
        if (!f->cnt) return would_block(fd);
        memcpy(buf, &f->cnt, 8); sx_fills(buf, 8);
        f->cnt = 0;
        return 8;
    case K_SIGNAL: {
        uint64_t m = g_sigpend & f->sset;
        struct signalfd_siginfo si;
        int s = 0;
        if (n < sizeof(si)) { errno = EINVAL; return -1; }
        if (!m) return would_block(fd);
        for (int i = 63; i >= 0; i--) if (m & (1ULL << i)) s = i + 1;
        memset(&si, 0, sizeof(si));
        si.ssi_signo = s;
        memcpy(buf, &si, sizeof(si)); sx_fills(buf, sizeof(si));
        g_sigpend &= ~(1ULL << (s - 1));
        return sizeof(si);
    }
    case K_INOTIFY: {
        size_t got = 0;
        if (n < sizeof(struct inotify_event)) { errno = EINVAL; return -1; }
        if (!f->cnt) return would_block(fd);
        while (f->cnt && got + sizeof(struct inotify_event) <= n) {
            struct inotify_event *e = (void *)((char *)buf + got);
            e->wd = f->iqwd[0]; e->mask = f->iq[0]; e->cookie = 0; e->len = 0;
            for (int i = 0; i + 1 < NIQ; i++) { f->iq[i] = f->iq[i + 1]; f->iqwd[i] = f->iqwd[i + 1]; }
            f->cnt--;
            got += sizeof(struct inotify_event);
        }
        return got;
    }
    case K_PIPER:
        if (f->peer_open) return would_block(fd);
        return 0;
    case K_USER: g_user_touch++; errno = EIO; return -1;
    default: errno = EINVAL; return -1;
    }
}

ssize_t mk_write(int fd, const void *buf, size_t n)
{
    sched_sys(); test_cancel();
    if (!fd_ok(fd)) { errno = EBADF; return -1; }
    switch (kfd[fd].kind) {
    case K_EVENTFD: {
        uint64_t v;
        if (n < 8) { errno = EINVAL; return -1; }
        memcpy(&v, buf, 8);
        if (v == UINT64_MAX) { errno = EINVAL; return -1; }
        if (kfd[fd].cnt > UINT64_MAX - 1 - v) return would_block(fd);
        kfd[fd].cnt += v;
        km_wake(fd);
        return 8;
    }
    case K_USER: g_user_touch++; errno = EIO; return -1;
    default: errno = EINVAL; return -1;
    }
}

/* ------------------------------------------------------------------ */
/* epoll                                                               */
int mk_epoll_create1(int flags)
{
    sched_sys();
    int fd, s = -1;
    FAULT(EMFILE);
    for (int e = 0; e < NEP; e++) {
        int used = 0;
        for (int i = g_low; i < NFD; i++) if (kfd[i].kind == K_EPOLL && kfd[i].ep == e) used = 1;
        if (!used && s < 0) s = e;
    }
    if (s < 0) { errno = EMFILE; return -1; }
    fd = km_newfd(K_EPOLL);
    if (fd < 0) return -1;
    kfd[fd].ep = s;
    kfd[fd].cloexec = !!(flags & EPOLL_CLOEXEC);
    return fd;
}
int mk_epoll_create(int n) { return mk_epoll_create1(0); }

int mk_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev)
{
    sched_sys();
    struct kint *k;
    if (!fd_ok(epfd) || !fd_ok(fd)) { errno = EBADF; return -1; }
    if (kfd[epfd].kind != K_EPOLL || epfd == fd) { errno = EINVAL; return -1; }
    if (kfd[fd].kind == K_USER && (kuf[kfd[fd].uf].mode & S_IFMT) == S_IFREG) { errno = EPERM; return -1; }
    k = &kint_[kfd[epfd].ep][fd];
    switch (op) {
    case EPOLL_CTL_ADD:
        if (k->in) { errno = EEXIST; return -1; }
        FAULT(ENOSPC);
        k->in = 1; k->ev = ev->events; k->data = ev->data; k->off = 0; k->edge = 1;
        return 0;
    case EPOLL_CTL_MOD:
        if (!k->in) { errno = ENOENT; return -1; }
        k->ev = ev->events; k->data = ev->data; k->off = 0; k->edge = 1;
        return 0;
    case EPOLL_CTL_DEL:
        if (!k->in) { errno = ENOENT; return -1; }
        { struct kint z = { 0 }; *k = z; }
        return 0;
    default: errno = EINVAL; return -1;
    }
}

static int sched_block_ep(int e);

static int ep_collect(int e, struct epoll_event *out, int max)
{
    int n = 0;
    for (int i = g_low; i < NFD && n < max; i++) {
        int fd = i + g_rot;
        uint32_t r;
        if (fd >= NFD) fd -= NFD - 3;
        r = ep_rev(e, fd);
        if (r) {
            struct kint *k = &kint_[e][fd];
            out[n].events = r;
            out[n].data = k->data;
            n++;
            if (k->ev & EPOLLET) k->edge = 0;
            if (k->ev & EPOLLONESHOT) k->off = 1;
        }
    }
    return n;
}

int mk_epoll_wait(int epfd, struct epoll_event *out, int max, int timeout)
{
    sched_sys(); test_cancel();
    int e, n;
    if (!fd_ok(epfd)) { errno = EBADF; return -1; }
    if (kfd[epfd].kind != K_EPOLL || max <= 0) { errno = EINVAL; return -1; }
    e = kfd[epfd].ep;
    g_waits++;
    if (max > g_wait_max) g_wait_max = max;
    { volatile uint32_t *last = &out[max - 1].events; (void)*last; }   /* room for max events was promised */
    if (g_env_on && timeout != 0) h_env(ENV_WAIT);
    if (g_wait_err) { errno = g_wait_err; return -1; }
    n = ep_collect(e, out, max);
    sx_fills(out, n * sizeof(*out));
    if (n) return n;
    if (timeout < 0) {
        g_wait_inf = 1;
        if (!sched_block_ep(e)) { g_blocked = 1; errno = EINTR; return -1; }
        n = ep_collect(e, out, max);
        sx_fills(out, n * sizeof(*out));
        return n;
    }
    if (timeout) { g_tw_n++; g_tw_kind = 1; g_tw_ms = timeout; }
    return 0;
}
int mk_epoll_pwait(int epfd, struct epoll_event *out, int max, int timeout, const sigset_t *ss)
{ return mk_epoll_wait(epfd, out, max, timeout); }

int mk_ppoll(struct pollfd *p, nfds_t nf, const struct timespec *ts, const sigset_t *ss)
{
    sched_sys(); test_cancel();
    if (nf != 1 || !fd_ok(p->fd)) { errno = EINVAL; return -1; }
    g_waits++;
    if (ts && (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec > 999999999)) { errno = EINVAL; return -1; }
    if (g_env_on && !(ts && ts->tv_sec == 0 && ts->tv_nsec == 0)) h_env(ENV_WAIT);
    if (g_wait_err) { errno = g_wait_err; return -1; }
    p->revents = 0;
    if (kfd[p->fd].kind == K_EPOLL ? km_ep_ready(kfd[p->fd].ep) : (km_poll(p->fd) & p->events) != 0) {
        p->revents = p->events & POLLIN;
        return 1;
    }
    if (!ts) {
        g_wait_inf = 1;
        if (kfd[p->fd].kind == K_EPOLL && sched_block_ep(kfd[p->fd].ep)) { p->revents = p->events & POLLIN; return 1; }
        g_blocked = 1; errno = EINTR; return -1;
    }
    if (ts->tv_sec || ts->tv_nsec) { g_tw_n++; g_tw_kind = 2; g_tw_ts = *ts; }
    return 0;
}
int mk_poll(struct pollfd *p, nfds_t nf, int ms)
{
    struct timespec ts = { ms / 1000, (ms % 1000) * 1000000L };
    return mk_ppoll(p, nf, ms < 0 ? NULL : &ts, NULL);
}
/* select() on one descriptor */
int mk_pselect(int n, fd_set *r, fd_set *w, fd_set *x, const struct timespec *ts, const sigset_t *ss)
{
    struct pollfd p = { .fd = -1 };
    int rc;
    for (int i = 0; i < n && i < FD_SETSIZE; i++)
        if ((r && FD_ISSET(i, r)) || (w && FD_ISSET(i, w))) {
            if (p.fd >= 0) { errno = EINVAL; return -1; }
            p.fd = i;
            p.events = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0);
        }
    rc = mk_ppoll(&p, 1, ts, ss);
    if (rc < 0) return rc;
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (x) FD_ZERO(x);
    if (rc && r && (p.revents & POLLIN)) FD_SET(p.fd, r);
    if (rc && w && (p.revents & POLLOUT)) FD_SET(p.fd, w);
    return rc;
}
int mk_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    struct timespec ts;
    if (tv) { ts.tv_sec = tv->tv_sec; ts.tv_nsec = tv->tv_usec * 1000; }
    return mk_pselect(n, r, w, x, tv ? &ts : NULL, NULL);
}

/* ------------------------------------------------------------------ */
/* event sources                                                       */
int mk_eventfd(unsigned int v, int flags)
{
    int fd;
    FAULT(EMFILE);
    fd = km_newfd(K_EVENTFD);
    if (fd < 0) return -1;
    kfd[fd].cnt = v;
    kfd[fd].cloexec = !!(flags & EFD_CLOEXEC);
    kfd[fd].nonblock = !!(flags & EFD_NONBLOCK);
    return fd;
}
int mk_eventfd_write(int fd, eventfd_t v) { return mk_write(fd, &v, sizeof(v)) == sizeof(v) ? 0 : -1; }
int mk_eventfd_read(int fd, eventfd_t *v) { return mk_read(fd, v, sizeof(*v)) == sizeof(*v) ? 0 : -1; }

int mk_timerfd_create(int clk, int flags)
{
    int fd;
    FAULT(EMFILE);
    if (clk != CLOCK_MONOTONIC && clk != CLOCK_REALTIME && clk != CLOCK_BOOTTIME) { errno = EINVAL; return -1; }
    fd = km_newfd(K_TIMER);
    if (fd < 0) return -1;
    kfd[fd].tclock = clk;
    kfd[fd].cloexec = !!(flags & TFD_CLOEXEC);
    kfd[fd].nonblock = !!(flags & TFD_NONBLOCK);
    return fd;
}
static int ts_bad(const struct timespec *t)
{ return (t->tv_sec < 0) | (t->tv_nsec < 0) | (t->tv_nsec > 999999999); }

int mk_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
    if (!fd_ok(fd)) { errno = EBADF; return -1; }
    if (kfd[fd].kind != K_TIMER) { errno = EINVAL; return -1; }
    if (ts_bad(&n->it_value) | ts_bad(&n->it_interval)) { errno = EINVAL; return -1; }
    FAULT(ENOMEM);
    kfd[fd].its = *n;
    kfd[fd].tflags = flags;
    kfd[fd].tarmed = (n->it_value.tv_sec != 0) | (n->it_value.tv_nsec != 0);
    kfd[fd].cnt = 0;
    kfd[fd].nset++;
    return 0;
}
int mk_timerfd_gettime(int fd, struct itimerspec *o)
{
    if (!fd_ok(fd)) { errno = EBADF; return -1; }
    *o = kfd[fd].its;
    return 0;
}
int mk_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = 1; t->tv_nsec = 0; return 0; }

/* n further expirations happen */
void km_timer_fire(int fd, uint64_t n)
{
    struct kfd *f = &kfd[fd];
    if (f->kind != K_TIMER || !f->tarmed || n == 0) return;
    if (f->its.it_interval.tv_sec == 0 && f->its.it_interval.tv_nsec == 0) {
        f->tarmed = 0;
        n = 1;
    }
    f->cnt += n;
    km_wake(fd);
}

/* signals ------------------------------------------------------------ */
static uint64_t get_set(const sigset_t *s) { uint64_t v; memcpy(&v, s, 8); return v; }
static void put_set(sigset_t *s, uint64_t v) { memcpy(s, &v, 8); }
int mk_sigemptyset(sigset_t *s) { put_set(s, 0); return 0; }
int mk_sigfillset(sigset_t *s)  { put_set(s, ~0ULL); return 0; }
int mk_sigaddset(sigset_t *s, int n)
{
    if (n < 1 || n > 64) { errno = EINVAL; return -1; }
    put_set(s, get_set(s) | (1ULL << (n - 1)));
    return 0;
}
int mk_sigdelset(sigset_t *s, int n)
{
    if (n < 1 || n > 64) { errno = EINVAL; return -1; }
    put_set(s, get_set(s) & ~(1ULL << (n - 1)));
    return 0;
}
int mk_sigismember(const sigset_t *s, int n)
{
    if (n < 1 || n > 64) { errno = EINVAL; return -1; }
    return (get_set(s) >> (n - 1)) & 1;
}
#define SIG_KS ((1ULL << (SIGKILL - 1)) | (1ULL << (SIGSTOP - 1)))
int mk_signalfd(int fd, const sigset_t *s, int flags)
{
    FAULT(EMFILE);
    if (fd == -1) {
        fd = km_newfd(K_SIGNAL);
        if (fd < 0) return -1;
        kfd[fd].cloexec = !!(flags & SFD_CLOEXEC);
        kfd[fd].nonblock = !!(flags & SFD_NONBLOCK);
    } else if (!fd_ok(fd)) { errno = EBADF; return -1; }
    else if (kfd[fd].kind != K_SIGNAL) { errno = EINVAL; return -1; }
    kfd[fd].sset = get_set(s) & ~SIG_KS;
    return fd;
}
int mk_sigprocmask(int how, const sigset_t *s, sigset_t *o)
{
    uint64_t *m = g_cur ? &g_mask[g_cur] : &g_sigblock;
    if (o) put_set(o, *m);
    if (s) {
        if (how == SIG_BLOCK) *m |= get_set(s);
        else if (how == SIG_UNBLOCK) *m &= ~get_set(s);
        else *m = get_set(s);
        *m &= ~SIG_KS;
    }
    return 0;
}
int mk_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return mk_sigprocmask(how, s, o); }
void km_raise(int sig)
{
    g_sigpend |= 1ULL << (sig - 1);
    for (int i = g_low; i < NFD; i++)
        if (kfd[i].kind == K_SIGNAL && (kfd[i].sset & (1ULL << (sig - 1)))) km_wake(i);
}

/* inotify ------------------------------------------------------------ */
int mk_inotify_init1(int flags)
{
    int fd;
    FAULT(EMFILE);
    fd = km_newfd(K_INOTIFY);
    if (fd < 0) return -1;
    kfd[fd].cloexec = !!(flags & IN_CLOEXEC);
    kfd[fd].nonblock = !!(flags & IN_NONBLOCK);
    kfd[fd].iwd = 0;
    return fd;
}
int mk_inotify_init(void) { return mk_inotify_init1(0); }
static int num(const char *p) { int v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); return v; }
static int path_uf(const char *p)
{
    const char *q = p;
    if (p[0] == '/' && p[1] == 'u') return num(p + 2) < NUF ? num(p + 2) : -1;
    while (*q) q++;
    while (q > p && q[-1] != '/') q--;
    if (p[0] == '/' && p[1] == 'p' && *q) { int fd = num(q); if (fd_ok(fd) && kfd[fd].kind == K_USER) return kfd[fd].uf; }
    return -1;
}
int mk_inotify_add_watch(int fd, const char *p, uint32_t mask)
{
    int u;
    if (!fd_ok(fd)) { errno = EBADF; return -1; }
    if (kfd[fd].kind != K_INOTIFY) { errno = EINVAL; return -1; }
    if (!(mask & IN_ALL_EVENTS)) { errno = EINVAL; return -1; }
    u = path_uf(p);
    if (u < 0) { errno = ENOENT; return -1; }
    FAULT(ENOSPC);
    if (!kfd[fd].iwatch) kfd[fd].iwd++;
    kfd[fd].iwatch = 1; kfd[fd].uf = u;
    kfd[fd].imask = mask;
    return kfd[fd].iwd;
}
static void iq_put(int fd, uint32_t m)
{
    struct kfd *f = &kfd[fd];
    if (f->cnt >= NIQ) return;
    if (f->cnt > 0 && f->iq[f->cnt - 1] == m) return;    /* kernel merges identical tail events */
    f->iq[f->cnt] = m; f->iqwd[f->cnt] = f->iwd;
    f->cnt++;
    km_wake(fd);
}
int mk_inotify_rm_watch(int fd, int wd)
{
    if (!fd_ok(fd)) { errno = EBADF; return -1; }
    if (kfd[fd].kind != K_INOTIFY || !kfd[fd].iwatch || wd != kfd[fd].iwd) { errno = EINVAL; return -1; }
    kfd[fd].iwatch = 0;
    iq_put(fd, IN_IGNORED);
    return 0;
}
void km_vnode_event(int u, uint32_t mask)
{
    for (int i = g_low; i < NFD; i++)
        if (kfd[i].kind == K_INOTIFY && kfd[i].iwatch && kfd[i].uf == u && (kfd[i].imask & mask & IN_ALL_EVENTS)) {
            iq_put(i, mask & kfd[i].imask & IN_ALL_EVENTS);
            if ((kfd[i].imask & IN_ONESHOT) || (mask & IN_DELETE_SELF)) {
                kfd[i].iwatch = 0;
                iq_put(i, IN_IGNORED);
            }
        }
}

/* processes ---------------------------------------------------------- */
static int thr_tid(int t) { return TID0 + t; }
long mk_syscall(long no, ...)
{
    va_list ap;
    if (no == SYS_gettid) return thr_tid(g_cur);
#ifdef SYS_pidfd_open
    if (no == SYS_pidfd_open) {
        pid_t pid;
        int fd;
        va_start(ap, no); pid = va_arg(ap, int); va_end(ap);
        FAULT(EMFILE);
        for (int p = 0; p < NPROC; p++)
            if ((kproc[p].state == 1 || kproc[p].state == 2) && kproc[p].pid == pid) {
                fd = km_newfd(K_PIDFD);
                if (fd < 0) return -1;
                kfd[fd].pid = p;
                kfd[fd].cloexec = 1;
                return fd;
            }
        errno = pid <= 0 ? EINVAL : ESRCH;
        return -1;
    }
#endif
    errno = ENOSYS;
    return -1;
}
pid_t mk_gettid(void) { return thr_tid(g_cur); }
pid_t mk_getppid(void) { return 41; }
int mk_pidfd_open(pid_t p, unsigned fl)
{
#ifdef SYS_pidfd_open
    return mk_syscall(SYS_pidfd_open, (int)p, fl);
#else
    errno = ENOSYS; return -1;
#endif
}
int mk_waitid(idtype_t t, id_t id, siginfo_t *si, int opt)
{
    int pid = -1;
    test_cancel();
    if (t == P_PID) pid = id;
    else if ((int)t == 3 /* P_PIDFD */) { if (!fd_ok(id) || kfd[id].kind != K_PIDFD) { errno = EBADF; return -1; } pid = kproc[kfd[id].pid].pid; }
    for (int p = 0; p < NPROC; p++)
        if (kproc[p].pid == pid && kproc[p].state != 0) {
            if (kproc[p].state == 3) break;
            si->si_signo = 0; si->si_code = 0; si->si_pid = 0; si->si_status = 0;
            if (kproc[p].state == 2 && (opt & WEXITED)) {
                si->si_signo = SIGCHLD;
                si->si_pid = kproc[p].pid;
                si->si_code = kproc[p].code;
                si->si_status = kproc[p].status;
                if (!(opt & WNOWAIT)) kproc[p].state = 3;
            } else if (!(opt & WNOHANG)) g_blocked = 1;
            return 0;
        }
    errno = ECHILD;
    return -1;
}
void km_exit(int p, int code, int status)
{
    if (kproc[p].state != 1) return;
    kproc[p].state = 2; kproc[p].code = code; kproc[p].status = status;
    for (int i = g_low; i < NFD; i++) if (kfd[i].kind == K_PIDFD && kfd[i].pid == p) km_wake(i);
}

/* files and sockets -------------------------------------------------- */
int mk_fstat(int fd, struct stat *sb)
{
    if (!fd_ok(fd)) { errno = EBADF; return -1; }
    memset(sb, 0, sizeof(*sb));
    if (kfd[fd].kind == K_USER) {
        struct kuf *u = &kuf[kfd[fd].uf];
        if (u->fstat_errno) { errno = u->fstat_errno; return -1; }
        sb->st_mode = u->mode | 0644;
        sb->st_size = u->size;
        sb->st_nlink = u->nlink;
        return 0;
    }
    sb->st_size = 0; sb->st_nlink = 1;
    switch (kfd[fd].kind) {
    case K_PIPER: case K_PIPEW: sb->st_mode = S_IFIFO | 0600; break;
    case K_STD: sb->st_mode = S_IFCHR | 0600; break;
    default: sb->st_mode = 0600; break;
    }
    return 0;
}
off_t mk_lseek(int fd, off_t off, int wh)
{
    if (!fd_ok(fd)) { errno = EBADF; return -1; }
    if (kfd[fd].kind != K_USER || (kuf[kfd[fd].uf].mode & S_IFMT) != S_IFREG) { errno = ESPIPE; return -1; }
    if (wh == SEEK_CUR && off == 0) return kuf[kfd[fd].uf].pos;
    g_user_touch++;                     /* the library moved the user's file position */
    if (wh == SEEK_END && off == 0) { kuf[kfd[fd].uf].pos = kuf[kfd[fd].uf].size; return kuf[kfd[fd].uf].pos; }
    if (wh == SEEK_SET) { kuf[kfd[fd].uf].pos = off; return off; }
    errno = EINVAL;
    return -1;
}
int mk_ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    int *p;
    struct kuf *u;
    va_start(ap, req); p = va_arg(ap, int *); va_end(ap);
    if (!fd_ok(fd)) { errno = EBADF; return -1; }
    if (kfd[fd].kind != K_USER) { errno = ENOTTY; return -1; }
    u = &kuf[kfd[fd].uf];
    if (u->ioctl_fails) { errno = EINVAL; return -1; }
    if (req == SIOCINQ) {
        if (u->listening) { errno = EINVAL; return -1; }
        *p = u->inq;
        return 0;
    }
    if (req == SIOCOUTQ) {
        if ((u->mode & S_IFMT) == S_IFREG || (u->mode & S_IFMT) == S_IFIFO) { errno = ENOTTY; return -1; }
        *p = u->outq;
        return 0;
    }
    errno = ENOTTY;
    return -1;
}
int mk_getsockopt(int fd, int lvl, int opt, void *val, socklen_t *len)
{
    struct kuf *u;
    if (!fd_ok(fd)) { errno = EBADF; return -1; }
    if (kfd[fd].kind != K_USER || (kuf[kfd[fd].uf].mode & S_IFMT) != S_IFSOCK) { errno = ENOTSOCK; return -1; }
    u = &kuf[kfd[fd].uf];
    switch (opt) {
    case SO_TYPE:       memcpy(val, &u->stype, 4); return 0;
    case SO_ACCEPTCONN: memcpy(val, &u->listening, 4); return 0;
    case SO_ERROR:      memcpy(val, &u->soerr, 4); u->soerr = 0; return 0;
    case SO_GET_FILTER: *len = u->bpf ? 1 : 0; return 0;
    }
    errno = ENOPROTOOPT;
    return -1;
}
ssize_t mk_readlink(const char *p, char *b, size_t n)
{
    const char *q = p;
    int fd;
    while (*q) q++;
    while (q > p && q[-1] != '/') q--;
    fd = num(q);
    if (p[0] != '/' || p[1] != 'p' || !*q || !fd_ok(fd) || kfd[fd].kind != K_USER) { errno = ENOENT; return -1; }
    if (kuf[kfd[fd].uf].readlink_errno) { errno = kuf[kfd[fd].uf].readlink_errno; return -1; }
    if (n < 3) { errno = EINVAL; return -1; }
    b[0] = '/'; b[1] = 'u'; b[2] = (char)('0' + kfd[fd].uf);
    return 3;
}

/* formatted output: enough of printf for the library's paths and debug text --- */
int mk_vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    size_t o = 0;
#define PUT(c) do { if (o + 1 < n) b[o] = (c); o++; } while (0)
    for (; *f; f++) {
        int l = 0, zero = 0, width = 0;
        if (*f != '%') { PUT(*f); continue; }
        f++;
        while (*f == '#' || *f == '-' || *f == '0' || *f == '+') { if (*f == '0') zero = 1; f++; }
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; while (*f >= '0' && *f <= '9') f++; }
        while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') { if (*f != 'h') l = 1; f++; }
        if (*f == 's') {
            const char *s = va_arg(ap, const char *);
            if (!s) s = "(null)";
            while (*s) { PUT(*s); s++; }
        } else if (*f == '%') PUT('%');
        else if (*f == 'c') { int c = va_arg(ap, int); PUT((char)c); }
        else {
            uint64_t v; char t[24]; int k = 0, neg = 0, base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : 10;
            if (*f == 'p' || l) v = va_arg(ap, uint64_t);
            else v = (*f == 'd' || *f == 'i') ? (uint64_t)(int64_t)va_arg(ap, int) : va_arg(ap, unsigned);
            if (g_debug && sx_symbolic(v)) {    /* debug text: the longest representation */
                for (k = base == 16 ? 16 : 20; k; k--) PUT('9');
                continue;
            }
            v = sx_concrete(v);
            if ((*f == 'd' || *f == 'i') && (int64_t)v < 0) { neg = 1; v = 0 - v; }
            do { int d = v % base; t[k++] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v);
            if (neg) PUT('-');
            while (zero && k < width && k < 24) t[k++] = '0';
            while (k) PUT(t[--k]);
        }
    }
    if (n) b[o < n ? o : n - 1] = 0;
    return (int)o;
}
int mk_snprintf(char *b, size_t n, const char *fmt, ...)
{ va_list ap; int r; va_start(ap, fmt); r = mk_vsnprintf(b, n, fmt, ap); va_end(ap); return r; }
int mk_sprintf(char *b, const char *fmt, ...)
{ va_list ap; int r; va_start(ap, fmt); r = mk_vsnprintf(b, 1 << 16, fmt, ap); va_end(ap); return r; }
int mk_vfprintf(FILE *f, const char *fmt, va_list ap)
{
    static char text[4096];
    int n;
    if (g_debug) test_cancel();
    n = mk_vsnprintf(text, sizeof(text), fmt, ap);
    if (n > g_text_max) g_text_max = n;
    return n;
}
int mk_fprintf(FILE *f, const char *fmt, ...)
{ va_list ap; int r; va_start(ap, fmt); r = mk_vfprintf(f, fmt, ap); va_end(ap); return r; }
int mk_printf(const char *fmt, ...) { return 0; }
int mk_fputs(const char *s, FILE *f) { return 0; }
int mk_puts(const char *s) { return 0; }
int mk_putchar(int c) { return c; }
int mk_fputc(int c, FILE *f) { return c; }
size_t mk_fwrite(const void *p, size_t a, size_t b, FILE *f) { return b; }
int mk_fflush(FILE *f) { return 0; }
void mk_perror(const char *s) { }
char *mk_strerror(int e) { return "error"; }

#ifndef NATIVE
/* string functions (native replays use libc's) */
size_t mk_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
char *mk_strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *mk_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *mk_strcat(char *d, const char *s) { mk_strcpy(d + mk_strlen(d), s); return d; }
char *mk_strncat(char *d, const char *s, size_t n) { char *p = d + mk_strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
int mk_strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int mk_strncmp(const char *a, const char *b, size_t n) { for (; n && *a && *a == *b; n--) a++, b++; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int mk_memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x - *y; return 0; }
char *mk_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *mk_strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
int mk_atoi(const char *s) { return num(s); }
size_t mk_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
void *mk_memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return NULL; }
char *mk_strstr(const char *h, const char *n) { size_t l = mk_strlen(n); for (;; h++) { if (!mk_strncmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
char *mk_stpcpy(char *d, const char *s) { mk_strcpy(d, s); return d + mk_strlen(s); }
void mk_bzero(void *p, size_t n) { memset(p, 0, n); }
int mk_bcmp(const void *a, const void *b, size_t n) { return mk_memcmp(a, b, n); }
void *mk_mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
int mk_strcasecmp(const char *a, const char *b)
{
    for (;; a++, b++) {
        int x = *a >= 'A' && *a <= 'Z' ? *a + 32 : *a, y = *b >= 'A' && *b <= 'Z' ? *b + 32 : *b;
        if (x != y || !x) return x - y;
    }
}
long mk_strtol(const char *s, char **e, int base) { long v = 0; int m = 0; if (*s == '-') m = 1, s++; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); if (e) *e = (char *)s; return m ? -v : v; }
unsigned long mk_strtoul(const char *s, char **e, int base) { return mk_strtol(s, e, base); }
long mk_atol(const char *s) { return num(s); }
int mk_usleep(unsigned u) { return 0; }
int mk_nanosleep(const struct timespec *a, struct timespec *b) { return 0; }
int mk_sched_yield(void) { return 0; }
#endif

/* process ------------------------------------------------------------ */

int mk_getrlimit(int r, struct rlimit *l) { l->rlim_cur = l->rlim_max = g_rlim ? g_rlim : NFD; return 0; }
void *mk_mmap(void *a, size_t len, int prot, int fl, int fd, off_t o)
{
    void *p;
    if (fault()) { errno = ENOMEM; return MAP_FAILED; }
    p = sx_calloc(1, len);
    return p;
}
int mk_munmap(void *a, size_t l) { sx_free(a); return 0; }
int mk_prctl(int o, ...) { return 0; }
char *mk_getenv(const char *n) { return g_debug ? "1" : NULL; }
int mk_atexit(void (*f)(void)) { if (g_atexit_n < 8) g_atexit[g_atexit_n++] = f; return 0; }
pid_t mk_getpid(void) { return 42; }
int mk___libc_current_sigrtmin(void) { return 34; }
int mk___libc_current_sigrtmax(void) { return 64; }

/* heap --------------------------------------------------------------- */
void *mk_malloc(size_t n) { sched_sys(); if (fault()) { errno = ENOMEM; return NULL; } g_live++; return sx_malloc(n); }
void *mk_calloc(size_t a, size_t b) { sched_sys(); if (fault()) { errno = ENOMEM; return NULL; } g_live++; return sx_calloc(a, b); }
void mk_free(void *p) { sched_sys(); if (p) g_live--; sx_free(p); }
void *mk_realloc(void *p, size_t n) { if (fault()) { errno = ENOMEM; return NULL; } if (!p) g_live++; return sx_realloc(p, n); }
char *mk_strdup(const char *s)
{
    size_t n = 0; char *p;
    while (s[n]) n++;
    p = mk_malloc(n + 1);
    if (p) memcpy(p, s, n + 1);
    return p;
}

char *mk_strndup(const char *s, size_t m)
{
    size_t n = 0; char *p;
    while (n < m && s[n]) n++;
    p = mk_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
void *mk_reallocarray(void *p, size_t a, size_t b) { return mk_realloc(p, a * b); }
void *mk_aligned_alloc(size_t a, size_t n) { return mk_malloc(n); }
int mk_posix_memalign(void **r, size_t a, size_t n) { void *p = mk_malloc(n); if (!p) return ENOMEM; *r = p; return 0; }
void mk_cfree(void *p) { mk_free(p); }

/* threads ------------------------------------------------------------ */
/* Threads run one at a time; control changes hands at lock operations (while
 * g_preempt > 0, by symbolic choice) and where the running thread has to wait. */
enum { B_NO, B_MUTEX, B_COND, B_SIG, B_JOIN, B_EP };
struct mthr {
    int used, done, detached, why, join, ep, wake;
    pthread_mutex_t *m; pthread_cond_t *c;
    int cancel_pending, cancelling;
    void *(*fn)(void *); void *arg;
    __pthread_unwind_buf_t *cl[NCLEAN]; int ncl;
};
static struct mthr thr[NTHR] = { { .used = 1 } };
static int nthr = 1;
#define MLOCK(m) ((m)->__data.__lock)
#define MSELF (g_cur + 1)

#ifdef NATIVE
/* the baton must not look like synchronisation to the thread sanitizer (replay of data races) */
#include <sched.h>
static volatile int baton[NTHR];
static void bwait(int t) { while (!__atomic_load_n(&baton[t], __ATOMIC_SEQ_CST)) sched_yield(); __atomic_store_n(&baton[t], 0, __ATOMIC_SEQ_CST); }
static void bpost(int t) { __atomic_store_n(&baton[t], 1, __ATOMIC_SEQ_CST); }
static void *thr_main(void *a);
static void *nat_main(void *a) { intptr_t t = (intptr_t)a; bwait(t); thr_main(a); return NULL; }
static void nat_new(int t) { pthread_t p; pthread_create(&p, NULL, nat_main, (void *)(intptr_t)t); }
static void nat_switch(int t) { int me = g_cur; g_cur = t; bpost(t); bwait(me); }
#ifdef TSAN
void __tsan_acquire(void *p);
void __tsan_release(void *p);
#define sx_acquire(p) __tsan_acquire((void *)(p))
#define sx_release(p) __tsan_release((void *)(p))
#else
#define sx_acquire(p) ((void)(p))
#define sx_release(p) ((void)(p))
#endif
#define do_switch(t) nat_switch(t)
#define do_new(t) nat_new(t)
#else
void sx_acquire(const void *p);         /* order between threads: what came before a release is seen after the acquire */
void sx_release(const void *p);
int sx_thread(void *(*fn)(void *), void *arg);
void sx_switch(int t);
static void *thr_main(void *a);
static void do_switch(int t) { g_cur = t; sx_switch(t); }
static void do_new(int t) { sx_thread(thr_main, (void *)(intptr_t)t); }
#endif

/* close signals go to the thread named by F_SETOWN_EX, and die with it */

static int g_mon_t[NMON];
static void mon_signal(int r, int tid)
{
    int t = tid - TID0;
    if (t < 0 || t >= NTHR || !thr[t].used || thr[t].done || g_mon_n >= NMON) return;
    sx_release(&thr[t]);
    g_mon_t[g_mon_n] = t; g_mon_q[g_mon_n++] = r;
}
static int mon_has(int t) { for (int i = 0; i < g_mon_n; i++) if (g_mon_t[i] == t) return 1; return 0; }
static int mon_take(int t)
{
    for (int i = 0; i < g_mon_n; i++) if (g_mon_t[i] == t) {
        int fd = g_mon_q[i];
        for (; i + 1 < g_mon_n; i++) { g_mon_q[i] = g_mon_q[i + 1]; g_mon_t[i] = g_mon_t[i + 1]; }
        g_mon_n--;
        return fd;
    }
    return -1;
}
static int can_run(int t)
{
    struct mthr *x = &thr[t];
    if (!x->used || x->done) return 0;
    switch (x->why) {
    case B_NO: return 1;
    case B_MUTEX: return MLOCK(x->m) == 0;
    case B_COND: return x->wake;
    case B_SIG: return mon_has(t) || (x->cancel_pending && g_cancel_state[t] == PTHREAD_CANCEL_ENABLE);
    case B_JOIN: return thr[x->join].done;
    case B_EP: return km_ep_ready(x->ep) || (x->cancel_pending && g_cancel_state[t] == PTHREAD_CANCEL_ENABLE);
    }
    return 0;
}
/* the running thread cannot go on (why is set): run others until it can.
 * Returns 0 if nobody can run. */
static int wait_turn(void)
{
    int me = g_cur;
    while (!can_run(me)) {
        int n = 0, cand[NTHR];
        for (int t = 0; t < NTHR; t++) if (t != me && can_run(t)) cand[n++] = t;
        if (n == 0) return 0;
        do_switch(cand[n > 1 && g_preempt > 0 ? nd_pick(n) : 0]);
    }
    thr[me].why = B_NO;
    return 1;
}
static void sched_point(void)
{
    int n = 0, cand[NTHR];
    if (g_preempt <= 0) return;
    for (int t = 0; t < NTHR; t++) if (t != g_cur && can_run(t)) cand[n++] = t;
    if (n == 0 || !sx_concrete(sx_nd(1))) return;
    g_preempt--;
    do_switch(cand[n > 1 ? nd_pick(n) : 0]);
}
/* with g_preempt_sys also at system calls */
static void sched_sys(void) { if (g_preempt_sys) sched_point(); }
static void deadlock(void)
{
    CHECK(0, "no thread waits for a lock that is never released");
    sx_stop();
}
void km_others(void)
{
    for (int k = 0; k < 12; k++) {
        int t;
        for (t = 0; t < NTHR; t++) if (t != g_cur && can_run(t)) break;
        if (t == NTHR) return;
        do_switch(t);
    }
}
/* let thread t run until it ends, waits or is preempted */
void km_step(int t) { if (can_run(t)) do_switch(t); }
static void thr_exit(void)
{
    sx_release(&thr[g_cur].done);
    thr[g_cur].done = 1;
    while (mon_take(g_cur) >= 0) ;
    for (;;) {
        int t;
        for (t = 0; t < NTHR; t++) if (can_run(t)) break;
        if (t == NTHR) deadlock();
        do_switch(t);
    }
}
static void *thr_main(void *a)
{
    int t = (int)(intptr_t)a;
    thr[t].fn(thr[t].arg);
    thr_exit();
    return NULL;
}
int km_spawn(void *(*fn)(void *), void *arg)
{
    int t = nthr;
    if (t >= NTHR) return -1;
    nthr++;
    thr[t].used = 1; thr[t].fn = fn; thr[t].arg = arg;
    g_cancel_state[t] = PTHREAD_CANCEL_ENABLE;
    g_mask[t] = g_cur ? g_mask[g_cur] : g_sigblock;
    do_new(t);
    return t;
}
/* from here on this is the child of a fork(): only the running thread exists */
void km_fork_child(void)
{
    for (int t = 0; t < NTHR; t++) if (t != g_cur && thr[t].used) thr[t].done = 1;
    g_mon_n = 0;
}
/* threads that ended and were neither joined nor detached */
int km_zombie_threads(void) { int n = 0; for (int t = 1; t < NTHR; t++) if (thr[t].used && thr[t].done && !thr[t].detached) n++; return n; }
/* the signals that every thread but the first one blocks */
uint64_t km_lib_blocks(void)
{
    uint64_t m = ~0ULL;
    for (int t = 1; t < NTHR; t++) if (thr[t].used && !thr[t].done) m &= g_mask[t];
    return m;
}
int km_done(int t) { return thr[t].done; }
void km_join(int t) { thr[g_cur].why = B_JOIN; thr[g_cur].join = t; if (!wait_turn()) deadlock(); sx_acquire(&thr[t].done); }
int km_mon_running(void) { int n = 0; for (int t = 1; t < NTHR; t++) if (thr[t].used && !thr[t].done) n++; return n; }

int mk_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { MLOCK(m) = 0; return 0; }
int mk_pthread_mutex_destroy(pthread_mutex_t *m)
{
    CHECK(MLOCK(m) == 0, "no mutex is destroyed while it is held");
    return 0;
}
int km_locked(pthread_mutex_t *m) { return MLOCK(m) != 0; }
int mk_pthread_mutex_lock(pthread_mutex_t *m)
{
    sched_point();
    if (g_env_on) h_env(ENV_LOCK);
    CHECK(MLOCK(m) != MSELF, "no thread locks a mutex it already holds");
    if (MLOCK(m)) {
        thr[g_cur].why = B_MUTEX; thr[g_cur].m = m;
        if (!wait_turn()) deadlock();
    }
    MLOCK(m) = MSELF;
    sx_acquire(m);
    g_locks++;
    return 0;
}
int mk_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (MLOCK(m)) return EBUSY;
    MLOCK(m) = MSELF;
    sx_acquire(m);
    g_locks++;
    return 0;
}
int mk_pthread_mutex_unlock(pthread_mutex_t *m)
{
    CHECK(MLOCK(m) == MSELF, "only the holder of a mutex unlocks it");
    sx_release(m);
    MLOCK(m) = 0;
    g_locks--;
    sched_point();
    return 0;
}
int mk_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return 0; }
int mk_pthread_cond_destroy(pthread_cond_t *c) { return 0; }
int mk_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    CHECK(MLOCK(m) == MSELF, "a condition is waited for with its mutex held");
    sx_release(m);
    MLOCK(m) = 0; g_locks--;
    thr[g_cur].why = B_COND; thr[g_cur].c = c; thr[g_cur].wake = 0;
    if (g_spurious && nd_pick(2)) { g_spurious--; thr[g_cur].wake = 1; }     /* it may end for no reason */
    if (!wait_turn()) deadlock();
    if (MLOCK(m)) { thr[g_cur].why = B_MUTEX; thr[g_cur].m = m; if (!wait_turn()) deadlock(); }
    MLOCK(m) = MSELF; g_locks++;
    sx_acquire(m);
    return 0;
}
int mk_pthread_cond_signal(pthread_cond_t *c)
{
    for (int t = 0; t < NTHR; t++) if (thr[t].used && thr[t].why == B_COND && thr[t].c == c && !thr[t].wake) { thr[t].wake = 1; break; }
    return 0;
}
int mk_pthread_cond_broadcast(pthread_cond_t *c)
{
    for (int t = 0; t < NTHR; t++) if (thr[t].used && thr[t].why == B_COND && thr[t].c == c) thr[t].wake = 1;
    return 0;
}
int mk_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    int n;
    if (fault()) return EAGAIN;
    n = km_spawn(fn, arg);
    if (n < 0) return EAGAIN;
    *t = (pthread_t)n;
    return 0;
}
int mk_pthread_cancel(pthread_t t)
{
    if (t >= NTHR || !thr[t].used || thr[t].done) return ESRCH;
    thr[t].cancel_pending = 1;
    return 0;
}
/* act on a pending cancellation: run the cleanup handlers, newest first */
#ifdef NATIVE
#include <setjmp.h>
static void unwind_to(__pthread_unwind_buf_t *b) { longjmp((void *)b->__cancel_jmp_buf, 1); }
#else
void sx_longjmp(void *buf);
static void unwind_to(__pthread_unwind_buf_t *b) { sx_longjmp(b); }
#endif
static void do_cancel(void)
{
    struct mthr *x = &thr[g_cur];
    x->cancelling = 1;
    if (x->ncl) unwind_to(x->cl[--x->ncl]);
    thr_exit();
}
static void test_cancel(void)
{
    if (thr[g_cur].cancel_pending && !thr[g_cur].cancelling && g_cancel_state[g_cur] == PTHREAD_CANCEL_ENABLE) do_cancel();
}
void mk___pthread_register_cancel(__pthread_unwind_buf_t *b) { if (thr[g_cur].ncl < NCLEAN) thr[g_cur].cl[thr[g_cur].ncl++] = b; }
void mk___pthread_unregister_cancel(__pthread_unwind_buf_t *b) { if (thr[g_cur].ncl) thr[g_cur].ncl--; }
void mk___pthread_unwind_next(__pthread_unwind_buf_t *b) { do_cancel(); for (;;) ; }

/* an unlimited wait on epoll instance e: 1 if something became ready, 0 if nothing ever will */
static int sched_block_ep(int e)
{
    thr[g_cur].why = B_EP; thr[g_cur].ep = e;
    if (!wait_turn()) { thr[g_cur].why = B_NO; return 0; }
    test_cancel();
    return 1;
}
int mk_sigwaitinfo(const sigset_t *s, siginfo_t *si)
{
    int fd;
    test_cancel();
    if (g_spurious && nd_pick(2)) { g_spurious--; errno = EINTR; return -1; }
    thr[g_cur].why = B_SIG;
    if (!wait_turn()) deadlock();
    test_cancel();
    fd = mon_take(g_cur);
    sx_acquire(&thr[g_cur]);
    memset(si, 0, sizeof(*si));
    si->si_fd = fd;
    for (int i = 1; i <= 64; i++) if (get_set(s) & (1ULL << (i - 1))) { si->si_signo = i; return i; }
    errno = EAGAIN;
    return -1;
}
int mk_sigwait(const sigset_t *s, int *sig) { siginfo_t si; int r = mk_sigwaitinfo(s, &si); if (r < 0) return errno; *sig = r; return 0; }
int mk_sigtimedwait(const sigset_t *s, siginfo_t *si, const struct timespec *ts) { return mk_sigwaitinfo(s, si); }
int mk_pthread_join(pthread_t t, void **rv)
{
    if (t >= NTHR || !thr[t].used) return ESRCH;
    km_join((int)t);
    thr[t].detached = 1;
    if (rv) *rv = thr[t].cancel_pending ? PTHREAD_CANCELED : NULL;
    return 0;
}
int mk_pthread_detach(pthread_t t) { if (t < NTHR) thr[t].detached = 1; return 0; }
int mk_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int mk_pthread_setname_np(pthread_t t, const char *n) { return 0; }
int mk_pthread_mutexattr_init(pthread_mutexattr_t *a) { return 0; }
int mk_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return 0; }
int mk_pthread_condattr_init(pthread_condattr_t *a) { return 0; }
int mk_pthread_condattr_destroy(pthread_condattr_t *a) { return 0; }
int mk_pthread_attr_init(pthread_attr_t *a) { return 0; }
int mk_pthread_attr_destroy(pthread_attr_t *a) { return 0; }
int mk_pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { return 0; }
pthread_t mk_pthread_self(void) { return (pthread_t)g_cur; }
int mk_pthread_once(pthread_once_t *o, void (*fn)(void)) { if (!*o) { *o = 1; fn(); sx_release(o); } sx_acquire(o); return 0; }
int mk_pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void))
{ g_pre = a; g_par = b; g_chi = c; g_atfork_n++; return 0; }
int mk_pthread_setcancelstate(int s, int *old)
{
    if (old) *old = g_cancel_state[g_cur];
    g_cancel_state[g_cur] = s;
    return 0;
}
void mk_pthread_testcancel(void) { test_cancel(); }

#ifdef NATIVE
/* ---- replay: recorded values in, verdict out ---- */
static uint64_t *vals; static size_t nvals, pos;
void sx_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); _exit(77); } }
void sx_check(int c, const char *msg) { if (!c) { fprintf(stderr, "REPLAY: violated: %s\n", msg); _exit(99); } }
void sx_cover(const char *l) { }
void sx_trace(const char *m, uint64_t v) { fprintf(stderr, "REPLAY: %s %llu\n", m, (unsigned long long)v); }
void sx_stop(void) { fprintf(stderr, "REPLAY: completed without a violation\n"); _exit(0); }
uint64_t sx_concrete(uint64_t v) { return v; }
int sx_symbolic(uint64_t v) { return 0; }
#ifdef TSAN
void __tsan_write_range(void *p, unsigned long n);
void sx_fills(const void *p, uint64_t n) { if (n) __tsan_write_range((void *)p, n); }
#else
void sx_fills(const void *p, uint64_t n) { }
#endif
uint64_t sx_nd(unsigned w) { uint64_t v = pos < nvals ? vals[pos++] : 0; return w >= 64 ? v : v & ((1ULL << w) - 1); }
void harness(void);
int main(int argc, char **argv)
{
    FILE *f = fopen(argv[1], "r");
    unsigned long long v;
    if (!f) return 2;
    vals = malloc(sizeof(*vals) * 100000);
    while (nvals < 100000 && fscanf(f, "%llu", &v) == 1) vals[nvals++] = v;
    fclose(f);
    harness();
    fprintf(stderr, "REPLAY: completed without a violation\n");
    _exit(0);
}
#endif
