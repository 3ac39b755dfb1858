/*
 * km.h - the operating-system model: state, ghost state and helpers, shared by
 * kmodel.c and the harnesses.
 *
 * libkqueue's sources are compiled unmodified.  Every external function f they call
 * is bound to mk_f of kmodel.c: by name inside the symbolic executor, by renaming the
 * undefined symbols of the object files (objcopy) in a native replay.
 */
#ifndef KM_H
#define KM_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/wait.h>
#include <linux/sockios.h>

#ifndef NFD
#define NFD 24                  /* size of the modelled descriptor table = RLIMIT_NOFILE */
#endif
#define NEP 4                   /* modelled epoll instances (= kqueues alive at a time) */
#define NUF 4                   /* modelled user files / sockets */
#define NPROC 2                 /* modelled child processes */
#define NIQ 4                   /* inotify queue length */
#define NMON 6                  /* pending close signals */
#define NTHR 6
#define NCLEAN 4

enum kkind { K_FREE = 0, K_STD, K_EPOLL, K_PIPER, K_PIPEW, K_EVENTFD, K_TIMER,
             K_SIGNAL, K_INOTIFY, K_PIDFD, K_USER };

struct kfd {
    int      kind;
    int      cloexec, nonblock;
    int      async, sig, owner;         /* pipe read end: O_ASYNC, F_SETSIG, F_SETOWN_EX */
    int      peer, peer_open;           /* pipes */
    int      ep;                        /* epoll instance */
    uint64_t cnt;                       /* eventfd counter, timer expirations, queue length */
    struct itimerspec its;              /* timerfd: as armed */
    int      tflags, tclock, tarmed, nset;
    uint64_t sset;                      /* signalfd mask, bit n-1 = signal n */
    int      pid;                       /* pidfd: process index */
    int      uf;                        /* user file index (K_USER, K_INOTIFY watch) */
    uint32_t imask;                     /* inotify watch mask */
    int      iwatch, iwd;               /* inotify watch present, its descriptor */
    uint32_t iq[NIQ]; int iqwd[NIQ];    /* inotify pending event masks */
};

struct kint {                           /* epoll interest entry */
    int      in;
    uint32_t ev;
    epoll_data_t data;
    int      off;                       /* disarmed by EPOLLONESHOT */
    int      edge;                      /* EPOLLET: unreported wakeup */
};

struct kuf {                            /* a user file */
    mode_t   mode;                      /* S_IFMT bits */
    int      stype, listening, bpf;
    uint32_t mask;                      /* poll mask */
    int      inq, outq, soerr;
    int      ioctl_fails;
    off_t    size, pos;
    nlink_t  nlink;
    int      fstat_errno, readlink_errno;
};

struct kproc {
    pid_t pid;
    int   state;                        /* 0 none, 1 running, 2 zombie, 3 reaped */
    int   code, status;
    int   gone;                         /* reaped by somebody else */
};

extern struct kfd   kfd[NFD];
extern struct kint  kint_[NEP][NFD];
extern struct kuf   kuf[NUF];
extern struct kproc kproc[NPROC];

/* ---- ghost state ---- */
extern int      g_live;                 /* live heap blocks of the library */
extern int      g_low;                  /* lowest descriptor number that is not taken: 3, 0 if the application closed 0..2 */
extern int      g_rlim;                 /* the limit on descriptors, if it is not NFD */
extern int      g_faults;               /* how many injected failures are still allowed */
extern int      g_injected;             /* how many were injected */
extern int      g_locks;                /* mutexes currently held, all threads */
extern int      g_cancel_state[NTHR];   /* PTHREAD_CANCEL_* per thread */
extern int      g_waits;                /* epoll_wait/ppoll calls */
extern int      g_wait_inf;             /* a wait without a limit was requested */
extern int      g_tw_n, g_tw_kind;      /* waits of some length that found nothing; the last one: 1 epoll_wait, 2 ppoll */
extern int64_t  g_tw_ms;                /* ... its length in milliseconds (1) */
extern struct timespec g_tw_ts;         /* ... its length (2) */
extern int      g_wait_max;             /* largest number of events asked of epoll_wait */
extern int      g_blocked;              /* a wait could never have ended */
extern int      g_wait_err;             /* errno a wait is to fail with (0 = none) */
extern int      g_user_touch;           /* library closed/read/wrote/seeked a user descriptor */
extern int      g_close_bad;            /* library closed a descriptor that was not open */
extern uint64_t g_sigpend, g_sigblock;
extern int      g_rot;                  /* first descriptor scanned by epoll_wait */
extern int      g_env_on;               /* call h_env() at waits */
extern int      g_mon_q[NMON], g_mon_n; /* queued close signals (read-end fds) */
extern int      g_cur;                  /* running thread (0 = main) */
extern int      g_preempt_sys;          /* ... and at system calls */
extern int      g_preempt;              /* preemptions still allowed at lock operations */
extern int      g_debug;                /* KQUEUE_DEBUG in the environment */
extern int      g_atexit_n, g_atfork_n;
extern void   (*g_pre)(void), (*g_par)(void), (*g_chi)(void);
extern void   (*g_atexit[8])(void);

/* ---- helpers for harnesses ---- */
void     km_init(void);
int      km_newfd(int kind);
int      km_user_fd(int u);             /* open user file u, returns fd */
void     km_close(int fd);              /* the application closes a descriptor */
void     km_wake(int fd);               /* a wakeup on the descriptor's wait queue */
void     km_ready(int u, uint32_t mask);/* user file u now polls as mask; wakes its waiters */
uint32_t km_poll(int fd);
int      km_ep_ready(int ep);
void     km_timer_fire(int fd, uint64_t n);
void     km_vnode_event(int u, uint32_t mask);
void     km_raise(int sig);
uint64_t km_lib_blocks(void);
int      km_zombie_threads(void);
extern int g_spurious;                 /* so many waits for a condition or signal end for no reason */
void     km_exit(int p, int code, int status);
int      km_open_count(void);           /* open descriptors other than std and user */
int      km_kind_count(int kind);
int      km_find(int kind, int nth);    /* nth open fd of a kind, -1 if none */
int      km_noncloexec(void);           /* open library fds without close-on-exec */
int      km_mon_running(void);          /* threads other than main that exist */
void     km_others(void);
void     km_step(int t);               /* let thread t run until it ends, waits or is preempted */
void     km_step(int t);               /* let all other threads run until they block */
int      km_spawn(void *(*fn)(void *), void *arg);
void     km_join(int t);
int      km_done(int t);
void     km_fork_child(void);           /* only the running thread is left */
int      km_locked(pthread_mutex_t *m);
void     h_env(int where);              /* provided by the harness (weak default) */
#define ENV_WAIT 1
#define ENV_LOCK 2

/* ---- nondeterminism (symbolic; recorded values in a replay) ---- */
uint64_t sx_nd(unsigned width);
void     sx_assume(int c);
void     sx_check(int c, const char *msg);
void     sx_cover(const char *label);
void     sx_trace(const char *msg, uint64_t v);
void     sx_stop(void) __attribute__((noreturn));
uint64_t sx_concrete(uint64_t v);
void     sx_fills(const void *p, uint64_t n);    /* the kernel writes there: counts as the caller's access (--races) */
int      sx_symbolic(uint64_t v);        /* does v depend on unknown values? */
#ifdef NATIVE
#define sx_malloc malloc
#define sx_calloc calloc
#define sx_free   free
#define sx_realloc realloc
#else
void *sx_malloc(size_t); void *sx_calloc(size_t, size_t); void sx_free(void *); void *sx_realloc(void *, size_t);
#endif

#define ASSUME(c)     sx_assume(!!(c))
#define CHECK(c, msg) sx_check(!!(c), msg)
#define COVER(l)      sx_cover(l)
static inline uint64_t nd(void) { return sx_nd(64); }
static inline int nd_bool(void) { return (int)sx_nd(1); }
static inline uint32_t nd_u32(void) { return (uint32_t)sx_nd(32); }
/* a value below n */
static inline uint64_t nd_below(uint64_t n)
{
    unsigned w = 1;
    uint64_t v;
    while (w < 64 && (1ULL << w) < n) w++;
    v = sx_nd(w);
    sx_assume(v < n);
    return v;
}
/* a value below n on which the run forks at once */
static inline int nd_pick(int n) { return (int)sx_concrete(nd_below(n)); }
#endif
