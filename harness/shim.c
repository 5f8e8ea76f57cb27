/* LD_PRELOAD shim: a controllable environment for an unmodified yrmcdsd.
 *
 * It never looks at the daemon's internals.  It only replaces the operating
 * system's answers: the clock, the interface list (who owns the virtual IP),
 * the polling granularity, and (when asked) short reads/writes, EINTR, delays
 * and descriptor exhaustion.  Everything is driven through a small shared
 * page (YRSHIM_CTL) that the driver maps.
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <malloc.h>
#include <net/if.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct ctl {
    volatile int64_t freeze_time;   /*  0: 1 = time() returns now_sec         */
    volatile int64_t now_sec;       /*  1 */
    volatile int64_t freeze_mono;   /*  2: 1 = CLOCK_MONOTONIC is mono_ns     */
    volatile int64_t mono_ns;       /*  3 */
    volatile int64_t vip_mode;      /*  4: 0 real, 1 owner, 2 not owner       */
    volatile int64_t epoll_ms;      /*  5: upper bound of epoll_wait timeouts */
    volatile int64_t perturb;       /*  6: 1/N chance of a delay at each sync point */
    volatile int64_t perturb_us;    /*  7: maximum delay                      */
    volatile int64_t recv_max;      /*  8: >0: recv() delivers at most this   */
    volatile int64_t short_write;   /*  9: 1/N chance of a short write        */
    volatile int64_t eintr;         /* 10: 1/N chance of EINTR                */
    volatile int64_t emfile;        /* 11: number of accept4 failures to inject */
    volatile int64_t sndbuf;        /* 12: SO_SNDBUF set on accepted sockets  */
    volatile int64_t hold_reactor;  /* 13: 1 = epoll_wait() callers wait      */
    volatile int64_t held;          /* 14: number of threads waiting for 13   */
    volatile int64_t polls;         /* 15: epoll_wait calls so far            */
    volatile int64_t vip_asked;     /* 16: getifaddrs calls so far            */
    volatile int64_t closes;        /* 17 */
    volatile int64_t hold_worker;   /* 18: 1 = recv() on client sockets waits */
    volatile int64_t wheld;         /* 19: threads waiting for 18             */
    volatile int64_t scan_free;     /* 20: 1 = look for the marker in freed blocks, 2 = clear them */
    volatile int64_t residue;       /* 21: freed blocks that held the marker  */
    volatile int64_t marker_len;    /* 22 */
    volatile int64_t accepts;       /* 23 */
    volatile int64_t hold_mutex_us; /* 24: delay after a mutex was taken (1/perturb) */
    volatile int64_t eagain;        /* 25 */
    volatile int64_t hold_gcread;   /* 26 */
    volatile int64_t seed;          /* 27 */
    volatile int64_t hold_start;    /* 28: us a new thread waits before it runs */
    volatile int64_t frees;         /* 29: blocks scanned */
    volatile int64_t clean;         /* 30 */
    volatile int64_t hold_port;     /* 31: recv() on sockets bound to this local port waits while hold_worker */
    volatile int64_t hold_peer[8];  /* 32: recv() on sockets with these peer ports waits */
    volatile int64_t pheld;         /* 40: how many of them are waiting */
    volatile int64_t sleep_max;     /* 41: us; longer sleeps are cut */
    volatile int64_t sleeps;        /* 42 */
    volatile int64_t mark_gc;       /* 43: threads started now are marked */
    volatile int64_t hold_gc;       /* 44: marked threads wait before they lock a mutex (holding none) */
    volatile int64_t gc_held;       /* 45 */
    volatile int64_t gc_go;         /* 46: how often they may go on */
    volatile int64_t gc_alive;      /* 47: marked threads */
    volatile int64_t drained;       /* 48: recv() calls that found nothing */
    volatile int64_t hold_drain[4]; /* 49: recv() on sockets with these peer ports waits after it found nothing */
    volatile int64_t dheld;         /* 53: how many of them are waiting */
    volatile int64_t idle;          /* 54: threads other than the reactor that wait in an 8 byte read() */
    volatile int64_t accept_errno;  /* 55: the error of 11 (0: EMFILE) */
    volatile int64_t accept_blips;  /* 56: number of transient failures of accept4 to inject */
    volatile int64_t poll_max;      /* 57: ms; longer (but finite) timeouts of poll() are cut */
    volatile int64_t slept_us;      /* 58: what was asked for in the sleeps of 42 */
    volatile int64_t mlocked;       /* 59: calls of mlockall (which does nothing) */
    volatile int64_t resv[4];
    char vip[64];                   /* 64*8 */
    char marker[64];
};
static struct ctl *C;

static int (*r_clock_gettime)(clockid_t, struct timespec *);
static int (*r_getifaddrs)(struct ifaddrs **);
static void (*r_freeifaddrs)(struct ifaddrs *);
static int (*r_epoll_wait)(int, struct epoll_event *, int, int);
static ssize_t (*r_recv)(int, void *, size_t, int);
static ssize_t (*r_send)(int, const void *, size_t, int);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static int (*r_accept4)(int, struct sockaddr *, socklen_t *, int);
static int (*r_mutex_lock)(pthread_mutex_t *);
static ssize_t (*r_read)(int, void *, size_t);
static int (*r_thread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);

static __thread uint64_t rng;
static __thread int in_shim;
static __thread int marked, depth;

static uint64_t rnd(void) {
    if (!rng) {
        rng = 0x9E3779B97F4A7C15ULL ^ ((uint64_t)syscall(SYS_gettid) * 0xD1342543DE82EF95ULL);
        if (C) rng ^= (uint64_t)C->seed * 0x2545F4914F6CDD1DULL;
        if (!rng) rng = 1;
    }
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng;
}
static void nap_us(int64_t us) {
    struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
    syscall(SYS_nanosleep, &ts, NULL);
}
static void maybe_delay(void) {
    /* (the harness changes the settings at any time: read each once) */
    int64_t p = C ? C->perturb : 0;
    if (p <= 0 || rnd() % (uint64_t)p) return;
    int64_t m = C->perturb_us;
    if (m <= 0) { syscall(SYS_sched_yield); return; }
    nap_us((int64_t)(rnd() % (uint64_t)m));
}
static int chance(int64_t n) { return n > 0 && (rnd() % (uint64_t)n) == 0; }

static void resolve(void) {
    if (r_recv) return;
    r_clock_gettime = dlsym(RTLD_NEXT, "clock_gettime");
    r_getifaddrs = dlsym(RTLD_NEXT, "getifaddrs");
    r_freeifaddrs = dlsym(RTLD_NEXT, "freeifaddrs");
    r_epoll_wait = dlsym(RTLD_NEXT, "epoll_wait");
    r_send = dlsym(RTLD_NEXT, "send");
    r_writev = dlsym(RTLD_NEXT, "writev");
    r_accept4 = dlsym(RTLD_NEXT, "accept4");
    r_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    r_read = dlsym(RTLD_NEXT, "read");
    r_thread_create = dlsym(RTLD_NEXT, "pthread_create");
    r_recv = dlsym(RTLD_NEXT, "recv");
}

__attribute__((constructor)) static void init(void) {
    resolve();
    const char *p = getenv("YRSHIM_CTL");
    if (!p) return;
    int fd = open(p, O_RDWR | O_CLOEXEC);
    if (fd == -1) return;
    void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) C = m;
}

time_t time(time_t *t) {
    time_t v;
    if (C && C->freeze_time) v = (time_t)C->now_sec;
    else {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        v = ts.tv_sec + (C ? (time_t)C->now_sec : 0);
    }
    if (t) *t = v;
    return v;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (C && id == CLOCK_MONOTONIC && C->freeze_mono) {
        int64_t n = C->mono_ns;
        ts->tv_sec = n / 1000000000LL;
        ts->tv_nsec = n % 1000000000LL;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

struct fake { struct ifaddrs ifa; struct sockaddr_in sa; struct sockaddr_in6 sa6; char name[8]; };
int getifaddrs(struct ifaddrs **out) {
    resolve();
    if (C) __sync_fetch_and_add(&C->vip_asked, 1);
    if (!C || C->vip_mode == 0) return r_getifaddrs(out);
    struct fake *f = calloc(1, sizeof(*f));
    strcpy(f->name, "lo");
    f->ifa.ifa_name = f->name;
    f->ifa.ifa_flags = IFF_UP | IFF_RUNNING;
    f->ifa.ifa_addr = (struct sockaddr *)&f->sa;
    f->sa.sin_family = AF_INET;
    if (C->vip_mode == 1 && strchr(C->vip, ':')) {
        f->ifa.ifa_addr = (struct sockaddr *)&f->sa6;
        f->sa6.sin6_family = AF_INET6;
        inet_pton(AF_INET6, C->vip, &f->sa6.sin6_addr);
    } else if (C->vip_mode == 1) inet_pton(AF_INET, C->vip, &f->sa.sin_addr);
    else inet_pton(AF_INET, "203.0.113.77", &f->sa.sin_addr);
    *out = &f->ifa;
    return 0;
}
void freeifaddrs(struct ifaddrs *p) {
    resolve();
    if (!C || C->vip_mode == 0) { r_freeifaddrs(p); return; }
    free(p);
}

static __thread int polling;
int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) {
    resolve();
    polling = 1;
    if (C) {
        if (C->epoll_ms > 0 && timeout > C->epoll_ms) timeout = (int)C->epoll_ms;
        maybe_delay();
        if (C->hold_reactor) {
            __sync_fetch_and_add(&C->held, 1);
            while (C->hold_reactor) nap_us(200);
            __sync_fetch_and_sub(&C->held, 1);
        }
        __sync_fetch_and_add(&C->polls, 1);
    }
    return r_epoll_wait(ep, ev, max, timeout);
}

static int local_port(int fd) {
    struct sockaddr_storage ss; socklen_t l = sizeof(ss);
    if (getsockname(fd, (struct sockaddr *)&ss, &l)) return -1;
    if (ss.ss_family == AF_INET) return ntohs(((struct sockaddr_in *)&ss)->sin_port);
    if (ss.ss_family == AF_INET6) return ntohs(((struct sockaddr_in6 *)&ss)->sin6_port);
    return -1;
}

static int peer_port(int fd) {
    struct sockaddr_storage ss; socklen_t l = sizeof(ss);
    if (getpeername(fd, (struct sockaddr *)&ss, &l)) return -1;
    if (ss.ss_family == AF_INET) return ntohs(((struct sockaddr_in *)&ss)->sin_port);
    if (ss.ss_family == AF_INET6) return ntohs(((struct sockaddr_in6 *)&ss)->sin6_port);
    return -1;
}
/* (a hold value is a peer port, or that and the local port << 16: connections
 * to several ports may have the same peer port) */
static int64_t both_ports(int fd) {
    int p = peer_port(fd);
    return p > 0 ? p | (int64_t)local_port(fd) << 16 : -1;
}
static int matches(int64_t v, int64_t pp) { return v == pp || v == (pp & 0xffff); }
static int held_peer(int64_t pp) {
    for (int i = 0; i < 8; i++) if (matches(C->hold_peer[i], pp)) return 1;
    return 0;
}

static int drain_any(void) {
    for (int i = 0; i < 4; i++) if (C->hold_drain[i]) return 1;
    return 0;
}
static int held_drain(int64_t pp) {
    for (int i = 0; i < 4; i++) if (matches(C->hold_drain[i], pp)) return 1;
    return 0;
}

ssize_t recv(int fd, void *buf, size_t len, int flags) {
    resolve();
    if (C) {
        int any = 0;
        for (int i = 0; i < 8; i++) any |= C->hold_peer[i] != 0;
        if (any) {
            int64_t p = both_ports(fd);
            /* (not the reactor: a slave may have the same port as a client) */
            if (p > 0 && !polling && held_peer(p)) {
                __sync_fetch_and_add(&C->pheld, 1);
                while (held_peer(p)) nap_us(100);
                __sync_fetch_and_sub(&C->pheld, 1);
            }
        }
        if (C->hold_worker && (C->hold_port == 0 || local_port(fd) == C->hold_port)) {
            __sync_fetch_and_add(&C->wheld, 1);
            while (C->hold_worker) nap_us(200);
            __sync_fetch_and_sub(&C->wheld, 1);
        }
        maybe_delay();
        if (chance(C->eintr)) { errno = EINTR; return -1; }
        int64_t rm = C->recv_max;
        if (rm > 0 && len > (size_t)rm) len = (size_t)(1 + rnd() % (uint64_t)rm);
    }
    ssize_t n = r_recv(fd, buf, len, flags);
    if (C && n == -1 && errno == EAGAIN) {
        __sync_fetch_and_add(&C->drained, 1);
        int64_t p = drain_any() && !polling ? both_ports(fd) : 0;
        if (p > 0 && held_drain(p)) {
            __sync_fetch_and_add(&C->dheld, 1);
            while (held_drain(p)) nap_us(100);
            __sync_fetch_and_sub(&C->dheld, 1);
        }
        errno = EAGAIN;
    }
    return n;
}
ssize_t send(int fd, const void *buf, size_t len, int flags) {
    resolve();
    if (C) {
        maybe_delay();
        if (chance(C->eintr)) { errno = EINTR; return -1; }
        if (len > 1 && chance(C->short_write)) len = 1 + (size_t)(rnd() % (uint64_t)(len - 1));
    }
    ssize_t n = r_send(fd, buf, len, flags | MSG_NOSIGNAL * 0);
    if (C && n == -1 && (errno == EAGAIN)) __sync_fetch_and_add(&C->eagain, 1);
    return n;
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    resolve();
    if (C && cnt > 0) {
        maybe_delay();
        struct stat st;
        if ((C->eintr > 0 || C->short_write > 0) && fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode)) {
            if (chance(C->eintr)) { errno = EINTR; return -1; }
            if (chance(C->short_write)) {
                struct iovec v[64];
                int n = cnt > 64 ? 64 : cnt;
                size_t total = 0;
                for (int i = 0; i < n; i++) { v[i] = iov[i]; total += v[i].iov_len; }
                if (total > 1) {
                    size_t keep = 1 + (size_t)(rnd() % (uint64_t)(total - 1));
                    int k = 0;
                    size_t acc = 0;
                    for (; k < n; k++) {
                        if (acc + v[k].iov_len >= keep) { v[k].iov_len = keep - acc; k++; break; }
                        acc += v[k].iov_len;
                    }
                    return r_writev(fd, v, k);
                }
            }
        }
    }
    ssize_t n = r_writev(fd, iov, cnt);
    if (C && n == -1 && (errno == EAGAIN)) __sync_fetch_and_add(&C->eagain, 1);
    return n;
}
ssize_t read(int fd, void *buf, size_t len) {
    resolve();
    if (!C || len != 8 || polling) return r_read(fd, buf, len);
    __sync_fetch_and_add(&C->idle, 1);
    ssize_t n = r_read(fd, buf, len);
    int e = errno;
    __sync_fetch_and_sub(&C->idle, 1);
    errno = e;
    return n;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) {
    resolve();
    if (C && C->emfile > 0) {
        __sync_fetch_and_sub(&C->emfile, 1);
        errno = C->accept_errno ? (int)C->accept_errno : EMFILE;
        return -1;
    }
    if (C && C->accept_blips > 0) {
        /* see accept(2), "Error handling" */
        static const int e[] = { EINTR, ECONNABORTED, ENETDOWN, EPROTO, ENOPROTOOPT, EHOSTDOWN,
                                 ENONET, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH };
        int64_t k = __sync_fetch_and_sub(&C->accept_blips, 1);
        errno = e[k % (int64_t)(sizeof(e) / sizeof(e[0]))];
        return -1;
    }
    int s = r_accept4(fd, a, l, flags);
    if (C && s != -1) {
        __sync_fetch_and_add(&C->accepts, 1);
        if (C->sndbuf > 0) {
            int v = (int)C->sndbuf;
            setsockopt(s, SOL_SOCKET, SO_SNDBUF, &v, sizeof(v));
        }
    }
    return s;
}
static int take_token(void) {
    int64_t v = C->gc_go;
    if (v <= 0) return 0;
    /* no longer held before the token is gone */
    __sync_fetch_and_sub(&C->gc_held, 1);
    if (__sync_bool_compare_and_swap(&C->gc_go, v, v - 1)) return 1;
    __sync_fetch_and_add(&C->gc_held, 1);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!r_mutex_lock) { resolve(); if (!r_mutex_lock) return 0; }
    if (marked && C) {
        if (depth == 0 && C->hold_gc) {
            __sync_fetch_and_add(&C->gc_held, 1);
            for (;;) {
                if (!C->hold_gc) { __sync_fetch_and_sub(&C->gc_held, 1); break; }
                if (take_token()) break;
                nap_us(50);
            }
        }
        depth++;
    }
    if (C && C->perturb > 0 && !in_shim) { in_shim = 1; maybe_delay(); in_shim = 0; }
    int r = r_mutex_lock(m);
    int64_t hm = C ? C->hold_mutex_us : 0;
    if (hm > 0 && !in_shim) {
        in_shim = 1;
        if (chance(C->perturb)) nap_us((int64_t)(rnd() % (uint64_t)hm));
        in_shim = 0;
    }
    return r;
}

static int (*r_mutex_unlock)(pthread_mutex_t *);
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!r_mutex_unlock) {
        r_mutex_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
        if (!r_mutex_unlock) return 0;
    }
    if (marked && depth > 0) depth--;
    return r_mutex_unlock(m);
}

static int short_sleep(const struct timespec *t, struct timespec *rem) {
    struct timespec v = *t;
    __sync_fetch_and_add(&C->sleeps, 1);
    __sync_fetch_and_add(&C->slept_us, t->tv_sec * 1000000LL + t->tv_nsec / 1000);
    if (v.tv_sec * 1000000LL + v.tv_nsec / 1000 > C->sleep_max) {
        v.tv_sec = C->sleep_max / 1000000;
        v.tv_nsec = (C->sleep_max % 1000000) * 1000;
    }
    return (int)syscall(SYS_nanosleep, &v, rem);
}
int mlockall(int flags) {
    (void)flags;
    if (C) __sync_fetch_and_add(&C->mlocked, 1);
    return 0;
}

int nanosleep(const struct timespec *t, struct timespec *rem) {
    if (C && C->sleep_max > 0) return short_sleep(t, rem);
    return (int)syscall(SYS_nanosleep, t, rem);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) {
    if (C && C->sleep_max > 0 && !flags) return short_sleep(t, rem) ? errno : 0;
    return syscall(SYS_clock_nanosleep, id, flags, t, rem) ? errno : 0;
}

struct tramp { void *(*f)(void *); void *a; int mark; };
static void *trampoline(void *p) {
    struct tramp t = *(struct tramp *)p;
    free(p);
    if (C && C->hold_start > 0) nap_us(C->hold_start);
    if (!t.mark) return t.f(t.a);
    marked = 1;
    void *r = t.f(t.a);
    __sync_fetch_and_sub(&C->gc_alive, 1);
    return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    resolve();
    if (C && (C->hold_start > 0 || C->mark_gc)) {
        struct tramp *p = malloc(sizeof(*p));
        p->f = f; p->a = arg; p->mark = C->mark_gc != 0;
        if (p->mark) __sync_fetch_and_add(&C->gc_alive, 1);
        return r_thread_create(t, a, trampoline, p);
    }
    return r_thread_create(t, a, f, arg);
}

/* Freed blocks must not still hold the secret marker. */
extern void __libc_free(void *);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_malloc(size_t);
static void scan(void *p) {
    size_t n = malloc_usable_size(p);
    size_t ml = (size_t)C->marker_len;
    if (C->scan_free == 2) {    /* not to be counted, nor to be found later */
        if (ml && n >= ml && memmem(p, n, (const void *)C->marker, ml)) memset(p, 0, n);
        return;
    }
    __sync_fetch_and_add(&C->frees, 1);
    if (ml && n >= ml && memmem(p, n, (const void *)C->marker, ml))
        __sync_fetch_and_add(&C->residue, 1);
}
void free(void *p) {
    if (p && C && C->scan_free) { int e = errno; scan(p); errno = e; }
    __libc_free(p);
}
void *realloc(void *p, size_t n) {
    if (p && n && C && C->scan_free) {
        void *q = __libc_malloc(n);
        if (!q) return q;
        size_t o = malloc_usable_size(p);
        memcpy(q, p, o < n ? o : n);
        free(p);
        return q;
    }
    return __libc_realloc(p, n);
}
/* The program may call its allocator by other names. */
static void *next_of(const char *n) { return dlsym(RTLD_NEXT, n); }
#define SCAN(p) do { if ((p) && C && C->scan_free) { int e_ = errno; scan(p); errno = e_; } } while (0)
void tc_free(void *p) {
    static void (*f)(void *);
    if (!f) { f = next_of("tc_free"); if (!f) f = __libc_free; }
    SCAN(p);
    f(p);
}
void *tc_realloc(void *p, size_t n) {
    static void *(*f)(void *, size_t);
    static void *(*m)(size_t);
    if (!f) {
        m = next_of("tc_malloc"); f = next_of("tc_realloc");
        if (!f) { f = __libc_realloc; m = __libc_malloc; }
    }
    if (p && n && C && C->scan_free) {
        void *q = m(n);
        if (!q) return q;
        size_t o = malloc_usable_size(p);
        memcpy(q, p, o < n ? o : n);
        tc_free(p);
        return q;
    }
    return f(p, n);
}
void _ZdlPv(void *p) {
    static void (*f)(void *);
    if (!f) { f = next_of("_ZdlPv"); if (!f) f = __libc_free; }
    SCAN(p);
    f(p);
}
void _ZdaPv(void *p) {
    static void (*f)(void *);
    if (!f) { f = next_of("_ZdaPv"); if (!f) f = __libc_free; }
    SCAN(p);
    f(p);
}
void _ZdlPvm(void *p, size_t n) {
    static void (*f)(void *, size_t);
    if (!f) f = next_of("_ZdlPvm");
    SCAN(p);
    if (f) f(p, n); else _ZdlPv(p);
}

/* ---- poll() */
static int (*r_poll)(struct pollfd *, nfds_t, int);
int poll(struct pollfd *fds, nfds_t n, int ms) {
    if (!r_poll) r_poll = dlsym(RTLD_NEXT, "poll");
    if (C && C->poll_max > 0 && ms > C->poll_max) ms = (int)C->poll_max;
    return r_poll(fds, n, ms);
}
