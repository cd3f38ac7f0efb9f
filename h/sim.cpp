#include "sim.h"
#include <execinfo.h>
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <pthread.h>
#include <dirent.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <map>
#include <set>
#include <deque>

#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__)
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
REAL(int, pthread_join, pthread_t, void **);
REAL(void, pthread_exit, void *);
REAL(int, pthread_detach, pthread_t);
REAL(int, pthread_mutex_init, pthread_mutex_t *, const pthread_mutexattr_t *);
REAL(int, pthread_mutex_destroy, pthread_mutex_t *);
REAL(int, pthread_mutex_lock, pthread_mutex_t *);
REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
REAL(int, pthread_cond_init, pthread_cond_t *, const pthread_condattr_t *);
REAL(int, pthread_cond_destroy, pthread_cond_t *);
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
REAL(int, pthread_cond_signal, pthread_cond_t *);
REAL(int, pthread_cond_broadcast, pthread_cond_t *);
REAL(int, pthread_rwlock_init, pthread_rwlock_t *, const pthread_rwlockattr_t *);
REAL(int, pthread_rwlock_destroy, pthread_rwlock_t *);
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *);
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
REAL(int, epoll_wait, int, struct epoll_event *, int, int);
REAL(int, epoll_ctl, int, int, int, struct epoll_event *);
REAL(int, poll, struct pollfd *, nfds_t, int);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, recv, int, void *, size_t, int);
REAL(ssize_t, send, int, const void *, size_t, int);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(ssize_t, sendmsg, int, const struct msghdr *, int);
REAL(int, shutdown, int, int);
REAL(int, close, int);
REAL(int, accept, int, struct sockaddr *, socklen_t *);
REAL(int, accept4, int, struct sockaddr *, socklen_t *, int);
REAL(int, socket, int, int, int);
REAL(int, bind, int, const struct sockaddr *, socklen_t);
REAL(int, setsockopt, int, int, int, const void *, socklen_t);
REAL(int, nanosleep, const struct timespec *, struct timespec *);
REAL(int, usleep, useconds_t);
REAL(unsigned, sleep, unsigned);
REAL(int, sched_yield, void);
REAL(int, clock_gettime, clockid_t, struct timespec *);
REAL(time_t, time, time_t *);
REAL(int, sigaction, int, const struct sigaction *, struct sigaction *);
REAL(int, setrlimit, int, const struct rlimit *);

enum K { READY, MUTEX, COND, RDL, WRL, JOIN, SLEEP, EPOLL, POLLW, DONE };
static const char *kname[] = {"ready", "mutex", "cond", "rdlock", "wrlock", "join", "sleep", "epoll", "poll", "done"};
struct Th {
    int id = 0; int go = 0; K k = READY; const void *obj = nullptr; int64_t deadline = -1; bool timedout = false;
    int fd = -1; struct pollfd *pf = nullptr; int npf = 0; void *ret = nullptr; bool detached = false, joined = false;
    uint64_t prio = 0; pthread_t pt = 0; Str name; void *(*fn)(void *) = nullptr; void *arg = nullptr; std::function<void()> f;
    const char *at = ""; bool waits = false;           // waits: runs an event loop
};
enum { MAXT = 160 };
static Th *th[MAXT]; static int nth = 0; static Th *cur; static __thread Th *self;
static bool on = false;
static SimCfg cf; static Rng rng(1);
static int64_t vclock = 0;              // ns
static bool io_dirty = true;
static enum { NORMAL, STEPS, QUIET, PASS, NAP } dmode = NORMAL; static uint64_t dleft; static int64_t duntil; static bool didle, fired;
static Str err;                          // illegal action by a simulated thread
uint64_t sim_total_steps, sim_switches, sim_preempts, sim_partial_writes, sim_eagain_writes; void (*sim_close_hook)(int); bool sim_tls; int sim_sndbuf, sim_fail_create;
static uint64_t call_steps; static const uint64_t CALLCAP = 1500000;
static bool capped;
static int64_t countdown; static int starve = -1; static uint64_t pct_next;
static std::set<int> server_fds;

static void futex_wait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void wake(Th *t) { __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void wait_go(Th *t) { while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) futex_wait(&t->go, 0); __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST); }
static void illegal(const Str &s) { if (err.empty()) err = s; }
static void draw_countdown() {
    if (!cf.preempt) countdown = 20000; // long spins must still yield
    else countdown = 1 + (int64_t)rng.below(2 * cf.preempt);
}

static void refresh_fds() {
    if (!io_dirty && !sim_tls) return;
    io_dirty = false;
    for (int i = 0; i < nth; i++) {
        Th *t = th[i];
        if (t->k == EPOLL) { struct pollfd p = {t->fd, POLLIN, 0}; if (__real_poll(&p, 1, 0) > 0) t->k = READY; }
        else if (t->k == POLLW) { if (__real_poll(t->pf, t->npf, 0) != 0) t->k = READY; }
    }
}
static Th *pick(Th **r, int n) {
    switch (cf.strat) {
    case 1: return r[rng.below(n)];
    case 2: {
        if (sim_total_steps >= pct_next) { cur->prio = rng.below(1000); pct_next = sim_total_steps + 1 + rng.below(400); }
        Th *b = r[0]; for (int i = 1; i < n; i++) if (r[i]->prio > b->prio) b = r[i];
        return b; }
    case 3: {
        if (rng.below(600) == 0) starve = (int)rng.below(nth);
        Th *o[MAXT]; int m = 0; for (int i = 0; i < n; i++) if (r[i]->id != starve) o[m++] = r[i];
        if (!m) return r[0];
        for (int i = 0; i < m; i++) if (o[i] == cur && rng.below(100) >= cf.switch_pct) return cur;
        return o[rng.below(m)]; }
    case 4: for (int d = 1; d <= nth; d++) for (int i = 0; i < n; i++) if (r[i]->id == (cur->id + d) % nth) return r[i]; return r[0];
    default:
        for (int i = 0; i < n; i++) if (r[i] == cur && rng.below(100) >= cf.switch_pct) return cur;
        return r[rng.below(n)];
    }
}
static Th *choose() {
    for (;;) {
        sim_total_steps++; call_steps++; vclock += 50; if (cf.lag && self && self->id && rng.below(cf.lag) == 0) vclock += rng.below(cf.lag_us) * 1000;
        if (dmode == STEPS) { if (dleft == 0) return th[0]; dleft--; }
        if (dmode == NAP && fired) { if (dleft == 0) return th[0]; dleft--; }
        if (dmode != NORMAL && call_steps > CALLCAP) { capped = true; return th[0]; }
        refresh_fds();
        Th *r[MAXT]; int n = 0;
        for (int i = 0; i < nth; i++) {
            Th *t = th[i];
            if (t->k != READY && t->k != DONE && t->deadline >= 0 && t->deadline <= vclock) { t->timedout = true; t->k = READY; fired = true; }
            if (t->k == READY && (i || dmode == NORMAL)) r[n++] = t;
        }
        if (n) return pick(r, n);
        if (dmode == STEPS || dmode == QUIET) { didle = true; return th[0]; }
        int64_t nd = -1;
        for (int i = 0; i < nth; i++) if (th[i]->k != DONE && th[i]->k != READY && th[i]->deadline >= 0 && (nd < 0 || th[i]->deadline < nd)) nd = th[i]->deadline;
        if (dmode == PASS || dmode == NAP) {
            if (nd < 0 || nd > duntil) { vclock = std::max(vclock, duntil); didle = true; return th[0]; }
            vclock = std::max(vclock, nd); call_steps = 0; continue;
        }
        if (nd < 0) { // the driver itself is blocked for ever
            fprintf(stderr, "pbt: simulated deadlock of the driver\n%s\n", sim_dump().c_str()); abort();
        }
        vclock = std::max(vclock, nd);
    }
}
static void resched(const char *at) {
    Th *me = self; if (!me || !on) return;
    me->at = at;
    Th *n = choose();
    draw_countdown();
    if (n == me) return;
    sim_switches++;
    cur = n; wake(n); wait_go(me);
}
static void block(K k, const void *obj, int64_t deadline, const char *at) {
    Th *me = self; me->k = k; me->obj = obj; me->deadline = deadline; me->timedout = false;
    resched(at);
    me->obj = nullptr; me->deadline = -1;
}
static void unblock(K k, const void *obj, bool one = false) {
    Th *c[MAXT]; int n = 0;
    for (int i = 0; i < nth; i++) if (th[i]->k == k && th[i]->obj == obj) c[n++] = th[i];
    if (!n) return;
    if (one) { c[rng.below(n)]->k = READY; return; }
    for (int i = 0; i < n; i++) c[i]->k = READY;
}
std::function<void()> sim_read_hook; static bool in_hook;
static inline bool simd() { return on && self && !in_hook; }

// ---------------------------------------------------------------- live heap blocks of the simulated threads
enum { LB = 18 };
static struct Blk { const void *p; uint32_t n; uint32_t seq; } *blk; static size_t nblk, bytes_live, tomb; static uint32_t bseq; static bool btrace; static void *(*btr)[14];
static size_t bslot(const void *p) { return ((uintptr_t)p * 0x9E3779B97F4A7C15ull) >> (64 - LB); }
static bool blk_skip;   // glibc caches automaton states inside the compiled expression: not a block of a client
struct Untracked { bool o = blk_skip; Untracked() { blk_skip = true; } ~Untracked() { blk_skip = o; } };   // the simulation's own allocations; never across a switch
static void on_malloc(const volatile void *pp, size_t n) {
    if (!on || blk_skip || !self || self->id == 0 || !blk || nblk + tomb > (1u << LB) * 3 / 4) return;
    const void *p = (const void *)pp; size_t i = bslot(p); while (blk[i].p && blk[i].p != (void *)-1) i = (i + 1) & ((1 << LB) - 1);
    if (blk[i].p) tomb--; blk[i].p = p; blk[i].n = (uint32_t)n; blk[i].seq = ++bseq; nblk++; bytes_live += n;
    if (btrace) { bool o = on; on = false; memset(btr[i], 0, sizeof btr[i]); backtrace(btr[i], 14); on = o; }
}
static void on_free(const volatile void *pp) {
    if (!on || !blk || !nblk) return;
    const void *p = (const void *)pp; size_t i = bslot(p); while (blk[i].p && blk[i].p != p) i = (i + 1) & ((1 << LB) - 1);
    if (!blk[i].p) return;
    blk[i].p = (void *)-1; tomb++; nblk--; bytes_live -= blk[i].n;
}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void blocks_init() {
    if (blk) { memset((void *)blk, 0, sizeof(Blk) << LB); nblk = bytes_live = tomb = 0; bseq = 0; return; }
    blk = (Blk *)mmap(0, sizeof(Blk) << LB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    btrace = getenv("SIM_TRACE"); if (btrace) { btr = (void *(*)[14])mmap(0, sizeof(*btr) << LB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); void *d[2]; backtrace(d, 2); }
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
}
#include <regex.h>
extern "C" int __real_regexec(const regex_t *, const char *, size_t, regmatch_t *, int);
extern "C" int __wrap_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int f) { blk_skip = true; int x = __real_regexec(r, s, n, m, f); blk_skip = false; return x; }
void *sim_untracked_alloc(void *p, size_t n) { Untracked u; return realloc(p, n); }
// the server is written in C: what new gives belongs to the harness
void *operator new(size_t n) { Untracked u; void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
size_t sim_live_blocks() { return nblk; }
size_t sim_live_bytes() { return bytes_live; }
uint32_t sim_live_mark() { return bseq; }
Str sim_live_since(uint32_t mark) {
    std::vector<Blk> v; std::vector<size_t> at; for (size_t i = 0; i < 1u << LB; i++) if (blk[i].p && blk[i].p != (void *)-1 && blk[i].seq > mark) { v.push_back(blk[i]); at.push_back(i); }
    Str s = fmt("%zu blocks allocated since are still live, of", v.size()); for (size_t i = 0; i < v.size() && i < 12; i++) s += fmt(" %u", v[i].n); s += " bytes\n";
    if (btrace) for (size_t i = 0; i < v.size() && i < 30; i++) { char **x = backtrace_symbols(btr[at[i]], 14); for (int k = 3; k < 14 && x; k++) if (btr[at[i]][k]) s += Str("    ") + x[k] + "\n"; s += "\n"; }
    return s;
}

#if defined(__clang__)
// Sources compiled with trace-loads and trace-stores can be preempted before every access
static __attribute__((no_sanitize("coverage", "address"))) void sim_access() {
    if (!on || self != cur || !self || !self->id) return;
    if (--countdown > 0) return;
    int e = errno; sim_preempts++; resched(self->at); errno = e;
}
#define ACC(n) extern "C" __attribute__((no_sanitize("coverage", "address"))) void __sanitizer_cov_load##n(void *) { sim_access(); } extern "C" __attribute__((no_sanitize("coverage", "address"))) void __sanitizer_cov_store##n(void *) { sim_access(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
extern "C" __attribute__((no_sanitize("coverage", "address"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
extern "C" __attribute__((no_sanitize("coverage", "address"))) void __sanitizer_cov_trace_pc_guard(uint32_t *) {
    if (!on || self != cur || !self) return;
    if (--countdown > 0) return;
    int e = errno; sim_preempts++; resched(self->at); errno = e;
}
#endif

// alloc.c is compiled with these in place of the C library's
std::function<bool()> sim_fail_alloc;
static bool no_memory() { return on && self == cur && self && self->id && !self->waits && sim_fail_alloc && sim_fail_alloc(); }
extern "C" void *sim_malloc(size_t n) { if (no_memory()) { errno = ENOMEM; return nullptr; } return malloc(n); }
extern "C" void *sim_calloc(size_t a, size_t b) { if (no_memory()) { errno = ENOMEM; return nullptr; } return calloc(a, b); }
extern "C" void *sim_realloc(void *p, size_t n) { if (no_memory()) { errno = ENOMEM; return nullptr; } return realloc(p, n); }

std::function<int(const char *)> sim_fail_call;
static __attribute__((noinline)) bool call_fails(const char *what) { if (!on || self != cur || !self || !self->id || !sim_fail_call) return false; int e = sim_fail_call(what); if (e) errno = e; return e; }

// ---------------------------------------------------------------- threads
static void finish(void *r) {
    Th *t = self; t->ret = r; t->k = DONE; unblock(JOIN, t);
    Th *n = choose(); draw_countdown(); cur = n; self = nullptr; wake(n);
}
void (*sim_thread_warm)();
static void *tramp(void *p) {
    Th *t = (Th *)p; self = t; wait_go(t);
    if (sim_thread_warm) { Untracked u; sim_thread_warm(); }
    void *r = nullptr;
    if (t->fn) r = t->fn(t->arg); else t->f();
    finish(r); return r;
}
static Th *new_thread(const char *name) {
    if (nth == MAXT) { fprintf(stderr, "pbt: too many simulated threads\n"); abort(); }
    Th *t = new Th; t->id = nth; t->name = name; t->prio = rng.below(1000); th[nth++] = t; return t;
}
static int launch(Th *t) {
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
    int e = __real_pthread_create(&t->pt, &a, tramp, t); pthread_attr_destroy(&a);
    if (e) { fprintf(stderr, "pbt: pthread_create: %d\n", e); abort(); }
    return 0;
}
extern "C" int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!simd()) return __real_pthread_create(out, attr, fn, arg);
    if (sim_fail_create && --sim_fail_create == 0) return EAGAIN;
    { Untracked u; Th *t = new_thread("thread"); t->fn = fn; t->arg = arg; launch(t); *out = t->pt; }
    resched("create"); return 0;
}
extern "C" int __wrap_pthread_join(pthread_t p, void **ret) {
    if (!simd()) return __real_pthread_join(p, ret);
    Th *t = nullptr; for (int i = 0; i < nth; i++) if (th[i]->pt == p && !th[i]->joined) t = th[i];
    if (!t || t->detached) { illegal("pthread_join of a thread that was already joined"); return ESRCH; }
    if (t == self) return EDEADLK;
    t->joined = true;
    while (t->k != DONE) block(JOIN, t, -1, "join");
    __real_pthread_join(p, nullptr); t->pt = 0;
    if (ret) *ret = t->ret;
    return 0;
}
extern "C" void __wrap_pthread_exit(void *r) { if (simd()) finish(r); __real_pthread_exit(r); __builtin_unreachable(); }
extern "C" int __wrap_pthread_detach(pthread_t p) {
    if (simd()) for (int i = 0; i < nth; i++) if (th[i]->pt == p) th[i]->detached = true;
    return __real_pthread_detach(p);
}

// ---------------------------------------------------------------- mutexes, emulated inside the caller's memory
struct Mx { int owner, count, type, dead; };
extern "C" int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    if (!on) return __real_pthread_mutex_init(m, a);
    memset(m, 0, sizeof *m); int ty = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &ty);
    Mx *x = (Mx *)m; x->type = ty; return 0;
}
extern "C" int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    if (!on) return __real_pthread_mutex_destroy(m);
    Mx *x = (Mx *)m; if (x->owner) return EBUSY; x->dead = 1; return 0;
}
static int mlock(pthread_mutex_t *m, bool wait, const char *at) {
    Mx *x = (Mx *)m;
    if (x->dead) return EINVAL;
    if (x->owner == self->id + 1 && x->type == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
    if (x->owner == self->id + 1 && x->type == PTHREAD_MUTEX_ERRORCHECK) return wait ? EDEADLK : EBUSY;
    while (x->owner) { if (!wait) return EBUSY; block(MUTEX, m, -1, at); if (x->dead) return EINVAL; }
    x->owner = self->id + 1; x->count = 1; return 0;
}
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!simd()) return __real_pthread_mutex_lock(m);
    resched("lock"); return mlock(m, true, "lock");
}
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!simd()) return __real_pthread_mutex_trylock(m);
    resched("trylock"); return mlock(m, false, "trylock");
}
extern "C" int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return __wrap_pthread_mutex_lock(m); }
static void munlock(pthread_mutex_t *m) {
    Mx *x = (Mx *)m;
    if (x->owner && x->type == PTHREAD_MUTEX_RECURSIVE && --x->count > 0) return;
    x->owner = 0; x->count = 0; unblock(MUTEX, m);
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!simd()) return __real_pthread_mutex_unlock(m);
    Mx *x = (Mx *)m;
    if (x->dead) return EINVAL;
    if (x->type != PTHREAD_MUTEX_NORMAL && x->owner != self->id + 1) return EPERM;
    munlock(m); resched("unlock"); return 0;
}
// ---------------------------------------------------------------- condition variables
extern "C" int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
    if (!on) return __real_pthread_cond_init(c, a);
    memset(c, 0, sizeof *c); return 0;
}
extern "C" int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
    if (!on) return __real_pthread_cond_destroy(c);
    for (int i = 0; i < nth; i++) if (th[i]->k == COND && th[i]->obj == c) illegal("condition variable destroyed while a thread waits on it");
    *(volatile char *)c = 0; return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl) {
    *(volatile char *)c; int cnt = ((Mx *)m)->count; ((Mx *)m)->count = 1;
    munlock(m);
    if (cf.spurious && rng.below(8) == 0) resched("cond"); else block(COND, c, dl, "cond");
    bool to = self->timedout;
    mlock(m, true, "cond relock"); ((Mx *)m)->count = cnt > 0 ? cnt : 1;
    return to ? ETIMEDOUT : 0;
}
extern "C" int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!simd()) return __real_pthread_cond_wait(c, m);
    return cwait(c, m, -1);
}
static const int64_t EPOCH = 1700000000;
extern "C" int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    if (!simd()) return __real_pthread_cond_timedwait(c, m, t);
    int64_t s = t->tv_sec; if (s > EPOCH / 2) s -= EPOCH;
    return cwait(c, m, s * 1000000000ll + t->tv_nsec);
}
extern "C" int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    if (!simd()) return __real_pthread_cond_signal(c);
    *(volatile char *)c; unblock(COND, c, true); resched("signal"); return 0;
}
extern "C" int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    if (!simd()) return __real_pthread_cond_broadcast(c);
    *(volatile char *)c; unblock(COND, c); resched("broadcast"); return 0;
}
// ---------------------------------------------------------------- read-write locks (glibc: readers preferred)
struct Rw { int writer, readers, dead; };
extern "C" int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) {
    if (!on) return __real_pthread_rwlock_init(l, a);
    memset(l, 0, sizeof *l); return 0;
}
extern "C" int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) {
    if (!on) return __real_pthread_rwlock_destroy(l);
    *(volatile char *)l; return 0;
}
static int rd(pthread_rwlock_t *l, bool wait) {
    Rw *x = (Rw *)l; if (x->writer == self->id + 1) return EDEADLK;
    while (x->writer) { if (!wait) return EBUSY; block(RDL, l, -1, "rdlock"); }
    x->readers++; return 0;
}
static int wr(pthread_rwlock_t *l, bool wait) {
    Rw *x = (Rw *)l; if (x->writer == self->id + 1) return EDEADLK;
    while (x->writer || x->readers) { if (!wait) return EBUSY; block(WRL, l, -1, "wrlock"); }
    x->writer = self->id + 1; return 0;
}
extern "C" int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!simd()) return __real_pthread_rwlock_rdlock(l); resched("rdlock"); return rd(l, true); }
extern "C" int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!simd()) return __real_pthread_rwlock_wrlock(l); resched("wrlock"); return wr(l, true); }
extern "C" int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!simd()) return __real_pthread_rwlock_tryrdlock(l); resched("tryrdlock"); return rd(l, false); }
extern "C" int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!simd()) return __real_pthread_rwlock_trywrlock(l); resched("trywrlock"); return wr(l, false); }
extern "C" int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!simd()) return __real_pthread_rwlock_unlock(l);
    Rw *x = (Rw *)l;
    if (x->writer) x->writer = 0; else if (x->readers > 0) x->readers--; else illegal("read-write lock unlocked while not locked");
    if (!x->readers && !x->writer) unblock(WRL, l);
    unblock(RDL, l); resched("rwunlock"); return 0;
}
// ---------------------------------------------------------------- time
extern "C" int __wrap_nanosleep(const struct timespec *t, struct timespec *rem) {
    if (!simd()) return __real_nanosleep(t, rem);
    block(SLEEP, t, vclock + t->tv_sec * 1000000000ll + t->tv_nsec, "nanosleep"); return 0;
}
extern "C" int __wrap_usleep(useconds_t us) { if (!simd()) return __real_usleep(us); block(SLEEP, nullptr, vclock + us * 1000ll, "usleep"); return 0; }
extern "C" unsigned __wrap_sleep(unsigned s) { if (!simd()) return __real_sleep(s); block(SLEEP, nullptr, vclock + s * 1000000000ll, "sleep"); return 0; }
extern "C" int __wrap_sched_yield(void) { if (!simd()) return __real_sched_yield(); resched("yield"); return 0; }
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
    if (!on) return __real_clock_gettime(c, t);
    int64_t v = vclock + 5000ll * 1000000000; t->tv_sec = v / 1000000000 + (c == CLOCK_REALTIME ? EPOCH : 0); t->tv_nsec = v % 1000000000; return 0;
}
extern "C" time_t __wrap_time(time_t *t) { if (!on) return __real_time(t); time_t v = EPOCH + 5000 + vclock / 1000000000; if (t) *t = v; return v; }
// ---------------------------------------------------------------- descriptors
extern "C" int __wrap_epoll_wait(int e, struct epoll_event *ev, int max, int to) {
    if (!simd()) return __real_epoll_wait(e, ev, max, to);
    self->waits = true;
    resched("epoll_wait");
    if (cf.eintr && rng.below(40) == 0) { errno = EINTR; return -1; }
    int64_t dl = to < 0 ? -1 : vclock + to * 1000000ll;
    for (;;) {
        int n = __real_epoll_wait(e, ev, max, 0);
        if (n != 0) return n;
        if (to == 0) return 0;
        self->fd = e; io_dirty = true; block(EPOLL, nullptr, dl, "epoll_wait");
        if (self->timedout) { n = __real_epoll_wait(e, ev, max, 0); return n; }
    }
}
extern "C" int __wrap_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) {
    if (!simd()) return __real_epoll_ctl(e, op, fd, ev);
    resched("epoll_ctl"); if (call_fails("epoll_ctl")) return -1; int r = __real_epoll_ctl(e, op, fd, ev); io_dirty = true; return r;
}
extern "C" int __wrap_poll(struct pollfd *p, nfds_t n, int to) {
    if (!simd()) return __real_poll(p, n, to);
    resched("poll");
    if (cf.eintr && rng.below(40) == 0) { errno = EINTR; return -1; }
    int64_t dl = to < 0 ? -1 : vclock + to * 1000000ll;
    std::vector<struct pollfd> q(p, p + n);                // the kernel works on what it read when it was called
    int r;
    for (;;) {
        r = __real_poll(q.data(), n, 0);
        if (r != 0 || to == 0) break;
        self->pf = q.data(); self->npf = (int)n; io_dirty = true; block(POLLW, nullptr, dl, "poll");
        if (self->timedout) { r = __real_poll(q.data(), n, 0); break; }
    }
    int e = errno; for (nfds_t i = 0; i < n; i++) p[i].revents = q[i].revents;
    errno = e; return r;
}
static void own(int fd, const char *what) { if (simd() && fd >= 500) illegal(fmt("%s on a descriptor of the test harness (%d)", what, fd)); }
static void read_hook() { if (sim_read_hook && !in_hook) { Untracked u; in_hook = true; sim_read_hook(); in_hook = false; } }   // another party acts right before the server reads
extern "C" int __real_SSL_read(void *, void *, int);
extern "C" int __wrap_SSL_read(void *s, void *b, int n) { if (simd() && self->id) { resched("SSL_read"); read_hook(); io_dirty = true; } return __real_SSL_read(s, b, n); }
extern "C" ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (!simd() || self->id == 0) return __real_read(fd, b, n);
    resched("read"); own(fd, "read"); read_hook(); ssize_t r = __real_read(fd, b, n); int e = errno; io_dirty = true;
    if (r < 0 && e == EBADF) illegal(fmt("read of closed descriptor %d", fd));
    errno = e; return r;
}
extern "C" ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if (!simd() || self->id == 0) return __real_write(fd, b, n);
    resched("write"); own(fd, "write"); ssize_t r = __real_write(fd, b, n); int e = errno; io_dirty = true;
    if (r >= 0 && (size_t)r < n) sim_partial_writes++;
    if (r < 0 && e == EAGAIN) sim_eagain_writes++;
    if (r < 0 && e == EBADF && self->name != "signal") illegal(fmt("write to closed descriptor %d", fd));
    errno = e; return r;
}
extern "C" ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { if (!simd() || self->id == 0) return __real_recv(fd, b, n, fl); resched("recv"); own(fd, "recv"); ssize_t r = __real_recv(fd, b, n, fl); io_dirty = true; return r; }
extern "C" ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) {
    if (!simd() || self->id == 0) return __real_send(fd, b, n, fl);
    resched("send"); own(fd, "send"); ssize_t r = __real_send(fd, b, n, fl); int e = errno; io_dirty = true;
    if (r >= 0 && (size_t)r < n) sim_partial_writes++; if (r < 0 && e == EAGAIN) sim_eagain_writes++;
    errno = e; return r; }
extern "C" ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { if (!simd() || self->id == 0) return __real_writev(fd, v, n); resched("writev"); own(fd, "writev"); ssize_t r = __real_writev(fd, v, n); io_dirty = true; return r; }
extern "C" ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) { if (!simd() || self->id == 0) return __real_sendmsg(fd, m, fl); resched("sendmsg"); own(fd, "sendmsg"); ssize_t r = __real_sendmsg(fd, m, fl); io_dirty = true; return r; }
extern "C" int __wrap_shutdown(int fd, int how) { if (!simd() || self->id == 0) return __real_shutdown(fd, how); resched("shutdown"); own(fd, "shutdown"); int r = __real_shutdown(fd, how); io_dirty = true; return r; }
extern "C" int __wrap_close(int fd) {
    if (!simd() || self->id == 0) return __real_close(fd);
    resched("close");
    if (sim_close_hook) { Untracked u; sim_close_hook(fd); return 0; }
    if (fd >= 500) { illegal(fmt("close of a descriptor the server does not own (%d)", fd)); errno = EBADF; return -1; }
    int r = __real_close(fd); int e = errno; io_dirty = true;
    if (r < 0 && e == EBADF && fd >= 0) illegal(fmt("descriptor %d closed twice", fd));
    errno = e; return r;
}
// ---------------------------------------------------------------- sockets
static std::set<int> inet6_fds;
static std::map<int, int> unix_port;                                    // listening fd -> port
struct Peer { Str ip; int port; };
static std::map<int, std::deque<Peer>> pending;                         // port -> connecting peers, in order
static void un_addr(struct sockaddr_un &u, socklen_t &l, int port) {
    memset(&u, 0, sizeof u); u.sun_family = AF_UNIX;
    int n = snprintf(u.sun_path + 1, sizeof u.sun_path - 2, "wsssim-%d-%d", (int)getpid(), port); l = offsetof(struct sockaddr_un, sun_path) + 1 + n;
}
extern "C" int __wrap_socket(int d, int t, int p) { if (!on) return __real_socket(d, t, p); if (call_fails("socket")) return -1; Untracked u; if (d == AF_INET6 || d == AF_INET) { int fd = __real_socket(AF_UNIX, t, 0); inet6_fds.erase(fd); if (d == AF_INET6) inet6_fds.insert(fd); return fd; } return __real_socket(d, t, p); }
extern "C" int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) {
    if (!on || (a->sa_family != AF_INET6 && a->sa_family != AF_INET)) return __real_bind(fd, a, n);
    if (call_fails("bind")) return -1;
    int port = ntohs(a->sa_family == AF_INET6 ? ((struct sockaddr_in6 *)a)->sin6_port : ((struct sockaddr_in *)a)->sin_port);
    struct sockaddr_un u; socklen_t l; un_addr(u, l, port); int r = __real_bind(fd, (struct sockaddr *)&u, l);
    Untracked ut; if (r == 0) unix_port[fd] = port;
    return r;
}
int sim_occupy(int port) { int fd = sim_high_fd(__real_socket(AF_UNIX, SOCK_STREAM, 0)); struct sockaddr_un u; socklen_t l; un_addr(u, l, port); if (__real_bind(fd, (struct sockaddr *)&u, l)) abort(); return fd; }
extern "C" int __real_listen(int, int); extern "C" int __wrap_listen(int fd, int n) { return call_fails("listen") ? -1 : __real_listen(fd, n); }
extern "C" int __real_pipe(int *); extern "C" int __wrap_pipe(int *p) { return call_fails("pipe") ? -1 : __real_pipe(p); }
extern "C" int __real_epoll_create1(int); extern "C" int __wrap_epoll_create1(int f) { return call_fails("epoll_create1") ? -1 : __real_epoll_create1(f); }
extern "C" int __real_fcntl(int, int, long); extern "C" int __wrap_fcntl(int fd, int cmd, long v) { return call_fails("fcntl") ? -1 : __real_fcntl(fd, cmd, v); }
extern "C" int __wrap_setsockopt(int fd, int lv, int o, const void *v, socklen_t n) { if (call_fails("setsockopt")) return -1; if (on && lv == IPPROTO_TCP) return 0; if (on && lv == IPPROTO_IPV6) return 0; return __real_setsockopt(fd, lv, o, v, n); }
static int do_accept(int fd, struct sockaddr *a, socklen_t *n, int fl) {
    resched("accept"); own(fd, "accept");
    int r = __real_accept4(fd, nullptr, nullptr, fl); int e = errno; io_dirty = true;
    if (r >= 0) {
        Untracked u; Peer p = {"0.0.0.0", 0}; auto it = unix_port.find(fd);
        if (it != unix_port.end() && !pending[it->second].empty()) { p = pending[it->second].front(); pending[it->second].pop_front(); }
        if (sim_sndbuf) __real_setsockopt(r, SOL_SOCKET, SO_SNDBUF, &sim_sndbuf, sizeof sim_sndbuf);
        if (a && n) {
            if (inet6_fds.count(fd)) {
                struct sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = htons(p.port);
                Str t = p.ip.find(':') == Str::npos ? "::ffff:" + p.ip : p.ip; inet_pton(AF_INET6, t.c_str(), &s.sin6_addr);
                memcpy(a, &s, std::min<socklen_t>(*n, sizeof s)); *n = sizeof s;
            } else {
                struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(p.port); inet_pton(AF_INET, p.ip.c_str(), &s.sin_addr);
                memcpy(a, &s, std::min<socklen_t>(*n, sizeof s)); *n = sizeof s;
            }
        }
    }
    errno = e; return r;
}
extern "C" int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) { if (!simd()) return __real_accept(fd, a, n); return do_accept(fd, a, n, 0); }
extern "C" int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) { if (!simd()) return __real_accept4(fd, a, n, fl); return do_accept(fd, a, n, fl); }
int sim_high_fd(int fd) { int h = fcntl(fd, F_DUPFD_CLOEXEC, 500); if (h < 0) return fd; __real_close(fd); return h; }
int sim_connect(int port, const char *ip, int pport, int sndbuf) {
    int s = __real_socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); s = sim_high_fd(s);
    fcntl(s, F_SETFL, fcntl(s, F_GETFL) | O_NONBLOCK);
    if (sndbuf) __real_setsockopt(s, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
    struct sockaddr_un u; socklen_t l; un_addr(u, l, port);
    if (connect(s, (struct sockaddr *)&u, l) != 0) { __real_close(s); return -1; }
    pending[port].push_back({ip, pport}); io_dirty = true; return s;
}
void sim_touch_io() { io_dirty = true; }
// ---------------------------------------------------------------- signals and limits
static std::map<int, void (*)(int)> handlers;
extern "C" int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    if (!on) return __real_sigaction(s, a, o);
    Untracked u; if (o) memset(o, 0, sizeof *o);
    if (a) handlers[s] = a->sa_handler;
    if (a && s == SIGPIPE) { struct sigaction x; memset(&x, 0, sizeof x); x.sa_handler = a->sa_handler == SIG_DFL ? SIG_DFL : SIG_IGN; __real_sigaction(s, &x, nullptr); }
    return 0;
}
extern "C" __attribute__((no_sanitize("address"))) int __wrap_setrlimit(int w, const struct rlimit *r) { if (!on) return __real_setrlimit(w, r); return call_fails("setrlimit") ? -1 : 0; }
bool sim_has_handler(int s) { return handlers.count(s); }
void sim_signal(int s) { auto h = handlers[s]; if (h) sim_spawn("signal", [h, s] { h(s); }); }
int sim_fd_count() {
    int n = 0; for (int i = 0; i < 500; i++) if (fcntl(i, F_GETFD) != -1) n++;
    return n;
}
// ---------------------------------------------------------------- driver
void sim_begin(const SimCfg &c) {
    blocks_init();
    cf = c; rng = Rng(c.seed); nth = 0; Th *t = new_thread("driver"); self = cur = t; on = true; dmode = NORMAL; vclock = 0; draw_countdown(); pct_next = 1 + rng.below(400);
    starve = -1; err.clear(); io_dirty = true; sim_total_steps = sim_switches = sim_preempts = sim_partial_writes = sim_eagain_writes = 0;
    unix_port.clear(); pending.clear(); handlers.clear(); inet6_fds.clear();
    struct sigaction x; memset(&x, 0, sizeof x); x.sa_handler = SIG_DFL; __real_sigaction(SIGPIPE, &x, nullptr); // the runner ignores it; the server must handle it itself
}
void sim_end() { on = false; self = nullptr; struct sigaction x; memset(&x, 0, sizeof x); x.sa_handler = SIG_IGN; __real_sigaction(SIGPIPE, &x, nullptr); }
int sim_spawn(const char *name, std::function<void()> f) { Th *t = new_thread(name); t->f = f; launch(t); return t->id; }
bool sim_exit_ends; int sim_exited = -1;
extern "C" __attribute__((noreturn)) void __real_exit(int); extern "C" __attribute__((noreturn, no_sanitize("address"))) void __wrap_exit(int s) { if (sim_exit_ends && on && self && self->id) { sim_exited = s & 255; finish(nullptr); __real_pthread_exit(nullptr); } __real_exit(s); }
int sim_running() { int n = 0; for (int i = 1; i < nth; i++) n += th[i]->k != DONE; return n; }
bool sim_finished(int id) { return th[id]->k == DONE; }
static void drive(int m) {
    dmode = (decltype(dmode))m; call_steps = 0; capped = false; didle = false;
    resched("driver");
    dmode = NORMAL;
    if (!err.empty()) fail("illegal-operation", "%s", err.c_str());
    if (capped) fail("livelock", "no quiescence after %llu scheduling steps\n%s", (unsigned long long)CALLCAP, sim_dump().c_str());
}
void sim_nap(int64_t ms, uint64_t steps) { duntil = vclock + ms * 1000000; fired = false; dleft = steps; io_dirty = true; drive(NAP); }
bool sim_steps(uint64_t n) { dleft = n; io_dirty = true; drive(STEPS); return didle; }
void sim_quiet() { io_dirty = true; drive(QUIET); }
void sim_sleep(int64_t ms) { duntil = vclock + ms * 1000000; io_dirty = true; drive(PASS); }
int64_t sim_ms() { return vclock / 1000000; }
int64_t sim_us() { return vclock / 1000; }
void sim_check() { if (!err.empty()) fail("illegal-operation", "%s", err.c_str()); }
Str sim_dump() {
    Str s;
    for (int i = 1; i < nth; i++) { Th *t = th[i]; if (t->k == DONE) continue;
        s += fmt("  thread %d (%s): %s at %s", i, t->name.c_str(), kname[t->k], t->at);
        if (t->k == MUTEX) s += fmt(", held by thread %d", ((Mx *)t->obj)->owner - 1);
        if (t->k == RDL || t->k == WRL) s += fmt(", writer thread %d, %d readers", ((Rw *)t->obj)->writer - 1, ((Rw *)t->obj)->readers);
        s += "\n"; }
    return s;
}
SimCfg sim_gen(Case &c) {
    SimCfg s; s.strat = c.pick<int>({0, 0, 1, 2, 2, 3, 4}); s.preempt = c.pick<unsigned>({0, 0, 40, 400, 2000});
    s.switch_pct = c.pick<unsigned>({30, 5, 60, 0}); s.spurious = c.chance(1, 5); s.eintr = c.chance(1, 8); s.seed = c.seed(); return s;
}
Str sim_cfg_text(const SimCfg &s) { return fmt("schedule{%s preempt=%u seed=%u%s%s}", s.strat == 0 ? "sticky" : s.strat == 1 ? "random" : s.strat == 2 ? "priorities" : s.strat == 3 ? "starving" : "round-robin", s.preempt, (unsigned)s.seed, s.spurious ? " spurious" : "", s.eintr ? " eintr" : ""); }
REAL(struct tm *, localtime, const time_t *);
extern "C" struct tm *__wrap_localtime(const time_t *t) { Untracked u; return __real_localtime(t); }
