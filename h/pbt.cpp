#include "pbt.h"
#include <ftw.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <algorithm>
#include <map>
#include <set>
#include <atomic>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "quarantine_size_mb=4:thread_local_quarantine_size_kb=64:malloc_context_size=8:"
           "max_allocation_size_mb=4096:handle_abort=0:print_legend=0:symbolize=1:detect_odr_violation=0";
}
size_t alloc_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
size_t alloc_bytes() { return 0; }
#endif

// ---------------------------------------------------------------- coverage
static uint8_t *cov_b[64], *cov_e[64]; static int cov_n = 0;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e) {
    for (int i = 0; i < cov_n; i++) if (cov_b[i] == b) return;
    if (cov_n < 64 && b < e) { cov_b[cov_n] = b; cov_e[cov_n] = e; cov_n++; }
}
// PBT_COV=FILE (with a WSS_COV=1 build) lists every instrumented block ("A module offset") and every one reached ("H module offset")
static const uintptr_t *cov_pc[64]; static size_t cov_npc[64]; static int cov_pcs = 0;
static void cov_line(char k, uintptr_t pc) {
    Dl_info d; const char *f = getenv("PBT_COV"); char b[400];
    if (!f || !dladdr((void *)pc, &d)) return;
    int fd = open(f, O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd >= 0) { int n = snprintf(b, sizeof b, "%c %s %lx\n", k, d.dli_fname, (unsigned long)(pc - (uintptr_t)d.dli_fbase)); (void)!write(fd, b, n); close(fd); }
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *b, const uintptr_t *e) {
    for (int i = 0; i < cov_pcs; i++) if (cov_pc[i] == b) return;
    if (cov_pcs < 64 && b < e) { cov_pc[cov_pcs] = b; cov_npc[cov_pcs++] = (e - b) / 2; if (getenv("PBT_COV")) for (; b < e; b += 2) cov_line('A', *b); }
}
extern "C" void pbt_cov_reset() { for (int i = 0; i < cov_n; i++) memset(cov_b[i], 0, cov_e[i] - cov_b[i]); }

// ---------------------------------------------------------------- shared state
enum { MAXBUF = 6144, NLABEL = 192, NSAMPLE = 5, NCORPUS = 1024, VIRGIN = 1 << 17, LOGMAX = 1 << 20, MAXW = 64 };
static const size_t BITMAP_BITS = 1ull << 25;
struct Slot {
    volatile int state;             // 0 idle 1 running 2 failed
    volatile double t0;
    volatile pid_t pid;
    size_t len; uint8_t buf[MAXBUF];
    char sig[160]; char msg[12000]; char desc[16384];
    size_t loglen; uint8_t log[LOGMAX];
    bool nontriv, newcov;
};
struct Shared {
    std::atomic<uint64_t> evals, nontriv, distinct, ncorpus, mutated, knowns;
    std::atomic<int> stop, lock, nsamples, ndesc;
    char labels[NLABEL][64]; std::atomic<uint64_t> labeln[NLABEL]; std::atomic<int> nlabels;
    char samples[NSAMPLE][3000];
    char knownsig[32][160]; std::atomic<uint64_t> knownhit[32];
    struct { volatile size_t len; uint8_t buf[MAXBUF]; } corpus[NCORPUS];
    uint8_t virgin[VIRGIN];
    std::atomic<uint8_t> bitmap[BITMAP_BITS / 8];
    Slot slots[MAXW];
};
static Shared *S;
static Slot *me;
static std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
void add_prop(const Prop &p) { props().push_back(p); }
static std::vector<Str> known;      // signatures of known findings
static bool verbose_child = false;
static bool g_thorough = false;

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void slock() { int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; syscall(SYS_sched_yield); } }
static void sunlock() { S->lock = 0; }

Str fmt(const char *f, ...) {
    char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
    if (n < (int)sizeof b) return Str(b);
    Str s(n + 1, 0); va_start(a, f); vsnprintf(&s[0], n + 1, f, a); va_end(a); s.resize(n); return s;
}
void Case::note(const char *f, ...) {
    if (!want_desc || desc.size() > 12000) return;
    char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); desc += b;
}
uint64_t hash64(const void *p, size_t n, uint64_t h) {
    const uint8_t *d = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ d[i]) * 0x100000001B3ull;
    return h ^ (h >> 29);
}
void Case::key(const void *p, size_t len) { key(hash64(p, len)); }
void fail(const char *sig, const char *f, ...) {
    char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    throw Failure{sig, b};
}
Str hexs(const void *p, size_t n, size_t max) {
    Str s; const uint8_t *d = (const uint8_t *)p; char b[4];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(b, 4, "%02x", d[i]); s += b; }
    if (n > max) s += fmt("..(%zu)", n);
    return s;
}
Str quote(const Str &s, size_t max) {
    Str o = "\""; char b[8];
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n"; else if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += c;
    }
    o += "\""; if (s.size() > max) o += fmt("..(%zu)", s.size());
    return o;
}
void label(const char *name) {
    if (!S) return;
    int n = S->nlabels;
    for (int i = 0; i < n; i++) if (!strcmp(S->labels[i], name)) { S->labeln[i]++; return; }
    slock();
    n = S->nlabels; int i;
    for (i = 0; i < n; i++) if (!strcmp(S->labels[i], name)) break;
    if (i == n && n < NLABEL) { strncpy(S->labels[n], name, 63); S->nlabels = n + 1; }
    sunlock();
    if (i < NLABEL) S->labeln[i]++;
}

size_t gen_len(Case &c, size_t max, const std::vector<size_t> &edges) {
    size_t v;
    switch (c.below(8)) {
    case 0: case 1: v = c.below(33); break;
    case 2: v = c.below(300); break;
    case 3: v = c.below(5000); break;
    case 4: v = c.below(max + 1); break;
    case 5: { int sh = c.below(24); v = (1ull << sh) + c.below(5); v = v >= 2 ? v - 2 : v; break; }
    default:
        if (edges.empty()) v = c.below(130);
        else { v = edges[c.below(edges.size())]; size_t o = c.below(7); v = v + o >= 3 ? v + o - 3 : 0; }
    }
    return v > max ? v % (max + 1) : v;
}
Str gen_payload(Case &c, size_t len) {
    Str s(len, 0);
    int mode = c.below(6);
    uint64_t sd = c.seed();
    Rng r(sd);
    switch (mode) {
    case 0: for (size_t i = 0; i < len; i++) s[i] = 'a' + (i + sd) % 26; break;
    case 1: for (size_t i = 0; i < len; i++) s[i] = (char)r.next(); break;
    case 2: for (size_t i = 0; i < len; i++) s[i] = (char)sd; break;
    case 3: for (size_t i = 0; i < len; i++) s[i] = (char)(i * 7 + (i >> 8) + sd); break;
    case 4: for (size_t i = 0; i < len; i++) s[i] = r.chance(1, 8) ? (char)r.next() : 0; break;
    default: for (size_t i = 0; i < len; i++) s[i] = (char)(i < 16 ? c.byte() : r.next()); break;
    }
    return s;
}

// ---------------------------------------------------------------- running one case
static bool is_known(const Str &sig) {
    for (size_t i = 0; i < known.size() && i < 32; i++) if (known[i] == sig) { S->knownhit[i]++; S->knowns++; return true; }
    return false;
}
// Returns 0 held, 1 failed (details in slot).
static int run_once(const Prop &p, Slot *sl, const uint8_t *b, size_t n, bool desc) {
    Case c(b, n); c.want_desc = desc; c.thorough = g_thorough; if (desc) c.desc.reserve(16384);
    int r = 0;
    try { p.run(c); }
    catch (Failure &f) {
        if (!is_known(f.sig)) {
            strncpy(sl->sig, f.sig.c_str(), sizeof sl->sig - 1);
            strncpy(sl->msg, f.msg.c_str(), sizeof sl->msg - 1);
            r = 1;
        }
    }
    sl->nontriv = c.nontriv;
    if (desc) { strncpy(sl->desc, c.desc.c_str(), sizeof sl->desc - 1); sl->desc[sizeof sl->desc - 1] = 0; }
    // bookkeeping
    S->evals++;
    if (c.nontriv) {
        S->nontriv++;
        uint64_t h = c.keyed ? c.keyhash : hash64(b, std::min(n, c.pos));
        h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h >>= 64 - 25;
        uint8_t bit = 1 << (h & 7);
        if (!(S->bitmap[h >> 3].fetch_or(bit) & bit)) S->distinct++;
    }
    // coverage novelty
    sl->newcov = false;
    size_t off = 0;
    for (int i = 0; i < cov_n; i++) {
        size_t len = cov_e[i] - cov_b[i];
        uint8_t *cb = cov_b[i];
        for (size_t k = 0; k + 8 <= len; k += 8) {
            uint64_t w; memcpy(&w, cb + k, 8);
            if (!w) continue;
            for (int q = 0; q < 8; q++) {
                uint8_t v = cb[k + q]; if (!v) continue;
                uint8_t bk = v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
                size_t ix = (off + k + q) % VIRGIN;
                if (!(S->virgin[ix] & bk)) {
                    if (!S->virgin[ix] && i < cov_pcs && k + q < cov_npc[i]) cov_line('H', cov_pc[i][2 * (k + q)]);
                    S->virgin[ix] |= bk; sl->newcov = true;
                }
            }
        }
        memset(cb, 0, len);
        off += len;
    }
    return r;
}
static void add_corpus(const uint8_t *b, size_t n) {
    uint64_t k = S->ncorpus++;
    if (k >= NCORPUS) k = hash64(b, n) % NCORPUS;
    S->corpus[k].len = 0;
    memcpy(S->corpus[k].buf, b, n);
    S->corpus[k].len = n;
}
static size_t make_case(Rng &r, const Prop &p, uint8_t *b) {
    size_t maxlen = std::min<size_t>(p.maxlen, MAXBUF), n;
    uint64_t nc = std::min<uint64_t>(S->ncorpus, NCORPUS);
    if (nc > 4 && r.chance(2, 5)) {
        auto &e = S->corpus[r.below(nc)];
        { size_t el = e.len; n = std::min(el, maxlen); }
        memcpy(b, e.buf, n);
        if (n) {
            S->mutated++;
            int k = 1 + r.below(4);
            while (k--) {
                size_t i = r.below(n);
                switch (r.below(8)) {
                case 0: case 1: b[i] = r.next(); break;
                case 2: b[i] += (int)r.below(5) - 2; break;
                case 3: b[i] ^= 1 << r.below(8); break;
                case 4: { size_t l = std::min<size_t>(n - i, 1 + r.below(16)); for (size_t j = 0; j < l; j++) b[i + j] = r.next(); break; }
                case 5: { size_t l = std::min<size_t>(n - i, 1 + r.below(32)); memmove(b + i, b + i + l, n - i - l); n -= l; if (!n) { n = 1; b[0] = 0; } break; }
                case 6: { size_t l = std::min<size_t>(maxlen - n, 1 + r.below(32)); memmove(b + i + l, b + i, n - i); for (size_t j = 0; j < l; j++) b[i + j] = r.next(); n += l; break; }
                default: { auto &o = S->corpus[r.below(nc)]; size_t ol0 = o.len, ol = std::min(ol0, maxlen); if (!ol) break;
                    size_t s = r.below(ol), l = std::min({ol - s, n - i, (size_t)(1 + r.below(64))}); memcpy(b + i, (const void *)(o.buf + s), l); break; }
                }
            }
        }
        return n;
    }
    switch (r.below(4)) {
    case 0: n = r.below(24) + 1; break;
    case 1: n = r.below(128) + 1; break;
    case 2: n = r.below(600) + 1; break;
    default: n = r.below(maxlen) + 1;
    }
    n = std::min(n, maxlen);
    for (size_t i = 0; i < n; i += 8) { uint64_t v = r.next(); memcpy(b + i, &v, std::min<size_t>(8, n - i)); }
    if (r.chance(1, 6)) for (size_t i = 0; i < n; i++) if (r.chance(1, 2)) b[i] = 0;
    return n;
}

// ---------------------------------------------------------------- processes
static Str tmpdir;
Str pbt_scratch() { Str d = tmpdir + "/w.XXXXXX"; if (!mkdtemp(&d[0])) { perror("mkdtemp"); _exit(3); } return d; } // pids come around again
static int rm_one(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static Str errfile(int w) { return tmpdir + fmt("/err.%d", w); }
static void child_setup(int w) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!verbose_child) {
        int fd = open(errfile(w).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 4096; setrlimit(RLIMIT_NOFILE, &rl);
}
void pbt_child_exit(int code) { _exit(code); }
static Str slurp(const Str &f, size_t max = 6000) {
    Str s; FILE *fp = fopen(f.c_str(), "r"); if (!fp) return s;
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0 && s.size() < max) s.append(b, n);
    fclose(fp); return s;
}
static Str crash_text(int w, int st) {
    Str e = slurp(errfile(w), 60000);
    Str out; size_t p = e.find("ERROR: AddressSanitizer");
    if (p == Str::npos) p = e.find("runtime error");
    if (p == Str::npos) p = e.find("terminate called");
    if (p != Str::npos) out = e.substr(p, 2500); else out = e.substr(e.size() > 600 ? e.size() - 600 : 0);
    if (WIFSIGNALED(st)) return fmt("killed by signal %d (%s) ", WTERMSIG(st), strsignal(WTERMSIG(st))) + out;
    return fmt("process exited with status %d ", WEXITSTATUS(st)) + out;
}
static Str crash_sig(int w) {
    Str e = slurp(errfile(w), 60000); Str s = "crash";
    size_t p = e.find("ERROR: AddressSanitizer: ");
    if (p != Str::npos) { p += 25; size_t q = e.find_first_of(" \n", p); s = "asan:" + e.substr(p, q - p);
        // first frame in the project's sources
        size_t f = p; int k = 0;
        while ((f = e.find("\n    #", f)) != Str::npos && k++ < 16) {
            size_t eol = e.find('\n', f + 1); Str line = e.substr(f, eol - f);
            size_t in = line.find(" in "); size_t src = line.find("/repo/");
            if (in != Str::npos && src != Str::npos) { Str fn = line.substr(in + 4); s += ":" + fn.substr(0, fn.find(' ')); break; }
            f = eol;
        } }
    return s;
}
// Runs one buffer in a fresh process. 0 held, 1 failed, details into slot w. -1: hang
static int run_forked(const Prop &p, int w, const uint8_t *b, size_t n, bool desc, double wall) {
    Slot *sl = &S->slots[w];
    sl->sig[0] = sl->msg[0] = 0; if (desc) sl->desc[0] = 0;
    sl->newcov = false; sl->nontriv = false;
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(w); me = sl;
        int r = run_once(p, sl, b, n, desc);
        _exit(r ? 3 : 0);
    }
    if (pid < 0) { usleep(20000); return 0; }
    double t0 = now_s(); int st; unsigned us = 20;
    for (;;) {
        pid_t q = waitpid(pid, &st, WNOHANG);
        if (q == pid) break;
        if (now_s() - t0 > wall) {
            kill(pid, SIGKILL); waitpid(pid, &st, 0);
            strcpy(sl->sig, "hang"); snprintf(sl->msg, sizeof sl->msg, "case did not finish within %.0f s", wall);
            return 1;
        }
        usleep(us); if (us < 2000) us += us / 2;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 1;
    Str s = crash_sig(w);
    if (is_known(s)) return 0;
    strncpy(sl->sig, s.c_str(), sizeof sl->sig - 1);
    strncpy(sl->msg, crash_text(w, st).c_str(), sizeof sl->msg - 1);
    return 1;
}
int pbt_slot() { return me ? (int)(me - S->slots) : 0; }
static void maybe_sample(Slot *sl) {
    if (!sl->nontriv || !sl->desc[0]) return;
    int k = S->nsamples;
    if (k >= NSAMPLE) return;
    slock();
    k = S->nsamples;
    if (k < NSAMPLE) { strncpy(S->samples[k], sl->desc, sizeof S->samples[k] - 1); S->nsamples = k + 1; }
    sunlock();
}
static void worker(const Prop &p, int w, uint64_t seed) {
    Slot *sl = me = &S->slots[w];
    Rng r(seed);
    if (p.isolate) {
        while (!S->stop) {
            size_t n = make_case(r, p, sl->buf); sl->len = n;
            sl->t0 = now_s(); sl->state = 1;
            bool desc = S->nsamples < NSAMPLE && r.chance(1, 40);
            int f = run_forked(p, w, sl->buf, n, desc, p.case_wall);
            if (f) { sl->state = 2; _exit(3); }
            sl->state = 0;
            if (sl->newcov) add_corpus(sl->buf, n);
            if (desc) maybe_sample(sl);
        }
        _exit(0);
    }
    sl->loglen = 0;
    double start = now_s();
    for (int k = 0; k < 20000 && !S->stop; k++) {
        size_t n = make_case(r, p, sl->buf); sl->len = n;
        if (sl->loglen + n + 2 > LOGMAX) break;
        memcpy(sl->log + sl->loglen, &n, 2); memcpy(sl->log + sl->loglen + 2, sl->buf, n); sl->loglen += n + 2;
        sl->t0 = now_s(); sl->state = 1;
        bool desc = S->nsamples < NSAMPLE && r.chance(1, 50);
        int f = run_once(p, sl, sl->buf, n, desc);
        if (f) { sl->state = 2; _exit(3); }
        sl->state = 0;
        if (sl->newcov) add_corpus(sl->buf, n);
        if (desc) maybe_sample(sl);
        if ((k & 15) == 0 && now_s() - start > 3) break;
    }
    _exit(0);
}

static bool same_kind(const Str &a, const Str &b) { // keep the failure kind while shrinking
    Str x = a.substr(0, a.find(':')), y = b.substr(0, b.find(':'));
    return x == y;
}
static int tries_per_candidate = 1;
static bool still(const Prop &p, int w, const Buf &b, const Str &sig) {
    for (int i = 0; i < tries_per_candidate; i++)
        if (run_forked(p, w, b.data(), b.size(), false, std::min(p.case_wall, 20.0)) && same_kind(S->slots[w].sig, sig)) return true;
    return false;
}
static Buf shrink(const Prop &p, int w, Buf b, const Str &sig, double budget) {
    double end = now_s() + budget;
    bool progress = true;
    // drop the tail first
    for (size_t cut = b.size(); cut >= 1 && now_s() < end; cut /= 2) {
        while (b.size() > cut) { Buf t(b.begin(), b.end() - cut); if (still(p, w, t, sig)) b = t; else break; if (now_s() > end) break; }
        if (cut == 1) break;
    }
    while (progress && now_s() < end) {
        progress = false;
        for (size_t len = std::max<size_t>(1, b.size() / 2); len >= 1 && now_s() < end; len /= 2) {
            for (size_t i = 0; i + len <= b.size() && now_s() < end;) {
                Buf t(b); t.erase(t.begin() + i, t.begin() + i + len);
                if (still(p, w, t, sig)) { b = t; progress = true; } else i += len;
            }
            for (size_t i = 0; i + len <= b.size() && now_s() < end; i += len) {
                bool z = true; for (size_t j = 0; j < len; j++) if (b[i + j]) z = false;
                if (z) continue;
                Buf t(b); std::fill(t.begin() + i, t.begin() + i + len, 0);
                if (still(p, w, t, sig)) { b = t; progress = true; }
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < b.size() && now_s() < end; i++) {
            int lo = 0, hi = b[i];
            while (lo < hi && now_s() < end) {
                int mid = (lo + hi) / 2; Buf t(b); t[i] = mid;
                if (still(p, w, t, sig)) { b = t; hi = mid; progress = true; } else lo = mid + 1;
            }
        }
    }
    return b;
}

static Str jstr(const Str &s) {
    Str o = "\""; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static Str hexall(const Buf &b) { return hexs(b.data(), b.size(), b.size()); }
static Buf unhex(const Str &h) { Buf b; for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back(strtoul(h.substr(i, 2).c_str(), 0, 16)); return b; }
static Str jget(const Str &s, const char *k) { // tiny reader for our own replay files
    size_t p = s.find(Str("\"") + k + "\""); if (p == Str::npos) return "";
    p = s.find('"', s.find(':', p)); if (p == Str::npos) return "";
    size_t q = s.find('"', p + 1); return s.substr(p + 1, q - p - 1);
}

// A batch failure that depends on state left by earlier cases: replay the sequence.
static int run_batch(const Prop &p, int w, const std::vector<Buf> &seq, double wall) {
    Slot *sl = &S->slots[w]; sl->sig[0] = sl->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) { child_setup(w); me = sl; for (auto &b : seq) if (run_once(p, sl, b.data(), b.size(), false)) _exit(3); _exit(0); }
    double t0 = now_s(); int st;
    for (;;) { pid_t q = waitpid(pid, &st, WNOHANG); if (q == pid) break;
        if (now_s() - t0 > wall) { kill(pid, SIGKILL); waitpid(pid, &st, 0); strcpy(sl->sig, "hang"); return 1; } usleep(500); }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 1;
    strncpy(sl->sig, crash_sig(w).c_str(), sizeof sl->sig - 1); strncpy(sl->msg, crash_text(w, st).c_str(), sizeof sl->msg - 1);
    return 1;
}

static Str as_prop;
int main(int argc, char **argv) {
    Str id, out, replay, tier = "quick", rdir = ".", pid_prop; double secs = 10; int W = 8; uint64_t seed = 1; bool list = false; Str variant;
    for (int i = 1; i < argc; i++) {
        Str a = argv[i]; auto nx = [&]() { return Str(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--tier") tier = nx();
        else if (a == "--secs") secs = atof(nx().c_str()); else if (a == "--workers") W = atoi(nx().c_str());
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--replay-dir") rdir = nx();
        else if (a == "--known") known.push_back(nx()); else if (a == "--list") list = true;
        else if (a == "--variant") variant = nx(); else if (a == "--property") as_prop = nx(); else if (a == "--verbose") verbose_child = true; else id = a;
    }
    if (list) { for (auto &p : props()) printf("%s\n", p.id); return 0; }
    g_thorough = tier == "thorough";
    const Prop *pp = nullptr;
    for (auto &p : props()) if (id == p.id) pp = &p;
    if (!pp) { fprintf(stderr, "no property %s\n", id.c_str()); return 2; }
    const Prop &p = *pp;
    W = std::min(W, (int)MAXW - 1);
    S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    char td[] = "/tmp/pbt.XXXXXX"; if (!mkdtemp(td)) { perror("mkdtemp"); return 2; } tmpdir = td;
    signal(SIGPIPE, SIG_IGN);
    if (p.warm) p.warm();
    pbt_cov_reset();
    auto cleanup = [&]() { nftw(td, rm_one, 16, FTW_DEPTH | FTW_PHYS | FTW_MOUNT); };
    Str propid = as_prop.empty() ? id.substr(0, id.find('.')) : as_prop;

    if (!replay.empty()) {
        Str s = slurp(replay, 8 << 20);
        Str h = jget(s, "case"); Str bt = jget(s, "batch");
        int rc;
        if (!bt.empty()) { std::vector<Buf> seq; size_t a = 0; while (a < bt.size()) { size_t q = bt.find(',', a); if (q == Str::npos) q = bt.size(); seq.push_back(unhex(bt.substr(a, q - a))); a = q + 1; } rc = run_batch(p, 0, seq, 120); }
        else { Buf b = unhex(h); rc = run_forked(p, 0, b.data(), b.size(), true, p.case_wall);
            printf("case: %s\n", S->slots[0].desc); }
        if (rc) printf("failed: [%s] %s\n", S->slots[0].sig, S->slots[0].msg); else printf("held\n");
        cleanup();
        if (rc) printf("VIOLATION property=%s replay=%s\n", propid.c_str(), replay.c_str());
        return rc ? 1 : 0;
    }

    double t0 = now_s(), end = t0 + secs;
    std::vector<pid_t> pids(W, 0); std::vector<uint64_t> gen(W, 0);
    int failed = -1; int fst = 0; bool hang = false; int unconfirmed = 0; Str unconf_msg;
    Str vmsg, vsig, vdesc, vfile, vbody; bool violation = false;
    auto spawn = [&](int w) {
        S->slots[w].state = 0; S->slots[w].sig[0] = S->slots[w].msg[0] = 0;
        pid_t q = fork();
        if (q == 0) { child_setup(w); worker(p, w, seed * 1000003ull + w * 7919ull + gen[w] * 104729ull * 64 + 17); }
        pids[w] = q; gen[w]++;
    };
    auto stopall = [&]() {
        S->stop = 1;
        for (int w = 0; w < W; w++) if (pids[w] > 0) {
            double te = now_s() + 3; int st;
            while (waitpid(pids[w], &st, WNOHANG) == 0 && now_s() < te) usleep(2000);
            if (waitpid(pids[w], &st, WNOHANG) == 0) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); }
            pids[w] = 0;
        }
        S->stop = 0;
    };
    for (int w = 0; w < W; w++) spawn(w);
    while (!violation && now_s() < end) {
        usleep(3000); failed = -1; hang = false;
        for (int w = 0; w < W && failed < 0; w++) {
            int st; pid_t q = waitpid(pids[w], &st, WNOHANG);
            if (q == pids[w]) {
                pids[w] = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { spawn(w); continue; }
                failed = w; fst = st;
            } else if (!p.isolate && S->slots[w].state == 1 && now_s() - S->slots[w].t0 > p.case_wall) {
                kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = 0; failed = w; hang = true;
            }
        }
        if (failed < 0) continue;
        Slot *sl = &S->slots[failed];
        // what failed
        Buf b(sl->buf, sl->buf + sl->len);
        Str sig, msg;
        if (hang) { sig = "hang"; msg = fmt("case did not finish within %.0f s", p.case_wall); }
        else if (sl->sig[0]) { sig = sl->sig; msg = sl->msg; }
        else { sig = crash_sig(failed); msg = crash_text(failed, fst);
            if (is_known(sig)) { spawn(failed); continue; } }
        std::vector<Buf> seq;
        if (!p.isolate) { size_t o = 0; while (o + 2 <= sl->loglen) { uint16_t n; memcpy(&n, sl->log + o, 2); o += 2; seq.push_back(Buf(sl->log + o, sl->log + o + n)); o += n; } }
        stopall();
        // confirm
        int ok = 0; for (int i = 0; i < 3; i++) ok += run_forked(p, MAXW - 1, b.data(), b.size(), false, p.case_wall) ? 1 : 0;
        Slot *cs = &S->slots[MAXW - 1];
        Str kind = "case"; Str body;
        if (ok > 0) {
            tries_per_candidate = ok == 3 ? 1 : 3;
            if (cs->sig[0]) { sig = cs->sig; msg = cs->msg; }
            Buf m = sig == "hang" ? b : shrink(p, MAXW - 1, b, sig, tier == "quick" ? 40 : 120);
            for (int i = 0; i < 6; i++) if (run_forked(p, MAXW - 1, m.data(), m.size(), true, p.case_wall)) break;
            if (cs->sig[0]) { sig = cs->sig; msg = cs->msg; b = m; vdesc = cs->desc; }
            body = "\"case\": \"" + hexall(b) + "\"";
            violation = true;
        } else if (!p.isolate && seq.size() > 1 && run_batch(p, MAXW - 1, seq, 60)) {
            // minimise the sequence by dropping prefixes
            if (cs->sig[0]) { sig = cs->sig; msg = cs->msg; }
            double te = now_s() + 30;
            for (size_t len = seq.size() / 2; len >= 1 && now_s() < te; len /= 2)
                for (size_t i = 0; i + len <= seq.size() && now_s() < te;) {
                    std::vector<Buf> t(seq); t.erase(t.begin() + i, t.begin() + i + len);
                    if (run_batch(p, MAXW - 1, t, 60)) seq = t; else i += len;
                }
            Str h; for (auto &x : seq) h += (h.empty() ? "" : ",") + hexall(x);
            body = "\"batch\": \"" + h + "\""; vdesc = fmt("sequence of %zu cases in one process", seq.size());
            violation = true;
        } else {
            unconfirmed++; unconf_msg = sig + ": " + msg;
            // hard evidence (memory errors, corrupt data) counts even when the schedule does not repeat
            if (sig.compare(0, 4, "asan") == 0) { body = "\"case\": \"" + hexall(b) + "\""; violation = true; vdesc = "(not reproduced; sanitizer report below)"; }
            else { for (int w = 0; w < W; w++) spawn(w); continue; }
        }
        vsig = sig; vmsg = msg; vbody = body;
        mkdir(rdir.c_str(), 0755);
        vfile = rdir + "/" + propid + "-" + fmt("%08x", (unsigned)hash64(body.data(), body.size())) + ".json";
        FILE *f = fopen(vfile.c_str(), "w");
        if (f) {
            fprintf(f, "{\"property\": \"%s\", \"check\": \"%s\", \"variant\": %s, \"seed\": %llu, %s,\n \"signature\": %s,\n \"message\": %s,\n \"description\": %s}\n",
                    propid.c_str(), id.c_str(), jstr(variant).c_str(), (unsigned long long)seed, body.c_str(), jstr(vsig).c_str(), jstr(vmsg).c_str(), jstr(vdesc).c_str());
            fclose(f);
        }
    }
    stopall();
    double wall = now_s() - t0;
    if (violation) {
        printf("[%s] %s\n%s\ncase: %s\n", id.c_str(), vsig.c_str(), vmsg.c_str(), vdesc.c_str());
        if (vbody.size() < 12000) printf("seed %llu, %s\n", (unsigned long long)seed, vbody.c_str());
        printf("VIOLATION property=%s replay=%s\n", propid.c_str(), vfile.c_str());
    }
    if (unconfirmed) printf("note: %d failure(s) not reproduced on replay: %s\n", unconfirmed, unconf_msg.substr(0, 400).c_str());
    if (!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        if (f) {
            fprintf(f, "{\"check\": %s, \"variant\": %s, \"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"mutated_from_corpus\": %llu, \"corpus\": %llu, \"wall\": %.2f, \"violation\": %s, \"replay\": %s, \"unconfirmed\": %d, \"known_hits\": {",
                jstr(id).c_str(), jstr(variant).c_str(), (unsigned long long)S->evals, (unsigned long long)S->nontriv, (unsigned long long)S->distinct,
                (unsigned long long)S->mutated, (unsigned long long)S->ncorpus, wall, violation ? "true" : "false", jstr(vfile).c_str(), unconfirmed);
            for (size_t i = 0; i < known.size() && i < 32; i++) fprintf(f, "%s%s: %llu", i ? ", " : "", jstr(known[i]).c_str(), (unsigned long long)S->knownhit[i]);
            fprintf(f, "}, \"rule\": %s, \"labels\": {", jstr(p.rule).c_str());
            for (int i = 0; i < S->nlabels; i++) fprintf(f, "%s%s: %llu", i ? ", " : "", jstr(S->labels[i]).c_str(), (unsigned long long)S->labeln[i]);
            fprintf(f, "}, \"samples\": [");
            for (int i = 0; i < S->nsamples; i++) fprintf(f, "%s%s", i ? ", " : "", jstr(S->samples[i]).c_str());
            fprintf(f, "]}\n"); fclose(f);
        }
    }
    cleanup();
    return violation ? 1 : 0;
}
