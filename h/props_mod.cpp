// D01 message queue, D02 thread pool, D03 session table, D04 allocation and string helpers:
// the modules below the server, driven directly under the simulated scheduler.
#include "sim.h"
#include <algorithm>
#include <map>
#include <memory>
#include <stdlib.h>
#include <sched.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <pthread.h>
extern "C" {
#include "ringbuf.h"
#include "pool.h"
#include "session.h"
#include "str.h"
void log_set_quiet(int);
}
static void enter() {
#ifdef USE_RPMALLOC
    rpmalloc_thread_initialize();
#endif
}
static void leave() {
#ifdef USE_RPMALLOC
    rpmalloc_thread_finalize();
#endif
}
static void warm() {
    log_set_quiet(1);
#ifdef USE_RPMALLOC
    rpmalloc_initialize();
#endif
}
static void wfree(void *p) { if (p) WSS_free(&p); }
// Failures seen by simulated threads are reported by the driver
static Str tsig, tmsg; static bool tbad;
static void terr(const char *sig, const char *f, ...) { if (tbad) return; tbad = true; char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); tsig = sig; tmsg = b; }
#define TCHECK(cond, sig, ...) do { if (!(cond)) { terr(sig, __VA_ARGS__); return; } } while (0)
static void tcheck() { sim_check(); if (tbad) fail(tsig.c_str(), "%s", tmsg.c_str()); }
static void begin(Case &c, bool fine = true) {
    SimCfg s = sim_gen(c); s.eintr = false; if (s.switch_pct < 5) s.switch_pct = 5; s.preempt = fine ? c.pick<unsigned>({3, 1, 8, 30, 200}) : c.pick<unsigned>({0, 30, 300, 2000}); tbad = false; sim_begin(s); c.note("%s ", sim_cfg_text(s).c_str());
}
// until every given thread has ended
static void finish(const std::vector<int> &ids, const char *what) {
    for (int t = 0; t < 400; t++) { sim_quiet(); tcheck(); bool all = true; for (int i : ids) if (!sim_finished(i)) all = false; if (all) return; sim_sleep(50); }
    fail("deadlock", "%s\n%s", what, sim_dump().c_str());
}

// ---------------------------------------------------------------- D01
struct Queue {
    ringbuf_t *rb; size_t space; std::vector<uint64_t> slot;   // what each slot holds: 0 nothing, 1 handed out, else an entry
    std::vector<std::vector<uint64_t>> produced; std::vector<size_t> eaten; int running = 0; size_t acquired = 0, refused = 0, wraps = 0, total = 0, got = 0; bool stop = false;
    Queue(unsigned perm, unsigned temp, size_t n) : space(n), slot(n) { size_t sz; ringbuf_get_sizes(perm, temp, &sz, nullptr); rb = (ringbuf_t *)malloc(sz); memset(rb, 0xa5, sz); if (ringbuf_setup(rb, perm, temp, n) != 0) fail("setup", "ringbuf_setup failed"); }
    ~Queue() { free(rb); }
    static uint64_t entry(int p, uint64_t seq) { return (uint64_t)(p + 1) << 40 | (seq + 1); }
    // one attempt; false if refused. Runs inside simulated threads and must not yield while slots are marked.
    bool produce(int p, ringbuf_worker_t **w, size_t len, int linger) {
        ssize_t off = ringbuf_acquire(rb, w, len); if (off < 0) { refused++; return false; }
        if ((size_t)off + len > space) { terr("out-of-range", "producer %d was given slots %zd to %zd of %zu", p, off, off + (ssize_t)len - 1, space); return false; }
        for (size_t i = 0; i < len; i++) if (slot[off + i]) { terr("slot-overwritten", "producer %d was given slot %zu, which %s", p, off + i, slot[off + i] == 1 ? "another producer is filling" : "holds an entry that was not consumed"); return false; }
        for (size_t i = 0; i < len; i++) slot[off + i] = 1;
        while (linger--) sched_yield();
        for (size_t i = 0; i < len; i++) { slot[off + i] = entry(p, produced[p].size()); produced[p].push_back(slot[off + i]); if (linger & 1) sched_yield(); }
        acquired++; total += len; ringbuf_produce(rb, w); return true;
    }
    bool consume(size_t maxtake) {                      // false if there is nothing
        size_t off = SIZE_MAX, len = ringbuf_consume(rb, &off); if (!len) return false;
        if (off >= space || len > space - off) { terr("out-of-range", "the consumer was given %zu slots from %zu on of %zu", len, off, space); return false; }
        size_t k = std::min(len, maxtake);
        for (size_t i = 0; i < k; i++) {
            uint64_t v = slot[off + i]; if (v <= 1) { terr("not-filled", "the consumer was given slot %zu, which %s", off + i, v ? "a producer is still filling" : "holds nothing"); return false; }
            int p = (int)(v >> 40) - 1; uint64_t want = entry(p, eaten[p]); if (v != want) { terr("reordered", "entry %llu of producer %d was consumed instead of entry %llu", (unsigned long long)(v & 0xffffffffff), p, (unsigned long long)(want & 0xffffffffff)); return false; }
            eaten[p]++; got++; slot[off + i] = 0;
        }
        if (off + k == space) wraps++;
        ringbuf_release(rb, k); return true;
    }
};
static void d01(Case &c) {
    int P = 1 + c.below(4); bool perm = c.below(3) == 0; int temp = perm ? 0 : 1 + c.below(P + 1); size_t space = c.pick<size_t>({8, 2, 3, 4, 5, 6, 16, 33}); size_t maxlen = c.coin() ? 1 : 1 + c.below(space); if (maxlen > space - 1) maxlen = space - 1; if (!maxlen) maxlen = 1;
    bool mix = !perm && c.below(4) == 3;                // both kinds of workers
    Queue q(perm || mix ? P : 0, temp, space); q.produced.resize(P); q.eaten.resize(P);
    struct Op { size_t len; int linger, tries; }; std::vector<std::vector<Op>> ops(P);
    for (int p = 0; p < P; p++) { int n = 1 + c.below(c.thorough ? 40 : 16); q.produced[p].reserve(n * space + 64); for (int i = 0; i < n; i++) ops[p].push_back({1 + (size_t)c.below(maxlen), (int)c.below(4), 1 + (int)c.below(c.coin() ? 4 : 40)}); }
    std::vector<int> takes; for (int i = 0; i < 8; i++) takes.push_back(c.coin() ? 1000 : 1 + c.below(4)); int idle = c.below(4);
    begin(c); std::vector<int> ids; q.running = P;
    for (int p = 0; p < P; p++) ids.push_back(sim_spawn("producer", [&, p] {
        enter(); ringbuf_worker_t *w = nullptr; bool own = perm || (mix && p % 2); if (own) w = ringbuf_register(q.rb, p);
        for (auto &o : ops[p]) { for (int t = 0; t < o.tries && !tbad; t++) { if (q.produce(p, &w, o.len, o.linger)) break; sched_yield(); } if (tbad) break; if (!own && w) { terr("worker-kept", "a temporary worker was not returned"); break; } }
        if (own) ringbuf_unregister(q.rb, w); q.running--; leave(); }));
    ids.push_back(sim_spawn("consumer", [&] { enter(); for (size_t i = 0; !tbad; i++) { bool any = q.consume(takes[i % takes.size()]); if (!any) { if (!q.running && !q.consume(1000)) break; for (int k = 0; k <= idle; k++) sched_yield(); } } leave(); }));
    finish(ids, "the producers and the consumer do not come to an end");
    for (int p = 0; p < P; p++) CHECK(q.eaten[p] == q.produced[p].size(), "entry-lost", "%zu of the %zu entries of producer %d were consumed, and the queue is empty", q.eaten[p], q.produced[p].size(), p);
    for (size_t i = 0; i < space; i++) CHECK(!q.slot[i], "entry-lost", "slot %zu is still occupied", i);
    // all capacity is available again
    ringbuf_worker_t *w = nullptr, *pw = nullptr; if (!temp) w = pw = ringbuf_register(q.rb, 0);
    ids = {sim_spawn("late", [&] { enter();
        for (int round = 0; round < 2 && !tbad; round++) { size_t n = 0; while (n <= space && q.produce(0, &w, 1, 0)) n++; if (!tbad && n != space - 1) terr("capacity", "after everything was consumed a queue of %zu slots took %zu entries before it was full (round %d)", space, n, round); while (!tbad && q.consume(1000)); }
        if (!tbad && space > 4) { size_t l = (space - 1) / 2; if (!q.produce(0, &w, l, 0)) terr("capacity", "an empty queue of %zu slots refuses %zu entries", space, l); while (!tbad && q.consume(1000)); }
        leave(); })};
    finish(ids, "a single producer does not come to an end"); sim_end();
    c.note("%d %s producers, %d temporary records, %zu slots, %zu entries (%zu refused, %zu times around) ", P, perm ? "registered" : mix ? "mixed" : "temporary", temp, space, q.total, q.refused, q.wraps);
    if (q.refused) label("refused"); if (P > temp && !perm) label("fewer-records-than-producers"); if (maxlen > 1) label("ranges"); if (q.wraps) label("wrapped"); if (P > 1 && q.acquired >= 4) c.nontrivial();
}
static AddProp p_d01({"D01", d01, true, 900, "at least two producers and four acquisitions", 60, warm});

// ---------------------------------------------------------------- D02
struct PJob { int kind = 0, n = 0, sub = -1; int runs = 0, done = 0; int ret = 1; uint64_t asked = 0, answered = 0, started = 0; int thread = 0; };
static threadpool_t *pool; static PJob *jobs; static int njobs; static uint64_t tick; static bool gate_open; static pthread_mutex_t gate_m; static pthread_cond_t gate_c; static int gated; static uint64_t destroy_asked; static int order[512], norder; static bool pool_gone;
static void job_run(void *a);
static void job_add(PJob *j) { j->asked = ++tick; int r = threadpool_add(pool, job_run, j, 0); j->answered = ++tick; j->ret = r; }
static void job_run(void *a) {
    PJob *j = (PJob *)a; j->runs++; j->started = ++tick; if (norder < 512) order[norder++] = (int)(j - jobs);
    if (pool_gone) terr("ran-late", "job %d ran after the pool was destroyed", (int)(j - jobs));
    switch (j->kind) { case 1: for (int i = 0; i < j->n; i++) sched_yield(); break; case 2: usleep(j->n * 1000); break; case 3: pthread_mutex_lock(&gate_m); gated++; while (!gate_open) pthread_cond_wait(&gate_c, &gate_m); pthread_mutex_unlock(&gate_m); break; case 4: job_add(&jobs[j->sub]); break; default: break; }
    j->done++;
}
static void d02(Case &c) {
    int T = 1 + c.below(4), Q = c.pick<int>({8, 1, 2, 3, 5, 64}), A = 1 + c.below(3); bool graceful = c.below(3) != 0, during = c.coin(), twice = c.below(3) == 0; size_t failat = c.below(8) == 7 ? 1 + c.below(T) : 0;
    std::vector<PJob> js; js.reserve(512); std::vector<std::vector<int>> plan(A); std::vector<std::vector<int>> retry(A);
    for (int a = 0; a < A; a++) { int n = 1 + c.below(c.thorough ? 24 : 10); while (n--) { PJob j; j.kind = c.pick<int>({0, 0, 1, 1, 2, 4}); j.n = 1 + c.below(6); plan[a].push_back((int)js.size()); retry[a].push_back(c.below(3) ? 30 : 0); js.push_back(j); } }
    for (size_t i = 0, n = js.size(); i < n; i++) if (js[i].kind == 4) { js[i].sub = (int)js.size(); PJob s; s.kind = c.below(3); s.n = 1; js.push_back(s); }
    int G = during ? 1 + c.below(T) : 0; int g0 = (int)js.size(); for (int i = 0; i < G; i++) { PJob j; j.kind = 3; js.push_back(j); }
    jobs = js.data(); njobs = (int)js.size(); tick = 0; gate_open = false; gated = 0; destroy_asked = 0; norder = 0; pool_gone = false; pool = nullptr;
    begin(c, false); pthread_mutex_init(&gate_m, nullptr); pthread_cond_init(&gate_c, nullptr); size_t live = sim_live_blocks(); sim_fail_create = (int)failat; bool made = false;
    std::vector<int> ids = {sim_spawn("creator", [&] { enter(); pool = threadpool_create(T, Q, 65536, 0); made = true; leave(); })}; sim_quiet(); finish(ids, "threadpool_create does not return"); sim_fail_create = 0;
    if (failat) { CHECK(!pool, "create", "threadpool_create succeeded although thread %zu of %d could not be created", failat, T); label("creation-failed"); sim_quiet(); tcheck(); Str d = sim_dump(); CHECK(d.empty(), "thread-left", "threads of a pool that could not be created are left\n%s", d.c_str());
#ifndef USE_RPMALLOC
        CHECK(sim_live_blocks() == live, "leak", "threadpool_create failed and left %zu blocks", sim_live_blocks() - live);
#endif
        c.nontrivial(); sim_end(); return; }
    CHECK(pool, "create", "threadpool_create failed");
    std::vector<int> wait; if (G) { ids = {sim_spawn("gates", [&] { enter(); for (int i = 0; i < G; i++) for (int t = 0; t < 400; t++) { job_add(&jobs[g0 + i]); if (jobs[g0 + i].ret != threadpool_queue_full) break; usleep(1000); } leave(); })}; finish(ids, "threadpool_add does not return"); sim_quiet(); CHECK(gated == G, "job-lost", "%d of %d jobs run although %d threads are idle\n%s", gated, G, T, sim_dump().c_str()); }
    int dret[2] = {1, 1}; std::vector<int> adders, destroyers;
    auto spawn_adders = [&] { for (int a = 0; a < A; a++) adders.push_back(sim_spawn("adder", [&, a] { enter(); for (size_t i = 0; i < plan[a].size(); i++) { PJob *j = &jobs[plan[a][i]]; for (int t = 0; ; t++) { job_add(j); if (j->ret != threadpool_queue_full || t >= retry[a][i]) break; usleep(500); } } leave(); })); };
    auto spawn_destroyer = [&](int k) { destroyers.push_back(sim_spawn("destroyer", [&, k] { enter(); uint64_t at = ++tick; if (!destroy_asked) destroy_asked = at; dret[k] = threadpool_destroy(pool, graceful ? threadpool_graceful : 0); if (dret[k] == 0) pool_gone = true; leave(); })); };
    if (during) {                                       // the pool stays until the gates open, so that calls may overlap its shutdown
        bool first = c.coin(); if (first) { spawn_destroyer(0); sim_steps(c.below(60)); } spawn_adders(); if (!first) { sim_steps(c.below(400)); spawn_destroyer(0); } if (twice) { sim_steps(c.below(40)); spawn_destroyer(1); }
        for (int t = 0; t < 60; t++) { sim_quiet(); sim_sleep(20); } tcheck();
        for (int i : adders) CHECK(sim_finished(i), "deadlock", "threadpool_add does not return while the pool is shut down\n%s", sim_dump().c_str());
        if (twice) { CHECK(sim_finished(destroyers[0]) != sim_finished(destroyers[1]), "deadlock", "of two concurrent calls to threadpool_destroy exactly one should be refused\n%s", sim_dump().c_str()); int x = sim_finished(destroyers[0]) ? 0 : 1; CHECK(dret[x] == threadpool_shutdown, "error-code", "destroying a pool that is shutting down gave %d", dret[x]); label("destroyed-twice"); }
        else CHECK(!sim_finished(destroyers[0]), "destroyed-early", "threadpool_destroy returned %d while %d jobs were running", dret[0], G);
        ids = {sim_spawn("opener", [&] { enter(); pthread_mutex_lock(&gate_m); gate_open = true; pthread_cond_broadcast(&gate_c); pthread_mutex_unlock(&gate_m); leave(); })};
    } else { spawn_adders(); sim_steps(c.below(2000)); finish(adders, "threadpool_add does not return"); if (c.coin()) { for (int t = 0; t < 20; t++) { sim_quiet(); sim_sleep(10); } } spawn_destroyer(0); }
    for (int i : destroyers) ids.push_back(i); finish(ids, "threadpool_destroy does not return"); sim_quiet(); sim_sleep(200); tcheck();
    if (!(during && twice)) CHECK(dret[0] == 0, "error-code", "threadpool_destroy gave %d", dret[0]);
    Str d = sim_dump(); CHECK(d.empty(), "thread-left", "threads are left after threadpool_destroy\n%s", d.c_str());
    int accepted = 0, full = 0, shut = 0;
    for (auto &j : js) {
        int i = (int)(&j - jobs); if (!j.asked) { CHECK(!j.runs, "ran-unasked", "job %d was never added but ran", i); continue; }
        if (j.ret == 0) { accepted++; CHECK(j.runs <= 1, "ran-twice", "job %d ran %d times", i, j.runs); CHECK(j.runs == j.done, "not-finished", "job %d had not finished when the pool was destroyed", i); if (graceful) CHECK(j.runs == 1, "job-lost", "job %d was accepted but never ran (%d threads, queue of %d)", i, T, Q); }
        else { CHECK(!j.runs, "ran-refused", "job %d was refused with %d but ran", i, j.ret); CHECK(j.ret == threadpool_queue_full || j.ret == threadpool_shutdown, "error-code", "adding job %d gave %d", i, j.ret);
            if (j.ret == threadpool_shutdown) { shut++; CHECK(destroy_asked && destroy_asked < j.answered, "refused-wrongly", "job %d was refused because of a shutdown nobody had asked for", i); }
            else { full++; int may = 0; for (auto &o : js) if (&o != &j && o.ret == 0 && o.asked && o.asked < j.answered && (!o.started || o.started > j.asked)) may++; CHECK(may >= Q, "refused-wrongly", "job %d was refused because the queue was full, but at most %d jobs could be waiting in a queue of %d", i, may, Q); } }
    }
    if (T == 1 && A == 1 && !during) { int last = -1; for (int k = 0; k < norder; k++) { int i = order[k]; if (std::find(plan[0].begin(), plan[0].end(), i) == plan[0].end()) continue; CHECK(i > last, "reordered", "one thread ran job %d after job %d", i, last); last = i; } }
    CHECK(threadpool_add(nullptr, job_run, nullptr, 0) == threadpool_invalid && threadpool_destroy(nullptr, 0) == threadpool_invalid, "error-code", "calls without a pool");
#ifndef USE_RPMALLOC
    CHECK(sim_live_blocks() == live, "leak", "%zu blocks are left after the pool was destroyed", sim_live_blocks() - live);
#endif
    sim_end(); c.note("%d threads, queue of %d, %d adders, %s%s%s: %d accepted, %d full, %d refused ", T, Q, A, graceful ? "graceful" : "immediate", during ? ", overlapping" : "", twice && during ? ", twice" : "", accepted, full, shut);
    if (full) label("full"); if (shut) label("shutting-down"); label(graceful ? "graceful" : "immediate"); if (accepted >= 3) c.nontrivial();
}
static AddProp p_d02({"D02", d02, true, 700, "at least three accepted jobs, or a failed creation", 60, warm});

// ---------------------------------------------------------------- D03
enum { ADD, ACQUIRE, CLAIM, DEL, FIND, VISIT };
struct Ev { int op, fd; int ret; uint64_t from, to; };   // ret: id of the session, 0 nothing; CLAIM and DEL: id, negative if refused
static std::vector<Ev> evs; static int nextid; static std::map<int, int> closes;
// Is there an order of the operations on one descriptor that explains all results?
static bool linear(const std::vector<Ev> &v, std::vector<char> &used, size_t left, int live, bool dying, std::map<std::pair<Str, int>, bool> &seen, const std::vector<int> &dummy) {
    if (!left) return true; Str k(used.begin(), used.end()); auto key = std::make_pair(k, live * 2 + dying); if (seen.count(key)) return false; seen[key] = true;
    uint64_t first = UINT64_MAX; for (size_t i = 0; i < v.size(); i++) if (!used[i]) first = std::min(first, v[i].to);
    for (size_t i = 0; i < v.size(); i++) if (!used[i] && v[i].from <= first) {
        const Ev &e = v[i]; int l = live; bool d = dying; bool ok = false;
        switch (e.op) { case ADD: ok = live ? e.ret == 0 : e.ret != 0; if (ok && e.ret) { l = e.ret; d = false; } break; case ACQUIRE: ok = e.ret == (live && !dying ? live : 0); break;
        case CLAIM: if (e.ret > 0) { ok = live == e.ret && !dying; d = true; } else ok = live == -e.ret && dying; break; case DEL: ok = live == e.ret && dying; l = 0; d = false; break; case FIND: ok = (e.ret != 0) == (live != 0); break; case VISIT: ok = e.ret == live; break; }
        if (!ok) continue; used[i] = 1; if (linear(v, used, left - 1, l, d, seen, dummy)) return true; used[i] = 0;
    }
    return false;
}
static const char *opname[] = {"add", "acquire", "claim", "delete", "find", "iterate"};
static int ext_closed, sub_closed; static void ext_close(int) { ext_closed++; } static void sub_close(int) { sub_closed++; }
static wss_extension_t fake_ext; static wss_subprotocol_t fake_sub; static std::vector<std::pair<int, int>> *visited;
static void visit(wss_session_t *s) { visited->push_back({s->fd, s->port}); sched_yield(); }
static Str ipof(int id) { return fmt("10.%d.%d.%d", id % 7, id / 7, id * 31 % 256) + Str(id % 5, '0'); }
struct Attach { int payload, pong, frames, msgs, exts; bool header, sub; };
static void *grab(size_t n) { return WSS_malloc(n); }
static void attach(wss_session_t *s, const Attach &a) {
    if (a.payload) { s->payload = (char *)grab(a.payload); s->payload_length = a.payload; } if (a.pong) { s->pong = (char *)grab(a.pong); s->pong_length = a.pong; }
    if (a.frames) { s->frames = (wss_frame_t **)grab(a.frames * sizeof(void *)); s->frames_length = a.frames; for (int i = 0; i < a.frames; i++) { s->frames[i] = (wss_frame_t *)grab(sizeof(wss_frame_t)); if (i & 1) s->frames[i]->payload = (char *)grab(5); } }
    if (a.msgs) { s->messages_count = a.msgs; s->messages = (wss_message_t **)grab(a.msgs * sizeof(void *)); for (int i = 0; i < a.msgs; i += 2) { s->messages[i] = (wss_message_t *)grab(sizeof(wss_message_t)); if (i & 2) s->messages[i]->msg = (char *)grab(9); } size_t z; ringbuf_get_sizes(0, 2, &z, nullptr); s->ringbuf = (ringbuf_t *)grab(z); ringbuf_setup(s->ringbuf, 0, 2, a.msgs); }
    if (a.header) { wss_header_t *h = (wss_header_t *)grab(sizeof(wss_header_t)); h->content = (char *)grab(30); if (a.exts) { h->ws_extensions_count = a.exts; h->ws_extensions = (wss_ext_t **)grab(a.exts * sizeof(void *)); for (int i = 0; i < a.exts; i++) { wss_ext_t *x = h->ws_extensions[i] = (wss_ext_t *)grab(sizeof(wss_ext_t)); x->ext = &fake_ext; x->name = (char *)grab(4); if (i & 1) x->accepted = (char *)grab(8); } } if (a.sub) h->ws_protocol = &fake_sub; s->header = h; }
}

static void on_close(int fd) { closes[fd]++; }
static void d03(Case &c) {
    int K = 1 + c.below(3), T = 1 + c.below(4); if (c.below(4) == 3) K = 12; struct Op { int k, fd; Attach a; }; std::vector<std::vector<Op>> ops(T);
    for (int t = 0; t < T; t++) { int n = 1 + c.below(c.thorough && K < 4 ? 14 : 9); while (n--) { Op o; o.k = c.pick<int>({ADD, ACQUIRE, DEL, ADD, DEL, FIND, VISIT}); o.fd = 60 + c.below(K) * (K > 3 ? 37 : 1); o.a = {(int)c.below(3) * 7, (int)c.below(2) * 5, (int)c.below(3), (int)c.below(4) * 3, (int)c.below(3), c.coin(), c.coin()}; ops[t].push_back(o); } }
    memset(&fake_ext, 0, sizeof fake_ext); memset(&fake_sub, 0, sizeof fake_sub); fake_ext.close = (decltype(fake_ext.close))ext_close; fake_sub.close = (decltype(fake_sub.close))sub_close;
    evs.clear(); evs.reserve(4000); nextid = 0; closes.clear(); uint64_t now = 0; ext_closed = sub_closed = 0; int want_ext = 0, want_sub = 0; begin(c, c.coin()); sim_close_hook = on_close; size_t live; std::vector<int> ids;
    WSS_session_init_lock(); live = sim_live_blocks(); std::map<int, int> deleted; std::map<int, std::pair<int, bool>> want;    // id -> hooks expected
    for (int t = 0; t < T; t++) ids.push_back(sim_spawn("user", [&, t] {
        enter();
        for (auto &o : ops[t]) {
            if (tbad) break; Ev e{o.k, o.fd, 0, ++now, 0};
            if (o.k == ADD) {
                int id = ++nextid; char ipb[40]; strcpy(ipb, ipof(id).c_str()); wss_session_t *s = WSS_session_add(o.fd, ipb, id); memset(ipb, 'x', sizeof ipb); e.ret = s ? id : 0; e.to = ++now; evs.push_back(e);
                // attached before anybody else looks: in the server only the thread handling the session does this, while holding its lock
                if (s) { Ev q{ACQUIRE, o.fd, 0, ++now, 0}; wss_session_t *h = WSS_session_acquire(o.fd); q.ret = h ? h->port : 0; q.to = ++now; evs.push_back(q); if (h && h->port == id) { pthread_mutex_lock(&h->lock); attach(h, o.a); if (o.a.header) want[id] = {o.a.exts, o.a.sub}; pthread_mutex_unlock(&h->lock); } if (h) WSS_session_jobs_dec(h); }
            } else if (o.k == FIND) { e.ret = WSS_session_find(o.fd) != nullptr; e.to = ++now; evs.push_back(e); }
            else if (o.k == VISIT) sched_yield(); else {
                wss_session_t *s = WSS_session_acquire(o.fd); e.op = ACQUIRE; e.ret = s ? s->port : 0; e.to = ++now; evs.push_back(e); if (!s) continue;
                int id = s->port; if (s->fd != o.fd) terr("wrong-session", "looking up %d gave the session of %d", o.fd, s->fd); if (ipof(id) != s->ip) terr("wrong-session", "session %d has address %s instead of %s", id, s->ip, ipof(id).c_str());
                if (o.k == ACQUIRE) { sched_yield(); if (s->port != id || s->fd != o.fd) terr("changed", "session %d changed while it was held", id); WSS_session_jobs_dec(s); continue; }
                bool dc; Ev q{CLAIM, o.fd, 0, ++now, 0}; WSS_session_is_disconnecting(s, &dc); q.ret = dc ? -id : id; q.to = ++now; evs.push_back(q); WSS_session_jobs_dec(s); if (dc) continue;
                WSS_session_jobs_wait(s); pthread_mutex_lock(&s->lock); Ev r{DEL, o.fd, id, ++now, 0}; deleted[id]++; if (want.count(id)) { want_ext += want[id].first; } int x = WSS_session_delete(s); if (x != WSS_SUCCESS) terr("error-code", "deleting a session gave %d", x); r.to = ++now; evs.push_back(r);
            }
        }
        leave(); }));
    // iteration runs in a thread of its own, its callback has no other context
    int iter = 0; for (auto &v : ops) for (auto &o : v) if (o.k == VISIT) iter++;
    ids.push_back(sim_spawn("iterator", [&] { enter(); for (int i = 0; i < iter && !tbad; i++) { std::vector<std::pair<int, int>> v; visited = &v; Ev e{VISIT, 0, 0, ++now, 0}; WSS_session_all(visit); e.to = ++now; std::map<int, int> m; for (auto &x : v) { if (m.count(x.first)) terr("visited-twice", "descriptor %d was visited twice in one iteration", x.first); m[x.first] = x.second; } for (int k = 0; k < K; k++) { e.fd = 60 + k * (K > 3 ? 37 : 1); e.ret = m.count(e.fd) ? m[e.fd] : 0; m.erase(e.fd); evs.push_back(e); } if (!m.empty()) terr("unknown-visited", "descriptor %d was visited but never added", m.begin()->first); } leave(); }));
    finish(ids, "operations on the session table do not return");
    size_t longest = 0;
    for (int k = 0; k < K; k++) {
        int fd = 60 + k * (K > 3 ? 37 : 1); std::vector<Ev> v; for (auto &e : evs) if (e.fd == fd) v.push_back(e); longest = std::max(longest, v.size()); if (v.size() > 120) continue;
        std::vector<char> used(v.size()); std::map<std::pair<Str, int>, bool> seen; std::vector<int> dummy;
        if (!linear(v, used, v.size(), 0, false, seen, dummy)) { std::sort(v.begin(), v.end(), [](const Ev &a, const Ev &b) { return a.from < b.from; }); Str s; for (auto &e : v) s += fmt("\n  %s(%d) = %d from %llu to %llu", opname[e.op], e.fd, e.ret, (unsigned long long)e.from, (unsigned long long)e.to); fail("inconsistent-history", "no order of the operations on descriptor %d explains their results%s", fd, s.c_str()); }
    }
    // what is left
    std::map<int, int> left; for (auto &e : evs) { if (e.op == ADD && e.ret) left[e.ret] = e.fd; } for (auto &d : deleted) { CHECK(d.second == 1, "deleted-twice", "session %d", d.first); left.erase(d.first); }
    ids = {sim_spawn("clearer", [&] { enter(); std::vector<std::pair<int, int>> v; visited = &v; WSS_session_all(visit); std::map<int, int> m; for (auto &x : v) { if (m.count(x.second)) terr("visited-twice", "session %d", x.second); m[x.second] = x.first; } if (m != left) terr("iteration", "%zu sessions were visited, %zu are in the table", m.size(), left.size());
        for (auto &l : left) { wss_session_t *s = WSS_session_find(l.second); if (!s || s->port != l.first) terr("lookup", "session %d is not found under descriptor %d", l.first, l.second); }
        if (c.coin()) WSS_session_delete_all(); else for (auto &l : left) { wss_session_t *s = WSS_session_find(l.second); if (s && WSS_session_delete(s) != WSS_SUCCESS) terr("error-code", "delete"); }
        v.clear(); WSS_session_all(visit); if (!v.empty()) terr("not-empty", "%zu sessions are left after all were deleted", v.size()); for (auto &l : left) if (WSS_session_find(l.second)) terr("not-empty", "descriptor %d is still found", l.second);
        leave(); })};
    finish(ids, "clearing the session table does not return");
    for (auto &l : left) if (want.count(l.first)) { want_ext += want[l.first].first; want_sub += want[l.first].second; }
    CHECK(ext_closed == want_ext && sub_closed == want_sub, "close-hooks", "%d extension and %d subprotocol close hooks ran, expected %d and %d", ext_closed, sub_closed, want_ext, want_sub);
    std::map<int, int> cl; for (auto &e : evs) if (e.op == ADD && e.ret) cl[e.fd]++; CHECK(cl == closes, "descriptors", "the descriptors of deleted sessions were not closed exactly once each");
#ifndef USE_RPMALLOC
    CHECK(sim_live_blocks() == live, "leak", "%zu blocks are left after all sessions were deleted\n%s", sim_live_blocks() - live, sim_live_since(0).c_str());
#endif
    sim_close_hook = nullptr; sim_end(); c.note("%d threads, %d descriptors, %zu operations, %d sessions ", T, K, evs.size(), nextid); { Str k; for (auto &e : evs) k += fmt("%d.%d.%d ", e.op, e.fd, e.ret); c.key(k); } if (T > 1 && deleted.size()) c.nontrivial(); if (!left.empty()) label("bulk-deletion"); if (iter) label("iteration"); if (deleted.size()) label("removals");
}
static AddProp p_d03({"D03", d03, true, 700, "at least two threads and one removal", 60, warm});

// ---------------------------------------------------------------- D04
struct Block { unsigned char *p; size_t n; uint64_t seed; };
static void fill(Block &b) { Rng r(b.seed); for (size_t i = 0; i < b.n; i++) b.p[i] = (unsigned char)(i % 8 ? b.p[i - 1] + 41 : r.next()); }
static bool same(const Block &b, size_t upto) { Rng r(b.seed); unsigned char x = 0; for (size_t i = 0; i < upto; i++) { x = (unsigned char)(i % 8 ? x + 41 : r.next()); if (b.p[i] != x) return false; } return true; }
static std::map<uintptr_t, size_t> *area;
static bool claim(Block &b) {                           // disjoint and aligned
    if ((uintptr_t)b.p % 16) { terr("misaligned", "a block of %zu bytes at %p", b.n, b.p); return false; }
    uintptr_t a = (uintptr_t)b.p; auto it = area->lower_bound(a); if (it != area->end() && it->first < a + b.n) { terr("overlap", "a block of %zu bytes overlaps one that is in use", b.n); return false; } if (it != area->begin()) { --it; if (it->first + it->second > a) { terr("overlap", "a block of %zu bytes overlaps one that is in use", b.n); return false; } }
    (*area)[a] = b.n; return true;
}
static size_t gen_size(Case &c, bool big) {
    switch (c.below(big ? 6 : 4)) { case 0: return 1 + c.below(64); case 1: return 1 + c.below(1200); case 2: return c.pick<size_t>({15, 16, 17, 31, 32, 33, 1023, 1024, 1025, 2048, 4096, 32720, 32721, 32735, 32736, 32737}); case 3: return 1 + c.below(40000); case 4: return c.pick<size_t>({65536, 65535, 65400, 65408, 130000, 262144, 1 << 20, 2064384, 2097152, 2097153, 4128768, 4128700, 4194304}); default: return 1 + c.below(5 << 20); }
}
static void d04(Case &c) {
    int T = 1 + c.below(4); bool big = c.below(4) == 3; struct Op { int k; size_t n, m; uint64_t s; int which; }; std::vector<std::vector<Op>> ops(T);
    for (int t = 0; t < T; t++) { int n = 2 + c.below(c.thorough ? 120 : 40); while (n--) { Op o; o.k = c.below(10); o.n = gen_size(c, big); o.m = 1 + c.below(5); o.s = c.below(256); o.which = c.below(256); if (o.k == 9) { o.n = c.pick<size_t>({SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 15, SIZE_MAX - 127, SIZE_MAX - 4095, SIZE_MAX - 65535, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t)1 << 62, (size_t)1 << 50}); o.m = c.pick<size_t>({2, 3, (size_t)1 << 32, SIZE_MAX / 8, (size_t)1 << 61, 17}); } ops[t].push_back(o); } }
    begin(c, false); std::vector<std::vector<Block>> own(T); std::vector<Block> shared; std::map<uintptr_t, size_t> ar; area = &ar; shared.reserve(4096); size_t count = 0, moved = 0, crossed = 0, refusals = 0, live = sim_live_blocks(); std::vector<int> ids;
    auto drop = [&](Block &b) { if (!same(b, b.n)) { terr("corrupted", "a block of %zu bytes lost its contents", b.n); return; } area->erase((uintptr_t)b.p); };
    // the containers of the test are not counted
    for (auto &o : own) o.reserve(512);
    for (int t = 0; t < T; t++) ids.push_back(sim_spawn("user", [&, t] {
        enter(); auto &mine = own[t];
        for (auto &o : ops[t]) {
            if (tbad) break; Block b; b.seed = o.s * 31 + t; bool zero = false;
            switch (o.k) {
            case 0: case 1: b.n = o.n; b.p = (unsigned char *)WSS_malloc(b.n); zero = true; break;
            case 2: b.n = o.n * o.m; if (b.n > 6u << 20) b.n = o.n, o.m = 1; b.p = (unsigned char *)WSS_calloc(o.m, o.n); zero = true; break;
            case 3: if (mine.empty()) continue; { Block &x = mine[o.which % mine.size()]; b.n = x.n; b.p = (unsigned char *)WSS_copy(x.p, x.n); if (!b.p) { terr("no-memory", "copying %zu bytes failed", b.n); break; } b.seed = x.seed; if (!same(b, b.n)) { terr("copy", "a copy of %zu bytes differs", b.n); break; } } if (!claim(b)) break; mine.push_back(b); count++; continue;
            case 4: case 5: { // resize
                if (mine.empty()) continue; size_t i = o.which % mine.size(); Block x = mine[i]; mine[i] = mine.back(); mine.pop_back(); if (!same(x, x.n)) { terr("corrupted", "a block of %zu bytes lost its contents", x.n); break; } area->erase((uintptr_t)x.p); unsigned char *old = x.p; size_t was = x.n;
                if (o.k == 4) { void *v = x.p; x.p = (unsigned char *)WSS_realloc(&v, was, o.n); } else x.p = (unsigned char *)WSS_realloc_normal(x.p, o.n);
                if (!x.p) { terr("no-memory", "resizing %zu to %zu bytes failed", was, o.n); break; } x.n = o.n; if (!same(x, std::min(was, x.n))) { terr("resize", "resizing %zu to %zu bytes lost the contents", was, x.n); break; }
                if (o.k == 4) for (size_t k = was; k < x.n; k++) if (x.p[k]) { terr("not-zeroed", "byte %zu of a block resized from %zu to %zu bytes is %d", k, was, x.n, x.p[k]); break; }
                if (x.p != old) moved++; if (tbad || !claim(x)) break; fill(x); mine.push_back(x); continue; }
            case 6: if (mine.empty()) continue; { size_t i = o.which % mine.size(); Block x = mine[i]; mine[i] = mine.back(); mine.pop_back(); drop(x); if (tbad) break; if (o.m & 1) WSS_free_normal(x.p); else { void *v = x.p; WSS_free(&v); if (v) terr("free", "the released pointer was not cleared"); } } continue;
            case 7: if (mine.empty()) continue; { size_t i = o.which % mine.size(); shared.push_back(mine[i]); mine[i] = mine.back(); mine.pop_back(); } continue;      // handed to whoever takes it
            case 8: if (shared.empty()) continue; { size_t i = o.which % shared.size(); Block x = shared[i]; shared[i] = shared.back(); shared.pop_back(); crossed++; if (o.m & 1) { drop(x); if (!tbad) WSS_free_normal(x.p); } else mine.push_back(x); } continue;
            default: { // more than there can be
                refusals++; void *v; size_t tot;
                switch (o.which % 4) {
                case 0: v = WSS_malloc(o.n); if (v) terr("short-block", "WSS_malloc(%zu) gave a block", o.n); break;
                case 1: v = WSS_calloc(o.m, o.n); if (v) terr("short-block", "WSS_calloc(%zu, %zu) gave a block", o.m, o.n); break;
                case 2: if (__builtin_mul_overflow(o.m, (size_t)1 << 33, &tot) || tot > (size_t)1 << 45) { v = WSS_calloc((size_t)1 << 33, o.m); if (v) terr("short-block", "WSS_calloc(2^33, %zu) gave a block", o.m); } break;
                default: if (mine.empty()) break; { size_t i = o.which % mine.size(); Block x = mine[i]; if (o.s & 1) { mine[i] = mine.back(); mine.pop_back(); area->erase((uintptr_t)x.p); void *w = x.p; v = WSS_realloc(&w, x.n, o.n); if (v) terr("short-block", "WSS_realloc to %zu bytes gave a block", o.n); else if (w) terr("realloc-kept", "WSS_realloc failed and did not clear the pointer"); } else { v = WSS_realloc_normal(x.p, o.n); if (v) terr("short-block", "WSS_realloc_normal to %zu bytes gave a block", o.n); else if (!same(x, x.n)) terr("realloc-lost", "resizing %zu to %zu bytes failed and the block did not keep its contents", x.n, o.n); } } }
                continue; }
            }
            if (tbad) break; if (!b.p) { terr("no-memory", "allocating %zu bytes failed", b.n); break; }
            if (zero) for (size_t k = 0; k < b.n; k++) if (b.p[k]) { terr("not-zeroed", "byte %zu of a new block of %zu bytes is %d", k, b.n, b.p[k]); break; }
            if (tbad || !claim(b)) break; fill(b); mine.push_back(b); count++;
        }
        if (!tbad && t % 2) { for (auto &b : mine) { drop(b); if (tbad) break; WSS_free_normal(b.p); } mine.clear(); }       // the others outlive their thread
        leave(); }));
    finish(ids, "allocation does not return");
    ids = {sim_spawn("last", [&] { enter(); for (auto &o : own) for (auto &b : o) { drop(b); if (tbad) return; WSS_free_normal(b.p); } for (auto &b : shared) { drop(b); if (tbad) return; WSS_free_normal(b.p); }
        void *z = nullptr; WSS_free(&z); WSS_free_normal(nullptr); if (WSS_malloc(0) || WSS_calloc(0, 5) || WSS_calloc(5, 0) || WSS_copy(nullptr, 5)) terr("empty", "a request for nothing gave a block"); void *q = WSS_malloc(20); if (WSS_realloc(&q, 20, 0) || q) terr("empty", "resizing to nothing gave a block"); leave(); })};
    finish(ids, "allocation does not return"); sim_end();
    c.note("%d threads, %zu blocks, %zu moved, %zu handed over, %zu refused ", T, count, moved, crossed, refusals); c.key(fmt("%zu.%zu.%zu.%d", count, moved, crossed, (int)c.pos)); if (crossed) label("released-by-another-thread"); if (refusals) label("impossible-sizes"); if (big) label("large"); if (moved) label("moved"); if (count >= 4) c.nontrivial();
}
static AddProp p_d04({"D04", d04, true, 900, "at least four blocks", 60, warm});
// the string helpers
static const std::vector<Str> base = {"a", "ab", "abc", "", "b", "A", "abcd"};
static void d04s(Case &c) {
    Str in = gen_payload(c, gen_len(c, c.below(4) ? 300 : 70000, {0, 1, 2, 15, 16, 17, 255, 256, 4096})); static char path[64]; snprintf(path, sizeof path, "/tmp/pbt-strload.%d", (int)getpid()); size_t before = alloc_bytes();
    { unsigned char *h = (unsigned char *)malloc(in.size() ? in.size() : 1); memcpy(h, in.data(), in.size()); char *o = bin2hex(h, in.size()); CHECK(o, "bin2hex", "no result for %zu bytes", in.size()); Str want; for (unsigned char ch : in) want += fmt("%02X", ch); CHECK(want == o, "bin2hex", "%s gave %s", hexs(in.data(), in.size()).c_str(), quote(o).c_str()); wfree(o); free(h); }
    { int fd = open(path, O_CREAT | O_WRONLY | O_TRUNC, 0600); if (fd < 0) abort(); size_t w = 0; while (w < in.size()) { ssize_t n = write(fd, in.data() + w, in.size() - w); if (n <= 0) abort(); w += n; } close(fd); char *s = (char *)1; size_t n = strload(path, &s); unlink(path);
      CHECK(n == in.size() && s && !memcmp(s, in.data(), n) && s[n] == 0, "strload", "a file of %zu bytes was loaded as %zu bytes", in.size(), n); wfree(s); s = (char *)1; n = strload(path, &s); CHECK(n == 0 && !s, "strload", "a missing file was loaded"); if (c.below(8) == 7) { s = (char *)1; n = strload((char *)"/tmp", &s); CHECK(n == 0 && !s, "strload", "a folder was loaded"); } }
    { int n = c.below(6); std::vector<Str> v; for (int i = 0; i < n; i++) v.push_back(c.coin() ? c.pickv(base) : Str(1 + c.below(4), (char)('a' + c.below(2)))); std::vector<const char *> p; std::vector<char> isnull; for (auto &s : v) { bool z = c.below(6) == 5; isnull.push_back(z); p.push_back(z ? nullptr : s.c_str()); } p.push_back("sentinel"); Str needle = c.coin() ? c.pickv(base) : Str(1 + c.below(4), (char)('a' + c.below(2))); bool want = false; for (int i = 0; i < n; i++) if (!isnull[i] && v[i] == needle) want = true; int r = strinarray(needle.c_str(), p.data(), n); CHECK((r == 0) == want && (r == 0 || r == -1), "strinarray", "looking for %s gave %d, expected %d", quote(needle).c_str(), r, want ? 0 : -1); CHECK(strinarray(nullptr, p.data(), n) == -1, "strinarray", "no needle"); }
    size_t after = alloc_bytes(); CHECK(after == before, "leak", "%zd bytes were not released", (ssize_t)(after - before)); c.key(in); if (in.size() > 1) c.nontrivial();
}
static AddProp p_d04s({"D04.str", d04s, false, 200, "inputs of at least two bytes", 20, warm});
