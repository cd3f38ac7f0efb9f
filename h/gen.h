// Generators and oracles shared by the properties that run against the simulated server.
#pragma once
#include "world.h"
#include <algorithm>

// ---------------------------------------------------------------- generators
static RefFrame mkframe(Case &c, int op, const Str &p, bool fin = true) {
    RefFrame f; f.op = op; f.payload = p; f.fin = fin; f.masked = true;
    uint32_t k = (uint32_t)c.seed(); if (c.chance(1, 12)) k = 0; memcpy(f.mk, &k, 4); return f;
}
static Str stream_text(const std::vector<RefFrame> &v) {
    Str s;
    for (auto &f : v) { s += fmt("%s%s%s%s%s[%zu] ", f.fin ? "" : "~", f.masked ? "" : "unmasked ", f.rsv1 || f.rsv2 || f.rsv3 ? "rsv " : "",
        f.op == 0 ? "cont" : f.op == 1 ? "text" : f.op == 2 ? "bin" : f.op == 8 ? "close" : f.op == 9 ? "ping" : f.op == 10 ? "pong" : fmt("op%d", f.op).c_str(), "", f.payload.size()); if (s.size() > 700) { s += ".."; break; } }
    return s;
}
struct StreamOpt { bool control = true; size_t maxmsg = 70000; size_t budget = 200000; int maxmsgs = 12; int maxfrags = 8; std::vector<size_t> edges; };
static void add_control(Case &c, std::vector<RefFrame> &v) {
    int n = c.below(4); if (n < 2) n = 1; else if (n == 3) n = c.below(6);
    while (n--) { size_t l = c.below(3) == 0 ? c.below(126) : c.below(3) == 0 ? 125 : c.below(9); v.push_back(mkframe(c, c.below(4) == 0 ? 10 : 9, gen_payload(c, l))); }
}
static void add_message(Case &c, std::vector<RefFrame> &v, const StreamOpt &o, size_t &budget) {
    int op = c.coin() ? 1 : 2;
    size_t len = gen_len(c, std::min(o.maxmsg, budget), o.edges);
    Str p = op == 1 ? gen_utf8(c, len) : gen_payload(c, len);
    budget -= p.size();
    int n = c.below(3) != 2 ? 1 : 1 + (int)c.below(o.maxfrags);
    std::vector<size_t> cuts;
    for (int i = 1; i < n; i++) cuts.push_back(c.below(6) == 0 ? (c.coin() ? 0 : p.size()) : c.below(p.size() + 1));
    std::sort(cuts.begin(), cuts.end()); cuts.push_back(p.size());
    size_t a = 0;
    for (int i = 0; i < n; i++) {
        if (i && o.control && c.below(4) == 3) add_control(c, v);
        v.push_back(mkframe(c, i ? 0 : op, p.substr(a, cuts[i] - a), i == n - 1)); a = cuts[i];
    }
}
static std::vector<RefFrame> gen_stream(Case &c, const StreamOpt &o) {
    std::vector<RefFrame> v; int n = 1 + c.below(o.maxmsgs); size_t budget = o.budget;
    while (n--) { if (o.control && c.below(4) == 3) add_control(c, v); add_message(c, v, o, budget); }
    return v;
}
static Str wire(const std::vector<RefFrame> &v) { Str s; for (auto &f : v) s += enc_frame(f); return s; }
// Sends bytes in pieces with pauses in between.
static void drive(Case &c, World &w, Client *cl, const Str &b, const std::vector<size_t> &marks, bool pauses = true) {
    int mode = c.below(6); size_t p = 0; size_t mi = 0; int cuts = 0;
    static const char *mn[] = {"one-piece", "per-frame", "random", "small", "mixed", "halves"}; c.note("segments=%s ", mn[mode]);
    while (p < b.size()) {
        size_t n;
        switch (mode) {
        case 0: n = b.size() - p; break;
        case 1: while (mi < marks.size() && marks[mi] <= p) mi++; n = (mi < marks.size() ? marks[mi] : b.size()) - p; break;
        case 2: n = 1 + c.below(b.size() / 4 + 2); break;
        case 3: n = cuts < 400 ? 1 + c.below(4) : 1 + b.size() / 8; break;
        case 4: { while (mi < marks.size() && marks[mi] <= p) mi++; size_t m = mi < marks.size() ? marks[mi] : b.size(); size_t k = c.below(5); n = k < 2 ? m - p + k : k == 2 ? 1 : k == 3 ? (m > p + 1 ? m - p - 1 : 1) : 1 + c.below(200); break; }
        default: n = (b.size() - p + 1) / 2;
        }
        if (cuts > 600) n = b.size() - p;
        n = std::min(std::max<size_t>(n, 1), b.size() - p);
        cl->send(b.substr(p, n)); p += n; cuts++;
        cl->pump();
        switch (pauses ? c.below(6) : 0) {
        case 0: sim_quiet(); w.pump(); break;
        case 1: sim_steps(1 + c.below(60)); w.pump(); break;
        case 2: sim_steps(1 + c.below(1000)); w.pump(); break;
        case 3: w.settle(); break;
        case 4: break;
        default: if (c.below(6) == 0) sim_sleep(1 + c.below(200)); else { sim_quiet(); } w.pump(); break;
        }
    }
    if (cuts > 1) label("segmented");
}
static std::vector<size_t> frame_marks(const std::vector<RefFrame> &v) { std::vector<size_t> m; size_t p = 0; for (auto &f : v) { p += enc_frame(f).size(); m.push_back(p); } return m; }
static Conf gen_conf(Case &c) {
    Conf f; f.buffer = c.pick<int>({32768, 64, 512, 4096, 1, 16, 32768, 1024}); f.workers = c.pick<int>({4, 1, 2, 3, 8});
    f.ring = c.pick<int>({128, 1024});
    if (c.chance(1, 3)) f.frame = 70000 - (int)c.below(3000);
    return f;
}
// ---------------------------------------------------------------- oracle
static Str explain(const Expect &e, Client *cl, const Reader &r) {
    Str s = fmt("expected %zu messages, %zu pongs, %s; received %zu messages, %zu pongs, %zu close frames%s, connection %s, %zu bytes unparsed\n", e.msgs.size(), e.pongs.size(),
        e.closed ? e.clean ? "a clean close" : fmt("close code %d", e.codes.empty() ? 0 : e.codes[0]).c_str() : "an open connection",
        r.g.msgs.size(), r.g.pongs.size(), r.g.closes.size(), r.g.closes.empty() ? "" : (" " + hexs(r.g.closes[0].data(), r.g.closes[0].size())).c_str(), cl->eof ? "closed" : "open", cl->pending());
    for (size_t i = 0; i < std::max(e.msgs.size(), r.g.msgs.size()); i++) if (i >= e.msgs.size() || i >= r.g.msgs.size() || !(e.msgs[i] == r.g.msgs[i])) {
        s += fmt("first difference at message %zu: expected %s, received %s\n", i, i < e.msgs.size() ? msg_text(e.msgs[i]).c_str() : "nothing", i < r.g.msgs.size() ? msg_text(r.g.msgs[i]).c_str() : "nothing"); break; }
    return s + sim_dump();
}
static bool satisfied(const Expect &e, Client *cl, const Reader &r) {
    if (!(r.g.msgs == e.msgs) || !(r.g.pongs == e.pongs)) return false;
    if (!e.closed) return !cl->eof && r.g.closes.empty() && !r.g.partial;
    return cl->eof && r.g.closes.size() == 1;
}
// a client that was disconnected got nothing but a part of what it should have got
static void expect_prefix(Client *cl, Reader &r, const Expect &e) {
    if (!r.feed(*cl)) fail("malformed-output", "%s", r.g.error.c_str());
    for (size_t i = 0; i < r.g.msgs.size(); i++) if (i >= e.msgs.size() || !(r.g.msgs[i] == e.msgs[i])) fail("message-corrupted", "%s", explain(e, cl, r).c_str());
    for (size_t i = 0; i < r.g.pongs.size(); i++) if (i >= e.pongs.size() || r.g.pongs[i] != e.pongs[i]) fail("wrong-pong", "%s", explain(e, cl, r).c_str());
}
// allocations of the server (outside of its event loops) that fail
struct Shortage {
    uint32_t state; int mode, period = 1; long left = 0, failed = 0, asked = 0; bool armed = false;
    explicit Shortage(Case &c) : state(c.seed() | 1), mode(c.below(4)) { sim_fail_alloc = [this] { return ask(); }; }
    ~Shortage() { sim_fail_alloc = nullptr; }
    void arm(Case &c) { armed = true; period = 2 + c.below(60); left = c.below(120); }
    bool ask() {
        if (!armed) return false;
        asked++; bool f;
        if (mode == 0) f = left-- == 0;                 // one
        else if (mode == 1) f = --left < 0 && left > -4; // three in a row
        else { state = state * 1664525u + 1013904223u; f = (state >> 8) % period == 0; }
        failed += f; return f;
    }
    void report(Case &c) { c.note("%ld of %ld allocations failed ", failed, asked); if (failed) c.nontrivial(); c.key(fmt("%ld.%ld", failed, asked)); }
};
static void expect_echo(World &w, Client *cl, Reader &r, const Expect &e) {
    auto step = [&]() { if (!r.feed(*cl)) fail("malformed-output", "%s", r.g.error.c_str()); };
    w.settle(); step();
    for (int t = 0; t < w.patience() && !satisfied(e, cl, r); t++) { w.settle_ms(100); step(); }
    // anything wrong, most specific first
    for (size_t i = 0; i < r.g.msgs.size(); i++) {
        if (i >= e.msgs.size()) fail("unexpected-message", "%s", explain(e, cl, r).c_str());
        if (!(r.g.msgs[i] == e.msgs[i])) fail("message-corrupted", "%s", explain(e, cl, r).c_str());
    }
    for (size_t i = 0; i < r.g.pongs.size(); i++) if (i >= e.pongs.size() || r.g.pongs[i] != e.pongs[i]) fail("wrong-pong", "%s", explain(e, cl, r).c_str());
    if (!e.closed) {
        if (!r.g.closes.empty()) fail("valid-input-failed", "%s", explain(e, cl, r).c_str());
        if (cl->eof) fail("connection-lost", "%s", explain(e, cl, r).c_str());
    }
    if (r.g.msgs.size() < e.msgs.size()) fail("message-lost", "%s", explain(e, cl, r).c_str());
    if (r.g.pongs.size() < e.pongs.size()) fail("pong-missing", "%s", explain(e, cl, r).c_str());
    if (r.g.partial) fail("truncated-output", "%s", explain(e, cl, r).c_str());
    if (e.closed) {
        if (r.g.closes.empty()) fail("no-close-frame", "%s", explain(e, cl, r).c_str());
        const Str &p = r.g.closes[0]; int code = p.size() >= 2 ? (uint8_t)p[0] << 8 | (uint8_t)p[1] : 0;
        if (e.clean) { int want = e.close_payload.size() >= 2 ? (uint8_t)e.close_payload[0] << 8 | (uint8_t)e.close_payload[1] : 0; if (code != want && !(want == 0 && code == 1000)) fail("close-code", "%s", explain(e, cl, r).c_str()); }
        else if (std::find(e.codes.begin(), e.codes.end(), code) == e.codes.end()) fail("close-code", "%s", explain(e, cl, r).c_str());
        if (!cl->eof) fail("not-disconnected", "%s", explain(e, cl, r).c_str());
    }
}
static void end_world(Case &c, World &w, bool stop) {
    sim_check();
    if (stop) { if (!w.stop(5000)) fail("shutdown-hangs", "main() does not return after SIGINT\n%s", sim_dump().c_str()); CHECK(w.exit_code == 0, "exit-code", "main() returned %d after SIGINT", w.exit_code); }
}
