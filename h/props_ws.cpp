#include "gen.h"
#include <sys/ioctl.h>
#include <linux/sockios.h>

// ---------------------------------------------------------------- M01
static void m01(Case &c) {
    Conf cf = gen_conf(c); World w(cf);
    StreamOpt o; o.maxmsg = cf.frame; o.edges = {0, 125, 126, 127, 65535, 65536, (size_t)cf.buffer};
    w.start(c);
    Client *cl = open_ws(w);
    auto v = gen_stream(c, o);
    c.note("%s ", stream_text(v).c_str());
    drive(c, w, cl, wire(v), frame_marks(v));
    Reader r; r.max_frame = cf.frame;
    Expect e = model(v, Limits{(uint64_t)cf.frame, (uint64_t)cf.fragmented});
    expect_echo(w, cl, r, e);
    if (e.msgs.size() >= 2) c.nontrivial();
    end_world(c, w, c.chance(1, 8));
}
static AddProp p_m01({"M01", m01, true, 1500, "at least two messages", 60, world_warm});

// ---------------------------------------------------------------- M02
static int gen_close_code(Case &c) { switch (c.below(4)) { case 0: return c.pick<int>({1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011}); case 1: return 3000 + c.below(1000); case 2: return 4000 + c.below(1000); default: return c.pick<int>({1000, 3000, 4999, 3999, 4000}); } }
static Str close_payload(int code, const Str &reason) { Str s; s += (char)(code >> 8); s += (char)code; return s + reason; }
static RefFrame gen_close(Case &c) { return mkframe(c, 8, c.below(4) == 0 ? Str() : close_payload(gen_close_code(c), c.coin() ? gen_utf8(c, c.below(3) == 0 ? 123 : c.below(124)) : Str())); }
static Str garbage(Case &c, size_t max) { Rng r(c.seed()); Str s; size_t n = c.below(max + 1); while (s.size() < n) s += (char)r.next(); return s; }
static void settle_to(World &w, Client *cl, Reader &r, const Expect &e) { expect_echo(w, cl, r, e); }
static void m02(Case &c) {
    Conf cf = gen_conf(c); World w(cf); w.start(c); Client *cl = open_ws(w);
    StreamOpt o; o.maxmsg = 3000; o.budget = 20000; o.maxmsgs = 5; o.edges = {0, 125, 126};
    std::vector<RefFrame> v; int n = c.below(5); size_t budget = o.budget;
    add_control(c, v);
    while (n--) { add_message(c, v, o, budget); if (c.coin()) add_control(c, v); }
    bool close = c.below(3) != 2; if (close) {
        v.push_back(gen_close(c));
        if (c.coin()) { add_message(c, v, o, budget); add_control(c, v); }
    }
    c.note("%s%s ", stream_text(v).c_str(), close ? "closing" : "");
    Reader r; r.max_frame = cf.frame; Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented};
    size_t from = 0; Expect e;
    if (c.coin() && v.size() > 1) {                     // answers must not wait for later input
        from = 1 + c.below(v.size() - 1); std::vector<RefFrame> a(v.begin(), v.begin() + from);
        c.note("checkpoint after %zu frames ", from);
        drive(c, w, cl, wire(a), frame_marks(a)); e = model(a, L); settle_to(w, cl, r, e); label("checkpoint");
    }
    std::vector<RefFrame> b(v.begin() + from, v.end());
    Str bytes = wire(b); if (close && c.below(3) == 0) { bytes += garbage(c, 40); label("garbage-after-close"); }
    drive(c, w, cl, bytes, frame_marks(b));
    e = model(v, L); settle_to(w, cl, r, e);
    if (e.pongs.size() >= 2 || close) c.nontrivial();
    if (e.clean) label("clean-close");
    w.settle_ms(100); sim_check(); CHECK(!close || w.open_fds() == 0, "descriptor-leak", "%d descriptors still open after the close handshake", w.open_fds());
    end_world(c, w, c.chance(1, 8));
}
static AddProp p_m02({"M02", m02, true, 900, "at least two pings or a close handshake", 60, world_warm});

// ---------------------------------------------------------------- M03
static Str bad_utf8(Case &c, size_t max) {
    static const std::vector<Str> bad = {"\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xFF", "\xFE", "\x80", "\xBF", "\xC2", "\xE1\x80", "\xF1\x80\x80", "\xE2\x28\xA1", "\xF0\x28\x8C\xBC", "\xC3\x28", "\xF8\x88\x80\x80\x80"};
    Str b = c.pickv(bad); size_t room = max > b.size() ? max - b.size() : 0;
    Str a = gen_utf8(c, c.below(room + 1)), z = gen_utf8(c, c.below(room - std::min(room, a.size()) + 1));
    if (z.empty() == false && ref_utf8((const uint8_t *)(b + z).data(), (b + z).size())) z.clear();
    return a + b + z;
}
static void cut_message(Case &c, std::vector<RefFrame> &v, int op, const Str &p, int n) {
    std::vector<size_t> cuts; for (int i = 1; i < n; i++) cuts.push_back(c.below(p.size() + 1)); std::sort(cuts.begin(), cuts.end()); cuts.push_back(p.size());
    size_t a = 0; for (int i = 0; i < n; i++) { v.push_back(mkframe(c, i ? 0 : op, p.substr(a, cuts[i] - a), i == n - 1)); a = cuts[i]; if (i < n - 1 && c.below(4) == 0) add_control(c, v); }
}
static const char *vname[] = {"none", "unmasked", "rsv", "opcode", "fragmented-control", "oversized-control", "stray-continuation", "message-in-message", "close-length-1", "close-code", "close-reason", "text", "any-op"};
static int add_violation(Case &c, std::vector<RefFrame> &v) {
    int k = c.below(13);
    auto dataframe = [&]() { return mkframe(c, 1 + c.below(2), gen_utf8(c, c.below(200))); };
    auto ctlframe = [&]() { RefFrame f = c.below(3) == 2 ? gen_close(c) : mkframe(c, 9 + c.below(2), gen_payload(c, c.below(126))); return f; };
    bool inside = c.below(4) == 3;                      // within a fragmented message
    if (inside && k != 6 && k != 11) v.push_back(mkframe(c, 1 + c.below(2), gen_utf8(c, c.below(50)), false));
    RefFrame f;
    switch (k) {
    case 0: { // near misses that break no rule
        if (inside) v.push_back(mkframe(c, 0, gen_utf8(c, c.below(20))));
        v.push_back(mkframe(c, 9, gen_payload(c, 125))); Str t = gen_utf8(c, 1 + c.below(300)); cut_message(c, v, 1, t, 1 + c.below(5)); Str b = bad_utf8(c, 100); cut_message(c, v, 2, b, 1 + c.below(3)); break; }
    case 1: f = c.coin() ? dataframe() : ctlframe(); if (inside && f.op < 8) f.op = 0; f.masked = false; v.push_back(f); break;
    case 2: { f = c.coin() ? dataframe() : ctlframe(); if (inside && f.op < 8) f.op = 0; int b = 1 + c.below(7); f.rsv1 = b & 4; f.rsv2 = b & 2; f.rsv3 = b & 1; v.push_back(f); break; }
    case 3: f = dataframe(); f.op = c.pick<int>({3, 4, 5, 6, 7, 11, 12, 13, 14, 15}); if (f.op > 7 && f.payload.size() > 125) f.payload.resize(125); f.fin = c.below(4) != 3; v.push_back(f); break;
    case 4: f = ctlframe(); f.fin = false; v.push_back(f); break;
    case 5: f = ctlframe(); { size_t l = c.pick<size_t>({126, 127, 128, 200, 300, 1000, 65536}); if (f.op == 8) f.payload = close_payload(1000, gen_utf8(c, l - 2)); else f.payload = gen_payload(c, l); } v.push_back(f); break;
    case 6: f = mkframe(c, 0, gen_utf8(c, c.below(100)), c.coin()); v.push_back(f); break;
    case 7: if (!inside) v.push_back(mkframe(c, 1 + c.below(2), gen_utf8(c, c.below(50)), false)); f = dataframe(); f.fin = c.coin(); v.push_back(f); break;
    case 8: v.push_back(mkframe(c, 8, gen_payload(c, 1))); break;
    case 9: { int code; switch (c.below(4)) { case 0: code = c.pick<int>({0, 999, 1004, 1005, 1006, 1015, 1016, 1100, 2000, 2999, 5000, 65535}); break; case 1: code = c.below(1000); break; case 2: code = 1016 + c.below(3000 - 1016); break; default: code = 5000 + c.below(60536); }
        v.push_back(mkframe(c, 8, close_payload(code, c.coin() ? gen_utf8(c, c.below(124)) : Str()))); break; }
    case 10: v.push_back(mkframe(c, 8, close_payload(gen_close_code(c), bad_utf8(c, c.below(3) == 0 ? 123 : 20)))); break;
    case 11: { Str b = bad_utf8(c, c.pick<size_t>({10, 70, 200, 1000})); cut_message(c, v, 1, b, 1 + c.below(4)); break; }
    default: f.op = c.below(16); f.fin = c.coin(); f.masked = c.below(4) != 0; f.rsv1 = c.below(4) == 0; f.rsv2 = c.below(4) == 0; f.rsv3 = c.below(4) == 0; f.payload = garbage(c, 200); v.push_back(f);
    }
    return k;
}
static void m03(Case &c) {
    Conf cf = gen_conf(c); World w(cf); w.start(c); Client *cl = open_ws(w); Client *other = c.below(3) == 0 ? open_ws(w, "10.0.0.2") : nullptr;
    StreamOpt o; o.maxmsg = 2000; o.budget = 6000; o.maxmsgs = 3; o.edges = {0, 125, 126};
    std::vector<RefFrame> v; size_t budget = o.budget;
    if (c.below(3)) v = gen_stream(c, o);
    int k = add_violation(c, v); label(vname[k]); size_t upto = v.size();
    if (c.coin()) { add_message(c, v, o, budget); add_control(c, v); }
    c.note("violation=%s at %zu: %s ", vname[k], upto, stream_text(v).c_str());
    Expect e = model(v, Limits{(uint64_t)cf.frame, (uint64_t)cf.fragmented});
    if (k && c.below(4) == 0 && e.partial == false && !e.clean) { Str g = garbage(c, 60); if (e.closed) { drive(c, w, cl, wire(v) + g, frame_marks(v)); label("garbage-after"); } else drive(c, w, cl, wire(v), frame_marks(v)); }
    else drive(c, w, cl, wire(v), frame_marks(v));
    Reader r; r.max_frame = cf.frame;
    expect_echo(w, cl, r, e);
    if (e.closed && !e.clean) c.nontrivial();
    if (other) { Reader q; std::vector<RefFrame> a = {mkframe(c, 2, gen_payload(c, 20)), mkframe(c, 9, "x")}; other->send(wire(a)); expect_echo(w, other, q, model(a, Limits{})); }
    sim_check();
    end_world(c, w, c.chance(1, 10));
}
static AddProp p_m03({"M03", m03, true, 900, "the stream contains a violation", 60, world_warm});

// ---------------------------------------------------------------- M04, frames
static void m04(Case &c) {
    Conf cf; cf.buffer = c.pick<int>({32768, 64, 512, 4096, 16, 1024}); cf.workers = 1 + c.below(4); cf.ring = 1024;
    cf.frame = c.pick<int>({125, 1, 10, 126, 127, 200, 1000, 4096, 65535, 65536, 65537, 100000, 2, 124});
    if (c.coin()) cf.frame = 1 + c.below(70000);
    cf.fragmented = c.coin() ? 1 + c.below(6) : 1 + c.below(40);
    World w(cf); w.start(c); Client *cl = open_ws(w); Reader r; r.max_frame = cf.frame; Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented};
    std::vector<RefFrame> v; Str tail; int kind = c.below(6); bool over = false; size_t ctl = std::min(cf.frame, 125);
    int op = 1 + c.below(2); auto body = [&](size_t n) { return op == 1 ? gen_utf8(c, n) : gen_payload(c, n); };
    auto small = [&]() { if (c.coin()) v.push_back(mkframe(c, 2, gen_payload(c, c.below(std::min(cf.frame, 50) + 1)))); };
    small();
    switch (kind) {
    case 0: v.push_back(mkframe(c, op, body(cf.frame))); small(); label("frame-at-limit"); break;
    case 1: case 2: { // only the header of a frame over the limit arrives
        RefFrame f = mkframe(c, op, ""); uint64_t len = cf.frame + 1ull;
        switch (c.below(4)) { case 0: break; case 1: len += c.below(70000); break; case 2: len = c.pick<uint64_t>({1ull << 31, 1ull << 32, (1ull << 32) + 5, 1ull << 62, (1ull << 63) - 1, 1ull << 63, ~0ull, ~0ull - 13}); break; default: len += c.raw(5); }
        if (c.below(4) == 0) { v.push_back(mkframe(c, op, body(c.below(cf.frame + 1)), false)); f.op = 0; f.fin = c.coin(); }
        tail = enc_header(f, len); over = true; if (c.below(4) == 0) tail += garbage(c, std::min<uint64_t>(len - 1, 30)); label("frame-over-limit"); c.note("header of %llu bytes ", (unsigned long long)len); break; }
    case 3: { int n = cf.fragmented; for (int i = 0; i < n; i++) { v.push_back(mkframe(c, i ? 0 : op, op == 1 ? Str(c.below(std::min(cf.frame, 30) + 1), 'a') : gen_payload(c, c.below(std::min(cf.frame, 30) + 1)), i == n - 1)); if (c.below(8) == 0) v.push_back(mkframe(c, 9, gen_payload(c, c.below(ctl + 1)))); } small(); label("fragments-at-limit"); break; }
    case 4: { int n = cf.fragmented + 1 + (c.coin() ? 0 : c.below(5)); for (int i = 0; i < n; i++) { v.push_back(mkframe(c, i ? 0 : op, Str(c.below(std::min(cf.frame, 20) + 1), 'a'), i == n - 1 && c.coin())); if (c.below(8) == 0) v.push_back(mkframe(c, 9, gen_payload(c, c.below(ctl + 1)))); } label("fragments-over-limit"); break; }
    default: { int n = 1 + c.below(4); while (n--) { int k = 1 + c.below(std::min(cf.fragmented, 6)); for (int i = 0; i < k; i++) { size_t l = c.pick<size_t>({(size_t)cf.frame, (size_t)cf.frame - 1, 0, (size_t)cf.frame}); v.push_back(mkframe(c, i ? 0 : 2, gen_payload(c, std::min<size_t>(l, 30000)), i == k - 1)); } } label("several-messages"); }
    }
    c.note("%s ", stream_text(v).c_str());
    Expect e = model(v, L);
    if (over && !e.closed) { e.closed = true; e.codes.push_back(1009); e.partial = false; }
    drive(c, w, cl, wire(v) + tail, frame_marks(v));
    size_t m0 = alloc_bytes();
    expect_echo(w, cl, r, e);
    if (e.closed || kind == 0 || kind == 3) c.nontrivial();
    (void)m0;
    end_world(c, w, c.chance(1, 10));
}
static AddProp p_m04({"M04.frames", m04, true, 900, "a frame or message at or over its limit", 60, world_warm});

// A client that never pauses: whatever it sends is answered or refused after a bounded amount, and the server keeps no more of it than its limits ask for.
static void m04_flood(Case &c) {
    Conf cf; cf.buffer = c.pick<int>({512, 64, 100, 1024, 4096, 32768}); cf.workers = 1 + c.below(4); cf.ring = 1024; cf.ssl = c.below(4) == 0; cf.frame = c.pick<int>({125, 1000, 10, 4096, 20000, 1}); cf.fragmented = 1 + c.below(30);
    if (c.coin()) cf.frame = 1 + c.below(9000);
    if (c.below(3) == 0) { cf.header = 400 + c.below(900); cf.uri = 50 + c.below(500); }
    cf.payload = c.below(3000);
    int kind = c.below(5); static const char *kn[] = {"oversized-frame", "messages", "fragments", "head", "payload"}; label(kn[kind]); if (cf.ssl) label("tls");
    World w(cf); w.start(c); Client *b = open_ws(w, "10.0.0.9", "echo", "", 0, cf.ssl && c.coin());
    Client *cl = kind < 3 ? open_ws(w, "10.0.0.1", "echo", "", 0, cf.ssl) : w.connect("10.0.0.1", 0, cf.ssl);
    w.settle(); if (cl->pending()) fail("unexpected-output", "before anything was sent");
    // The flood, and how much of it may be needed before there has to be an answer.
    Rng r(c.seed()); Str head, unit; size_t need = 0;
    int mk = c.below(4);
    switch (kind) {
    case 0: { RefFrame f = mkframe(c, 2, ""); head = enc_header(f, cf.frame + 1ull + (c.coin() ? c.below(1 << 20) : c.raw(5))); unit = Str(997, 'x'); need = 14; break; }
    case 1: { size_t n = mk == 0 ? cf.frame : c.below(std::min(cf.frame, 2000) + 1); head = unit = wire({mkframe(c, 2, gen_payload(c, n))}); need = unit.size(); break; }
    case 2: { size_t n = c.below(std::min(cf.frame, 400) + 1); RefFrame f = mkframe(c, 2, gen_payload(c, n), false); head = wire({f}); f.op = 0; unit = wire({f}); need = unit.size() * (cf.fragmented + 1); break; }
    case 3: head = "GET / HTTP/1.1\r\n"; unit = mk == 0 ? "X-A: b\r\n" : mk == 1 ? "a" : mk == 2 ? "\r" : "X-A: " + Str(r.below(300), 'y') + "\r\n"; need = cf.uri + 3 * cf.header + cf.payload + 100; break;
    default: head = "GET / HTTP/1.1\r\nHost: localhost\r\n\r\n"; unit = Str(1 + r.below(500), 'z'); need = head.size() + cf.uri + 3 * cf.header + cf.payload + 100;
    }
    size_t room = 2 * (cf.frame + 14) + 8 * cf.buffer + 40000, ahead = 2 * cf.buffer + 8192, bound = need * 2 + room, cap = bound * 4, sent = 0, at = 0; bool answered = false, started = false; size_t live0 = 0, peak = 0;
    c.note("%s unit %zu need %zu bound %zu ", kn[kind], unit.size(), need, bound);
    size_t q0 = 0;
    sim_read_hook = [&]() {
        if (!started || cl->eof || cl->dead) return;
        size_t l = sim_live_bytes(); if (!answered && l > live0 && l - live0 > peak) peak = l - live0;
        for (int k = 0; k < 64 && sent < cap; k++) {
            int q = 0; if (ioctl(cl->fd, SIOCOUTQ, &q) || (size_t)q > ahead) break;     // never far ahead of the server
            while (cl->tx.size() - cl->txo < 2048) { if (cl->txo > 65536) { cl->tx.erase(0, cl->txo); cl->txo = 0; } cl->tx += sent ? unit : head + unit; sent += sent ? unit.size() : head.size() + unit.size(); }
            size_t o = cl->txo, u = cl->tx.size(); cl->pump();
            if (cl->pending() > q0 || cl->eof || cl->dead) { if (!answered) { answered = true; at = sent - (cl->tx.size() - cl->txo); } q0 = cl->pending(); }
            if (cl->txo == o && cl->tx.size() == u) break;
        }
    };
    cl->rec = 700; cl->send(head.substr(0, 1)); head.erase(0, 1); w.settle(); live0 = sim_live_bytes(); started = true;    // from here on the socket is never empty when the server reads
    for (int i = 0; i < 400 && sent < cap && !answered && !cl->eof && !cl->pending(); i++) { if (!sent) { cl->tx += head.substr(0, 1); head.erase(0, 1); } w.pump(); sim_steps(200); }
    started = false; sim_read_hook = nullptr;
    if (!answered && (cl->pending() || cl->eof)) { answered = true; at = sent; }
    if (!answered && !cl->eof && sent >= cap) fail(kind == 1 ? "never-answered" : "limit-not-enforced", "%zu bytes were taken without an answer (at most %zu were to be expected), %zu bytes kept", sent, bound, peak);
    if (answered && at > bound + 4 * ahead + 30000) fail("limit-enforced-late", "answered after %zu bytes, expected after at most %zu", at, bound + 4 * ahead);
    if (answered) c.nontrivial(); else label(fmt("un-%s-%s%d", kn[kind], cf.ssl ? "tls" : "", sent == 0 ? 0 : sent < bound ? 1 : 2).c_str());
    sim_check();
    std::vector<RefFrame> a = {mkframe(c, 2, gen_payload(c, std::min(cf.frame, 20))), mkframe(c, 9, "x")}; Reader q; q.max_frame = cf.frame; b->send(wire(a)); cl->stalled = true; expect_echo(w, b, q, model(a, Limits{(uint64_t)cf.frame, (uint64_t)cf.fragmented}));
    cl->close(); end_world(c, w, c.chance(1, 10));
}
static AddProp p_m04_flood({"M04.flood", m04_flood, true, 400, "the flood was answered or refused", 60, world_warm});

// ---------------------------------------------------------------- M05
static Str mutate(Case &c, Str s) {
    int n = 1 + c.below(3);
    while (n-- && !s.empty()) {
        size_t p = c.below(s.size());
        switch (c.below(5)) {
        case 0: s[p] ^= 1 << c.below(8); break;
        case 1: s[p] = (char)c.byte(); break;
        case 2: s.erase(p, 1 + c.below(4)); break;
        case 3: s.insert(p, garbage(c, 6)); break;
        default: s.resize(p);
        }
    }
    return s;
}
static void m05(Case &c) {
    Conf cf = gen_conf(c); if (c.below(3) == 0) cf.frame = 1 + c.below(3000); if (c.below(4) == 0) cf.fragmented = 1 + c.below(4);
    cf.ring = 1024;
    World w(cf); w.start(c);
    Client *a = open_ws(w, "10.0.0.1"), *b = open_ws(w, "10.0.0.2");
    StreamOpt o; o.maxmsg = std::min(cf.frame, 3000); o.budget = 12000; o.maxmsgs = 6; o.edges = {0, 125, 126};
    std::vector<RefFrame> v; int kind = c.below(5); size_t budget = 2000;
    if (kind != 4) v = gen_stream(c, o);
    if (kind == 1) { add_violation(c, v); add_message(c, v, o, budget); }
    if (kind == 2) v.push_back(gen_close(c));
    Str s = kind == 4 ? garbage(c, 300) : wire(v);
    if (kind == 3) s = mutate(c, s);
    static const char *kn[] = {"valid", "violation", "close", "mutated", "garbage"}; label(kn[kind]);
    c.note("%s %s %zu bytes ", kn[kind], stream_text(v).c_str(), s.size());
    Reader ra, rb; ra.max_frame = rb.max_frame = cf.frame;
    a->send(s);
    // the other one in pieces; at one frame boundary or in the middle of a frame everything complete must be answered
    size_t cut = kind < 3 && c.coin() ? 1 + c.below(s.size()) : 0;
    auto marks = frame_marks(v);
    Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented};
    if (cut && cut < s.size()) {
        drive(c, w, b, s.substr(0, cut), marks);
        std::vector<RefFrame> pre; for (size_t i = 0; i < v.size() && marks[i] <= cut; i++) pre.push_back(v[i]);
        Expect e = model(pre, L);
        w.settle(); if (!rb.feed(*b)) fail("malformed-output", "%s", rb.g.error.c_str());
        bool more = false;                              // an oversized frame fails early
        for (auto &f : v) if (f.payload.size() > L.frame) more = true;
        if (!e.closed && !more && (rb.g.msgs.size() < e.msgs.size() || rb.g.pongs.size() < e.pongs.size())) fail("waits-for-later-bytes", "after %zu of %zu bytes: %s", cut, s.size(), explain(e, b, rb).c_str());
        std::vector<size_t> m2; for (auto m : marks) if (m > cut) m2.push_back(m - cut);
        drive(c, w, b, s.substr(cut), m2); label("mid-check");
    } else drive(c, w, b, s, marks);
    w.settle();
    for (int t = 0; t < 3; t++) w.settle_ms(100);
    if (!ra.feed(*a)) fail("malformed-output", "%s", ra.g.error.c_str());
    if (!rb.feed(*b)) fail("malformed-output", "%s", rb.g.error.c_str());
    auto sum = [](Reader &r, Client *x) { Str t = fmt("%zu messages, %zu pongs, ", r.g.msgs.size(), r.g.pongs.size()); for (auto &z : r.g.closes) t += "close " + hexs(z.data(), z.size()) + " "; return t + (x->eof ? "closed" : "open") + (r.g.partial ? ", partial frame" : ""); };
    if (!(ra.g.msgs == rb.g.msgs) || ra.g.pongs != rb.g.pongs || ra.g.closes != rb.g.closes || a->eof != b->eof || ra.g.partial != rb.g.partial)
        fail("depends-on-segmentation", "one piece: %s; in pieces: %s\n%s", sum(ra, a).c_str(), sum(rb, b).c_str(), sim_dump().c_str());
    if (kind < 3) {                                     // both agree: also with the model
        Expect e = model(v, L); expect_echo(w, b, rb, e);
    }
    if (ra.g.frames) c.nontrivial();
    end_world(c, w, c.chance(1, 10));
}
static AddProp p_m05({"M05", m05, true, 1100, "the stream produced output", 60, world_warm});
