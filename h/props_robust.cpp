// Hostile clients, load, idle clients and shutdown.
#include "gen.h"
#include <map>
#include <memory>
#include <sys/socket.h>
#include <signal.h>
#include <unistd.h>

static Str junk(Case &c, size_t max) { Rng r(c.seed()); Str s; size_t n = c.below(max + 1); int m = c.below(3); while (s.size() < n) s += m == 0 ? (char)r.next() : m == 1 ? (char)(32 + r.below(95)) : "\r\n: ,;=\"/\0GETHsc-"[r.below(18)]; return s; }
static Str mutate(Case &c, Str s, int max) {
    int n = 1 + c.below(max);
    while (n--) {
        size_t p = c.below(s.size() + 1);
        switch (c.below(6)) {
        case 0: if (p < s.size()) s[p] = (char)c.byte(); break;
        case 1: if (p < s.size()) s[p] ^= 1 << c.below(8); break;
        case 2: s.erase(p, 1 + c.below(8)); break;
        case 3: s.insert(p, junk(c, 8)); break;
        case 4: { size_t l = c.below(60); s.insert(p, s.substr(c.below(s.size() + 1), l)); break; }
        default: { size_t e = s.find("\r\n", p); if (e != Str::npos) s.erase(e, 1 + c.below(2)); break; }
        }
    }
    return s;
}
static Str odd_request(Case &c, Req q) {
    static const std::vector<Str> names = {"Host", "Origin", "Upgrade", "Connection", "Sec-WebSocket-Key", "Sec-WebSocket-Version", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Cookie", "X-A", ""};
    static const std::vector<Str> vals = {"", " ", ",", ",,,", ";", ";;=", "=", ", echo,", "echo;a", "permessage-deflate;", "permessage-deflate; server_max_window_bits=", "permessage-deflate;;;,permessage-deflate", "\"", "\"\\", "http://", "://", "%", "websocket,", "13,13", "a=b; c", "permessage-deflate; client_max_window_bits=99"};
    int n = 1 + c.below(5);
    while (n--) {
        Str v = c.below(4) == 0 ? Str(1 + c.below(c.below(3) ? 200 : 6000), 'a') : c.pickv(vals);
        switch (c.below(5)) {
        case 0: q.h.insert(q.h.begin() + c.below(q.h.size() + 1), {c.pickv(names), v}); break;
        case 1: if (!q.h.empty()) q.h[c.below(q.h.size())].second = v; break;
        case 2: if (!q.h.empty()) q.h.erase(q.h.begin() + c.below(q.h.size())); break;
        case 3: if (!q.h.empty()) { auto x = q.h[c.below(q.h.size())]; int k = 1 + c.below(c.below(4) ? 3 : 120); while (k--) q.h.push_back(x); } break;
        default: switch (c.below(4)) { case 0: q.uri = v; break; case 1: q.method = v; break; case 2: q.version = "HTTP/" + v; break; default: q.uri = "/" + Str(c.below(9000), 'u') + "?" + v + "#" + v; } break;
        }
    }
    return q.text();
}
static RefFrame odd_frame(Case &c) {
    RefFrame f = mkframe(c, c.below(16), gen_payload(c, c.below(3) ? c.below(140) : c.below(4000)), c.below(4) != 0);
    if (c.below(6) == 0) f.masked = false; if (c.below(6) == 0) f.rsv1 = true; if (c.below(10) == 0) f.rsv2 = true; return f;
}
static Str hostile(Case &c, const char *&what, bool pmd) {
    Str key = gen_key(c); static const std::vector<Str> ext = {"permessage-deflate", "permessage-deflate; client_max_window_bits", "permessage-deflate; server_no_context_takeover; client_no_context_takeover", "permessage-deflate; server_max_window_bits=9"};
    Req q = Req::valid(key, c.coin() ? "echo" : c.coin() ? "broadcast" : "", pmd && c.coin() ? c.pickv(ext) : Str()); Str s = q.text();
    switch (c.below(11)) {
    case 0: what = "idle"; return "";
    case 1: what = "garbage"; return junk(c, 600);
    case 2: what = "mutated-request"; return mutate(c, s, 6) + (c.coin() ? "\r\n\r\n" : "");
    case 3: what = "odd-request"; { Str t = odd_request(c, q); if (c.coin()) t += odd_request(c, q); return t; }
    case 4: what = "cut-request"; return s.substr(0, c.below(s.size()));
    case 5: what = "mutated-frames"; { std::vector<RefFrame> v; size_t b = 6000; StreamOpt o; o.maxmsg = 3000; int n = 1 + c.below(5); while (n--) add_message(c, v, o, b); return s + "|" + mutate(c, wire(v), 4); }
    case 6: what = "frame-garbage"; return s + "|" + junk(c, 400);
    case 7: what = "ping-flood"; { Str t = s + "|"; int n = 20 + c.below(300); RefFrame f = mkframe(c, 9, gen_payload(c, c.below(126))); Str e = enc_frame(f); while (n--) t += e; return t; }
    case 8: what = "huge-frame"; { Str t = s + "|"; uint64_t l = c.pick<uint64_t>({1048576, 1048577, 0x7fffffffull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffff0ull, 65536}); t += (char)(0x80 | (1 + c.below(2))); t += (char)0xff; for (int i = 7; i >= 0; i--) t += (char)(l >> (8 * i)); return t + junk(c, 300); }
    case 9: what = "odd-frames"; { Str t = s + "|"; int n = 1 + c.below(12); while (n--) t += enc_frame(odd_frame(c)); return t; }
    default: what = "valid-then-leave"; { Str t = s + "|"; std::vector<RefFrame> v; size_t b = 20000; StreamOpt o; o.maxmsg = 9000; int n = c.below(4); while (n--) add_message(c, v, o, b); Str x = wire(v); return t + x.substr(0, c.below(x.size() + 1)); }
    }
}
struct Foe { Client *c; Str todo; Str after; bool waits = false; const char *what; };
static void breathe(Case &c, World &w) {
    switch (c.below(6)) { case 0: sim_quiet(); w.pump(); break; case 1: sim_steps(1 + c.below(60)); w.pump(); break; case 2: sim_steps(1 + c.below(900)); w.pump(); break; case 3: w.settle(); break; case 4: if (c.below(4) == 0) sim_sleep(1 + c.below(300)); w.pump(); break; default: break; }
}
static void foe_step(Case &c, Foe &f) {
    if (f.c->fd < 0) return;
    if (f.todo.empty() && f.waits && f.c->rx.find("\r\n\r\n") != Str::npos) { f.todo = f.after; f.after.clear(); f.waits = false; }
    if (f.todo.empty()) return;
    size_t n = c.below(3) == 0 ? f.todo.size() : 1 + c.below(f.todo.size()); f.c->send(f.todo.substr(0, n)); f.todo.erase(0, n); f.c->pump();
}
static void foe_leave(Case &c, Foe &f) { if (c.below(4) == 0) f.c->half_close(); else f.c->close(); }
static Foe foe(Case &c, World &w, bool pmd) {
    Foe f; f.what = ""; Str s = hostile(c, f.what, pmd); size_t bar = s.find('|');
    f.c = w.connect(fmt("10.6.0.%d", (int)w.clients.size()));
    if (bar != Str::npos && s.compare(0, 4, "GET ") == 0) { f.todo = s.substr(0, bar); f.after = s.substr(bar + 1); f.waits = true; } else f.todo = s;
    c.note("%s%s ", f.what, f.c->stalled ? "(not reading)" : ""); label(f.what); return f;
}
// ---------------------------------------------------------------- R01
struct Good { Client *c; Reader r; std::vector<RefFrame> in; };
static void good_say(Case &c, Good &g, size_t max) { std::vector<RefFrame> v; size_t b = max; StreamOpt o; o.maxmsg = max; o.maxfrags = 3; if (c.below(3) == 0) add_control(c, v); add_message(c, v, o, b); for (auto &f : v) g.in.push_back(f); g.c->send(wire(v)); g.c->pump(); }
static void r01(Case &c) {
    Conf cf = gen_conf(c); cf.ring = c.pick<int>({128, 32, 1024}); bool pmd = c.below(3) == 0; if (pmd) cf.exts.push_back({"permessage-deflate", ""});
    if (c.below(3) == 0) { cf.has_favicon = true; cf.favicon = REPO "/README.md"; }
    if (c.below(4) == 0) { cf.thread = 1 + c.below(8); cf.retries = 1000; }
    World w(cf); w.start(c); w.baseline();
    std::vector<Good> good; std::vector<Foe> foes; int ops = 4 + c.below(c.thorough ? 70 : 36), met = 0, said = 0, fresh = 0;
    if (c.below(4)) { good.push_back({open_ws(w, "10.0.0.1", "echo")}); if (c.coin()) good.push_back({open_ws(w, "10.0.0.2", "echo")}); }
    Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented};
    while (ops-- > 0) {
        int k = c.below(12);
        if (k < 3 && foes.size() < 12) { sim_sndbuf = c.below(3) == 0 ? c.pick<int>({1, 5000}) : 0; foes.push_back(foe(c, w, pmd)); sim_sndbuf = 0; if (c.below(4) == 0) foes.back().c->stalled = true; met++; if (c.coin()) foe_step(c, foes.back()); }
        else if (k < 7) { for (auto &f : foes) if (c.coin()) foe_step(c, f); }
        else if (k < 9) { if (!foes.empty()) { size_t i = c.below(foes.size()); foe_leave(c, foes[i]); foes.erase(foes.begin() + i); } }
        else if (k == 9 && !good.empty() && said < 25) { good_say(c, good[c.below(good.size())], 3000); said++; }
        else if (k == 10 && fresh < 4 && c.below(3) == 0) { good.push_back({open_ws(w, fmt("10.0.1.%d", fresh++), "echo")}); label("fresh-client"); }
        breathe(c, w);
    }
    for (auto &f : foes) { foe_step(c, f); }
    bool drain = c.coin(); if (drain) w.settle();
    for (auto &g : good) { good_say(c, g, 2000); }
    if (c.coin()) for (auto &g : good) expect_echo(w, g.c, g.r, model(g.in, L));
    for (auto &f : foes) foe_leave(c, f);
    // whoever comes next finds a working server and nothing of the others
    for (int i = 0; i < 3; i++) { Good n{open_ws(w, fmt("10.0.9.%d", i), i == 2 && pmd ? "" : "echo")}; good.push_back(n); }
    for (auto &g : good) { good_say(c, g, 500); expect_echo(w, g.c, g.r, model(g.in, L)); }
    if (met >= 2) c.nontrivial(); c.note("%d hostile connections, %zu others ", met, good.size());
    w.check_released(); end_world(c, w, c.chance(1, 8));
}
static AddProp p_r01({"R01", r01, true, 4000, "at least two hostile connections", 90, world_warm});
// ---------------------------------------------------------------- R02
static void r02(Case &c) {
    Conf cf = gen_conf(c); cf.workers = c.pick<int>({1, 2, 3, 4, 8}); cf.ring = c.pick<int>({128, 64, 1024}); cf.thread = c.pick<int>({16384, 1, 2, 3, 8}); if (cf.thread < 100) cf.retries = 1000; World w(cf); w.start(c);
    struct Cl { Client *c; Reader r; std::vector<RefFrame> in; bool up = false, gone = false, bc = false, resuming = false; Str key; size_t sent_at = 0; };
    std::vector<std::unique_ptr<Cl>> cs; Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented};
    int n = 2 + c.below(c.thorough ? 30 : 18), bursts = 1 + c.below(5), busy = 0; bool crowd = c.below(3) == 2;    // mostly broadcasting, with many that leave
    auto join = [&](Cl &x) { x.c = w.connect(fmt("10.0.%d.%d", (int)cs.size() / 200, (int)cs.size() % 200 + 1)); x.key = gen_key(c); x.bc = c.below(crowd ? 4 : 5) < (crowd ? 3 : 1); x.c->send(Req::valid(x.key, x.bc ? "broadcast" : "echo").text()); x.c->pump(); };
    auto progress = [&](Cl &x) {
        if (x.gone) return;
        if (!x.up) { Str h; Resp rs; if (!x.c->head(h)) return; CHECK(parse_resp(h, rs) && rs.status == 101, "handshake-refused", "%s", quote(h).c_str()); x.up = true; }
        if (!x.r.feed(*x.c)) fail("malformed-output", "%s", x.r.g.error.c_str());
    };
    for (int b = 0; b < bursts; b++) {
        while ((int)cs.size() < n && (b == 0 || c.coin())) { cs.push_back(std::make_unique<Cl>()); join(*cs.back()); if (c.below(3) == 0) breathe(c, w); }
        if (b == 0 && c.below(3)) w.settle();
        int ops = 2 + c.below(2 * n);
        while (ops-- > 0) {
            Cl &x = *cs[c.below(cs.size())]; if (x.gone) continue; progress(x);
            switch (c.below(9)) {
            case 0: x.c->stalled = true; break;
            case 1: x.c->stalled = false; break;
            case 2: if (c.below(crowd ? 2 : 3) == 0) { x.gone = true; x.c->close(); } break;
            default: if (!x.up || x.bc) { if (x.bc && x.up) { x.c->send(enc_frame(mkframe(c, 1, gen_utf8(c, c.below(100))))); x.c->pump(); } break; }
                { std::vector<RefFrame> v; size_t bd = 3000; StreamOpt o; o.maxmsg = c.below(4) ? 300 : 3000; o.maxfrags = 3; int k = 1 + c.below(3); while (k--) add_message(c, v, o, bd); if (c.coin()) v.push_back(mkframe(c, 9, gen_payload(c, c.below(20)))); for (auto &f : v) x.in.push_back(f); x.c->send(wire(v)); if (c.coin()) x.c->pump(); busy++; }
            }
            if (c.below(3) == 0) breathe(c, w);
        }
        if (c.coin()) breathe(c, w);
    }
    for (auto &x : cs) x->c->stalled = false;
    // everything a live client asked for is answered in bounded time
    int64_t t0 = sim_ms(); size_t waiting = 1;
    auto echoes = [&](Cl &x) { Expect e = model(x.in, L); return x.up && x.r.g.msgs.size() >= e.msgs.size() && x.r.g.pongs.size() >= e.pongs.size(); };
    while (waiting) {
        w.settle(); waiting = 0; int who = -1;
        for (auto &x : cs) if (!x->gone) { progress(*x); if (x->bc ? !x->up : !echoes(*x)) { waiting++; who = x->c->id; } if (x->c->eof) fail("connection-lost", "client %d was disconnected\n%s", x->c->id, sim_dump().c_str()); }
        if (!waiting) break;
        if (sim_ms() - t0 > 10000) fail("never-answered", "%zu of %zu live clients (client %d among them) still wait for an answer after ten seconds\n%s", waiting, cs.size(), who, sim_dump().c_str());
        sim_sleep(50);
    }
    int64_t took = sim_ms() - t0;
    for (auto &x : cs) if (!x->gone && !x->bc) expect_echo(w, x->c, x->r, model(x->in, L));
    Client *last = open_ws(w, "10.0.7.7", "echo"); Reader lr; std::vector<RefFrame> lv = {mkframe(c, 1, "still there")}; last->send(wire(lv)); expect_echo(w, last, lr, model(lv, L));
    c.note("%zu clients, %d requests, %lld ms ", cs.size(), busy, (long long)took); if (took > 50) label("waited"); if (cf.thread < 100) label("small-queue"); if (busy >= 3) c.nontrivial();
    // and no thread is left behind with a connection that is gone
    int live = 1; for (auto &x : cs) live += !x->gone; for (int t = 0; t < w.patience() && w.open_fds() != live; t++) w.settle_ms(100);
    sim_check(); if (w.open_fds() != live) fail("never-released", "%d descriptors are open for %d live clients\n%s", w.open_fds(), live, sim_dump().c_str());
    end_world(c, w, c.chance(1, 3));
}
static AddProp p_r02({"R02", r02, true, 4000, "at least three requests of several clients", 90, world_warm});

// ---------------------------------------------------------------- R03
#ifdef VARIANT_POLL
static const bool lags = false;                         // lag is per step, and the poll loop takes many
#else
static const bool lags = true;
#endif
static void r03(Case &c) {
    Conf cf = gen_conf(c); bool off = c.below(6) == 0; cf.pings = c.below(6); int T = off ? -1 : 100 + c.below(c.below(3) ? 900 : 5000); if (!off && cf.pings && T / cf.pings < 60) T = 60 * cf.pings + c.below(60);
    cf.t_client = T; World w(cf); SimCfg sc = sim_gen(c); if (c.coin() && lags) { sc.lag = c.pick<int>({400, 100, 2000}); sc.lag_us = c.pick<int>({1500, 300, 6000}); label("lag"); if (!off) w.conf.t_client = cf.t_client = T += 600; }
    c.note("%s %s lag=%d/%d ", cf.text().c_str(), sim_cfg_text(sc).c_str(), sc.lag, sc.lag_us); w.start(sc);
    int P = off ? 0 : cf.pings ? T / cf.pings : T;
    enum { SILENT, ACTIVE, ALTERNATING, NOREAD }; static const char *kn[] = {"silent", "active", "alternating", "not-reading"};
    struct Cl { Client *c; int kind; Reader r; std::vector<RefFrame> in; int64_t before, after, next; size_t pings0 = 0, seen = 0; bool over = false, half = false; Str rest; };
    std::vector<std::unique_ptr<Cl>> cs; Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented}; int n = 1 + c.below(5), kinds = 0;
    const int slack = 40 + (sc.lag ? 200 : 0);
    auto now = [] { return sim_ms(); };
    auto say = [&](Cl &x) {                             // some activity
        int64_t b = now(); Str s;
        if (!x.rest.empty()) { size_t k = 1 + c.below(x.rest.size()); s = x.rest.substr(0, k); x.rest.erase(0, k); }
        else {
            std::vector<RefFrame> v; size_t bd = 600; StreamOpt o; o.maxmsg = 600; o.maxfrags = 1; o.control = false;
            switch (c.below(5)) { case 0: v.push_back(mkframe(c, 10, gen_payload(c, c.below(30)))); break; case 1: v.push_back(mkframe(c, 9, gen_payload(c, c.below(60)))); break; case 2: if (x.r.g.pings.size()) { v.push_back(mkframe(c, 10, x.r.g.pings.back())); break; } default: add_message(c, v, o, bd); }
            for (auto &f : v) x.in.push_back(f); s = wire(v); if (s.size() > 1 && c.below(4) == 0) { size_t k = 1 + c.below(s.size() - 1); x.rest = s.substr(k); s.erase(k); label("frame-in-pieces"); }
        }
        x.c->send(s); w.settle(); x.before = b; x.after = now(); x.pings0 = x.r.g.pings.size(); x.r.feed(*x.c); x.pings0 = x.r.g.pings.size();
    };
    for (int i = 0; i < n; i++) {
        auto x = std::make_unique<Cl>(); x->kind = c.below(4); if (x->kind == NOREAD) sim_sndbuf = c.pick<int>({1, 9000}); x->before = now(); x->c = open_ws(w, fmt("10.0.0.%d", i + 1), "echo"); x->after = now(); sim_sndbuf = 0;
        if (x->kind == NOREAD) { // its queue fills with answers it does not read
            if (c.coin()) { x->c->stalled = true; x->before = now(); int k = 1 + c.below(6); while (k--) { auto f = mkframe(c, 2, gen_payload(c, 2000 + c.below(4000))); x->in.push_back(f); x->c->send(enc_frame(f)); } w.settle(); x->after = now(); } else x->c->stalled = true; }
        x->next = x->after; c.note("%s ", kn[x->kind]); label(kn[x->kind]); kinds |= 1 << x->kind; cs.push_back(std::move(x)); if (c.coin() && P) { sim_sleep(1 + c.below(P)); w.settle(); }
    }
    int64_t end = now() + (off ? 200000 : (int64_t)T * (2 + c.below(3)) + P); int64_t limit = off ? 20000 : T; int steps = 0;
    while (now() < end && steps++ < (c.thorough ? 400 : 150)) {
        int64_t due = end;
        for (auto &x : cs) {
            if (x->over || x->kind == NOREAD || x->kind == SILENT) continue;
            if (!off && now() - x->before >= limit - slack / 2) continue;      // too late, it times out
            if (now() >= x->next) {
                say(*x);
                int64_t room = limit - slack - 20; if (room < 1) room = 1;
                int64_t gap = c.below(3) == 0 ? room : 1 + c.below(room); if (x->kind == ALTERNATING && c.below(3) == 0) gap = limit * 10;
                x->next = now() + gap;
            }
            due = std::min(due, x->next);
        }
        int64_t d = std::min<int64_t>(due - now(), off ? 20000 : 1 + c.below(P / 2 + 1)); if (d > 0) { if (c.coin()) sim_sleep(d); else {   // act in the middle of the server's own activity
            sim_nap(d, c.below(c.coin() ? 30 : 600)); w.pump();
            for (auto &x : cs) if (!x->over && (x->kind == ACTIVE || x->kind == ALTERNATING) && c.coin() && (off || now() - x->before < limit - slack / 2)) { say(*x); x->next = now() + 1 + c.below(std::max<int64_t>(limit - slack - 20, 1)); label("during-a-timer"); }
        } }
        int64_t t = now(); w.settle();
        for (auto &x : cs) {
            if (x->over) continue;
            if (!x->r.feed(*x->c)) fail("malformed-output", "%s client: %s", kn[x->kind], x->r.g.error.c_str());
            bool ended = x->c->eof || !x->r.g.closes.empty(); size_t np = x->r.g.pings.size() - x->pings0;
            if (off) { CHECK(!ended, "timed-out-though-disabled", "a client was disconnected after %lld ms although there is no timeout", (long long)(now() - x->before)); CHECK(!x->r.g.pings.size(), "pinged-though-disabled", "a client was pinged although there is no timeout"); continue; }
            if (ended) {
                if (now() - x->before < T) fail("timed-out-too-early", "a %s client was disconnected %lld ms after it was active, the timeout is %d ms\n%s", kn[x->kind], (long long)(now() - x->before), T, sim_dump().c_str());
                if (x->kind != NOREAD) {
                    for (int i = 0; i < 20 && !x->c->eof; i++) { w.settle_ms(20); x->r.feed(*x->c); }
                    CHECK(x->r.g.closes.size() == 1 && x->r.g.closes[0].size() >= 2 && (uint8_t)x->r.g.closes[0][0] == 1013 >> 8 && (uint8_t)x->r.g.closes[0][1] == (1013 & 255), "close-code", "a client that timed out was not told so (%zu close frames)", x->r.g.closes.size());
                    CHECK(x->c->eof, "not-disconnected", "a client that timed out is still connected after its close frame\n%s", sim_dump().c_str());
                    size_t lo = cf.pings > 1 ? cf.pings - 1 : 0; if (sc.lag) lo = lo > 1 ? lo - 1 : 0;
                    if (x->kind == SILENT && (np < lo || np > (size_t)cf.pings + 1)) fail("ping-count", "a silent client was pinged %zu times before it timed out, %d pings are configured for %d ms", np, cf.pings, T);
                    label("timed-out");
                }
                x->over = true; continue;
            }
            CHECK(cf.pings || x->r.g.pings.empty(), "pinged-though-disabled", "a client was pinged although no pings are configured");
            if (x->kind != NOREAD && t - x->after >= T + P + slack) fail("not-timed-out", "a client is still connected after it was silent for %lld ms, the timeout is %d ms (checked every %d ms)\n%s", (long long)(t - x->after), T, P, sim_dump().c_str());
            if (x->kind == NOREAD && t - x->after >= 2 * (T + P) + slack) { x->c->stalled = false; w.settle(); CHECK(x->c->eof, "not-timed-out", "a client that does not read is still connected after %lld ms, the timeout is %d ms", (long long)(t - x->after), T); if (!x->r.feed(*x->c)) fail("malformed-output", "%s", x->r.g.error.c_str()); x->over = true; }
        }
    }
    for (auto &x : cs) if (!x->over && x->kind != NOREAD && !x->c->eof) { if (!x->rest.empty()) { x->c->send(x->rest); x->rest.clear(); } if (now() - x->before < limit - slack) { std::vector<RefFrame> in = x->in; w.settle(); x->r.feed(*x->c); Expect e = model(in, L); if (!x->c->eof && !(x->r.g.msgs == e.msgs && x->r.g.pongs == e.pongs)) fail("message-lost", "%s", explain(e, x->c, x->r).c_str()); label("served-to-the-end"); } }
    if (off || (kinds && steps > 3)) c.nontrivial();
    end_world(c, w, c.chance(1, 8));
}
static AddProp p_r03({"R03", r03, true, 1500, "clients were watched for more than one timeout", 90, world_warm});
// ---------------------------------------------------------------- R04
static void r04x(Case &c, bool tls) {
    Conf cf = gen_conf(c); cf.ssl = tls; if (tls && cf.buffer < 16) cf.buffer = 4096; world_tls12 = tls ? c.pick<int>({0, 50, 100}) : 0; cf.ring = c.pick<int>({128, 16, 1024}); bool pmd = c.below(4) == 0; if (pmd) cf.exts.push_back({"permessage-deflate", ""});
    if (c.below(3) == 0) { cf.t_client = 200 + c.below(2000); cf.pings = c.below(4); }
    int lives = 2 + (c.below(4) == 0); size_t left[4] = {0}; int fds[4] = {0}; int active = 0;
    for (int life = 0; life < lives; life++) {
        bool last = life == lives - 1;                  // the last one only shows that another server can be started
        World w(cf); size_t before = sim_live_blocks(); (void)before; int fd0 = sim_fd_count(); w.start(c);
        struct Cl { Client *c; Reader r; std::vector<RefFrame> in; }; std::vector<Cl> echo, bc; std::vector<Foe> foes; std::vector<Client *> fresh; Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented};
        int ops = last ? 0 : c.below(c.thorough ? 40 : 24);
        auto say = [&](Cl &x, size_t max) { std::vector<RefFrame> v; size_t b = max; StreamOpt o; o.maxmsg = max; o.maxfrags = 3; int k = 1 + c.below(3); while (k--) add_message(c, v, o, b); if (c.below(3) == 0) v.push_back(mkframe(c, 9, gen_payload(c, c.below(30)))); for (auto &f : v) x.in.push_back(f); x.c->send(wire(v)); x.c->pump(); active++; };
        auto small = [&] { sim_sndbuf = c.below(3) == 0 ? c.pick<int>({1, 9000}) : 0; };
        while (ops-- > 0) {
            switch (c.below(10)) {
            case 0: case 1: if (echo.size() < 5) { small(); echo.push_back({open_ws(w, fmt("10.0.0.%d", (int)echo.size()), "echo", "", 0, tls && c.coin())}); if (c.below(3) == 0) echo.back().c->stalled = true; } break;
            case 2: if (bc.size() < 5) { small(); bc.push_back({open_ws(w, fmt("10.0.1.%d", (int)bc.size()), "broadcast", "", 0, tls && c.coin())}); if (c.below(3) == 0) bc.back().c->stalled = true; } break;
            case 3: if (foes.size() < 6) { foes.push_back(foe(c, w, pmd)); foe_step(c, foes.back()); } break;
            case 4: { Client *n = w.connect("10.0.3.3"); if (c.coin()) n->send(Req::valid(gen_key(c), "echo").text().substr(0, c.coin() ? 1000 : c.below(100))); n->pump(); fresh.push_back(n); } break;
            case 5: case 6: if (!echo.empty()) say(echo[c.below(echo.size())], 4000); break;
            case 7: if (!bc.empty()) say(bc[c.below(bc.size())], 4000); break;
            case 8: if (!foes.empty()) { size_t i = c.below(foes.size()); if (c.coin()) foe_step(c, foes[i]); else { foe_leave(c, foes[i]); foes.erase(foes.begin() + i); } } break;
            default: if (!echo.empty()) { size_t i = c.below(echo.size()); echo[i].c->close(); echo.erase(echo.begin() + i); } break;
            }
            breathe(c, w);
        }
        sim_sndbuf = 0; if (last) { echo.push_back({open_ws(w, "10.0.0.1", "echo")}); say(echo.back(), 300); expect_echo(w, echo.back().c, echo.back().r, model(echo.back().in, L)); }
        else { for (auto &x : echo) if (c.coin()) say(x, 9000); for (auto &x : bc) if (c.coin()) say(x, 5000); for (auto &f : foes) if (c.coin()) foe_step(c, f); }
        switch (c.below(4)) { case 0: w.settle(); break; case 1: sim_steps(c.below(100)); break; case 2: sim_steps(c.below(3000)); break; default: break; }
        // the signal; the clients carry on
        sim_signal(SIGINT); int64_t t0 = sim_ms(); if (c.below(4) == 0) { sim_steps(c.below(200)); sim_signal(SIGINT); label("twice"); }
        int k = c.below(6); while (k-- > 0 && !sim_finished(w.main_id)) { sim_steps(c.below(400)); w.pump(); if (!echo.empty() && c.coin()) say(echo[c.below(echo.size())], 3000); if (c.below(4) == 0) { auto cl = std::make_unique<Client>(); cl->w = &w; cl->ip = "10.0.4.4"; cl->fd = sim_connect(cf.http, "10.0.4.4", 1, 0); if (cl->fd >= 0) { cl->send(Req::valid(gen_key(c)).text()); w.clients.push_back(std::move(cl)); label("late-connection"); } } }
        while (!sim_finished(w.main_id)) { w.settle(); if (sim_finished(w.main_id)) break; if (sim_ms() - t0 > 10000) fail("shutdown-hangs", "main() did not return within ten seconds of SIGINT\n%s", sim_dump().c_str()); sim_sleep(20); }
        sim_check(); CHECK(w.exit_code == 0, "exit-code", "main() returned %d after SIGINT", w.exit_code);
        for (auto &x : w.clients) x->stalled = false; w.settle();
        for (auto &x : w.clients) if (x->fd >= 0) CHECK(x->eof || x->dead, "not-closed", "the connection of client %d is still open after the server ended", x->id);
        for (auto &x : echo) {
            if (!x.r.feed(*x.c)) fail("malformed-output", "%s", x.r.g.error.c_str()); Expect e = model(x.in, L);
            for (size_t i = 0; i < x.r.g.msgs.size(); i++) if (i >= e.msgs.size() || !(x.r.g.msgs[i] == e.msgs[i])) fail("message-corrupted", "%s", explain(e, x.c, x.r).c_str());
            for (size_t i = 0; i < x.r.g.pongs.size(); i++) if (i >= e.pongs.size() || x.r.g.pongs[i] != e.pongs[i]) fail("wrong-pong", "%s", explain(e, x.c, x.r).c_str());
        }
        for (auto &x : bc) if (!x.r.feed(*x.c)) fail("malformed-output", "%s", x.r.g.error.c_str());
        w.clients.clear(); left[life] = sim_live_blocks(); Str what = sim_live_since(0); close(w.confd); fds[life] = sim_fd_count() - fd0; sim_end();
        CHECK(fds[life] <= 0, "descriptor-leak", "%d descriptors are still open after the server ended", fds[life]);
        if (left[life]) fail("memory-leak", "%zu blocks are still allocated after the server ended; %s", left[life], what.c_str());
    }
    c.note("%d actions ", active); if (active >= 3) c.nontrivial();
}
static void r04(Case &c) { r04x(c, false); }
static void r04t(Case &c) { r04x(c, true); }
static AddProp p_r04t({"R04.tls", r04t, true, 4000, "at least three messages under way", 90, world_warm_tls_lives});
static AddProp p_r04({"R04", r04, true, 4000, "at least three messages under way", 90, world_warm});
