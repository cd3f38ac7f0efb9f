#include "gen.h"
#include <map>
#include <memory>

// ---------------------------------------------------------------- tagged messages
struct Peer {
    Client *c = nullptr; int id = 0; bool stable = true, gone = false, closing = false; Reader r; size_t seen = 0;
    std::vector<Msg> sent; std::map<int, size_t> next; Str todo;
};
static Msg tagged(Case &c, int id, size_t seq, size_t max, const std::vector<size_t> &edges) {
    Msg m; m.op = 1 + c.below(2); m.data = fmt("%d.%zu:", id, seq); size_t l = gen_len(c, max, edges);
    m.data += m.op == 1 ? gen_utf8(c, l) : gen_payload(c, l); return m;
}
static Str wire_msg(Case &c, const Msg &m) {
    std::vector<RefFrame> v; int n = c.below(4) ? 1 : 1 + c.below(4); std::vector<size_t> cuts;
    for (int i = 1; i < n; i++) cuts.push_back(c.below(m.data.size() + 1)); std::sort(cuts.begin(), cuts.end()); cuts.push_back(m.data.size());
    size_t a = 0; for (int i = 0; i < n; i++) { v.push_back(mkframe(c, i ? 0 : m.op, m.data.substr(a, cuts[i] - a), i == n - 1)); a = cuts[i]; }
    return wire(v);
}
static void advance(Case &c, Peer &p, bool all) { if (p.todo.empty() || p.c->fd < 0) return; size_t n = all ? p.todo.size() : 1 + c.below(p.todo.size()); p.c->send(p.todo.substr(0, n)); p.todo.erase(0, n); p.c->pump(); }
static void breathe(Case &c, World &w) {
    switch (c.below(5)) { case 0: sim_quiet(); w.pump(); break; case 1: sim_steps(1 + c.below(60)); w.pump(); break; case 2: sim_steps(1 + c.below(800)); w.pump(); break; case 3: w.settle(); break; default: break; }
}
// What a receiver got so far: whole messages of others, each sender's in order and without gaps.
static void receive(std::vector<std::unique_ptr<Peer>> &ps, Peer &p) {
    if (!p.r.feed(*p.c)) fail("malformed-output", "client %d: %s", p.id, p.r.g.error.c_str());
    for (; p.seen < p.r.g.msgs.size(); p.seen++) {
        const Msg &m = p.r.g.msgs[p.seen]; int i = -1; size_t q = 0; char colon = 0;
        if (sscanf(m.data.c_str(), "%d.%zu%c", &i, &q, &colon) != 3 || colon != ':' || i < 0 || i >= (int)ps.size() || q >= ps[i]->sent.size()) fail("unexpected-message", "client %d received %s, which nobody sent", p.id, msg_text(m).c_str());
        if (i == p.id) fail("own-message", "client %d received its own message %s", p.id, msg_text(m).c_str());
        if (!(m == ps[i]->sent[q])) fail("message-corrupted", "client %d received %s instead of %s", p.id, msg_text(m).c_str(), msg_text(ps[i]->sent[q]).c_str());
        auto it = p.next.find(i); bool strict = p.stable;
        if (it == p.next.end()) { if (strict && q) fail("message-lost", "client %d missed the first %zu messages of client %d", p.id, q, i); }
        else if (q < it->second) fail("duplicate", "client %d received message %zu of client %d again or late", p.id, q, i);
        else if (q > it->second) fail("message-lost", "client %d missed messages %zu to %zu of client %d", p.id, it->second, q - 1, i);
        p.next[i] = q + 1;
    }
}
// ---------------------------------------------------------------- B01
static void b01x(Case &c, bool tls) {
    Conf cf = gen_conf(c); cf.ring = 1024; cf.ssl = tls; if (tls && cf.buffer < 16) cf.buffer = 4096; world_tls12 = tls ? c.pick<int>({0, 50, 100}) : 0; if (c.coin()) cf.frame = 2000 + c.below(3000); World w(cf); w.start(c);
    std::vector<std::unique_ptr<Peer>> ps; int n = 2 + c.below(5);
    auto add = [&](bool stable) -> Peer & { auto p = std::make_unique<Peer>(); p->id = (int)ps.size(); p->stable = stable; ps.push_back(std::move(p)); return *ps.back(); };
    for (int i = 0; i < n; i++) add(true).c = open_ws(w, fmt("10.0.0.%d", i + 1), "broadcast", "", 0, tls && (i == 0 || (i > 1 && c.coin())));
    Client *outsider = c.coin() ? open_ws(w, "10.0.1.1", "echo") : nullptr;
    size_t maxlen = c.pick<size_t>({200, 2000, 20000, 70000}); if (maxlen > (size_t)cf.frame) maxlen = cf.frame; maxlen -= 20; std::vector<size_t> edges = {0, 110, 125, 126, (size_t)cf.frame - 20, 65530}; size_t bytes = 0;
    int ops = 4 + c.below(c.thorough ? 90 : 50), total = 0, churn = 0, conc = 0; int live = 0;
    while (ops-- > 0) {
        int k = c.below(10);
        if (k < 5 && total < 80 && bytes < 400000) {
            Peer &p = *ps[c.below(ps.size())]; if (p.gone || p.closing || !p.c->rp) continue;
            Msg m = tagged(c, p.id, p.sent.size(), maxlen, edges); bytes += m.data.size(); p.todo += wire_msg(c, m); p.sent.push_back(m); total++; if (c.coin()) advance(c, p, true); if (!p.todo.empty()) conc++;
        } else if (k < 7) { for (auto &p : ps) if (!p->gone && c.coin()) advance(c, *p, c.coin()); }
        else if (k == 7 && churn < 6 && live < 4) {
            Peer &p = add(false); churn++; live++; p.c = w.connect(fmt("10.0.2.%d", p.id), 0, tls && c.coin());
            Rng r(c.seed()); Str key; for (int i = 0; i < 16; i++) key += (char)r.next();
            Req q = Req::valid(ref_b64(key), "broadcast"); p.c->send(q.text()); p.c->pump();
            if (c.coin()) w.settle(); else breathe(c, w);
        } else if (k == 8 && live) {
            std::vector<Peer *> v; for (auto &p : ps) if (!p->stable && !p->gone && !p->closing) v.push_back(p.get());
            if (v.empty()) continue; Peer &p = *v[c.below(v.size())];
            if (p.c->rp && c.coin()) { advance(c, p, true); p.c->send(enc_frame(mkframe(c, 8, ""))); p.c->pump(); p.closing = true; }
            else { receive(ps, p); p.gone = true; live--; if (c.coin()) p.c->half_close(); else p.c->close(); }
        } else breathe(c, w);
        for (auto &p : ps) if (!p->stable && !p->gone && !p->c->rp) { Str h; Resp rs; if (p->c->head(h)) { CHECK(parse_resp(h, rs) && rs.status == 101, "handshake-refused", "client %d: %s", p->id, quote(h).c_str()); } }
        for (auto &p : ps) if (!p->gone && p->c->rp) receive(ps, *p);
    }
    for (auto &p : ps) if (!p->gone) advance(c, *p, true);
    w.settle(); w.settle_ms(300);
    for (auto &p : ps) {
        if (!p->gone && p->c->rp) receive(ps, *p);
        if (!p->stable) continue;
        CHECK(!p->c->eof && p->r.g.closes.empty(), "connection-lost", "client %d was disconnected (%zu messages in all, queue size %d)\n%s", p->id, ps.size(), cf.ring, sim_dump().c_str());
        CHECK(!p->r.g.partial, "truncated-output", "client %d received only a part of a message", p->id);
        for (auto &s : ps) if (s->stable && s->id != p->id && p->next[s->id] != s->sent.size()) fail("message-lost", "client %d received %zu of the %zu messages of client %d\n%s", p->id, p->next[s->id], s->sent.size(), s->id, sim_dump().c_str());
        for (auto &s : ps) if (s->closing && p->next[s->id] != s->sent.size()) fail("message-lost", "client %d received %zu of the %zu messages client %d sent before its close frame\n%s", p->id, p->next[s->id], s->sent.size(), s->id, sim_dump().c_str());
    }
    if (outsider) { w.settle(); CHECK(outsider->pending() == 0 && !outsider->eof, "misdelivered", "a client of another subprotocol received %s", hexs(outsider->rx.data() + outsider->rp, outsider->pending()).c_str()); }
    c.note("%d clients, %d messages, %d come and go ", n, total, churn); if (churn) label("churn"); if (conc) label("concurrent"); if (total >= 4) c.nontrivial();
    end_world(c, w, c.chance(1, 8));
}
static void b01(Case &c) { b01x(c, false); }
static void b01t(Case &c) { b01x(c, true); }
static AddProp p_b01t({"B01.tls", b01t, true, 1500, "at least four messages among at least two clients", 90, world_warm_tls});
static AddProp p_b01({"B01", b01, true, 1500, "at least four messages among at least two clients", 60, world_warm});

// ---------------------------------------------------------------- B02
static void b02(Case &c) {
    Conf cf = gen_conf(c); cf.ring = c.pick<int>({8, 16, 32, 64, 128}); World w(cf); w.start(c);
    bool echo = c.below(3) == 0; const char *proto = echo ? "echo" : "broadcast"; int snd = c.pick<int>({4608, 1, 9000, 30000});
    std::vector<std::unique_ptr<Peer>> ps; auto add = [&](Client *cl) -> Peer & { auto p = std::make_unique<Peer>(); p->id = (int)ps.size(); p->c = cl; ps.push_back(std::move(p)); return *ps.back(); };
    Peer &s = add(open_ws(w, "10.0.0.1", proto)); sim_sndbuf = snd; Peer &v = add(open_ws(w, "10.0.0.2", proto)); sim_sndbuf = 0; Peer *o = c.coin() ? &add(open_ws(w, "10.0.0.3", proto)) : nullptr;
    Client *other = open_ws(w, "10.0.0.4", "echo"); Reader ro; std::vector<RefFrame> oin;
    size_t maxlen = c.pick<size_t>({2000, 100, 6000, 30000}); if (maxlen + 20 > (size_t)cf.frame) maxlen = cf.frame - 20;
    int rounds = 1 + c.below(3), total = 0; bool overflow = false, expect_all = true; size_t rl = 0; uint64_t blocked = 0;
    for (int r = 0; r < rounds; r++) {
        int mode = c.below(3);                          // stalls, reads slowly, both
        if (mode != 1) v.c->stalled = true; if (mode != 0) v.c->rlimit = rl = 1 + c.below(c.coin() ? 20 : 2000);
        bool over = !echo && c.below(4) == 0; int k = over ? cf.ring + 2 + c.below(cf.ring) : 1 + c.below(cf.ring - 4);
        if (k > 100) k = 100;
        std::vector<size_t> edges = {0, 110, 4096, 20000};
        for (int i = 0; i < k; i++) {
            Peer &from = echo ? v : (o && c.below(3) == 0) ? *o : s;
            Msg m = tagged(c, from.id, from.sent.size(), maxlen, edges); from.todo += wire_msg(c, m); from.sent.push_back(m); total++;
            if (c.coin()) { advance(c, from, c.below(4) != 0); breathe(c, w); }
            if (c.below(12) == 0) {                     // others are served meanwhile
                for (auto f : {mkframe(c, 2, gen_payload(c, c.below(50)))}) { oin.push_back(f); other->send(enc_frame(f)); }
                w.settle(); CHECK(ro.feed(*other), "malformed-output", "%s", ro.g.error.c_str());
                if (ro.g.msgs.size() < oin.size()) { w.settle_ms(300); ro.feed(*other); }
                CHECK(ro.g.msgs.size() == oin.size(), "others-not-served", "another client is not served while one does not read\n%s", sim_dump().c_str()); label("served-meanwhile");
            }
            if (!echo && c.below(10) == 0) { w.settle(); receive(ps, s); if (o) receive(ps, *o); }
        }
        for (auto &p : ps) advance(c, *p, true);
        w.settle(); if (c.below(3) == 0) w.settle_ms(c.below(1500));
        if (over) expect_all = false;
        v.c->stalled = false; w.settle(); blocked += sim_eagain_writes + sim_partial_writes;
        for (auto &p : ps) if (!(p->id == 1 && echo)) receive(ps, *p); 
        w.settle_ms(200);
        // the victim
        if (!v.r.feed(*v.c)) fail("malformed-output", "%s", v.r.g.error.c_str());
        if (v.c->eof) { if (expect_all) fail("connection-lost", "a client that stopped reading was disconnected although at most %d messages were waiting for it and the queue takes %d\n%s", k, cf.ring, sim_dump().c_str()); overflow = true; }
        if (echo) {
            for (size_t i = 0; i < v.r.g.msgs.size(); i++) { if (i >= v.sent.size() || !(v.r.g.msgs[i] == v.sent[i])) fail("message-corrupted", "echo %zu is %s, expected %s", i, msg_text(v.r.g.msgs[i]).c_str(), i < v.sent.size() ? msg_text(v.sent[i]).c_str() : "nothing"); }
            if (v.r.g.msgs.size() != v.sent.size() && !v.c->eof) fail("message-lost", "%zu of %zu messages were echoed\n%s", v.r.g.msgs.size(), v.sent.size(), sim_dump().c_str());
        } else {
            receive(ps, v);
            for (auto &p : ps) if (p->id != 1 && v.next[p->id] != p->sent.size() && !v.c->eof) fail("message-lost", "the client received %zu of the %zu messages of client %d after it resumed, and is still connected\n%s", v.next[p->id], p->sent.size(), p->id, sim_dump().c_str());
        }
        if (!v.c->eof && v.r.g.partial) fail("truncated-output", "a part of a message is missing\n%s", sim_dump().c_str());
        if (overflow) break;
    }
    for (auto &p : ps) if (p->id != 1 && !echo) {
        receive(ps, *p); CHECK(!p->c->eof, "connection-lost", "client %d, which always reads, was disconnected", p->id);
        for (auto &q : ps) if (q->id != 1 && q->id != p->id && p->next[q->id] != q->sent.size()) fail("message-lost", "client %d, which always reads, received %zu of the %zu messages of client %d", p->id, p->next[q->id], q->sent.size(), q->id);
    }
    std::vector<RefFrame> fin = oin; { RefFrame f = mkframe(c, 1, "end"); fin.push_back(f); other->send(enc_frame(f)); }
    expect_echo(w, other, ro, model(fin, Limits{}));
    c.note("%s, %d messages up to %zu bytes, send buffer %d%s%s ", proto, total, maxlen, snd, overflow ? ", overflow" : "", rl ? fmt(", reads %zu at a time", rl).c_str() : "");
    label(overflow ? "overflow" : "resumed"); if (sim_partial_writes) label("partial-writes"); if (blocked) { label("blocked-writes"); c.nontrivial(); }
    end_world(c, w, c.chance(1, 8));
}
static AddProp p_b02({"B02", b02, true, 1500, "the server's writes were blocked or partial", 60, world_warm});
