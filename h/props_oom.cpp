// R06: allocations of the server fail at generated points while clients are served.
#include "gen.h"
#include <memory>

static void r06(Case &c) {
    Conf cf = gen_conf(c); cf.ring = c.pick<int>({128, 16, 1024}); if (cf.buffer < 16) cf.buffer = 16;
    bool pmd = c.below(3) == 0; if (pmd) cf.exts.push_back({"permessage-deflate", ""});
    World w(cf); w.start(c);
    // keeps the tables of the server from being allocated anew, which it does not survive without memory
    Client *witness = open_ws(w, "10.0.2.1", "echo"); witness->kept = true; w.baseline(); sim_total_steps = 0;
    struct Cl { Client *c; Reader r; std::vector<RefFrame> in; bool up = false, gone = false, refused = false, loose = false; Str key; };
    std::vector<std::unique_ptr<Cl>> cs; Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented}; Shortage oom(c);
    auto join = [&] {
        cs.push_back(std::make_unique<Cl>()); Cl &x = *cs.back(); x.c = w.connect(fmt("10.0.3.%d", (int)cs.size())); x.key = gen_key(c); x.loose = c.below(4) == 3; x.refused = c.below(8) == 7;
        Req q = Req::valid(x.key, x.loose ? "broadcast" : "echo", pmd && c.coin() ? "permessage-deflate" : ""); if (x.refused) q.uri = c.coin() ? "/favicon.ico" : "/", q.h.resize(1 + c.below(3));
        x.c->send(q.text()); x.c->pump();
    };
    auto progress = [&](Cl &x) {
        if (x.gone) return;
        if (!x.up) {
            Str h; Resp rs; if (!x.c->head(h)) return; CHECK(parse_resp(h, rs), "malformed-output", "%s", quote(h).c_str());
            if (rs.status != 101) { x.refused = true; x.gone = true; x.c->close(); return; }
            x.up = true; if (rs.count("Sec-WebSocket-Extensions")) x.r.rsv1_ok = true, x.loose = true;
        }
        if (x.up && !x.r.feed(*x.c)) fail("malformed-output", "%s", x.r.g.error.c_str());
    };
    auto breathe = [&] {
        switch (c.below(5)) { case 0: sim_quiet(); w.pump(); break; case 1: sim_steps(1 + c.below(100)); w.pump(); break; case 2: sim_steps(1 + c.below(2000)); w.pump(); break; case 3: w.settle(); break; default: if (c.below(4) == 3) w.settle_ms(1 + c.below(500)); }
        for (auto &x : cs) progress(*x);
    };
    int n = 1 + c.below(3); while (n--) join(); if (c.coin()) w.settle();
    int rounds = 1 + c.below(4);
    while (rounds--) {
        oom.arm(c); int ops = 1 + c.below(14);
        while (ops-- > 0) {
            int k = c.below(8);
            if (k == 0 && cs.size() < 12) join();
            else if (k == 1) { Cl &x = *cs[c.below(cs.size())]; if (c.coin()) { x.gone = true; x.c->close(); } }
            else {
                Cl &x = *cs[c.below(cs.size())]; progress(x);
                if (x.up && !x.gone) {
                    std::vector<RefFrame> v; size_t bd = 3000; StreamOpt o; o.maxmsg = c.below(4) ? 300 : 3000; o.maxfrags = 3; int m = 1 + c.below(3); while (m--) add_message(c, v, o, bd);
                    if (c.coin()) v.push_back(mkframe(c, 9, gen_payload(c, c.below(20)))); if (c.below(8) == 7) v.push_back(mkframe(c, 8, ""));
                    for (auto &f : v) x.in.push_back(f); x.c->send(wire(v)); x.c->pump();
                }
            }
            breathe();
        }
        if (c.coin()) w.settle(); oom.armed = false; breathe();
    }
    w.settle(); sim_check();
    // whoever kept the connection was served completely, or else was disconnected
    for (auto &xp : cs) {
        Cl &x = *xp; progress(x);
        for (int t = 0; t < w.patience(); t++) { progress(x); if (x.gone || x.c->eof || (x.up && (x.loose || satisfied(model(x.in, L), x.c, x.r)))) break; w.settle_ms(100); }
        if (x.gone || x.c->eof) { if (x.up && !x.loose) expect_prefix(x.c, x.r, model(x.in, L)); continue; }
        CHECK(x.up, "no-answer", "a client got neither an answer nor the end of its connection: sent %s received %s\n%s", quote(x.c->tx).c_str(), quote(x.c->rx).c_str(), sim_dump().c_str());
        if (!x.loose && !x.refused) expect_echo(w, x.c, x.r, model(x.in, L));
    }
    // everybody else is served
    for (int i = 0; i < 2; i++) { Client *k = open_ws(w, fmt("10.0.9.%d", i), "echo"); Reader r; std::vector<RefFrame> v; size_t bd = 2000; StreamOpt o; o.maxmsg = 1000; o.maxfrags = 3; add_message(c, v, o, bd); k->send(wire(v)); expect_echo(w, k, r, model(v, L)); }
    { Reader r; std::vector<RefFrame> v{mkframe(c, 1, "witness")}; witness->send(wire(v)); expect_echo(w, witness, r, model(v, L)); }
    oom.report(c); w.check_released(); end_world(c, w, c.chance(1, 8));
}
static AddProp p_r06({"R06", r06, true, 3000, "at least one allocation failed", 90, world_warm});
