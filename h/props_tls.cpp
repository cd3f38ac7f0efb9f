// R05: everything holds over TLS as well.
#include "gen.h"
#include <sys/socket.h>
#include <unistd.h>

static Conf tls_conf(Case &c) { Conf cf = gen_conf(c); cf.ssl = true; if (cf.buffer < 16 && c.coin()) cf.buffer = 4096; return cf; }
static void tune(Case &c, Client *cl) {
    cl->rec = c.pick<size_t>({16384, 1, 7, 100, 1000, 16384}); if (c.below(3) == 0) cl->climit = c.pick<size_t>({1, 3, 17, 64, 400, 1500}); if (c.below(4) == 0) cl->rlimit = c.pick<size_t>({1, 100, 5000});
    if (cl->rec < 16384 || cl->climit < 4096) label("cut-records");
}
// ---- one hostile TLS peer: raw bytes to the TLS port
static Str client_hello() {
    static const unsigned char h[] = {0x16,3,1,0,0x6b,1,0,0,0x67,3,3}; Str s((const char *)h, sizeof h); for (int i = 0; i < 32; i++) s += (char)(i * 37 + 11); s += (char)0;
    s += Str("\x00\x04\xc0\x2f\x00\x9c\x01\x00", 8); s += Str("\x00\x3a\x00\x0a\x00\x06\x00\x04\x00\x17\x00\x18\x00\x0b\x00\x02\x01\x00\x00\x0d\x00\x1a\x00\x18\x08\x04\x08\x05\x08\x06\x04\x01\x05\x01\x06\x01\x04\x03\x05\x03\x06\x03\x08\x07\x08\x08\x02\x01\x00\x17\x00\x00\xff\x01\x00\x01\x00", 57); while (s.size() < 112) s += (char)0; return s;
}
struct Raw { int fd = -1; Str todo; const char *what = ""; ~Raw() { if (fd >= 0) { ::shutdown(fd, SHUT_RDWR); ::close(fd); sim_touch_io(); } } };
static void raw_pump(Raw &r, size_t n) { char b[4096]; while (n && !r.todo.empty()) { ssize_t k = ::send(r.fd, r.todo.data(), std::min(n, r.todo.size()), MSG_NOSIGNAL | MSG_DONTWAIT); if (k <= 0) break; r.todo.erase(0, k); n -= k; } while (::recv(r.fd, b, sizeof b, MSG_DONTWAIT) > 0) {} sim_touch_io(); }
static std::unique_ptr<Raw> raw(Case &c, World &w) {
    auto r = std::make_unique<Raw>(); r->fd = sim_connect(w.conf.https, "10.6.6.6", 30000 + c.below(9999), 0); if (r->fd < 0) fail("connect-refused", "the TLS port does not accept connections");
    Rng g(c.seed()); Str h = client_hello();
    switch (c.below(7)) {
    case 0: r->what = "raw-idle"; break;
    case 1: r->what = "raw-garbage"; { int n = c.below(400); while (n--) r->todo += (char)g.next(); } break;
    case 2: r->what = "plain-http"; r->todo = Req::valid(gen_key(c)).text(); break;
    case 3: r->what = "cut-hello"; r->todo = h.substr(0, c.below(h.size())); break;
    case 4: r->what = "mutated-hello"; r->todo = h; { int n = 1 + c.below(6); while (n--) r->todo[c.below(r->todo.size())] ^= (char)(1 + c.below(255)); } break;
    case 5: r->what = "hello-then-garbage"; r->todo = h; { int n = c.below(200); while (n--) r->todo += (char)g.next(); } break;
    default: r->what = "oversize-record"; r->todo = Str("\x16\x03\x01\xff\xff", 5); { int n = c.below(3000); while (n--) r->todo += (char)g.next(); } break;
    }
    c.note("%s ", r->what); label(r->what); return r;
}
static void rest(Case &c, World &w) { switch (c.below(5)) { case 0: sim_quiet(); w.pump(); break; case 1: sim_steps(1 + c.below(80)); w.pump(); break; case 2: sim_steps(1 + c.below(1500)); w.pump(); break; case 3: w.settle(); break; default: break; } }
struct TC { Client *c; Reader r; std::vector<RefFrame> in; bool bad = false, gone = false; };
static void r05(Case &c) {
    Conf cf = tls_conf(c); World w(cf); w.start(c); bool leak = c.below(4) != 0; if (leak) w.baseline(); Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented};
    world_tls12 = c.pick<int>({0, 50, 100}); std::vector<TC> cs; std::vector<std::unique_ptr<Raw>> raws; int ops = 3 + c.below(c.thorough ? 40 : 22), said = 0, met = 0;
    auto add = [&](const Str &proto) { sim_sndbuf = c.below(3) == 0 ? c.pick<int>({1, 5000, 20000}) : 0; Client *x = open_ws(w, fmt("10.0.0.%d", (int)cs.size() + 1), proto, "", 0, true); sim_sndbuf = 0; tune(c, x); cs.push_back({x}); };
    add("echo");
    while (ops-- > 0) {
        TC &x = cs[c.below(cs.size())];
        switch (c.below(12)) {
        case 0: if (cs.size() < 4) add("echo"); break;
        case 1: if (raws.size() < 5) { raws.push_back(raw(c, w)); if (c.coin()) raw_pump(*raws.back(), 1 + c.below(500)); met++; } break;
        case 2: if (!raws.empty()) raw_pump(*raws[c.below(raws.size())], 1 + c.below(300)); break;
        case 3: if (!raws.empty() && c.coin()) raws.erase(raws.begin() + c.below(raws.size())); break;
        case 4: x.c->stalled = !x.c->stalled; if (x.c->stalled) label("stalled"); break;
        case 5: if (c.below(3) == 0 && !x.gone && cs.size() > 1) { x.gone = true; // leaves: properly, abruptly, or with a record nobody can decrypt
                switch (c.below(3)) { case 0: x.c->half_close(); label("close-notify"); break; case 1: x.c->close(); label("aborted"); break; default: x.c->pump(); if (x.c->flushed() && x.c->ct.empty()) { Str t = Str("\x17\x03\x03\x00\x20", 5) + Str(32, (char)c.byte()); x.c->ct += t; x.c->pump(); label("tampered"); } else x.c->close(); } } break;
        case 7: if (!x.gone && !x.bad && c.coin() && tls_key_update(x.c)) label("key-update"); break;
        case 6: { Client *n = w.connect("10.0.3.3", 0, true); n->climit = 1 + c.below(500); if (c.coin()) { n->send("GET / HTTP/1.1\r\n"); } n->pump(); rest(c, w); n->pump(); rest(c, w); if (c.coin()) n->close(); label("left-while-shaking-hands"); } break;
        default: if (!x.bad && !x.gone && said < 40) { std::vector<RefFrame> v; size_t bd = c.below(4) ? 3000 : 60000; StreamOpt o; o.maxmsg = bd; o.maxfrags = 3; int k = 1 + c.below(3); while (k--) add_message(c, v, o, bd); if (c.coin()) v.push_back(mkframe(c, 9, gen_payload(c, c.below(60))));
                if (c.below(10) == 0) { RefFrame f = mkframe(c, c.pick<int>({8, 3, 1}), c.coin() ? Str("\x03\xe8", 2) : Str("\x03\xe8\xff\xff")); if (f.op == 1) f.rsv2 = true; v.push_back(f); }
                size_t before = x.in.size(); for (auto &f : v) x.in.push_back(f); (void)before; if (model(x.in, L).closed) x.bad = true; x.c->send(wire(v)); if (c.coin()) x.c->pump(); said++; }
        }
        rest(c, w);
    }
    for (auto &x : cs) { x.c->stalled = false; if (x.c->rlimit < 1000) x.c->rlimit = 1000; if (x.c->climit < 64) x.c->climit = 64; }
    // the model's answer on every connection that stayed
    for (auto &x : cs) if (!x.gone) { expect_echo(w, x.c, x.r, model(x.in, L)); if (x.bad && x.c->tls_error && !x.c->raw_eof) fail("tls-error", "the TLS stream of a connection closed by the server is damaged"); }
    Client *p = w.connect("10.0.5.5", 0, false); p->send(Req::valid(gen_key(c), "echo").text()); w.settle(); Str ph; Resp pr; for (int i = 0; i < 20 && !p->head(ph); i++) w.settle_ms(100);
    CHECK(parse_resp(ph, pr) && pr.status == 101, "plain-port", "the plain port of a server with TLS answers %s", quote(ph).c_str());
    TC pc{p}; std::vector<RefFrame> pv = {mkframe(c, 1, "plain")}; p->send(wire(pv)); expect_echo(w, p, pc.r, model(pv, L));
    c.note("%zu TLS clients, %d batches, %d hostile ", cs.size(), said, met); if (said >= 2) c.nontrivial();
    if (leak) { for (auto &r : raws) if (c.coin()) raw_pump(*r, 5000); raws.clear(); w.check_released(); }
    end_world(c, w, c.below(6) == 0);
}
static AddProp p_r05({"R05", r05, true, 4000, "at least two batches of messages over TLS", 120, world_warm_tls});
// ---- the answers to opening requests are the ones a plain client gets
static void r05h(Case &c) {
    Conf cf = tls_conf(c); if (c.coin()) { cf.has_favicon = true; cf.favicon = REPO "/README.md"; } if (c.below(3) == 0) cf.hosts = {"localhost"}; if (c.below(3) == 0) cf.origins = {"good.example"}; if (c.coin()) cf.exts.push_back({"permessage-deflate", ""});
    World w(cf); w.start(c); Str key = gen_key(c); Req q = Req::valid(key, c.coin() ? "echo" : "", c.coin() ? "permessage-deflate; client_max_window_bits" : "");
    int kind = c.below(8); static const char *kn[] = {"valid", "no-upgrade", "bad-version", "favicon", "other-method", "old-http", "wrong-host", "no-key"};
    switch (kind) { case 1: q.h.erase(q.h.begin() + 1); break; case 2: q.h[4].second = "12"; break; case 3: q = Req(); q.uri = "/favicon.ico"; q.h = {{"Host", "localhost"}}; break; case 4: q.method = "PUT"; break; case 5: q.version = "HTTP/1.0"; break; case 6: q.h[0].second = "elsewhere"; break; case 7: q.h.erase(q.h.begin() + 3); break; }
    if (c.coin()) q.h.insert(q.h.begin() + 1, {"X-Pad", Str(c.below(3000), 'p')}); c.note("%s ", kn[kind]); label(kn[kind]);
    Str t = q.text(); Client *cl[2]; Str got[2];
    for (int i = 0; i < 2; i++) { sim_sndbuf = c.below(3) == 0 ? 1 : 0; cl[i] = w.connect(fmt("10.0.0.%d", i + 1), 0, i); sim_sndbuf = 0; if (i) tune(c, cl[i]); }
    size_t pos[2] = {0, 0};
    while (pos[0] < t.size() || pos[1] < t.size()) { int i = pos[0] < t.size() && (pos[1] >= t.size() || c.coin()) ? 0 : 1; size_t n = c.below(3) ? t.size() : 1 + c.below(t.size()); n = std::min(n, t.size() - pos[i]); cl[i]->send(t.substr(pos[i], n)); pos[i] += n; rest(c, w); }
    for (int i = 0; i < 20; i++) { w.settle_ms(50); if (!cl[0]->rx.empty() && !cl[1]->rx.empty()) break; } w.settle_ms(100);
    auto norm = [](Str s) { size_t p = s.find("\r\nDate:"); if (p != Str::npos) { size_t e = s.find("\r\n", p + 2); s.erase(p, e - p); } return s; };
    for (int i = 0; i < 2; i++) got[i] = norm(cl[i]->rx);
    // an address of the server itself may appear as http/ws on one side and https/wss on the other
    auto plain = [](Str s) { for (const char *a : {"https://", "wss://", "http://", "ws://"}) { size_t p; while ((p = s.find(a)) != Str::npos) s.replace(p, strlen(a), "@"); } for (const char *a : {":8443", ":8080"}) { size_t p; while ((p = s.find(a)) != Str::npos) s.replace(p, strlen(a), ""); } return s; };
    Str a = plain(got[0]), b = plain(got[1]);
    size_t ha = a.find("\r\n\r\n"), hb = b.find("\r\n\r\n"); CHECK(ha != Str::npos && hb != Str::npos, "no-response", "plain client received %s, TLS client %s\n%s", quote(a.substr(0, 300)).c_str(), quote(b.substr(0, 300)).c_str(), sim_dump().c_str());
    Resp ra, rb; CHECK(parse_resp(a.substr(0, ha + 4), ra) && parse_resp(b.substr(0, hb + 4), rb), "malformed-response", "plain %s\nTLS %s", quote(a.substr(0, ha)).c_str(), quote(b.substr(0, hb)).c_str());
    auto hs = [](const Resp &r) { std::vector<std::pair<Str, Str>> v; for (auto &h : r.h) if (strcasecmp(h.first.c_str(), "Content-Length") && strcasecmp(h.first.c_str(), "ETag")) v.push_back(h); return v; };
    CHECK(ra.line == rb.line && hs(ra) == hs(rb), "different-response", "plain %s\nTLS %s", quote(a.substr(0, ha)).c_str(), quote(b.substr(0, hb)).c_str());
    CHECK(a.substr(ha) == b.substr(hb), "different-body", "the bodies of %zu and %zu bytes differ from byte %zu", a.size() - ha - 4, b.size() - hb - 4, (size_t)(std::mismatch(a.begin() + ha, a.begin() + std::min(a.size(), ha + std::min(a.size() - ha, b.size() - hb)), b.begin() + hb).first - a.begin() - ha));
    CHECK(cl[0]->eof == cl[1]->eof, "different-fate", "plain connection %s, TLS connection %s", cl[0]->eof ? "closed" : "open", cl[1]->eof ? "closed" : "open");
    c.nontrivial(); end_world(c, w, c.below(8) == 0);
}
static AddProp p_r05h({"R05.http", r05h, true, 600, "a request over both ports", 60, world_warm_tls});
