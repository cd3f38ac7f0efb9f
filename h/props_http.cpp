// Opening handshake and plain HTTP answers.
#include "gen.h"
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

// ---------------------------------------------------------------- requests
static Str rnd_case(Case &c, const Str &s) { Str o = s; int m = c.below(4); uint64_t sd = m == 3 ? c.seed() : 0; Rng r(sd); for (auto &ch : o) { if (m == 1) ch = (char)tolower(ch); else if (m == 2) ch = (char)toupper(ch); else if (m == 3) ch = (char)(r.next() & 1 ? tolower(ch) : toupper(ch)); } return o; }
static Str rnd_token(Case &c, size_t max) { static const char t[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"; Rng r(c.seed()); size_t n = 1 + c.below(max); Str s; while (n--) s += t[r.below(sizeof t - 1)]; return s; }
static Str rnd_value(Case &c, size_t max) { Rng r(c.seed()); size_t n = c.below(max + 1); Str s; while (n--) { int k = r.below(97); s += k == 95 ? (char)0xC3 : k == 96 ? '\t' : (char)(32 + k); } return s; }
struct Head { Str name, value; Str ows_a = " ", ows_b; };
struct ReqG {                                           // a request as it is put on the wire
    Str method = "GET", uri = "/", version = "HTTP/1.1"; std::vector<Head> h; Str body; Str raw; // raw: replaces everything
    Str text() const { if (!raw.empty()) return raw; Str s = method + " " + uri + " " + version + "\r\n"; for (auto &x : h) s += x.name + ":" + x.ows_a + x.value + x.ows_b + "\r\n"; return s + "\r\n" + body; }
    void set(const Str &n, const Str &v) { for (auto &x : h) if (x.name == n) { x.value = v; return; } h.push_back({n, v}); }
    void del(const Str &n) { for (size_t i = 0; i < h.size();) if (h[i].name == n) h.erase(h.begin() + i); else i++; }
    const Head *find(const Str &n) const { for (auto &x : h) if (x.name == n) return &x; return nullptr; }
    size_t header_size() const { size_t n = 0; for (auto &x : h) n += x.name.size() + 1 + x.ows_a.size() + x.value.size() + x.ows_b.size(); return n; }
};
static ReqG base_req(const Str &key) { ReqG r; r.h = {{"Host", "localhost"}, {"Upgrade", "websocket"}, {"Connection", "Upgrade"}, {"Sec-WebSocket-Key", key}, {"Sec-WebSocket-Version", "13"}}; return r; }
// letter case, order, white space and unrelated fields; none of it may change the outcome
static void dress(Case &c, ReqG &r) {
    int extra = c.below(4) == 0 ? c.below(8) : c.below(2);
    for (int i = 0; i < extra; i++) {
        static const std::vector<Str> known = {"User-Agent", "Accept", "Accept-Encoding", "Accept-Language", "Cache-Control", "Pragma", "Cookie", "Referer", "X-Forwarded-For", "DNT", "Sec-Fetch-Mode", "Upgrade-Insecure-Requests", "Content-Type", "Sec-WebSocket-Foo", "Hos", "Hostt", "Origins", "X-Sec-WebSocket-Key", "Sec-WebSocket-Ke", "Connections", "Upgrad"};
        Str n = c.below(4) == 3 ? "X-" + rnd_token(c, 12) : c.pickv(known); r.h.insert(r.h.begin() + c.below(r.h.size() + 1), {n, rnd_value(c, 30)});
    }
    if (c.coin()) for (size_t i = r.h.size(); i > 1; i--) std::swap(r.h[i - 1], r.h[c.below(i)]);
    static const std::vector<Str> ws = {" ", "", "  ", "\t", " \t "};
    bool odd = c.coin();
    for (auto &x : r.h) { if (odd) { x.ows_a = c.pickv(ws); if (c.below(3) == 0) x.ows_b = c.pickv(ws); if (x.value.empty() && x.ows_a.empty() && false) x.ows_a = " "; } x.name = rnd_case(c, x.name); }
}
static Str comma_list(Case &c, const std::vector<Str> &v) { static const std::vector<Str> sep = {", ", ",", " , ", ",\t"}; Str s; for (auto &x : v) { if (!s.empty()) s += c.pickv(sep); s += x; } return s; }
static bool eqi(const Str &a, const Str &b) { return strcasecmp(a.c_str(), b.c_str()) == 0; }
static void get_head(World &w, Client *cl, Resp &rs, const char *what) {
    Str h; bool got = cl->head(h);
    for (int i = 0; !got && i < 20; i++) { w.settle_ms(100); got = cl->head(h); }
    CHECK(got, "no-response", "%s: no response; received %s, connection %s\n%s", what, quote(cl->rx).c_str(), cl->eof ? "closed" : "open", sim_dump().c_str());
    CHECK(parse_resp(h, rs), "malformed-response", "%s: answered with %s", what, quote(h, 600).c_str());
}
// ---------------------------------------------------------------- H01
static void h01(Case &c) {
    Conf cf; cf.buffer = c.pick<int>({32768, 64, 512, 1024}); cf.workers = 1 + c.below(4);
    std::vector<Str> loaded = {"echo"}; if (c.coin()) loaded.push_back("broadcast"); if (c.below(4) == 0) std::reverse(loaded.begin(), loaded.end());
    for (auto &s : loaded) cf.subs.push_back({s, ""});
    bool pmd = c.below(3) == 0; if (pmd) cf.exts.push_back({"permessage-deflate", ""});
    World w(cf); w.start(c);
    int rounds = 1 + c.below(3);
    for (int round = 0; round < rounds; round++) {
        Str key = gen_key(c); ReqG r = base_req(key);
        switch (c.below(6)) { case 0: r.uri = "/" + rnd_token(c, 20); break; case 1: r.uri = "/a/b?" + rnd_token(c, 8) + "=" + rnd_token(c, 8); break; case 2: r.uri = "ws://localhost:8080/chat"; break; default: break; }
        r.set("Upgrade", rnd_case(c, "websocket"));
        Str up = rnd_case(c, "Upgrade");
        switch (c.below(5)) { case 0: r.set("Connection", comma_list(c, {"keep-alive", up})); break; case 1: r.set("Connection", comma_list(c, {up, "keep-alive"})); break; case 2: r.set("Connection", comma_list(c, {rnd_token(c, 3), "TE", up, "close"})); break; default: r.set("Connection", up); }
        if (c.below(4) == 0) r.del("Host");
        if (c.coin()) r.set("Origin", c.coin() ? "http://" + rnd_token(c, 10) : "null");
        // protocols
        std::vector<Str> offer; Str want;
        int np = c.below(3) == 0 ? c.below(5) : c.below(2);
        for (int i = 0; i < np; i++) { static const std::vector<Str> pn = {"echo", "broadcast", "chat", "ech", "echo2", "Echo", "soap", "broadcas", "superchat"}; offer.push_back(c.pickv(pn)); }
        for (auto &o : offer) if (want.empty() && std::find(loaded.begin(), loaded.end(), o) != loaded.end()) want = o;
        if (!offer.empty()) {
            if (offer.size() > 1 && c.below(4) == 0) { size_t k = 1 + c.below(offer.size() - 1); r.h.push_back({"Sec-WebSocket-Protocol", comma_list(c, std::vector<Str>(offer.begin(), offer.begin() + k))}); r.h.push_back({"Sec-WebSocket-Protocol", comma_list(c, std::vector<Str>(offer.begin() + k, offer.end()))}); label("two-protocol-fields"); }
            else r.h.push_back({"Sec-WebSocket-Protocol", comma_list(c, offer)});
            label("protocols-offered");
        }
        bool offered_pmd = false; std::vector<Str> ex; int ne = c.below(3) == 0 ? 1 + c.below(3) : 0;
        for (int i = 0; i < ne; i++) { static const std::vector<Str> en = {"permessage-deflate", "x-webkit-deflate-frame", "foo", "permessage-bzip2; a=1", "permessage-deflate; client_max_window_bits", "permessage-deflat"}; Str e = c.pickv(en); ex.push_back(e); if (!e.compare(0, 18, "permessage-deflate")) offered_pmd = true; }
        if (ne) { r.h.push_back({"Sec-WebSocket-Extensions", comma_list(c, ex)}); label("extensions-offered"); }
        // the fields of one name stay in order when everything is shuffled
        std::vector<Str> pv; for (auto &x : r.h) if (x.name == "Sec-WebSocket-Protocol") pv.push_back(x.value);
        dress(c, r);
        { size_t k = 0; for (auto &x : r.h) if (eqi(x.name, "Sec-WebSocket-Protocol")) x.value = pv[k++]; }
        Str t = r.text(); c.note("%s ", quote(t, 700).c_str());
        Client *cl = w.connect(fmt("10.0.0.%d", round + 1)); cl->send(t); w.settle();
        Resp rs; get_head(w, cl, rs, "valid request");
        CHECK(rs.status == 101, "valid-request-refused", "answered with %s", rs.line.c_str());
        CHECK(rs.get("Sec-WebSocket-Accept") == ref_accept(key), "accept-token", "accept token %s, expected %s", rs.get("Sec-WebSocket-Accept").c_str(), ref_accept(key).c_str());
        for (auto n : {"Sec-WebSocket-Accept", "Upgrade", "Connection"}) CHECK(rs.count(n) == 1, "response-fields", "%s appears %d times in the response", n, rs.count(n));
        CHECK(eqi(rs.get("Upgrade"), "websocket") && eqi(rs.get("Connection"), "Upgrade"), "response-fields", "Upgrade: %s, Connection: %s", rs.get("Upgrade").c_str(), rs.get("Connection").c_str());
        if (want.empty()) CHECK(rs.count("Sec-WebSocket-Protocol") == 0, "protocol-not-offered", "protocol %s selected, offered %s", rs.get("Sec-WebSocket-Protocol").c_str(), comma_list(c, offer).c_str());
        else CHECK(rs.count("Sec-WebSocket-Protocol") == 1 && rs.get("Sec-WebSocket-Protocol") == want, "protocol-selection", "protocol '%s' selected, expected %s", rs.get("Sec-WebSocket-Protocol").c_str(), want.c_str());
        Str e = rs.get("Sec-WebSocket-Extensions");
        if (!pmd || !offered_pmd) CHECK(rs.count("Sec-WebSocket-Extensions") == 0, "extension-not-offered", "extensions '%s' accepted", e.c_str());
        else CHECK(rs.count("Sec-WebSocket-Extensions") == 1 && !e.compare(0, 18, "permessage-deflate") && e.find(',') == Str::npos, "extension-selection", "extensions '%s' accepted", e.c_str());
        for (auto &x : rs.h) { static const char *ok[] = {"Sec-WebSocket-Accept", "Upgrade", "Connection", "Server", "Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions", "Date"}; bool f = false; for (auto o : ok) f |= eqi(x.first, o); CHECK(f, "response-fields", "unexpected field %s in the response", x.first.c_str()); }
        w.settle(); CHECK(cl->pending() == 0, "bytes-after-response", "%s follows the blank line", quote(cl->rx.substr(cl->rp)).c_str());
        // the very next bytes are frames
        Reader rd; rd.rsv1_ok = pmd && offered_pmd; Str p = gen_payload(c, c.below(60)); std::vector<RefFrame> v = {mkframe(c, 9, p)};
        if (want != "broadcast" && !rd.rsv1_ok) v.push_back(mkframe(c, 2, p));
        cl->send(wire(v)); expect_echo(w, cl, rd, model(v, Limits{}));
        if (want == "broadcast") label("broadcast"); if (pmd && offered_pmd) label("extension");
        if (c.coin()) { cl->close(); w.settle(); }
    }
    c.nontrivial(); end_world(c, w, c.chance(1, 10));
}
static AddProp p_h01({"H01", h01, true, 700, "a valid request was generated and answered", 60, world_warm});

// ---------------------------------------------------------------- H02
struct Pat { const char *re; Str (*gen)(Case &); bool (*match)(const Str &); };
static bool alldig(const Str &s) { for (char ch : s) if (ch < '0' || ch > '9') return false; return true; }
static bool allaz(const Str &s) { for (char ch : s) if (ch < 'a' || ch > 'z') return false; return true; }
static Str digs(Case &c) { Str s; int n = 1 + c.below(4); while (n--) s += (char)('0' + c.below(10)); return s; }
static Str azs(Case &c) { Str s; int n = c.below(5); while (n--) s += (char)('a' + c.below(26)); return s; }
static const std::vector<Pat> paths = {
    {"chat", [](Case &) { return Str("chat"); }, [](const Str &s) { return s == "chat"; }},
    {"a/b/c", [](Case &) { return Str("a/b/c"); }, [](const Str &s) { return s == "a/b/c"; }},
    {"user/[0-9]+", [](Case &c) { return "user/" + digs(c); }, [](const Str &s) { return s.size() > 5 && !s.compare(0, 5, "user/") && alldig(s.substr(5)); }},
    {"room-[a-z]*", [](Case &c) { return "room-" + azs(c); }, [](const Str &s) { return s.size() >= 5 && !s.compare(0, 5, "room-") && allaz(s.substr(5)); }},
    {"(x|y)z", [](Case &c) { return c.coin() ? Str("xz") : Str("yz"); }, [](const Str &s) { return s == "xz" || s == "yz"; }},
};
static const std::vector<Pat> queries = {
    {"debug", [](Case &) { return Str("debug"); }, [](const Str &s) { return s == "debug"; }},
    {"id=[0-9]+", [](Case &c) { return "id=" + digs(c); }, [](const Str &s) { return s.size() > 3 && !s.compare(0, 3, "id=") && alldig(s.substr(3)); }},
    {"q=[a-z]*", [](Case &c) { return "q=" + azs(c); }, [](const Str &s) { return s.size() >= 2 && !s.compare(0, 2, "q=") && allaz(s.substr(2)); }},
};
static Str near(Case &c, Str s) { switch (c.below(5)) { case 0: s += 'x'; break; case 1: if (!s.empty()) s.pop_back(); break; case 2: if (!s.empty()) s[c.below(s.size())] = 'Q'; break; case 3: s = "p" + s; break; default: s = rnd_token(c, 8); } return s; }
struct Access { std::vector<const Pat *> p, q; };
static Conf gen_access(Case &c, Access &a) {
    Conf f; f.buffer = c.pick<int>({32768, 64, 512}); f.workers = 1 + c.below(4);
    if (c.coin()) { int n = 1 + c.below(3); for (int i = 0; i < n; i++) f.hosts.push_back(c.pick<const char *>({"localhost", "example", "ws-host", "127.0.0.1", "h"})); }
    if (c.coin()) { int n = 1 + c.below(3); for (int i = 0; i < n; i++) { a.p.push_back(&c.pickv(paths)); f.paths.push_back(a.p.back()->re); } }
    if (c.below(3) == 0) { int n = 1 + c.below(3); for (int i = 0; i < n; i++) { a.q.push_back(&c.pickv(queries)); f.queries.push_back(a.q.back()->re); } }
    if (c.coin()) { int n = 1 + c.below(3); for (int i = 0; i < n; i++) f.origins.push_back(c.pick<const char *>({"http://localhost", "https://example.com", "http://a.b:81", "null", "http://x"})); }
    f.uri = c.pick<int>({8192, 40, 100}); f.header = c.pick<int>({8192, 400, 1000}); f.payload = c.pick<int>({16777215, 0, 20, 200});
    return f;
}
// Builds a request and predicts which statuses are correct: the statuses of everything wrong with it.
static ReqG gen_request(Case &c, const Conf &f, const Access &a, std::set<int> &bad, Str &why, bool bodies) {
    ReqG r = base_req(gen_key(c));
    // path and query
    bool re = !f.hosts.empty() || !a.p.empty() || !a.q.empty();
    Str path, query; bool has_q = false;
    if (c.below(3)) { if (!a.p.empty()) path = c.pickv(a.p)->gen(c); else path = c.pick<const char *>({"chat", "", "x/y"}); if (c.below(5) == 0) path = near(c, path); }
    if (c.below(3) == 0) { has_q = true; int n = 1 + c.below(3); for (int i = 0; i < n; i++) { Str q = !a.q.empty() ? c.pickv(a.q)->gen(c) : Str("debug"); if (c.below(6) == 0) q = near(c, q); query += (i ? "&" : "") + q; } }
    for (auto *s : {&path, &query}) for (auto &ch : *s) if (ch == '?' || ch == '&') { if (s == &path || ch == '?') ch = '_'; }
    if (re) {
        bool ok = path.empty(); for (auto p : a.p) ok |= p->match(path);
        if (!ok) { bad.insert(404); why += "path "; }
        if (has_q) { size_t i = 0; for (;;) { size_t e = query.find('&', i); Str q = query.substr(i, e == Str::npos ? e : e - i); bool m = a.q.empty() && q.empty(); for (auto p : a.q) m |= p->match(q); if (!m) { bad.insert(404); why += "query "; } if (e == Str::npos) break; i = e + 1; } }
    }
    r.uri = "/" + path + (has_q ? "?" + query : "");
    if (!f.hosts.empty() && c.below(5) == 0) { // absolute form
        Str h = c.pickv(f.hosts); int k = c.below(6);
        if (k == 0) { h = "other"; bad.insert(404); why += "uri-host "; }
        Str port = c.below(3) == 0 ? fmt(":%d", f.http) : c.below(8) == 0 ? Str(":81") : Str();
        if (port == ":81") { bad.insert(404); why += "uri-port "; }
        r.uri = "ws://" + h + port + r.uri;
    }
    // host
    r.set("Host", "anything");
    if (!f.hosts.empty()) {
        Str h = c.pickv(f.hosts); if (c.below(3) == 0) h += fmt(":%d", c.coin() ? f.http : f.https);
        r.set("Host", h);
    }
    if (c.below(3) == 0) {                              // other ways to ask for the same thing
        r.set("Upgrade", rnd_case(c, "websocket")); Str up = rnd_case(c, "Upgrade");
        switch (c.below(5)) { case 0: r.set("Connection", comma_list(c, {"keep-alive", up})); break; case 1: r.set("Connection", comma_list(c, {up, "keep-alive"})); break; case 2: r.set("Connection", comma_list(c, {rnd_token(c, 3), "TE", up, "close"})); break; default: r.set("Connection", up); }
        label("other-spelling");
    }
    if (!f.origins.empty()) { Str o = c.pickv(f.origins); r.h.push_back({c.below(4) == 0 ? "Sec-WebSocket-Origin" : "Origin", o}); }
    int nd = c.below(4) == 0 ? 0 : c.below(4) == 0 ? 2 + c.below(2) : 1; Str line;
    for (int i = 0; i < nd; i++) {
        int k = c.below(18); auto dev = [&](int st, const char *n) { bad.insert(st); why += Str(n) + " "; };
        switch (k) {
        case 0: r.method = c.pick<const char *>({"POST", "PUT", "HEAD", "OPTIONS", "get", "GETT", "GE", "DELETE", "CONNECT", "Get"}); dev(405, "method"); break;
        case 1: r.version = c.pick<const char *>({"HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "http/1.1", "HTTP/1.11", "HTTP/1.", "HTTPS/1.1", "1.1"}); dev(505, "version"); break;
        case 2: r.uri = c.pick<const char *>({"chat", "*", "ftp://localhost/", "localhost:80", "ws:/x", "://", "\\", "w"}); dev(400, "relative-uri"); break;
        case 3: r.uri = c.pick<const char *>({"http://localhost/", "https://localhost/", "http://localhost:8080/chat"}); dev(426, "http-uri"); if (r.uri.size() > (size_t)f.uri) dev(414, "uri-size"); break;
        case 4: if (f.uri < 8192) { r.uri = "/" + Str(f.uri + c.below(3) * c.below(50), 'u'); dev(414, "uri-size"); if (re) bad.insert(404); } break;
        case 5: if (!f.hosts.empty()) { const Head *h = r.find("Host"); if (h && c.coin()) { r.del("Host"); dev(400, "no-host"); } else { r.set("Host", c.pick<const char *>({"other", "localhos", "localhost.", "localhost:81", "", "Localhost2", "xlocalhost", "localhost:80800"})); dev(400, "host"); } } break;
        case 6: if (c.coin()) { r.del("Upgrade"); } else r.set("Upgrade", c.pick<const char *>({"", "h2c", "webso", "web socket", "sebwocket", "TLS/1.0"})); dev(426, "upgrade"); break;
        case 7: if (c.coin()) { r.del("Connection"); } else r.set("Connection", c.pick<const char *>({"", "close", "keep-alive", "keep-alive, close", "upgrad", ",", "Up, grade"})); dev(426, "connection"); break;
        case 8: if (!f.origins.empty()) { const char *on = r.find("Origin") ? "Origin" : "Sec-WebSocket-Origin"; if (c.coin()) { r.del(on); dev(403, "no-origin"); } else { r.set(on, c.pick<const char *>({"http://evil", "http://localhos", "http://localhost2", "", "https://localhost", "HTTP://LOCALHOST", "http://localhost/"})); dev(403, "origin"); } } break;
        case 9: if (c.coin()) { r.del("Sec-WebSocket-Version"); dev(501, "no-ws-version"); } else { r.set("Sec-WebSocket-Version", c.pick<const char *>({"14", "12", "9", "0", "3", "", "abc", "99999", "4", "5", "6", "1"})); dev(501, "ws-version"); } break;
        case 10: if (c.coin()) { r.del("Sec-WebSocket-Key"); dev(426, "no-key"); } else { Rng g(c.seed()); int n = c.pick<int>({0, 1, 15, 17, 12, 18, 32, 3, 14}); Str b; while (n--) b += (char)g.next(); r.set("Sec-WebSocket-Key", ref_b64(b)); dev(426, "key-length"); } break;
        case 11: { const Head *h = r.find("Sec-WebSocket-Key"); if (h) { r.h.push_back({"Sec-WebSocket-Key", c.coin() ? h->value : gen_key(c)}); if (r.find("Sec-WebSocket-Key")->value.size()) dev(400, "two-keys"); else { dev(426, "key-length"); bad.insert(400); } } break; }
        case 12: { const Head *h = r.find("Sec-WebSocket-Version"); if (h && h->value == "13") { r.h.push_back({"Sec-WebSocket-Version", c.pick<const char *>({"13", "8", "7"})}); dev(400, "two-versions"); } break; }
        case 13: if (f.header < 8192) { r.h.insert(r.h.begin() + c.below(r.h.size() + 1), {"X-Large", Str(f.header + c.below(100), 'x')}); dev(431, "header-size"); } break;
        case 14: if (bodies && f.payload < 1000) { r.body = Str(f.payload + 1 + c.below(50), 'b'); dev(413, "payload-size"); } break;
        case 15: if (nd == 1) { r.raw = c.pick<const char *>({"GET\r\n\r\n", "GET /\r\n\r\n", "\r\n\r\n", "GET  \r\n\r\n", " \r\n\r\n", "GET / HTTP/1.1\rX\r\n\r\n", "GET / HTTP/1.1\r\nA: b\rc: d\r\n\r\n"}); bad.clear(); why.clear(); dev(400, "request-line"); bad.insert(405); } break;
        case 16: r.set("Upgrade", "websocket"); r.del("Connection"); r.h.push_back({"Connection", "keep-alive"}); r.del("Sec-WebSocket-Key"); dev(426, "browser"); break;
        default: break;
        }
    }
    if (r.uri.size() > (size_t)f.uri && r.raw.empty()) { bad.insert(414); if (why.find("uri-size") == Str::npos) why += "uri-size "; }
    return r;
}
static void settle_size(ReqG &r, const Conf &f, std::set<int> &bad, Str &why) {
    if (r.raw.empty() && r.header_size() > (size_t)f.header) { bad.insert(431); if (why.find("header-size") == Str::npos) why += "header-size "; }
}
static Str set_text(const std::set<int> &s) { Str t; for (int x : s) t += fmt("%d ", x); return t.empty() ? "101" : t; }
static void h02(Case &c) {
    Access a; Conf cf = gen_access(c, a); World w(cf); w.start(c);
    int rounds = 1 + c.below(4); bool any = false;
    for (int i = 0; i < rounds; i++) {
        std::set<int> bad; Str why; ReqG r = gen_request(c, cf, a, bad, why, true);
        if (c.below(3) == 0) dress(c, r);
        settle_size(r, cf, bad, why);
        Str t = r.text(); c.note("| expect %s (%s) %s ", set_text(bad).c_str(), why.c_str(), quote(t, 400).c_str());
        Client *cl = w.connect(fmt("10.0.0.%d", i + 1)); cl->send(t); w.settle();
        Resp rs; get_head(w, cl, rs, why.c_str());
        if (bad.empty()) { CHECK(rs.status == 101, "valid-request-refused", "answered with %s instead of 101", rs.line.c_str()); label("accepted"); }
        else {
            CHECK(rs.status != 101, "invalid-request-accepted", "accepted although %sis wrong", why.c_str());
            CHECK(bad.count(rs.status), "wrong-status", "answered with %s although %sis wrong (expected %s)", rs.line.c_str(), why.c_str(), set_text(bad).c_str());
            label(fmt("refused-%d", rs.status).c_str()); any = true;
            // nothing from a refused client is a WebSocket message
            size_t l = atoi(rs.get("Content-Length").c_str()); CHECK(cl->pending() == l, "response-length", "%zu bytes follow the head of a response with Content-Length %zu", cl->pending(), l);
            cl->take();
            if (c.coin()) {
                std::vector<RefFrame> v = {mkframe(c, 1, "hello"), mkframe(c, 9, "ping")}; cl->send(wire(v)); w.settle_ms(50);
                Str o = cl->take(); CHECK(o.empty() || !o.compare(0, 5, "HTTP/"), "refused-client-served", "frames of a refused client were answered with %s", quote(o).c_str());
            }
        }
        if (c.coin()) { cl->close(); w.settle(); }
    }
    if (any || !cf.hosts.empty() || !cf.paths.empty() || !cf.origins.empty() || !cf.queries.empty()) c.nontrivial();
    end_world(c, w, c.chance(1, 10));
}
static AddProp p_h02({"H02", h02, true, 700, "a request was refused or an allow-list configured", 60, world_warm});

// ---------------------------------------------------------------- H04
static Str no_date(const Str &s) { size_t i = s.find("Date: "); if (i == Str::npos) return s; size_t e = s.find("\r\n", i); return s.substr(0, i) + s.substr(e); }
static void h04(Case &c) {
    Access a; Conf cf = gen_access(c, a); cf.payload = 16777215; World w(cf); w.start(c);
    std::set<int> bad; Str why; ReqG r = gen_request(c, cf, a, bad, why, false); if (c.coin()) dress(c, r); settle_size(r, cf, bad, why);
    Str t = r.text(); c.note("expect %s (%s) %s ", set_text(bad).c_str(), why.c_str(), quote(t, 500).c_str());
    Client *one = w.connect("10.0.0.1"), *two = w.connect("10.0.0.2");
    one->send(t); w.settle();
    std::vector<size_t> marks; for (size_t i = 0; i + 1 < t.size(); i++) if (t[i] == '\r') { marks.push_back(i + 1); marks.push_back(i + 2); }
    drive(c, w, two, t, marks); w.settle();
    // what is over a limit may be refused before its end
    bool large = bad.count(431) || bad.count(414);
    Resp ra, rb; get_head(w, one, ra, "in one piece");
    Str ha = one->rx.substr(0, one->rp); get_head(w, two, rb, "in pieces"); Str hb = two->rx.substr(0, two->rp);
    if (!large || t.size() < (size_t)cf.uri + cf.header) {
        CHECK(no_date(ha) == no_date(hb), "depends-on-segmentation", "in one piece: %s\nin pieces: %s", quote(ha, 600).c_str(), quote(hb, 600).c_str());
        CHECK(one->take() == two->take(), "depends-on-segmentation", "bodies differ");
    } else { CHECK((ra.status == 101) == (rb.status == 101), "depends-on-segmentation", "in one piece: %s; in pieces: %s", ra.line.c_str(), rb.line.c_str()); CHECK(bad.count(rb.status) || rb.status == 413, "wrong-status", "%s", rb.line.c_str()); }
    if (ra.status == 101) {
        label("accepted"); StreamOpt o; o.maxmsg = 500; o.budget = 2000; o.maxmsgs = 3; auto v = gen_stream(c, o); Expect e = model(v, Limits{});
        drive(c, w, two, wire(v), frame_marks(v)); Reader q; expect_echo(w, two, q, e);
        one->send(wire(v)); Reader p; expect_echo(w, one, p, e);
    } else label("refused");
    c.nontrivial(); end_world(c, w, c.chance(1, 10));
}
static AddProp p_h04({"H04", h04, true, 1000, "a request was sent in one piece and in several", 60, world_warm});

// ---------------------------------------------------------------- H05
static void whole_answer(Client *cl, Resp &rs, Str &body, const char *what) {
    size_t l; Str cls = rs.get("Content-Length"); CHECK(rs.count("Content-Length") == 1 && !cls.empty() && alldig(cls), "content-length", "%s: Content-Length is '%s'", what, cls.c_str());
    l = strtoul(cls.c_str(), 0, 10);
    CHECK(cl->pending() >= l, "body-short", "%s: %zu bytes of body, Content-Length %zu", what, cl->pending(), l);
    CHECK(cl->pending() == l, "body-long", "%s: %s follows the body of %zu bytes", what, quote(cl->rx.substr(cl->rp + l)).c_str(), l);
    body = cl->take();
}
static void h05(Case &c) {
    Access a; Conf cf = gen_access(c, a); Str ico; int icofd = -1; bool missing = false;
    cf.payload = 16777215;
    if (c.below(3)) {
        cf.has_favicon = true; size_t n = gen_len(c, 100000, {0, 1, 255, 256, 4096, 65536}); ico = gen_payload(c, n);
        icofd = sim_high_fd(open("/tmp", O_TMPFILE | O_RDWR, 0600)); if (icofd < 0) abort();
        if (!ico.empty() && write(icofd, ico.data(), ico.size()) != (ssize_t)ico.size()) abort();
        cf.favicon = fmt("/proc/self/fd/%d", icofd);
        if (c.below(6) == 0) { cf.favicon = "/nonexistent/favicon.ico"; missing = true; }
    } else missing = true;
    World w(cf); w.start(c);
    w.baseline(); Str etag; bool alive = true;
    {
    int conns = 1 + c.below(3);
    for (int k = 0; k < conns; k++) {
        Client *cl = w.connect(fmt("10.0.0.%d", k + 1)); int reqs = 1 + c.below(3); cl->rlimit = c.below(3) == 0 ? 1 + c.below(4000) : 1 << 30;
        for (int i = 0; i < reqs && alive; i++) {
            std::set<int> bad; Str why; ReqG r; bool fav = c.below(3) == 0;
            if (fav) { r = base_req(gen_key(c)); r.uri = "/favicon.ico"; if (c.coin()) r.h = {{"Host", "localhost"}}; if (c.below(3) == 0) r.h.push_back({"If-None-Match", etag.empty() ? "\"abc\"" : etag}); why = "favicon"; }
            else { r = gen_request(c, cf, a, bad, why, false); }
            if (c.coin()) dress(c, r);
            settle_size(r, cf, bad, why); if (fav && !bad.empty()) fav = false;
            Str t = r.text(); c.note("| %s %s ", why.c_str(), quote(t, 200).c_str());
            cl->send(t); w.settle(); Resp rs; get_head(w, cl, rs, why.c_str());
            CHECK(rs.line.size() > 13, "reason-phrase", "status line %s", rs.line.c_str());
            if (!fav && bad.empty()) { CHECK(rs.status == 101, "valid-request-refused", "%s", rs.line.c_str()); CHECK(cl->pending() == 0, "bytes-after-response", "%s", quote(cl->take()).c_str()); label("upgraded"); break; }
            if (!cl->eof) w.settle();
            Str body; for (int z = 0; z < 200 && cl->pending() < strtoul(rs.get("Content-Length").c_str(), 0, 10) && !cl->eof; z++) w.settle();
            w.settle_ms(20); whole_answer(cl, rs, body, why.c_str());
            if (fav && !missing) {
                CHECK(rs.status == 200 || rs.status == 304, "favicon-status", "%s", rs.line.c_str());
                CHECK(body == ico, "favicon-bytes", "favicon of %zu bytes differs from the file of %zu bytes", body.size(), ico.size());
                CHECK(etag.empty() || etag == rs.get("Etag"), "favicon-etag", "entity tag changed from %s to %s", etag.c_str(), rs.get("Etag").c_str()); etag = rs.get("Etag"); label("favicon");
            } else {
                if (fav) { CHECK(rs.status == 404, "favicon-missing", "%s", rs.line.c_str()); label("no-favicon"); }
                else { CHECK(bad.count(rs.status), "wrong-status", "%s instead of %s", rs.line.c_str(), set_text(bad).c_str()); label(fmt("status-%d", rs.status).c_str()); }
                for (unsigned char ch : body) CHECK(ch >= 32 && ch < 127, "body-bytes", "byte %d in the body %s", ch, quote(body, 600).c_str());
                Str reason = rs.line.substr(13);
                if (rs.get("Content-Type").compare(0, 9, "text/html") == 0) {
                    CHECK(!body.compare(0, 15, "<!doctype html>") && body.size() > 22 && !body.compare(body.size() - 7, 7, "</html>"), "body", "error page %s", quote(body, 600).c_str());
                    CHECK(body.find(fmt("%d %s", rs.status, reason.c_str())) != Str::npos, "body", "the error page does not name the status %s: %s", rs.line.c_str(), quote(body, 600).c_str());
                } else CHECK(!body.empty(), "body", "empty body");
            }
            CHECK(rs.count("Content-Type") == 1 && rs.count("Connection") == 1 && rs.count("Server") == 1, "response-fields", "Content-Type %d, Connection %d, Server %d times", rs.count("Content-Type"), rs.count("Connection"), rs.count("Server"));
            if (rs.status == 426 || rs.status == 501) CHECK(rs.count("Sec-WebSocket-Version") == 1 && rs.get("Sec-WebSocket-Version").find("13") != Str::npos, "version-field", "%s without the supported versions", rs.line.c_str());
            if (i) label("several-on-one-connection"); c.nontrivial();
        }
        if (c.coin()) { cl->close(); w.settle(); }
    }
    }
    w.check_released();
    end_world(c, w, c.chance(1, 6)); if (icofd >= 0) close(icofd);
}
static AddProp p_h05({"H05", h05, true, 700, "a complete non-upgrade response was checked", 60, world_warm});

// ---------------------------------------------------------------- M04, requests
static void m04h(Case &c) {
    Conf cf; cf.buffer = c.pick<int>({32768, 64, 512}); cf.workers = 1 + c.below(3);
    cf.uri = c.pick<int>({1, 2, 20, 100, 8192}); cf.header = c.pick<int>({200, 300, 1000, 4096, 8192}); cf.payload = c.pick<int>({0, 1, 10, 1000, 16777215});
    World w(cf); w.start(c); int rounds = 1 + c.below(3);
    for (int i = 0; i < rounds; i++) {
        ReqG r = base_req(gen_key(c)); int kind = c.below(4), delta = c.pick<int>({0, 1, -1, 0, 1}); int want = 101; bool split = false;
        if (c.below(4) == 0 && delta == 1) delta = 1 + c.below(5000);
        auto fill_header = [&](int target) { int have = (int)r.header_size(); int n = c.below(3) == 0 ? 1 + c.below(20) : 1; bool ok = false;
            while (have < target) { int room = target - have, k = n-- > 1 ? std::min(room, 4 + (int)c.below(20)) : room; if (room - k < 4 && room != k) k = room; if (k < 4) { r.h.back().ows_b += Str(k, ' '); have += k; ok = true; continue; } r.h.push_back({"X", Str(k - 3, 'x')}); have += k; } (void)ok; };
        if (kind == 0) { int n = std::max(1, cf.uri + delta); r.uri = "/" + Str(n - 1, 'u'); if (n > cf.uri) want = 414; split = true; label(want == 101 ? "uri-within" : "uri-over"); }
        else if (kind == 1) { fill_header(std::max((int)r.header_size(), cf.header + delta)); if ((int)r.header_size() > cf.header) want = 431; split = want == 101 || r.text().size() < (size_t)cf.header + cf.uri; label(want == 101 ? "header-within" : "header-over"); }
        else if (kind == 2 && cf.payload < 100000) { r.body = Str(std::max(0, cf.payload + delta), 'p'); if ((int)r.body.size() > cf.payload) want = 413; label(want == 101 ? "payload-within" : "payload-over"); }
        else { // everything at its limit at once
            r.uri = "/" + Str(cf.uri - 1, 'u'); fill_header(cf.header); if (cf.payload < 100000) r.body = Str(cf.payload, 'p'); else split = true; label("all-at-limit"); }
        Str t = r.text(); c.note("| uri=%zu header=%zu payload=%zu expect %d ", r.uri.size(), r.header_size(), r.body.size(), want);
        Client *cl = w.connect(fmt("10.0.0.%d", i + 1));
        if (split && c.coin()) { drive(c, w, cl, t, {}); label("split"); } else cl->send(t);
        w.settle(); Resp rs; get_head(w, cl, rs, "request at a limit");
        CHECK(rs.status == want || (rs.status == 413 && want != 101 && t.size() > (size_t)cf.uri + 3 * cf.header + cf.payload), want == 101 ? "refused-within-limit" : "limit-not-enforced", "answered with %s, expected %d", rs.line.c_str(), want);
        c.nontrivial(); cl->close(); w.settle();
    }
    if (c.below(3) == 0 && cf.payload < 100000) {            // a request that never ends is refused, not stored
        Client *cl = w.connect("10.0.0.9"); Str t = c.coin() ? "GET /" + Str(3 * cf.uri + 4 * cf.header + cf.payload + 200, 'u') : "GET / HTTP/1.1\r\n" + [&] { Str s; while ((int)s.size() < 4 * cf.header + 2 * cf.uri + cf.payload + 300) s += "X: yyyyyyyyyyyyyyyyyyyyyyyyyyyyyy\r\n"; return s; }();
        drive(c, w, cl, t, {}); w.settle(); Resp rs; get_head(w, cl, rs, "request without an end"); CHECK(rs.status == 414 || rs.status == 431 || rs.status == 413 || rs.status == 400, "limit-not-enforced", "endless request answered with %s", rs.line.c_str()); label("endless");
    }
    end_world(c, w, c.chance(1, 10));
}
static AddProp p_m04h({"M04.requests", m04h, true, 700, "a request at or over a limit", 60, world_warm});

// ---------------------------------------------------------------- H03
extern "C" {
#include "header.h"
#include "error.h"
void log_set_quiet(int);
void WSS_free_normal(void *);
void *WSS_malloc(size_t);
}
static const std::vector<Str> HTOK = {"\r\n", "\r", "\n", "\r\n\r\n", ":", ": ", ",", ",,,", ", ,", ";", ";;", "=", " ", "\t", "\"", "/", "?", "&", "http://", "ws://", "wss://localhost", "https://", "GET ", " HTTP/1.1", "HTTP/1.0",
    "Sec-WebSocket-Version", "Upgrade", "Origin", "Connection", "Cookie", "Sec-WebSocket-Protocol", "Sec-WebSocket-Origin", "Sec-WebSocket-Key", "Sec-WebSocket-Extensions", "Host", "WebSocket-Protocol", "Sec-WebSocket-Key1", "Sec-WebSocket-Key2",
    "websocket", "WebSocket", "13", "8", "4", "-1", "99999999999999999999", "echo", "broadcast", "permessage-deflate", "permessage-deflate;", "server_max_window_bits=15", "server_max_window_bits=8", "client_max_window_bits", "client_max_window_bits=", "server_no_context_takeover", "permessage-deflate; =;", "\xff", "\x80", "\x01", "\x7f"};
static Str hostile_field(Case &c) {
    static const std::vector<Str> names = {"Sec-WebSocket-Version", "Upgrade", "Origin", "Connection", "Cookie", "Sec-WebSocket-Protocol", "Sec-WebSocket-Origin", "Sec-WebSocket-Key", "Sec-WebSocket-Extensions", "Host", "WebSocket-Protocol", "Sec-WebSocket-Key1", "Sec-WebSocket-Key2", "X", ""};
    Str s = rnd_case(c, c.pickv(names)); static const std::vector<Str> sep = {": ", ":", "", " :", "::", ":\t"}; s += c.pickv(sep);
    switch (c.below(7)) { case 0: break; case 1: { int n = 1 + c.below(6); while (n--) s += c.pick<const char *>({",", " ", ";", ", ", "\t", "=", " ,"}); break; } case 2: { int n = 1 + c.below(5); while (n--) s += c.pickv(HTOK); break; } case 3: s += rnd_value(c, 60); break;
        case 4: s += comma_list(c, {"permessage-deflate", "permessage-deflate; server_no_context_takeover", "x", "permessage-deflate"}); break; case 5: s += Str(c.below(300), (char)(c.below(4) ? 'a' + c.below(26) : c.byte())); break; default: s += c.pick<const char *>({"echo", "13", "websocket", "Upgrade", "localhost", "dGhlIHNhbXBsZSBub25jZQ=="}); }
    return s + (c.below(12) == 11 ? Str(c.pick<const char *>({"\r", "\n", "\r\r\n", ""})) : Str("\r\n"));
}
static Str hostile_request(Case &c, bool nul) {
    ReqG r = base_req(gen_key(c)); if (c.coin()) r.h.push_back({"Sec-WebSocket-Protocol", comma_list(c, {"chat", "echo"})}); if (c.coin()) r.h.push_back({"Sec-WebSocket-Extensions", "permessage-deflate; client_max_window_bits"});
    if (c.below(3) == 0) dress(c, r);
    Str t = r.text(); int kind = c.below(8);
    if (kind == 0) { t = ""; int n = 1 + c.below(30); while (n--) t += c.pickv(HTOK); }
    else if (kind == 1) { t = "GET / HTTP/1.1\r\n"; int n = c.below(12); while (n--) t += hostile_field(c); t += "\r\n"; }
    else if (kind <= 4) { size_t at = t.find("\r\n") + 2; int n = 1 + c.below(4); while (n--) { Str f = hostile_field(c); size_t k = at; if (c.coin()) { size_t e = t.find("\r\n", at + c.below(t.size() - at)); if (e != Str::npos && e + 2 < t.size()) k = e + 2; } t.insert(k, f); } }
    else {
        int n = 1 + c.below(4);
        while (n--) { size_t at = c.below(t.size() + 1), len = std::min<size_t>(1 + c.below(6), t.size() - at);
            switch (c.below(7)) { case 0: t.erase(at, len); break; case 1: t.insert(at, c.pickv(HTOK)); break; case 2: if (at < t.size()) { t[at] = (char)c.byte(); } break; case 3: t.insert(at, t.substr(at, c.below(80))); break; case 4: t.resize(at); break; case 5: { size_t e = t.find("\r\n", at); if (e != Str::npos) t.erase(at, e - at); break; } default: t.insert(at, Str(c.below(3) ? c.below(40) : c.below(9000), (char)c.pick<int>({' ', 'A', ',', '/', '\t', ';'}))); }
        }
    }
    if (!nul) t.erase(std::remove(t.begin(), t.end(), '\0'), t.end());
    return t;
}
static bool h03_ready;
static wss_config_t h03_conf; static char *h03_subs[2], *h03_exts[1], *h03_cfg[2];
static void h03_setup() {
    if (h03_ready) return; h03_ready = true; log_set_quiet(1);
    memset(&h03_conf, 0, sizeof h03_conf); h03_subs[0] = strdup(plugin("echo").c_str()); h03_subs[1] = strdup(plugin("broadcast").c_str()); h03_exts[0] = strdup(plugin("permessage-deflate").c_str());
    h03_conf.subprotocols = h03_subs; h03_conf.subprotocols_config = h03_cfg; h03_conf.subprotocols_length = 2; h03_conf.extensions = h03_exts; h03_conf.extensions_config = h03_cfg; h03_conf.extensions_length = 1;
    h03_conf.size_uri = 8192; h03_conf.size_header = 8192; h03_conf.size_payload = 16777215;
    WSS_load_subprotocols(&h03_conf); WSS_load_extensions(&h03_conf);
}
struct Parsed { int code = 0, up = 0; Str fields; };
static Parsed h03_once(const Str &t, int fd) {
    Parsed r; wss_header_t *h = (wss_header_t *)WSS_malloc(sizeof *h); memset(h, 0, sizeof *h);
    h->content = (char *)WSS_malloc(t.size() + 1); memcpy(h->content, t.data(), t.size()); h->content[t.size()] = 0; h->length = t.size();
    char *lo = h->content, *hi = lo + t.size();
    r.code = WSS_parse_header(fd, h, &h03_conf);
    auto in = [&](const char *n, char *p) { if (!p) { r.fields += "-|"; return; } CHECK(p >= lo && p <= hi, "outside", "%s points outside the request", n); CHECK(p + strlen(p) <= hi, "outside", "%s runs past the request", n); r.fields += Str(p) + "|"; };
    if (r.code == HttpStatus_OK) {
        in("method", h->method); in("version", h->version); in("path", h->path); in("host", h->host); in("payload", h->payload); in("cookies", h->cookies); in("upgrade", h->ws_upgrade); in("connection", h->ws_connection); in("origin", h->ws_origin); in("key", h->ws_key); in("key1", h->ws_key1); in("key2", h->ws_key2); in("key3", h->ws_key3);
        CHECK(h->method && h->path && h->version, "incomplete", "accepted a request without method, path or version");
        r.up = WSS_upgrade_header(h, &h03_conf, nullptr);
        CHECK(r.up == HttpStatus_SwitchingProtocols || (r.up >= 400 && r.up < 600), "status", "answered with status %d", r.up);
        if (r.up == HttpStatus_SwitchingProtocols) CHECK(h->ws_key && h->ws_upgrade && h->ws_connection, "incomplete", "upgraded a request without key, Upgrade or Connection");
    } else CHECK(r.code >= 400 && r.code < 600, "status", "refused with status %d", r.code);
    for (unsigned i = 0; i < h->ws_extensions_count; i++) { CHECK(h->ws_extensions[i] && h->ws_extensions[i]->ext && h->ws_extensions[i]->name, "extension", "an accepted extension is missing"); r.fields += Str(h->ws_extensions[i]->name) + "=" + (h->ws_extensions[i]->accepted ? h->ws_extensions[i]->accepted : "") + "|"; h->ws_extensions[i]->ext->close(fd); }
    WSS_free_header(h);
    return r;
}
static void h03p(Case &c) {
    h03_setup(); Str t = hostile_request(c, true); c.key(t); c.note("%s", quote(t, 900).c_str()); if (t.size() > 20) c.nontrivial();
    if (c.chance(1, 6)) { h03_conf.size_uri = c.below(60); h03_conf.size_header = c.below(300); h03_conf.size_payload = c.below(40); } else { h03_conf.size_uri = h03_conf.size_header = 8192; h03_conf.size_payload = 16777215; }
    h03_once(t, 7); size_t before = alloc_bytes(); Parsed a, b;
    a = h03_once(t, 7); b = h03_once(t, 7); size_t slack = a.fields.size() + b.fields.size();
    CHECK(a.code == b.code && a.up == b.up && a.fields == b.fields, "differs", "the same request is parsed differently: %d/%d %s, then %d/%d %s", a.code, a.up, quote(a.fields).c_str(), b.code, b.up, quote(b.fields).c_str());
    label(fmt("parse-%d-%d", a.code, a.up).c_str()); a = Parsed(); b = Parsed(); size_t after = alloc_bytes(); CHECK(after <= before + 2 * slack + 64, "leak", "%zu bytes remain allocated", after - before);
}
static AddProp p_h03p({"H03.parse", h03p, false, 900, "hostile field lists, requests assembled from tokens, and valid requests with bytes, tokens, lines inserted, repeated, deleted or cut, in exact-size heap blocks; non-trivial = longer than 20 bytes", 30, world_warm});

static void h03s(Case &c) {
    Conf cf; cf.buffer = c.pick<int>({32768, 64, 512, 1024}); cf.workers = 1 + c.below(3); cf.subs = {{"echo", ""}, {"broadcast", ""}}; if (c.coin()) cf.exts.push_back({"permessage-deflate", ""});
    if (c.below(4) == 0) cf.hosts = {"localhost"}; if (c.below(4) == 0) cf.paths = {"chat"}; if (c.below(5) == 0) { cf.uri = 1 + c.below(100); cf.header = 250 + c.below(300); cf.payload = c.below(100); }
    World w(cf); w.start(c); w.baseline();
    int n = 1 + c.below(4); std::vector<Client *> cs;
    for (int i = 0; i < n; i++) {
        Str t = hostile_request(c, true); c.note("| %s ", quote(t, 400).c_str()); t += "\r\n\r\n";
        Client *cl = w.connect(fmt("10.0.0.%d", i + 1)); cs.push_back(cl);
        if (c.coin()) drive(c, w, cl, t, {}); else cl->send(t);
        if (c.coin()) w.settle();
    }
    w.settle();
    for (int i = 0; i < n; i++) {
        Client *cl = cs[i]; Resp rs; Str h; bool got = cl->head(h);
        for (int k = 0; !got && !cl->eof && k < 20; k++) { w.settle_ms(100); got = cl->head(h); }
        if (!got) { CHECK(cl->eof, "no-answer", "request %d is neither answered nor is its connection closed; received %s\n%s", i + 1, quote(cl->rx).c_str(), sim_dump().c_str()); label("closed"); continue; }
        CHECK(parse_resp(h, rs), "malformed-response", "request %d answered with %s", i + 1, quote(h, 600).c_str());
        CHECK(rs.status == 101 || rs.status == 200 || rs.status == 304 || (rs.status >= 400 && rs.status < 600), "status", "request %d answered with %s", i + 1, rs.line.c_str());
        label(fmt("status-%d", rs.status).c_str());
    }
    // the server is as good as new
    { Client *cl = open_ws(w, "10.0.0.200"); Reader rd; std::vector<RefFrame> v = {mkframe(c, 2, gen_payload(c, c.below(60)))}; cl->send(wire(v)); expect_echo(w, cl, rd, model(v, Limits{})); }
    w.check_released(); c.nontrivial(); end_world(c, w, c.chance(1, 6));
}
static AddProp p_h03s({"H03.server", h03s, true, 1500, "at least one hostile request was sent and followed by a blank line", 60, world_warm});
