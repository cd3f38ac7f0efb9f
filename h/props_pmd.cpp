// permessage-deflate: X01 negotiation, X02 compressed sessions, X03 malformed compressed data.
#include "gen.h"
#include "inflate.h"
#include <map>
#include <memory>
#include <zlib.h>

// ---------------------------------------------------------------- parameters
struct Params { bool on = false, snct = false, cnct = false; int smwb = 15, cmwb = 15; bool has_smwb = false, has_cmwb = false; };
static Str trimmed(Str s) { while (!s.empty() && (s[0] == ' ' || s[0] == '\t')) s.erase(0, 1); while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back(); return s; }
static std::vector<Str> split(const Str &s, char sep) { std::vector<Str> v; Str x; for (char ch : s) if (ch == sep) { v.push_back(trimmed(x)); x.clear(); } else x += ch; v.push_back(trimmed(x)); return v; }
static Str without_empty(const Str &e) { auto v = split(e, ';'); size_t n = 0; for (auto &x : v) if (x.empty()) n++; if (!n) return e; Str s; for (auto &x : v) if (!x.empty()) s += (s.empty() ? "" : "; ") + x; return s; }
static bool window(const Str &s, int &v) { if (s.empty() || s.size() > 2) return false; for (char ch : s) if (ch < '0' || ch > '9') return false; if (s[0] == '0') return false; v = atoi(s.c_str()); return v >= 8 && v <= 15; }
// One element of the list. 1 a valid offer of permessage-deflate, 0 an invalid one, -1 something else
static int parse_offer(const Str &e, Params &p, bool &cmwb_bare) {
    auto v = split(e, ';'); if (v[0] != "permessage-deflate") return -1; p = Params(); p.on = true; cmwb_bare = false;
    for (size_t i = 1; i < v.size(); i++) {
        size_t q = v[i].find('='); Str n = trimmed(v[i].substr(0, q)), val = q == Str::npos ? "" : trimmed(v[i].substr(q + 1)); bool has = q != Str::npos;
        if (n == "server_no_context_takeover") { if (p.snct || has) return 0; p.snct = true; }
        else if (n == "client_no_context_takeover") { if (p.cnct || has) return 0; p.cnct = true; }
        else if (n == "server_max_window_bits") { if (p.has_smwb || !has || !window(val, p.smwb)) return 0; p.has_smwb = true; }
        else if (n == "client_max_window_bits") { if (p.has_cmwb || (has && !window(val, p.cmwb))) return 0; p.has_cmwb = true; if (!has) cmwb_bare = true; }
        else return 0;
    }
    return 1;
}
// What the server accepted; fails the case if the response is not a legal one.
static Params accepted(const Resp &rs) {
    Params p; bool bare; CHECK(rs.count("Sec-WebSocket-Extensions") <= 1, "extension-header", "several Sec-WebSocket-Extensions fields in the response");
    if (!rs.count("Sec-WebSocket-Extensions")) return p;
    Str s = rs.get("Sec-WebSocket-Extensions"); auto l = split(s, ','); CHECK(l.size() == 1, "extension-header", "answered with %s", quote(s).c_str());
    int k = parse_offer(l[0], p, bare); CHECK(k == 1 && !bare, "extension-header", "answered with %s", quote(s).c_str()); return p;
}
// ---------------------------------------------------------------- the client's compressor
struct Deflater {
    z_stream z; bool up = false; int bits = 15; bool fresh_each = false; bool no_match = false;
    ~Deflater() { if (up) deflateEnd(&z); }
    void open(Case &c) {
        if (up) deflateEnd(&z); memset(&z, 0, sizeof z); int lvl = c.pick<int>({6, 0, 1, 9, 2, 4}), strat = no_match ? Z_HUFFMAN_ONLY : c.pick<int>({Z_DEFAULT_STRATEGY, Z_FIXED, Z_HUFFMAN_ONLY, Z_RLE, Z_FILTERED});
        if (deflateInit2(&z, lvl, Z_DEFLATED, -std::max(bits, 9), 1 + c.below(9), strat) != Z_OK) abort(); up = true;
    }
    Str run(const Str &s, int flush) {
        Str o; char b[16384]; z.next_in = (Bytef *)s.data(); z.avail_in = s.size(); int r;
        do { z.next_out = (Bytef *)b; z.avail_out = sizeof b; r = deflate(&z, flush); o.append(b, sizeof b - z.avail_out); } while (z.avail_out == 0); return o;
    }
    Str message(Case &c, const Str &s) {
        if (!up || fresh_each || c.below(8) == 7) open(c);
        Str o; size_t p = 0; int k = c.below(4) == 3 ? c.below(5) : 0;
        while (k--) { size_t n = c.below(s.size() - p + 1); o += run(s.substr(p, n), c.pick<int>({Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_BLOCK, Z_PARTIAL_FLUSH})); p += n; }
        if (c.below(8) == 7) { o += run(s.substr(p), Z_FINISH); o += (char)0; deflateReset(&z); label("final-block"); return o; }
        Str e = run(s.substr(p), Z_SYNC_FLUSH); o += e;
        if (e.empty()) { if (p == s.size() && o.size() >= 4 && o.compare(o.size() - 4, 4, Str("\0\0\xff\xff", 4)) == 0) o.resize(o.size() - 4); return o.empty() ? Str(1, '\0') : o; }
        if (o.size() < 4 || o.compare(o.size() - 4, 4, Str("\0\0\xff\xff", 4))) abort();
        o.resize(o.size() - 4); return o;
    }
};
struct Flow {                                           // one connection with the extension
    Client *c = nullptr; Params p; Deflater def; std::shared_ptr<Inflate> inf = std::make_shared<Inflate>(); Reader r; std::vector<RefFrame> plain; Str hist; bool over = false; int id = 0;
    void bind() {
        def.bits = p.cmwb; def.fresh_each = p.cnct; def.no_match = p.cmwb == 8; r.rsv1_ok = p.on; auto q = p; auto in = inf; in->window = 1u << q.smwb;
        r.decode = [q, in](Msg &m, Str &e) { if (q.snct) { in->hist.clear(); } Str out; if (!in->message(m.data, out)) { e = "undecodable compressed message: " + in->err + " " + hexs(m.data.data(), m.data.size(), 32); return false; } if (in->beyond) { e = fmt("compressed message refers %zu bytes back, the window was negotiated to %zu", in->beyond, in->window); return false; } m.data = out; return true; };
    }
};
static Str gen_params(Case &c, bool plain_ok) {
    if (plain_ok && c.below(6) == 5) return ""; Str s = "permessage-deflate";
    if (c.coin()) s += "; server_no_context_takeover"; if (c.coin()) s += "; client_no_context_takeover";
    if (c.below(3) == 0) s += fmt("; server_max_window_bits=%d", (int)c.range(9, 15)); if (c.coin()) s += c.coin() ? Str("; client_max_window_bits") : fmt("; client_max_window_bits=%d", (int)c.range(8, 15));
    return s;
}
static Str gen_config(Case &c) {
    std::vector<Str> v; if (c.coin()) v.push_back("server_no_context_takeover"); if (c.coin()) v.push_back(fmt("server_max_window_bits=%d", (int)c.range(8, 15))); if (c.coin()) v.push_back(fmt("client_max_window_bits=%d", (int)c.range(8, 15)));
    if (c.coin()) v.push_back(fmt("memory_level=%d", (int)c.range(1, 9))); if (c.coin()) v.push_back(fmt("chunk_size=%d", c.pick<int>({8, 9, 64, 1000, 16384, 100000})));
    Str s; for (auto &x : v) s += (s.empty() ? "" : c.coin() ? "; " : ";") + x; return s;
}
// what the extension's configuration says, 0 where it says nothing
struct Configured { bool snct = false; int smwb = 0, cmwb = 0; };
static Configured configured(const Str &conf) {
    Configured r; for (auto &x : split(conf, ';')) { size_t e = x.find('='); Str n = x.substr(0, e); n.erase(0, n.find_first_not_of(' ')); int v = e == Str::npos ? 0 : atoi(x.c_str() + e + 1);
        if (n == "server_no_context_takeover") r.snct = true; if (n == "server_max_window_bits") r.smwb = std::max(v, 9); if (n == "client_max_window_bits") r.cmwb = v; }
    return r;
}
static Str body(Case &c, int op, size_t max, const Str &hist) {
    size_t n = gen_len(c, max, {0, 1, 125, 126, 32768, 32769, 65535});
    switch (c.below(5)) {
    case 0: return op == 1 ? gen_utf8(c, n) : gen_payload(c, n);
    case 1: { Str u = op == 1 ? gen_utf8(c, 1 + c.below(60)) : gen_payload(c, 1 + c.below(60)); Str s; while (s.size() + u.size() <= n) s += u; return s; }            // repetitive
    case 2: { Rng r(c.seed()); Str s; while (s.size() < n) s += "the quick brown fox jumps over lazy dogs and 0123456789 "[r.below(56)]; return s; }
    case 3: if (hist.size() > 2) { label("repeats-earlier-data"); Str s; Rng r(c.seed()); while (s.size() < std::max<size_t>(n, 3)) { size_t a = r.below(hist.size()), l = std::min<size_t>(3 + r.below(300), hist.size() - a); s += hist.substr(a, l); } return s; } // only ASCII is remembered
    default: return Str(n, (char)('a' + c.below(26)));
    }
}
static void remember(Str &h, const Str &s) { for (char ch : s.substr(0, 40000)) h += (char)(ch & 0x7f); }
// Sends a message; returns the bytes of its frames
static Str pmd_message(Case &c, Flow &f, int op, const Str &data, bool compress, bool record = true) {
    RefFrame pl; pl.op = op; pl.payload = data; pl.masked = true; if (record) f.plain.push_back(pl);
    Str w = compress ? f.def.message(c, data) : data; std::vector<RefFrame> v; int n = c.below(3) != 2 ? 1 : 1 + (int)c.below(6); std::vector<size_t> cuts;
    for (int i = 1; i < n; i++) cuts.push_back(c.below(5) == 0 ? (c.coin() ? 0 : w.size()) : c.below(w.size() + 1)); std::sort(cuts.begin(), cuts.end()); cuts.push_back(w.size()); size_t a = 0;
    for (int i = 0; i < n; i++) { if (i && c.below(4) == 3) { RefFrame g = mkframe(c, 9, gen_payload(c, c.below(40))); v.push_back(g); if (record) f.plain.insert(f.plain.end() - 1, g); } RefFrame g = mkframe(c, i ? 0 : op, w.substr(a, cuts[i] - a), i == n - 1); g.rsv1 = compress && i == 0; v.push_back(g); a = cuts[i]; }
    if (n > 1) label("fragmented"); return wire(v);
}
static void pause(Case &c, World &w) { switch (c.below(5)) { case 0: sim_quiet(); w.pump(); break; case 1: sim_steps(1 + c.below(80)); w.pump(); break; case 2: sim_steps(1 + c.below(1500)); w.pump(); break; case 3: w.settle(); break; default: break; } }
static void send_cut(Case &c, World &w, Client *cl, const Str &b) { size_t p = 0; int k = 0; while (p < b.size()) { size_t n = c.below(3) || k > 20 ? b.size() - p : 1 + c.below(b.size() - p); cl->send(b.substr(p, n)); p += n; k++; cl->pump(); if (c.coin()) pause(c, w); } }

// ---------------------------------------------------------------- X01
static Str gen_offer(Case &c) {
    static const std::vector<Str> vals = {"8", "9", "10", "12", "15", "16", "7", "0", "", "08", "015", "+9", "-9", " 9", "9 ", "1e1", "99", "100", "\"10\"", "9a", "a", "255", "256", "264", "4294967305"};
    static const std::vector<Str> names = {"server_no_context_takeover", "client_no_context_takeover", "server_max_window_bits", "client_max_window_bits"};
    if (c.below(12) == 11) return c.pick<Str>({"x-webkit-deflate-frame", "permessage-bzip2", "permessage-deflat", "permessage-deflate2", "foo; bar=1"});
    Str s = "permessage-deflate"; int n = c.below(5); bool strange = c.below(3) == 2;
    auto sp = [&] { return c.below(4) ? Str(" ") : c.coin() ? Str() : Str("  \t"); };
    while (n--) {
        s += (c.below(4) ? "" : " "); s += ";"; s += sp(); Str nm = c.pickv(names); if (strange && c.below(4) == 0) nm = c.pick<Str>({"x", "server_max_window_bit", "Server_Max_Window_Bits", "server_max_window_bits2", "client_no_context_takeover1", ""});
        s += nm; bool win = nm.find("window") != Str::npos;
        if (strange ? c.coin() : win && (nm[0] == 's' || c.coin())) { s += (c.below(6) ? "" : " "); s += "="; s += strange ? c.pickv(vals) : fmt("%d", (int)c.range(8, 15)); }
    }
    if (strange && c.below(6) == 0) s += c.pick<Str>({";", "; ;", ";;", " "}); return s;
}
static void x01(Case &c) {
    Conf cf = gen_conf(c); cf.buffer = c.pick<int>({32768, 512}); bool loaded = c.below(8) != 7; Str conf = gen_config(c); if (loaded) cf.exts.push_back({"permessage-deflate", conf}); World w(cf); w.start(c);
    bool leak = c.below(3) == 0; if (leak) w.baseline();
    int tries = 1 + c.below(3);
    while (tries--) {
        std::vector<Str> offers; int n = 1 + c.below(4); while (n--) offers.push_back(gen_offer(c)); Str key = gen_key(c); Req q = Req::valid(key, "echo"); std::vector<Str> hv(1); for (size_t i = 0; i < offers.size(); i++) { if (i && c.below(4) == 3) hv.push_back(""); else if (i) hv.back() += c.coin() ? ", " : ","; hv.back() += offers[i]; }
        for (auto &x : hv) q.h.insert(q.h.begin() + 1 + c.below(q.h.size()), {"Sec-WebSocket-Extensions", x});
        // the order of fields decides which offer comes first
        std::vector<Str> seq; for (auto &x : q.h) if (x.first == "Sec-WebSocket-Extensions") for (auto &o : split(x.second, ',')) seq.push_back(o);
        Str all; for (auto &o : seq) all += (all.empty() ? "" : ", ") + o; c.note("[%s] offered %s ", conf.c_str(), quote(all, 300).c_str());
        Client *cl = w.connect(fmt("10.0.0.%d", tries + 1)); cl->send(q.text()); w.settle(); Str h; Resp rs; for (int i = 0; i < 10 && !cl->head(h); i++) w.settle_ms(100);
        CHECK(parse_resp(h, rs) && rs.status == 101, "handshake-refused", "offers %s were answered with %s", quote(all).c_str(), quote(h).c_str()); Params p = accepted(rs); Str ans = rs.get("Sec-WebSocket-Extensions");
        int first = -1; bool unsure = false, some = false; Params want; bool bare = false;
        for (size_t i = 0; i < seq.size(); i++) {
            Params o; bool b; int k = parse_offer(seq[i], o, b); if (k < 0) continue; if (seq[i].find('"') != Str::npos || without_empty(seq[i]) != seq[i]) { unsure = true; some = true; continue; } // quoted values and empty parameters may be tolerated
            if (k == 1) { some = true; if (o.has_smwb && o.smwb == 8) { unsure = true; continue; } if (first < 0) { first = (int)i; want = o; bare = b; } }
        }
        if (!loaded) { CHECK(!p.on, "not-loaded", "%s accepted without the extension being loaded", ans.c_str()); label("not-loaded"); }
        else if (p.on) {
            CHECK(some, "accepted-invalid", "no offer in %s is valid, but %s was accepted", quote(all).c_str(), ans.c_str());
            // consistent with one of the offers (the first valid one unless one that may be tolerated precedes it)
            auto fits = [&](const Params &o, bool b) { if (o.snct && !p.snct) return false; if (o.has_smwb && (!p.has_smwb || p.smwb > o.smwb)) return false; if (p.has_cmwb && (!o.has_cmwb || (!b && p.cmwb > o.cmwb))) return false; return true; };
            if (!unsure) CHECK(fits(want, bare), "inconsistent", "%s does not fit the offer %s", ans.c_str(), seq[first].c_str());
            else { bool any = false; for (auto &s : seq) { Str t; for (char ch : s) if (ch != '"') t += ch; t = without_empty(t); Params o; bool b; if (parse_offer(t, o, b) == 1 && fits(o, b)) any = true; } CHECK(any, "inconsistent", "%s fits none of the offers %s", ans.c_str(), all.c_str()); }
            if (!unsure) { // what the offer leaves to the server is as configured
                Configured d = configured(conf); CHECK(!d.snct || p.snct, "not-as-configured", "%s though the server is configured with %s", ans.c_str(), conf.c_str());
                if (!want.has_smwb && d.smwb) CHECK((p.has_smwb ? p.smwb : 15) == d.smwb, "not-as-configured", "%s though the server is configured with %s", ans.c_str(), conf.c_str());
                if (want.has_cmwb && bare && d.cmwb) CHECK((p.has_cmwb ? p.cmwb : 15) == d.cmwb, "not-as-configured", "%s though the server is configured with %s", ans.c_str(), conf.c_str());
                if (d.snct || (!want.has_smwb && d.smwb) || (bare && d.cmwb)) label("as-configured");
            }
            label("accepted");
        } else { if (first >= 0 && !unsure) fail("valid-offer-declined", "the offer %s was declined (among %s)", seq[first].c_str(), quote(all).c_str()); label("declined"); }
        // the session works either way
        Flow f; f.c = cl; f.p = p; f.bind(); int k = 1 + c.below(3); Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented};
        while (k--) { int op = 1 + c.below(2); send_cut(c, w, cl, pmd_message(c, f, op, body(c, op, 2000, f.hist), p.on)); }
        expect_echo(w, cl, f.r, model(f.plain, L)); if (!p.on) for (char b : f.r.rsv1) CHECK(!b, "compressed-though-declined", "a compressed message was sent on a connection without the extension");
        if (!p.on && c.coin()) { RefFrame x = mkframe(c, 2, "abc"); x.rsv1 = true; f.plain.push_back(x); cl->send(enc_frame(x)); expect_echo(w, cl, f.r, model(f.plain, L)); }
        c.nontrivial(); c.key(all);
    }
    if (leak) w.check_released(); end_world(c, w, c.below(8) == 7);
}
static AddProp p_x01({"X01", x01, true, 600, "every case: offers and a session", 60, world_warm});
// ---------------------------------------------------------------- X02
static void x02(Case &c) {
    Conf cf = gen_conf(c); cf.buffer = c.pick<int>({32768, 512, 64, 4096}); Str conf = gen_config(c); cf.exts.push_back({"permessage-deflate", conf}); if (c.below(3) == 0) cf.frame = 70000 + c.below(3000); if (cf.frame < 70000) cf.frame = 1048576; World w(cf); w.start(c);
    bool leak = c.below(3) == 0; if (leak) w.baseline(); Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented};
    int n = 1 + c.below(3); std::vector<std::unique_ptr<Flow>> fs; c.note("[%s] ", conf.c_str());
    for (int i = 0; i < n; i++) { auto f = std::make_unique<Flow>(); Resp rs; Str off = gen_params(c, i > 0); sim_sndbuf = c.below(5) == 4 ? 1 : 0; f->c = open_ws(w, fmt("10.0.0.%d", i + 1), "echo", off, 0, false, &rs); sim_sndbuf = 0; f->p = accepted(rs); CHECK(f->p.on == !off.empty(), "valid-offer-declined", "the offer %s was answered with %s", off.c_str(), rs.get("Sec-WebSocket-Extensions").c_str()); f->bind(); c.note("%s -> %s; ", off.c_str(), rs.get("Sec-WebSocket-Extensions").c_str()); fs.push_back(std::move(f)); if (!off.empty()) label(fs.back()->p.snct ? "server-no-takeover" : "server-takeover"); }
    int ops = 2 + c.below(c.thorough ? 60 : 26), said = 0, comp = 0; size_t budget = 300000;
    while (ops-- > 0) {
        Flow &f = *fs[c.below(fs.size())]; int op = 1 + c.below(2); size_t max = std::min<size_t>(budget, c.below(3) ? 700 : c.coin() ? 9000 : 69000); Str d = body(c, op, max, f.hist); budget -= std::min(budget, d.size()); bool z = f.p.on && c.below(4) != 3;
        Str b = pmd_message(c, f, op, d, z); remember(f.hist, d); said++; comp += z; send_cut(c, w, f.c, b); if (c.below(4) == 3) { f.c->stalled = !f.c->stalled; }
        if (c.below(4) == 3) pause(c, w); if (budget < 100) break;
    }
    for (auto &f : fs) f->c->stalled = false;
    for (auto &f : fs) { expect_echo(w, f->c, f->r, model(f->plain, L)); if (!f->p.on) for (char b : f->r.rsv1) CHECK(!b, "compressed-though-declined", "a compressed message was sent on a connection without the extension"); }
    c.note("%d messages, %d compressed ", said, comp); if (comp >= 2) c.nontrivial();
    if (leak) w.check_released(); end_world(c, w, c.below(8) == 7);
}
static AddProp p_x02({"X02", x02, true, 2500, "at least two compressed messages", 60, world_warm});
// clients with different parameters share the broadcast protocol
// Compressed sessions while memory runs out: every message is echoed intact or the connection ends.
static void r06p(Case &c) {
    Conf cf = gen_conf(c); cf.buffer = c.pick<int>({32768, 512, 4096}); Str conf = gen_config(c); cf.exts.push_back({"permessage-deflate", conf}); if (cf.frame < 70000) cf.frame = 1048576; World w(cf); w.start(c);
    Client *witness = open_ws(w, "10.0.2.1", "echo"); witness->kept = true; w.baseline(); Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented}; Shortage oom(c);
    std::vector<std::unique_ptr<Flow>> fs; int n = 1 + c.below(3); c.note("[%s] ", conf.c_str());
    for (int i = 0; i < n; i++) { auto f = std::make_unique<Flow>(); Resp rs; Str off = gen_params(c, false); f->c = open_ws(w, fmt("10.0.0.%d", i + 1), "echo", off, 0, false, &rs); f->p = accepted(rs); CHECK(f->p.on, "valid-offer-declined", "the offer %s", off.c_str()); f->bind(); c.note("%s; ", off.c_str()); fs.push_back(std::move(f)); }
    int rounds = 1 + c.below(3); size_t budget = 60000;
    while (rounds--) {
        oom.arm(c); int ops = 1 + c.below(10);
        while (ops-- > 0) { Flow &f = *fs[c.below(fs.size())]; int op = 1 + c.below(2); Str d = body(c, op, std::min<size_t>(budget, c.below(3) ? 300 : 9000), f.hist); budget -= std::min(budget, d.size()); if (f.c->eof) continue; Str b = pmd_message(c, f, op, d, c.below(4) != 3); remember(f.hist, d); send_cut(c, w, f.c, b); if (c.below(4) == 3) pause(c, w); }
        if (c.coin()) w.settle(); oom.armed = false; pause(c, w);
    }
    w.settle(); sim_check();
    for (auto &f : fs) { Expect e = model(f->plain, L); for (int t = 0; t < w.patience(); t++) { if (!f->r.feed(*f->c)) fail("malformed-output", "%s", f->r.g.error.c_str()); if (f->c->eof || satisfied(e, f->c, f->r)) break; w.settle_ms(100); }
        if (f->c->eof) { expect_prefix(f->c, f->r, e); continue; }
        Str d = body(c, 2, 500, f->hist); send_cut(c, w, f->c, pmd_message(c, *f, 2, d, true)); expect_echo(w, f->c, f->r, model(f->plain, L)); }
    { Flow f; Resp rs; f.c = open_ws(w, "10.0.9.1", "echo", "permessage-deflate", 0, false, &rs); f.p = accepted(rs); f.bind(); send_cut(c, w, f.c, pmd_message(c, f, 1, "after the shortage", true)); expect_echo(w, f.c, f.r, model(f.plain, L)); }
    oom.report(c); w.check_released(); end_world(c, w, c.below(8) == 7);
}
static AddProp p_r06p({"R06.pmd", r06p, true, 2500, "at least one allocation failed", 90, world_warm});

static void x02b(Case &c) {
    Conf cf = gen_conf(c); cf.ring = 1024; cf.frame = 1048576; cf.buffer = c.pick<int>({32768, 512, 4096}); Str conf = gen_config(c); cf.exts.push_back({"permessage-deflate", conf}); World w(cf); w.start(c);
    int n = 2 + c.below(4); std::vector<std::unique_ptr<Flow>> fs; std::vector<std::vector<Msg>> sent(n); c.note("[%s] ", conf.c_str());
    for (int i = 0; i < n; i++) { auto f = std::make_unique<Flow>(); Resp rs; f->id = i; f->c = open_ws(w, fmt("10.0.0.%d", i + 1), "broadcast", gen_params(c, true), 0, false, &rs); f->p = accepted(rs); f->bind(); c.note("%s; ", rs.get("Sec-WebSocket-Extensions").c_str()); fs.push_back(std::move(f)); }
    int ops = 2 + c.below(c.thorough ? 50 : 24), comp = 0; size_t budget = 60000;
    while (ops-- > 0) {
        int i = c.below(n); Flow &f = *fs[i]; int op = 1 + c.below(2); Str d = fmt("%d.%zu:", i, sent[i].size()) + body(c, op, std::min<size_t>(budget, c.below(3) ? 500 : 8000), f.hist); budget -= std::min(budget, d.size()); bool z = f.p.on && c.below(4) != 3; comp += z;
        sent[i].push_back({op, d}); Str b = pmd_message(c, f, op, d, z); remember(f.hist, d); send_cut(c, w, f.c, b); if (c.below(4) == 3) pause(c, w); if (budget < 100) break;
    }
    for (int t = 0; t < 30; t++) { w.settle_ms(t ? 50 : 0); bool all = true; for (int i = 0; i < n; i++) { if (!fs[i]->r.feed(*fs[i]->c)) fail("malformed-output", "client %d: %s", i, fs[i]->r.g.error.c_str()); size_t want = 0; for (int k = 0; k < n; k++) if (k != i) want += sent[k].size(); if (fs[i]->r.g.msgs.size() < want) all = false; } if (all) break; }
    for (int i = 0; i < n; i++) {
        std::vector<size_t> next(n, 0); CHECK(!fs[i]->c->eof && fs[i]->r.g.closes.empty(), "connection-lost", "client %d was disconnected\n%s", i, sim_dump().c_str());
        for (auto &m : fs[i]->r.g.msgs) { int k = -1; size_t q = 0; char colon = 0; if (sscanf(m.data.c_str(), "%d.%zu%c", &k, &q, &colon) != 3 || k < 0 || k >= n || k == i) fail("unexpected-message", "client %d received %s", i, msg_text(m).c_str()); if (q != next[k] || q >= sent[k].size() || !(m == sent[k][q])) fail("message-corrupted", "client %d received %s as message %zu of client %d", i, msg_text(m).c_str(), next[k], k); next[k]++; }
        for (int k = 0; k < n; k++) if (k != i) CHECK(next[k] == sent[k].size(), "message-lost", "client %d received %zu of the %zu messages of client %d", i, next[k], sent[k].size(), k);
        if (!fs[i]->p.on) for (char b : fs[i]->r.rsv1) CHECK(!b, "compressed-though-declined", "a compressed message was sent on a connection without the extension");
    }
    c.note("%d compressed messages ", comp); if (comp >= 2) c.nontrivial(); end_world(c, w, c.below(8) == 7);
}
static AddProp p_x02b({"X02.broadcast", x02b, true, 1500, "at least two compressed messages", 60, world_warm});
// ---------------------------------------------------------------- X03
static void x03(Case &c) {
    Conf cf = gen_conf(c); cf.buffer = c.pick<int>({32768, 512, 64}); cf.frame = 1048576; cf.exts.push_back({"permessage-deflate", gen_config(c)}); World w(cf); w.start(c); bool leak = c.below(3) == 0; if (leak) w.baseline(); Limits L{(uint64_t)cf.frame, (uint64_t)cf.fragmented};
    Flow good; Resp rs; bool by = c.coin(); if (by) { good.c = open_ws(w, "10.0.0.9", "echo", gen_params(c, true), 0, false, &rs); good.p = accepted(rs); good.bind(); }
    int n = 1 + c.below(3), bad = 0;
    for (int i = 0; i < n; i++) {
        Flow f; f.c = open_ws(w, fmt("10.0.0.%d", i + 1), "echo", gen_params(c, false), 0, false, &rs); f.p = accepted(rs); CHECK(f.p.on, "valid-offer-declined", "%s", rs.get("Sec-WebSocket-Extensions").c_str()); f.bind();
        Inflate ref; ref.window = 1u << f.p.cmwb; int pre = c.below(3); Str dummy;
        auto feed_ref = [&](const Str &payload, Str &out) { return ref.message(payload, out); };
        while (pre--) { int op = 1 + c.below(2); Str d = body(c, op, 600, f.hist); RefFrame pl; pl.op = op; pl.payload = d; pl.masked = true; f.plain.push_back(pl); Str z = f.def.message(c, d), o; if (!feed_ref(z, o) || o != d) abort(); RefFrame g = mkframe(c, op, z); g.rsv1 = true; f.c->send(enc_frame(g)); remember(f.hist, d); }
        // the damaged message
        int op = 1 + c.below(2), kind = c.below(9); static const char *kn[] = {"random", "truncated", "bit-flips", "zeroed-byte", "trailing-data", "cut-and-joined", "long-distance", "crafted", "reserved-bits"}; Str d = body(c, op, c.below(3) ? 200 : 4000, f.hist), z = f.def.message(c, d);
        switch (kind) {
        case 0: { Rng r(c.seed()); z.clear(); size_t l = c.below(60); while (z.size() < l) z += (char)r.next(); break; }
        case 1: z.resize(c.below(z.size() + 1)); break;
        case 2: { int k = 1 + c.below(3); while (k-- && !z.empty()) z[c.below(z.size())] ^= 1 << c.below(8); break; }
        case 3: if (!z.empty()) z[c.below(z.size())] = c.coin() ? 0 : (char)0xff; break;
        case 4: { Rng r(c.seed()); int k = 1 + c.below(6); while (k--) z += (char)r.next(); break; }
        case 5: z = z.substr(0, c.below(z.size() + 1)) + z.substr(c.below(z.size() + 1)); break;
        case 6: { size_t back = 1 + c.below(c.coin() ? 300 : 32768); // a stored block, then a match that reaches before it
                uint64_t acc = 0; int nb = 0; z.clear(); auto put = [&](unsigned v, int k) { acc |= (uint64_t)v << nb; nb += k; while (nb >= 8) { z += (char)acc; acc >>= 8; nb -= 8; } }; auto huf = [&](unsigned v, int k) { while (k--) put(v >> k & 1, 1); };
                put(0, 1); put(1, 2); huf(0x30 + 'x', 8); static const uint16_t db[30] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577}; static const uint8_t de[30] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
                int k = 29; while (db[k] > back) k--; huf(1, 7); huf(k, 5); put(back - db[k], de[k]); huf(0, 7); put(0, 3); if (nb) put(0, 8 - nb); break; }
        case 7: { // headers of dynamic blocks with arbitrary code lengths
                uint64_t acc = 0; int nb = 0; z.clear(); auto put = [&](unsigned v, int k) { acc |= (uint64_t)v << nb; nb += k; while (nb >= 8) { z += (char)acc; acc >>= 8; nb -= 8; } }; put(c.below(2), 1); put(c.below(4), 2); Rng r(c.seed()); int k = c.below(400); put(c.below(32), 5); put(c.below(32), 5); put(c.below(16), 4); while (k--) put(r.below(8), 3); if (nb) put(0, 8 - nb); break; }
        default: break;
        }
        std::vector<RefFrame> v; int k = c.below(3) ? 1 : 1 + c.below(4); std::vector<size_t> cuts; for (int j = 1; j < k; j++) cuts.push_back(c.below(z.size() + 1)); std::sort(cuts.begin(), cuts.end()); cuts.push_back(z.size()); size_t a = 0; for (int j = 0; j < k; j++) { RefFrame g = mkframe(c, j ? 0 : op, z.substr(a, cuts[j] - a), j == k - 1); g.rsv1 = j == 0; v.push_back(g); a = cuts[j]; }
        bool rsv = false; if (kind == 8) { rsv = true; switch (c.below(4)) { case 0: { RefFrame g = mkframe(c, 9 + c.below(2), "hey"); g.rsv1 = true; v.insert(v.begin() + c.below(v.size()), g); break; } case 1: v[0].rsv2 = true; break; case 2: v[0].rsv3 = true; break; default: if (v.size() == 1) { v[0].fin = false; RefFrame g = mkframe(c, 0, ""); v.push_back(g); } v.back().rsv1 = true; } }
        Str out; size_t h0 = ref.hist.size(); (void)h0; bool ok = !rsv && feed_ref(z, out), unsure = ref.loose || ref.beyond; c.note("%s%s ", kn[kind], ok ? "(valid)" : ""); label(kn[kind]); bool lossless = ok;
        send_cut(c, w, f.c, wire(v)); w.settle(); for (int t = 0; t < 10; t++) { if (!f.r.feed(*f.c)) fail("malformed-output", "%s", f.r.g.error.c_str()); if (f.c->eof) break; if (ok && f.r.g.msgs.size() > f.plain.size()) break; w.settle_ms(20); }
        if (!f.r.feed(*f.c)) fail("malformed-output", "%s", f.r.g.error.c_str());
        std::vector<RefFrame> want = f.plain; RefFrame m; m.op = op; m.payload = out; m.masked = true;
        bool text_bad = ok && op == 1 && !ref_utf8((const uint8_t *)out.data(), out.size());
        size_t before = f.plain.size(); CHECK(f.r.g.msgs.size() >= before, "message-lost", "%zu of %zu earlier messages were echoed\n%s", f.r.g.msgs.size(), before, sim_dump().c_str());
        for (size_t j = 0; j < before; j++) CHECK(f.r.g.msgs[j].op == f.plain[j].op && f.r.g.msgs[j].data == f.plain[j].payload, "message-corrupted", "earlier message %zu", j);
        bool delivered = f.r.g.msgs.size() > before;
        if (delivered) { if (unsure) { label("unsure"); } else { CHECK(ok && !text_bad, "invalid-delivered", "a message that is not valid (%s: %s) was delivered as %s\npayload %s", kn[kind], text_bad ? "not UTF-8" : rsv ? "reserved bits" : ref.err.c_str(), msg_text(f.r.g.msgs[before]).c_str(), hexs(z.data(), z.size(), 80).c_str()); CHECK(f.r.g.msgs[before].data == out && f.r.g.msgs[before].op == op, "message-corrupted", "%s message of %zu bytes was delivered as %s", kn[kind], out.size(), msg_text(f.r.g.msgs[before]).c_str()); } }
        else { if (lossless && !text_bad && !unsure) fail("valid-message-refused", "a valid message (%s) of %zu bytes was not delivered, %zu close frames %s\npayload %s\n%s", kn[kind], out.size(), f.r.g.closes.size(), f.r.g.closes.empty() ? "" : hexs(f.r.g.closes[0].data(), f.r.g.closes[0].size()).c_str(), hexs(z.data(), z.size(), 80).c_str(), sim_dump().c_str());
            bad++; CHECK(f.r.g.closes.size() == 1 && f.r.g.closes[0].size() >= 2, "no-close-frame", "%s message: %zu close frames, connection %s", kn[kind], f.r.g.closes.size(), f.c->eof ? "closed" : "open"); int code = (uint8_t)f.r.g.closes[0][0] << 8 | (uint8_t)f.r.g.closes[0][1];
            CHECK(code == 1002 || code == 1003 || code == 1007 || code == 1008 || code == 1011, "close-code", "%s message: closed with code %d", kn[kind], code); if (text_bad) CHECK(code == 1007, "close-code", "text that is not UTF-8: closed with code %d", code); if (rsv) CHECK(code == 1002, "close-code", "reserved bits: closed with code %d", code); CHECK(f.c->eof, "not-disconnected", "%s message: still connected after the close frame", kn[kind]); label("refused"); }
        if (c.coin()) f.c->close();
        if (by) { int o2 = 1 + c.below(2); send_cut(c, w, good.c, pmd_message(c, good, o2, body(c, o2, 400, good.hist), good.p.on)); expect_echo(w, good.c, good.r, model(good.plain, L)); }
    }
    if (bad) c.nontrivial(); if (leak) w.check_released(); end_world(c, w, c.below(8) == 7);
}
static AddProp p_x03({"X03", x03, true, 1500, "at least one message was refused", 60, world_warm});
