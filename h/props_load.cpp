// S03: which of the listed plug-ins are usable. Copies of generic plug-ins (load_sub.inc, load_ext.inc), complete or
// lacking something, are listed under generated names together with files that are no plug-ins at all.
#include "gen.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <memory>
#include <set>
#include <stdarg.h>
#include <sys/stat.h>
#include <unistd.h>
#include "subprotocol.h"

typedef void (*ld_send_t)(int, int, char *, uint64_t);
struct Ent {
    bool ext = false, usable = false, own = false, py = false, has = false; Str path, name, what, config; const void *who = nullptr;
    int pyinit = 0, alloc = 0, init = 0, destroy = 0, use = 0, open = 0, close = 0, conn = 0, hooks[4] = {0, 0, 0, 0}; bool alloc_ok = false; ld_send_t send = nullptr;
};
static std::vector<std::unique_ptr<Ent>> es; static Str bad_sig, bad_msg; static bool bad;
static void terr(const char *sig, const char *f, ...) { if (bad) return; bad = true; char b[900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); bad_sig = sig; bad_msg = b; }
static void tcheck() { sim_check(); if (bad) fail(bad_sig.c_str(), "%s", bad_msg.c_str()); }
static Ent *find(const void *who, const char *what) {
    for (auto &e : es) if (e->who == who) return e.get();
    Dl_info i; if (!dladdr(who, &i) || !i.dli_fname) { terr("unknown-plugin", "%s of an unknown plug-in was called", what); return nullptr; }
    for (auto &e : es) if (e->path == i.dli_fname) { e->who = who; return e.get(); }
    terr("unknown-plugin", "%s of %s was called, which is not listed", what, i.dli_fname); return nullptr;
}
static Str ent(const Ent &e) { return fmt("%s %s (%s)", e.ext ? "extension" : "subprotocol", e.path.c_str(), e.what.c_str()); }
extern "C" void ld_call(const void *who, const char *what, const char *config, const void *a, const void *b, const void *d) {
    Ent *e = find(who, what); if (!e) return; Str w = what;
    if (!e->usable) return terr("unusable-called", "%s of %s was called", what, ent(*e).c_str());
    if (e->destroy) return terr("plugin-life", "%s of %s was called after it was destroyed", what, ent(*e).c_str());
    if (w == "pyinit") { if (!e->py) return terr("python-start", "the Python start function of %s was called", ent(*e).c_str()); e->pyinit++; if (e->init) terr("plugin-life", "%s: started after it was initialised", ent(*e).c_str()); return; }
    if (w == "alloc") { e->alloc++; e->alloc_ok = a && b && d; if (e->init) terr("plugin-life", "%s: allocators given after the initialisation", ent(*e).c_str()); return; }
    if (w == "init") { e->init++; if (e->alloc != 1 || !e->alloc_ok) terr("plugin-life", "%s: initialised with allocators given %d times", ent(*e).c_str(), e->alloc); if (!e->ext && !(e->send = (ld_send_t)a)) terr("plugin-life", "%s was given no function to send", ent(*e).c_str());
        if (e->has ? !config || e->config != config : config != nullptr) terr("plugin-config", "%s was configured with %s instead of %s", ent(*e).c_str(), config ? quote(config).c_str() : "nothing", e->has ? quote(e->config).c_str() : "nothing"); return; }
    if (e->init != 1) return terr("plugin-life", "%s of %s was called after %d initialisations", what, ent(*e).c_str(), e->init);
    if (w == "destroy") { e->destroy++; return; }
    e->use++; if (w == "connect") e->conn++; else if (w == "open") e->open++; else if (w == "close") e->close++; else if (w == "inframe") e->hooks[0]++; else if (w == "inframes") e->hooks[1]++; else if (w == "outframe") e->hooks[2]++; else if (w == "outframes") e->hooks[3]++;
}
extern "C" void ld_message(const void *who, int fd, int op, char *m, size_t len) {
    ld_call(who, "message", nullptr, nullptr, nullptr, nullptr); if (bad) return; Ent *e = find(who, "message"); if (!e || !e->send) return; Str r = e->name + "|" + Str(m, len); e->send(fd, op, &r[0], r.size());
}
struct Dir { Str p; ~Dir() { std::error_code x; if (!p.empty()) std::filesystem::remove_all(p, x); } };
static Str gen_name(Case &c, std::set<Str> &used) {
    static const Str al = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_+"; Str n;
    if (c.below(4) == 3) n = c.pick<const char *>({"echo", "broadcast", "permessage-deflate"}); else { Rng r(c.seed()); size_t l = 1 + c.below(c.coin() ? 3 : 24); while (n.size() < l) n += al[r.below(al.size())]; }
    while (used.count(n)) n += al[n.size() % 26]; used.insert(n); return n;
}
static void s03(Case &c) {
    es.clear(); bad = false; Conf cf = gen_conf(c); cf.t_client = -1; if (cf.buffer < 16) cf.buffer = 16; cf.ring = 256; cf.frame = 1048576; cf.exts.clear(); cf.listed = true;
    char cwd[200]; if (!getcwd(cwd, sizeof cwd)) abort(); Dir dir; dir.p = fmt("%s/ld%d", cwd, getpid()); std::filesystem::create_directories(dir.p + "/d.1"); std::filesystem::create_directories(dir.p + "/e");
    static const std::vector<Str> sf = {"setAllocators", "onInit", "onConnect", "onMessage", "onWrite", "onClose", "onDestroy"}, xf = {"setAllocators", "onInit", "onOpen", "inFrame", "inFrames", "outFrame", "outFrames", "onClose", "onDestroy"};
    int nu = 0, nn = 0;
    for (int x = 0; x < 2; x++) {
        std::set<Str> used; Str list = "["; int n = c.pick<int>({3, 0, 1, 2, 4, 5, 3, 4});
        for (int i = 0; i < n; i++) {
            es.push_back(std::make_unique<Ent>()); Ent &e = *es.back(); e.ext = x; const char *k = x ? "ext" : "sub"; Str from;
            int kind = c.pick<int>({0, 0, 1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1});
            if (kind == 7) { e.name = Str("py") + k; if (used.count(e.name)) { kind = 0; e.name = gen_name(c, used); } else used.insert(e.name); } else e.name = gen_name(c, used);
            e.path = dir.p + (x ? "/e/" : "/d.1/") + e.name + c.pick<const char *>({".so", ".so", "", ".so.1", ".x.so"});
            switch (kind) {
            case 0: from = fmt("load_%s_all", k); e.what = "complete"; e.usable = e.own = true; break;
            case 1: { Str f = c.pickv(x ? xf : sf); from = fmt("load_%s_%s", k, f.c_str()); e.what = "lacks " + f; break; }
            case 2: e.what = "missing"; break;
            case 3: e.what = "text"; { std::ofstream o(e.path); o << "not a shared object\n"; } break;
            case 4: e.what = "directory"; mkdir(e.path.c_str(), 0700); break;
            case 5: e.what = "empty"; { std::ofstream o(e.path); } break;
            case 6: e.what = "unresolved"; from = fmt("load_%s_unresolved", k); break;
            case 7: e.what = "python"; from = fmt("load_%s_py", k); e.usable = e.own = e.py = true; break;
            case 8: e.what = "of the other kind"; from = x ? "load_sub_all" : "load_ext_all"; break;
            case 9: if (x) { e.what = "echo as extension"; from = "echo"; } else { e.what = c.coin() ? "echo" : "broadcast"; from = e.what; e.usable = true; } break;
            }
            if (!from.empty()) { std::error_code er; std::filesystem::copy_file(plugin(from), e.path, er); if (er) abort(); bool hurt = false; if (kind != 6 && c.below(6) == 5) { int fd = open(e.path.c_str(), O_RDWR); if (fd >= 0) { if (c.coin()) { if (ftruncate(fd, 1 + c.below(60))) {} e.what += ", cut short"; } else { if (pwrite(fd, "\x7f" "EVIL", 5, 0) < 0) {} e.what += ", damaged"; } close(fd); hurt = true; e.usable = e.own = e.py = false; } } if (kind == 9 && !hurt) dlopen(e.path.c_str(), RTLD_NOW); }
            e.has = c.coin(); if (e.has) { Rng r(c.seed()); size_t l = c.below(60); while (e.config.size() < l) e.config += (char)(32 + r.below(95)); }
            Str fj = "\"file\":" + json_str(e.path), cj = "\"config\":" + json_str(e.config); list += Str(i ? "," : "") + "{" + (!e.has ? fj : c.coin() ? fj + "," + cj : cj + "," + fj) + "}";
            c.note("%s ", ent(e).substr(0, 12).c_str()); c.note("%s=%s%s ", e.name.c_str(), e.what.c_str(), e.has ? "+config" : ""); (e.usable ? nu : nn)++; label(e.what.c_str());
        }
        (x ? cf.ext_list : cf.sub_list) = list + "]";
    }
    World w(cf); w.start(c); tcheck();
    auto started = [&](const char *when) { for (auto &e : es) if (e->own) { CHECK(e->alloc == 1 && e->init == 1, "not-loaded", "%s: %s was initialised %d times, with allocators given %d times", when, ent(*e).c_str(), e->init, e->alloc); CHECK(e->pyinit == (e->py ? 1 : 0), "python-start", "the Python start function of %s was called %d times", ent(*e).c_str(), e->pyinit); } };
    started("after the start"); for (auto &e : es) CHECK(!e->destroy, "plugin-life", "%s is destroyed after the start", ent(*e).c_str());
    auto usable = [&](bool x, const Str &n) -> Ent * { for (auto &e : es) if (e->ext == x && e->usable && e->name == n) return e.get(); return nullptr; };
    int N = 1 + c.below(5), up = 0, refused = 0;
    struct Cl { Client *c; Ent *p; std::vector<Ent *> x; }; std::vector<Cl> cl;
    for (int i = 0; i < N; i++) {
        Str offer[2]; Ent *p = nullptr; std::vector<Ent *> acc; bool offered = false;
        for (int x = 0; x < 2; x++) { int n = c.pick<int>({1, 0, 2, 3, 4}); for (int j = 0; j < n; j++) {
            Str nm; std::vector<Ent *> own; for (auto &e : es) if (e->ext == x || c.below(8) == 7) own.push_back(e.get()); int how = c.below(8);
            if (own.empty() || how == 7) nm = c.pick<const char *>({"echo", "none", "broadcast", "x"}); else { Ent *e = own[c.below(own.size())]; nm = e->name; if (how == 6) nm = c.coin() ? nm + "x" : nm.size() > 1 ? nm.substr(0, nm.size() - 1) : nm; else if (how == 5) nm = e->path.substr(e->path.rfind('/') + 1); }
            offer[x] += (offer[x].empty() ? "" : c.coin() ? ", " : ",") + nm; Ent *u = usable(x, nm); if (!u) continue; if (!x) { if (!p) p = u, offered = true; } else if (std::find(acc.begin(), acc.end(), u) == acc.end()) acc.push_back(u);
        } }
        Ent *asked = p; if (!p) p = usable(false, "echo");
        Client *k = w.connect(fmt("10.0.%d.%d", i, 1 + (int)c.below(250))); Rng r(i + 31); Str key; for (int j = 0; j < 16; j++) key += (char)r.next(); Req q = Req::valid(ref_b64(key), offer[0], offer[1]); q.uri = "/ld";
        int c0 = p ? p->conn : 0; std::vector<int> o0; for (auto &e : es) o0.push_back(e->open); k->send(q.text()); w.settle(); tcheck(); Str h; bool got = k->head(h); for (int t = 0; !got && t < w.patience(); t++) { w.settle_ms(100); tcheck(); got = k->head(h); }
        Str said = fmt("offered the subprotocols %s and extensions %s", quote(offer[0]).c_str(), quote(offer[1]).c_str()); CHECK(got, "no-response", "a client that %s got no response; %s\n%s", said.c_str(), k->eof ? "connection closed" : "connection open", sim_dump().c_str());
        Resp rs; CHECK(parse_resp(h, rs), "malformed-output", "a client that %s was answered %s", said.c_str(), quote(h).c_str());
        if (!p) { CHECK(rs.status >= 400 && rs.status < 600, "accepted", "a client that %s was answered %s although no subprotocol is available", said.c_str(), quote(h).c_str()); refused++; label("no-subprotocol"); continue; }
        CHECK(rs.status == 101, "handshake-refused", "a client that %s was answered %s", said.c_str(), quote(h).c_str());
        CHECK(rs.get("Sec-WebSocket-Protocol") == (asked ? asked->name : ""), "wrong-answer", "a client that %s was answered the subprotocol %s", said.c_str(), quote(rs.get("Sec-WebSocket-Protocol")).c_str());
        Str want, ans; for (auto *e : acc) want += (want.empty() ? "" : ",") + e->name; for (char ch : rs.get("Sec-WebSocket-Extensions")) if (ch != ' ') ans += ch; CHECK(ans == want, "wrong-answer", "a client that %s was answered the extensions %s instead of %s", said.c_str(), quote(ans).c_str(), quote(want).c_str());
        if (p->own) CHECK(p->conn == c0 + 1, "not-connected", "%s was notified of %d clients instead of one", ent(*p).c_str(), p->conn - c0);
        for (size_t j = 0; j < es.size(); j++) CHECK(es[j]->open - o0[j] == (std::find(acc.begin(), acc.end(), es[j].get()) != acc.end() ? 1 : 0), "not-opened", "%s was opened %d times for a client that %s", ent(*es[j]).c_str(), es[j]->open - o0[j], said.c_str());
        up++; cl.push_back(Cl{k, p, acc}); (void)offered;
    }
    for (auto &k : cl) {
        if (k.p->what == "broadcast") continue; int n = 1 + c.below(3);
        for (int i = 0; i < n; i++) {
            Str m = fmt("m%d", i) + gen_utf8(c, c.below(40)); int h0[64][4] = {}; for (size_t j = 0; j < es.size(); j++) memcpy(h0[j], es[j]->hooks, sizeof es[j]->hooks); k.c->send(enc_frame(mkframe(c, 1, m))); w.settle(); tcheck(); RefFrame f; bool got = k.c->frame(f); for (int t = 0; !got && t < w.patience(); t++) { w.settle_ms(100); tcheck(); got = k.c->frame(f); }
            CHECK(got, "message-lost", "a message to %s was not answered\n%s", ent(*k.p).c_str(), sim_dump().c_str()); Str want = k.p->own ? k.p->name + "|" + m : m; CHECK(f.op == 1 && f.fin && f.payload == want && !f.rsv1 && !f.rsv2 && !f.rsv3, "wrong-subprotocol", "a message to %s was answered %s", ent(*k.p).c_str(), quote(f.payload).c_str());
            for (size_t j = 0; j < es.size(); j++) { Ent &e = *es[j]; bool in = std::find(k.x.begin(), k.x.end(), &e) != k.x.end(); for (int q = 0; q < 4; q++) CHECK(e.hooks[q] - h0[j][q] == (in ? 1 : 0), "hook-calls", "hook %d of %s, %s by this client, was called %d times for one message", q, ent(e).c_str(), in ? "used" : "not used", e.hooks[q] - h0[j][q]); }
        }
    }
    if (c.coin()) { for (auto &k : cl) if (c.coin()) { k.c->close(); } w.settle_ms(50); tcheck(); }
    if (!w.stop(5000)) fail("shutdown-hangs", "main() does not return after SIGINT\n%s", sim_dump().c_str());
    tcheck(); CHECK(w.exit_code == 0, "exit-code", "main() returned %d", w.exit_code); started("after the end");
    for (auto &e : es) { if (e->own) CHECK(e->destroy == 1, "plugin-life", "%s was destroyed %d times", ent(*e).c_str(), e->destroy); if (e->ext) CHECK(e->open == e->close, "close-hooks", "%s was opened %d times and closed %d times", ent(*e).c_str(), e->open, e->close); else if (e->own) CHECK(e->conn == e->close, "close-hooks", "%s was notified of %d connections and %d ends", ent(*e).c_str(), e->conn, e->close); }
    c.note("%d usable, %d not, %d connections, %d refused", nu, nn, up, refused); c.key(fmt("%d.%d.%d.%d.%d", nu, nn, up, refused, (int)c.pos)); if (nu && nn && up) c.nontrivial();
}
static AddProp p_s03({"S03", s03, true, 900, "usable and unusable plug-ins listed together, and a connection", 60, world_warm});
