// S01 and S02: plug-ins inside live connections. The plug-ins reca, recb (subprotocols) and exta, extb
// (extensions) forward every call to the functions below, which act as scripted and check what they see.
#include "gen.h"
#include <deque>
#include <map>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdlib.h>
#include "extension.h"

struct Send { int target, op; Str data; };
struct Neg { int which, key, mode; };                   // a negotiated extension
struct Call { int which; char kind; };                  // F: frame hook, M: message hook
struct Conn {
    int id = 0; Client *c = nullptr; Str uri, cookie; bool has_cookie = false; int proto = 0; bool refused = false, echo_asked = false;
    std::vector<Msg> sent; std::vector<size_t> nframes; std::deque<std::vector<Send>> script; std::vector<Send> greet, bye; std::vector<Neg> exts;
    int fd = -1, connected = 0, closed = 0; std::vector<Msg> got; int inside = 0;
    std::map<int, std::vector<Msg>> due; std::map<int, size_t> next;      // by sender
    std::vector<Call> calls[2]; int opens[2] = {0, 0}, accepts[2] = {0, 0}, closes[2] = {0, 0};
    size_t n[2][2] = {{0, 0}, {0, 0}}, m[2][2] = {{0, 0}, {0, 0}};        // the client's counters: direction, extension
    bool stable = true, up = false, gone = false, ending = false; int end = 0; Str todo, close_payload, close_seen; bool saw_close = false;
    std::vector<RefFrame> cur; std::vector<Call> want_out; size_t received = 0;
};
struct Live { int conn; int key, mode; size_t n[2] = {0, 0}, m[2] = {0, 0}; int inside[2] = {0, 0}; };
static std::vector<std::unique_ptr<Conn>> cs; static std::map<int, Conn *> byfd; static pthread_rwlock_t tab; static std::map<std::pair<int, int>, Live> live;
static Str bad_sig, bad_msg; static bool bad; static int yields;
static void terr(const char *sig, const char *f, ...) { if (bad) return; bad = true; char b[900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); bad_sig = sig; bad_msg = b; }
static void tcheck() { sim_check(); if (bad) fail(bad_sig.c_str(), "%s", bad_msg.c_str()); }
static void pause() { for (int i = 0; i < yields; i++) sched_yield(); }
typedef void *(*malloc_t)(size_t); typedef void *(*realloc_t)(void *, size_t); typedef void (*free_t)(void *); typedef void (*send_t)(int, int, char *, uint64_t);
struct Plug { int allocs = 0, inits = 0, destroys = 0; Str config; bool has_config = false; malloc_t m; realloc_t r; free_t f; send_t send; };
static Plug subp[2], extp[2];
static const char *subname[] = {"reca", "recb"}, *extname[] = {"exta", "extb"};
static void do_send(int sender, const Send &s) {        // the table is locked
    Conn &t = *cs[s.target]; if (t.fd < 0) return; if (s.op < 8) t.due[sender].push_back(Msg{s.op, s.data});
    Str copy = s.data; subp[0].send(t.fd, s.op, &copy[0], copy.size()); if (copy != s.data) terr("send-changed", "sending changed the caller's message");
}
static void do_sends(int sender, const std::vector<Send> &v) { if (v.empty()) return; pthread_rwlock_rdlock(&tab); for (auto &s : v) { do_send(sender, s); } pthread_rwlock_unlock(&tab); }
// ---- subprotocols
static bool alive(Plug &p, const char *n, const char *what) { if (p.inits != 1 || p.destroys) { terr("plugin-life", "%s: %s called with %d initialisations and %d destructions", n, what, p.inits, p.destroys); return false; } return true; }
extern "C" void rec_alloc(int id, malloc_t m, realloc_t r, free_t f) { Plug &p = subp[id]; p.allocs++; p.m = m; p.r = r; p.f = f; if (p.inits) terr("plugin-life", "%s: allocators given after initialisation", subname[id]); }
extern "C" void rec_init(int id, char *config, send_t s) { Plug &p = subp[id]; p.inits++; p.send = s; p.has_config = config; p.config = config ? config : ""; if (p.allocs != 1) terr("plugin-life", "%s: initialised with allocators given %d times", subname[id], p.allocs); }
extern "C" void rec_destroy(int id) { Plug &p = subp[id]; p.destroys++; if (p.inits != 1) terr("plugin-life", "%s destroyed after %d initialisations", subname[id], p.inits); }
extern "C" void rec_connect(int id, int fd, char *ip, int port, char *path, char *cookies) {
    if (!alive(subp[id], subname[id], "onConnect")) return; Conn *c = nullptr; for (auto &x : cs) if (x->c && ip && x->c->ip == ip && x->c->port == port) c = x.get();
    if (!c) return terr("unknown-peer", "notified of a connection of %s:%d, which does not exist", ip ? ip : "(null)", port);
    if (c->refused) return terr("refused-connected", "notified of client %d, whose request is refused", c->id);
    if (++c->connected > 1) return terr("connected-twice", "notified of client %d %d times", c->id, c->connected); if (c->proto != id) return terr("wrong-subprotocol", "client %d asked for %s, but %s was notified", c->id, c->proto < 2 ? subname[c->proto] : "another", subname[id]);
    if (byfd.count(fd)) return terr("descriptor-reused", "client %d has the descriptor of client %d, whose end was not notified", c->id, byfd[fd]->id);
    if (!path || c->uri != path) return terr("wrong-path", "client %d requested %s, the subprotocol was told %s", c->id, quote(c->uri).c_str(), path ? quote(path).c_str() : "nothing");
    if (c->has_cookie ? !cookies || c->cookie != cookies : cookies != nullptr) return terr("wrong-cookies", "client %d sent %s, the subprotocol was told %s", c->id, c->has_cookie ? quote(c->cookie).c_str() : "no cookies", cookies ? quote(cookies).c_str() : "nothing");
    c->inside++; pause(); pthread_rwlock_wrlock(&tab); byfd[fd] = c; c->fd = fd; pthread_rwlock_unlock(&tab); do_sends(c->id, c->greet); pause(); c->inside--;
}
extern "C" void rec_message(int id, int fd, int op, char *m, size_t len) {
    if (!alive(subp[id], subname[id], "onMessage")) return; auto it = byfd.find(fd); if (it == byfd.end()) return terr("message-unconnected", "%s was given a message of %zu bytes for descriptor %d, which is not connected", subname[id], len, fd);
    Conn *c = it->second; if (c->proto != id) return terr("wrong-subprotocol", "a message of client %d, which uses %s, was given to %s", c->id, subname[c->proto], subname[id]); if (c->inside++) return terr("overlapping-calls", "a message of client %d was given while another call for it is running", c->id);
    size_t i = c->got.size(); Msg x{op, Str(m, len)}; c->got.push_back(x); if (i >= c->sent.size()) return terr("extra-message", "client %d sent %zu messages, the subprotocol was given another: %s", c->id, c->sent.size(), msg_text(x).c_str());
    if (!(x == c->sent[i])) return terr("wrong-message", "message %zu of client %d is %s, the subprotocol was given %s", i, c->id, msg_text(c->sent[i]).c_str(), msg_text(x).c_str());
    pause(); if (i < c->script.size()) do_sends(c->id, c->script[i]); if (memcmp(m, x.data.data(), len)) terr("message-changed", "a message changed while the subprotocol was using it"); c->inside--;
}
extern "C" void rec_close(int id, int fd) {
    if (!alive(subp[id], subname[id], "onClose")) return; auto it = byfd.find(fd); if (it == byfd.end()) return terr("close-unconnected", "%s was told of the end of descriptor %d, which is not connected", subname[id], fd);
    Conn *c = it->second; if (c->proto != id) return terr("wrong-subprotocol", "%s was told of the end of client %d, which uses %s", subname[id], c->id, subname[c->proto]); if (c->inside++) return terr("overlapping-calls", "the end of client %d was notified while another call for it is running", c->id);
    if (++c->closed > 1) return terr("closed-twice", "the end of client %d was notified twice", c->id); pause(); pthread_rwlock_wrlock(&tab); byfd.erase(fd); c->fd = -1; pthread_rwlock_unlock(&tab); do_sends(c->id, c->bye); c->inside--;
}
// ---- extensions. exta appends a byte to each message and encrypts frames, extb puts a tag before the payload of each frame.
static uint8_t mix(int key, size_t a, size_t b) { uint64_t x = (uint64_t)key * 0x9E3779B97F4A7C15ull + a * 0xD6E8FEB86659FD93ull + b * 0x94D049BB133111EBull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return (uint8_t)(x >> 40); }
static Str tag(int key, int dir, size_t n) { Str s; for (int i = 0; i < 3; i++) s += (char)mix(key + 1000 * dir, n, i); return s; }
static int pnum(const Str &p, const char *k) { size_t i = p.find(k); return i == Str::npos ? -1 : atoi(p.c_str() + i + strlen(k)); }
extern "C" void ext_alloc(int w, malloc_t m, realloc_t r, free_t f) { Plug &p = extp[w]; p.allocs++; p.m = m; p.r = r; p.f = f; }
extern "C" void ext_init(int w, char *config) { Plug &p = extp[w]; p.inits++; p.has_config = config; p.config = config ? config : ""; if (p.allocs != 1) terr("plugin-life", "%s: initialised with allocators given %d times", extname[w], p.allocs); }
extern "C" void ext_destroy(int w) { Plug &p = extp[w]; p.destroys++; if (p.inits != 1) terr("plugin-life", "%s destroyed after %d initialisations", extname[w], p.inits); }
extern "C" void ext_open(int w, int fd, char *param, char **accepted, bool *valid) {
    if (!alive(extp[w], extname[w], "onOpen")) return; Str p = param ? param : ""; int id = pnum(p, "id="); if (id < 0 || id >= (int)cs.size()) return terr("wrong-parameters", "%s was given the parameters %s", extname[w], quote(p).c_str());
    Conn *c = cs[id].get(); c->opens[w]++; pause(); if (p.find("deny") != Str::npos) { if (p.find("say") != Str::npos) { *accepted = (char *)extp[w].m(8); strcpy(*accepted, "denied"); } return; }
    if (live.count({w, fd})) return terr("opened-twice", "%s was opened for client %d although it is in use there (client %d)", extname[w], id, live[{w, fd}].conn);
    *valid = true; int mode = pnum(p, "mode="), key = pnum(p, "key="); c->accepts[w]++; live[{w, fd}] = Live{id, key, mode}; if (mode != 2) { Str a = fmt("key=%d", key); *accepted = (char *)extp[w].m(a.size() + 1); strcpy(*accepted, a.c_str()); }
}
extern "C" void ext_close(int w, int fd) {
    if (!alive(extp[w], extname[w], "onClose")) return; auto it = live.find({w, fd}); if (it == live.end()) return terr("hook-unnegotiated", "%s was closed for descriptor %d, where it is not in use", extname[w], fd);
    if (it->second.inside[0] || it->second.inside[1]) return terr("overlapping-calls", "%s was closed while one of its hooks is running", extname[w]); cs[it->second.conn]->closes[w]++; live.erase(it);
}
static void resize(int w, wss_frame_t *f, size_t n) { char *p = (char *)extp[w].r(f->payload, n ? n : 1); if (!p) return terr("no-memory", "resizing a payload to %zu bytes failed", n); f->payload = p; f->payloadLength = n; f->applicationDataLength = n - f->extensionDataLength; }
static Live *enter(int w, int dir, int fd) {
    if (!alive(extp[w], extname[w], "a frame hook")) return nullptr; auto it = live.find({w, fd}); if (it == live.end()) { terr("hook-unnegotiated", "a hook of %s was called for descriptor %d, where it is not in use", extname[w], fd); return nullptr; }
    Live *l = &it->second; if (l->inside[dir]++) { terr("overlapping-calls", "a hook of %s was called for client %d while another one is running", extname[w], l->conn); return nullptr; } pause(); return l;
}
extern "C" void ext_frame(int w, int dir, int fd, wss_frame_t *f) {
    Live *l = enter(w, dir, fd); if (!l) return; Conn *c = cs[l->conn].get();
    if (f->opcode < 8) {
        c->calls[dir].push_back({w, 'F'}); size_t n = l->n[dir]++; if (f->payloadLength != f->extensionDataLength + f->applicationDataLength) terr("frame-lengths", "a frame of %llu bytes has %llu bytes of extension and %llu of application data", (unsigned long long)f->payloadLength, (unsigned long long)f->extensionDataLength, (unsigned long long)f->applicationDataLength);
        bool &rsv = w ? f->rsv3 : f->rsv2; if (dir == 0 && !rsv) terr("reserved-bit", "%s was given a frame of client %d without its reserved bit", extname[w], c->id); rsv = dir == 1;
        size_t from = dir ? 0 : f->extensionDataLength;
        if (w == 0) for (size_t i = from; i < f->payloadLength; i++) f->payload[i] ^= mix(l->key + 1000 * dir, n, i - from);
        else if (dir) { size_t old = f->payloadLength; if (l->mode == 1) f->extensionDataLength = 3; resize(w, f, old + 3); if (bad) return; memmove(f->payload + 3, f->payload, old); memcpy(f->payload, tag(l->key, 1, n).data(), 3); }
        else { Str t = tag(l->key, 0, n); if (f->payloadLength < 3 || memcmp(f->payload, t.data(), 3)) { terr("wrong-frame", "frame %zu of client %d does not carry its tag (%llu bytes)", n, c->id, (unsigned long long)f->payloadLength); return; }
            if (l->mode == 1) { f->extensionDataLength = 3; f->applicationDataLength -= 3; } else { memmove(f->payload, f->payload + 3, f->payloadLength - 3); f->payloadLength -= 3; f->applicationDataLength -= 3; } }
    }
    l->inside[dir]--;
}
extern "C" void ext_frames(int w, int dir, int fd, wss_frame_t **f, size_t len) {
    Live *l = enter(w, dir, fd); if (!l) return; Conn *c = cs[l->conn].get();
    if (!len || !f || !f[0]) return terr("no-frames", "a message hook was given %zu frames", len);
    if (f[0]->opcode < 8) {
        c->calls[dir].push_back({w, 'M'}); size_t m = l->m[dir]++; if (f[0]->opcode == 0) terr("frames", "the first frame of a message is a continuation"); for (size_t i = 0; i < len; i++) { if (i && f[i]->opcode) terr("frames", "frame %zu of a message is no continuation", i); if (f[i]->fin != (i + 1 == len)) terr("frames", "frame %zu of %zu has the final bit %d", i, len, f[i]->fin); }
        if (w == 0) { wss_frame_t *x = f[len - 1]; uint8_t t = mix(l->key + 1000 * dir, m, 77);
            if (dir) { resize(w, x, x->payloadLength + 1); if (bad) return; x->payload[x->payloadLength - 1] = (char)t; }
            else { if (!x->applicationDataLength || (uint8_t)x->payload[x->payloadLength - 1] != t) { terr("wrong-frames", "message %zu of client %d does not end with its mark", m, c->id); return; } x->payloadLength--; x->applicationDataLength--; } }
    }
    l->inside[dir]--;
}
// ---- the client's side: extensions are applied in the order of the response and undone in reverse
static void apply(Conn &k, std::vector<RefFrame> &v) {
    for (auto &x : k.exts) { int w = x.which;
        if (w == 0) { v.back().payload += (char)mix(x.key, k.m[0][0]++, 77); for (auto &f : v) { size_t n = k.n[0][0]++; for (size_t i = 0; i < f.payload.size(); i++) f.payload[i] ^= mix(x.key, n, i); f.rsv2 = true; } }
        else for (auto &f : v) { f.payload = tag(x.key, 0, k.n[0][1]++) + f.payload; f.rsv3 = true; } }
}
static Msg undo(Conn &k, std::vector<RefFrame> &v) {
    for (size_t j = k.exts.size(); j--;) { auto &x = k.exts[j]; int w = x.which;
        for (auto &f : v) { bool &rsv = w ? f.rsv3 : f.rsv2; if (!rsv) fail("hook-missed", "client %d received a frame that %s was not applied to", k.id, extname[w]); rsv = false; size_t n = k.n[1][w]++;
            if (w == 0) for (size_t i = 0; i < f.payload.size(); i++) f.payload[i] ^= mix(x.key + 1000, n, i);
            else { if (f.payload.substr(0, 3) != tag(x.key, 1, n)) fail("hook-wrong", "frame %zu received by client %d does not carry the tag of extb: %s", n, k.id, hexs(f.payload.data(), std::min<size_t>(f.payload.size(), 16)).c_str()); f.payload.erase(0, 3); } }
        if (w == 0) { size_t m = k.m[1][0]++; if (v.back().payload.empty() || (uint8_t)v.back().payload.back() != mix(x.key + 1000, m, 77)) fail("hook-wrong", "message %zu received by client %d does not end with the mark of exta", m, k.id); v.back().payload.pop_back(); } }
    Msg m{v[0].op, ""}; for (auto &f : v) { if (f.rsv1 || f.rsv2 || f.rsv3) fail("malformed-output", "client %d received a frame with reserved bits of extensions that were not negotiated", k.id); m.data += f.payload; }
    for (auto &x : k.exts) { k.want_out.push_back({x.which, 'M'}); for (size_t i = 0; i < v.size(); i++) k.want_out.push_back({x.which, 'F'}); }
    return m;
}
static void take(Conn &k) {
    RefFrame f; while (k.c->frame(f)) {
        if (f.masked) fail("malformed-output", "client %d received a masked frame", k.id);
        if (k.saw_close) fail("after-close", "client %d received a frame after a close frame", k.id);
        if (f.op == 8) { k.saw_close = true; k.close_seen = f.payload; continue; } if (f.op > 8) continue;
        if ((f.op == 0) != !k.cur.empty()) fail("malformed-output", "client %d received a frame of kind %d %s", k.id, f.op, k.cur.empty() ? "outside a message" : "within a message"); k.cur.push_back(f); if (!f.fin) continue;
        Msg m = undo(k, k.cur); k.cur.clear(); k.received++; int s = -1; size_t q = 0; char colon = 0;
        if (k.proto == 2) { size_t &n = k.next[k.id]; if (n >= k.sent.size() || !(m == k.sent[n])) fail("echo", "client %d of the echo subprotocol received %s", k.id, msg_text(m).c_str()); n++; continue; }
        if (sscanf(m.data.c_str(), "%d.%zu%c", &s, &q, &colon) != 3 || colon != ':') fail("unexpected-message", "client %d received %s, which nobody sent", k.id, msg_text(m).c_str());
        auto &d = k.due[s]; size_t &n = k.next[s]; if (n < d.size() && d[n] == m) { n++; continue; }
        for (size_t i = 0; i < d.size(); i++) if (d[i] == m) fail(i < n ? "duplicate" : "send-lost", "client %d received message %zu sent to it for client %d instead of number %zu", k.id, i, s, n);
        fail("unexpected-message", "client %d received %s, which was not sent to it", k.id, msg_text(m).c_str());
    }
}
static Msg gen_tagged(Case &c, int id, size_t &seq, size_t max) { Msg m; m.op = 1 + c.below(2); m.data = fmt("%d.%zu:", id, seq++); size_t l = gen_len(c, max, {0, 100, 119, 120, 121, 122}); m.data += m.op == 1 ? gen_utf8(c, l) : gen_payload(c, l); return m; }
static bool token(int ch) { return ch; }
static Str gen_line(Case &c, size_t max) { static const Str al = "abcXYZ0129=;,&?%/.-_~!$()*+:@'"; Rng r(c.seed()); Str s; size_t n = 1 + c.below(max); while (s.size() < n) s += al[r.below(al.size())]; return s; }
static void run(Case &c, bool ext) {
    cs.clear(); byfd.clear(); live.clear(); bad = false; for (int i = 0; i < 2; i++) subp[i] = extp[i] = Plug(); yields = c.below(3);
    Conf cf = gen_conf(c); cf.ring = 1024; cf.frame = c.pick<int>({1048576, 200, 1000, 4000}); cf.t_client = -1; if (cf.buffer < 16) cf.buffer = 16;
    Str conf[2], econf[2]; for (int i = 0; i < 2; i++) { conf[i] = c.coin() ? gen_line(c, 30) : ""; econf[i] = c.coin() ? gen_line(c, 30) : ""; }
    cf.subs = {{"echo", ""}, {"reca", conf[0]}, {"recb", conf[1]}}; for (int i = 2; i > 0; i--) std::swap(cf.subs[i], cf.subs[c.below(i + 1)]); if (ext) { cf.exts = {{"exta", econf[0]}, {"extb", econf[1]}}; if (c.coin()) std::swap(cf.exts[0], cf.exts[1]); }
    World w(cf); w.start(c); pthread_rwlock_init(&tab, nullptr); tcheck();
    int N = 1 + c.below(c.thorough ? 7 : 5); size_t maxlen = c.pick<size_t>({60, 300, 3000}), seqs[80] = {0}; size_t over = 8; int serial = 0, total = 0;
    auto in_limits = [&](size_t l) { return std::min<size_t>(l, cf.frame > 100 ? cf.frame - 40 : 60); }; size_t maxin = in_limits(maxlen);
    auto spawn = [&]() -> Conn & {
        cs.push_back(std::make_unique<Conn>()); Conn &k = *cs.back(); k.id = (int)cs.size() - 1; k.proto = c.pick<int>({0, 1, 0, 1, 2}); k.uri = "/" + (c.coin() ? gen_line(c, 40) : Str()); if ((k.has_cookie = c.coin())) k.cookie = gen_line(c, 60); k.refused = c.below(8) == 7; k.end = c.below(7); k.stable = k.end == 0 || k.end == 6;
        Str offer; std::vector<Neg> neg; if (ext) { int n = c.below(5); bool used[2] = {false, false}; std::vector<Str> items; while (n--) { int wh = c.below(2); bool deny = c.below(4) == 3; int key = c.below(900), mode = c.below(3); bool unk = c.below(6) == 5; if (unk) { items.push_back("x-unknown; id=99999"); continue; } items.push_back(fmt("%s; id=%d; key=%d; mode=%d%s", extname[wh], k.id, key, mode, deny ? c.coin() ? "; deny" : "; deny; say" : "")); if (!deny && !used[wh]) { used[wh] = true; neg.push_back({wh, key, mode}); } } for (auto &s : items) offer += (offer.empty() ? "" : c.coin() ? ", " : ",") + s; }
        k.exts = neg;
        if (k.proto < 2) { int g = c.below(4) == 3 ? 1 + c.below(3) : 0; while (g--) { Msg m = gen_tagged(c, k.id, seqs[k.id], maxlen); k.greet.push_back({k.id, m.op, m.data}); } if (cs.size() > 1 && c.below(4) == 3) { Msg m = gen_tagged(c, k.id, seqs[k.id], maxlen); int t = c.below(cs.size()); if (cs[t]->proto < 2) k.bye.push_back({t, m.op, m.data}); } }
        k.c = w.connect(fmt("10.%d.%d.%d", (int)c.below(256), k.id, 1 + (int)c.below(254)));
        Rng r(k.id + 5); Str key; for (int i = 0; i < 16; i++) key += (char)r.next(); k.echo_asked = c.coin(); Str protos = k.proto == 2 ? k.echo_asked ? "echo" : "" : subname[k.proto]; if (k.proto < 2 && c.coin()) protos = "x-none, " + protos;
        Req q = Req::valid(ref_b64(key), protos, offer); q.uri = k.uri; if (k.has_cookie) q.h.push_back({"Cookie", k.cookie}); for (size_t i = q.h.size(); i-- > 1;) std::swap(q.h[i], q.h[c.below(i + 1)]); if (k.refused) { for (auto &h : q.h) if (h.first == "Sec-WebSocket-Version") h.second = "12"; }
        k.c->send(q.text()); k.c->pump(); return k;
    };
    auto handshake = [&](Conn &k) {
        Str h; if (k.up || k.gone || !k.c->head(h)) return; Resp rs; CHECK(parse_resp(h, rs), "malformed-output", "client %d: %s", k.id, quote(h).c_str());
        if (k.refused) { CHECK(rs.status != 101, "accepted", "a request for an unknown subprotocol or version was accepted"); k.gone = true; return; }
        CHECK(rs.status == 101, "handshake-refused", "client %d: %s", k.id, quote(h).c_str()); Str want; for (auto &x : k.exts) want += Str(want.empty() ? "" : ", ") + extname[x.which] + (x.mode == 2 ? "" : fmt("; key=%d", x.key)); Str got, raw = rs.get("Sec-WebSocket-Extensions"); for (char ch : raw) if (ch != ' ') got += ch; Str w2; for (char ch : want) if (ch != ' ') w2 += ch;
        CHECK(got == w2, "wrong-answer", "client %d was answered the extensions %s instead of %s", k.id, quote(raw).c_str(), quote(want).c_str()); k.up = true;
        CHECK(rs.get("Sec-WebSocket-Protocol") == (k.proto < 2 ? subname[k.proto] : k.echo_asked ? "echo" : ""), "wrong-answer", "client %d was answered the subprotocol %s", k.id, quote(rs.get("Sec-WebSocket-Protocol")).c_str());
    };
    auto say = [&](Conn &k) {                           // one message and what the subprotocol does about it
        Msg m; std::vector<Send> v; if (k.proto < 2) { int n = c.pick<int>({1, 0, 2, 1, 3}); while (n--) { int t = c.coin() ? k.id : (int)c.below(cs.size()); if (cs[t]->proto == 2 || cs[t]->refused) t = k.id; Msg x = gen_tagged(c, k.id, seqs[k.id], maxlen); v.push_back({t, x.op, x.data}); } }
        m.op = 1 + c.below(2); size_t l = gen_len(c, maxin, {0, 100, 119, 120, 121, 122, 125, 126}); m.data = m.op == 1 ? gen_utf8(c, l) : gen_payload(c, l); std::vector<RefFrame> fr; int n = c.below(3) != 2 ? 1 : 1 + (int)c.below(5); std::vector<size_t> cuts; for (int i = 1; i < n; i++) cuts.push_back(c.below(m.data.size() + 1)); std::sort(cuts.begin(), cuts.end()); cuts.push_back(m.data.size());
        size_t a = 0; for (int i = 0; i < n; i++) { fr.push_back(mkframe(c, i ? 0 : m.op, m.data.substr(a, cuts[i] - a), i == n - 1)); a = cuts[i]; } apply(k, fr); std::vector<RefFrame> all; for (auto &f : fr) { if (c.below(6) == 5) add_control(c, all); all.push_back(f); }
        k.sent.push_back(m); k.nframes.push_back(n); k.script.push_back(v); k.todo += wire(all); total++;
    };
    auto push = [&](Conn &k, bool all) { if (k.todo.empty() || k.gone || k.c->fd < 0) return; size_t n = all ? k.todo.size() : 1 + c.below(k.todo.size()); k.c->send(k.todo.substr(0, n)); k.todo.erase(0, n); k.c->pump(); };
    auto breathe = [&] { switch (c.below(5)) { case 0: sim_quiet(); w.pump(); break; case 1: sim_steps(1 + c.below(60)); w.pump(); break; case 2: sim_steps(1 + c.below(900)); w.pump(); break; case 3: w.settle(); break; default: break; } tcheck(); for (auto &k : cs) { handshake(*k); if (k->up && !k->gone) take(*k); } };
    auto finish = [&](Conn &k) {                        // the way this client ends
        if (k.ending || !k.up || k.gone || k.stable) return; k.ending = true; if (k.end <= 4) push(k, true);
        switch (k.end) { case 1: k.close_payload = "\x03\xe8" + Str("done"); k.c->send(enc_frame(mkframe(c, 8, k.close_payload))); k.c->pump(); break; case 2: take(k); k.gone = true; k.c->close(); break; case 3: k.c->half_close(); break;
        case 4: { RefFrame f = mkframe(c, 1, "x"); f.masked = false; k.close_payload = "\x03\xea"; k.c->send(enc_frame(f)); k.c->pump(); break; }
        case 5: if (k.proto < 2) { say(k); k.close_payload = Str("\x0f\xa1") + "bye"; k.script.back().push_back({k.id, 8, k.close_payload}); push(k, true); } else { push(k, true); k.close_payload = Str("\x03\xe8", 2); k.c->send(enc_frame(mkframe(c, 8, k.close_payload))); k.c->pump(); } break; }
        label(k.end == 1 ? "clean-close" : k.end == 2 ? "vanishes" : k.end == 3 ? "half-close" : k.end == 4 ? "violation" : "closed-by-subprotocol");
    };
    for (int i = 0; i < N; i++) { spawn(); if (c.coin()) breathe(); }
    std::vector<int> threads; int P = 0; int ops = 6 + c.below(c.thorough ? 90 : 45);
    while (ops-- > 0) {
        Conn &k = *cs[c.below(cs.size())];
        switch (c.below(9)) {
        case 0: case 1: case 2: if (k.up && !k.gone && !k.ending && total < 60) { say(k); if (c.coin()) push(k, true); } break;
        case 3: for (auto &x : cs) if (x->up && !x->ending && c.coin()) push(*x, c.coin()); break;
        case 4: if (cs.size() < 14) spawn(); break;
        case 5: finish(k); break;
        case 6: if (P < 2) { int id = 70 + P++; auto v = std::make_shared<std::vector<Send>>(); int n = 1 + c.below(6); while (n--) { int t = c.below(cs.size()); if (cs[t]->proto == 2) continue; Msg m = gen_tagged(c, id, seqs[id], maxlen); v->push_back({t, m.op, m.data}); } int gap = c.below(4); threads.push_back(sim_spawn("plugin", [v, id, gap] { for (auto &s : *v) { pthread_rwlock_rdlock(&tab); do_send(id, s); pthread_rwlock_unlock(&tab); for (int i = 0; i < gap; i++) sched_yield(); } })); label("sent-from-outside"); } break;
        default: breathe(); }
    }
    for (auto &k : cs) if (k->up && !k->ending) push(*k, true); bool ends = c.coin(); if (ends) for (auto &k : cs) finish(*k);
    auto look = [&] { tcheck(); for (auto &k : cs) { handshake(*k); if (k->up && !k->gone) take(*k); } };
    auto settled = [&] { for (int t : threads) if (!sim_finished(t)) return false; for (auto &k : cs) { if (k->refused) { if (!k->gone) return false; continue; } if (!k->up && !k->gone) return false; if (k->ending ? !k->closed && k->proto < 2 : k->stable && k->got.size() < k->sent.size() && k->proto < 2) return false; if (k->stable) for (auto &d : k->due) if (k->next[d.first] < d.second.size()) return false; if (k->ending && !k->gone && !k->c->eof) return false; if (k->stable && k->proto == 2 && k->next[k->id] < k->sent.size()) return false; } return true; };
    w.settle(); look(); for (int t = 0; t < w.patience() * 2 && !settled(); t++) { w.settle_ms(100); look(); }
    for (auto &kp : cs) { Conn &k = *kp; if (k.refused) { CHECK(k.gone, "no-answer", "client %d got no answer\n%s", k.id, sim_dump().c_str()); continue; } CHECK(k.up, "no-handshake-response", "client %d\n%s", k.id, sim_dump().c_str());
        if (k.proto < 2) { CHECK(k.connected == 1, "not-connected", "the subprotocol was not notified of client %d", k.id); CHECK(k.closed == (k.ending ? 1 : 0), k.ending ? "end-missed" : "end-early", "the subprotocol was %snotified of the end of client %d, which %s\n%s", k.closed ? "" : "not ", k.id, k.ending ? "is gone" : "is connected", sim_dump().c_str()); }
        bool whole = !k.ending || k.end == 1 || k.end == 4 || k.end == 5; if (k.proto < 2 && whole) CHECK(k.got.size() == k.sent.size(), "message-lost", "the subprotocol was given %zu of the %zu messages of client %d\n%s", k.got.size(), k.sent.size(), k.id, sim_dump().c_str());
        if (!k.ending) { CHECK(!k.c->eof && !k.saw_close, "connection-lost", "client %d was disconnected\n%s", k.id, sim_dump().c_str()); for (auto &d : k.due) CHECK(k.next[d.first] == d.second.size(), "send-lost", "client %d received %zu of the %zu messages sent to it for %d\n%s", k.id, k.next[d.first], d.second.size(), d.first, sim_dump().c_str()); CHECK(k.cur.empty(), "truncated-output", "client %d received only a part of a message", k.id); if (k.proto == 2) CHECK(k.next[k.id] == k.sent.size(), "echo", "client %d received %zu of %zu echoes", k.id, k.next[k.id], k.sent.size()); }
        else if (!k.gone) { CHECK(k.c->eof, "not-disconnected", "client %d, which ends by way %d (%s%zu messages to it)\n%s", k.id, k.end, k.proto == 2 ? "echo, " : "", k.received, sim_dump().c_str()); if (k.end == 1 || k.end == 4 || k.end == 5) { CHECK(k.saw_close, "no-close-frame", "client %d, which ends by way %d, received no close frame", k.id, k.end); CHECK(k.close_seen.substr(0, 2) == k.close_payload.substr(0, 2), "close-code", "client %d received the close frame %s", k.id, hexs(k.close_seen.data(), k.close_seen.size()).c_str()); } }
        // each hook exactly once per message and frame, in order
        std::vector<Call> want; size_t nm = k.ending && !whole && k.proto < 2 ? k.got.size() : k.sent.size(); if (k.ending && !whole && k.proto == 2) continue;
        for (size_t i = 0; i < nm; i++) for (size_t j = k.exts.size(); j--;) { for (size_t f = 0; f < k.nframes[i]; f++) want.push_back({k.exts[j].which, 'F'}); want.push_back({k.exts[j].which, 'M'}); }
        auto same = [&](std::vector<Call> &a, std::vector<Call> &b, const char *d) { for (size_t i = 0; i < std::max(a.size(), b.size()); i++) if (i >= a.size() || i >= b.size() || a[i].which != b[i].which || a[i].kind != b[i].kind) fail("hook-order", "hook call %zu for %s frames of client %d is %s, expected %s (%zu calls, expected %zu)", i, d, k.id, i < b.size() ? fmt("%s/%c", extname[b[i].which], b[i].kind).c_str() : "missing", i < a.size() ? fmt("%s/%c", extname[a[i].which], a[i].kind).c_str() : "none", b.size(), a.size()); };
        same(want, k.calls[0], "received"); if (!k.ending) same(k.want_out, k.calls[1], "sent");
    }
    for (int t : threads) CHECK(sim_finished(t), "deadlock", "a thread that sends does not come to an end\n%s", sim_dump().c_str());
    if (!w.stop(5000)) fail("shutdown-hangs", "main() does not return after SIGINT\n%s", sim_dump().c_str()); tcheck(); CHECK(w.exit_code == 0, "exit-code", "main() returned %d", w.exit_code);
    size_t conc = 0; for (auto &kp : cs) { Conn &k = *kp; if (k.proto < 2 && !k.refused) CHECK(k.closed == 1, "end-missed", "the end of client %d was notified %d times by the shutdown", k.id, k.closed); for (int x = 0; x < 2; x++) CHECK(k.closes[x] == k.accepts[x], "close-hooks", "%s accepted client %d %d times and was closed for it %d times", extname[x], k.id, k.accepts[x], k.closes[x]); if (k.refused) for (int x = 0; x < 2; x++) CHECK(k.calls[0].empty() && k.calls[1].empty(), "hook-unnegotiated", "hooks ran for a refused client"); else for (int x = 0; x < 2; x++) { int want = 0; for (auto &e : k.exts) want += e.which == x; CHECK(k.accepts[x] == want, "opened-twice", "%s accepted client %d %d times", extname[x], k.id, k.accepts[x]); } conc += k.got.size(); }
    for (int i = 0; i < 2; i++) { CHECK(subp[i].inits == 1 && subp[i].destroys == 1, "plugin-life", "%s was initialised %d times and destroyed %d times", subname[i], subp[i].inits, subp[i].destroys); CHECK(subp[i].config == conf[i], "plugin-config", "%s was configured with %s instead of %s", subname[i], quote(subp[i].config).c_str(), quote(conf[i]).c_str()); if (ext) { CHECK(extp[i].inits == 1 && extp[i].destroys == 1, "plugin-life", "%s was initialised %d times and destroyed %d times", extname[i], extp[i].inits, extp[i].destroys); CHECK(extp[i].config == econf[i], "plugin-config", "%s was configured with %s instead of %s", extname[i], quote(extp[i].config).c_str(), quote(econf[i]).c_str()); } }
    size_t two = 0, one = 0; for (auto &k : cs) { if (k->exts.size() == 2 && k->sent.size()) two++; if (k->exts.size() && k->sent.size()) one++; } c.note("%zu clients, %d messages, %zu seen by the subprotocols ", cs.size(), total, conc); if (two) label("two-extensions"); c.key(fmt("%zu.%d.%zu.%d", cs.size(), total, conc, (int)c.pos)); if (ext ? one : conc >= 2) c.nontrivial(); (void)over; (void)serial; (void)token;
}
static void s01(Case &c) { run(c, false); }
static void s02(Case &c) { run(c, true); }
static AddProp p_s01({"S01", s01, true, 1500, "at least two messages seen by a recording subprotocol", 60, world_warm});
static AddProp p_s02({"S02", s02, true, 1500, "at least one message through a negotiated extension", 60, world_warm});
