#include "world.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <getopt.h>
#include <dlfcn.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <algorithm>
#include <filesystem>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/sha.h>
#include <openssl/evp.h>

extern "C" int wss_main(int argc, char **argv);
extern "C" int close_pipefd[2];
#ifndef REPO
#define REPO "/repo"
#endif
#ifndef PLUGDIR
#define PLUGDIR "."
#endif
Str plugin(const Str &n) { return Str(PLUGDIR) + "/" + n + ".so"; }
Str json_str(const Str &s) {
    Str o = "\""; char b[8];
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32) { snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; }
    return o + "\"";
}
static Str arr(const std::vector<Str> &v) { Str s = "["; for (auto &x : v) s += (s.size() > 1 ? "," : "") + json_str(x); return s + "]"; }
static Str plug(const std::vector<std::pair<Str, Str>> &v) {
    Str s = "["; for (auto &x : v) s += Str(s.size() > 1 ? "," : "") + "{\"file\":" + json_str(plugin(x.first)) + ",\"config\":" + json_str(x.second) + "}"; return s + "]";
}
Str Conf::json() const {
    Str s = "{\"hosts\":" + arr(hosts) + ",\"paths\":" + arr(paths) + ",\"queries\":" + arr(queries) + ",\"origins\":" + arr(origins) + ",\"setup\":{";
    s += "\"subprotocols\":" + (listed ? sub_list : plug(subs.empty() ? std::vector<std::pair<Str, Str>>{{"echo", ""}, {"broadcast", ""}} : subs)) + ",\"extensions\":" + (listed ? ext_list : plug(exts)) + ",\"log_level\":0,";
    if (has_favicon) s += "\"favicon\":" + json_str(favicon) + ",";
    s += fmt("\"timeouts\":{\"poll\":%d,\"read\":%d,\"write\":%d,\"client\":%d,\"pings\":%d},", t_poll, t_read, t_write, t_client, pings);
    s += fmt("\"port\":{\"http\":%d,\"https\":%d},", http, https);
    s += fmt("\"size\":{\"payload\":%d,\"header\":%d,\"uri\":%d,\"buffer\":%d,\"thread\":%d,\"ringbuffer\":%d,\"frame\":%d,\"fragmented\":%d},", payload, header, uri, buffer, thread, ring, frame, fragmented);
    s += fmt("\"pool\":{\"workers\":%d,\"retries\":%d}", workers, retries);
    if (ssl) s += ",\"ssl\":{\"key\":" + json_str(key.empty() ? REPO "/resources/wsserver.key" : key) + ",\"cert\":" + json_str(cert.empty() ? REPO "/resources/wsserver.crt" : cert) + ",\"ca_file\":" + json_str(ca.empty() ? REPO "/resources/rootCA.crt" : ca) +
        ",\"dhparam\":" + json_str(dh.empty() ? REPO "/resources/dhparam.pem" : dh) + ",\"compression\":false,\"peer_cert\":false}";
    return s + "}}";
}
Str Conf::text() const {
    Conf d; Str s = "conf{";
#define D(f, n) if (f != d.f) s += fmt(n "=%d ", f)
    D(t_read, "read"); D(t_write, "write"); D(t_client, "client"); D(pings, "pings"); D(payload, "payload"); D(header, "header"); D(uri, "uri"); D(buffer, "buffer"); D(thread, "thread");
    D(ring, "ring"); D(frame, "frame"); D(fragmented, "fragmented"); D(workers, "workers"); D(retries, "retries");
#undef D
    auto l = [&](const char *n, const std::vector<Str> &v) { if (!v.empty()) s += Str(n) + "=" + arr(v) + " "; };
    l("hosts", hosts); l("paths", paths); l("queries", queries); l("origins", origins);
    for (auto &x : exts) s += "ext=" + x.first + "(" + x.second + ") ";
    if (ssl) s += "tls ";
    return s + "}";
}
// ---------------------------------------------------------------- clients
void (*world_tick)(World &);
static SSL_CTX *cctx; int world_tls12;
bool tls_key_update(Client *c) { return c->ssl && c->tls_up && !c->eof && !c->dead && SSL_version((SSL *)c->ssl) == TLS1_3_VERSION && SSL_key_update((SSL *)c->ssl, SSL_KEY_UPDATE_REQUESTED) == 1; }
Client::~Client() { close(); }
void Client::close() {
    if (ssl) { SSL_free((SSL *)ssl); ssl = nullptr; }
    if (fd >= 0) { ::shutdown(fd, SHUT_RDWR); ::close(fd); fd = -1; sim_touch_io(); }
}
void Client::half_close() { if (fd >= 0) { if (ssl) { SSL_shutdown((SSL *)ssl); pump(); } else ::shutdown(fd, SHUT_WR); sim_touch_io(); } }
bool Client::pump() {
    if (fd < 0) return false;
    bool moved = false; char b[65536];
    if (ssl) {                                          // through memory, so that the ciphertext can be cut anywhere
        SSL *s = (SSL *)ssl; size_t left = std::max<size_t>(rlimit, 16) * w->hurry;
        while (!stalled && !raw_eof && left) {
            ssize_t n = ::recv(fd, b, std::min(left, sizeof b), MSG_DONTWAIT);
            if (n > 0) { BIO_write(SSL_get_rbio(s), b, (int)n); left -= n; moved = true; continue; }
            if (n == 0 || (n < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) { raw_eof = true; moved = true; }
            break;
        }
        if (!tls_up && !tls_failed) {
            int r = SSL_connect(s);
            if (r == 1) { tls_up = true; moved = true; }
            else { int e = SSL_get_error(s, r); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { tls_failed = true; eof = true; moved = true; } }
            ERR_clear_error();
        }
        if (tls_up) {
            while (txo < tx.size() && !dead) {
                int n = SSL_write(s, tx.data() + txo, (int)std::min<size_t>(tx.size() - txo, std::max(rec, (tx.size() - txo) / 300)));
                if (n > 0) { txo += n; moved = true; continue; }
                int e = SSL_get_error(s, n); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { dead = true; moved = true; }
                ERR_clear_error(); break;
            }
            while (!eof) {
                int n = SSL_read(s, b, (int)sizeof b);
                if (n > 0) { rx.append(b, n); moved = true; continue; }
                int e = SSL_get_error(s, n); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { eof = true; tls_error = e != SSL_ERROR_ZERO_RETURN; moved = true; }
                ERR_clear_error(); break;
            }
        }
        if (raw_eof && !eof) { eof = true; moved = true; }
        for (;;) { int n = BIO_read(SSL_get_wbio(s), b, sizeof b); if (n <= 0) break; ct.append(b, n); }
        size_t room = std::max(climit, ct.size() / 300) * w->hurry;
        while (!ct.empty() && room && !raw_dead) {
            ssize_t n = ::send(fd, ct.data(), std::min(room, ct.size()), MSG_NOSIGNAL | MSG_DONTWAIT);
            if (n > 0) { ct.erase(0, n); room -= n; moved = true; continue; }
            if (n < 0 && (errno == EPIPE || errno == ECONNRESET)) { raw_dead = dead = true; moved = true; }
            break;
        }
        if (moved) sim_touch_io();
        return moved;
    }
    while (txo < tx.size() && !dead) {
        ssize_t n = ::send(fd, tx.data() + txo, tx.size() - txo, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (n > 0) { txo += n; moved = true; continue; }
        if (n < 0 && (errno == EPIPE || errno == ECONNRESET)) { dead = true; moved = true; }
        break;
    }
    size_t left = rlimit * w->hurry;
    while (!stalled && !eof && left) {
        ssize_t n = ::recv(fd, b, std::min(left, sizeof b), MSG_DONTWAIT);
        if (n > 0) { rx.append(b, n); left -= n; moved = true; continue; }
        if (n == 0 || (n < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) { eof = true; moved = true; }
        break;
    }
    if (moved) sim_touch_io();
    return moved;
}
Str Client::take() { Str s = rx.substr(rp); rp = rx.size(); return s; }
bool Client::head(Str &out) {
    size_t e = rx.find("\r\n\r\n", rp); if (e == Str::npos) return false;
    out = rx.substr(rp, e + 4 - rp); rp = e + 4; return true;
}
bool Client::frame(RefFrame &f) {
    size_t n = dec_frame((const uint8_t *)rx.data() + rp, rx.size() - rp, f);
    rp += n; return n > 0;
}
// ---------------------------------------------------------------- world
static Str scratch;
static void pin() {
    cpu_set_t all; CPU_ZERO(&all); if (sched_getaffinity(0, sizeof all, &all)) return;
    int n = CPU_COUNT(&all); if (n < 2) return;
    int k = pbt_slot() % n; cpu_set_t one; CPU_ZERO(&one);
    for (int i = 0, j = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) { if (j++ == k) CPU_SET(i, &one); }
    sched_setaffinity(0, sizeof one, &one);
}
static void tls_thread() { unsigned char b[8]; ERR_clear_error(); RAND_bytes(b, 8); RAND_priv_bytes(b, 8); }  // what OpenSSL keeps per thread
World::~World() {}
void World::start(const SimCfg &sc) {
    pin();
    Str j = conf.json();
    confd = memfd_create("conf", 0); confd = sim_high_fd(confd);
    if (write(confd, j.data(), j.size()) != (ssize_t)j.size()) abort();
    lseek(confd, 0, SEEK_SET);
    fds0 = sim_fd_count(); mem0 = alloc_bytes();
    sim_thread_warm = conf.ssl ? tls_thread : nullptr; sim_begin(sc); sim_tls = conf.ssl;
    Str path = fmt("/proc/self/fd/%d", confd);
    main_id = sim_spawn("main", [this, path] {
        char *argv[] = {(char *)"WSServer", (char *)"-c", (char *)path.c_str(), nullptr}; optind = 1; close_pipefd[0] = close_pipefd[1] = -1;
        exit_code = wss_main(3, argv);
    });
    if (prepare) prepare();
    if (may_fail) return;
    sim_quiet();
    if (sim_finished(main_id)) fail("start-failed", "main() returned %d instead of serving\n%s", exit_code, j.c_str());
    started = true; fds0 = sim_fd_count();
}
void World::start(Case &c) { SimCfg s = sim_gen(c); c.note("%s %s ", conf.text().c_str(), sim_cfg_text(s).c_str()); start(s); }
Client *World::connect(const Str &ip, int sndbuf, bool tls, int port) {
    auto c = std::make_unique<Client>(); c->w = this; c->id = (int)clients.size(); c->ip = ip; c->port = port ? port : next_port++;
    c->fd = sim_connect(tls ? conf.https : conf.http, ip.c_str(), c->port, sndbuf);
    if (c->fd < 0) fail("connect-refused", "the server does not accept connections (%s)\n%s", strerror(errno), sim_dump().c_str());
    if (tls) {
        if (!cctx) { cctx = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_mode(cctx, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER); }
        SSL *s = SSL_new(cctx); SSL_set_bio(s, BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem())); SSL_set_connect_state(s); if (world_tls12 && (c->id * 37 + world_tls12) % 100 < world_tls12) SSL_set_max_proto_version(s, TLS1_2_VERSION); c->ssl = s;
    }
    clients.push_back(std::move(c)); return clients.back().get();
}
Client *World::try_connect(const Str &ip) {
    auto c = std::make_unique<Client>(); c->w = this; c->id = (int)clients.size(); c->ip = ip; c->port = next_port++;
    c->fd = sim_connect(conf.http, ip.c_str(), c->port, 0); if (c->fd < 0) return nullptr;
    clients.push_back(std::move(c)); return clients.back().get();
}
bool World::pump() { bool m = false; for (auto &c : clients) m |= c->pump(); if (world_tick) world_tick(*this); return m; }
void World::settle() {
    for (int i = 0; i < 100000; i++) {
        bool m = pump(); sim_quiet(); m |= pump();
        if (!m) { hurry = 1; return; }
        if (i % 500 == 499 && hurry < 65536) hurry *= 2;      // slow readers catch up
    }
    fail("livelock", "the exchange never settles\n%s", sim_dump().c_str());
}
void World::settle_ms(int ms) {
    settle();
    while (ms > 0) { int d = std::min(ms, 50); sim_sleep(d); ms -= d; settle(); }
}
void World::drop(Client *c) { c->close(); }
bool World::stop(int ms) {
    sim_signal(SIGINT);
    for (int t = 0; t < ms; t += 50) { settle(); if (sim_finished(main_id)) break; sim_sleep(50); }
    settle();
    return sim_finished(main_id);
}
void World::baseline() {
    size_t keep = clients.size();
    for (int i = 0; i < 2; i++) {
        Client *x = connect("10.9.9.9", 0, conf.ssl); x->send("POST / HTTP/1.1\r\n\r\n"); settle(); if (x->rx.empty()) settle_ms(200); x->close(); settle_ms(20);
        x = open_ws(*this, "10.9.9.8", "", "", 0, conf.ssl); RefFrame f; f.masked = true; f.payload = "warm"; x->send(enc_frame(f)); f.op = 8; f.payload.clear(); x->send(enc_frame(f)); settle(); x->close(); settle_ms(20);
    }
    while (clients.size() > keep) clients.pop_back();
    live0 = sim_live_blocks(); mark = sim_live_mark(); base_fds = open_fds();
}
void World::check_released() {
    for (auto &x : clients) if (!x->kept) x->close();
    settle(); for (int i = 0; i < 20 && (sim_live_blocks() != live0 || open_fds() != base_fds); i++) settle_ms(100);
    sim_check();
    CHECK(open_fds() == base_fds, "descriptor-leak", "%d descriptors of clients that are gone are still open\n%s", open_fds() - base_fds, sim_dump().c_str());
    CHECK(sim_live_blocks() <= live0, "memory-leak", "%zu blocks allocated for clients that are gone were not released; %s%s", sim_live_blocks() - live0, sim_live_since(mark).c_str(), sim_dump().c_str());
}
int World::open_fds() { return sim_fd_count() - fds0; }
static void rm_scratch() { std::error_code e; if (scratch.compare(0, 9, "/tmp/wss.") == 0) std::filesystem::remove_all(scratch, e); }
static pid_t warm_pid;
static void at_end() { if (getpid() == warm_pid) { if (chdir("/")) {} rm_scratch(); } }
// What OpenSSL keeps per thread (error records, random generators) or per key (blinding), not per client.
static bool all_cached;
static bool cached(const char *f) { return all_cached || f && (strstr(f, "/err/") || strstr(f, "/bn/") || strstr(f, "/rsa/") || strstr(f, "/rand/") || strstr(f, "threads_pthread")); }
static void warm(bool tls) {
    char t[] = "/tmp/wss.XXXXXX"; if (!mkdtemp(t)) abort();
    scratch = t; if (chdir(t)) abort(); mkdir("log", 0700); warm_pid = getpid(); atexit(at_end);
    // one complete life of a server loads the plug-ins and every lazily initialised library
    for (auto n : {"echo", "broadcast", "permessage-deflate", "reca", "recb", "exta", "extb"}) dlopen(plugin(n).c_str(), RTLD_NOW | RTLD_LOCAL); // stays mapped
    if (tls) CRYPTO_set_mem_functions([](size_t n, const char *f, int) { return cached(f) ? sim_untracked_alloc(nullptr, n) : malloc(n); }, [](void *p, size_t n, const char *f, int) { return cached(f) ? sim_untracked_alloc(p, n) : realloc(p, n); }, [](void *p, const char *, int) { free(p); });
    { unsigned char b[20]; RAND_bytes(b, 20); SHA1((const unsigned char *)"x", 1, b); EVP_Digest("x", 1, b, nullptr, EVP_sha1(), nullptr); }
}
void world_warm() { warm(false); }
void world_warm_tls() { warm(true); }
void world_warm_tls_lives() { all_cached = true; warm(true); }
// ---------------------------------------------------------------- HTTP
Req Req::valid(const Str &key, const Str &proto, const Str &ext) {
    Req r; r.h = {{"Host", "localhost"}, {"Upgrade", "websocket"}, {"Connection", "Upgrade"}, {"Sec-WebSocket-Key", key}, {"Sec-WebSocket-Version", "13"}};
    if (!proto.empty()) r.h.push_back({"Sec-WebSocket-Protocol", proto});
    if (!ext.empty()) r.h.push_back({"Sec-WebSocket-Extensions", ext});
    return r;
}
Str Req::text() const { Str s = method + " " + uri + " " + version + "\r\n"; for (auto &p : h) s += p.first + ": " + p.second + "\r\n"; return s + "\r\n"; }
static bool ieq(const Str &a, const Str &b) { return a.size() == b.size() && strcasecmp(a.c_str(), b.c_str()) == 0; }
Str Resp::get(const Str &n) const { for (auto &p : h) if (ieq(p.first, n)) return p.second; return ""; }
int Resp::count(const Str &n) const { int k = 0; for (auto &p : h) k += ieq(p.first, n); return k; }
bool parse_resp(const Str &s, Resp &r) {
    size_t e = s.find("\r\n"); if (e == Str::npos) return false;
    r.line = s.substr(0, e); r.h.clear();
    for (char ch : s) if ((unsigned char)ch < 32 && ch != '\r' && ch != '\n' && ch != '\t') return false;
    if (r.line.compare(0, 9, "HTTP/1.1 ") || r.line.size() < 13 || r.line[12] != ' ') return false;
    for (int i = 9; i < 12; i++) if (r.line[i] < '0' || r.line[i] > '9') return false;
    r.status = atoi(r.line.c_str() + 9);
    size_t p = e + 2;
    while (p < s.size()) {
        e = s.find("\r\n", p); if (e == Str::npos) return false;
        Str l = s.substr(p, e - p); p = e + 2;
        if (l.empty()) return p == s.size();
        size_t k = l.find(':'); if (k == Str::npos || k == 0) return false;
        for (size_t i = 0; i < k; i++) if (!isalnum((unsigned char)l[i]) && !strchr("!#$%&'*+-.^_`|~", l[i])) return false;
        Str v = l.substr(k + 1); while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1); while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
        r.h.push_back({l.substr(0, k), v});
    }
    return false;
}
Str gen_key(Case &c) { Rng r(c.seed()); Str s; for (int i = 0; i < 16; i++) s += (char)r.next(); return ref_b64(s); }
Client *open_ws(World &w, const Str &ip, const Str &proto, const Str &ext, int sndbuf, bool tls, Resp *out) {
    Client *c = w.connect(ip, sndbuf, tls);
    static int serial = 0; Rng r(77 + serial++); Str k; for (int i = 0; i < 16; i++) k += (char)r.next(); k = ref_b64(k);
    Req rq = Req::valid(k, proto, ext); if (!w.conf.hosts.empty()) rq.h[0].second = w.conf.hosts[0]; if (!w.conf.origins.empty()) rq.h.push_back({"Origin", w.conf.origins[0]});
    c->send(rq.text());
    w.settle();
    Str h; Resp rs;
    bool got = c->head(h);
    for (int i = 0; !got && i < w.patience(); i++) { w.settle_ms(100); got = c->head(h); }
    CHECK(got, "no-handshake-response", "valid opening request got no response; received %s, %s\n%s", quote(c->rx).c_str(), c->eof ? "connection closed" : "connection open", sim_dump().c_str());
    CHECK(parse_resp(h, rs) && rs.status == 101, "handshake-refused", "valid opening request answered with %s", quote(h).c_str());
    CHECK(rs.get("Sec-WebSocket-Accept") == ref_accept(k), "accept-token", "accept token %s, expected %s", rs.get("Sec-WebSocket-Accept").c_str(), ref_accept(k).c_str());
    if (out) *out = rs;
    return c;
}
// ---------------------------------------------------------------- model
Expect model(const std::vector<RefFrame> &in, const Limits &l, int rsv_ok) {
    Expect e; bool open = false; Msg cur{0, ""}; uint64_t frags = 0;
    for (auto &f : in) {
        bool ctl = f.op >= 8;
        if ((f.rsv1 && !(rsv_ok & 4)) || (f.rsv2 && !(rsv_ok & 2)) || (f.rsv3 && !(rsv_ok & 1))) e.codes.push_back(1002);
        if ((f.op >= 3 && f.op <= 7) || f.op >= 11) e.codes.push_back(1003);
        if (!f.masked) e.codes.push_back(1002);
        if (ctl && f.op <= 10 && !f.fin) e.codes.push_back(1002);
        if (f.payload.size() > l.frame) e.codes.push_back(1009);
        if (ctl && f.op <= 10 && f.payload.size() > 125) e.codes.push_back(1002);
        if (f.op == 8 && e.codes.empty()) {
            const Str &p = f.payload;
            if (p.size() == 1) e.codes.push_back(1002);
            else if (p.size() >= 2) {
                int code = (uint8_t)p[0] << 8 | (uint8_t)p[1];
                if (code < 1000 || (code >= 1004 && code <= 1006) || (code >= 1015 && code < 3000) || code >= 5000) e.codes.push_back(1002);
                if (!ref_utf8((const uint8_t *)p.data() + 2, p.size() - 2)) e.codes.push_back(1007);
            }
            e.closed = true;
            if (e.codes.empty()) { e.clean = true; e.close_payload = p; }
            return e;
        }
        if (!ctl && f.op <= 2) {
            if (f.op == 0 && !open) e.codes.push_back(1002);
            if (f.op != 0 && open) e.codes.push_back(1002);
            if ((f.op == 0 ? frags + 1 : 1) > l.frags) e.codes.push_back(1009);
        }
        if (!e.codes.empty()) { e.closed = true; return e; }
        if (f.op == 9) { e.pongs.push_back(f.payload); continue; }
        if (f.op == 10) continue;
        if (f.op) { cur = Msg{f.op, f.payload}; frags = 1; open = true; } else { cur.data += f.payload; frags++; }
        if (f.fin) {
            open = false;
            if (cur.op == 1 && !ref_utf8((const uint8_t *)cur.data.data(), cur.data.size())) { e.codes.push_back(1007); e.closed = true; return e; }
            e.msgs.push_back(cur);
        }
    }
    e.partial = open;
    return e;
}
bool Reader::feed(Client &c) {
    RefFrame f;
    while (g.error.empty() && c.frame(f)) {
        g.frames++;
        auto bad = [&](const Str &s) { g.error = s + fmt(" (frame %zu: fin=%d rsv=%d%d%d op=%d len=%zu %s)", g.frames, f.fin, f.rsv1, f.rsv2, f.rsv3, f.op, f.payload.size(), hexs(f.payload.data(), f.payload.size(), 24).c_str()); };
        if (!g.closes.empty()) { bad("frame after the close frame"); break; }
        if (f.masked) { bad("masked frame from the server"); break; }
        if (f.rsv2 || f.rsv3 || (f.rsv1 && !rsv1_ok)) { bad("reserved bit set"); break; }
        if (!f.minimal) { bad("length not encoded in the shortest form"); break; }
        if (f.op >= 8) {
            if (!f.fin || f.payload.size() > 125 || f.op > 10) { bad("malformed control frame"); break; }
            if (f.rsv1) { bad("reserved bit on a control frame"); break; }
            if (f.op == 9) g.pings.push_back(f.payload); else if (f.op == 10) { g.pongs.push_back(f.payload); g.order.push_back({10, g.pongs.size() - 1}); }
            else { if (f.payload.size() == 1) { bad("malformed close frame"); break; } g.closes.push_back(f.payload); }
            continue;
        }
        if (f.op > 2) { bad("unknown opcode"); break; }
        if (max_frame && f.payload.size() > max_frame) { bad("frame larger than configured"); break; }
        if (f.op == 0 ? !in_msg : in_msg) { bad(f.op == 0 ? "continuation without a message" : "new message inside a fragmented one"); break; }
        if (f.op == 0 && f.rsv1) { bad("reserved bit on a continuation frame"); break; }
        if (f.op) { cur = Msg{f.op, f.payload}; in_msg = true; cur_rsv1 = f.rsv1; } else cur.data += f.payload;
        if (f.fin) { in_msg = false; Str e; if (cur_rsv1 && decode && !decode(cur, e)) { bad(e); break; } g.msgs.push_back(cur); rsv1.push_back(cur_rsv1); g.order.push_back({cur.op, g.msgs.size() - 1}); }
    }
    g.partial = in_msg || c.pending() > 0;
    return g.error.empty();
}
Str msg_text(const Msg &m) { return fmt("%s[%zu]%s", m.op == 1 ? "text" : m.op == 2 ? "binary" : "op?", m.data.size(), hexs(m.data.data(), m.data.size(), 24).c_str()); }
