// A simulated server with its configuration, and the clients that talk to it.
#pragma once
#include "pbt.h"
#include "sim.h"
#include "ref.h"
#include <memory>
#include <utility>

struct Conf {
    std::vector<Str> hosts, paths, queries, origins;
    std::vector<std::pair<Str, Str>> subs, exts;        // plug-in name, configuration
    bool listed = false; Str sub_list, ext_list;        // the lists of plug-ins as written
    Str favicon; bool has_favicon = false;
    int t_poll = -1, t_read = -1, t_write = -1, t_client = -1, pings = 0;
    int http = 8080, https = 8443;
    int payload = 16777215, header = 8192, uri = 8192, buffer = 32768, thread = 16384, ring = 128, frame = 1048576, fragmented = 1048576;
    int workers = 4, retries = 5;
    bool ssl = false; Str key, cert, ca, dh;            // the files of the repository unless given
    Str json() const;
    Str text() const;                                   // what differs from the defaults
};
Str plugin(const Str &name);                            // path of a plug-in built for the simulation
Str json_str(const Str &s);

struct World;
struct Client {
    World *w = nullptr; int id = 0; int fd = -1; void *ssl = nullptr; Str ip; int port = 0;
    Str tx; size_t txo = 0;                             // bytes still to be sent
    Str rx; size_t rp = 0;                              // bytes received, parsed up to rp
    bool kept = false;                                  // stays until the end (its memory is in the baseline)
    bool stalled = false;                               // does not read
    bool eof = false, dead = false;                     // the server closed / sending failed
    bool tls_up = false, tls_failed = false;
    Str ct; bool raw_eof = false, raw_dead = false, tls_error = false; size_t rec = 16384, climit = 1 << 30;    // ciphertext under way, record and segment sizes
    size_t rlimit = 1 << 30;                            // bytes read per pump
    ~Client();
    void send(const Str &s) { tx += s; }
    bool pump();                                        // true if bytes moved
    bool flushed() const { return txo >= tx.size(); }
    void close();                                       // closes the socket
    void half_close();
    Str take();                                         // raw bytes not parsed yet
    // handshake
    bool head(Str &out);                                // one complete response head (up to the blank line)
    bool frame(RefFrame &f);                            // next complete frame
    size_t pending() const { return rx.size() - rp; }
};
struct World {
    Conf conf; int main_id = -1; int exit_code = -1; bool started = false; int fds0 = 0; size_t mem0 = 0; int confd = -1;
    std::vector<std::unique_ptr<Client>> clients;
    int next_port = 40000; size_t hurry = 1;
    explicit World(const Conf &c) : conf(c) {}
    ~World();
    std::function<void()> prepare;                      // called right before main() runs
    bool may_fail = false;                              // start() returns though main() has ended
    void start(Case &c);                                // runs the real main() with the configuration
    void start(const SimCfg &sc);
    Client *try_connect(const Str &ip);                 // nullptr if refused
    Client *connect(const Str &ip = "10.0.0.1", int sndbuf = 0, bool tls = false, int port = 0);
    int patience() const { return conf.thread < 100 ? 300 : 30; } // tenths of a second an answer may take; full queues are retried after as much
    bool pump();
    void settle();                                      // until nothing moves without time passing
    void settle_ms(int ms);                             // lets time pass as well
    bool stop(int ms);                                  // SIGINT; true once main() returned
    void drop(Client *c);
    size_t live0 = 0; uint32_t mark = 0; int base_fds = 0;
    void baseline();                                    // after the first clients came and went
    void check_released();                              // every client is gone: nothing of them may remain
    int open_fds();                                     // descriptors beyond those of the idle server
};
struct Req {                                            // an opening request
    Str method = "GET", uri = "/", version = "HTTP/1.1";
    std::vector<std::pair<Str, Str>> h;
    static Req valid(const Str &key, const Str &proto = "", const Str &ext = "");
    Str text() const;
};
struct Resp { int status = 0; Str line; std::vector<std::pair<Str, Str>> h; Str get(const Str &n) const; int count(const Str &n) const; };
bool parse_resp(const Str &head, Resp &r);
Str gen_key(Case &c);
// Connects and completes the opening handshake; fails the case if it is not accepted.
Client *open_ws(World &w, const Str &ip = "10.0.0.1", const Str &proto = "", const Str &ext = "", int sndbuf = 0, bool tls = false, Resp *out = nullptr);
void world_warm();                                      // Prop::warm of every simulated property
void world_warm_tls();
void world_warm_tls_lives();                            // for properties of whole server lives: nothing of OpenSSL is counted
extern int world_tls12;                                 // percentage of TLS clients limited to TLS 1.2
bool tls_key_update(Client *c);                         // new keys for both directions (TLS 1.3)
extern void (*world_tick)(World &);                     // called after each pump

// ---- reference model of a session with the echo protocol
struct Msg { int op; Str data; bool operator==(const Msg &o) const { return op == o.op && data == o.data; } };
struct Limits { uint64_t frame = 1048576, frags = 1048576; };
struct Expect {
    std::vector<Msg> msgs; std::vector<Str> pongs;
    bool closed = false; bool clean = false; Str close_payload; // clean: answer to a close frame
    std::vector<int> codes;                             // acceptable status codes
    bool partial = false;                               // a message is unfinished
};
Expect model(const std::vector<RefFrame> &in, const Limits &l, int fin_rsv_allowed = 0);
// what a client received after the handshake
struct Got { std::vector<Msg> msgs; std::vector<Str> pongs; std::vector<Str> pings; std::vector<Str> closes; size_t frames = 0; bool partial = false; Str error; std::vector<std::pair<int, size_t>> order; };
struct Reader { Got g; bool in_msg = false; Msg cur; uint64_t max_frame = 0; bool rsv1_ok = false; std::vector<char> rsv1; bool cur_rsv1 = false;
    std::function<bool(Msg &, Str &)> decode;           // expands a message sent with the first reserved bit
    bool feed(Client &c); };                            // parses everything available; false on a malformed stream (g.error)
Str msg_text(const Msg &m);
