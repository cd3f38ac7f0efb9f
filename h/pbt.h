// Property-based testing core: cases are decoded from byte "choice sequences",
// so every case can be regenerated, mutated, shrunk and replayed.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <string>
#include <vector>
#include <functional>

typedef std::string Str;
typedef std::vector<uint8_t> Buf;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed + 0xD1B54A32D192ED03ull) { for (int i = 0; i < 3; i++) { s ^= s >> 32; s *= 0xD6E8FEB86659FD93ull; } s ^= s >> 32; } // scrambled: streams must not overlap
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// A case under construction: draws choices from the buffer (zeros when it runs out).
struct Case {
    const uint8_t *d; size_t n, pos = 0;
    bool thorough = false;
    bool nontriv = false;
    bool keyed = false; uint64_t keyhash = 0;
    Str desc;                       // human-readable description (samples, replays)
    bool want_desc = false;
    Case(const uint8_t *p, size_t len) : d(p), n(len) {}

    uint8_t byte() { return pos < n ? d[pos++] : 0; }
    uint64_t raw(int k) { uint64_t v = 0; while (k--) v = v << 8 | byte(); return v; }
    uint64_t below(uint64_t m) {    // 0..m-1, simplest value is 0
        if (m <= 1) return 0;
        if (m <= 256) return byte() % m;
        if (m <= 65536) return raw(2) % m;
        if (m <= (1ull << 32)) return raw(4) % m;
        return raw(8) % m;
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // simplest: false
    bool coin() { return byte() & 1; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template <class T> const T &pickv(const std::vector<T> &l) { return l[below(l.size())]; }
    bool more() const { return pos < n; }
    size_t left() const { return n - pos; }
    uint64_t seed() { return raw(4); }

    void nontrivial() { nontriv = true; }
    void key(uint64_t h) { keyed = true; keyhash = (keyhash ^ h) * 0x100000001B3ull + 0x9E37; }
    void key(const void *p, size_t len);
    void key(const Str &s) { key(s.data(), s.size()); }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Failure { Str sig, msg; };
// Reports a violation of the property: throws on the case's main thread.
[[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, sig, ...) do { if (!(cond)) fail(sig, __VA_ARGS__); } while (0)
void label(const char *name);       // classification counter
Str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
Str hexs(const void *p, size_t n, size_t max = 48);
Str quote(const Str &s, size_t max = 200);
uint64_t hash64(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);

struct Prop {
    const char *id;
    void (*run)(Case &);
    bool isolate;                   // one process per case
    size_t maxlen;                  // longest choice sequence
    const char *rule;
    double case_wall;               // seconds after which a case counts as hung
    void (*warm)() = nullptr;       // run once per process before forking the workers
};
void add_prop(const Prop &p);
struct AddProp { AddProp(const Prop &p) { add_prop(p); } };

// payload helpers shared by the properties
Str gen_payload(Case &c, size_t len);            // patterned or random bytes
size_t gen_len(Case &c, size_t max, const std::vector<size_t> &edges);
size_t alloc_bytes();                            // live heap bytes (ASan builds; otherwise 0)
extern "C" void pbt_cov_reset();
Str pbt_scratch();                               // a folder of this process, removed with the run
int pbt_slot();                                  // index of the worker that runs the case
// used by child processes that end without returning through the runner
[[noreturn]] void pbt_child_exit(int code);
