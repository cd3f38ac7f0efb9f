// W01 W02 W03 W04 K01: codecs, against independent reference codecs.
#include "pbt.h"
#include "ref.h"
#include <stdlib.h>
#include <errno.h>
extern "C" {
#include "frame.h"
#include "utf8.h"
#include "b64.h"
#include "sha1.h"
void log_set_quiet(int);
size_t WSS_sha1(char *key, size_t key_length, char **hash);
size_t WSS_base64_encode_sha1(char *key, size_t key_length, char **accept_key);
void WSS_free_normal(void *ptr);
}
static void quiet() { log_set_quiet(1); char d[20], *q = d, *a = nullptr; WSS_sha1((char *)"x", 1, &q); WSS_base64_encode_sha1((char *)"x", 1, &a); if (a) WSS_free_normal(a); }
static void wfree(void *p) { if (p) WSS_free_normal(p); }

struct Heap { // exact-size heap copy, so that ASan sees any access beyond it
    char *p; size_t n;
    explicit Heap(const Str &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), s.size()); }
    ~Heap() { free(p); }
    Heap(const Heap &) = delete;
};

static const std::vector<size_t> LEN_EDGES = {0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 124, 125, 126, 127, 128, 192, 255, 256, 65534, 65535, 65536, 65537};

static RefFrame gen_frame(Case &c, size_t maxlen) {
    RefFrame f;
    int b = c.byte();
    f.fin = !(b & 1); f.rsv1 = (b & 0x12) == 0x12; f.rsv2 = (b & 0x24) == 0x24; f.rsv3 = (b & 0x48) == 0x48; f.masked = !(b & 0x80);
    f.op = c.chance(1, 3) ? (int)c.below(16) : c.pick({1, 2, 0, 8, 9, 10});
    switch (c.below(4)) { case 0: { uint64_t k = c.raw(4); memcpy(f.mk, &k, 4); break; }
        case 1: f.mk[c.below(4)] = c.byte(); break;
        default: { Rng r(c.seed()); uint64_t k = r.next(); memcpy(f.mk, &k, 4); } }
    if (!f.masked) memset(f.mk, 0, 4);
    size_t len = gen_len(c, maxlen, LEN_EDGES);
    f.payload = gen_payload(c, len);
    return f;
}
static void check_decoded(const RefFrame &f, wss_frame_t *g, const char *what) {
    CHECK(g != nullptr, "decode", "%s: decoder gave no frame", what);
    CHECK((bool)g->fin == f.fin, "decode", "%s: FIN %d, sent %d", what, (int)g->fin, f.fin);
    CHECK((bool)g->rsv1 == f.rsv1 && (bool)g->rsv2 == f.rsv2 && (bool)g->rsv3 == f.rsv3, "decode", "%s: RSV bits %d%d%d, sent %d%d%d", what, g->rsv1, g->rsv2, g->rsv3, f.rsv1, f.rsv2, f.rsv3);
    CHECK((int)g->opcode == f.op, "decode", "%s: opcode %d, sent %d", what, (int)g->opcode, f.op);
    CHECK((bool)g->mask == f.masked, "decode", "%s: mask bit %d, sent %d", what, (int)g->mask, f.masked);
    CHECK(g->payloadLength == f.payload.size(), "decode", "%s: payload length %llu, sent %zu", what, (unsigned long long)g->payloadLength, f.payload.size());
    CHECK(g->applicationDataLength + g->extensionDataLength == g->payloadLength, "decode", "%s: data lengths do not add up", what);
    if (f.payload.size()) {
        CHECK(g->payload != nullptr, "decode", "%s: no payload", what);
        if (memcmp(g->payload, f.payload.data(), f.payload.size())) {
            size_t i = 0; while (g->payload[i] == f.payload[i]) i++;
            fail("decode", "%s: payload of %zu bytes differs from byte %zu: got %s, sent %s", what, f.payload.size(), i,
                 hexs(g->payload + i, std::min<size_t>(16, f.payload.size() - i)).c_str(), hexs(f.payload.data() + i, std::min<size_t>(16, f.payload.size() - i)).c_str());
        }
    }
}

static void w01(Case &c) {
    size_t before = alloc_bytes();
    {
        int n = 1 + (c.chance(1, 2) ? c.below(8) : 0);
        size_t maxlen = n > 1 ? 6000 : c.chance(1, 20) ? 3 << 20 : c.chance(1, 3) ? 200000 : 2000;
        std::vector<RefFrame> fs; Str buf;
        size_t lead = c.chance(1, 3) ? c.below(64) : 0;
        buf.assign(lead, 'x');
        for (int i = 0; i < n; i++) { fs.push_back(gen_frame(c, maxlen)); buf += enc_frame(fs.back()); }
        size_t trail = c.chance(1, 3) ? c.below(40) : 0; // bytes of a frame that follows
        buf.append(trail, (char)0x81);
        c.note("decode %d frame(s) at offset %zu:", n, lead);
        for (auto &f : fs) { c.note(" [fin=%d rsv=%d%d%d op=%d masked=%d key=%s len=%zu]", f.fin, f.rsv1, f.rsv2, f.rsv3, f.op, f.masked, hexs(f.mk, 4).c_str(), f.payload.size());
            c.key(enc_frame(f).substr(0, 80)); c.key(f.payload.size());
            if (f.payload.size() > 0) c.nontrivial();
            label(f.payload.size() == 0 ? "len=0" : f.payload.size() < 16 ? "len<16" : f.payload.size() < 126 ? "len<126" : f.payload.size() < 65536 ? "len<64K" : "len>=64K"); }
        Heap h(buf);
        size_t off = lead, want = lead;
        for (int i = 0; i < n; i++) {
            wss_frame_t *g = WSS_parse_frame(h.p, h.n, &off);
            want += enc_frame(fs[i]).size();
            Str what = fmt("frame %d of %d", i + 1, n);
            struct G { wss_frame_t *g; ~G() { if (g) WSS_free_frame(g); } } guard{g};
            check_decoded(fs[i], g, what.c_str());
            CHECK(off == want, "consumed", "%s: decoder stopped at %zu, the frame ends at %zu", what.c_str(), off, want);
        }
        // decoding must not modify what it has not consumed, nor what it has been given
        CHECK(memcmp(h.p, buf.data(), h.n) == 0, "input-changed", "the receive buffer was modified by decoding");
    }
    size_t after = alloc_bytes();
    CHECK(after <= before, "leak", "decoding and releasing the frames left %zu bytes allocated", after - before);
}
static AddProp P1({"W01", w01, false, 700,
    "1-8 frames with random FIN/RSV/opcode/mask/key and lengths biased to encoding and vector-width boundaries, encoded by an independent encoder, decoded back to back from a heap block of exact size; non-trivial = at least one frame with payload", 30, quiet});

// ---------------------------------------------------------------- W02
static void w02_decode(Case &c) {
    // hostile bytes or a cut valid frame
    Str buf; int mode = c.below(4);
    if (mode == 0) { size_t n = c.range(1, 64); for (size_t i = 0; i < n; i++) buf += (char)c.byte(); }
    else if (mode == 1) { RefFrame f = gen_frame(c, 3000); Str s = enc_frame(f); size_t cut = c.below(4) ? c.below(std::min<size_t>(s.size(), 20)) : c.below(s.size()); buf = s.substr(0, std::max<size_t>(1, cut)); }
    else {  // declared length unrelated to what is present
        RefFrame f; f.fin = c.coin(); f.op = c.below(16); f.masked = c.coin(); for (int i = 0; i < 4; i++) f.mk[i] = c.byte();
        uint64_t len; switch (c.below(7)) { case 0: len = c.below(200); break; case 1: len = 65530 + c.below(12); break; case 2: len = ~0ull - c.below(64); break;
            case 3: len = (1ull << 63) + c.below(5) - 2; break; case 4: len = (1ull << 32) + c.below(5) - 2; break; case 5: len = c.raw(8); break; default: len = 1ull << c.below(64); }
        int form = c.below(3) + 1; if (form == 1) len &= 127; if (form == 2) len &= 0xFFFF; if (form == 1 && len > 125) len = 125;
        buf = enc_header(f, len, form); size_t extra = c.below(160); for (size_t i = 0; i < extra; i++) buf += (char)(i * 3 + extra);
    }
    if (mode == 3 && buf.size() > 1) { buf[c.below(buf.size())] = c.byte(); }
    size_t lead = c.chance(1, 3) ? c.below(32) : 0;
    Str all = Str(lead, 'z') + buf;
    c.note("bytes %s at offset %zu of %zu", hexs(buf.data(), buf.size()).c_str(), lead, all.size());
    c.key(buf); 
    RefFrame rf; size_t used = dec_frame((const uint8_t *)buf.data(), buf.size(), rf);
    // bytes needed in full, in 128-bit arithmetic
    label(used ? "complete" : "incomplete");
    c.nontrivial();
    size_t before = alloc_bytes();
    {
        Heap h(all); size_t off = lead;
        wss_frame_t *g = WSS_parse_frame(h.p, h.n, &off);
        struct G { wss_frame_t *g; ~G() { if (g) WSS_free_frame(g); } } guard{g};
        if (used) { check_decoded(rf, g, "complete frame"); CHECK(off == lead + used, "consumed", "stopped at %zu, frame ends at %zu", off, lead + used); }
        else if (g) CHECK(off > h.n, "accepted-truncated", "an incomplete frame (%zu bytes: %s) was reported complete: offset %zu of %zu, payload length %llu", buf.size(), hexs(buf.data(), buf.size()).c_str(), off, h.n, (unsigned long long)g->payloadLength);
        CHECK(memcmp(h.p, all.data(), h.n) == 0, "input-changed", "the receive buffer was modified");
    }
    size_t after = alloc_bytes();
    CHECK(after <= before, "leak", "left %zu bytes allocated", after - before);
}
static void w02_cuts(Case &c) { // completeness is decided exactly at the last byte
    RefFrame f = gen_frame(c, c.chance(1, 3) ? 400 : 140);
    Str s = enc_frame(f);
    c.note("every prefix of a %zu byte frame (op=%d masked=%d payload=%zu)", s.size(), f.op, f.masked, f.payload.size());
    c.key(s); c.nontrivial(); label("all prefixes");
    for (size_t n = 1; n <= s.size(); n++) {
        Heap h(s.substr(0, n)); size_t off = 0;
        wss_frame_t *g = WSS_parse_frame(h.p, h.n, &off);
        struct G { wss_frame_t *g; ~G() { if (g) WSS_free_frame(g); } } guard{g};
        if (n < s.size()) CHECK(g == nullptr || off > n, "accepted-truncated", "prefix of %zu of %zu bytes was reported complete", n, s.size());
        else { check_decoded(f, g, "complete frame"); CHECK(off == n, "consumed", "stopped at %zu of %zu", off, n); }
        CHECK(g != nullptr, "prefix-refused", "a valid prefix of %zu of %zu bytes was refused outright", n, s.size());
    }
}
static void w02(Case &c) { if (c.chance(1, 4)) w02_cuts(c); else w02_decode(c); }
static AddProp P2({"W02.dec", w02, false, 400,
    "random bytes, cut frames and headers declaring lengths up to 2^64-1 in a heap block of exact size, compared with a reference decoder; every prefix of generated frames; non-trivial = every case", 30, quiet});

// ---------------------------------------------------------------- W03
static Str text_no_nul(Case &c, size_t n) { Str s = gen_utf8(c, n); for (auto &ch : s) if (!ch) ch = 'x'; return s; }
static std::vector<RefFrame> decode_all(const Str &out, const char *what) {
    std::vector<RefFrame> v; size_t o = 0;
    while (o < out.size()) {
        RefFrame f; size_t k = dec_frame((const uint8_t *)out.data() + o, out.size() - o, f);
        CHECK(k > 0, "encode", "%s: the serialised bytes end inside a frame (at %zu of %zu)", what, o, out.size());
        CHECK(!f.masked, "encode", "%s: a server frame is masked", what);
        CHECK(f.minimal, "encode", "%s: length %zu is not in its shortest form", what, f.payload.size());
        v.push_back(f); o += k;
    }
    return v;
}
static void free_frames(wss_frame_t **fs, size_t n) { if (!fs) return; for (size_t i = 0; i < n; i++) WSS_free_frame(fs[i]); wfree(fs); }
static Str serialise(wss_frame_t **fs, size_t n) {
    char *m = nullptr; size_t k = WSS_stringify_frames(fs, n, &m);
    CHECK(k > 0 && m, "encode", "%zu frames could not be serialised", n);
    Str s(m, k); wfree(m); return s;
}
static void check_close(const std::vector<RefFrame> &v, unsigned code, bool any_reason, const Str &reason) {
    CHECK(v.size() == 1 && v[0].op == 8 && v[0].fin, "close", "a close must be a single final close frame");
    const Str &p = v[0].payload;
    CHECK(p.size() <= 125, "close", "close frame payload of %zu bytes does not fit a control frame", p.size());
    CHECK(p.size() >= 2, "close", "close frame without a status code");
    unsigned got = (uint8_t)p[0] << 8 | (uint8_t)p[1];
    CHECK(got == code, "close", "close frame carries code %u, wanted %u", got, code);
    CHECK(ref_utf8((const uint8_t *)p.data() + 2, p.size() - 2), "close", "close reason is not UTF-8: %s", hexs(p.data() + 2, p.size() - 2, 130).c_str());
    if (!any_reason) {
        Str r = p.substr(2);
        if (reason.size() <= 123) CHECK(r == reason, "close", "close reason %s, wanted %s", quote(r).c_str(), quote(reason).c_str());
        else CHECK(reason.compare(0, r.size(), r) == 0 && r.size() >= 120, "close", "close reason is not the longest prefix that fits");
    }
}
static void w03(Case &c) {
    wss_config_t cfg; memset(&cfg, 0, sizeof cfg);
    size_t before = alloc_bytes();
    {
        int mode = c.below(8);
        if (mode == 0) { // close with an explicit code and reason, as a protocol would send it
            unsigned code = c.pick({1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 3000, 3999, 4000, 4999});
            cfg.size_frame = c.pick({125, 126, 1024, 1048576});
            size_t rl = c.chance(1, 3) ? 118 + c.below(20) : c.below(124);
            if (c.chance(1, 8)) rl = 124 + c.below(300);
            Str reason = text_no_nul(c, rl);
            Str m; m += (char)(code >> 8); m += (char)code; m += reason;
            c.note("close code %u reason of %zu bytes", code, rl); c.key(m); c.nontrivial(); label("close+reason");
            Heap h(m); wss_frame_t **fs = nullptr;
            size_t n = WSS_create_frames(&cfg, CLOSE_FRAME, h.p, h.n, &fs);
            CHECK(n >= 1, "close", "no frame was created for a close message");
            auto v = decode_all(serialise(fs, n), "close"); free_frames(fs, n);
            check_close(v, code, rl == 0, reason);
        } else if (mode == 1) { // closing frame built by the server itself
            unsigned code = c.pick({1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014});
            bool own = c.chance(1, 2); Str reason = own ? text_no_nul(c, c.below(124)) : "";
            c.note("closing frame %u %s", code, own ? quote(reason).c_str() : "(default reason)"); c.key(code); c.key(reason); c.nontrivial(); label("closing_frame");
            wss_frame_t *f = WSS_closing_frame((wss_close_t)code, own ? (char *)reason.c_str() : nullptr);
            CHECK(f, "close", "no closing frame for code %u", code);
            char *m = nullptr; size_t k = WSS_stringify_frame(f, &m); Str s(m, k); wfree(m); WSS_free_frame(f);
            check_close(decode_all(s, "closing frame"), code, !own, reason);
        } else if (mode == 2) { // pong mirrors ping
            RefFrame f; f.op = 9; f.masked = true; uint64_t k = c.raw(4); memcpy(f.mk, &k, 4); f.payload = gen_payload(c, c.below(126));
            c.note("pong for ping of %zu bytes", f.payload.size()); c.key(f.payload); if (f.payload.size()) c.nontrivial(); label("pong");
            Heap h(enc_frame(f)); size_t off = 0; wss_frame_t *g = WSS_parse_frame(h.p, h.n, &off);
            g = WSS_pong_frame(g); char *m = nullptr; size_t n = WSS_stringify_frame(g, &m); Str s(m, n); wfree(m); WSS_free_frame(g);
            auto v = decode_all(s, "pong");
            CHECK(v.size() == 1 && v[0].op == 10 && v[0].fin && !v[0].rsv1 && !v[0].rsv2 && !v[0].rsv3 && v[0].payload == f.payload, "pong", "pong does not mirror the ping payload (%zu bytes)", f.payload.size());
        } else if (mode == 3 && c.chance(1, 3)) {
            wss_frame_t *g = WSS_ping_frame(); char *m = nullptr; size_t n = WSS_stringify_frame(g, &m); Str s(m, n); wfree(m); WSS_free_frame(g);
            auto v = decode_all(s, "ping"); label("ping"); c.nontrivial(); c.key(1); c.note("server ping");
            CHECK(v.size() == 1 && v[0].op == 9 && v[0].fin && v[0].payload.size() <= 125, "ping", "ping is not a valid control frame");
        } else if (mode == 4) { // arbitrary frames round-trip through serialisation
            int n = 1 + c.below(6); std::vector<RefFrame> fs; std::vector<wss_frame_t *> gs; Str buf;
            for (int i = 0; i < n; i++) { RefFrame f = gen_frame(c, i == 0 && c.chance(1, 10) ? 200000 : 2000); f.masked = false; fs.push_back(f); buf += enc_frame(f); }
            c.note("re-serialise %d decoded frames, %zu bytes", n, buf.size()); c.key(buf); c.nontrivial(); label("restringify");
            Heap h(buf); size_t off = 0;
            for (int i = 0; i < n; i++) gs.push_back(WSS_parse_frame(h.p, h.n, &off));
            Str s = serialise(gs.data(), n); for (auto g : gs) WSS_free_frame(g);
            CHECK(s == buf, "encode", "serialising decoded frames does not give back their bytes (%zu vs %zu bytes)", s.size(), buf.size());
        } else {
            int op = c.pick({1, 2});
            size_t fsz, len;
            switch (c.below(5)) {
            case 0: fsz = 1 + c.below(8); len = c.below(60); break;
            case 1: fsz = 125 + c.below(4); len = fsz * c.below(5) + c.below(4); break;
            case 2: fsz = c.pick({65535, 65536, 65537}); len = fsz * c.below(3) + c.below(5); len = len >= 2 ? len - 2 : len; break;
            case 3: fsz = 1048576; len = gen_len(c, c.chance(1, 20) ? 3000000 : 70000, LEN_EDGES); break;
            default: fsz = 1 + c.below(5000); len = c.below(20000);
            }
            bool huge = c.below(900) == 899; // beyond what a float counts exactly
            if (huge) { len = (c.coin() ? 1u << 24 : 1u << 25) + c.pick({1, 1, 1, 0, -1, 2, 3}); fsz = c.pick({1u << 20, 1u << 16, 1u << 24, (1u << 24) - 1, 65537u, 1u << 25}); label("huge"); }
            cfg.size_frame = fsz; cfg.max_frames = 1048576;
            Str m = huge ? Str(len, 'a' + c.below(26)) : gen_payload(c, len); if (huge) for (size_t i = 0; i < len; i += 4093) m[i] = (char)(i * 31 >> 3);
            c.note("message op=%d of %zu bytes, frame size %zu", op, len, fsz); c.key(op); c.key(m.substr(0, 64)); c.key(len); c.key(fsz);
            if (len) c.nontrivial();
            label(len > fsz ? "fragmented" : "single frame");
            Heap h(m); wss_frame_t **fs = nullptr;
            size_t n = WSS_create_frames(&cfg, (wss_opcode_t)op, h.p, h.n, &fs);
            CHECK(n >= 1 && fs, "encode", "no frames were created for a message of %zu bytes", len);
            Str s = serialise(fs, n); free_frames(fs, n);
            auto v = decode_all(s, "message"); Str got;
            for (size_t i = 0; i < v.size(); i++) {
                CHECK(v[i].payload.size() <= fsz, "encode", "frame %zu carries %zu bytes, the limit is %zu", i, v[i].payload.size(), fsz);
                CHECK(v[i].fin == (i + 1 == v.size()), "encode", "FIN=%d on frame %zu of %zu", v[i].fin, i, v.size());
                CHECK(v[i].op == (i ? 0 : op), "encode", "opcode %d on frame %zu of %zu of a message with opcode %d", v[i].op, i, v.size(), op);
                CHECK(!v[i].rsv1 && !v[i].rsv2 && !v[i].rsv3, "encode", "reserved bits on frame %zu", i);
                got += v[i].payload;
            }
            CHECK(got == m, "encode", "the frames carry %zu bytes that differ from the %zu byte message", got.size(), m.size());
        }
    }
    size_t after = alloc_bytes();
    CHECK(after <= before, "leak", "left %zu bytes allocated", after - before);
}
static AddProp P3({"W03", w03, false, 300,
    "messages of random length/content split with random frame sizes, close/pong/ping frames, all serialised and decoded by an independent RFC 6455 decoder; non-trivial = non-empty message or control frame", 30, quiet});

// ---------------------------------------------------------------- W04
static void w04(Case &c) {
    size_t len = gen_len(c, c.chance(1, 30) ? 100000 : 700, {15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 127, 128, 129, 192, 256});
    Str s; int mode = c.below(7);
    s = mode == 6 ? gen_payload(c, len) : gen_utf8(c, len);
    if (mode >= 1 && mode <= 5 && len) {
        int k = 1 + (c.chance(1, 5) ? c.below(3) : 0);
        while (k--) {
            size_t at = c.below(3) == 0 ? len - 1 - c.below(std::min<size_t>(len, 5)) : c.below(len);
            if (c.chance(1, 3)) { size_t blk = c.pick({16, 32, 64}) * (1 + c.below(8)); int o = (int)c.below(8) - 4; if ((long)blk + o >= 0 && blk + o < len) at = blk + o; }
            if (c.chance(1, 2)) { // a critical sequence placed at a chosen position
                static const char *crit[] = {"\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF8\x88\x80\x80\x80", "\xFF", "\xFE", "\x80", "\xBF", "\xC2", "\xE1\x80", "\xF1\x80\x80",
                    "\xC2\x80", "\xDF\xBF", "\xE0\xA0\x80", "\xED\x9F\xBF", "\xEE\x80\x80", "\xEF\xBF\xBF", "\xF0\x90\x80\x80", "\xF4\x8F\xBF\xBF", "\xC2\x41", "\xE1\x80\x41", "\xF1\x80\x80\x41", "\xF1\x80\x41", "\xE2\x28\xA1", "\xF0\x28\x8C\xBC"};
                const char *q = crit[c.below(32)]; size_t ql = strlen(q);
                if (c.coin()) for (size_t i = 0; i < len; i++) if (s[i] & 0x80) s[i] = 'a'; // alone in ASCII
                for (size_t i = 0; i < ql && at + i < len; i++) s[at + i] = q[i];
            } else switch (c.below(4)) {
                case 0: s[at] = (char)c.byte(); break;
                case 1: s[at] = (char)(s[at] ^ (1 << c.below(8))); break;
                case 2: s.resize(at); len = at; break;
                default: s.erase(at, 1); len = s.size(); break;
            }
            if (!len) break;
        }
    }
    bool want = ref_utf8((const uint8_t *)s.data(), s.size());
    size_t al = c.below(64);
    c.note("%zu bytes at alignment %zu, %s: %s", s.size(), al, want ? "valid" : "invalid", hexs(s.data(), s.size(), 64).c_str());
    c.key(s); bool hi = false; for (unsigned char ch : s) if (ch & 0x80) hi = true;
    if (hi) c.nontrivial();
    label(want ? hi ? "valid multibyte" : "valid ascii" : "invalid");
    Heap h(Str(al, (char)0xE2) + s);  // what precedes must not matter; what follows is not accessible
    bool got = utf8_check(h.p + al, s.size());
    CHECK(got == want, "utf8", "%zu bytes %s are %s UTF-8, the validator says %s", s.size(), hexs(s.data(), s.size(), 200).c_str(), want ? "well-formed" : "malformed", got ? "valid" : "invalid");
    // what follows in memory must not matter either
    if (c.chance(1, 4)) {
        static const char *tails[] = {"\x80\x80\x80\x80", "\xC2\xC2\xC2", "AAAA", "\xF0\x9F\x98\x80"};
        Heap h2(Str(al, 'a') + s + Str(tails[c.below(4)]) + Str(64, (char)0xBF));
        got = utf8_check(h2.p + al, s.size());
        CHECK(got == want, "utf8", "%zu bytes %s: verdict changes with the bytes that follow", s.size(), hexs(s.data(), s.size(), 200).c_str());
    }
}
static AddProp P4({"W04", w04, false, 260,
    "well-formed UTF-8 of all code point classes and lengths around 16/32/64-byte blocks, with critical sequences, byte mutations and truncations at chosen positions, random alignment, in exact-size heap blocks; non-trivial = contains a byte above 0x7F", 30, quiet});

// ---------------------------------------------------------------- K01
static void k01(Case &c) {
    int mode = c.below(4);
    size_t len = gen_len(c, c.chance(1, 40) ? (mode == 1 ? 3000 : 100000) : 1200, {55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 183, 184});
    Str m = gen_payload(c, len); c.key(m); if (len) c.nontrivial();
    size_t before = alloc_bytes();
    {
        if (mode == 0 || mode == 3) {
            label("sha1"); SHA1Context ctx; SHA1Reset(&ctx); size_t o = 0; int parts = 0;
            int style = c.below(3);
            while (o < len) { size_t k = style == 0 ? len : style == 1 ? 1 + c.below(130) : 1 + c.below(len); k = std::min(k, len - o); Heap h(m.substr(o, k)); SHA1Input(&ctx, (unsigned char *)h.p, k); o += k; parts++; if (parts > 3000) { style = 0; } if (!c.more()) style = 0; }
            int ok = SHA1Result(&ctx); Str got; for (int i = 0; i < 5; i++) for (int k = 3; k >= 0; k--) got += (char)(ctx.Message_Digest[i] >> (8 * k));
            c.note("SHA-1 of %zu bytes in %d pieces", len, parts);
            CHECK(ok, "sha1", "SHA-1 of %zu bytes reported an error", len);
            CHECK(got == ref_sha1(m), "sha1", "SHA-1 of %zu bytes (%s) in %d pieces is %s, should be %s", len, hexs(m.data(), len).c_str(), parts, hexs(got.data(), 20).c_str(), hexs(ref_sha1(m).data(), 20).c_str());
            if (SHA1Result(&ctx)) { Str again; for (int i = 0; i < 5; i++) for (int k = 3; k >= 0; k--) again += (char)(ctx.Message_Digest[i] >> (8 * k)); CHECK(again == got, "sha1", "asking twice for the digest changes it"); }
            char d[20]; char *dp = d; Heap h(m); WSS_sha1(h.p, h.n, &dp); CHECK(!memcmp(d, got.data(), 20), "sha1", "WSS digest of %zu bytes differs", len);
        } else if (mode == 1) {
            label("base64"); Heap h(m); char *e = b64_encode((unsigned char *)h.p, h.n); c.note("base64 of %zu bytes", len);
            CHECK(e, "b64", "no encoding for %zu bytes", len);
            Str s = e; wfree(e); Str want = ref_b64(m);
            CHECK(s == want, "b64", "base64 of %s is %s, should be %s", hexs(m.data(), len).c_str(), quote(s).c_str(), quote(want).c_str());
            Heap hs(s); size_t dn = ~0ul; unsigned char *d = b64_decode_ex(hs.p, hs.n, &dn);
            CHECK(d && dn == len && !memcmp(d, m.data(), len), "b64", "decoding gives %zu bytes back from %zu", dn, len);
            wfree(d);
        } else {
            label("accept"); Heap h(m); if (len == 0) return; char *a = nullptr; size_t n = WSS_base64_encode_sha1(h.p, h.n, &a); c.note("base64(sha1) of %zu bytes", len);
            Str want = ref_b64(ref_sha1(m));
            CHECK(a && n == want.size() && Str(a, n) == want, "accept", "base64(SHA-1) of %s is %s, should be %s", hexs(m.data(), len).c_str(), a ? quote(Str(a, n)).c_str() : "missing", want.c_str());
            wfree(a);
        }
    }
    // decoding hostile base64 is safe
    if (c.chance(1, 3)) { Heap h(m.substr(0, 300)); size_t dn = 0; unsigned char *d = b64_decode_ex(h.p, h.n, &dn); if (d) { CHECK(dn <= h.n, "b64", "decoded more than given"); wfree(d); } }
    size_t after = alloc_bytes();
    CHECK(after <= before + 64, "leak", "left %zu bytes allocated", after - before);
}
static AddProp P5({"K01", k01, false, 300,
    "random byte strings with lengths around block boundaries; SHA-1 fed in random partitions, base64 encode/decode and accept-token computation, against reference implementations; non-trivial = non-empty input", 30, quiet});
