// Independent reference implementations (oracles). Nothing here uses the project's code.
#pragma once
#include "pbt.h"
#include <stdint.h>

struct RefFrame {
    bool fin = true, rsv1 = false, rsv2 = false, rsv3 = false, masked = false;
    int op = 1; uint8_t mk[4] = {0, 0, 0, 0};
    Str payload;
    bool minimal = true;            // length used the shortest encoding
};
inline Str enc_header(const RefFrame &f, uint64_t len, int force = 0) {
    Str s;
    s += (char)((f.fin ? 0x80 : 0) | (f.rsv1 ? 0x40 : 0) | (f.rsv2 ? 0x20 : 0) | (f.rsv3 ? 0x10 : 0) | (f.op & 15));
    int m = f.masked ? 0x80 : 0;
    int form = force ? force : len < 126 ? 1 : len < 65536 ? 2 : 3;
    if (form == 1) s += (char)(m | (int)len);
    else if (form == 2) { s += (char)(m | 126); s += (char)(len >> 8); s += (char)len; }
    else { s += (char)(m | 127); for (int i = 7; i >= 0; i--) s += (char)(len >> (8 * i)); }
    if (f.masked) s.append((const char *)f.mk, 4);
    return s;
}
inline Str enc_frame(const RefFrame &f) {
    Str s = enc_header(f, f.payload.size());
    size_t o = s.size(); s += f.payload;
    if (f.masked) for (size_t i = 0; i < f.payload.size(); i++) s[o + i] = (char)((uint8_t)s[o + i] ^ f.mk[i & 3]);
    return s;
}
// Returns bytes used, 0 if more are needed.
inline size_t dec_frame(const uint8_t *b, size_t n, RefFrame &f) {
    if (n < 2) return 0;
    f.fin = b[0] & 0x80; f.rsv1 = b[0] & 0x40; f.rsv2 = b[0] & 0x20; f.rsv3 = b[0] & 0x10; f.op = b[0] & 15;
    f.masked = b[1] & 0x80; uint64_t len = b[1] & 127; size_t o = 2; f.minimal = true;
    if (len == 126) { if (n < 4) return 0; len = (uint64_t)b[2] << 8 | b[3]; o = 4; f.minimal = len > 125; }
    else if (len == 127) { if (n < 10) return 0; len = 0; for (int i = 0; i < 8; i++) len = len << 8 | b[2 + i]; o = 10; f.minimal = len > 65535; }
    if (f.masked) { if (n < o + 4) return 0; memcpy(f.mk, b + o, 4); o += 4; }
    if (len > n - o) return 0;
    f.payload.assign((const char *)b + o, len);
    if (f.masked) for (size_t i = 0; i < len; i++) f.payload[i] = (char)((uint8_t)f.payload[i] ^ f.mk[i & 3]);
    return o + len;
}
// Unicode table 3-7
inline bool ref_utf8(const uint8_t *s, size_t n) {
    size_t i = 0;
    while (i < n) {
        uint8_t a = s[i];
        if (a < 0x80) { i++; continue; }
        int need; uint8_t lo = 0x80, hi = 0xBF;
        if (a >= 0xC2 && a <= 0xDF) need = 1;
        else if (a == 0xE0) need = 2, lo = 0xA0;
        else if ((a >= 0xE1 && a <= 0xEC) || a == 0xEE || a == 0xEF) need = 2;
        else if (a == 0xED) need = 2, hi = 0x9F;
        else if (a == 0xF0) need = 3, lo = 0x90;
        else if (a >= 0xF1 && a <= 0xF3) need = 3;
        else if (a == 0xF4) need = 3, hi = 0x8F;
        else return false;
        if (n - i <= (size_t)need) return false;
        if (s[i + 1] < lo || s[i + 1] > hi) return false;
        for (int k = 2; k <= need; k++) if ((s[i + k] & 0xC0) != 0x80) return false;
        i += need + 1;
    }
    return true;
}
inline void put_utf8(Str &s, uint32_t cp) {
    if (cp < 0x80) s += (char)cp;
    else if (cp < 0x800) { s += (char)(0xC0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { s += (char)(0xE0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    else { s += (char)(0xF0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
}
inline Str ref_sha1(const Str &m) {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    Str d = m; uint64_t bits = (uint64_t)m.size() * 8; d += (char)0x80;
    while (d.size() % 64 != 56) d += (char)0;
    for (int i = 7; i >= 0; i--) d += (char)(bits >> (8 * i));
    auto rl = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
    for (size_t o = 0; o < d.size(); o += 64) {
        uint32_t w[80];
        for (int i = 0; i < 16; i++) w[i] = (uint32_t)(uint8_t)d[o + 4 * i] << 24 | (uint32_t)(uint8_t)d[o + 4 * i + 1] << 16 | (uint32_t)(uint8_t)d[o + 4 * i + 2] << 8 | (uint8_t)d[o + 4 * i + 3];
        for (int i = 16; i < 80; i++) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], e = h[4], dd = h[3];
        for (int i = 0; i < 80; i++) {
            uint32_t f, k;
            if (i < 20) f = (b & c) | (~b & dd), k = 0x5A827999; else if (i < 40) f = b ^ c ^ dd, k = 0x6ED9EBA1;
            else if (i < 60) f = (b & c) | (b & dd) | (c & dd), k = 0x8F1BBCDC; else f = b ^ c ^ dd, k = 0xCA62C1D6;
            uint32_t t = rl(a, 5) + f + e + k + w[i]; e = dd; dd = c; c = rl(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += dd; h[4] += e;
    }
    Str r; for (int i = 0; i < 5; i++) for (int k = 3; k >= 0; k--) r += (char)(h[i] >> (8 * k));
    return r;
}
inline Str ref_b64(const Str &m) {
    const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Str o; size_t i = 0;
    for (; i + 2 < m.size(); i += 3) { uint32_t v = (uint8_t)m[i] << 16 | (uint8_t)m[i + 1] << 8 | (uint8_t)m[i + 2]; o += t[v >> 18]; o += t[v >> 12 & 63]; o += t[v >> 6 & 63]; o += t[v & 63]; }
    if (m.size() - i == 1) { uint32_t v = (uint8_t)m[i] << 16; o += t[v >> 18]; o += t[v >> 12 & 63]; o += "=="; }
    if (m.size() - i == 2) { uint32_t v = (uint8_t)m[i] << 16 | (uint8_t)m[i + 1] << 8; o += t[v >> 18]; o += t[v >> 12 & 63]; o += t[v >> 6 & 63]; o += "="; }
    return o;
}
inline Str ref_accept(const Str &key) { return ref_b64(ref_sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }

// text of valid UTF-8 with code points from all encoding classes and their edges
inline Str gen_utf8(Case &c, size_t max) {
    Str s; uint64_t sd = c.seed(); Rng r(sd); int bias = c.below(4); size_t n = max;
    while (s.size() + 4 <= n) {
        uint32_t cp;
        int k = bias == 0 ? 0 : bias == 1 ? (r.chance(1, 20) ? (int)r.below(6) : 0) : (int)r.below(6);
        switch (k) {
        case 0: cp = 32 + r.below(95); break;
        case 1: cp = 0x80 + r.below(0x780); break;
        case 2: cp = 0x800 + r.below(0xD000); break;
        case 3: cp = 0xE000 + r.below(0x2000); break;
        case 4: cp = 0x10000 + r.below(0x100000); break;
        default: { static const uint32_t e[] = {0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF}; cp = e[r.below(19)]; }
        }
        if (cp >= 0xD800 && cp <= 0xDFFF) cp = 0xD7FF;
        put_utf8(s, cp);
    }
    while (s.size() < n) s += (char)('a' + r.below(26));
    return s;
}
