// An independent DEFLATE decoder (RFC 1951) with the message framing of RFC 7692.
#pragma once
#include "pbt.h"

struct Inflate {
    Str hist;                                           // everything produced so far
    size_t window = 32768;                              // distances beyond it are reported in beyond
    size_t beyond = 0;                                  // the largest distance that exceeded the window
    Str err; bool loose = false;                        // loose: ended at a block boundary with one or two bits to spare
    // Appends one message (payload without the trailing 00 00 ff ff) to out. False if it is no valid message; hist is then unusable.
    bool message(const Str &payload, Str &out) {
        Str in = payload + Str("\0\0\xff\xff", 4); n = in.size(); d = (const uint8_t *)in.data(); pos = 0; bitb = 0; bitn = 0; size_t start = hist.size();
        for (;;) {                                      // block after block until the data ends at a block boundary
            if (pos >= n && bitn < 3) { err = "data ends early"; loose = true; return false; }
            int fin = bits(1); int type = bits(2); if (!err.empty()) return false;
            if (type == 0) stored(); else if (type == 1) fixed(); else if (type == 2) dynamic(); else err = "reserved block type";
            if (!err.empty()) return false;
            if (fin) { bitb = 0; bitn = 0; }            // the next stream starts at a byte boundary
            if (pos >= n && bitn == 0) break;
        }
        out = hist.substr(start); return true;
    }
private:
    const uint8_t *d; size_t n, pos; uint32_t bitb; int bitn;
    struct Huf { uint16_t count[16], sym[288]; };
    int bits(int k) { while (bitn < k) { if (pos >= n) { err = "data ends early"; return 0; } bitb |= (uint32_t)d[pos++] << bitn; bitn += 8; } int v = bitb & ((1u << k) - 1); bitb >>= k; bitn -= k; return v; }
    void stored() { bitb = 0; bitn = 0; if (n - pos < 4) { err = "data ends early"; return; } size_t l = d[pos] | d[pos + 1] << 8, m = d[pos + 2] | d[pos + 3] << 8; pos += 4; if (l != (m ^ 0xffff)) { err = "stored length"; return; } if (n - pos < l) { err = "data ends early"; return; } hist.append((const char *)d + pos, l); pos += l; }
    static int build(Huf &h, const uint8_t *len, int k) { // >0 incomplete, <0 oversubscribed
        memset(h.count, 0, sizeof h.count); for (int i = 0; i < k; i++) h.count[len[i]]++; if (h.count[0] == k) return 0;
        int left = 1; for (int l = 1; l <= 15; l++) { left <<= 1; left -= h.count[l]; if (left < 0) return left; }
        uint16_t off[16]; off[1] = 0; for (int l = 1; l < 15; l++) off[l + 1] = off[l] + h.count[l]; for (int i = 0; i < k; i++) if (len[i]) h.sym[off[len[i]]++] = i; return left;
    }
    int decode(const Huf &h) { int code = 0, first = 0, idx = 0; for (int l = 1; l <= 15; l++) { code |= bits(1); if (!err.empty()) return 0; int c = h.count[l]; if (code - c < first) return h.sym[idx + code - first]; idx += c; first = (first + c) << 1; code <<= 1; } err = "invalid code"; return 0; }
    void codes(const Huf &lc, const Huf &dc) {
        static const uint16_t lb[29] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258}, le[29] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
        static const uint16_t db[30] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577}, de[30] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
        for (;;) {
            int s = decode(lc); if (!err.empty()) return; if (s < 256) { hist += (char)s; continue; } if (s == 256) return;
            s -= 257; if (s >= 29) { err = "invalid length code"; return; } size_t len = lb[s] + bits(le[s]); int t = decode(dc); if (!err.empty()) return; if (t >= 30) { err = "invalid distance code"; return; }
            size_t dist = db[t] + bits(de[t]); if (!err.empty()) return; if (dist > hist.size()) { err = "distance before the start"; return; }
            if (dist > window && dist > beyond) beyond = dist; while (len--) hist += hist[hist.size() - dist];
        }
    }
    void fixed() { Huf lc, dc; uint8_t l[288]; int i = 0; for (; i < 144; i++) l[i] = 8; for (; i < 256; i++) l[i] = 9; for (; i < 280; i++) l[i] = 7; for (; i < 288; i++) l[i] = 8; build(lc, l, 288); for (i = 0; i < 30; i++) l[i] = 5; build(dc, l, 30); codes(lc, dc); }
    void dynamic() {
        static const uint8_t ord[19] = {16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15}; uint8_t l[320]; memset(l, 0, sizeof l);
        int nl = bits(5) + 257, nd = bits(5) + 1, nc = bits(4) + 4; if (!err.empty()) return; if (nl > 286 || nd > 30) { err = "too many codes"; return; }
        uint8_t cl[19] = {0}; for (int i = 0; i < nc; i++) cl[ord[i]] = bits(3); if (!err.empty()) return; Huf lc, dc; if (build(lc, cl, 19) != 0) { err = "code length code"; return; }
        int i = 0; while (i < nl + nd) { int s = decode(lc); if (!err.empty()) return; if (s < 16) l[i++] = s; else { int p = 0, r; if (s == 16) { if (!i) { err = "no previous length"; return; } p = l[i - 1]; r = 3 + bits(2); } else if (s == 17) r = 3 + bits(3); else r = 11 + bits(7); if (!err.empty()) return; if (i + r > nl + nd) { err = "too many lengths"; return; } while (r--) l[i++] = p; } }
        if (!l[256]) { err = "no end of block"; return; }
        int e = build(lc, l, nl); if (e && (e < 0 || nl != lc.count[0] + lc.count[1])) { err = "literal code"; return; }
        e = build(dc, l + nl, nd); if (e && (e < 0 || nd != dc.count[0] + dc.count[1])) { err = "distance code"; return; }
        codes(lc, dc);
    }
};
