// C01 C02: configuration documents and the JSON parser, against an independent reference reader.
#include "pbt.h"
#include "ref.h"
#include <stdlib.h>
#include <math.h>
#include <errno.h>
#include <unistd.h>
#include <getopt.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <map>
#include <algorithm>
#include <memory>
extern "C" {
#include "json.h"
#include "config.h"
#include "error.h"
void log_set_quiet(int); void log_set_fp(FILE *); void log_set_udata(void *); void log_set_lock(void *); void log_set_level(int);
int wss_main(int argc, char **argv);
}

// ---------------------------------------------------------------- reference reader
struct J; typedef std::shared_ptr<J> JP;
struct J {
    int t = json_null; bool b = false, approx = false, big = false; int64_t i = 0; double d = 0; Str s;
    std::vector<JP> a; std::vector<std::pair<Str, JP>> o;
};
enum Verdict { VALID, EXT, INVALID };   // EXT: uses a form outside the standard that a reader may accept
struct Reader {
    Str t; size_t p = 0; bool comments; Verdict v = VALID; int depth = 0; bool deep = false;
    struct Bad {};
    Reader(const Str &text, bool c) : comments(c) {
        t = text;
        if (t.size() >= 3 && !memcmp(t.data(), "\xEF\xBB\xBF", 3)) t.erase(0, 3);
        size_t z = t.find('\0'); if (z != Str::npos) { t.resize(z); v = EXT; }
    }
    void ext() { if (v == VALID) v = EXT; }
    int peek() { return p < t.size() ? (unsigned char)t[p] : -1; }
    void ws() {
        for (;;) {
            int b = peek();
            if (b == ' ' || b == '\t' || b == '\r' || b == '\n') { p++; continue; }
            if (comments && b == '/') {
                ext();
                if (p + 1 >= t.size()) throw Bad();
                if (t[p + 1] == '/') { p += 2; while (p < t.size() && t[p] != '\n' && t[p] != '\r') p++; continue; }
                if (t[p + 1] == '*') { p += 2; size_t e = t.find("*/", p); if (e == Str::npos) throw Bad(); p = e + 2; continue; }
                throw Bad();
            }
            return;
        }
    }
    int hex4() { int r = 0; for (int k = 0; k < 4; k++) { int b = peek(); if (b < 0 || !isxdigit(b)) throw Bad(); r = r * 16 + (b <= '9' ? b - '0' : (b | 32) - 'a' + 10); p++; } return r; }
    static void utf8(Str &s, uint32_t u) {
        if (u < 0x80) s += (char)u;
        else if (u < 0x800) { s += (char)(0xC0 | u >> 6); s += (char)(0x80 | (u & 63)); }
        else if (u < 0x10000) { s += (char)(0xE0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
        else { s += (char)(0xF0 | u >> 18); s += (char)(0x80 | (u >> 12 & 63)); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
    }
    Str str() {
        Str s; p++;
        for (;;) {
            int b = peek(); if (b < 0) throw Bad();
            p++;
            if (b == '"') return s;
            if (b < 0x20) ext();
            if (b != '\\') { s += (char)b; continue; }
            b = peek(); if (b < 0) throw Bad();
            p++;
            switch (b) {
            case '"': case '\\': case '/': s += (char)b; break;
            case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
            case 'u': {
                uint32_t u = hex4();
                if (u >= 0xDC00 && u < 0xE000) { lax = true; ext(); }
                else if (u >= 0xD800 && u < 0xDC00) {
                    if (peek() != '\\') { lax = true; ext(); break; }
                    p++; if (peek() != 'u') { lax = true; ext(); p--; break; }
                    p++; uint32_t w = hex4();
                    if (w < 0xDC00 || w > 0xDFFF) { lax = true; ext(); break; }
                    u = 0x10000 + ((u - 0xD800) << 10) + (w - 0xDC00);
                }
                utf8(s, u); break; }
            default: ext(); s += (char)b;
            }
        }
    }
    bool lax = false;   // half a surrogate pair: accepted or refused, both are fine
    JP val() {
        if (++depth > 3000) { deep = true; throw Bad(); }
        ws(); JP j = std::make_shared<J>(); int b = peek();
        if (b == '"') { j->t = json_string; j->s = str(); }
        else if (b == '{') {
            j->t = json_object; p++; ws();
            if (peek() == '}') p++;
            else for (;;) {
                ws(); if (peek() != '"') throw Bad();
                Str k = str(); ws(); if (peek() != ':') throw Bad();
                p++; j->o.push_back({k, val()}); ws();
                if (peek() == ',') { p++; ws(); if (peek() == '}') { ext(); p++; break; } continue; }
                if (peek() != '}') throw Bad();
                p++; break;
            }
        } else if (b == '[') {
            j->t = json_array; p++; ws();
            if (peek() == ']') p++;
            else for (;;) {
                j->a.push_back(val()); ws();
                if (peek() == ',') { p++; ws(); if (peek() == ']') { ext(); p++; break; } continue; }
                if (peek() != ']') throw Bad();
                p++; break;
            }
        } else if (b == 't' || b == 'f' || b == 'n') {
            const char *w = b == 't' ? "true" : b == 'f' ? "false" : "null";
            if (t.compare(p, strlen(w), w)) throw Bad();
            p += strlen(w); j->t = b == 'n' ? json_null : json_boolean; j->b = b == 't';
        } else if (b == '-' || (b >= '0' && b <= '9')) {
            size_t s = p; bool dbl = false; if (b == '-') p++;
            size_t ds = p; while (isdigit(peek())) p++;
            if (p == ds) { ext(); if (peek() == '.') throw Bad(); }
            else if (t[ds] == '0' && p - ds > 1) throw Bad();
            if (peek() == '.') { dbl = true; p++; size_t q = p; while (isdigit(peek())) p++; if (p == q) throw Bad(); }
            if (peek() == 'e' || peek() == 'E') { dbl = true; p++; if (peek() == '+' || peek() == '-') p++; size_t q = p; while (isdigit(peek())) p++; if (p == q) throw Bad(); }
            Str n = t.substr(s, p - s); j->d = strtod(n.c_str(), nullptr);
            errno = 0; j->i = strtoll(n.c_str(), nullptr, 10); if (!dbl && errno == ERANGE) j->big = true;
            j->t = dbl ? json_double : json_integer;
        } else throw Bad();
        depth--;
        return j;
    }
    JP read() { try { JP j = val(); ws(); if (p != t.size()) throw Bad(); return j; } catch (Bad &) { v = INVALID; return nullptr; } }
};

// ---------------------------------------------------------------- generators
static Str jstr(Case &c, const Str &s) { // one of the ways to write a string
    Str r = "\""; int style = c.below(4);
    for (size_t i = 0; i < s.size();) {
        unsigned char b = s[i]; int n = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
        uint32_t u = n == 1 ? b : b & (0xFF >> (n + 1)); for (int k = 1; k < n && i + k < s.size(); k++) u = u << 6 | (s[i + k] & 63);
        bool esc = style == 1 ? c.chance(1, 2) : style == 2;
        if (b == '"' || b == '\\' || b < 0x20 || esc) {
            const char *sh = b == '"' ? "\\\"" : b == '\\' ? "\\\\" : b == '/' ? "\\/" : b == '\b' ? "\\b" : b == '\f' ? "\\f" : b == '\n' ? "\\n" : b == '\r' ? "\\r" : b == '\t' ? "\\t" : nullptr;
            if (sh && !c.chance(1, 3)) r += sh;
            else { const char *f = c.coin() ? "\\u%04x" : "\\u%04X"; if (u < 0x10000) r += fmt(f, u); else { u -= 0x10000; r += fmt(f, 0xD800 + (u >> 10)); r += fmt(f, 0xDC00 + (u & 0x3FF)); } }
        } else r.append(s, i, n);
        i += n;
    }
    return r + "\"";
}
static Str json_q(const Str &s) { Str r = "\""; for (unsigned char b : s) if (b == '"' || b == '\\' || b < 0x20) r += fmt("\\u%04x", b); else r += (char)b; return r + "\""; }
struct Fmt { int ws; bool comments; };
static void gap(Case &c, const Fmt &f, Str &out, bool sep = true) {
    if (f.ws == 0) return;
    int n = c.below(3); while (n--) out += c.pick({' ', '\n', '\t', '\r', ' '});
    if (f.comments && sep && c.below(6) == 5) { // comments stand apart from numbers
        out += ' ';
        if (c.coin()) out += c.pick({"// note\n", "//\r\n", "// \"hosts\": [1]\n", "// */ }\n"}); else out += c.pick({"/* x */", "/**/", "/* \" // { */", "/* * / ]\n*/"});
    }
}
static Str gen_num(Case &c) {
    switch (c.below(8)) {
    case 0: return fmt("%d", (int)c.below(10));
    case 1: return fmt("%lld", (long long)(int64_t)c.raw(8));
    case 2: return c.pick({"0", "-0", "9223372036854775807", "-9223372036854775807", "9223372036854775808", "18446744073709551615", "123456789012345678901234567890", "0.0", "-0.0", "1e0", "0e5", "1E+2", "1e-2", "3.141592653589793238462643383279", "0.1234567890123456789012", "2147483648", "4294967295", "-1", "-1.5e-3", "0.00000000000000000000001", "99999999999999999999.5", "0.30000000000000004"});
    case 3: return fmt("%d.%d", (int)c.raw(2) - 30000, (int)c.raw(2));
    case 4: return fmt("%s%u%s%u", c.coin() ? "-" : "", (unsigned)c.raw(2), c.pick({"e", "E", "e+", "e-", "E-"}), (unsigned)c.below(30));
    case 5: { Str s = c.coin() ? "-" : ""; s += (char)('1' + c.below(9)); int n = c.below(24); while (n--) s += (char)('0' + c.below(10)); if (c.coin()) { s += '.'; n = 1 + c.below(26); while (n--) s += (char)('0' + c.below(10)); } if (c.chance(1, 3)) s += fmt("e%d", (int)c.below(40) - 20); return s; }
    default: return fmt("%u", (unsigned)c.raw(4));
    }
}
static Str gen_str(Case &c) {
    Str s = gen_utf8(c, c.below(4) == 0 ? 40 : 10);
    return s;
}
static void gen_doc(Case &c, const Fmt &f, Str &out, int depth, int &budget) {
    int k = depth <= 0 || budget <= 0 || !c.more() ? c.below(6) : c.below(10);
    budget--;
    gap(c, f, out);
    switch (k) {
    case 0: out += "null"; break;
    case 1: out += "true"; break;
    case 2: out += "false"; break;
    case 3: out += jstr(c, gen_str(c)); break;
    case 4: case 5: out += gen_num(c); if (f.ws) out += ' '; break;
    case 6: case 7: { out += '['; int n = c.below(5); if (c.below(20) == 19) n = c.below(60); for (int i = 0; i < n; i++) { if (i) out += ','; gen_doc(c, f, out, depth - 1, budget); gap(c, f, out); } if (!n) gap(c, f, out); out += ']'; break; }
    default: { out += '{'; int n = c.below(5); for (int i = 0; i < n; i++) { if (i) out += ','; gap(c, f, out); out += jstr(c, c.below(3) ? Str(c.pick({"a", "b", "size", ""})) : gen_str(c)); gap(c, f, out); out += ':'; gen_doc(c, f, out, depth - 1, budget); gap(c, f, out); } if (!n) gap(c, f, out); out += '}'; }
    }
    if (depth > 3) gap(c, f, out);
}
static const std::vector<Str> TOK = {"{", "}", "[", "]", ",", ":", "\"", "\"a\"", "\"\"", "tru", "true", "fals", "false", "nul", "null", "-", "0", "1", "12", ".", "e", "E", "+", " ", "\n", "/", "//", "/*", "*/", "\\", "\\u", "\\ud83d", "\\ude00", "\\u00", "d8", "1.5", "1e5", "-1", "\"x", "\xEF\xBB\xBF", "\xff", "\x01", Str("\0", 1)};
static void mutate(Case &c, Str &t) {
    int n = 1 + c.below(3);
    while (n--) {
        size_t at = c.below(t.size() + 1), len = std::min<size_t>(1 + c.below(4), t.size() - at);
        switch (c.below(7)) {
        case 0: t.resize(at); break;
        case 1: t.erase(at, len); break;
        case 2: t.insert(at, c.pickv(TOK)); break;
        case 3: if (at < t.size()) t[at] = (char)c.byte(); break;
        case 4: t.insert(at, t.substr(at, c.below(12))); break;
        case 5: t.erase(at, len); t.insert(at, c.pickv(TOK)); break;
        default: t.erase(0, at);
        }
    }
}

// ---------------------------------------------------------------- C02
static void quiet() { log_set_quiet(1); }
static bool near(double a, double b) { if (a == b) return true; if (std::isinf(b) || fabs(b) > 1e290 || fabs(b) < 1e-290) return true; return fabs(a - b) <= 1e-12 * fabs(b); }
static void same(const J &j, const json_value *g, const Str &path) {
    const char *w = path.c_str();
    CHECK(g, "value", "%s: no value", w);
    if (j.t == json_integer && j.big) { CHECK(g->type == json_double && near(g->u.dbl, j.d), "value", "%s: number %.17g came out as type %d, %.17g / %lld", w, j.d, g->type, g->u.dbl, (long long)g->u.integer); return; }
    if (j.t == json_integer && j.i == INT64_MIN && g->type == json_double && g->u.dbl == -9223372036854775808.0) return; // the same number
    CHECK((int)g->type == j.t, "value", "%s: type %d, should be %d", w, (int)g->type, j.t);
    switch (j.t) {
    case json_boolean: CHECK(!!g->u.boolean == j.b, "value", "%s: boolean differs", w); break;
    case json_integer: CHECK(g->u.integer == j.i, "value", "%s: %lld, should be %lld", w, (long long)g->u.integer, (long long)j.i); break;
    case json_double: CHECK(near(g->u.dbl, j.d), "value", "%s: %.17g, should be %.17g", w, g->u.dbl, j.d); break;
    case json_string: CHECK(g->u.string.length == j.s.size() && !memcmp(g->u.string.ptr, j.s.data(), j.s.size() + 1), "value", "%s: string %s (%u bytes), should be %s", w, quote(Str(g->u.string.ptr, g->u.string.length)).c_str(), g->u.string.length, quote(j.s).c_str()); break;
    case json_array: CHECK(g->u.array.length == j.a.size(), "value", "%s: %u elements, should be %zu", w, g->u.array.length, j.a.size());
        for (size_t i = 0; i < j.a.size(); i++) { same(*j.a[i], g->u.array.values[i], path + fmt("[%zu]", i)); CHECK(g->u.array.values[i]->parent == g, "value", "%s[%zu]: wrong parent", w, i); } break;
    case json_object: CHECK(g->u.object.length == j.o.size(), "value", "%s: %u members, should be %zu", w, g->u.object.length, j.o.size());
        for (size_t i = 0; i < j.o.size(); i++) { auto &e = g->u.object.values[i];
            CHECK(e.name_length == j.o[i].first.size() && !memcmp(e.name, j.o[i].first.data(), e.name_length + 1), "value", "%s: member %zu is called %s, should be %s", w, i, quote(Str(e.name, e.name_length)).c_str(), quote(j.o[i].first).c_str());
            same(*j.o[i].second, e.value, path + "." + j.o[i].first); } break;
    }
}
static long g_live; static bool g_bad;
static void *cnt_alloc(size_t n, int zero, void *u) { if (u != &g_live) g_bad = true; g_live++; return zero ? calloc(1, n) : malloc(n); }
static void cnt_free(void *p, void *u) { if (u != &g_live) g_bad = true; if (p) { g_live--; free(p); } }

static void check_text(Case &c, const Str &text, bool comments) {
    Reader r(text, comments); JP want = r.read();
    char *h = (char *)malloc(text.size() ? text.size() : 1); memcpy(h, text.data(), text.size());
    json_settings st; memset(&st, 0, sizeof st); st.settings = comments ? json_enable_comments : 0; st.mem_alloc = cnt_alloc; st.mem_free = cnt_free; st.user_data = &g_live; g_live = 0; g_bad = false;
    bool ex = c.chance(1, 8) && comments; char err[512]; memset(err, 0, sizeof err);
    json_value *g = json_parse_ex(&st, h, text.size(), err);
    struct G { json_settings *s; json_value *&g; char *h; ~G() { if (g) json_value_free_ex(s, g); free(h); } } guard{&st, g, h};
    label(r.v == VALID ? "valid" : r.v == EXT ? "extended" : "invalid");
    if (r.deep) return;
    if (r.v == VALID) {
        if (!g) { fail("refused", "valid JSON refused with \"%s\": %s", err, quote(text, 600).c_str()); }
        same(*want, g, "$");
    } else if (r.v == INVALID) {
        CHECK(!g, "accepted", "text that is not JSON was accepted: %s", quote(text, 600).c_str());
        CHECK(err[0], "no-error", "refused without an error message: %s", quote(text, 600).c_str());
    } else if (comments && g && !ex) { // what is read is what is written
        if (r.lax) { }
        else same(*want, g, "$");
    }
    if (g) { json_value_free_ex(&st, g); g = nullptr; }
    CHECK(g_live == 0, "leak", "%ld blocks remain after release of %s", g_live, quote(text, 600).c_str());
    CHECK(!g_bad, "user-data", "allocation callbacks called with other user data");
}
static void c02(Case &c) {
    Fmt f{(int)c.below(3), c.chance(1, 3)}; int mode = c.below(6); Str t; bool comments = f.comments || c.chance(1, 3);
    size_t before = alloc_bytes();
    if (mode < 5) {
        int budget = 200; if (c.chance(1, 10)) t = "\xEF\xBB\xBF";
        gen_doc(c, f, t, 1 + c.below(7), budget);
        if (mode >= 2) mutate(c, t);
        if (t.size() > 4) c.nontrivial();
    } else if (c.below(8) == 7) { // deep nesting
        int n = 1 + c.below(c.thorough ? 60000 : 8000); int k = c.below(4); label("deep");
        for (int i = 0; i < n; i++) t += k & 1 ? "{\"a\":" : "[";
        t += "1"; int m = k & 2 ? n : c.below(n); for (int i = 0; i < m; i++) t += k & 1 ? "}" : "]";
        c.nontrivial(); c.note("depth %d closed %d", n, m); c.key(t);
        json_settings st; memset(&st, 0, sizeof st); st.mem_alloc = cnt_alloc; st.mem_free = cnt_free; st.user_data = &g_live; g_live = 0; char err[512] = "";
        json_value *g = json_parse_ex(&st, t.data(), t.size(), err);
        CHECK(!!g == (m == n), "deep", "%d levels, %d closed: %s", n, m, g ? "accepted" : "refused");
        int d = 0; for (json_value *v = g; v; d++) { if (v->type == json_integer) break; v = k & 1 ? (v->u.object.length == 1 ? v->u.object.values[0].value : nullptr) : (v->u.array.length == 1 ? v->u.array.values[0] : nullptr); }
        if (g) { CHECK(d == n, "deep", "%d levels found instead of %d", d, n); json_value_free_ex(&st, g); }
        CHECK(g_live == 0, "leak", "%ld blocks remain", g_live);
        return;
    } else { int n = 1 + c.below(14); while (n--) t += c.pickv(TOK); c.nontrivial(); }
    c.key(t); c.note("%s%s", comments ? "comments " : "", quote(t, 300).c_str());
    check_text(c, t, comments);
    size_t after = alloc_bytes(); CHECK(after <= before + 4096 + t.size() * 4, "leak", "%zu bytes remain", after - before);
}
static AddProp P1({"C02", c02, false, 500,
    "random JSON documents (nesting up to 8 and deep chains of thousands, all escapes, surrogate pairs, numbers up to 25+26 digits with exponents), written with random white space and comments, then mutated (cut, tokens inserted/deleted/repeated, bytes changed) or assembled from tokens, in exact-size heap blocks; compared with an independent recursive reader; non-trivial = longer than 4 bytes", 30, quiet});

// ---------------------------------------------------------------- C01
struct Snap { bool ran = false; std::map<Str, Str> v; };
static Snap g_snap; static int g_ret;
static Str cs(const char *p) { return p ? "=" + Str(p) : Str("NULL"); }
static Str list(char **p, unsigned n) { Str s = fmt("%u:", n); if (n && !p) return s + "NULL"; for (unsigned i = 0; i < n; i++) s += " " + (p[i] ? quote(p[i], 400) : Str("NULL")); return s; }
static Str num(long long n) { return fmt("%lld", n); }
static void snap(const wss_config_t *k, std::map<Str, Str> &m) {
    m["hosts_length"] = num(k->hosts_length);
    std::vector<Str> h; Str first; unsigned np = (k->port_http > 0) + (k->port_https > 0) + 1;
    unsigned n0 = k->hosts_length / np;
    for (int i = 0; i < k->hosts_length; i++) { if (i < (int)n0) first += " " + quote(k->hosts[i], 400); else h.push_back(k->hosts[i]); }
    std::sort(h.begin(), h.end()); Str hp; for (auto &x : h) hp += " " + quote(x, 400);
    m["hosts"] = first; m["hosts:ports"] = hp;
    m["paths"] = list(k->paths, k->paths_length); m["queries"] = list(k->queries, k->queries_length); m["origins"] = list(k->origins, k->origins_length);
    m["port.http"] = num(k->port_http); m["port.https"] = num(k->port_https); m["log_level"] = num(k->log);
    m["size.uri"] = num(k->size_uri); m["size.payload"] = num(k->size_payload); m["size.header"] = num(k->size_header); m["size.thread"] = num(k->size_thread); m["size.buffer"] = num(k->size_buffer);
    m["size.ringbuffer"] = num(k->size_ringbuffer); m["size.frame"] = num(k->size_frame); m["size.fragmented"] = num(k->max_frames);
    m["pool.workers"] = num(k->pool_workers); m["pool.retries"] = num(k->pool_retries);
    m["timeouts.pings"] = num(k->timeout_pings); m["timeouts.poll"] = num(k->timeout_poll); m["timeouts.read"] = num(k->timeout_read); m["timeouts.write"] = num(k->timeout_write); m["timeouts.client"] = num(k->timeout_client);
    m["ssl.key"] = cs(k->ssl_key); m["ssl.cert"] = cs(k->ssl_cert); m["ssl.ca_file"] = cs(k->ssl_ca_file); m["ssl.ca_path"] = cs(k->ssl_ca_path); m["ssl.cipher_list"] = cs(k->ssl_cipher_list); m["ssl.cipher_suites"] = cs(k->ssl_cipher_suites); m["ssl.dhparam"] = cs(k->ssl_dhparam);
    m["ssl.compression"] = num(k->ssl_compression); m["ssl.peer_cert"] = num(k->ssl_peer_cert); m["favicon"] = cs(k->favicon);
    m["subprotocols"] = list(k->subprotocols, k->subprotocols_length); m["extensions"] = list(k->extensions, k->extensions_length);
    m["subprotocols.config"] = list(k->subprotocols_config, k->subprotocols_length); m["extensions.config"] = list(k->extensions_config, k->extensions_length);
}
// blocks allocated by the server's own code and still live
static bool g_count; static long g_blocks;
extern "C" void __sanitizer_malloc_hook(const volatile void *p, size_t) { if (g_count && p) g_blocks++; }
extern "C" void __sanitizer_free_hook(const volatile void *p) { if (g_count && p) g_blocks--; }
extern "C" int __wrap_WSS_server_start(wss_config_t *k) { g_count = false; g_snap.ran = true; snap(k, g_snap.v); g_count = true; return g_ret; }

static void warm_conf() {
    static bool done; if (done) return; done = true; log_set_quiet(1); opterr = 0;
    Str d = pbt_scratch(); // the log goes there
    if (chdir(d.c_str()) || mkdir("log", 0755)) { perror("scratch"); _exit(3); }
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); (void)fd;
}
static void first() { log_set_quiet(1); }
struct Result { int rc; bool ran; std::map<Str, Str> v; };
static Result run_main(const std::vector<Str> &args, int ret) {
    std::vector<char *> av; std::vector<Str> keep = args; keep.insert(keep.begin(), "WSServer"); for (auto &s : keep) av.push_back(&s[0]); av.push_back(nullptr);
    g_snap = Snap(); g_ret = ret; optind = 0; opterr = 0;
    g_blocks = 0; g_count = true; int rc = wss_main((int)keep.size(), av.data()); g_count = false;
    Result r; r.rc = rc;
    log_set_fp(nullptr); log_set_lock(nullptr); log_set_udata(nullptr); log_set_quiet(1);
    r.ran = g_snap.ran; r.v = g_snap.v; g_snap = Snap();
    truncate("log/WSServer.log", 0);
    return r;
}
static std::map<Str, Str> defaults() {
    std::map<Str, Str> m;
    m["hosts_length"] = "0"; m["hosts"] = ""; m["hosts:ports"] = ""; m["paths"] = m["queries"] = m["origins"] = "0:";
    m["port.http"] = "80"; m["port.https"] = "443"; m["log_level"] = "3";
    m["size.uri"] = m["size.header"] = "8192"; m["size.payload"] = "16777215"; m["size.thread"] = "2097152"; m["size.buffer"] = "32768"; m["size.ringbuffer"] = "128"; m["size.frame"] = m["size.fragmented"] = "1048576";
    m["pool.workers"] = "4"; m["pool.retries"] = "5"; m["timeouts.pings"] = "1"; m["timeouts.poll"] = "-1"; m["timeouts.read"] = m["timeouts.write"] = "1000"; m["timeouts.client"] = "60000";
    for (const char *k : {"ssl.key", "ssl.cert", "ssl.ca_file", "ssl.ca_path", "ssl.cipher_list", "ssl.cipher_suites", "ssl.dhparam", "favicon"}) m[k] = "NULL";
    m["ssl.compression"] = m["ssl.peer_cert"] = "0";
    m["subprotocols"] = "2: \"subprotocols/echo/echo.so\" \"subprotocols/broadcast/broadcast.so\""; m["subprotocols.config"] = "2: NULL NULL"; m["extensions"] = m["extensions.config"] = "0:";
    return m;
}
static Str gen_name(Case &c) { // a non-empty string without NUL
    Str s;
    switch (c.below(4)) {
    case 0: s = c.pick({"localhost", "127.0.0.1", "mortz.dk", "a", "example.com:8080"}); break;
    case 1: s = c.pick({"/websocket", "csrf-token=[^&]*", "^(a|b)+$", "resources/x.pem", "https://x.y"}); break;
    case 2: { int n = 1 + c.below(30); while (n--) s += (char)(33 + c.below(94)); break; }
    default: s = gen_utf8(c, 1 + c.below(20)); s.erase(std::remove(s.begin(), s.end(), '\0'), s.end()); if (s.empty()) s = "x";
    }
    if (c.below(24) == 23) { Str b = s; int n = c.below(60); while (n--) s += b; }
    return s;
}
static bool g_dup;
typedef std::vector<std::pair<Str, Str>> Members;
static Str obj(Case &c, const Fmt &f, Members m) {
    if (g_dup && m.size() && c.chance(2, 3)) { auto x = m[c.below(m.size())]; m.push_back(x); }
    for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[c.below(i)]);
    Str o = "{"; bool first = true;
    for (auto &p : m) { if (!first) o += ","; first = false; gap(c, f, o); o += jstr(c, p.first); gap(c, f, o); o += ":"; gap(c, f, o); o += p.second; if (f.ws) o += ' '; gap(c, f, o); }
    gap(c, f, o); return o + "}";
}
static Str arr(Case &c, const Fmt &f, const std::vector<Str> &v) { Str o = "["; bool first = true; for (auto &x : v) { if (!first) o += ","; first = false; gap(c, f, o); o += x; gap(c, f, o); } gap(c, f, o); return o + "]"; }
static void unknown(Case &c, const Fmt &f, Members &m, bool top) {
    int n = c.below(8) < 5 ? 0 : 1 + c.below(3);
    for (int i = 0; i < n; i++) {
        Str v; int b = 12; gen_doc(c, f, v, 3, b);
        Str k = top ? c.pick({"comment", "host", "hosts_old", "origins2", "queries-disabled", "setup2", "setupx", "pathsX", "port", "size", "Hosts", "", "file", "timeouts"}) : c.pick({"comment", "subprotocol", "extension", "hosts", "http", "workers", "note", "ports", "log", "config", "key", "client", "Size", "sizes", "buffer"});
        m.push_back({k, v});
    }
}
static void numset(Case &c, Members &m, std::map<Str, Str> &want, const char *sec, const char *key, long long lo, long long hi, const Fmt &f) {
    if (!c.chance(2, 3)) return;
    long long v = c.below(4) == 0 ? (c.coin() ? hi : lo) : lo + (long long)c.below(c.coin() ? std::min<long long>(hi - lo + 1, 100000) : hi - lo + 1);
    m.push_back({key, num(v)}); want[Str(sec) + "." + key] = num(v);
}
static void strset(Case &c, Members &m, std::map<Str, Str> &want, const char *sec, const char *key) {
    if (c.chance(1, 3)) return;
    Str w = sec[0] ? Str(sec) + "." + key : Str(key);
    if (c.chance(1, 5)) { m.push_back({key, "null"}); return; }
    Str v = gen_name(c); m.push_back({key, jstr(c, v)}); want[w] = "=" + v;
}
struct Doc { Str text; std::map<Str, Str> want; int settings = 0; };
static Doc gen_conf(Case &c) {
    Doc d; d.want = defaults(); Fmt f{(int)c.below(3), c.chance(1, 3)}; Members top, setup; auto &w = d.want;
    std::vector<Str> hosts; bool has_hosts = false;
    for (const char *k : {"hosts", "paths", "queries", "origins"}) {
        if (c.chance(1, 4)) continue;
        std::vector<Str> v, e; int n = c.below(4) == 3 ? c.below(20) : c.below(4); for (int i = 0; i < n; i++) { v.push_back(gen_name(c)); e.push_back(jstr(c, v.back())); }
        top.push_back({k, arr(c, f, e)}); d.settings += n;
        if (!strcmp(k, "hosts")) { hosts = v; has_hosts = true; } else { Str s = fmt("%d:", n); for (auto &x : v) s += " " + quote(x, 400); w[k] = s; }
    }
    Members m;
    if (!c.chance(1, 5)) {
        if (!c.chance(1, 4)) { m.clear();
            const char *ks[] = {"payload", "header", "uri", "buffer", "thread", "ringbuffer", "frame", "fragmented"};
            for (auto k : ks) numset(c, m, w, "size", k, 0, 4294967295ll, f); unknown(c, f, m, false); d.settings += m.size(); 
            for (auto it = m.begin(); it != m.end();) { bool known = false; for (auto k : ks) known |= it->first == k; size_t cnt = 0; for (auto &x : m) cnt += x.first == it->first; if (known && cnt > 1 && it != std::find_if(m.begin(), m.end(), [&](auto &x) { return x.first == it->first; })) it = m.erase(it); else if (known && w["size." + it->first] != it->second) it = m.erase(it); else ++it; }
            setup.push_back({"size", obj(c, f, m)}); }
        if (!c.chance(1, 4)) { m.clear(); numset(c, m, w, "pool", "workers", 0, 4294967295ll, f); numset(c, m, w, "pool", "retries", 0, 4294967295ll, f); d.settings += m.size(); setup.push_back({"pool", obj(c, f, m)}); }
        if (!c.chance(1, 4)) { m.clear(); for (auto k : {"poll", "read", "write", "client"}) { numset(c, m, w, "timeouts", k, -5, 2147483647, f); if (w[Str("timeouts.") + k][0] == '-') w[Str("timeouts.") + k] = "-1"; } numset(c, m, w, "timeouts", "pings", 0, 4294967295ll, f); d.settings += m.size(); setup.push_back({"timeouts", obj(c, f, m)}); }
        if (!c.chance(1, 4)) { m.clear(); numset(c, m, w, "port", "http", 0, 65535, f); numset(c, m, w, "port", "https", 0, 65535, f); d.settings += m.size(); setup.push_back({"port", obj(c, f, m)}); }
        if (!c.chance(1, 4)) { m.clear(); for (auto k : {"key", "cert", "ca_file", "ca_path", "dhparam", "cipher_list", "cipher_suites"}) strset(c, m, w, "ssl", k);
            for (auto k : {"compression", "peer_cert"}) if (!c.chance(1, 3)) { bool b = c.coin(); m.push_back({k, b ? "true" : "false"}); w[Str("ssl.") + k] = b ? "1" : "0"; }
            d.settings += m.size(); setup.push_back({"ssl", obj(c, f, m)}); }
        strset(c, setup, w, "", "favicon");
        if (!c.chance(1, 3)) { long long v = c.below(8); setup.push_back({"log_level", num(v)}); w["log_level"] = num(v); d.settings++; }
        for (const char *k : {"subprotocols", "extensions"}) {
            if (c.chance(1, 4)) continue;
            std::vector<Str> e; int n = c.below(5); Str fs = fmt("%d:", n), cf = fmt("%d:", n);
            for (int i = 0; i < n; i++) { m.clear(); Str file = gen_name(c); m.push_back({"file", jstr(c, file)}); fs += " " + quote(file, 400);
                int q = c.below(4); if (q == 0) cf += " NULL"; else if (q == 1) { m.push_back({"config", "null"}); cf += " NULL"; } else { Str s = c.below(4) == 0 ? Str() : gen_name(c); m.push_back({"config", jstr(c, s)}); cf += " " + quote(s, 400); }
                e.push_back(obj(c, f, m)); d.settings++; }
            setup.push_back({k, arr(c, f, e)});
            if (n == 0 && !strcmp(k, "subprotocols")) continue;  // none given: the default ones
            w[k] = fs; w[Str(k) + ".config"] = cf;
        }
        Members u; unknown(c, f, u, false); for (auto &x : u) setup.push_back(x);
        Str s; for (auto &x : setup) s = ""; top.push_back({"setup", obj(c, f, setup)});
    }
    unknown(c, f, top, true);
    if (has_hosts && !hosts.empty()) {
        int n = 1; std::vector<Str> hp; for (const char *p : {"port.http", "port.https"}) if (w[p] != "0") { n++; for (auto &h : hosts) hp.push_back(h + ":" + w[p]); }
        std::sort(hp.begin(), hp.end()); w["hosts_length"] = num(hosts.size() * n); Str a, b; for (auto &h : hosts) a += " " + quote(h, 400); for (auto &h : hp) b += " " + quote(h, 400); w["hosts"] = a; w["hosts:ports"] = b;
    }
    Str pre; gap(c, f, pre); d.text = pre + obj(c, f, top); gap(c, f, d.text);
    if (c.chance(1, 12)) d.text = "\xEF\xBB\xBF" + d.text;
    return d;
}
// The same document with some values replaced by values of other types.
static void ser(const JP &j, Str &o) {
    switch (j->t) {
    case json_object: o += "{"; for (size_t i = 0; i < j->o.size(); i++) { if (i) o += ","; o += json_q(j->o[i].first) + ":"; ser(j->o[i].second, o); } o += "}"; break;
    case json_array: o += "["; for (size_t i = 0; i < j->a.size(); i++) { if (i) o += ","; ser(j->a[i], o); } o += "]"; break;
    case json_string: o += json_q(j->s); break;
    case json_boolean: o += j->b ? "true" : "false"; break;
    case json_integer: o += fmt("%lld", (long long)j->i); break;
    case json_double: o += fmt("%.17g", j->d); if (o.find_last_of(".eE") == Str::npos) o += ".0"; break;
    default: o += "null";
    }
}
static void nodes(JP &j, std::vector<JP *> &v, bool top) { if (!top) v.push_back(&j); for (auto &x : j->a) nodes(x, v, false); for (auto &x : j->o) nodes(x.second, v, false); }
static void retype(Case &c, Str &text) {
    Reader rd(text, true); JP j = rd.read(); if (!j || rd.deep) return;
    int n = 1 + c.below(3);
    while (n--) {
        std::vector<JP *> v; nodes(j, v, true); if (v.empty()) return;
        JP &x = *v[c.below(v.size())]; JP old = x; x = std::make_shared<J>();
        switch (c.below(9)) {
        case 0: x->t = json_integer; x->i = c.pick<int64_t>({0, 1, -1, 80, 65536, 4294967296ll, INT64_MAX, INT64_MIN}); break;
        case 1: x->t = json_string; x->s = c.pick({"", "x", "80", "true"}); break;
        case 2: x->t = json_boolean; x->b = c.coin(); break;
        case 3: x->t = json_array; break;
        case 4: x->t = json_object; break;
        case 5: x->t = json_array; x->a.push_back(old); break;
        case 6: x->t = json_object; x->o.push_back({c.pick({"file", "config", "http", "x", ""}), old}); break;
        case 7: x->t = json_double; x->d = c.pick<double>({0.5, -1.5, 1e300, 80.25}); break;
        default: x->t = json_null;
        }
    }
    Str o; ser(j, o); text = o;
}
static bool g_warm;
static void put(const char *path, const Str &s) { FILE *f = fopen(path, "wb"); if (!f) { perror(path); _exit(3); } if (s.size()) fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void c01(Case &c) {
    if (!g_warm) { g_warm = true; warm_conf(); put("c.json", "{\"setup\":{\"subprotocols\":[{\"file\":\"x\"}]}}"); run_main({"-c", "c.json"}, 0); run_main({"-c", "c.json", "-x"}, 0); run_main({}, 0); }
    int mode = c.below(8); Doc d;
    if (mode == 7) {
        int k = c.below(6); label("no-file"); c.nontrivial(); c.key(k);
        std::vector<Str> a = k == 0 ? std::vector<Str>{"-c", "missing.json"} : k == 1 ? std::vector<Str>{"--config", "."} : k == 2 ? std::vector<Str>{"-h"} : k == 3 ? std::vector<Str>{"--nonsense"} : k == 4 ? std::vector<Str>{"-c"} : std::vector<Str>{};
        int ret = c.coin() ? EXIT_FAILURE : EXIT_SUCCESS; c.note("arguments:"); for (auto &x : a) c.note(" %s", x.c_str());
        run_main({"-h"}, 0);
        { Result r = run_main(a, ret);
        CHECK(r.ran == (k == 5), "ran", "server %s", r.ran ? "started" : "not started");
        CHECK(r.rc == (k == 5 ? ret : k == 2 ? EXIT_SUCCESS : EXIT_FAILURE), "exit", "exit status %d", r.rc);
        if (r.ran) for (auto &p : defaults()) CHECK(r.v[p.first] == p.second, "default", "%s is %s by default, should be %s", p.first.c_str(), r.v[p.first].c_str(), p.second.c_str()); }
    } else {
        bool damaged = mode >= 5; g_dup = damaged && c.chance(1, 3); // repeated members
        d = gen_conf(c); Str text = d.text;
        if (damaged) { if (c.below(12) == 11) { int n = 1 + c.below(c.thorough ? 400000 : 60000); Str x; for (int i = 0; i < n; i++) x += "["; Str y(n, ']'); g_dup = false; text = "{\"setup\":{\"x\":" + x + y + ",\"log_level\":1}}"; label("deep"); } else if (g_dup) label("repeated"); else if (c.coin()) { retype(c, text); label("retyped"); } else mutate(c, text); }
        c.key(text); if (d.settings >= 3) c.nontrivial(); label(damaged ? "damaged" : "valid"); c.note("%s%s", damaged ? "damaged: " : "", quote(text, 1500).c_str());
        put("c.json", text); int ret = c.coin() ? EXIT_FAILURE : EXIT_SUCCESS;
        bool noport = d.want["port.http"] == "0" && d.want["port.https"] == "0";
        run_main({"-h"}, 0);
        { Result r = run_main({c.coin() ? "-c" : "--config", "c.json"}, ret);
        if (!damaged) {
            if (noport) { CHECK(!r.ran && r.rc == EXIT_FAILURE, "no-port", "a configuration without any port was accepted"); label("no-port"); }
            else {
                CHECK(r.ran, "refused", "a valid configuration was refused (exit status %d)", r.rc);
                CHECK(r.rc == ret, "exit", "exit status %d, the server returned %d", r.rc, ret);
                for (auto &p : d.want) CHECK(r.v[p.first] == p.second, "setting", "%s is %s, should be %s", p.first.c_str(), r.v[p.first].c_str(), p.second.c_str());
            }
        } else {
            Reader rd(text, true); JP j = rd.read();
            if (!rd.deep && (rd.v == INVALID || j->t != json_object)) { CHECK(!r.ran && r.rc == EXIT_FAILURE, "accepted", "%s was accepted", rd.v == INVALID ? "a damaged configuration" : "a configuration that is not an object"); label("rejected"); }
            else CHECK(r.ran ? r.rc == ret : r.rc == EXIT_FAILURE, "exit", "exit status %d", r.rc);
        } }
    }
    CHECK(g_blocks == 0, "leak", "%ld blocks remain allocated", g_blocks);
}
static AddProp P2({"C01", c01, false, 900,
    "random configuration files: every documented setting present or absent with random in-range values, lists of random strings, unknown extra members, random member order, white space, comments and string escapes, run through the server's own main() up to the point where the server would start; damaged documents; missing files and other arguments; non-trivial = at least 3 settings", 30, first});
