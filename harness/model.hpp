// model.hpp - an independent model of RON ops and of the open text notation.
// Nothing here uses the code under test: ids, values, spellings and the
// reference recogniser are written from the notation's grammar.
#pragma once
#include <cmath>
#include <optional>
#include "vf.hpp"

namespace md {
using vf::i64;
using vf::Rng;
using vf::str;
using vf::u32;
using vf::u64;
using vf::u8;

constexpr u64 M60 = (1ULL << 60) - 1;
const char B64[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~";
const char VERS[] = "$%+-";
enum { NAME = 0, HASH = 1, TIME = 2, DERIVED = 3 };
enum { RAW = 0, REDUCED = 1, HEADER = 2, QUERY = 3 };
const char TERMS[] = ";,!?";

inline int b64val(u8 c) {
    const char* p = c ? strchr(B64, c) : nullptr;
    return p ? int(p - B64) : -1;
}

// ------------------------------------------------------------------- ids --
struct Id {
    u64 v = 0, o = 0;  // 4 flag bits + 60-bit payload each
    bool operator==(const Id& b) const { return v == b.v && o == b.o; }
    bool operator!=(const Id& b) const { return !(*this == b); }
    bool operator<(const Id& b) const { return v < b.v || (v == b.v && o < b.o); }
    bool operator>(const Id& b) const { return b < *this; }
    int version() const { return (o >> 60) & 3; }
    int variety() const { return v >> 60; }
    Id inc(u64 n = 1) const { return {v + n, o}; }
};
inline Id id(u64 v60, int ver, u64 o60, int variety = 0) {
    return {(v60 & M60) | (u64(variety) << 60), (o60 & M60) | (u64(ver) << 60)};
}
inline Id ev(u64 v60, u64 o60) { return id(v60, TIME, o60); }
const Id FATAL{M60, M60};

// a 60-bit word in base64, without trailing zeros (but at least one digit)
inline str word(u64 w) {
    str s;
    for (int i = 9; i >= 0; i--) s += B64[(w >> (6 * i)) & 63];
    while (s.size() > 1 && s.back() == '0') s.pop_back();
    return s;
}
inline u64 unword(const str& s) {
    u64 w = 0;
    for (int i = 0; i < 10; i++) w = (w << 6) | (i < (int)s.size() ? (u64)b64val(s[i]) : 0);
    return w;
}
inline str text(const Id& i) {
    str s;
    if (i.variety()) s += B64[i.variety()], s += '/';
    s += word(i.v & M60);
    if (i.o) s += VERS[i.version()], s += word(i.o & M60);
    return s;
}
// any other legal spelling of the same id
inline str spelled(const Id& i, Rng& r) {
    auto pad = [&](str w) {
        if (r.chance(30))
            for (int n = (int)r.below(11 - w.size()); n > 0; n--) w += '0';
        return w;
    };
    str s;
    if (i.variety() || r.chance(10)) s += B64[i.variety()], s += '/';
    s += pad(word(i.v & M60));
    if (i.o || r.chance(10)) s += VERS[i.version()], s += pad(word(i.o & M60));
    return s;
}

// the notation's id grammar: [0-9A-F]/ ? WORD ( [$%+-] WORD )?
inline bool parse_id(const str& s, Id& out, size_t* len = nullptr) {
    size_t p = 0;
    u64 var = 0, ver = 0;
    auto wordat = [&](size_t& q) {
        size_t b = q;
        while (q < s.size() && b64val(s[q]) >= 0) q++;
        return s.substr(b, q - b);
    };
    if (s.size() > 1 && s[1] == '/' && b64val(s[0]) >= 0 && b64val(s[0]) < 16) var = b64val(s[0]), p = 2;
    str v = wordat(p);
    if (v.empty()) return false;
    str o;
    if (p < s.size() && s[p] && strchr(VERS, s[p])) {
        size_t q = p + 1;
        o = wordat(q);
        if (o.empty()) return false;
        ver = strchr(VERS, s[p]) - VERS;
        p = q;
    }
    if (len) *len = p;
    else if (p != s.size()) return false;
    if (v.size() > 10 || o.size() > 10) return false;
    out = {unword(v) | var << 60, unword(o) | ver << 60};
    return true;
}

// ---------------------------------------------------------------- values --
enum T { U, I, S, F };
struct Val {
    T t = U;
    Id u;
    i64 i = 0;
    double f = 0;
    std::u32string s;
    static Val uuid(Id x) { Val v; v.t = U; v.u = x; return v; }
    static Val integer(i64 x) { Val v; v.t = I; v.i = x; return v; }
    static Val real(double x) { Val v; v.t = F; v.f = x; return v; }
    static Val string(const std::u32string& x) { Val v; v.t = S; v.s = x; return v; }
    bool operator==(const Val& b) const {
        if (t != b.t) return false;
        switch (t) {
            case U: return u == b.u;
            case I: return i == b.i;
            case F: return memcmp(&f, &b.f, 8) == 0;
            default: return s == b.s;
        }
    }
    bool operator!=(const Val& b) const { return !(*this == b); }
};
struct Op {
    Id id, ref;
    std::vector<Val> vals;
    int term = RAW;
    bool same(const Op& b) const { return id == b.id && ref == b.ref && vals == b.vals; }
    bool operator==(const Op& b) const { return same(b) && term == b.term; }
};
using Ops = std::vector<Op>;

inline str utf8(const std::u32string& s) {
    str r;
    for (u32 c : s) {
        if (c < 0x80) r += (char)c;
        else if (c < 0x800) r += (char)(0xc0 | c >> 6), r += (char)(0x80 | (c & 63));
        else if (c < 0x10000) r += (char)(0xe0 | c >> 12), r += (char)(0x80 | (c >> 6 & 63)), r += (char)(0x80 | (c & 63));
        else r += (char)(0xf0 | c >> 18), r += (char)(0x80 | (c >> 12 & 63)), r += (char)(0x80 | (c >> 6 & 63)), r += (char)(0x80 | (c & 63));
    }
    return r;
}
inline std::u32string ascii32(const str& s) { return std::u32string(s.begin(), s.end()); }

inline str show(const Val& v) {
    char b[64];
    switch (v.t) {
        case U: return ">" + text(v.u);
        case I: return "=" + std::to_string(v.i);
        case F: snprintf(b, 64, "^%.17g(%a)", v.f, v.f); return b;
        default: {
            str r = "'";
            for (u32 c : v.s) {
                if (c >= 32 && c < 127) r += (char)c;
                else snprintf(b, 64, "\\u{%x}", c), r += b;
            }
            return r + "'";
        }
    }
}
inline str show(const Op& o) {
    str r = "@" + text(o.id) + " :" + text(o.ref);
    for (auto& v : o.vals) r += " " + show(v);
    return r + TERMS[o.term & 3];
}
inline str show(const Ops& ops, size_t max = 40) {
    str r;
    for (size_t i = 0; i < ops.size() && i < max; i++) r += show(ops[i]) + "\n";
    if (ops.size() > max) r += "... " + std::to_string(ops.size()) + " ops\n";
    return r;
}
inline u64 hashop(const Op& o) { return vf::hash(show(o)); }

// strict UTF-8 (no overlong forms, no surrogates, nothing above 10FFFF)
inline int utf8_at(const str& s, size_t p, u32& cp) {
    u8 c = s[p];
    int n = c < 0x80 ? 1 : c < 0xc2 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf5 ? 4 : 0;
    if (!n || p + n > s.size()) return 0;
    cp = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
    for (int k = 1; k < n; k++) {
        u8 d = s[p + k];
        if ((d & 0xc0) != 0x80) return 0;
        cp = cp << 6 | (d & 63);
    }
    if ((n == 3 && cp < 0x800) || (n == 4 && cp < 0x10000) || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000)) return 0;
    return n;
}
inline bool utf8_decode(const str& s, std::u32string& out) {
    for (size_t p = 0; p < s.size();) {
        u32 cp;
        int n = utf8_at(s, p, cp);
        if (!n) return false;
        out += (char32_t)cp;
        p += n;
    }
    return true;
}

// ------------------------------------------------------------- spelling --
inline bool legal_cp(u32 c) { return c && c <= 0x10ffff && !(c >= 0xd800 && c < 0xe000); }

// one code point inside quotes, spelled in one of its legal ways
inline str spell_cp(u32 c, Rng& r) {
    char b[16];
    const char* esc = nullptr;
    switch (c) {
        case '\n': esc = "\\n"; break;
        case '\r': esc = "\\r"; break;
        case '\t': esc = "\\t"; break;
        case '\b': esc = "\\b"; break;
        case '\\': esc = "\\\\"; break;
        case '\'': esc = "\\'"; break;
        case '"': esc = "\\\""; break;
        case '/': esc = "\\/"; break;
    }
    bool must = c == '\n' || c == '\r' || c == '\\' || c == '\'';
    bool u = c < 0x10000 && r.chance(must ? 30 : 12);
    if (u) {
        snprintf(b, 16, r.coin() ? "\\u%04x" : "\\u%04X", c);
        return b;
    }
    if (must || (esc && r.coin())) return esc;
    return utf8(std::u32string(1, c));
}
inline str spell_str(const std::u32string& s, Rng& r) {
    str t;
    for (u32 c : s) t += spell_cp(c, r);
    return t;
}
inline str ws(Rng& r, int min = 0) {
    static const char* W = " \n\t\r ";
    str s;
    int n = min + (r.chance(15) ? (int)r.below(4) : 0);
    for (int i = 0; i < n; i++) s += r.chance(70) ? ' ' : W[r.below(5)];
    return s;
}
// DIGITS | DIGITS [eE] DIGITS | DIGITS [eE] [+-] DIGITS : what an id must be quoted against
inline bool looks_numeric(const str& t) {
    size_t p = 0;
    auto digits = [&] { size_t b = p; while (p < t.size() && isdigit((u8)t[p])) p++; return p > b; };
    if (!digits()) return false;
    if (p == t.size()) return true;
    if (t[p] != 'e' && t[p] != 'E') return false;
    p++;
    if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++;
    return digits() && p == t.size();
}
inline str float_text(double f, Rng& r) {
    char b[64];
    for (int tries = 0; tries < 20; tries++) {
        static const char* fmts[] = {"%.17g", "%.17G", "%.16e", "%.17E", "%.16g", "%.15g", "%.6f", "%.1f"};
        snprintf(b, 64, fmts[r.below(8)], f);
        if (strlen(b) > 24 || strtod(b, nullptr) != f || std::signbit(strtod(b, 0)) != std::signbit(f)) continue;
        str s = b;
        if (s.find('.') == str::npos && s.find_first_of("eE") == str::npos) s += r.coin() ? ".0" : "E0";
        if (s.size() > 24) continue;
        return s;
    }
    snprintf(b, 64, "%.17G", f);
    str s = b;
    if (s.find('.') == str::npos && s.find_first_of("eE") == str::npos) s += ".0";
    return s;
}
inline str spell_val(const Val& v, Rng& r, bool& needs_ws) {
    needs_ws = false;
    switch (v.t) {
        case U: {
            str t = spelled(v.u, r);
            if (looks_numeric(t) || r.chance(20)) return ">" + ws(r) + t;
            needs_ws = true;
            return t;
        }
        case I: {
            str t = std::to_string(v.i);
            if (v.i >= 0 && r.chance(10)) t = "+" + t;
            if (r.chance(8) && t.size() < 15) {  // zero padding
                size_t at = isdigit((u8)t[0]) ? 0 : 1;
                t.insert(at, str(1 + r.below(4), '0'));
            }
            if (r.chance(25)) return "=" + ws(r) + t;
            needs_ws = true;
            return t;
        }
        case F: {
            str t = float_text(v.f, r);
            if (r.chance(25)) return "^" + ws(r) + t;
            needs_ws = true;
            return t;
        }
        default: return "'" + spell_str(v.s, r) + "'";
    }
}

struct SpellOpts {
    bool spans = true, bare_first = true, explicit_ids = false, plain_ws = false;
};
// a frame describing exactly these ops, in a random legal spelling. Ops that share a
// span must carry the same terminator (that is what the notation can express).
inline str spell(const Ops& ops, Rng& r, SpellOpts o = {}, vf::Case* c = nullptr) {
    str out;
    Id prev{};
    for (size_t i = 0; i < ops.size();) {
        const Op& op = ops[i];
        out += ws(r);
        Id did = prev.inc(), dref = prev;
        bool wid = o.explicit_ids || op.id != did || op.ref != dref || r.chance(20);
        // a reference can only be spelled together with an id
        bool wref = wid && (o.explicit_ids || op.ref != dref || r.chance(20));
        if (wid) {
            out += "@" + spelled(op.id, r);
            if (wref) out += ws(r, r.coin()) + ":" + spelled(op.ref, r);
        }
        // how many ops can this record stand for?
        size_t span = 1;
        bool letters = !op.vals.empty() && op.vals.back().t == S && op.vals.back().s.size() == 1;
        auto runs = [&](bool lt) {
            size_t n = 1;
            while (i + n < ops.size()) {
                const Op &a = ops[i + n - 1], &b = ops[i + n];
                if (b.id != a.id.inc() || b.ref != a.id || b.term != op.term || b.vals.size() != op.vals.size()) break;
                bool ok = true;
                for (size_t k = 0; k < op.vals.size(); k++) {
                    if (lt && k + 1 == op.vals.size()) ok = ok && b.vals[k].t == S && b.vals[k].s.size() == 1;
                    else ok = ok && b.vals[k] == op.vals[k];
                }
                if (!ok) break;
                n++;
            }
            return n;
        };
        bool numeric = false;
        if (o.spans && r.chance(60)) {
            if (letters && r.chance(70)) {
                span = 1 + r.below(runs(true));
            } else {
                letters = false;
                size_t m = runs(false);
                if (m > 1 || r.chance(5)) span = 1 + r.below(m), numeric = true;
            }
        } else
            letters = false;
        if (numeric) letters = false;
        size_t nv = op.vals.size() - (letters ? 1 : 0);
        for (size_t k = 0; k < nv; k++) {
            bool need;
            str t = spell_val(op.vals[k], r, need);
            if (need && !(k == 0 && !wid && o.bare_first && r.coin())) {
                out += r.chance(90) ? str(" ") : ws(r, 1);
            } else if (!need && r.chance(80))
                out += ' ';
            out += t;
        }
        out += ws(r);
        if (letters) {
            std::u32string s;
            for (size_t k = 0; k < span; k++) s += ops[i + k].vals.back().s;
            out += "(" + ws(r) + "'" + spell_str(s, r) + "'" + ws(r) + ")";
            if (c) c->saw("letter spans");
        } else if (numeric) {
            out += "(" + ws(r) + (r.chance(10) ? "0" : "") + std::to_string(span) + ws(r) + ")";
            if (c) c->saw("number spans");
        }
        out += ws(r);
        out += TERMS[op.term];
        i += span;
        prev = ops[i - 1].id;
    }
    out += ws(r);
    return out;
}

// -------------------------------------------------- reference recogniser --
// A nondeterministic-free hand parser of the open text grammar:
//   FRAME = (WS* OP)* WS* ".\n"?
//   OP    = (SPEC | BARE)? WS* ATOMS? WS* SPAN? WS* TERM
//   SPEC  = '@' UUID WS* (':' UUID)?      ATOMS = ATOM (WS* ATOM)*
//   ATOM  = WS BARE | '=' WS* INT | '^' WS* FLOAT | '>' WS* UUID | "'" CP* "'"
//   SPAN  = '(' WS* (DIGITS | "'" CP* "'") WS* ')'
// Bare values: the longest token over the value alphabet must be an INT, a
// FLOAT or a UUID in this order of preference.
struct RefParse {
    const str& s;
    size_t p = 0;
    Ops ops;
    bool outside = false;    // uses something the notation gives no meaning to
    bool error = false;      // syntax error (else: end of frame)
    u64 too_many = 0;        // the frame describes more ops than we care to expand
    size_t max_ops;
    RefParse(const str& in, size_t max = 100000) : s{in}, max_ops{max} { run(); }

    bool eof() const { return p >= s.size(); }
    u8 cur() const { return eof() ? 0 : (u8)s[p]; }
    static bool isws(u8 c) { return c == ' ' || c == '\r' || c == '\n' || c == '\t'; }
    void skip() { while (!eof() && isws(cur())) p++; }
    bool uuid_(Id& out) {
        size_t len = 0;
        str rest = s.substr(p, 64);
        // longest prefix that is an id
        if (!parse_prefix(rest, out, len)) return false;
        p += len;
        return true;
    }
    // like parse_id, but consumes greedily; over-long words are an error
    bool parse_prefix(const str&, Id& out, size_t& len) {
        size_t q = p;
        u64 var = 0, ver = 0;
        auto wordat = [&] { size_t b = q; while (q < s.size() && b64val(s[q]) >= 0) q++; return s.substr(b, q - b); };
        if (q + 1 < s.size() && s[q + 1] == '/' && b64val(s[q]) >= 0 && b64val(s[q]) < 16) var = b64val(s[q]), q += 2;
        str v = wordat();
        if (v.empty() || v.size() > 10) return false;
        str o;
        if (q < s.size() && s[q] && strchr(VERS, s[q])) {
            ver = strchr(VERS, s[q]) - VERS;
            q++;
            o = wordat();
            if (o.empty() || o.size() > 10) return false;
        }
        len = q - p;
        out = {unword(v) | var << 60, unword(o) | ver << 60};
        return true;
    }
    static bool int_text(const str& t) {
        size_t q = !t.empty() && (t[0] == '-' || t[0] == '+');
        if (q == t.size()) return false;
        for (; q < t.size(); q++) if (!isdigit((u8)t[q])) return false;
        return true;
    }
    static bool float_text_(const str& t) {
        size_t q = !t.empty() && (t[0] == '-' || t[0] == '+');
        auto dig = [&] { size_t b = q; while (q < t.size() && isdigit((u8)t[q])) q++; return q > b; };
        if (!dig()) return false;
        bool frac = false, ex = false;
        if (q < t.size() && t[q] == '.') { q++; if (!dig()) return false; frac = true; }
        if (q < t.size() && (t[q] == 'e' || t[q] == 'E')) {
            q++;
            if (q < t.size() && (t[q] == '-' || t[q] == '+')) q++;
            if (!dig()) return false;
            ex = true;
        }
        return q == t.size() && (frac || ex);
    }
    static bool int_val(const str& t, i64& v) {
        bool neg = t[0] == '-';
        size_t q = t[0] == '-' || t[0] == '+';
        if (t.size() - q > 19) return false;
        unsigned __int128 x = 0;
        for (; q < t.size(); q++) x = x * 10 + (t[q] - '0');
        if (x > (unsigned __int128)INT64_MAX + (neg ? 1 : 0)) return false;
        v = neg ? (i64)(0 - (u64)x) : (i64)x;
        return true;
    }
    // a bare token: [0-9A-Za-z_~/$%+-.]+ ; '.' only inside numbers
    bool bare(Val& v) {
        size_t q = p;
        while (q < s.size() && (b64val(s[q]) >= 0 || (s[q] && strchr("/$%+-", s[q])))) q++;
        size_t q2 = q;  // with a fraction?
        if (q < s.size() && s[q] == '.') {
            q2 = q + 1;
            while (q2 < s.size() && (isdigit((u8)s[q2]) || s[q2] == 'e' || s[q2] == 'E' ||
                                     ((s[q2] == '+' || s[q2] == '-') && (s[q2 - 1] == 'e' || s[q2 - 1] == 'E')))) q2++;
        }
        for (size_t e : {q2, q}) {
            str t = s.substr(p, e - p);
            if (t.empty()) return false;
            if (int_text(t)) {
                if (!int_val(t, v.i)) return false;
                v.t = I; p = e; return true;
            }
            if (float_text_(t)) {
                if (t.size() > 24) return false;
                v.t = F; v.f = strtod(t.c_str(), nullptr); p = e; return true;
            }
            if (e == q && parse_id(t, v.u)) { v.t = U; p = e; return true; }
            if (q2 == q) break;
        }
        return false;
    }
    bool number_tok(str& t, bool fl) {  // longest INT / FLOAT at p
        size_t q = p;
        auto dig = [&] { size_t b = q; while (q < s.size() && isdigit((u8)s[q])) q++; return q > b; };
        if (q < s.size() && (s[q] == '-' || s[q] == '+')) q++;
        if (!dig()) return false;
        if (fl) {
            bool any = false;
            if (q < s.size() && s[q] == '.') { q++; if (!dig()) return false; any = true; }
            if (q < s.size() && (s[q] == 'e' || s[q] == 'E')) {
                q++;
                if (q < s.size() && (s[q] == '-' || s[q] == '+')) q++;
                if (!dig()) return false;
                any = true;
            }
            if (!any) return false;
        }
        t = s.substr(p, q - p);
        p = q;
        return true;
    }
    bool string_(std::u32string& out) {  // after the opening quote, through the closing one
        while (!eof()) {
            u8 c = cur();
            if (c == '\'') { p++; return true; }
            if (c == '\n' || c == '\r' || c == 0) return false;
            if (c == '\\') {
                p++;
                u8 e = cur();
                if (eof()) return false;
                if (e == 'u') {
                    if (p + 4 >= s.size()) return false;
                    u32 cp = 0;
                    for (int k = 1; k <= 4; k++) {
                        u8 h = s[p + k];
                        if (!isxdigit(h)) return false;
                        cp = cp * 16 + (isdigit(h) ? h - '0' : (h | 32) - 'a' + 10);
                    }
                    p += 5;
                    if (!legal_cp(cp)) outside = true;  // NUL, lone surrogates: no defined character
                    out += (char32_t)cp;
                    continue;
                }
                static const char from[] = "nrt\\b'/\"", to[] = "\n\r\t\\\b'/\"";
                const char* f = e ? strchr(from, e) : nullptr;
                if (!f) return false;
                out += (char32_t)to[f - from];
                p++;
                continue;
            }
            u32 cp;
            int n = utf8_at(s, p, cp);
            if (!n) return false;
            out += (char32_t)cp;
            p += n;
        }
        return false;
    }
    bool op(Id prev) {
        Op o;
        o.id = prev.inc();
        o.ref = prev;
        bool first = true;
        if (cur() == '@') {
            p++;
            if (!uuid_(o.id)) return false;
            size_t save = p;
            skip();
            if (cur() == ':' && !eof()) {
                p++;
                if (!uuid_(o.ref)) return false;
            } else
                p = save;
            first = false;
        }
        bool span_seen = false;
        bool had_ws = first;  // the very first value of an op may come without whitespace
        u64 span = 1;
        std::u32string letters;
        bool is_letters = false;
        for (;;) {
            if (eof()) return false;
            u8 c = cur();
            if (isws(c)) { p++; had_ws = true; continue; }
            if (c && strchr(TERMS, c)) {
                o.term = int(strchr(TERMS, c) - TERMS);
                p++;
                break;
            }
            if (span_seen) return false;
            if (c == '(') {
                p++;
                skip();
                if (cur() == '\'') {
                    p++;
                    if (!string_(letters)) return false;
                    is_letters = true;
                    span = letters.size();
                    if (!span) return false;
                } else {
                    str d;
                    while (!eof() && isdigit(cur())) d += (char)cur(), p++;
                    if (d.empty()) return false;
                    span = 0;
                    for (char ch : d) {
                        span = span * 10 + (ch - '0');
                        if (span > (1ULL << 30)) return false;
                    }
                    if (!span) return false;
                }
                skip();
                if (cur() != ')') return false;
                p++;
                span_seen = true;
                continue;
            }
            Val v;
            if (c == '=') {
                p++; skip();
                str t;
                if (!number_tok(t, false) || !int_val(t, v.i)) return false;
                v.t = I;
            } else if (c == '^') {
                p++; skip();
                str t;
                if (!number_tok(t, true) || t.size() > 24) return false;
                v.t = F; v.f = strtod(t.c_str(), nullptr);
            } else if (c == '>') {
                p++; skip();
                v.t = U;
                if (!uuid_(v.u)) return false;
            } else if (c == '\'') {
                p++;
                v.t = S;
                if (!string_(v.s)) return false;
            } else {
                if (!had_ws) return false;
                if (!bare(v)) return false;
            }
            had_ws = false;
            o.vals.push_back(v);
        }
        for (u64 k = 0; k < span; k++) {
            if (ops.size() >= max_ops) { too_many = span; return true; }
            Op x = o;
            if (k) x.id = ops.back().id.inc(), x.ref = ops.back().id;
            if (is_letters) x.vals.push_back(Val::string(letters.substr(k, 1)));
            ops.push_back(x);
        }
        return true;
    }
    void run() {
        for (;;) {
            skip();
            if (eof()) return;
            if (cur() == '.' ) {
                // the terminator must be the last thing
                if (p + 2 == s.size() && s[p + 1] == '\n') { p += 2; return; }
                error = true;
                return;
            }
            Id prev = ops.empty() ? Id{} : ops.back().id;
            if (!op(prev)) { error = true; return; }
            if (too_many) return;
        }
    }
};

// ------------------------------------------------------------ generators --
inline u64 gen_word(Rng& r) {
    switch (r.below(10)) {
        case 0: return 0;
        case 1: return r.below(16);
        case 2: return M60 - r.below(4);
        case 3: return (1ULL << r.below(60)) - r.below(2);
        case 4: case 5: {  // a short word
            u64 w = 0;
            int n = 1 + (int)r.below(4);
            for (int k = 0; k < n; k++) w |= r.below(64) << (54 - 6 * k);
            return w;
        }
        case 6: {  // decimal digits (ambiguous with numbers)
            u64 w = 0;
            int n = 1 + (int)r.below(10);
            for (int k = 0; k < n; k++) w |= r.below(10) << (54 - 6 * k);
            return w;
        }
        case 7: {  // 1E5, 2e, ...
            u64 w = 0;
            int n = 2 + (int)r.below(4), e = 1 + (int)r.below(n - 1);
            for (int k = 0; k < n; k++) w |= (k == e ? (r.coin() ? 14 : 41) : r.below(10)) << (54 - 6 * k);
            return w;
        }
        default: return r.next() & M60;
    }
}
inline Id gen_id(Rng& r) {
    Id i = id(gen_word(r), (int)r.below(4), gen_word(r), r.chance(15) ? (int)r.below(16) : 0);
    if (r.chance(25)) i.o = 0;
    return i;
}
inline u32 gen_cp(Rng& r) {
    for (;;) {
        u32 c;
        switch (r.below(12)) {
            case 0: c = "'\"\\/\n\r\t\b\f\a\v\x1b.;,!?(@:>=^ "[r.below(25)]; break;
            case 1: c = 1 + (u32)r.below(31); break;
            case 2: c = 0x7e + (u32)r.below(4); break;
            case 3: c = 0x80 + (u32)r.below(0x780); break;
            case 4: c = 0x7fe + (u32)r.below(4); break;
            case 5: c = 0x800 + (u32)r.below(0xf800); break;
            case 6: c = 0xd7fc + (u32)r.below(4); break;
            case 7: c = 0xe000 + (u32)r.below(4); break;
            case 8: c = 0xfffc + (u32)r.below(8); break;
            case 9: c = 0x10000 + (u32)r.below(0x100000); break;
            default: c = 32 + (u32)r.below(95);
        }
        if (legal_cp(c)) return c;
    }
}
inline std::u32string gen_str(Rng& r, int max = 12) {
    std::u32string s;
    int n = (int)r.below(max + 1);
    bool plain = r.coin();
    for (int i = 0; i < n; i++) s += plain ? (char32_t)('a' + r.below(26)) : (char32_t)gen_cp(r);
    return s;
}
inline i64 gen_int(Rng& r) {
    switch (r.below(8)) {
        case 0: return 0;
        case 1: return r.range(-10, 10);
        case 2: return INT64_MAX - (i64)r.below(3);
        case 3: return INT64_MIN + (i64)r.below(3);
        case 4: {
            i64 p = 1;
            for (int n = (int)r.below(19); n > 0; n--) p *= 10;
            return (r.coin() ? p : -p) + r.range(-2, 2);
        }
        case 5: {
            u64 p = 1ULL << r.below(64);
            return (i64)(p + r.below(3) - 1);
        }
        default: return (i64)r.next();
    }
}
inline double gen_float(Rng& r) {
    for (;;) {
        double d;
        switch (r.below(9)) {
            case 0: d = (double)r.range(-100, 100); break;
            case 1: d = r.coin() ? 0.0 : -0.0; break;
            case 2: { u64 x = r.next(); memcpy(&d, &x, 8); break; }
            case 3: d = (double)(i64)r.next(); break;
            case 4: d = (double)r.range(-100000, 100000) / 100; break;
            case 5: d = std::ldexp(1.0, (int)r.range(-1074, 1023)); break;
            case 6: d = std::pow(10.0, (double)r.range(-300, 300)); break;
            case 7: d = r.coin() ? 5e-324 : 1.7976931348623157e308; break;
            default: d = (double)r.next() / 1e9 * (r.coin() ? 1 : -1);
        }
        if (std::isfinite(d)) return d;
    }
}
inline Val gen_val(Rng& r) {
    switch (r.below(8)) {
        case 0: case 1: return Val::integer(gen_int(r));
        case 2: return Val::real(gen_float(r));
        case 3: case 4: return Val::uuid(gen_id(r));
        case 5: return Val::string(std::u32string(1, gen_cp(r)));
        default: return Val::string(gen_str(r));
    }
}
// an op sequence rich in defaults and runs
inline Ops gen_ops(Rng& r, int max_records = 8, bool uniform_terms = false) {
    Ops ops;
    Id prev{};
    int n = 1 + (int)r.below(max_records);
    for (int k = 0; k < n; k++) {
        Op o;
        int shape = (int)r.below(10);
        o.id = shape < 4 ? prev.inc() : shape < 6 ? Id{prev.v + r.below(5), prev.o} : shape < 8 ? ev(gen_word(r), gen_word(r)) : gen_id(r);
        o.ref = r.chance(50) ? prev : r.chance(30) && !ops.empty() ? r.pick(ops).id : r.chance(30) ? Id{prev.v + r.below(3) - 1, prev.o} : gen_id(r);
        int nv = (int)r.below(4);
        if (r.chance(25)) nv = 1;
        if (r.chance(3)) nv = (int)r.below(20);
        for (int j = 0; j < nv; j++) o.vals.push_back(gen_val(r));
        o.term = uniform_terms ? RAW : (int)r.below(4);
        ops.push_back(o);
        if (r.chance(35)) {  // a run of consecutive ops
            int m = 1 + (int)r.below(r.chance(10) ? 40 : 5);
            bool lt = !o.vals.empty() && o.vals.back().t == S && o.vals.back().s.size() == 1;
            for (int j = 0; j < m; j++) {
                Op x = ops.back();
                x.ref = x.id;
                x.id = x.id.inc();
                if (lt) x.vals.back().s = std::u32string(1, gen_cp(r));
                if (r.chance(5) && !x.vals.empty()) x.vals.back() = gen_val(r);
                if (r.chance(3)) x.term = (int)r.below(4);
                ops.push_back(x);
            }
        }
        prev = ops.back().id;
    }
    return ops;
}
}  // namespace md
