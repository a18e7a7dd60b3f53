// driver_ron.cc - the notation layer: ids, parsing, writing, strings, numbers,
// stream splitting, hashes, keys, timestamps, id stacks.
#include <algorithm>
#include <set>
#include <thread>
#include <unordered_set>
#include "adapt.hpp"
#include "hash_model.hpp"
#include "db/key.hpp"
#include "ron/hash.hpp"
#include "ron/inc_stack.hpp"
#include "ron/opmeta.hpp"

using namespace ad;
using md::Rng;
using vf::i64;
using vf::u8;

// A copy of the bytes on the heap with nothing after them, so that any overread
// is an AddressSanitizer report and not luck.
struct Tight {
    u8* p;
    size_t n;
    explicit Tight(const str& s) : p{(u8*)malloc(s.size() ? s.size() : 1)}, n{s.size()} {
        memcpy(p, s.data(), n);
        if (!n) p = (u8*)realloc(p, 1);
    }
    ~Tight() { free(p); }
    ron::Slice slice() const { return ron::Slice{(ron::CharRef)p, (ron::fsize_t)n}; }
    Tight(const Tight&) = delete;
};

// ============================================================ P01 uuids ====
static str mangle_id(const Id& i, Rng& r) {
    str t = md::spelled(i, r);
    switch (r.below(9)) {
        case 0: return t.substr(0, r.below(t.size() + 1));
        case 1: return t + (r.coin() ? "+" : str(1, (char)r.below(256)));
        case 2: t[r.below(t.size())] = (char)r.below(256); return t;
        case 3: t.insert(r.below(t.size() + 1), 1, "+-$%/0~ .@"[r.below(10)]); return t;
        case 4: return t + str(r.below(12), '0');
        case 5: return str(1, md::B64[r.below(64)]) + "/" + t;
        case 6: return str(1 + r.below(2), md::B64[r.below(16)]) + "/";
        case 7: return t + "+" + t;
        default: {
            str s;
            for (int n = (int)r.below(26); n > 0; n--) s += (char)(r.chance(95) ? "0129AZaz_~+-$%/"[r.below(15)] : r.below(256));
            return s;
        }
    }
}
VF_SUITE(uuid_text) {
    Rng& r = c.rng;
    Id i = md::gen_id(r);
    ron::Uuid u = uuid(i);
    c.input(md::text(i));
    str t = u.str();
    VF_CHECK(c, t == md::text(i), "printed form", "id " + vf::hex(str((char*)&i, 16)) + " prints as " + t + ", expected " + md::text(i));
    VF_CHECK(c, u.ToString() == t, "ToString", "ToString differs from str");
    VF_CHECK(c, u.version() == i.version() && u.variety() == i.variety(), "version or variety", "of " + t);
    VF_CHECK(c, id(ron::Uuid{t}) == i, "text round trip", t + " parses to " + ron::Uuid{t}.str());
    VF_CHECK(c, id(ron::Uuid{t.c_str()}) == i, "text round trip", "from a C string " + t);
    VF_CHECK(c, u == t && u == t.c_str(), "compare with text", t);
    str pre(r.below(5), 'x');
    str buf = pre + t + "+zz";
    ron::Slice sl{ron::CharRef(buf.data()), ron::Range{(ron::fsize_t)pre.size(), (ron::fsize_t)(pre.size() + t.size())}};
    VF_CHECK(c, id(ron::Uuid{sl}) == i, "parse from the middle", buf);
    for (int k = 0; k < 4; k++) {
        str s = md::spelled(i, r);
        c.input(s);
        Tight tg{s};
        ron::Uuid p{tg.slice()};
        VF_CHECK(c, id(p) == i, "alternative spelling", s + " parses to " + p.str() + ", expected " + t);
        c.saw("legal spellings parsed");
        c.distinct(s);
    }
    // words on their own
    ron::Word w{i.v & md::M60};
    VF_CHECK(c, w.str() == md::word(i.v & md::M60), "word text", w.str());
    VF_CHECK(c, ron::Word{w.str()} == w && ron::Word{w.str().c_str()} == w, "word round trip", w.str());
    bool digits = true;
    for (char ch : w.str()) digits = digits && isdigit((u8)ch);
    VF_CHECK(c, w.is_all_digits() == digits, "is_all_digits", w.str());
    c.sample(t);
    for (int k = 0; k < 4; k++) {
        str s = mangle_id(i, r);
        if (s.empty()) continue;  // stands for the nil id, by convention
        c.input(s);
        Id want;
        bool good = md::parse_id(s, want);
        Tight tg{s};
        ron::Uuid p{tg.slice()};
        if (good) {
            VF_CHECK(c, id(p) == want, "alternative spelling", vf::show(s) + " parses to " + p.str());
            c.saw("mangled ids: still legal");
        } else {
            VF_CHECK(c, is_fatal(p), "non-id accepted", vf::show(s) + " is no id but parses to " + p.str());
            c.saw("mangled ids: rejected");
        }
        VF_CHECK(c, id(ron::Uuid{s}) == id(p), "parse depends on buffer", vf::show(s));
    }
}
VF_SUITE(uuid_order) {
    Rng& r = c.rng;
    std::vector<Id> v;
    v.push_back(md::gen_id(r));
    while (v.size() < 6) {
        Id x = r.pick(v);
        switch (r.below(6)) {
            case 0: x.v += r.below(3) - 1; break;
            case 1: x.o += r.below(3) - 1; break;
            case 2: x.v ^= 1ULL << r.below(64); break;
            case 3: x.o ^= 1ULL << r.below(62); break;
            case 4: x = md::gen_id(r); break;
            default: break;
        }
        x.o &= (1ULL << 62) - 1;
        v.push_back(x);
    }
    str in;
    for (auto& x : v) in += md::text(x) + " ";
    c.input(in);
    for (auto& a : v)
        for (auto& b : v) {
            ron::Uuid A = uuid(a), B = uuid(b);
            str ctx = md::text(a) + " vs " + md::text(b);
            VF_CHECK(c, (A < B) == (a < b), "operator<", ctx);
            VF_CHECK(c, (A > B) == (b < a), "operator>", ctx);
            VF_CHECK(c, (A == B) == (a == b), "operator==", ctx);
            VF_CHECK(c, (A != B) == !(a == b), "operator!=", ctx);
            VF_CHECK(c, (A <= B) == !(b < a), "operator<=", ctx);
            VF_CHECK(c, (A >= B) == !(a < b), "operator>=", ctx);
            if (a == b) VF_CHECK(c, std::hash<ron::Uuid>{}(A) == std::hash<ron::Uuid>{}(B), "hash of equals", ctx);
            ron::Word aw{a.v}, bw{b.v};
            VF_CHECK(c, (aw < bw) == (a.v < b.v) && (aw > bw) == (a.v > b.v) && (aw == bw) == (a.v == b.v) &&
                            (aw != bw) == (a.v != b.v) && (aw <= bw) == (a.v <= b.v) && (aw >= bw) == (a.v >= b.v),
                     "word order", ctx);
            c.saw("pairs compared");
            c.distinct(vf::hash(&a, 16, vf::hash(&b, 16)));
        }
    for (auto& a : v) {
        ron::Uuid A = uuid(a);
        if ((a.v & md::M60) != md::M60) {
            VF_CHECK(c, A < A.inc() && A.inc().dec() == A && A.inc().origin == A.origin, "successor", md::text(a));
            u64 n = 1 + r.below(100);
            if ((a.v & md::M60) + n <= md::M60) VF_CHECK(c, id(A.inc(n)) == a.inc(n) && id(A + n) == a.inc(n), "inc by n", md::text(a));
            ron::Uuid B = A;
            ++B;
            VF_CHECK(c, B == A.inc(), "pre-increment", md::text(a));
        }
        if (a.v & md::M60) VF_CHECK(c, A.dec() < A && A.dec().inc() == A, "predecessor", md::text(a));
        // versions derived from one another keep value and payload
        VF_CHECK(c, A.event().version() == ron::TIME && A.derived().version() == ron::DERIVED && A.event().value == A.value &&
                        (A.event().origin.as_u64 & md::M60) == (a.o & md::M60),
                 "event/derived", md::text(a));
    }
    std::vector<ron::Uuid> us;
    for (auto& a : v) us.push_back(uuid(a));
    std::sort(us.begin(), us.end());
    std::sort(v.begin(), v.end());
    for (size_t k = 0; k < v.size(); k++) VF_CHECK(c, id(us[k]) == v[k], "sort order", in);
    std::unordered_set<ron::Uuid> hs(us.begin(), us.end());
    std::set<Id> ms(v.begin(), v.end());
    VF_CHECK(c, hs.size() == ms.size(), "hash set", in);
}

// =================================================== P02 hostile bytes ====
// walk everything the API offers over an untrusted frame
static void walk(Case& c, const str& in, bool deep) {
    Tight tg{in};
    Cursor cur{tg.slice()};
    Builder b;
    u64 n = 0, work = 0;
    const u64 LIM = 20000;
    ron::Status ok = ron::Status::OK;
    while (n < LIM && work < 4000000 && (ok = cur.Next())) {
        n++;
        (void)cur.id();
        (void)cur.ref();
        (void)cur.term();
        for (u32 i = 2; i < cur.op().size(); i++) {
            work++;
            ron::Atom a = cur.atom(i);
            if (a.type() == ron::STRING) {
                std::u32string s;
                if (!read_cps(cur, a, s)) c.fail("string undecodable", "string value of an accepted op does not decode");
                work += s.size();
                VF_CHECK(c, s.size() == ron::StringSize(a), "string length", "StringSize says " + std::to_string(ron::StringSize(a)) + ", decoded " + std::to_string(s.size()));
                str t;
                ron::ReadString(t, cur, i);
                ron::String16 t16;
                ron::ReadString16(t16, cur, cur.atom(i));
            }
        }
        if (n < 300 || deep) {
            b.AppendOp(cur);
            if (cur.term() != ron::REDUCED) b.EndChunk(cur.term());
        }
    }
    c.saw("hostile ops walked", n);
    if (n < LIM && work < 4000000) {
        VF_CHECK(c, !cur.valid(), "valid after end", "");
        c.saw(ok == ron::Status::ENDOFFRAME ? "hostile inputs ended clean" : "hostile inputs refused");
        for (int k = 0; k < 3; k++) {
            ron::Status again = cur.Next();
            VF_CHECK(c, !again, "ops after the end", "Next() yields an op after an end or an error");
            VF_CHECK(c, !cur.valid(), "valid after end", "");
        }
    }
    Frame out = b.Release();
    Cursor rc = out.cursor();
    u64 m = 0;
    while (m < LIM && rc.Next()) m++;
    Frame fr{in};
    std::vector<Frame> parts;
    fr.Split(parts);
    size_t total = 0;
    for (auto& p : parts) total += p.data().size();
    VF_CHECK(c, total <= in.size(), "split invents bytes", "");
    ron::Codepoints cps;
    ron::ParseUtf8(cps, in);
    ron::Uuid u{tg.slice()};
    (void)u.str();
    if (in.size() <= ron::SHA2::HEX_SIZE) (void)ron::SHA2::ParseHex(in).hex();
    if (in.size() <= ron::SHA2::BASE64_SIZE) (void)ron::SHA2::ParseBase64(in).base64();
    (void)ron::SHA2::valid(tg.slice());
    (void)tg.slice().hash();
}
static const char* TOKENS[] = {"@", ":", "(", ")", "'", "\\", "\\u", "\\u00", "\\u0041", "\\ud83d", "=", "^", ">", ",", ";", "!", "?", ".\n", ".", " ", "\n", "\r\n", "\t",
                               "1", "0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "+1", "-", "+", "1e5", "1.5", "1E+20", "1.5e-3",
                               "00000000000000000001", "lww", "rga", "1A+b", "A/LED", "0/", "/", "$", "%", "~~~~~~~~~~", "~~~~~~~~~~~", "12345678901+a", "~",
                               "(0)", "(1)", "(3)", "('')", "('abc')", "(4294967296)", "(99999999999999999999)", "('\\u0041\\n')", "@1+a", ":0", "@~", "\xc3\xa9", "\xe2\x82\xac",
                               "\xf0\x9f\x98\x80", "\xc0\x80", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xff", "\xe2\x82", "\0", "\x7f", "1.79769313486231570000E+308", "123456789012345678901234567890"};
static str hostile(Rng& r) {
    str s;
    switch (r.below(5)) {
        case 0: {
            for (int n = (int)r.below(40); n > 0; n--) s += (char)r.below(256);
            break;
        }
        case 1: case 2: {
            for (int n = (int)r.below(30); n > 0; n--) {
                const char* t = TOKENS[r.below(sizeof TOKENS / sizeof *TOKENS)];
                s += *t ? str(t) : str(1, 0);
                if (r.chance(30)) s += ' ';
            }
            break;
        }
        default: {
            md::Ops ops = md::gen_ops(r, 5);
            s = md::spell(ops, r);
            if (r.chance(20)) s += ".\n";
            for (int n = (int)r.below(4); n >= 0; n--) {
                size_t at = r.below(s.size() + 1);
                const char* t = TOKENS[r.below(sizeof TOKENS / sizeof *TOKENS)];
                switch (r.below(6)) {
                    case 0: s.resize(at); break;
                    case 1: if (at < s.size()) s[at] = (char)r.below(256); break;
                    case 2: s.insert(at, t); break;
                    case 3: if (at < s.size()) s.erase(at, 1 + r.below(4)); break;
                    case 4: if (at < s.size()) s.insert(at, s.substr(at, r.below(20))); break;
                    default: if (at < s.size()) s[at] ^= (char)(1 << r.below(8));
                }
            }
        }
    }
    return s;
}
VF_SUITE(hostile, 20000) {
    str s = hostile(c.rng);
    c.input(s);
    walk(c, s, c.rng.chance(10));
    c.distinct(s);
    if (c.idx < 12) c.sample(vf::show(s, 300));
}
VF_SUITE(hostile_big, 60000) {  // large inputs and deep spans: work must stay linear
    Rng& r = c.rng;
    str s;
    switch (r.below(5)) {
        case 0: s = "@1A+b :lww '" + str(20000 + r.below(100000), 'x') + (r.coin() ? "';" : ""); break;
        case 1: s = "@1A+b :rga"; for (int i = 0; i < 3000; i++) s += " " + std::to_string(i); s += r.coin() ? ";" : "\x01;"; break;
        case 2: s = "@1A+b :rga ('"; for (int i = 0; i < 3000; i++) s += (i % 3 ? "a" : "\xe2\x82\xac"); s += r.coin() ? "');" : "'"; break;
        case 3: s = "@1A+b :rga (" + std::to_string(1 + r.below(1000000000)) + ");@2A+c 1;"; break;
        default: for (int i = 0; i < 3000; i++) s += r.coin() ? "@1A+b 'x';" : " ;\n"; if (r.coin()) s += "."; break;
    }
    c.input(s.substr(0, 1000));
    u64 t0 = vf::now_ms();
    walk(c, s, false);
    c.saw("big inputs");
    (void)t0;
    c.distinct(s);
}
// one entry for fuzzers and valgrind replays
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n);

// ================================================= P03 parse conformance ==
VF_SUITE(conform) {
    Rng& r = c.rng;
    md::Ops ops = md::gen_ops(r, 8);
    md::SpellOpts so;
    so.spans = r.chance(85);
    so.explicit_ids = r.chance(20);
    str s = md::spell(ops, r, so, &c);
    if (r.chance(25)) s += ".\n";
    c.input(s);
    // the spelling and the reference recogniser must agree, or the oracle is broken
    md::RefParse ref{s};
    if (ref.error || ref.ops != ops) c.fail("ORACLE", "the reference recogniser disagrees with the speller\n" + md::show(ref.ops) + "\nwant\n" + md::show(ops));
    Tight tg{s};
    Cursor cur{tg.slice()};
    Parsed p = drain(c, cur);
    same_ops(c, p.ops, ops, true, "parsed ops differ", "frame: " + vf::show(s));
    VF_CHECK(c, p.end == ENDED, "well-formed frame refused", p.comment + " " + vf::show(s));
    c.saw("ops compared", ops.size());
    for (auto& o : ops) for (auto& v : o.vals) c.saw(v.t == md::U ? "uuid values" : v.t == md::I ? "int values" : v.t == md::F ? "float values" : "string values");
    c.distinct(s);
    if (c.idx < 20 && s.size() < 300) c.sample(vf::show(s));
}
VF_SUITE(malformed) {
    Rng& r = c.rng;
    str s = hostile(r);
    // keep to text the recogniser is meant for: no ill-formed UTF-8, no NUL
    c.input(s);
    md::RefParse ref{s, 5000};
    if (ref.too_many || ref.outside) { c.saw("skipped: outside the reference"); return; }
    Tight tg{s};
    Cursor cur{tg.slice()};
    Parsed p = drain(c, cur, 6000);
    same_ops(c, p.ops, ref.ops, true, "ops before the defect differ", "input: " + vf::show(s));
    if (ref.error) {
        VF_CHECK(c, p.end == SYNTAX, "malformed frame accepted silently", "end-of-frame instead of a syntax error: " + vf::show(s));
        c.saw("malformed frames");
        c.saw("ops before a defect", ref.ops.size());
    } else {
        VF_CHECK(c, p.end == ENDED, "well-formed frame refused", p.comment + ": " + vf::show(s));
        c.saw("well-formed after mutation");
    }
    c.distinct(s);
    if (c.idx < 40 && ref.error && ref.ops.size() && s.size() < 300) c.sample(vf::show(s));
}

// ============================================ P04 write / read identity ====
static md::Ops writable_ops(Rng& r, int recs = 8) {
    md::Ops ops = md::gen_ops(r, recs);
    return ops;
}
VF_SUITE(write_values) {
    Rng& r = c.rng;
    md::Ops ops = writable_ops(r);
    if (r.chance(5)) ops[0].vals = {Val::uuid(md::FATAL)}, ops[0].id = Id{1, 0}, ops[0].ref = Id{};
    c.input(md::show(ops));
    Builder b;
    if (r.chance(20)) {  // a builder that has been used before
        md::Ops junk = md::gen_ops(r, 3);
        for (auto& o : junk) b.AppendOp(op(o));
        b.Release();
        c.saw("reused builders");
    }
    md::Ops want = ops;
    for (size_t i = 0; i < ops.size(); i++) {
        b.AppendOp(op(ops[i]));
        if (ops[i].term != md::REDUCED) {
            b.EndChunk(ron::TERM(ops[i].term));
            c.saw("chunks ended");
        }
    }
    bool dot = r.chance(20);
    if (dot) b.EndFrame();
    Frame f = b.Release();
    c.more("---\n" + f.data());
    Parsed p = parse(c, f.data());
    VF_CHECK(c, p.end == ENDED, "written frame unreadable", p.comment + "\n" + vf::show(f.data()));
    same_ops(c, p.ops, want, false, "written ops read back differently", f.data());
    // chunk terminators: a chunk's last op carries it; ops inside a chunk carry a
    // comma, or the terminator of the span they share with the chunk's end
    for (size_t i = 0; i < ops.size(); i++) {
        int t = p.ops[i].term;
        if (ops[i].term != md::REDUCED)
            VF_CHECK(c, t == ops[i].term, "chunk terminator", "op " + md::show(p.ops[i]) + " should end a chunk with " + md::TERMS[ops[i].term] + "\n" + f.data());
        else if (i + 1 == ops.size())
            VF_CHECK(c, t == md::RAW, "chunk terminator", "the last op of a frame: " + md::show(p.ops[i]));
        else if (t != md::REDUCED) {
            size_t j = i;
            while (j + 1 < ops.size() && ops[j].term == md::REDUCED && ops[j + 1].id == ops[j].id.inc() && ops[j + 1].ref == ops[j].id) j++;
            int e = ops[j].term == md::REDUCED ? md::RAW : ops[j].term;
            VF_CHECK(c, j > i && t == e, "chunk terminator", "op " + md::show(p.ops[i]) + " is no end of a chunk\n" + f.data());
        }
    }
    c.saw("ops written and read back", ops.size());
    if (f.data().find('(') != str::npos) c.saw("frames with spans");
    c.distinct(f.data());
    if (c.idx < 20) c.sample(vf::show(f.data(), 400));
}
VF_SUITE(write_cursor) {  // from another frame's cursor, many times over
    Rng& r = c.rng;
    md::Ops ops = writable_ops(r);
    str s = md::spell(ops, r);
    c.input(s);
    Frame f{s};
    Frame g;
    {
        Builder b;
        Cursor cur = f.cursor();
        while (cur.Next()) {
            b.AppendOp(cur);
            if (cur.term() != ron::REDUCED) b.EndChunk(cur.term());
        }
        g = b.Release();
    }
    c.more("---\n" + g.data());
    Parsed p = parse(c, g.data());
    VF_CHECK(c, p.end == ENDED, "reserialized frame unreadable", p.comment + "\n" + vf::show(g.data()));
    same_ops(c, p.ops, ops, false, "reserialized ops differ", s + "\n---\n" + g.data());
    // AppendAll / AppendFrame do the same
    {
        Builder b;
        ron::AppendFrame<Frame>(b, f);
        VF_CHECK(c, b.Release().data() == g.data(), "AppendFrame differs", "AppendFrame() and op by op copying differ");
    }
    {   // without chunk ends: more compression
        Builder b;
        Cursor cur = f.cursor();
        while (cur.Next()) b.AppendOp(cur);
        Frame h = b.Release();
        same_ops(c, ops_of(c, h, "recompressed frame"), ops, false, "recompressed ops differ", s + "\n---\n" + h.data());
        c.saw("recompressed frames");
    }
    // further rounds keep the values
    Frame prev = g;
    for (int k = 0; k < 3; k++) {
        Builder b;
        Cursor cur = prev.cursor();
        while (cur.Next()) {
            b.AppendOp(cur);
            if (cur.term() != ron::REDUCED) b.EndChunk(cur.term());
        }
        Frame h = b.Release();
        same_ops(c, ops_of(c, h, "reserialized again"), ops, false, "reserialization is not stable", "round " + std::to_string(k));
        // (the first round may still merge what the source spelled as separate chunks)
        VF_CHECK(c, k == 0 || h.data() == prev.data(), "reserialization is not stable", vf::show(prev.data()) + "\nbecomes\n" + vf::show(h.data()));
        prev = h;
    }
    // through values (Op::Amend)
    {
        Builder b;
        Cursor cur = f.cursor();
        while (cur.Next()) b.AppendOp(ron::Op::Amend(cur.id(), cur.ref(), cur));
        Frame h = b.Release();
        same_ops(c, ops_of(c, h, "amended frame"), ops, false, "amended ops differ", s + "\n---\n" + h.data());
        c.saw("amended ops", ops.size());
    }
    VF_CHECK(c, ron::CompareFrames(f, g), "CompareFrames: equal frames differ", s + "\n---\n" + g.data());
    c.saw("ops copied", ops.size());
    c.distinct(s);
}
VF_SUITE(compare_frames) {
    Rng& r = c.rng;
    md::Ops a = md::gen_ops(r, 4), b = a;
    for (auto& o : a) if (o.id == Id{63ULL << 54, 0}) return;
    bool same = true;
    if (r.chance(70)) {
        size_t k = r.below(b.size());
        Op& o = b[k];
        switch (r.below(5)) {
            case 0: o.id.v ^= 1ULL << r.below(60); break;
            case 1: o.ref.o ^= 1ULL << r.below(60); break;
            case 2: if (o.vals.empty()) o.vals.push_back(md::gen_val(r)); else r.pick(o.vals) = md::gen_val(r); break;
            case 3: if (r.coin()) b.pop_back(); else b.push_back(md::gen_ops(r, 1)[0]); break;
            default: if (o.vals.empty()) o.vals.push_back(md::gen_val(r)); else o.vals.pop_back();
        }
        for (auto& x : b) if (x.id == Id{63ULL << 54, 0}) return;  // comments are skipped by design
        same = a.size() == b.size();
        for (size_t i = 0; same && i < a.size(); i++) same = a[i].same(b[i]);
    }
    // +0 and -0 compare equal as numbers
    for (auto* l : {&a, &b}) for (auto& o : *l) for (auto& v : o.vals) if (v.t == md::F && v.f == 0) v.f = 0;
    same = a.size() == b.size();
    for (size_t i = 0; same && i < a.size(); i++) same = a[i].same(b[i]);
    str sa = md::spell(a, r), sb = md::spell(b, r);
    c.input(sa + "\n---\n" + sb);
    bool eq = (bool)ron::CompareFrames(Frame{sa}, Frame{sb});
    if (a.empty() != b.empty()) return;
    VF_CHECK(c, eq == same, same ? "CompareFrames: equal frames differ" : "CompareFrames: different frames equal", sa + "\n---\n" + sb);
    c.saw(same ? "equal frames compared" : "different frames compared");
    c.distinct(sa + sb);
}

// ======================================================= P05 unicode ======
static str esc_only(const std::u32string& s, Rng& r, int style) {
    str t;
    char b[16];
    for (char32_t ch : s) {
        if (style == 1 && ch < 0x10000) {
            snprintf(b, 16, r.coin() ? "\\u%04x" : "\\u%04X", (unsigned)ch);
            t += b;
        } else
            t += md::spell_cp(ch, r);
    }
    return t;
}
static void through_every_encoding(vf::Case& c, const std::u32string& s) {
    Rng& r = c.rng;
    str u8s = md::utf8(s);
    c.input(vf::show(u8s));
    auto cmp = [&](const std::u32string& got, const char* key, const str& ctx) {
        if (got == s) return;
        c.fail(key, "read " + md::show(Val::string(got)) + "\nexpected " + md::show(Val::string(s)) + "\n" + ctx);
    };
    // UTF-8 decoding
    ron::Codepoints cps;
    ron::Result res = ron::ParseUtf8(cps, u8s);
    VF_CHECK(c, res == ron::OK, "valid UTF-8 refused", vf::show(u8s));
    cmp(std::u32string(cps.begin(), cps.end()), "ParseUtf8", "");
    str back;
    for (auto cp : cps) ron::utf8append(back, cp);
    VF_CHECK(c, back == u8s, "utf8append", vf::show(back));
    {
        std::u32string t;
        str::const_iterator at = u8s.begin(), e = u8s.end();
        while (at != e) t += (char32_t)ron::utf8read(at, e);
        cmp(t, "utf8read", "");
    }
    // UTF-16
    std::u16string want16, got16;
    for (char32_t ch : s) {
        if (ch < 0x10000) want16 += (char16_t)ch;
        else want16 += (char16_t)(0xd800 + ((ch - 0x10000) >> 10)), want16 += (char16_t)(0xdc00 + ((ch - 0x10000) & 1023));
        ron::utf16append(got16, ch);
    }
    VF_CHECK(c, got16 == want16, "utf16append", "UTF-16 of " + md::show(Val::string(s)));
    {
        std::u32string t;
        auto at = got16.cbegin(), e = got16.cend();
        while (at != e) t += (char32_t)ron::utf16read(at, e);
        cmp(t, "utf16read", "");
    }
    // as a value: raw, escaped, through the writer, as a span
    Op o;
    o.id = md::ev(1000, 5), o.ref = md::ev(7, 5);
    o.vals = {Val::string(s)};
    auto check_frame = [&](const str& f, const char* key) {
        Tight tg{f};
        Cursor cur{tg.slice()};
        ron::Status ok = cur.Next();
        VF_CHECK(c, (bool)ok, key, "does not parse: " + vf::show(f));
        ron::Atom a = cur.atom(2);
        VF_CHECK(c, a.type() == ron::STRING, key, "not a string");
        std::u32string t;
        VF_CHECK(c, read_cps(cur, a, t), key, "does not decode: " + vf::show(f));
        cmp(t, key, vf::show(f));
        VF_CHECK(c, ron::StringSize(a) == s.size(), "reported length", vf::show(f));
        str t8;
        VF_CHECK(c, ron::ReadString(t8, cur, 2) == ron::OK && t8 == u8s, "ReadString", vf::show(f));
        VF_CHECK(c, ron::GetString(cur, 2) == u8s, "GetString", vf::show(f));
        ron::String16 t16;
        VF_CHECK(c, ron::ReadString16(t16, cur, cur.atom(2)) == ron::OK && t16 == want16, "ReadString16", vf::show(f));
    };
    str spec = "@" + md::text(o.id) + " :" + md::text(o.ref) + " ";
    for (int style = 0; style < 2; style++) {
        str f = spec + "'" + esc_only(s, r, style) + "';";
        c.input(f);
        check_frame(f, "quoted value");
        // reserialized by the cursor
        Builder b;
        Frame ff{f};
        Cursor cur = ff.cursor();
        cur.Next();
        b.AppendOp(cur);
        check_frame(b.Release().data(), "re-serialized value");
        Builder b2;
        b2.AppendOp(ron::Op::Amend(cur.id(), cur.ref(), cur));
        check_frame(b2.Release().data(), "amended value");
    }
    {
        ron::Op rop = op(o);
        str t8;
        VF_CHECK(c, ron::ReadString(t8, rop, 2) == ron::OK && t8 == u8s, "ReadString of an op value", vf::show(t8));
        ron::String16 t16;
        VF_CHECK(c, ron::ReadString16(t16, rop, rop.atom(2)) == ron::OK && t16 == want16, "ReadString16 of an op value", "");
        VF_CHECK(c, ron::StringSize(rop.atom(2)) == s.size(), "reported length", "op value");
        Builder b;
        b.AppendOp(rop);
        Frame f = b.Release();
        c.input(f.data());
        check_frame(f.data(), "written value");
    }
    if (!s.empty()) {  // per-letter spans
        str f = spec + "('" + esc_only(s, r, (int)r.below(2)) + "');";
        c.input(f);
        auto letters = [&](const str& fr, const char* key) {
            Tight tg{fr};
            Cursor cur{tg.slice()};
            std::u32string t;
            while (cur.Next()) {
                VF_CHECK(c, cur.op().size() == 3 && cur.atom(2).type() == ron::STRING, key, vf::show(fr));
                ron::Atom a = cur.atom(2);
                VF_CHECK(c, ron::StringSize(a) == 1, "letter length", vf::show(fr));
                std::u32string one;
                read_cps(cur, a, one);
                VF_CHECK(c, one.size() == 1, key, "a letter reads as " + md::show(Val::string(one)));
                str l8;
                ron::ReadString(l8, cur, 2);
                VF_CHECK(c, l8 == md::utf8(one), "ReadString of a letter", vf::show(fr));
                ron::String16 l16, w16;
                ron::ReadString16(l16, cur, cur.atom(2));
                if (one[0] < 0x10000) w16 += (char16_t)one[0];
                else w16 += (char16_t)(0xd800 + ((one[0] - 0x10000) >> 10)), w16 += (char16_t)(0xdc00 + ((one[0] - 0x10000) & 1023));
                VF_CHECK(c, l16 == w16, "ReadString16 of a letter", vf::show(fr));
                t += one;
            }
            cmp(t, key, vf::show(fr));
        };
        letters(f, "letter span");
        Builder b, b2;
        Frame ff{f};
        Cursor cur = ff.cursor();
        Op l = o;
        for (size_t k = 0; cur.Next(); k++) {
            b.AppendOp(cur);
            l.vals[0].s = s.substr(k, 1);
            b2.AppendOp(op(l));
            l.ref = l.id;
            l.id = l.id.inc();
        }
        letters(b.Release().data(), "re-serialized letter span");
        letters(b2.Release().data(), "written letter span");
        c.saw("letters through spans", s.size());
    }
    c.saw("code points", s.size());
    c.distinct(u8s);
    if (c.idx < 6) c.sample(vf::show(u8s));
}
VF_SUITE(unicode) {
    Rng& r = c.rng;
    std::u32string s;
    int n = (int)r.below(r.chance(10) ? 200 : 10);
    bool bmp = r.chance(30);
    while ((int)s.size() < n) {
        u32 cp = r.chance(50) ? md::gen_cp(r) : 0;
        if (!cp) do cp = (u32)r.below(bmp ? 0x10000 : 0x110000); while (!md::legal_cp(cp));
        s += (char32_t)cp;
    }
    through_every_encoding(c, s);
}
// every code point there is, 64 at a time
VF_SUITE(every_character) {
    std::u32string s;
    for (u32 cp = u32(c.idx * 64), e = cp + 64; cp < e && cp < 0x110000; cp++)
        if (md::legal_cp(cp)) s += (char32_t)cp;
    through_every_encoding(c, s);
    c.saw("code points one by one", s.size());
}
VF_SUITE(bad_utf8) {
    Rng& r = c.rng;
    str s = md::utf8(md::gen_str(r, 6));
    static const char* BAD[] = {"\x80", "\xbf", "\xff", "\xfe", "\xf8\x88\x80\x80\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc3(", "\xe2(\xa1", "\xe2\x82(", "\xf0(\x8c\xbc", "\xf0\x90(\xbc", "\xf0\x90\x8c("};
    str bad = BAD[r.below(sizeof BAD / sizeof *BAD)];
    if (r.chance(30)) { bad.clear(); bad += (char)(0x80 + r.below(128)); if (r.coin()) bad += (char)r.below(256); }
    s.insert(r.below(s.size() + 1), bad);
    // strict structural check (lead/continuation bytes)
    std::u32string dec;
    bool good = md::utf8_decode(s, dec);
    c.input(vf::show(s));
    ron::Codepoints cps;
    ron::Result res = ron::ParseUtf8(cps, s);
    VF_CHECK(c, (res == ron::OK) == good, good ? "valid UTF-8 refused" : "ill-formed UTF-8 accepted", "ParseUtf8 on " + vf::show(s));
    if (good) VF_CHECK(c, std::u32string(cps.begin(), cps.end()) == dec, "ParseUtf8", vf::show(s));
    bool clean = s.find_first_of(str("\n\r\\'\0", 5)) == str::npos;
    if (clean) {
        for (auto q : {"'", "('"}) {
            str f = str("@1A+b :lww ") + q + s + (q[0] == '(' ? "');" : "';");
            Tight tg{f};
            Cursor cur{tg.slice()};
            ron::Status ok = cur.Next();
            VF_CHECK(c, (bool)ok == good, good ? "valid UTF-8 refused" : "ill-formed UTF-8 accepted", "as a value: " + vf::show(f));
        }
    }
    c.saw(good ? "well-formed after all" : "ill-formed strings");
    c.distinct(s);
}

// ======================================================= P06 numbers ======
static str int_literal(Rng& r, bool& in_range, i64& v) {
    // sign, padding and magnitude of all sizes; beyond 19 digits a literal is over-long
    bool neg = r.coin();
    str d;
    switch (r.below(6)) {
        case 0: { i64 x = md::gen_int(r); neg = x < 0; d = std::to_string(x); if (neg) d = d.substr(1); break; }
        case 1: d = "922337203685477580" + std::to_string(r.below(10)); break;
        case 2: d = r.coin() ? "9223372036854775807" : "9223372036854775808"; break;
        case 3: for (int n = 1 + (int)r.below(24); n > 0; n--) d += (char)('0' + r.below(10)); break;
        case 4: for (int n = 17 + (int)r.below(4); n > 0; n--) d += r.chance(60) ? '9' : (char)('0' + r.below(10)); break;
        default: d = std::to_string(r.below(100000));
    }
    if (r.chance(20) && d.size() < 19) d = str(r.below(20 - d.size()), '0') + d;
    unsigned __int128 x = 0;
    in_range = d.size() <= 19;
    if (in_range) {
        for (char ch : d) x = x * 10 + (ch - '0');
        in_range = x <= (unsigned __int128)INT64_MAX + neg;
        v = neg ? (i64)(0 - (u64)x) : (i64)x;
    }
    return (neg ? "-" : r.chance(15) ? "+" : "") + d;
}
VF_SUITE(ints) {
    Rng& r = c.rng;
    for (int k = 0; k < 4; k++) {
        bool in;
        i64 v = 0;
        str lit = int_literal(r, in, v);
        str f = str("@1A+b :lww ") + (r.coin() ? "=" : "") + (r.chance(10) ? "1 =" : "") + lit + ";";
        bool extra = f.find("1 =") != str::npos;
        c.input(f);
        Tight tg{f};
        Cursor cur{tg.slice()};
        ron::Status ok = cur.Next();
        VF_CHECK(c, (bool)ok == in, in ? "integer in range refused" : "integer out of range accepted", f + (ok ? " read as " + md::show(read_op(c, cur)) : ""));
        if (in) {
            ron::Atom a = cur.atom(extra ? 3 : 2);
            VF_CHECK(c, a.type() == ron::INT && cur.op().size() == (extra ? 4u : 3u), "integer read as another type", f);
            VF_CHECK(c, a.value.as_integer == v, "integer altered", f + " read as " + std::to_string(a.value.as_integer));
            // written from the value, and copied
            Builder b;
            b.AppendOp(ron::Op{cur.id(), cur.ref(), ron::Integer(v)});
            Frame g = b.Release();
            Cursor gc = g.cursor();
            VF_CHECK(c, gc.Next() && gc.op().size() == 3 && gc.atom(2).type() == ron::INT && gc.atom(2).value.as_integer == v, "integer write", g.data());
            Builder b2;
            b2.AppendOp(cur);
            Frame h = b2.Release();
            Cursor hc = h.cursor();
            VF_CHECK(c, hc.Next() && hc.atom(extra ? 3 : 2).value.as_integer == v, "integer copy", h.data());
            c.saw("integers exact");
        } else {
            VF_CHECK(c, ok != ron::Status::ENDOFFRAME, "over-range integer ends the frame silently", f);
            c.saw("integers rejected");
        }
        c.distinct(f);
    }
}
VF_SUITE(floats) {
    Rng& r = c.rng;
    double d = md::gen_float(r);
    char b[400];
    // written by value
    {
        Builder bl;
        bl.AppendOp(ron::Op{ron::Uuid{"1A+b"}, ron::Uuid{"lww"}, ron::Float(d)});
        Frame f = bl.Release();
        snprintf(b, sizeof b, "%.17g %a", d, d);
        c.input(str(b) + " written as " + f.data());
        Cursor cur = f.cursor();
        VF_CHECK(c, (bool)cur.Next(), "written float unreadable", f.data());
        VF_CHECK(c, cur.op().size() == 3, "float reads as several values", f.data());
        VF_CHECK(c, cur.atom(2).type() == ron::FLOAT, "float changes type", f.data());
        double e = cur.atom(2).value.as_float;
        VF_CHECK(c, memcmp(&d, &e, 8) == 0, "float altered", f.data());
        c.saw("floats written");
    }
    // literals of every shape: nearest double, or rejected when over-long
    str lit;
    switch (r.below(4)) {
        case 0: lit = md::float_text(d, r); break;
        case 1: {
            lit = r.coin() ? "-" : r.coin() ? "+" : "";
            for (int n = 1 + (int)r.below(14); n > 0; n--) lit += (char)('0' + r.below(10));
            if (r.chance(80)) { lit += '.'; for (int n = 1 + (int)r.below(12); n > 0; n--) lit += (char)('0' + r.below(10)); }
            if (lit.find('.') == str::npos || r.coin()) {
                lit += r.coin() ? 'e' : 'E';
                lit += r.coin() ? "" : r.coin() ? "-" : "+";
                lit += std::to_string(r.below(r.coin() ? 30 : 330));
            }
            break;
        }
        case 2: snprintf(b, sizeof b, "%.*e", (int)r.below(25), d); lit = b; break;
        default: snprintf(b, sizeof b, "%.*f", 1 + (int)r.below(20), std::fmod(d, 1e12)); lit = b;
    }
    bool fits = lit.size() <= 24;
    if (!md::RefParse::float_text_(lit)) return;
    bool numeric_id = false;
    str f = str("@1A+b :lww ") + (r.coin() ? "^" : "") + lit + ";";
    (void)numeric_id;
    c.input(f);
    Tight tg{f};
    Cursor cur{tg.slice()};
    ron::Status ok = cur.Next();
    VF_CHECK(c, (bool)ok == fits, fits ? "float refused" : "over-long float accepted", f);
    if (ok) {
        double want = strtod(lit.c_str(), nullptr), got = cur.atom(2).value.as_float;
        VF_CHECK(c, cur.op().size() == 3, "float reads as several values", f);
        VF_CHECK(c, cur.atom(2).type() == ron::FLOAT, "float changes type", f);
        VF_CHECK(c, memcmp(&want, &got, 8) == 0, "float is not the nearest double", f);
        c.saw("float literals");
    } else {
        VF_CHECK(c, ok != ron::Status::ENDOFFRAME, "over-long float ends the frame silently", f);
        c.saw("float literals rejected");
    }
    c.distinct(lit);
}
VF_SUITE(long_words) {
    Rng& r = c.rng;
    auto wrd = [&](int n) { str s; while (n-- > 0) s += md::B64[10 + r.below(54)]; return s; };
    int vl = 1 + (int)r.below(14), ol = 1 + (int)r.below(14);
    str t = wrd(vl);
    bool has = r.coin();
    if (has) t += str(1, md::VERS[r.below(4)]) + wrd(ol);
    bool good = vl <= 10 && (!has || ol <= 10);
    const char* where[] = {"@%s :lww 1;", "@1A+b :%s 1;", "@1A+b :lww %s;", "@1A+b :lww >%s;"};
    char buf[200];
    int k = (int)r.below(4);
    snprintf(buf, sizeof buf, where[k], t.c_str());
    c.input(buf);
    Tight tg{buf};
    Cursor cur{tg.slice()};
    ron::Status ok = cur.Next();
    VF_CHECK(c, (bool)ok == good, good ? "word refused" : "over-long word accepted", str(buf) + (ok ? " read as " + md::show(read_op(c, cur)) : ""));
    if (ok) {
        Id want;
        md::parse_id(t, want);
        ron::Uuid got = k == 0 ? cur.id() : k == 1 ? cur.ref() : ron::Uuid{cur.atom(2)};
        VF_CHECK(c, id(got) == want, "word altered", buf);
    } else
        VF_CHECK(c, ok != ron::Status::ENDOFFRAME, "over-long word ends the frame silently", buf);
    c.saw(good ? "words" : "over-long words rejected");
    c.distinct(buf);
}

// ======================================================== P12 split =======
VF_SUITE(split) {
    Rng& r = c.rng;
    std::vector<md::Ops> frames;
    str stream;
    int n = (int)r.below(6);
    bool unterminated = n && r.chance(30);
    for (int i = 0; i < n; i++) {
        md::Ops ops = md::gen_ops(r, 3);
        if (r.chance(30)) {  // values that look like terminators
            static const char* tricky[] = {".", ". ", "..", ".\n", "a.\nb", "\n.\n", ".\n.\n", "'.\n"};
            ops.back().vals.push_back(Val::string(md::ascii32(tricky[r.below(8)])));
            c.saw("values that look like terminators");
        }
        frames.push_back(ops);
        str s;
        if (r.coin()) s = frame(ops).data();
        else s = md::spell(ops, r);
        // a frame must end somewhere before the terminator
        stream += s;
        if (i + 1 < n || !unterminated) {
            stream += ".\n";
            if (r.chance(30)) stream += str(1 + r.below(3), " \n\t\r"[r.below(4)]);
        }
    }
    c.input(stream);
    Frame f{stream};
    std::vector<Frame> parts;
    ron::Status ok = f.Split(parts);
    VF_CHECK(c, (bool)ok, "split fails", ok.comment());
    if (n == 0) {
        for (auto& p : parts) VF_CHECK(c, ops_of(c, p, "part").empty(), "split invents a frame", "of an empty stream");
    } else {
        VF_CHECK(c, (int)parts.size() == n, "number of parts", "got " + std::to_string(parts.size()) + ", expected " + std::to_string(n) + "\n" + vf::show(stream));
        for (int i = 0; i < n; i++) {
            md::Ops got = ops_of(c, parts[i], "part");
            same_ops(c, got, frames[i], false, "part differs", "part " + std::to_string(i) + " of\n" + vf::show(stream));
        }
    }
    VF_CHECK(c, f.data() == stream, "split changes the stream", "");
    c.saw("frames split", n);
    if (unterminated) c.saw("unterminated streams");
    c.distinct(stream);
    if (c.idx < 20 && n > 1) c.sample(vf::show(stream, 500));
}

// ======================================================== P13 hashes ======
static ron::SHA2 mk_hash(const str& bits32) {
    str hx = vf::hex(bits32);
    return ron::SHA2::ParseHex(hx);
}
static str bits_of(const ron::SHA2& h) { return h.bits_.substr(0, 32); }
VF_SUITE(hash_text) {
    Rng& r = c.rng;
    str bits;
    while (bits.size() < 32) bits += r.chance(20) ? (char)(r.coin() ? 0 : 0xff) : (char)r.below(256);
    str hx = vf::hex(bits);
    str b64 = base64(bits);
    c.input(hx);
    ron::SHA2 h = ron::SHA2::ParseHex(hx), g = ron::SHA2::ParseBase64(b64);
    VF_CHECK(c, h.known_bits() == 256 && h.hex() == hx, "hex round trip", hx + " -> " + h.hex());
    VF_CHECK(c, g.known_bits() == 256 && g.base64() == b64, "base64 round trip", b64 + " -> " + g.base64());
    VF_CHECK(c, h.base64() == b64 && g.hex() == hx, "hex and base64 disagree", h.base64() + " vs " + b64);
    VF_CHECK(c, h == g && !(h != g) && h.matches(g) && g.matches(h), "equality of a parsed hash", hx);
    VF_CHECK(c, ron::SHA2::valid(ron::Slice{b64}), "valid()", b64);
    str bad = b64;
    bad[r.below(43)] = "!@ .-"[r.below(5)];
    VF_CHECK(c, !ron::SHA2::valid(ron::Slice{bad}) && !ron::SHA2::ParseBase64(bad).defined(), "bad base64 accepted", bad);
    str badh = hx;
    badh[r.below(64)] = "gG -"[r.below(4)];
    VF_CHECK(c, !ron::SHA2::ParseHex(badh).defined(), "bad hex accepted", badh);
    VF_CHECK(c, !ron::SHA2::valid(ron::Slice{b64.data(), b64.size() - 1}), "valid()", "short");
    // prefixes: match exactly those hashes sharing the known bits
    u32 digits = 1 + (u32)r.below(64);
    ron::SHA2 p = ron::SHA2::ParseHex(hx.substr(0, digits));
    VF_CHECK(c, p.known_bits() == digits * 4 && p.hex() == hx.substr(0, digits), "partial hex", hx.substr(0, digits) + " -> " + p.hex());
    VF_CHECK(c, p.matches(h) && h.matches(p), "a prefix does not match", hx.substr(0, digits));
    int flip = (int)r.below(256);
    str other = bits;
    other[flip >> 3] ^= (char)(128 >> (flip & 7));
    ron::SHA2 o = ron::SHA2::ParseHex(vf::hex(other));
    VF_CHECK(c, (o != h) && !(o == h), "different hashes equal", "");
    bool share = flip >= (int)digits * 4;
    VF_CHECK(c, p.matches(o) == share && o.matches(p) == share, "matches() and the known bits", "prefix of " + std::to_string(digits) + " hex digits, bit " + std::to_string(flip) + " differs");
    u32 d6 = 1 + (u32)r.below(43);
    ron::SHA2 q = ron::SHA2::ParseBase64(b64.substr(0, d6));
    u32 kb = std::min<u32>(256, d6 * 6);
    VF_CHECK(c, q.known_bits() == kb && q.base64() == b64.substr(0, d6), "partial base64", b64.substr(0, d6) + " -> " + q.base64());
    share = flip >= (int)kb;
    VF_CHECK(c, q.matches(h) && q.matches(o) == share, "matches() and the known bits", "base64 prefix");
    c.saw("hashes printed and parsed");
    c.distinct(hx);
    if (c.idx < 3) c.sample(hx + " " + b64);
}
VF_SUITE(hash_ops) {
    Rng& r = c.rng;
    md::Ops ops = md::gen_ops(r, 3);
    for (auto& o : ops) if (o.vals.size() > 8) o.vals.resize(8);
    str s = md::spell(ops, r), s2 = md::spell(ops, r);
    c.input(s);
    str zero(32, 0), prev, ref;
    auto rnd = [&] { str b; while (b.size() < 32) b += (char)r.below(256); return b; };
    prev = rnd(), ref = rnd();
    ron::SHA2 P = mk_hash(prev), R = mk_hash(ref);
    VF_CHECK(c, bits_of(P) == prev && bits_of(R) == ref, "ParseHex", "");
    Frame f{s}, f2{s2}, f3 = frame(ops);
    Cursor a = f.cursor(), b = f2.cursor(), d = f3.cursor();
    for (auto& o : ops) {
        a.Next(), b.Next(), d.Next();
        str want = model_hash(o, prev, ref);
        ron::SHA2 h = ron::SHA2::OpMerkleHash(a, P, R);
        VF_CHECK(c, h.known_bits() == 256 && bits_of(h) == want, "hash construction", md::show(o) + "\n" + h.hex() + " expected " + vf::hex(want));
        VF_CHECK(c, ron::SHA2::OpMerkleHash(b, P, R) == h && ron::SHA2::OpMerkleHash(d, P, R) == h, "hash depends on spelling", s + "\n---\n" + s2);
        ron::Op ro = op(o);
        VF_CHECK(c, ron::SHA2::OpMerkleHash(ro, P, R) == h, "hash of an op value differs from the hash of its text", md::show(o));
        // sensitivity
        Op m = o;
        str p2 = prev, r2 = ref;
        switch (r.below(6)) {
            case 0: m.id.v ^= 1ULL << r.below(64); break;
            case 1: m.id.o ^= 1ULL << r.below(62); break;
            case 2: m.ref.v ^= 1ULL << r.below(64); break;
            case 3: p2[r.below(32)] ^= (char)(1 << r.below(8)); break;
            case 4: r2[r.below(32)] ^= (char)(1 << r.below(8)); break;
            default:
                if (m.vals.empty()) m.vals.push_back(md::gen_val(r));
                else { Val& v = r.pick(m.vals); Val nv = md::gen_val(r); if (nv == v) continue; v = nv; }
        }
        ron::Op mo = op(m);
        VF_CHECK(c, ron::SHA2::OpMerkleHash(mo, mk_hash(p2), mk_hash(r2)) != h, "a change does not change the hash", md::show(o) + "\n" + md::show(m));
        c.saw("op hashes checked");
        c.distinct(want);
    }
    Id u = md::gen_id(r);
    ron::SHA2 uh{uuid(u)};
    VF_CHECK(c, bits_of(uh) == sha(be8(u.v) + be8(u.o)) && uh.known_bits() == 256, "hash of an id", md::text(u));
    ron::SHA2 ph = ron::SHA2::MerklePairHash(P, R);
    VF_CHECK(c, bits_of(ph) == sha(prev + ref), "pair hash", "");
    VF_CHECK(c, ron::SHA2::MerklePairHash(R, P) != ph, "pair hash order", "");
    VF_CHECK(c, bits_of(ron::SHA2::ZERO) == zero, "zero hash", ron::SHA2::ZERO.hex());
}
// a causal history: hashes, objects, types and chains derived op by op (OpMeta)
VF_SUITE(hash_history) {
    Rng& r = c.rng;
    struct M { Op o; str hash; Id obj, rdt; u64 prev, chain; };
    u64 origins[3] = {0};
    for (auto& o : origins) o = r.next() & md::M60;
    std::vector<M> hist;
    std::map<u64, int> last;  // origin -> index of the yarn's last op
    std::vector<ron::OpMeta> real;
    static const char* types[] = {"lww", "rga", "mx", "txt", "custom"};
    u64 now = 1000 + r.below(1 << 20);
    str log;
    int n = 2 + (int)r.below(20);
    for (int i = 0; i < n; i++) {
        u64 org = origins[r.below(3)];
        now += 1 + r.below(3);
        M m;
        m.o.id = md::ev(now, org);
        bool root = hist.empty() || r.chance(20);
        bool seen = last.count(org);
        int ref = -1;
        if (root) m.o.ref = md::id(md::unword(types[r.below(5)]), md::NAME, 0);
        else {
            ref = seen && r.coin() ? last[org] : (int)r.below(hist.size());
            m.o.ref = hist[ref].o.id;
        }
        for (int k = (int)r.below(3); k > 0; k--) m.o.vals.push_back(md::gen_val(r));
        str prevh = seen ? hist[last[org]].hash : str(32, 0);
        str refh = root ? sha(be8(m.o.ref.v) + be8(m.o.ref.o)) : hist[ref].hash;
        m.hash = model_hash(m.o, prevh, refh);
        m.obj = root ? m.o.id : hist[ref].obj;
        m.rdt = root ? m.o.ref : hist[ref].rdt;
        m.prev = seen ? hist[last[org]].o.id.v : 0;
        m.chain = !root && seen && ref == last[org] ? hist[ref].chain : now;
        str text = md::spell({m.o}, r);
        log += text;
        c.input(log);
        Frame f{text};
        Cursor cur = f.cursor();
        VF_CHECK(c, (bool)cur.Next(), "op unreadable", text);
        ron::OpMeta meta = seen ? real[last[org]] : ron::OpMeta{};
        if (root) meta = ron::OpMeta{cur, seen ? real[last[org]] : ron::OpMeta{}};
        else if (seen) {
            VF_CHECK(c, meta.is_next(cur) == (ref == last[org]), "is_next", log);
            meta.Next(cur, real[ref]);
        } else {
            // the first op of a yarn starts from nothing
            meta.id = ron::Uuid::Time(ron::Word{}, cur.id().origin);
            meta.Next(cur, real[ref]);
        }
        VF_CHECK(c, id(meta.id) == m.o.id && id(meta.object) == m.obj && id(meta.rdt) == m.rdt, "op meta: id, object or type", "after " + log);
        VF_CHECK(c, bits_of(meta.hash) == m.hash, "op meta: hash", "after " + log);
        VF_CHECK(c, meta.prev.as_u64 == m.prev, "op meta: previous op", "after " + log);
        VF_CHECK(c, meta.chain.as_u64 == m.chain && meta.is_head() == (m.chain == now), "op meta: chain", "after " + log);
        VF_CHECK(c, id(meta.chain_id()) == md::ev(m.chain, org), "op meta: chain id", "after " + log);
        real.push_back(meta);
        hist.push_back(m);
        last[org] = i;
        c.saw("history ops hashed");
        c.distinct(m.hash);
    }
}

// ========================================================== P14 keys ======
static const struct { int n; const char* name; } FORMS_TXT[] = {
    {0, "zero"}, {1, "yarn"}, {2, "log"}, {3, "tail"}, {4, "patch"}, {5, "span"}, {6, "chain"}, {7, "graph"}, {8, "meta"}, {9, "prev"}, {10, "obj"},
    {11, "sha3"}, {12, "vv"}, {13, "lww"}, {14, "rga"}, {15, "mx"}, {16, "json"}, {17, "csv"}, {18, "txt"}, {19, "max"}};
VF_SUITE(keys) {
    Rng& r = c.rng;
    struct K { Id id; int form; };
    std::vector<K> ks;
    ks.push_back({md::ev(md::gen_word(r), md::gen_word(r)), (int)r.below(20)});
    while (ks.size() < 5) {
        K k = r.pick(ks);
        switch (r.below(5)) {
            case 0: k.id.v = (k.id.v ^ 1ULL << r.below(60)) & md::M60; break;
            case 1: k.id.o ^= 1ULL << r.below(60); break;
            case 2: k.form = (int)r.below(20); break;
            case 3: k.id = md::ev(md::gen_word(r), md::gen_word(r)); break;
            default: k.id.v = (k.id.v + 1) & md::M60;
        }
        ks.push_back(k);
    }
    str in;
    for (auto& k : ks) in += md::text(k.id) + "/" + std::to_string(k.form) + " ";
    c.input(in);
    auto stored = [](const ron::Key& k) { auto b = k.be(); return str((char*)&b, sizeof b); };
    for (auto& a : ks) {
        ron::Key A{uuid(a.id), ron::FORM(a.form)};
        VF_CHECK(c, A.form() == a.form && id(A.id()) == a.id, "key is not reversible", md::text(a.id) + " form " + std::to_string(a.form) + " -> " + A.str());
        str sa = stored(A);
        VF_CHECK(c, sa.size() == 16 && ron::Key::SIZE == 16, "key size", "");
        str buf = "x" + sa;
        ron::Key back = ron::Key::be(ron::Slice{buf.data() + 1, 16});
        VF_CHECK(c, back == A && !(back != A), "stored key round trip", in);
        ron::Key byname{uuid(a.id), uuid(md::id(md::unword(FORMS_TXT[a.form].name), md::NAME, 0))};
        VF_CHECK(c, byname == A, "key by form name", FORMS_TXT[a.form].name);
        for (int v = 0; v < 4; v++) VF_CHECK(c, (int)A.id((enum ron::UUID)v).version() == v, "key id version", in);
        for (auto& b : ks) {
            ron::Key B{uuid(b.id), ron::FORM(b.form)};
            auto ta = std::make_tuple(a.form, a.id.o, a.id.v), tb = std::make_tuple(b.form, b.id.o, b.id.v);
            VF_CHECK(c, (A < B) == (ta < tb) && (A > B) == (tb < ta) && (A == B) == (ta == tb), "key order", in);
            VF_CHECK(c, (memcmp(sa.data(), stored(B).data(), 16) < 0) == (ta < tb), "stored key byte order", in);
            VF_CHECK(c, (sa == stored(B)) == (ta == tb), "keys collide", in);
            c.saw("key pairs compared");
        }
        VF_CHECK(c, A < ron::Key::END && !(A < ron::Key::ZERO), "key bounds", in);
        c.distinct(sa);
    }
    if (c.idx < 3) c.sample(in);
}
VF_SUITE(forms) {
    Rng& r = c.rng;
    (void)r;
    // exhaustive over the table: every number, every name
    for (int n = 0; n < 256; n++) {
        c.input("form " + std::to_string(n));
        ron::Uuid u = ron::form2uuid(ron::FORM(n));
        const char* name = nullptr;
        for (auto& f : FORMS_TXT) if (f.n == n) name = f.name;
        if (name) {
            VF_CHECK(c, u.str() == name, "form name", std::to_string(n) + " is " + u.str() + ", expected " + name);
            VF_CHECK(c, ron::uuid2form(u) == n, "form number", name);
            VF_CHECK(c, ron::uuid2form(ron::Uuid{name}) == n, "form number", name);
        } else
            VF_CHECK(c, is_fatal(u), "unknown form number", std::to_string(n) + " is " + u.str());
        c.saw("form numbers checked");
    }
    VF_CHECK(c, ron::uuid2form(ron::Uuid::FATAL) == ron::ERROR_NO_FORM, "error form", "");
    for (int k = 0; k < 50; k++) {
        Id i = md::gen_id(r);
        bool known = false;
        for (auto& f : FORMS_TXT) known = known || i == md::id(md::unword(f.name), 0, 0);
        if (known || i == md::FATAL) continue;
        c.input(md::text(i));
        VF_CHECK(c, ron::uuid2form(uuid(i)) == ron::ZERO_RAW_FORM, "unknown form name", md::text(i));
        c.saw("unknown names checked");
        c.distinct(md::text(i));
    }
}

// ==================================================== P21 timestamps ======
static i64 days_from_civil(i64 y, int m, int d) {
    y -= m <= 2;
    i64 era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400);
    unsigned doy = (153u * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (i64)doe - 719468;
}
static const int MDAYS[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
struct Inst { int y, mo, d, h, mi, s; long ns; i64 t; };
static Inst gen_inst(Rng& r) {
    Inst i;
    i.y = 2010 + (int)r.below(r.coin() ? 30 : 341);
    i.mo = (int)r.below(12);
    bool leap = (i.y % 4 == 0 && i.y % 100) || i.y % 400 == 0;
    int md_ = MDAYS[i.mo] + (i.mo == 1 && leap);
    i.d = r.chance(20) ? md_ - 1 : r.chance(20) ? 0 : (int)r.below(md_);
    i.h = r.chance(20) ? 23 : (int)r.below(24);
    i.mi = r.chance(20) ? 59 : (int)r.below(60);
    i.s = r.chance(20) ? 59 : (int)r.below(60);
    i.ns = r.chance(20) ? 999999999 : r.chance(20) ? (long)r.below(200) : (long)r.below(1000000000);
    i.t = days_from_civil(i.y, i.mo + 1, i.d + 1) * 86400 + i.h * 3600 + i.mi * 60 + i.s;
    return i;
}
// nothing here depends on where the clock hangs
static void elsewhere(Rng& r) {
    static const char* const TZ[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<+1345>-13:45", "<-12>12", "IST-1GMT0,M10.5.0,M3.5.0/1"};
    static int at = -1;
    int z = (int)r.below(6);
    if (z != at) setenv("TZ", TZ[at = z], 1), tzset();
}
static str show_inst(const Inst& x) {
    char b[80];
    snprintf(b, 80, "%04d-%02d-%02d %02d:%02d:%02d.%09ld (%lld) TZ=", x.y, x.mo + 1, x.d + 1, x.h, x.mi, x.s, x.ns, (long long)x.t);
    return str(b) + (getenv("TZ") ? getenv("TZ") : "");
}
static void check_fields(Case& c, const Inst& a, u64 v) {
    VF_CHECK(c, v <= md::M60, "timestamp does not fit 60 bits", show_inst(a));
    u64 f = v;
    u64 frac = f & 0xffffff; f >>= 24;
    u64 s = f & 63; f >>= 6;
    u64 mi = f & 63; f >>= 6;
    u64 h = f & 63; f >>= 6;
    u64 d = f & 63; f >>= 6;
    VF_CHECK(c, (long)frac == a.ns / 100 && (int)s == a.s && (int)mi == a.mi && (int)h == a.h && (int)d == a.d && (int)(f % 12) == a.mo && (int)(f / 12) + 2010 == a.y,
             "timestamp fields", show_inst(a) + " encodes as " + ron::Word{v}.str());
}
// every day there is, a month to a case: its first and last instants and some in between
VF_SUITE(every_day) {
    Rng& r = c.rng;
    elsewhere(r);
    int y = 2010 + (int)(c.idx / 12), mo = (int)(c.idx % 12);
    bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
    u64 was = 0;
    for (int d = 0; d < MDAYS[mo] + (mo == 1 && leap); d++) {
        i64 day = days_from_civil(y, mo + 1, d + 1) * 86400, sec[] = {0, (i64)r.below(43200), 43199, 43200, 43200 + (i64)r.below(43200), 86399};
        for (int k = 0; k < 6; k++) {
            i64 t = sec[k];
            Inst a{y, mo, d, int(t / 3600), int(t / 60 % 60), int(t % 60), k == 0 ? 0 : k == 5 ? 999999999 : (long)r.below(1000000000), day + t};
            c.input(show_inst(a));
            u64 v = ron::Uuid::HybridTime((time_t)a.t, a.ns).as_u64;
            check_fields(c, a, v);
            // (two of them may be in one second, in any order)
            if ((k == 0 && d) || k == 3 || k == 5) VF_CHECK(c, k == 5 ? v >= was : v > was, "timestamp order", show_inst(a));
            was = std::max(was, v);
            c.distinct(v);
        }
        c.saw("days");
    }
}
VF_SUITE(timestamps) {
    Rng& r = c.rng;
    elsewhere(r);
    Inst a = gen_inst(r);
    auto sh = show_inst;
    c.input(sh(a));
    ron::Word w = ron::Uuid::HybridTime((time_t)a.t, a.ns);
    u64 v = w.as_u64;
    check_fields(c, a, v);
    VF_CHECK(c, ron::Uuid::HybridTime((time_t)a.t, a.ns) == w, "not deterministic", sh(a));
    // a later instant, from one step to centuries away
    for (int k = 0; k < 4; k++) {
        i64 dt = 0, dn = 0;
        switch (r.below(6)) {
            case 0: dn = 100; break;
            case 1: dt = 1; break;
            case 2: dt = 60 * (i64)(1 + r.below(60)); break;
            case 3: dt = 86400; break;
            case 4: dt = (i64)r.below(86400 * 400); dn = (i64)r.below(1000000000); break;
            default: dn = (i64)r.below(200); break;
        }
        i64 t2 = a.t + dt, n2 = a.ns + dn;
        if (n2 >= 1000000000) n2 -= 1000000000, t2++;
        if (t2 >= days_from_civil(2351, 1, 1) * 86400) continue;
        ron::Word w2 = ron::Uuid::HybridTime((time_t)t2, (long)n2);
        i64 q1 = a.ns / 100, q2 = n2 / 100;
        bool later = t2 > a.t || (t2 == a.t && q2 > q1);
        VF_CHECK(c, later ? w2 > w : w2 == w, "timestamp order", sh(a) + " plus " + std::to_string(dt) + "s " + std::to_string(dn) + "ns");
        c.saw(later ? "later instants compared" : "same-step instants compared");
    }
    // it is a legal identifier value
    ron::Uuid u = ron::Uuid::Time(w, ron::Word{a.t & 0xffffff});
    VF_CHECK(c, ron::Uuid{u.str()} == u, "timestamp id round trip", u.str());
    c.distinct(v);
    if (c.idx < 4) c.sample(sh(a) + " -> " + w.str());
}
VF_SUITE(timestamps_mt) {  // converted from several threads at once
    Rng& r = c.rng;
    std::vector<Inst> in;
    for (int i = 0; i < 400; i++) in.push_back(gen_inst(r));
    std::vector<u64> want;
    for (auto& i : in) want.push_back(ron::Uuid::HybridTime((time_t)i.t, i.ns).as_u64);
    std::atomic<int> bad{0};
    std::vector<std::thread> ts;
    for (int k = 0; k < 4; k++)
        ts.emplace_back([&, k] {
            for (int rep = 0; rep < 5; rep++)
                for (size_t i = 0; i < in.size(); i++) {
                    size_t j = (i * 7 + k * 101) % in.size();
                    if (ron::Uuid::HybridTime((time_t)in[j].t, in[j].ns).as_u64 != want[j]) bad++;
                }
        });
    for (auto& t : ts) t.join();
    VF_CHECK(c, !bad, "timestamp altered by another thread", std::to_string(bad) + " of the conversions made by 4 threads at once are wrong");
    c.saw("concurrent conversions", 4 * 5 * in.size());
    // Now() is between two readings of the system clock
    timespec t0, t1;
    clock_gettime(CLOCK_REALTIME, &t0);
    ron::Word n = ron::Uuid::Now();
    clock_gettime(CLOCK_REALTIME, &t1);
    t0.tv_nsec = t0.tv_nsec / 1000 * 1000;
    VF_CHECK(c, n >= ron::Uuid::HybridTime(t0.tv_sec, t0.tv_nsec) && n <= ron::Uuid::HybridTime(t1.tv_sec, t1.tv_nsec), "Now() is not now", n.str());
    c.distinct(c.idx);
}

// ===================================================== P22 inc_stack ======
template <class V, class Mk>
static void stack_case(Case& c, Mk mk) {
    Rng& r = c.rng;
    inc_stack<V> st;
    std::vector<V> plain;
    str log;
    int steps = 1 + (int)r.below(r.chance(10) ? 300 : 40);
    auto runs = [&] {
        size_t n = 0;
        for (size_t i = 0; i < plain.size(); i++) if (!i || !(plain[i - 1] + 1 == plain[i])) n++;
        return n;
    };
    for (int k = 0; k < steps; k++) {
        if (!plain.empty() && r.chance(35)) {
            for (int m = 1 + (int)r.below(4); m > 0 && !plain.empty(); m--) st.pop_back(), plain.pop_back(), log += "pop ";
            c.saw("pops");
        } else {
            V v = plain.empty() || r.chance(35) ? mk(r) : plain.back() + 1;
            int run = r.chance(30) ? 1 + (int)r.below(9) : 1;
            for (; run > 0; run--) {
                st.push_back(v);
                plain.push_back(v);
                v = v + 1;
            }
            log += "push ";
            c.saw("pushes");
        }
        c.input(log);
        VF_CHECK(c, st.size() == plain.size() && st.empty() == plain.empty(), "stack size", log);
        if (!plain.empty()) VF_CHECK(c, st.front() == plain.front() && st.back() == plain.back(), "front or back", log);
    }
    c.distinct(log);
    size_t i = 0;
    for (auto it = st.begin(); it != st.end(); ++it, ++i) VF_CHECK(c, i < plain.size() && *it == plain[i], "iteration", log);
    VF_CHECK(c, i == plain.size(), "iteration", "too short: " + log);
    VF_CHECK(c, st.span_size() == runs(), "consecutive values in several runs", std::to_string(st.span_size()) + " runs, expected " + std::to_string(runs()));
    // strides: from any reachable place, by any distance within the stack
    for (int k = 0; k < 10 && !plain.empty(); k++) {
        auto it = st.begin();
        size_t at = 0;
        str path;
        while (at < plain.size()) {
            u32 n = (u32)r.below(r.coin() ? 4 : plain.size() - at + 1);
            if (at + n > plain.size()) n = (u32)(plain.size() - at);
            if (r.chance(25) && at < plain.size()) {
                u32 max = (u32)r.below(6) + 1;
                size_t end = at + 1;  // end of the current run
                while (end < plain.size() && plain[end - 1] + 1 == plain[end]) end++;
                u32 got = it.skip_span(max);
                u32 want = (u32)std::min<size_t>(max, end - at);
                path += "skip" + std::to_string(max) + " ";
                VF_CHECK(c, got == want, "skip_span", path + " skipped " + std::to_string(got) + ", expected " + std::to_string(want));
                at += got;
                c.saw("run skips");
            } else {
                it += n;
                at += n;
                path += "+" + std::to_string(n) + " ";
                c.saw("strides");
            }
            if (at < plain.size()) {
                VF_CHECK(c, it != st.end(), "stride", path + ": end too early");
                VF_CHECK(c, *it == plain[at], "stride", path + " of " + log);
                auto walkit = st.begin();
                for (size_t j = 0; j < at; j++) ++walkit;
                VF_CHECK(c, it == walkit && !(it != walkit), "iterator equality", path);
            } else
                VF_CHECK(c, it == st.end(), "stride", path + ": no end");
        }
    }
}
VF_SUITE(stack_ids) {
    stack_case<ron::Uuid>(c, [](Rng& r) { return uuid(md::ev(r.below(50), r.below(3))); });
}
VF_SUITE(stack_ints) {
    stack_case<u64>(c, [](Rng& r) { return (u64)r.below(60); });
}
