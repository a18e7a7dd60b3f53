// adapt.hpp - between the model's ops (md::Op) and the code under test.
// Uses the public API of ron/ only.
#pragma once
#include "model.hpp"
#include "ron/ron.hpp"

namespace ad {
using md::Id;
using md::Op;
using md::Ops;
using md::Val;
using vf::Case;
using vf::str;
using vf::u32;
using vf::u64;
using Frame = ron::TextFrame;
using Cursor = Frame::Cursor;
using Builder = Frame::Builder;

inline ron::Uuid uuid(const Id& i) { return ron::Uuid{ron::Word{i.v}, ron::Word{i.o}}; }
inline Id id(const ron::Uuid& u) { return Id{u.value.as_u64, u.origin.as_u64}; }

// All code points of a string value through the codepoint cursor. `cur` may be
// a text cursor or a ron::Op.
template <class Cur>
bool read_cps(const Cur& cur, ron::Atom a, std::u32string& out) {
    if (a.value.cp) {  // the atom already points at a character (spans, ops)
        out += (char32_t)a.value.cp;
    }
    for (u64 guard = 0; guard < (1u << 26); guard++) {
        ron::Result r = cur.NextCodepoint(a);
        if (r == ron::ENDOFINPUT || r == ron::OUTOFRANGE) return true;
        if (r != ron::OK) return false;
        out += (char32_t)a.value.cp;
    }
    return false;
}
// One value of the op the cursor stands at.
template <class Cur>
Val read_val(Case& c, const Cur& cur, u32 i) {
    ron::Atom a = cur.atom(i);
    Val v;
    switch (a.type()) {
        case ron::UUID: return Val::uuid(Id{a.value.as_u64, a.origin.as_u64});
        case ron::INT: return Val::integer(a.value.as_integer);
        case ron::FLOAT: return Val::real(a.value.as_float);
        case ron::STRING: {
            v.t = md::S;
            if (!read_cps(cur, a, v.s)) c.fail("string undecodable", "a string of a successfully parsed op does not decode, value " + std::to_string(i));
            str t;
            ron::Result r = ron::ReadString(t, cur, cur.atom(i));
            if (!(r == ron::OK)) c.fail("ReadString fails", "ReadString() fails on a parsed op");
            if (t != md::utf8(v.s))
                c.fail("ReadString differs", "ReadString() and NextCodepoint() disagree: " + vf::show(t) + " vs " + vf::show(md::utf8(v.s)));
            return v;
        }
    }
    c.fail("bad atom type", "no such type");
}
template <class Cur>
Op read_op(Case& c, const Cur& cur) {
    Op o;
    o.id = id(cur.id());
    o.ref = id(cur.ref());
    o.term = cur.term();
    for (u32 i = 2; i < cur.op().size(); i++) o.vals.push_back(read_val(c, cur, i));
    return o;
}

enum End { ENDED = 0, SYNTAX = 1, MORE = 2 };
struct Parsed {
    Ops ops;
    End end = ENDED;
    str comment;
};
// Iterate a cursor to its end. Once ended it must stay ended.
inline Parsed drain(Case& c, Cursor& cur, size_t max_ops = 200000) {
    Parsed p;
    for (;;) {
        ron::Status ok = cur.Next();
        if (!ok) {
            p.end = ok == ron::Status::ENDOFFRAME ? ENDED : SYNTAX;
            p.comment = ok.comment();
            if (cur.valid()) c.fail("valid after end", "cursor is valid() after Next() returned " + ok.str());
            break;
        }
        if (!cur.valid()) c.fail("invalid op", "Next() returned OK but the cursor is not valid()");
        p.ops.push_back(read_op(c, cur));
        if (p.ops.size() >= max_ops) {
            p.end = MORE;
            return p;
        }
    }
    for (int k = 0; k < 3; k++) {
        ron::Status again = cur.Next();
        if (again) c.fail("ops after the end", "Next() yields an op after it had returned an end: " + md::show(read_op(c, cur)));
    }
    return p;
}
inline Parsed parse(Case& c, const str& text, size_t max_ops = 200000) {
    Frame f{text};
    Cursor cur = f.cursor();
    return drain(c, cur, max_ops);
}
// A frame that must parse completely.
inline Ops ops_of(Case& c, const Frame& f, const char* what) {
    Cursor cur = f.cursor();
    Parsed p = drain(c, cur, 1 << 20);
    if (p.end != ENDED) c.fail(str("unreadable ") + what, str(what) + " does not parse: " + p.comment + "\n" + vf::show(f.data()));
    return p.ops;
}

inline ron::Op op(const Op& o) {
    ron::Op r{uuid(o.id), uuid(o.ref)};
    for (auto& v : o.vals) switch (v.t) {
        case md::U: r.WriteAtoms(uuid(v.u)); break;
        case md::I: r.WriteAtoms(ron::Integer(v.i)); break;
        case md::F: r.WriteAtoms(ron::Float(v.f)); break;
        default: r.WriteAtoms(ron::String(md::utf8(v.s)));
    }
    return r;
}
inline Frame frame(const Ops& ops, bool terms = false) {
    Builder b;
    for (auto& o : ops) {
        b.AppendOp(op(o));
        if (terms && o.term != md::REDUCED) b.EndChunk(ron::TERM(o.term));
    }
    return b.Release();
}
// compare op lists; terminators only when asked
inline void same_ops(Case& c, const Ops& got, const Ops& want, bool terms, const char* key, const str& ctx) {
    size_t n = std::min(got.size(), want.size());
    for (size_t i = 0; i < n; i++) {
        bool ok = terms ? got[i] == want[i] : got[i].same(want[i]);
        if (!ok)
            c.fail(key, "op #" + std::to_string(i) + " is\n  " + md::show(got[i]) + "\nexpected\n  " + md::show(want[i]) + "\n" + ctx);
    }
    if (got.size() != want.size())
        c.fail(key, "got " + std::to_string(got.size()) + " ops, expected " + std::to_string(want.size()) +
                        (got.size() > n ? "; extra: " + md::show(got[n]) : "; missing: " + md::show(want[n])) + "\n" + ctx);
}
inline bool is_fatal(const ron::Uuid& u) { return u == ron::Uuid::FATAL; }
}  // namespace ad
