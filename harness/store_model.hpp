// store_model.hpp - what a store must hold: for every key the frames written to it, and
// the merge of them by the type's definition. Independent of the code under test.
#pragma once
#include <map>
#include <set>
#include <tuple>
#include "db/key.hpp"
#include "objects.hpp"

namespace sm {
using namespace ob;

// keys in their order: form, origin, value
struct MKey {
    int form = 0;
    u64 o = 0, v = 0;
    bool operator<(const MKey& b) const { return std::tie(form, o, v) < std::tie(b.form, b.o, b.v); }
    bool operator==(const MKey& b) const { return std::tie(form, o, v) == std::tie(b.form, b.o, b.v); }
    bool end() const { return form == 255 && o == md::M60 && v == md::M60; }
};
const MKey MEND{255, md::M60, md::M60};
inline str show(const MKey& k) { return "*" + std::to_string(k.form) + "#" + md::text(md::ev(k.v, k.o)); }
inline ron::Key key(const MKey& k) { return ron::Key{uuid(md::ev(k.v, k.o)), ron::FORM(k.form)}; }
inline MKey mkey(const ron::Key& k) {
    // written from the layout: form(8) origin(60) value(60)
    return MKey{int(k.bits.first >> 56), (k.bits.first << 4 & md::M60) | k.bits.second >> 60, k.bits.second & md::M60};
}

enum { ZERO_F = ron::ZERO_RAW_FORM, YARN_F = ron::YARN_RAW_FORM, LOG_F = ron::LOG_RAW_FORM, META_F = ron::META_META_FORM, LWW_F = ron::LWW_RDT_FORM,
       RGA_F = ron::RGA_RDT_FORM, MX_F = ron::MX_RDT_FORM, MAX_F = ron::MAX_RDT_FORM };

// one object, known to the whole world; every branch may hold another part of it
struct Obj {
    MKey key;
    Tree tree;  // rga
    Ops made;   // every op of it so far, unique
    Id root;
};
using Writes = std::vector<Ops>;

// the value of a key after these writes
inline Ops expected(int form, const Writes& ws) {
    Ops out;
    if (form == ZERO_F || form == 255) {
        for (auto& w : ws)
            if (!w.empty()) out = w;
        return out;
    }
    if (form == LOG_F) {
        for (auto& w : ws) out.insert(out.end(), w.begin(), w.end());
        return out;
    }
    std::map<Id, Op> u;
    for (auto& w : ws)
        for (auto& o : w) {
            auto it = u.find(o.id);
            if (it == u.end() || (form == META_F && it->second.ref < o.ref)) u[o.id] = o;
        }
    if (form == RGA_F) {
        Tree t;
        for (auto& x : u) t.add(x.second);  // by id: parents go first
        if (!t.ops.empty()) t.order(0, nullptr, out);
        return out;
    }
    if (form == MAX_F) {
        const Op* best = nullptr;
        for (auto& x : u) {
            if (x.second.ref == MAX) out.push_back(x.second);
            else if (!best || cmp(best->vals[0], x.second.vals[0]) < 0) best = &x.second;
        }
        if (best) out.push_back(*best);
        return out;
    }
    for (auto& x : u) out.push_back(x.second);
    return out;
}
inline void same_value(Case& c, const MKey& k, const Ops& got, const Writes& ws, const char* what, const str& ctx) {
    Ops want = expected(k.form, ws);
    if (k.form == MAX_F && got.size() == want.size() && !got.empty())
        for (auto& w : ws)
            for (auto& o : w)
                if (o.same(got.back()) && o.vals == want.back().vals) want.back() = o;
    same_ops(c, got, want, false, what, "at " + show(k) + "\n" + ctx);
}

struct World {
    Rng& r;
    Ids ids;
    std::vector<Obj> objs;
    explicit World(Rng& r_, int nobj) : r{r_}, ids{r_} {
        static const int FORMS[] = {LWW_F, LWW_F, RGA_F, RGA_F, MX_F, MAX_F, YARN_F, META_F, LOG_F, LOG_F, ZERO_F};
        std::set<MKey> used;
        used.insert(MKey{0, 0, 0});
        used.insert(MEND);
        while ((int)objs.size() < nobj) {
            Obj o;
            o.root = ids.next();
            o.key.form = FORMS[r.below(sizeof FORMS / sizeof *FORMS)];
            o.key.o = o.root.o & md::M60, o.key.v = o.root.v & md::M60;
            if (!objs.empty() && r.chance(35)) {  // the same object under another form
                o.key.o = r.pick(objs).key.o, o.key.v = r.pick(objs).key.v;
            } else if (r.chance(10)) {
                o.key.v = r.coin() ? 0 : md::M60;
                if (r.coin()) o.key.o = r.coin() ? 0 : md::M60;
            }
            if (!used.insert(o.key).second) continue;
            objs.push_back(o);
        }
    }
    Op op(Id i, Id ref, std::vector<Val> v = {}) {
        Op o;
        o.id = i, o.ref = ref, o.vals = v;
        return o;
    }
    // a frame that may be written to the object where `have` was written before
    Ops next(Obj& o, const Writes& have) {
        Ops out;
        switch (o.key.form) {
            case LOG_F: {
                if (o.made.empty()) o.made.push_back(op(o.root, name(r.pick(std::vector<str>{"lww", "rga", "mx"}))));
                if (have.empty()) out.push_back(o.made[0]);
                for (int n = 1 + (int)r.below(4); n > 0; n--) {
                    Op x = op(ids.next(), r.coin() ? o.made.back().id : r.pick(o.made).id, {gen_key(r), gen_small_val(r)});
                    o.made.push_back(x);
                    out.push_back(x);
                }
                return out;
            }
            case ZERO_F: return {op(r.coin() ? ids.next() : md::gen_id(r), name(r.pick(std::vector<str>{"zero", "lww", "x"})), r.coin() ? std::vector<Val>{} : std::vector<Val>{gen_small_val(r)})};
            case RGA_F: return next_rga(o, have);
            case META_F: {
                std::map<Id, Op> m;
                for (int n = 1 + (int)r.below(3); n > 0; n--) {
                    Op x = r.chance(40) && !o.made.empty() ? r.pick(o.made) : op(name(str(1, "abcd"[r.below(4)])), ids.next(), {gen_small_val(r)});
                    o.made.push_back(x);
                    if (!m.count(x.id) || m[x.id].ref < x.ref) m[x.id] = x;
                }
                for (auto& x : m) out.push_back(x.second);
                return out;
            }
            case MAX_F: {
                Op head = op(o.root, MAX);
                if (have.empty() || r.chance(30)) out.push_back(head);
                if (out.empty() || r.coin()) {
                    Op x = r.chance(30) && !o.made.empty() ? r.pick(o.made) : op(ids.next(), o.root, {r.chance(80) ? Val::integer(r.range(-50, 50)) : Val::integer(md::gen_int(r))});
                    o.made.push_back(x);
                    out.push_back(x);
                }
                return out;
            }
            default: {  // unions
                Id form = o.key.form == LWW_F ? LWW : o.key.form == MX_F ? MX : YARN;
                if (o.made.empty()) o.made.push_back(op(o.root, form));
                std::map<Id, Op> m;
                if (have.empty() && r.chance(80)) m[o.root] = o.made[0];
                for (int n = (m.empty() ? 1 : 0) + (int)r.below(4); n > 0; n--) {
                    if (r.chance(35)) {
                        auto& x = r.pick(o.made);
                        m[x.id] = x;
                        continue;
                    }
                    Op x = op(ids.next(), r.coin() ? o.made.back().id : r.pick(o.made).id);
                    if (form == MX) x.vals = {Val::integer(r.below(3)), Val::integer(r.below(3)), gen_small_val(r)};
                    else x.vals = {gen_key(r), gen_small_val(r)};
                    o.made.push_back(x);
                    m[x.id] = x;
                }
                for (auto& x : m) out.push_back(x.second);
                return out;
            }
        }
    }
    Ops next_rga(Obj& o, const Writes& have) {
        if (o.tree.ops.empty()) o.tree.add(op(o.root, RGA));
        Tree& t = o.tree;
        std::set<Id> w;
        for (auto& x : have)
            for (auto& y : x) w.insert(y.id);
        auto grow = [&](int parent, int n) {
            Ops chain;
            for (; n > 0; n--) {
                Op x = op(ids.next(t.ops[parent].id.v), t.ops[parent].id, {r.chance(80) ? Val::string(std::u32string(1, 'a' + r.below(26))) : r.coin() ? Val::uuid(RM) : gen_small_val(r)});
                parent = (int)t.ops.size();
                t.add(x);
                chain.push_back(x);
            }
            return chain;
        };
        int what = w.empty() ? 2 : (int)r.below(4);
        if (what == 0) {  // a new chain
            auto it = w.begin();
            std::advance(it, r.below(w.size()));
            return grow(t.idx[*it], 1 + (int)r.below(4));
        }
        if (what == 1) {  // a chain others made, maybe known already
            std::vector<int> can;
            for (size_t i = 1; i < t.ops.size(); i++)
                if (w.count(t.ops[i].ref)) can.push_back((int)i);
            if (!can.empty()) {
                int at = r.pick(can);
                Ops chain;
                for (;;) {
                    chain.push_back(t.ops[at]);
                    auto k = t.kids.find(t.ops[at].id);
                    if (k == t.kids.end() || r.chance(20)) break;
                    at = r.pick(k->second);
                }
                return chain;
            }
        }
        // a state: any part of the tree that holds its parents
        for (int n = (int)r.below(3); n > 0; n--) grow((int)r.below(t.ops.size()), 1 + (int)r.below(3));
        std::vector<bool> in(t.ops.size());
        in[0] = true;
        u32 pct = 40 + (u32)r.below(61);
        for (size_t i = 1; i < t.ops.size(); i++) in[i] = in[t.idx[t.ops[i].ref]] && r.chance(pct);
        Ops out;
        t.order(0, &in, out);
        return out;
    }
    MKey any_key() {
        if (r.chance(60) && !objs.empty()) {
            MKey k = r.pick(objs).key;
            switch (r.below(6)) {
                case 0: k.v = (k.v + (r.coin() ? 1 : -1)) & md::M60; break;
                case 1: k.o = (k.o + (r.coin() ? 1 : -1)) & md::M60; break;
                case 2: k.form = (k.form + (r.coin() ? 1 : 255)) % 256; break;
            }
            return k;
        }
        if (r.chance(20)) return MEND;
        if (r.chance(20)) return MKey{};
        return MKey{(int)r.below(21), md::gen_word(r), md::gen_word(r)};
    }
};

using Model = std::map<MKey, Writes>;
inline str show(const Model& m) {
    str s;
    for (auto& x : m) {
        s += show(x.first) + "\n";
        for (auto& w : x.second) s += "  <- " + md::show(w) + "\n";
    }
    return s;
}

// ---- the checks, for any store with this project's store interface ----------
// In-memory stores may keep a (valueless) record at the end key: it is found when seeking
// back from there, and stepping over it succeeds. Set by the suites that test them.
inline bool lax_end = false;

template <class Store>
void check_read(Case& c, Store& s, const Model& m, const MKey& k, const char* what = "wrong value read") {
    Frame f{"@1+junk :lww;"};
    ron::Status ok = s.Read(key(k), f);
    VF_CHECK(c, ok, "read fails", ok.str() + " at " + show(k));
    auto it = m.find(k);
    if (it == m.end()) {
        VF_CHECK(c, f.empty(), "a never-written key has a value", show(k) + ": " + f.data());
        c.saw("empty reads");
    } else {
        same_value(c, k, ops_of(c, f, "value read"), it->second, what, f.data());
        c.saw("reads");
    }
}
template <class It>
void check_at(Case& c, It& i, const Model& m, Model::const_iterator want, const str& ctx) {
    ron::Key k = i.key();
    if (want == m.end()) {
        VF_CHECK(c, mkey(k) == MEND, "iterator not at the end", "at " + show(mkey(k)) + "\n" + ctx);
        auto v = i.value();
        VF_CHECK(c, !v.Next(), "a value at the end", ctx);
        return;
    }
    VF_CHECK(c, mkey(k) == want->first, "iterator at a wrong key", "at " + show(mkey(k)) + ", expected " + show(want->first) + "\n" + ctx);
    for (int twice = 0; twice < 2; twice++) {
        auto v = i.value();
        Frame copy{v.data()};
        same_value(c, want->first, ops_of(c, copy, "iterated value"), want->second, "wrong value iterated", ctx);
        if (c.rng.chance(70)) break;
    }
    c.saw("records iterated");
}
template <class It>
void check_step(Case& c, It& i, const Model& m, Model::const_iterator& at, const str& ctx) {
    ron::Status ok = i.Next();
    if (at == m.end()) {
        VF_CHECK(c, !ok || lax_end, "Next() from the end succeeds", ctx);
    } else {
        ++at;
        if (at == m.end()) VF_CHECK(c, !ok || mkey(i.key()) == MEND, "Next() into the end", ok.str());
        else VF_CHECK(c, ok, "Next() fails", ok.str() + "\n" + ctx);
    }
}
template <class Store>
void check_scan(Case& c, Store& s, const Model& m) {
    typename Store::Iterator i{s};
    ron::Status ok = i.SeekTo(ron::Key::ZERO);
    VF_CHECK(c, ok, "seek fails", ok.str());
    auto at = m.begin();
    for (size_t n = 0; n <= m.size(); n++) {
        check_at(c, i, m, at, "full scan");
        check_step(c, i, m, at, "full scan");
    }
    for (int n = (int)c.rng.below(3); n > 0; n--) {
        check_step(c, i, m, at, "past the end");
        check_at(c, i, m, at, "past the end");
    }
    c.saw("full scans");
}
template <class It>
Model::const_iterator check_seek(Case& c, It& i, const Model& m, const MKey& k, bool prev) {
    ron::Status ok = i.SeekTo(key(k), prev);
    VF_CHECK(c, ok, "seek fails", ok.str());
    auto at = m.lower_bound(k);
    if (prev && (at == m.end() || !(at->first == k))) at = at == m.begin() ? m.end() : std::prev(at);
    if (lax_end && prev && k.end() && mkey(i.key()) == MEND) at = m.end();
    str ctx = str("after seeking ") + (prev ? "back to " : "to ") + show(k);
    check_at(c, i, m, at, ctx);
    c.saw(at == m.end() ? "seeks to the end" : prev ? "seeks back" : "seeks");
    return at;
}
template <class Store>
void check_walk(Case& c, Store& s, const Model& m, World& w) {
    typename Store::Iterator i{s};
    if (c.rng.chance(20)) {  // not positioned yet
        VF_CHECK(c, mkey(i.key()) == MEND, "a fresh iterator has a key", show(mkey(i.key())));
        if (c.rng.coin()) VF_CHECK(c, !i.Next(), "Next() of a fresh iterator succeeds", "");
    }
    for (int n = 1 + (int)c.rng.below(3); n > 0; n--) {
        MKey k = w.any_key();
        bool prev = c.rng.coin();
        auto at = check_seek(c, i, m, k, prev);
        for (int q = (int)c.rng.below(4); q > 0; q--) {
            str ctx = str("stepping after seeking ") + (prev ? "back to " : "to ") + show(k);
            check_step(c, i, m, at, ctx);
            check_at(c, i, m, at, ctx);
        }
    }
}
template <class Store>
void check_all(Case& c, Store& s, const Model& m, World& w) {
    for (auto& x : m) check_read(c, s, m, x.first);
    for (int n = 0; n < 3; n++) check_read(c, s, m, [&] { MKey k; do k = w.any_key(); while (k.end()); return k; }());
    check_scan(c, s, m);
    check_walk(c, s, m, w);
}
}  // namespace sm
