// objects.hpp - op histories of objects of every type, shared by the drivers.
#pragma once
#include <algorithm>
#include <map>
#include "adapt.hpp"
#include "ron/form.hpp"

namespace ob {
using namespace ad;
using md::Rng;
using vf::i64;
using vf::u8;
inline Id name(const str& s) { return md::id(md::unword(s), md::NAME, 0); }
static const Id LWW = name("lww"), RGA = name("rga"), MAX = name("max"), MX = name("mx"), YARN = name("yarn"), RM = name("rm"), UN = name("un");

// A source of fresh event ids: a few authors, each with a growing clock. Ids are often
// consecutive, so that the writers compress them.
struct Ids {
    Rng& r;
    std::vector<u64> authors;
    u64 clock;
    Id last;
    explicit Ids(Rng& r_) : r{r_}, clock{r_.chance(30) ? 1 + r_.below(200) : (md::gen_word(r_) >> 3) + 1} {
        for (int n = 1 + (int)r.below(4); n > 0; n--) authors.push_back(1 + md::gen_word(r) % (md::M60 - 1));
    }
    // greater than every id so far; maybe of the same moment as the last one, if the cause of the event is older than that
    Id next(u64 cause = ~0ull) {
        if (cause < last.v && r.chance(12)) {
            for (u64 a : authors)
                if (md::ev(clock, a).o > last.o) return last = md::ev(clock, a);
        }
        if (r.chance(55) && last.v) {
            clock++;
            last = Id{clock, last.o};
        } else {
            clock += 1 + r.below(r.coin() ? 3 : 5000);
            last = md::ev(clock, r.pick(authors));
        }
        return last;
    }
};

inline void by_id(Ops& o) {
    std::sort(o.begin(), o.end(), [](const Op& a, const Op& b) { return a.id < b.id; });
}
// a frame of these ops: by the builder, or spelled at random
inline Frame make(Case& c, const Ops& ops) {
    Rng& r = c.rng;
    if (r.coin()) return frame(ops);
    Ops copy = ops;
    int t = r.chance(70) ? md::REDUCED : (int)r.below(3);
    for (auto& o : copy) o.term = t;
    return Frame{md::spell(copy, r)};
}
inline Val gen_key(Rng& r) {
    switch (r.below(10)) {
        case 0: return Val::integer(r.range(0, 3));
        case 1: return Val::string(md::ascii32(str(1, 'a' + r.below(3))));
        case 2: return Val::string(md::ascii32("k") + std::u32string(1, md::gen_cp(r)));
        case 3: return Val::uuid(md::ev(1 + r.below(3), 1 + r.below(2)));
        default: return Val::uuid(md::id(md::unword(str(1, "abcdefgh"[r.below(8)])), md::NAME, 0));
    }
}
inline Val gen_small_val(Rng& r) {
    switch (r.below(6)) {
        case 0: return Val::integer(r.range(-3, 3));
        case 1: return Val::string(std::u32string(1, 'a' + r.below(26)));
        case 2: return Val::uuid(md::id(md::unword(str(1, "abc"[r.below(3)])), md::NAME, 0));
        default: return md::gen_val(r);
    }
}
// ops of a last-write-wins like object
inline Ops gen_object(Rng& r, Id form, int max, bool header) {
    Ids ids{r};
    Ops ops;
    int n = 1 + (int)r.below(max);
    int shape = (int)r.below(4);
    for (int i = 0; i < n; i++) {
        Op o;
        if (i == 0 && header) {
            o.id = ids.next();
            o.ref = form;
        } else {
            if (i) o.ref = r.coin() ? ops.back().id : r.pick(ops).id;
            o.id = i ? ids.next(o.ref.v) : ids.next();
            if (!i) o.ref = md::ev(ids.clock / 2, ids.authors[0]);
            if (form == MX) {
                o.vals = {Val::integer(r.below(3)), Val::integer(r.below(3)), gen_small_val(r)};
            } else if (shape == 0) {  // runs that the writers compress
                o.vals = {Val::string(std::u32string(1, 'a' + r.below(26)))};
            } else if (shape == 1) {
                o.vals = {Val::uuid(md::id(md::unword("rm"), md::NAME, 0))};
            } else {
                o.vals = {gen_key(r), gen_small_val(r)};
                if (r.chance(10)) o.vals.push_back(md::gen_val(r));
                if (r.chance(3)) o.vals.resize(r.below(2));
            }
        }
        ops.push_back(o);
    }
    return ops;
}

// The order of values: by type, then by value (integers and floats numerically, ids in id
// order, strings by code points).
inline int type_rank(const Val& v) { return v.t == md::U ? 0 : v.t == md::I ? 1 : v.t == md::S ? 2 : 3; }
inline int cmp(const Val& a, const Val& b) {
    if (a.t != b.t) return type_rank(a) < type_rank(b) ? -1 : 1;
    switch (a.t) {
        case md::U: return a.u < b.u ? -1 : b.u < a.u ? 1 : 0;
        case md::I: return a.i < b.i ? -1 : b.i < a.i ? 1 : 0;
        case md::F: return a.f < b.f ? -1 : b.f < a.f ? 1 : 0;
        default: return a.s < b.s ? -1 : b.s < a.s ? 1 : 0;
    }
}
struct Tree {
    Ops ops;                             // in creation order; 0 is the root
    std::map<Id, std::vector<int>> kids;  // by parent id
    std::map<Id, int> idx;
    void add(const Op& o) {
        idx[o.id] = (int)ops.size();
        if (!ops.empty()) kids[o.ref].push_back((int)ops.size());
        ops.push_back(o);
    }
    // canonical order of a subset that is closed under parents
    void order(int at, const std::vector<bool>* in, Ops& out) const {
        std::vector<int> stack{at};
        while (!stack.empty()) {
            int n = stack.back();
            stack.pop_back();
            out.push_back(ops[n]);
            auto k = kids.find(ops[n].id);
            if (k == kids.end()) continue;
            std::vector<int> ch;
            for (int x : k->second)
                if (!in || (*in)[x]) ch.push_back(x);
            std::sort(ch.begin(), ch.end(), [&](int a, int b) { return ops[a].id < ops[b].id; });
            for (int x : ch) stack.push_back(x);  // the greatest id comes out first
        }
    }
};
inline Tree gen_tree(Rng& r, int max, u32 rm_pct, bool chains = true) {
    Ids ids{r};
    Tree t;
    Op root;
    root.id = ids.next();
    root.ref = RGA;
    t.add(root);
    int n = (int)r.below(max);
    int at = 0;
    u32 jump = chains ? 5 + (u32)r.below(60) : 80;
    while (n-- > 0) {
        if (r.chance(jump)) at = (int)r.below(t.ops.size());
        Op o;
        o.ref = t.ops[at].id;
        o.id = ids.next(o.ref.v);
        const Op& p = t.ops[at];
        bool prm = p.vals.size() == 1 && p.vals[0].t == md::U && p.vals[0].u == RM, pun = p.vals.size() == 1 && p.vals[0].t == md::U && p.vals[0].u == UN;
        if (at && !prm && !pun && r.chance(rm_pct)) o.vals = {Val::uuid(RM)};
        else if (prm && r.chance(rm_pct * 2)) o.vals = {Val::uuid(r.coin() ? RM : UN)};
        else if (pun && r.chance(rm_pct * 2)) o.vals = {Val::uuid(UN)};
        else if (r.chance(rm_pct / 8)) o.vals = {Val::uuid(r.coin() ? RM : UN)};
        else if (r.chance(85)) o.vals = {Val::string(std::u32string(1, r.chance(90) ? 'a' + r.below(26) : md::gen_cp(r)))};
        else if (r.chance(20)) o.vals = {};
        else if (r.chance(20)) o.vals = {Val::uuid(RM), md::gen_val(r)};
        else o.vals = {md::gen_val(r)};
        at = (int)t.ops.size();
        t.add(o);
    }
    return t;
}
}  // namespace ob
