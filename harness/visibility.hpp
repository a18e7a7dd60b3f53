// visibility.hpp - which operations of an array are visible
#pragma once
#include "objects.hpp"

namespace {
using namespace ob;
enum Kind { HEAD, ELEM, REMOVE, UNDO, TRASH };
// The rules, from the definitions: a removal chain's k-th link reaches the element k levels
// up; an undo chain's k-th link reaches the removal k levels up its chain; ops of any other
// shape (an undo of an element, an insertion into a removal...) and all below them are trash.
struct Vis {
    std::vector<int> parent;
    std::vector<Kind> kind;
    std::vector<bool> dead;
    void run() {
        size_t n = parent.size();
        dead.assign(n, false);
        std::vector<bool> undone(n, false);
        auto base = [&](size_t i) {  // links of the chain i ends, itself included
            size_t k = 0;
            Kind want = kind[i];
            while (kind[i] == want) i = parent[i], k++;
            return std::make_pair(k, i);
        };
        for (size_t i = 0; i < n; i++)
            if (kind[i] == UNDO) {
                auto b = base(i);
                size_t at = b.second;  // the removal it hangs on
                bool ok = true;
                for (size_t k = 1; k < b.first && ok; k++) at = parent[at], ok = kind[at] == REMOVE;
                if (ok) undone[at] = true;
            }
        for (size_t i = 0; i < n; i++)
            if (kind[i] == REMOVE && !undone[i]) {
                auto b = base(i);
                int at = (int)b.second;
                bool ok = kind[at] == ELEM;
                for (size_t k = 1; k < b.first && ok; k++) at = parent[at], ok = kind[at] == ELEM;
                if (ok) dead[at] = true;
            }
    }
};
bool is_name(const Op& o, Id n) { return o.vals.size() == 1 && o.vals[0].t == md::U && o.vals[0].u == n; }
enum Verdict { OKAY, BADID, BADORDER, BREAK, BADTYPE };
// judge a sequence of ops as a tree in depth-first order
Verdict model_scan(const Ops& ops, std::vector<bool>& hidden) {
    hidden.clear();
    if (ops.empty()) return OKAY;
    if (ops[0].ref != RGA || ops[0].id.version() != md::TIME) return BADTYPE;
    Vis v;
    std::vector<int> path{0};
    v.parent.push_back(-1);
    v.kind.push_back(HEAD);
    for (size_t i = 1; i < ops.size(); i++) {
        const Op& o = ops[i];
        if (!(o.ref < o.id)) return BADORDER;
        if (o.id.version() != md::TIME || o.ref.version() != md::TIME) return BADID;
        while (!path.empty() && ops[path.back()].id != o.ref) path.pop_back();
        if (path.empty()) return BREAK;
        int p = path.back();
        Kind shape = is_name(o, RM) ? REMOVE : is_name(o, UN) ? UNDO : ELEM, k;
        switch (v.kind[p]) {
            case HEAD: k = shape == ELEM ? ELEM : TRASH; break;
            case ELEM: k = shape == UNDO ? TRASH : shape; break;
            case REMOVE: k = shape == ELEM ? TRASH : shape; break;
            case UNDO: k = shape == UNDO ? UNDO : TRASH; break;
            default: k = TRASH;
        }
        v.parent.push_back(p);
        v.kind.push_back(k);
        path.push_back((int)i);
    }
    v.run();
    for (size_t i = 0; i < ops.size(); i++) hidden.push_back(v.kind[i] != ELEM || v.dead[i]);
    return OKAY;
}
// the text of an array: what its visible strings make together
inline std::u32string text_of(const Ops& tree) {
    std::vector<bool> hidden;
    std::u32string s;
    if (model_scan(tree, hidden) != OKAY) return s;
    for (size_t i = 0; i < tree.size(); i++)
        if (!hidden[i] && !tree[i].vals.empty() && tree[i].vals[0].t == md::S) s += tree[i].vals[0].s;
    return s;
}
}  // namespace
