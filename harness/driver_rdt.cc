// driver_rdt.cc - the data types: merging, causal trees, visibility, logs,
// last-write-wins views.
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include "objects.hpp"
#include "visibility.hpp"
#include "rdt/rdt.hpp"
#include "rdt/lww_obj.hpp"

using namespace ob;
using Cursors = Frame::Cursors;
using Frames = std::vector<Frame>;

namespace {

str dump(const Frames& fs) {
    str s;
    for (auto& f : fs) s += f.data() + "\n----\n";
    return s;
}
// one merge call, through one of the entry points
ron::Status merge(Case& c, ron::FORM form, const Frames& in, Frame& out, bool known_form) {
    switch (c.rng.below(known_form ? 4 : 3)) {
        case 0: {
            Cursors cs;
            for (auto& f : in) {
                cs.emplace_back(f);
                if (!cs.back().Next()) cs.pop_back();
            }
            c.saw("MergeCursors calls");
            return ron::MergeCursors<Frame>(out, form, cs);
        }
        case 1: {
            Cursors cs;
            for (auto& f : in) {
                cs.emplace_back(f);
                if (!cs.back().Next()) cs.pop_back();
            }
            Builder b;
            ron::Status ok = ron::MergeCursorsInto<Frame>(b, form, cs);
            out = b.Release();
            c.saw("MergeCursorsInto calls");
            return ok;
        }
        case 2: {
            ron::Strings ss;
            for (auto& f : in) ss.push_back(f.data());
            Cursors cs;
            for (auto& f : in) {
                cs.emplace_back(f);
                if (!cs.back().Next()) cs.pop_back();
            }
            c.saw("MasterRDT::Merge calls");
            ron::MasterRDT<Frame> m;
            Builder b;
            ron::Status ok = m.Merge(b, form, cs);
            out = b.Release();
            return ok;
        }
        default: c.saw("MergeFrames calls"); return ron::MergeFrames<Frame>(out, in);
    }
}
// merge through a random tree of pairwise or wider merges. A group without the root goes
// to `partial` for a verdict: some types cannot merge it on its own.
Frame merge_tree(Case& c, ron::FORM form, Frames in, u32 width, std::function<bool(const Frames&)> can) {
    for (int guard = 0; in.size() > 1 && guard < 1000; guard++) {
        u32 n = 2 + (u32)c.rng.below(std::min<size_t>(width, in.size()) - 1);
        c.rng.shuffle(in);
        Frames part(in.begin(), in.begin() + n);
        if (!can(part)) continue;
        Frame f;
        ron::Status ok = merge(c, form, part, f, false);
        if (!ok) c.fail("merge fails", "merging fails with " + ok.str() + "\n" + dump(part));
        c.saw("merge tree steps");
        in.erase(in.begin(), in.begin() + n);
        in.push_back(f);
    }
    if (in.size() > 1) {
        Frame f;
        ron::Status ok = merge(c, form, in, f, false);
        if (!ok) c.fail("merge fails", "merging fails with " + ok.str() + "\n" + dump(in));
        return f;
    }
    return in[0];
}
bool always(const Frames&) { return true; }

// distribute ops over frames, every op at least once, overlapping
std::vector<Ops> distribute(Rng& r, const Ops& ops, int k) {
    std::vector<Ops> parts(k);
    u32 overlap = (u32)r.below(60);
    for (auto& o : ops) {
        bool any = false;
        for (auto& p : parts)
            if (r.chance(overlap)) p.push_back(o), any = true;
        if (!any) parts[r.below(k)].push_back(o);
    }
    return parts;
}
// ===================================================== P07 union in order ====
void union_case(Case& c, ron::FORM form, Id form_id) {
    Rng& r = c.rng;
    bool header = form_id != YARN ? r.chance(70) : r.chance(20);
    Ops all = gen_object(r, form_id, r.chance(10) ? 60 : 12, header);
    by_id(all);
    int k = 1 + (int)r.below(r.chance(10) ? 12 : 5);
    auto parts = distribute(r, all, k);
    Frames in;
    for (auto& p : parts) in.push_back(make(c, p));
    c.input(dump(in));
    for (size_t i = 0; i < parts.size(); i++) same_ops(c, ops_of(c, in[i], "input"), parts[i], false, "harness: bad input", in[i].data());
    // MergeFrames finds the form in a header that is the first op of a frame
    bool auto_form = header;
    Frame m1;
    ron::Status ok = merge(c, form, in, m1, auto_form);
    VF_CHECK(c, ok, "merge fails", "merging fails with " + ok.str());
    Ops got = ops_of(c, m1, "merged frame");
    same_ops(c, got, all, false, "merge is not the union in id order", "merged: " + m1.data());
    Frames in2 = in;
    r.shuffle(in2);
    for (int extra = (int)r.below(3); extra > 0; extra--) in2.insert(in2.begin() + r.below(in2.size() + 1), r.pick(in2));
    Frame m2;
    ok = merge(c, form, in2, m2, auto_form);
    VF_CHECK(c, ok, "merge fails", "merging in another order fails with " + ok.str());
    same_ops(c, ops_of(c, m2, "merged frame"), all, false, "order or repetition matters", "merged: " + m2.data());
    Frame m3 = merge_tree(c, form, in2, 4, always);
    if (in2.size() > 1) same_ops(c, ops_of(c, m3, "merged frame"), all, false, "grouping matters", "merged: " + m3.data());
    Frames in4{m1, m2};
    for (auto& f : in2) if (r.coin()) in4.push_back(f);
    r.shuffle(in4);
    Frame m4;
    ok = merge(c, form, in4, m4, auto_form);
    VF_CHECK(c, ok, "merge fails", "merging states fails with " + ok.str());
    same_ops(c, ops_of(c, m4, "merged frame"), all, false, "merge is not idempotent", "merged: " + m4.data());
    c.saw("merged ops", got.size());
    if (k > 1) c.distinct(dump(in));
}
}  // namespace
VF_SUITE(merge_lww) { union_case(c, ron::LWW_RDT_FORM, LWW); }
VF_SUITE(merge_yarn) { union_case(c, ron::YARN_RAW_FORM, YARN); }
VF_SUITE(merge_mx) { union_case(c, ron::MX_RDT_FORM, MX); }
// Metadata: records are keyed by name or event; the record with the greatest reference wins.
VF_SUITE(merge_meta) {
    Rng& r = c.rng;
    Ids ids{r};
    std::map<Id, std::map<Id, Op, std::greater<Id>>> world;
    Ops flat;
    for (int n = 1 + (int)r.below(10); n > 0; n--) {
        Op o;
        o.id = r.coin() ? md::id(md::unword(str(1, "abcdefgh"[r.below(8)])), md::NAME, 0) : md::ev(1 + r.below(5), 1 + r.below(3));
        o.ref = ids.next();
        for (int v = (int)r.below(3); v > 0; v--) o.vals.push_back(gen_small_val(r));
        world[o.id][o.ref] = o;
        flat.push_back(o);
    }
    Ops want;
    for (auto& w : world) want.push_back(w.second.begin()->second);
    int k = 1 + (int)r.below(5);
    auto parts = distribute(r, flat, k);
    Frames in;
    for (auto& p : parts) {
        // a well-formed input: sorted, one record per id (its newest)
        std::map<Id, Op> m;
        for (auto& o : p) if (!m.count(o.id) || m[o.id].ref < o.ref) m[o.id] = o;
        Ops s;
        for (auto& x : m) s.push_back(x.second);
        in.push_back(make(c, s));
    }
    c.input(dump(in));
    for (int round = 0; round < 2; round++) {
        Frame m;
        ron::Status ok = merge(c, ron::META_META_FORM, in, m, false);
        VF_CHECK(c, ok, "merge fails", ok.str());
        same_ops(c, ops_of(c, m, "merged frame"), want, false, "not the newest record per id", m.data());
        r.shuffle(in);
        in.push_back(r.pick(in));
    }
    Frame m = merge_tree(c, ron::META_META_FORM, in, 4, always);
    same_ops(c, ops_of(c, m, "merged frame"), want, false, "grouping matters", m.data());
    c.saw("merged ops", want.size());
    c.distinct(dump(in));
}
// Any parsable frames under any form: memory stays intact, and nothing is invented.
VF_SUITE(merge_hostile) {
    Rng& r = c.rng;
    static const std::vector<ron::FORM> FORMS = {ron::LWW_RDT_FORM, ron::YARN_RAW_FORM, ron::MX_RDT_FORM, ron::META_META_FORM, ron::MAX_RDT_FORM,
                                      ron::RGA_RDT_FORM, ron::LOG_RAW_FORM, ron::ZERO_RAW_FORM, ron::ERROR_NO_FORM, ron::TXT_MAP_FORM};
    ron::FORM form = r.pick(FORMS);
    Frames in;
    std::multiset<str> have;
    for (int n = (int)r.below(7); n > 0; n--) {
        Ops o = r.chance(10) ? Ops{} : md::gen_ops(r, 4, true);
        for (auto& x : o) if (r.chance(40)) x.ref = md::ev(r.below(4), 1);
        str t = md::spell(o, r);
        if (r.chance(15) && !t.empty()) t.resize(r.below(t.size()));
        in.emplace_back(t);
        Parsed p = parse(c, t);
        for (auto& x : p.ops) have.insert(md::show(Ops{Op{x.id, x.ref, x.vals}}));
    }
    c.input(vf::show(str(1, 'A' + form)) + "\n" + dump(in));
    Frame out;
    ron::Status ok = merge(c, form, in, out, r.chance(30));
    c.saw(ok ? "hostile merges accepted" : "hostile merges refused");
    c.distinct(dump(in));
    if (!ok) return;
    for (auto& x : ops_of(c, out, "merged frame"))
        VF_CHECK(c, have.count(md::show(Ops{Op{x.id, x.ref, x.vals}})), "merge invents an op", md::show(x) + "\nin " + out.data());
}

// ============================================================ P08 maximum ====
namespace {
}  // namespace
VF_SUITE(merge_max) {
    Rng& r = c.rng;
    Ids ids{r};
    Op head;
    head.id = ids.next();
    head.ref = MAX;
    Ops writes;
    int kind = (int)r.below(6);
    for (int n = (int)r.below(r.chance(10) ? 30 : 7); n > 0; n--) {
        Op o;
        o.id = ids.next(head.id.v);
        o.ref = head.id;
        Val v;
        do {
            int t = kind == 5 ? (int)r.below(4) : kind == 4 ? 1 : kind;
            switch (t) {
                case 0: v = Val::uuid(r.coin() ? md::gen_id(r) : md::ev(1 + r.below(4), 1 + r.below(3))); break;
                case 1: v = Val::integer(r.coin() ? r.range(-3, 3) : md::gen_int(r)); break;
                case 2: v = Val::real(r.coin() ? r.range(-3, 3) / 2.0 : md::gen_float(r)); break;
                default: v = Val::string(r.coin() ? std::u32string(1 + r.below(2), 'a' + r.below(3)) : md::gen_str(r));
            }
        } while (v.t == md::F && v.f == 0 && std::signbit(v.f));
        o.vals = {v};
        writes.push_back(o);
    }
    // states hold the header and one write; patches hold writes. All are unions of the same world.
    int k = 1 + (int)r.below(r.chance(10) ? 9 : 5);
    std::vector<Ops> parts(k);
    Ops used;
    for (auto& w : writes) {
        int n = 1 + (int)r.below(2);
        for (; n > 0; n--) parts[r.below(k)].push_back(w);
    }
    bool root = false;
    for (auto& p : parts) {
        if (p.size() > 1 && r.coin()) r.shuffle(p);
        if (p.empty() || r.chance(40)) p.insert(p.begin(), head), root = true;
    }
    if (!root && r.chance(80)) parts[r.below(k)].push_back(head), root = true;
    for (auto& p : parts) {  // the creation op goes first
        auto at = std::find_if(p.begin(), p.end(), [&](const Op& o) { return o.id == head.id; });
        if (at != p.end()) std::rotate(p.begin(), at, at + 1);
    }
    Frames in;
    for (auto& p : parts) in.push_back(make(c, p));
    c.input(dump(in));
    if (!root && writes.empty()) return;
    const Op* best = nullptr;
    for (auto& w : writes)
        if (!best || cmp(best->vals[0], w.vals[0]) < 0) best = &w;
    auto judge = [&](const Frame& m, const char* key) -> Ops {
        Ops got = ops_of(c, m, "merged frame");
        size_t want = (root ? 1 : 0) + (best ? 1 : 0);
        VF_CHECK(c, got.size() == want, key, "expected " + std::to_string(want) + " ops, got\n" + md::show(got));
        if (root) VF_CHECK(c, got[0].same(head), "creation op lost", md::show(got));
        if (best) {
            const Op& w = got.back();
            bool known = false;
            for (auto& x : writes) known = known || x.same(w);
            VF_CHECK(c, known, "the register holds a write nobody made", md::show(got));
            VF_CHECK(c, cmp(w.vals[0], best->vals[0]) == 0, key, "the register holds " + md::show(w) + ", the greatest write is " + md::show(*best));
        }
        return got;
    };
    Frame m1, m2, m4;
    ron::Status ok = merge(c, ron::MAX_RDT_FORM, in, m1, false);
    VF_CHECK(c, ok, "merge fails", ok.str());
    Ops first = judge(m1, "not the greatest value");
    Frames in2 = in;
    for (int e = (int)r.below(3); e > 0; e--) in2.push_back(r.pick(in2));
    r.shuffle(in2);
    ok = merge(c, ron::MAX_RDT_FORM, in2, m2, false);
    VF_CHECK(c, ok, "merge fails", ok.str());
    same_ops(c, judge(m2, "order matters"), first, false, "order matters", m2.data());
    Frame m3 = merge_tree(c, ron::MAX_RDT_FORM, in2, 4, always);
    if (in2.size() > 1) same_ops(c, judge(m3, "grouping matters"), first, false, "grouping matters", m3.data());
    ok = merge(c, ron::MAX_RDT_FORM, Frames{m1, m2, m1}, m4, false);
    VF_CHECK(c, ok, "merge fails", ok.str());
    same_ops(c, judge(m4, "not idempotent"), first, false, "not idempotent", m4.data());
    c.saw("registers merged");
    if (writes.size() > 1) c.distinct(dump(in));
}

// ======================================================= P09 causal trees ====
namespace {
// all maximal-or-shorter chains that together cover the ops from..end
std::vector<Ops> split_chains(Rng& r, const Tree& t, const std::vector<bool>& need) {
    std::vector<Ops> out;
    std::map<Id, int> tail;  // last id of an open chain
    for (size_t i = 1; i < t.ops.size(); i++) {
        if (!need[i]) continue;
        auto it = tail.find(t.ops[i].ref);
        if (it != tail.end() && r.chance(85)) {
            int k = it->second;
            tail.erase(it);
            out[k].push_back(t.ops[i]);
            tail[t.ops[i].id] = k;
        } else {
            tail[t.ops[i].id] = (int)out.size();
            out.push_back({t.ops[i]});
        }
    }
    return out;
}
}  // namespace
VF_SUITE(merge_rga) {
    Rng& r = c.rng;
    Tree t = gen_tree(r, r.chance(10) ? 60 : 14, 15);
    size_t n = t.ops.size();
    // states: parent-closed subsets in canonical order; patches: chains
    int nstates = 1 + (int)r.below(3);
    std::vector<bool> covered(n, false);
    Frames in;
    for (int s = 0; s < nstates; s++) {
        std::vector<bool> sub(n, false);
        sub[0] = true;
        u32 pct = (u32)r.below(101);
        for (size_t i = 1; i < n; i++) sub[i] = r.chance(pct) && sub[t.idx.at(t.ops[i].ref)];
        for (size_t i = 0; i < n; i++)
            if (sub[i]) covered[i] = true;
        Ops o;
        t.order(0, &sub, o);
        in.push_back(make(c, o));
    }
    std::vector<bool> need(n);
    u32 again = (u32)r.below(40);
    for (size_t i = 0; i < n; i++) need[i] = !covered[i] || r.chance(again);
    auto chains = split_chains(r, t, need);
    std::vector<Id> first;
    for (int s = 0; s < nstates; s++) first.push_back(t.ops[0].id);
    for (auto& ch : chains) {
        in.push_back(make(c, ch));
        first.push_back(ch[0].ref);
    }
    bool drop = r.chance(15) && chains.size() > 0;
    r.shuffle(in);
    c.input(dump(in));
    Ops want;
    t.order(0, nullptr, want);
    Frame m1, m2;
    if (drop) {
        // take the piece some other piece hangs on away: never silently dropped or misplaced
        Frames less;
        size_t gone = r.below(in.size());
        for (size_t i = 0; i < in.size(); i++) if (i != gone) less.push_back(in[i]);
        std::map<Id, Op> have;
        std::vector<Ops> parts;
        for (auto& f : less) {
            parts.push_back(ops_of(c, f, "input"));
            for (auto& o : parts.back()) have[o.id] = o;
        }
        if (less.empty()) return;
        // attachable: every piece reaches the root
        bool complete = have.count(t.ops[0].id);
        for (auto& h : have)
            if (h.first != t.ops[0].id && !have.count(h.second.ref)) complete = false;
        ron::Status ok = merge(c, ron::RGA_RDT_FORM, less, m1, false);
        if (complete) {
            VF_CHECK(c, ok, "merge fails", ok.str());
            std::vector<bool> sub(n, false);
            for (auto& h : have) sub[t.idx.at(h.first)] = true;
            Ops w;
            t.order(0, &sub, w);
            same_ops(c, ops_of(c, m1, "merged frame"), w, false, "not in the canonical order", m1.data());
        } else if (have.count(t.ops[0].id)) {
            VF_CHECK(c, !ok, "causality break not reported", "merged to " + m1.data() + "\nof " + dump(less));
            VF_CHECK(c, ok == ron::Status::CAUSEBREAK, "causality break reported as another error", ok.str());
            c.saw("causality breaks");
        }
        c.distinct(dump(less));
        return;
    }
    ron::Status ok = merge(c, ron::RGA_RDT_FORM, in, m1, false);
    VF_CHECK(c, ok, "merge fails", ok.str());
    Ops got = ops_of(c, m1, "merged frame");
    same_ops(c, got, want, false, "not in the canonical order", m1.data());
    Frames in2 = in;
    for (int e = (int)r.below(3); e > 0; e--) in2.push_back(r.pick(in2));
    r.shuffle(in2);
    ok = merge(c, ron::RGA_RDT_FORM, in2, m2, false);
    VF_CHECK(c, ok, "merge fails", ok.str());
    same_ops(c, ops_of(c, m2, "merged frame"), want, false, "order or repetition matters", m2.data());
    // grouping: any group in which every piece can be attached, the least id being its root
    auto can = [&](const Frames& fs) {
        std::map<Id, Op> have;
        Id least = md::FATAL;
        for (auto& f : fs)
            for (auto& o : ops_of(c, f, "input")) {
                have[o.id] = o;
                if (o.id < least) least = o.id;
            }
        for (auto& h : have)
            if (h.first != least && !have.count(h.second.ref)) return false;
        return true;
    };
    Frame m3 = merge_tree(c, ron::RGA_RDT_FORM, in2, 4, can);
    if (in2.size() > 1) same_ops(c, ops_of(c, m3, "merged frame"), want, false, "grouping matters", m3.data());
    Frame m4;
    ok = merge(c, ron::RGA_RDT_FORM, Frames{m1, r.pick(in), m2}, m4, false);
    VF_CHECK(c, ok, "merge fails", ok.str());
    same_ops(c, ops_of(c, m4, "merged frame"), want, false, "merge is not idempotent", m4.data());
    c.saw("trees merged");
    c.saw("inputs merged", in.size());
    c.distinct(dump(in));
}

// ========================================================= P10 visibility ====
namespace {
void scan_case(Case& c, const Ops& ops) {
    Frame f = make(c, ops);
    c.input(f.data());
    std::vector<bool> want;
    Verdict v = model_scan(ops, want);
    bool odd = false;  // event ids of an unassigned variety may be refused or not
    for (auto& o : ops) odd = odd || o.id.variety() || o.ref.variety() || o.id.v >= ron::NEVER.as_u64;
    ron::Booleans got(7, true);
    ron::Status ok = ron::ScanRGA<Frame>(got, f);
    if (v != OKAY) {
        VF_CHECK(c, !ok, "malformed tree accepted", std::to_string(v) + " in " + f.data());
        c.saw("malformed trees");
        return;
    }
    if (odd && !ok) return;
    VF_CHECK(c, ok, "well-formed tree refused", ok.str() + "\n" + f.data());
    VF_CHECK(c, got.size() == ops.size(), "wrong number of marks", std::to_string(got.size()) + " for " + std::to_string(ops.size()) + " ops");
    size_t vis = 0;
    for (size_t i = 0; i < ops.size(); i++) {
        if (got[i] != want[i]) {
            str l;
            for (size_t k = 0; k < ops.size(); k++) l += str(got[k] ? "hidden " : "shown  ") + (want[k] ? "want hidden " : "want shown  ") + md::show(ops[k]) + "\n";
            c.fail("wrong visibility", "op #" + std::to_string(i) + "\n" + l);
        }
        vis += !got[i];
    }
    c.saw("visible ops", vis);
    c.saw("invisible ops", ops.size() - vis);
}
}  // namespace
VF_SUITE(scan_rga) {
    Rng& r = c.rng;
    Tree t = gen_tree(r, r.chance(10) ? 60 : 16, 20 + (u32)r.below(30));
    Ops ops;
    t.order(0, nullptr, ops);
    scan_case(c, ops);
    c.distinct(md::show(ops, 1000));
}
// anything that parses: wrong orders, foreign ids, missing parents, loops
VF_SUITE(scan_hostile) {
    Rng& r = c.rng;
    Tree t = gen_tree(r, 14, 40);
    Ops ops;
    t.order(0, nullptr, ops);
    for (int n = (int)r.below(4); n > 0; n--) {
        size_t i = r.below(ops.size());
        switch (r.below(8)) {
            case 0: ops.erase(ops.begin() + i); break;
            case 1: std::swap(ops[i], r.pick(ops)); break;
            case 2: ops[i].ref = r.pick(t.ops).id; break;
            case 3: ops[i].ref = md::gen_id(r); break;
            case 4: ops[i].id = md::gen_id(r); break;
            case 5: ops.insert(ops.begin() + r.below(ops.size() + 1), ops[i]); break;
            case 6: ops[i].vals = {Val::uuid(r.coin() ? RM : UN)}; break;
            default: ops[i].ref = ops[i].id;
        }
        if (ops.empty()) break;
    }
    scan_case(c, ops);
    c.distinct(md::show(ops, 1000));
}

// =============================================================== P11 logs ====
namespace {
struct Log {
    Ops ops;
    ron::FORM form;
};
Log gen_log(Rng& r) {
    Log l;
    int max = r.chance(10) ? 50 : 14;
    switch (r.below(5)) {
        case 0: l.form = ron::LWW_RDT_FORM; l.ops = gen_object(r, LWW, max, true); break;
        case 1: l.form = ron::MX_RDT_FORM; l.ops = gen_object(r, MX, max, true); break;
        case 2: {
            l.form = ron::MAX_RDT_FORM;
            l.ops = gen_object(r, MAX, max, true);
            for (size_t i = 1; i < l.ops.size(); i++) l.ops[i].vals = {Val::integer(r.range(-5, 20))};
            break;
        }
        default: l.form = ron::RGA_RDT_FORM; l.ops = gen_tree(r, max, 15).ops;
    }
    return l;
}
Frames chain_frames(const std::vector<Ops>& chains) {
    Frames f;
    for (auto& x : chains) f.push_back(frame(x));
    return f;
}
std::vector<Ops> model_chains(const Ops& ops) {
    std::vector<Ops> out;
    for (size_t i = 0; i < ops.size(); i++) {
        if (i && ops[i].ref == ops[i - 1].id) out.back().push_back(ops[i]);
        else out.push_back({ops[i]});
    }
    return out;
}
// the state by the type's definition
Ops model_state(const Log& l, const Ops& ops) {
    Ops s = ops;
    if (ops.empty()) return s;
    if (l.form == ron::RGA_RDT_FORM) {
        Tree t;
        for (auto& o : ops) t.add(o);
        s.clear();
        t.order(0, nullptr, s);
    } else if (l.form == ron::MAX_RDT_FORM) {
        const Op* best = nullptr;
        for (size_t i = 1; i < ops.size(); i++)
            if (!best || cmp(best->vals[0], ops[i].vals[0]) < 0) best = &ops[i];
        s = {ops[0]};
        if (best) s.push_back(*best);
    } else
        by_id(s);
    return s;
}
}  // namespace
static void same_state(Case& c, const Log& l, const Ops& got, const Ops& ops, const char* key, const str& ctx) {
    Ops want = model_state(l, ops);
    if (l.form == ron::MAX_RDT_FORM && got.size() == 2 && want.size() == 2)  // any of the equal writes
        for (auto& o : ops)
            if (o.same(got[1]) && o.vals == want[1].vals) want[1] = o;
    same_ops(c, got, want, false, key, ctx);
}
VF_SUITE(log_split) {
    Rng& r = c.rng;
    Log l = gen_log(r);
    if (r.chance(20)) l.ops = md::gen_ops(r, 6, true);
    for (auto& o : l.ops)
        if (o.id == md::FATAL) return;  // (the default cutoff; no event has it)
    Frame f = make(c, l.ops);
    c.input(f.data());
    bool cut = r.coin() && !l.ops.empty();
    size_t upto = l.ops.size();
    Id at;
    if (cut) at = r.pick(l.ops).id, cut = at != Id{};
    if (cut) {
        for (size_t i = 0; i < upto; i++)
            if (l.ops[i].id == at) { upto = i + 1; break; }
        c.more("\ncutoff " + md::text(at));
    }
    Cursors chains;
    ron::Status ok = cut ? ron::SplitLogIntoChains<Frame>(chains, f, uuid(at)) : ron::SplitLogIntoChains<Frame>(chains, f);
    VF_CHECK(c, ok, "split fails", ok.str());
    auto want = model_chains(Ops(l.ops.begin(), l.ops.begin() + upto));
    std::vector<Ops> got;
    for (auto& ch : chains) {
        got.emplace_back();
        VF_CHECK(c, ch.valid(), "invalid chain cursor", "");
        while (ch.valid()) {
            got.back().push_back(read_op(c, ch));
            if (!ch.Next()) break;
        }
    }
    str show;
    for (auto& g : got) show += md::show(g) + "--\n";
    for (size_t i = 0; i < std::min(got.size(), want.size()); i++) same_ops(c, got[i], want[i], false, cut ? "wrong chain under a cutoff" : "wrong chain", show);
    VF_CHECK(c, got.size() == want.size(), cut ? "wrong chains under a cutoff" : "wrong chains", std::to_string(want.size()) + " chains expected\n" + show);
    c.saw("chains", got.size());
    if (cut) c.saw("cutoffs");
    c.distinct(f.data() + md::text(at));
}
VF_SUITE(log_replay) {
    Rng& r = c.rng;
    Log l = gen_log(r);
    Frame f = make(c, l.ops);
    c.input(f.data());
    Frame state;
    ron::Status ok = ron::ObjectLogToState<Frame>(state, f);
    VF_CHECK(c, ok, "replay fails", ok.str());
    Ops got = ops_of(c, state, "state");
    same_state(c, l, got, l.ops, "wrong replayed state", state.data());
    // the same as merging the log's chains, in any order
    Frames parts = chain_frames(model_chains(l.ops));
    r.shuffle(parts);
    Frame merged;
    ok = merge(c, l.form, parts, merged, false);
    VF_CHECK(c, ok, "merge fails", ok.str());
    same_ops(c, ops_of(c, merged, "merged frame"), got, false, "replay and merge differ", merged.data());
    // every version of it
    for (int k = 0; k < 3; k++) {
        size_t upto = 1 + r.below(l.ops.size());
        Id at = l.ops[upto - 1].id;
        c.more("\ncutoff " + md::text(at));
        Frame past;
        ok = ron::ObjectLogToState<Frame>(past, f, uuid(at));
        VF_CHECK(c, ok, "replay to a version fails", ok.str());
        same_state(c, l, ops_of(c, past, "state"), Ops(l.ops.begin(), l.ops.begin() + upto), "wrong state of a past version",
                 "cutoff " + md::text(at) + "\n" + past.data());
        c.saw("past versions");
    }
    c.saw("logs replayed");
    c.distinct(f.data());
}

// ======================================================== P23 LWW objects ====
namespace {
str key_of(const Val& v) { return md::show(v); }
Ops model_gc(const Ops& ops) {
    std::map<str, Id> last;
    for (auto& o : ops)
        if (!o.vals.empty()) {
            Id& l = last[key_of(o.vals[0])];
            if (l < o.id) l = o.id;
        }
    Ops out;
    for (auto& o : ops)
        if (o.vals.empty() || last[key_of(o.vals[0])] == o.id) out.push_back(o);
    return out;
}
Ops gen_lww_state(Rng& r) {
    Ids ids{r};
    Ops ops;
    Op h;
    h.id = ids.next();
    h.ref = LWW;
    if (r.chance(85)) ops.push_back(h);
    int shape = (int)r.below(3);
    for (int n = (int)r.below(r.chance(10) ? 40 : 10); n > 0; n--) {
        Op o;
        o.ref = ops.empty() || r.coin() ? h.id : ops.back().id;
        o.id = ids.next(o.ref.v);
        if (shape == 0) o.vals = {Val::uuid(md::id(md::unword(str(1, "abc"[r.below(3)])), md::NAME, 0)), Val::string(std::u32string(1, 'a' + r.below(26)))};
        else o.vals = {gen_key(r), gen_small_val(r)};
        for (int m = r.chance(6) ? 1 + (int)r.below(2) : 0; m > 0; m--) o.vals.push_back(gen_small_val(r));  // the first one counts
        ops.push_back(o);
    }
    return ops;
}
// what the object's view must show
struct View {
    std::map<Id, std::pair<Id, Val>> f;
    void write(const Op& o) {
        if (o.vals.size() < 2 || o.vals[0].t != md::U) return;
        auto& x = f[o.vals[0].u];
        if (x.first < o.id) x = {o.id, o.vals[1]};
    }
};
template <class Obj>
void judge_view(Case& c, Obj& obj, const View& v) {
    Rng& r = c.rng;
    std::vector<Id> keys;
    for (auto& x : v.f) keys.push_back(x.first);
    for (int i = 0; i < 3; i++) keys.push_back(gen_key(r).u);
    for (auto& k : keys) {
        ron::Uuid key = uuid(k);
        auto at = v.f.find(k);
        int want = at == v.f.end() ? 99 : (int)at->second.second.t;
        str ctx = "field " + md::text(k) + (at == v.f.end() ? " was never written" : " should be " + md::show(at->second.second));
        str s = obj.string(key);
        VF_CHECK(c, want == md::S ? s == md::utf8(at->second.second.s) : s.empty(), "wrong string field", ctx + ", is '" + vf::show(s) + "'");
        double d = obj.number(key);
        VF_CHECK(c, want == md::F ? memcmp(&d, &at->second.second.f, 8) == 0 : std::isnan(d), "wrong number field", ctx + ", is " + std::to_string(d));
        ron::Uuid u = obj.uuid(key);
        VF_CHECK(c, id(u) == (want == md::U ? at->second.second.u : Id{}), "wrong id field", ctx + ", is " + u.str());
        if (want == md::I) {
            ron::Atom a = obj.atom(key, ron::INT);
            VF_CHECK(c, a.type() == ron::INT && a.value.as_integer == at->second.second.i, "wrong integer field", ctx + ", is " + std::to_string(a.value.as_integer));
        } else
            VF_CHECK(c, id(ron::Uuid{obj.atom(key, ron::INT)}) == Id{}, "wrong integer field", ctx);
        c.saw(at == v.f.end() ? "absent fields" : "fields");
    }
}
}  // namespace
VF_SUITE(lww_view) {
    Rng& r = c.rng;
    Ops ops = gen_lww_state(r);
    Frame f = make(c, ops);
    c.input(f.data());
    ron::LWWObject<Frame> obj{f};
    View v;
    for (auto& o : ops) v.write(o);
    judge_view(c, obj, v);
    // updates from other frames, older and newer
    std::vector<std::unique_ptr<Frame>> keep;
    for (int n = (int)r.below(3); n > 0; n--) {
        Ops more = gen_lww_state(r);
        for (auto& o : more)  // no two writes by one id
            while (std::any_of(ops.begin(), ops.end(), [&](const Op& x) { return x.id == o.id; })) o.id = o.id.inc();
        by_id(more);
        keep.emplace_back(new Frame{make(c, more)});
        c.more("\nupdate " + keep.back()->data());
        obj.Update(*keep.back());
        for (auto& o : more) v.write(o), ops.push_back(o);
        judge_view(c, obj, v);
        c.saw("updates");
    }
    // a write op of the view
    ron::Uuid wid = uuid(md::ev(md::M60 - 1, 1)), key{"abc"};
    Frame w = obj.Write(wid, key, ron::Integer(5));
    Ops wo = ops_of(c, w, "written op");
    VF_CHECK(c, wo.size() == 1 && wo[0].id == id(wid) && wo[0].vals.size() == 2 && wo[0].vals[0] == Val::uuid(id(key)) && wo[0].vals[1] == Val::integer(5),
             "wrong write op", md::show(wo));
    VF_CHECK(c, wo[0].ref != wo[0].id, "write op references itself", md::show(wo));
    c.distinct(f.data());
}
VF_SUITE(lww_gc) {
    Rng& r = c.rng;
    Ops ops = gen_lww_state(r);
    Frame f = make(c, ops);
    c.input(f.data());
    ron::LastWriteWinsRDT<Frame> lww;
    Builder b;
    ron::Status ok = lww.GC(b, f);
    VF_CHECK(c, ok, "GC fails", ok.str());
    Frame g = b.Release();
    Ops want = model_gc(ops);
    same_ops(c, ops_of(c, g, "collected state"), want, false, "wrong garbage collection", g.data());
    c.saw("ops collected", ops.size() - want.size());
    // the view does not change
    View v;
    for (auto& o : ops) v.write(o);
    ron::LWWObject<Frame> obj{g};
    judge_view(c, obj, v);
    // merging with collection on the way
    auto parts = distribute(r, ops, 1 + (int)r.below(4));
    Frames in;
    for (auto& p : parts) in.push_back(make(c, p));
    Cursors cs;
    for (auto& x : in) {
        cs.emplace_back(x);
        if (!cs.back().Next()) cs.pop_back();
    }
    Builder b2;
    ok = lww.MergeGC(b2, cs);
    VF_CHECK(c, ok, "MergeGC fails", ok.str());
    Frame g2 = b2.Release();
    same_ops(c, ops_of(c, g2, "collected state"), want, false, "MergeGC differs from GC", g2.data());
    c.distinct(f.data());
}
