// driver_mem.cc - the in-memory store and the overlay store against the model in store_model.hpp.
#include "shim/btree_map.h"
#include "store_model.hpp"
#include "rocks_dir.hpp"
#include "db/rocks_store.hpp"
#include "db/mem_store.hpp"
#include "db/joined_store.hpp"

extern "C" {
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }
int fallocate(int, int, off_t, off_t) { errno = EOPNOTSUPP; return -1; }
int sync_file_range(int, off64_t, off64_t, unsigned) { return 0; }
}

using namespace sm;
using Mem = ron::InMemoryStore<Frame>;
using Rocks = ron::RocksDBStore<Frame>;

namespace {
Case* now = nullptr;
struct Shield {  // misuse of the container is a violation
    explicit Shield(Case& c) {
        now = &c;
        lax_end = true;
        btree::misuse = [](const char* what) { now->fail("container misuse", what); };
    }
};
Model joined(const Model& a, const Model& b) {
    Model m = a;
    for (auto& x : b) {
        auto& w = m[x.first];
        w.insert(w.end(), x.second.begin(), x.second.end());
    }
    return m;
}
// a scan with everything else that only reads going on in between
template <class Store>
void busy_scan(Case& c, Store& s, const Model& m, World& w) {
    typename Store::Iterator i{s}, j{s};
    VF_CHECK(c, i.SeekTo(ron::Key::ZERO), "seek fails", "");
    auto at = m.begin();
    for (size_t n = 0; n <= m.size(); n++) {
        switch (c.rng.below(5)) {
            case 0: check_read(c, s, m, at == m.end() || c.rng.coin() ? MKey{1, 2, 3} : at->first); break;
            case 1:
                if (!m.empty()) {
                    auto k = m.begin();
                    std::advance(k, c.rng.below(m.size()));
                    check_read(c, s, m, k->first);
                }
                break;
            case 2: check_walk(c, s, m, w); break;
            case 3: check_seek(c, j, m, w.any_key(), c.rng.coin()); break;
        }
        check_at(c, i, m, at, "scan among reads");
        if (c.rng.chance(30)) check_scan(c, s, m);
        check_step(c, i, m, at, "scan among reads");
    }
    check_at(c, i, m, at, "scan among reads");
    c.saw("scans among reads");
}
struct One {
    Case& c;
    World& w;
    str log;
    void note(const str& s) {
        c.more(s + "\n");
        if (log.size() < 20000) log += s + "\n";
    }
    MKey some_key() {
        MKey k;
        do k = w.any_key();
        while (k.end());
        return k;
    }
    template <class Store>
    void write(Store& s, Model& m, const Model& have, const char* where) {
        Obj& o = c.rng.pick(w.objs);
        auto it = have.find(o.key);
        Ops ops = w.next(o, it == have.end() ? Writes{} : it->second);
        Frame f = make(c, ops);
        note(str("write ") + where + " " + show(o.key) + " " + f.data());
        ron::Status ok = s.Write(key(o.key), f);
        VF_CHECK(c, ok, "write fails", ok.str());
        m[o.key].push_back(ops);
        c.saw("writes");
    }
    template <class Store>
    void batch(Store& s, Model& m, const char* where) {
        typename Store::Records rs;
        Model then = m;
        note(str("batch ") + where);
        for (int n = (int)c.rng.below(6); n > 0; n--) {
            Obj& o = c.rng.pick(w.objs);
            auto it = then.find(o.key);
            Ops ops = w.next(o, it == then.end() ? Writes{} : it->second);
            Frame f = make(c, ops);
            note("  " + show(o.key) + " " + f.data());
            then[o.key].push_back(ops);
            rs.emplace_back(key(o.key), f);
        }
        bool bad = c.rng.chance(15);
        if (bad) {
            rs.insert(rs.begin() + c.rng.below(rs.size() + 1), typename Store::Record{ron::Key::END, Frame{"@1+A :lww;"}});
            note("  the end key");
        }
        ron::Status ok = s.Write(rs);
        if (bad) {
            VF_CHECK(c, !ok, "a batch with the end key is accepted", "");
            c.saw("refused batches");
            return;
        }
        VF_CHECK(c, ok, "batch fails", ok.str());
        m = then;
        c.saw("batches");
    }
    template <class Store>
    void end_key(Store& s) {
        note("end key");
        ron::Status ok = s.Write(ron::Key::END, Frame{"@1+A :lww;"});
        VF_CHECK(c, !ok, "a write to the end key is accepted", "");
        if (c.rng.coin()) s.Write(ron::Key::END, Frame{});
        Frame f{"@1+junk :lww;"};
        ok = s.Read(ron::Key::END, f);
        VF_CHECK(c, f.empty(), "the end key has a value", f.data());
        c.saw("end key writes refused");
    }
    // a frame that cannot be merged with what is there: an error, and nothing is lost
    void unmergeable(Mem& s, Model& m) {
        std::vector<MKey> can;
        for (auto& x : m)
            if (x.first.form == RGA_F) can.push_back(x.first);
        if (can.empty()) return;
        MKey k = c.rng.pick(can);
        Op o;
        Ids ids{c.rng};
        Id lost = md::ev(md::M60 - 5, 12345);
        o.id = md::ev(md::M60 - 3, 12345), o.ref = lost, o.vals = {Val::integer(1)};
        Ops ops{o};
        Frame f = make(c, ops);
        note("an op of an unknown parent at " + show(k) + " " + f.data());
        VF_CHECK(c, s.Write(key(k), f), "write fails", "");
        for (int n = 1 + (int)c.rng.below(3); n > 0; n--) {
            Frame into;
            ron::Status ok = s.Read(key(k), into);
            VF_CHECK(c, !ok, "an unmergeable value is read", into.data());
        }
        Mem::Iterator i{s};
        VF_CHECK(c, i.SeekTo(key(k)), "seek fails", "");
        VF_CHECK(c, mkey(i.key()) == k, "iterator at a wrong key", show(mkey(i.key())));
        if (c.rng.coin()) i.value();
        i.Next();
        // the parent comes
        Op p;
        p.id = lost, p.ref = m[k][0][0].id, p.vals = {Val::integer(1)};
        for (auto& ws : m[k])
            for (auto& x : ws)
                if (x.ref == RGA) p.ref = x.id;
        m[k].push_back(ops);
        Ops pops{p};
        Frame g = make(c, pops);
        note("and the parent " + g.data());
        VF_CHECK(c, s.Write(key(k), g), "write fails", "");
        m[k].push_back(pops);
        check_read(c, s, m, k, "a failed read loses data");
        for (size_t i = 0; i < w.objs.size(); i++)  // no more writes there
            if (w.objs[i].key == k) w.objs.erase(w.objs.begin() + i--);
        c.saw("failed reads");
    }
};
}  // namespace

// ================================================ P18 the in-memory store ====
VF_SUITE(mem_history) {
    Shield sh{c};
    Rng& r = c.rng;
    World w{r, 1 + (int)r.below(r.chance(10) ? 25 : 7)};
    One t{c, w};
    c.input("");
    Mem s;
    Model m;
    auto open = [&] {
        Id i = w.ids.next();
        t.note("open " + md::text(i));
        ron::Status ok = r.coin() ? s.Open(uuid(i)) : ron::Status{ron::Status::ENDOFFRAME};
        if (ok) {
            Op o;
            o.id = i, o.ref = YARN;
            m[MKey{}].push_back({o});
            c.saw("Open() calls");
        } else {
            VF_CHECK(c, s.Create(uuid(i)), "create fails", "");
        }
    };
    if (r.coin()) open();
    bool broken = false;
    for (int n = 5 + (int)r.below(r.chance(10) ? 150 : 40); n > 0 && !w.objs.empty(); n--) {
        int what = (int)r.below(100);
        if (what < 45) t.write(s, m, m, "");
        else if (what < 62) t.batch(s, m, "");
        else if (what < 76) check_read(c, s, m, t.some_key());
        else if (what < 80) check_scan(c, s, m);
        else if (what < 86) check_walk(c, s, m, w);
        else if (what < 92) busy_scan(c, s, m, w);
        else if (what < 95) t.end_key(s);
        else if (what < 97) {  // the records, in key and write order
            Mem::Records rs;
            s.Release(rs);
            Model got;
            ron::Key last = ron::Key::ZERO;
            for (auto& x : rs) {
                if (x.first == ron::Key::END && x.second.empty()) continue;
                VF_CHECK(c, !(x.first < last), "records are not in key order", "");
                last = x.first;
                got[mkey(x.first)].push_back(ops_of(c, x.second, "record"));
            }
            VF_CHECK(c, got.size() == m.size(), "wrong number of released keys", "");
            for (auto& x : m) {
                auto it = got.find(x.first);
                VF_CHECK(c, it != got.end(), "a key is not released", show(x.first));
                same_value(c, x.first, expected(x.first.form, it->second), x.second, "wrong records released", "");
            }
            c.saw("releases");
        } else if (what < 98) {
            t.note("close");
            VF_CHECK(c, s.Close(), "close fails", "");
            m.clear();
            check_all(c, s, m, w);
            if (r.coin()) open();
            c.saw("closings");
        } else if (!broken) {
            t.unmergeable(s, m);
            broken = true;
        }
    }
    check_all(c, s, m, w);
    busy_scan(c, s, m, w);
    c.saw("keys checked", m.size());
    c.distinct(t.log);
}

// ==================================================== P18 the overlay store ==
template <class A>
static void overlay(Case& c, A& a, Model& ma, World& w) {
    Rng& r = c.rng;
    One t{c, w};
    using Joined = ron::JoinedStore<A, Mem>;
    Mem b;
    Model mb;
    Joined s{a, b};
    auto have = [&] { return joined(ma, mb); };
    if (r.chance(30)) {
        Id i = w.ids.next();
        t.note("open the overlay " + md::text(i));
        VF_CHECK(c, b.Open(uuid(i)), "open fails", "");
        Op o;
        o.id = i, o.ref = YARN;
        mb[MKey{}].push_back({o});
    }
    for (int n = 5 + (int)r.below(r.chance(10) ? 120 : 40); n > 0; n--) {
        int what = (int)r.below(100);
        if (what < 30) t.write(s, mb, have(), "over");
        else if (what < 45 && mb.empty()) t.write(a, ma, ma, "under");
        else if (what < 55) {  // batches go below: what is above must not depend on the order
            bool plain = true;
            for (auto& x : mb) plain = plain && x.first.form != LOG_F && x.first.form != ZERO_F && x.first.form != RGA_F;
            if (plain) t.batch(s, ma, "under");
        } else if (what < 70) check_read(c, s, have(), t.some_key());
        else if (what < 76) check_scan(c, s, have());
        else if (what < 86) check_walk(c, s, have(), w);
        else if (what < 92) busy_scan(c, s, have(), w);
        else if (what < 95) t.end_key(s);
        else {
            check_scan(c, a, ma);
            for (auto& x : ma) check_read(c, a, ma, x.first, "the base store has changed");
            c.saw("base stores compared");
        }
    }
    Model m = have();
    check_all(c, s, m, w);
    busy_scan(c, s, m, w);
    check_all(c, a, ma, w);
    for (auto& x : mb) {  // all of it is above
        bool alone = x.first.form != RGA_F && x.first.form != MAX_F;
        if (alone) check_read(c, b, mb, x.first, "wrong value in the overlay");
    }
    size_t both = 0;
    for (auto& x : mb) both += ma.count(x.first);
    c.saw("keys in both stores", both);
    c.saw("keys checked", m.size());
    c.distinct(t.log);
}
VF_SUITE(join_mem) {
    Shield sh{c};
    Rng& r = c.rng;
    World w{r, 1 + (int)r.below(r.chance(10) ? 20 : 6)};
    c.input("");
    Mem a;
    Model ma;
    if (r.chance(30)) {
        Id i = w.ids.next();
        VF_CHECK(c, a.Open(uuid(i)), "open fails", "");
        Op o;
        o.id = i, o.ref = YARN;
        ma[MKey{}].push_back({o});
        c.more("opened the base " + md::text(i) + "\n");
    }
    One t{c, w};
    for (int n = (int)r.below(12); n > 0; n--) t.write(a, ma, ma, "under");
    overlay(c, a, ma, w);
}
VF_SUITE(join_rocks, 60000) {
    Shield sh{c};
    Rng& r = c.rng;
    Dir dir;
    World w{r, 1 + (int)r.below(6)};
    c.input("");
    Rocks a;
    Model ma;
    ron::Status ok = a.Create(ron::Uuid::NIL);
    VF_CHECK(c, ok, "create fails", ok.str());
    Op o;
    o.ref = name("zero");
    ma[MKey{}].push_back({o});
    One t{c, w};
    for (int n = (int)r.below(12); n > 0; n--) t.write(a, ma, ma, "under");
    overlay(c, a, ma, w);
    VF_CHECK(c, a.Close(), "close fails", "");
}
