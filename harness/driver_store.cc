// driver_store.cc - the persistent store: histories over one or several branches against
// the model in store_model.hpp. Runs in scratch directories of its own.
#include <rocksdb/db.h>
#include <rocksdb/options.h>
#include <memory>
#include "store_model.hpp"
#include "rocks_dir.hpp"

// Nothing here depends on power failures: syncing and preallocation only cost time.
extern "C" {
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }
int fallocate(int, int, off_t, off_t) { errno = EOPNOTSUPP; return -1; }
int sync_file_range(int, off64_t, off64_t, unsigned) { return 0; }
}

using namespace sm;
using Store = ron::RocksDBStore<Frame>;
using Records = Store::Records;

namespace {
struct Branch {
    Id id;
    std::unique_ptr<Store> s;
    Model m;
};
struct Db {
    Case& c;
    World& w;
    std::vector<Branch> b;
    str log;
    void note(const str& s) {
        c.more(s + "\n");
        if (log.size() < 20000) log += s + "\n";
    }
    Branch& any() { return b[c.rng.below(b.size())]; }
    rocksdb::DB* raw() { return static_cast<rocksdb::DB*>(b[0].s->db().get()); }

    void created(Branch& x) {
        Op o;
        o.ref = name("zero");
        x.m[MKey{}].push_back({o});
    }
    Frame piece(Branch& x, Obj& o, const Writes& have, Ops& ops) {
        (void)x;
        ops = w.next(o, have);
        return make(c, ops);
    }
    void write(Branch& x) {
        Obj& o = c.rng.pick(w.objs);
        Ops ops;
        auto it = x.m.find(o.key);
        Frame f = piece(x, o, it == x.m.end() ? Writes{} : it->second, ops);
        note("write " + md::text(x.id) + " " + show(o.key) + " " + f.data());
        ron::Status ok = x.s->Write(key(o.key), f);
        VF_CHECK(c, ok, "write fails", ok.str());
        x.m[o.key].push_back(ops);
        c.saw("writes");
    }
    void batch(Branch& x) {
        Records rs;
        Model then = x.m;
        note("batch " + md::text(x.id));
        for (int n = (int)(c.rng.chance(1) ? 60 + c.rng.below(100) : c.rng.below(6)); n > 0; n--) {
            Obj& o = c.rng.pick(w.objs);
            Ops ops;
            auto it = then.find(o.key);
            Frame f = piece(x, o, it == then.end() ? Writes{} : it->second, ops);
            note("  " + show(o.key) + " " + f.data());
            then[o.key].push_back(ops);
            rs.emplace_back(key(o.key), f);
        }
        bool bad = c.rng.chance(10);
        if (bad) {  // the reserved key: all or nothing
            rs.insert(rs.begin() + c.rng.below(rs.size() + 1), Store::Record{ron::Key::END, Frame{"@1+A :lww;"}});
            note("  the end key");
        }
        ron::Status ok = x.s->Write(rs);
        if (bad) {
            VF_CHECK(c, !ok, "a batch with the end key is accepted", "");
            c.saw("refused batches");
            return;
        }
        VF_CHECK(c, ok, "batch fails", ok.str());
        x.m = then;
        c.saw("batches");
    }
    void end_key(Branch& x) {
        note("end key " + md::text(x.id));
        ron::Status ok = x.s->Write(ron::Key::END, Frame{"@1+A :lww;"});
        VF_CHECK(c, !ok, "a write to the end key is accepted", "");
        if (c.rng.coin()) x.s->Write(ron::Key::END, Frame{});
        Frame f{"@1+junk :lww;"};
        ok = x.s->Read(ron::Key::END, f);
        VF_CHECK(c, f.empty(), "the end key has a value", f.data());
        c.saw("end key writes refused");
    }
    // a closed store reports errors
    static void closed(Case& c, Store& s) {
        VF_CHECK(c, !s.open(), "open after Close()", "");
        Frame f{"@1+A :lww;"};
        VF_CHECK(c, !s.Write(ron::Key{ron::Uuid{"1+A"}, ron::LWW_RDT_FORM}, f), "a closed store takes a write", "");
        VF_CHECK(c, !s.Write(Records{{ron::Key{ron::Uuid{"1+A"}, ron::LWW_RDT_FORM}, f}}), "a closed store takes a batch", "");
        VF_CHECK(c, !s.Read(ron::Key{ron::Uuid{"1+A"}, ron::LWW_RDT_FORM}, f), "a closed store is read", "");
        VF_CHECK(c, !s.Drop(), "a closed store is dropped", "");
        VF_CHECK(c, !s.Close(), "a closed store is closed again", "");
        Store::Iterator i{s};
        VF_CHECK(c, !i.SeekTo(ron::Key::ZERO), "a closed store is iterated", "");
        VF_CHECK(c, !i.Next(), "a closed store is iterated", "");
        VF_CHECK(c, i.key() == ron::Key::END, "a closed store has keys", "");
        VF_CHECK(c, !i.value().Next(), "a closed store has values", "");
        c.saw("closed stores probed");
    }
    void flush() {
        note("flush");
        std::vector<std::string> files;
        uint64_t size;
        auto ok = raw()->GetLiveFiles(files, &size, true);
        VF_CHECK(c, ok.ok(), "flush fails", ok.ToString());
        c.saw("flushes");
    }
    void compact() {
        flush();
        note("compact");
        auto ok = raw()->CompactRange(rocksdb::CompactRangeOptions{}, nullptr, nullptr);
        VF_CHECK(c, ok.ok(), "compaction fails", ok.ToString());
        ok = raw()->WaitForCompact(rocksdb::WaitForCompactOptions{});
        VF_CHECK(c, ok.ok(), "compaction fails", ok.ToString());
        c.saw("compactions");
    }
    void reopen() {
        note("reopen");
        c.rng.shuffle(b);
        bool probe = c.rng.chance(30);
        // a repair of a sound database (RocksDB may lose branches that have no tables yet)
        bool repair = c.rng.chance(30);
        for (auto& x : b) repair = repair && !x.m.empty();
        if (repair) flush();
        // iterators may outlive the stores
        std::unique_ptr<Store::Iterator> left;
        if (c.rng.chance(20)) {
            left = std::make_unique<Store::Iterator>(*b[0].s);
            left->SeekTo(ron::Key::ZERO);
        }
        for (auto& x : b) {
            ron::Status ok = x.s->Close();
            VF_CHECK(c, ok, "close fails", ok.str());
            if (probe) closed(c, *x.s);
            x.s.reset();
        }
        if (left) {
            if (c.rng.coin()) left->Next(), left->value().Next();
            left.reset();
        }
        if (repair) {
            ron::Status ok = Store::Repair();
            VF_CHECK(c, ok, "repair fails", ok.str());
            note("(repaired)");
            c.saw("repairs");
        }
        if (b.size() == 1 && b[0].id == Id{} && c.rng.coin()) {
            auto s = std::make_unique<Store>();
            if (c.rng.coin()) {
                ron::Status ok = s->Open(ron::Uuid::NIL);
                VF_CHECK(c, ok, "open fails", ok.str());
                c.saw("Open() calls");
            } else {
                ron::Status ok = s->Create(ron::Uuid::NIL);
                VF_CHECK(c, ok, "create over an existing database fails", ok.str());
                created(b[0]);
                note("(by Create)");
            }
            b[0].s = std::move(s);
            c.saw("reopenings");
            return;
        }
        Store::Branches got;
        ron::Status ok = Store::OpenAll(got);
        VF_CHECK(c, ok, "OpenAll fails", ok.str());
        str ids;
        for (auto& x : got) ids += md::text(id(x.first)) + " ";
        bool had_nil = false;
        for (auto& x : b) {
            auto it = got.find(uuid(x.id));
            VF_CHECK(c, it != got.end(), "a branch is lost on reopening", md::text(x.id) + " is not among " + ids);
            x.s = std::make_unique<Store>(it->second);
            had_nil = had_nil || x.id == Id{};
        }
        // the database always has its default branch
        size_t want = b.size() + (had_nil ? 0 : 1);
        VF_CHECK(c, got.size() == want, "wrong branches on reopening", std::to_string(want) + " expected, got " + ids);
        c.saw("reopenings");
    }
    void step(int what) {
        Branch& x = any();
        if (what < 45) write(x);
        else if (what < 65) batch(x);
        else if (what < 78) check_read(c, *x.s, x.m, [&] { MKey k; do k = w.any_key(); while (k.end()); return k; }());
        else if (what < 81) check_scan(c, *x.s, x.m);
        else if (what < 86) check_walk(c, *x.s, x.m, w);
        else if (what < 91) flush();
        else if (what < 93) compact();
        else if (what < 96) reopen();
        else end_key(x);
    }
    void finish() {
        for (auto& x : b) {
            c.saw("keys checked", x.m.size());
            check_all(c, *x.s, x.m, w);
        }
    }
};
}  // namespace

// ======================================================= P15 one branch =====
VF_SUITE(store_history, 60000) {
    Rng& r = c.rng;
    Dir dir;
    World w{r, 1 + (int)r.below(r.chance(10) ? 25 : 7)};
    Db db{c, w};
    db.b.emplace_back();
    Branch& x = db.b[0];
    x.id = r.coin() ? Id{} : md::ev(md::M60, 1 + md::gen_word(r) % (md::M60 - 1));
    x.s = std::make_unique<Store>();
    c.input("branch " + md::text(x.id) + "\n");
    if (r.chance(10)) db.closed(c, *x.s);
    ron::Status ok = x.s->Create(uuid(x.id));
    VF_CHECK(c, ok, "create fails", ok.str());
    VF_CHECK(c, x.s->open(), "created but not open", "");
    db.created(x);
    for (int n = 5 + (int)r.below(r.chance(10) ? 150 : 40); n > 0; n--) db.step((int)r.below(100));
    db.finish();
    if (r.chance(60)) {
        db.reopen();
        db.finish();
    }
    c.distinct(db.log);
}

// ===================================================== P17 many branches =====
static Id branch_id(Rng& r, const std::vector<Branch>& b) {
    switch (r.below(8)) {
        case 0: return name("default");
        case 1: return md::gen_id(r);
        case 2: {  // next to an existing one
            Id i = b[r.below(b.size())].id;
            if (r.coin()) i.v ^= 1ULL << r.below(64);
            else i.o ^= 1ULL << r.below(62);
            return i;
        }
        case 3: return name(str(1, "abc"[r.below(3)]));
        default: return md::ev(md::M60, 1 + r.below(5));
    }
}
VF_SUITE(store_branches, 60000) {
    Rng& r = c.rng;
    Dir dir;
    World w{r, 1 + (int)r.below(4)};
    Db db{c, w};
    db.b.emplace_back();
    db.b[0].s = std::make_unique<Store>();
    c.input("");
    ron::Status ok = db.b[0].s->Create(ron::Uuid::NIL);
    VF_CHECK(c, ok, "create fails", ok.str());
    db.created(db.b[0]);
    std::set<Id> dropped;
    for (int n = 10 + (int)r.below(r.chance(10) ? 120 : 35); n > 0; n--) {
        int what = (int)r.below(100);
        if (what < 15) {  // a new branch, or one that exists
            Id i = branch_id(r, db.b);
            if (!dropped.empty() && r.chance(30)) i = *dropped.begin();
            bool exists = false;
            for (auto& x : db.b) exists = exists || x.id == i;
            std::unique_ptr<Store> s;
            if (r.coin()) s = std::make_unique<Store>(*db.any().s);
            else s = std::make_unique<Store>(db.any().s->db());
            db.note("create " + md::text(i));
            if (i == Id{}) continue;
            if (!exists && db.b.size() > 6) continue;
            ok = s->Create(uuid(i));
            if (exists || i == name("default")) {
                VF_CHECK(c, !ok, "an existing branch is created again", md::text(i));
                c.saw("duplicate branches refused");
                continue;
            }
            VF_CHECK(c, ok, "create fails", ok.str() + " for " + md::text(i));
            VF_CHECK(c, s->open(), "created but not open", "");
            db.b.emplace_back();
            db.b.back().id = i;
            db.b.back().s = std::move(s);
            db.created(db.b.back());
            dropped.erase(i);
            c.saw("branches created");
        } else if (what < 21) {
            size_t k = r.below(db.b.size());
            Branch& x = db.b[k];
            db.note("drop " + md::text(x.id));
            ok = x.s->Drop();
            if (x.id == Id{}) {
                VF_CHECK(c, !ok, "the default branch is dropped", "");
                VF_CHECK(c, x.s->open(), "a failed drop closes the branch", "");
                c.saw("default drops refused");
            } else {
                VF_CHECK(c, ok, "drop fails", ok.str());
                Db::closed(c, *x.s);
                dropped.insert(x.id);
                db.b.erase(db.b.begin() + k);
                c.saw("branches dropped");
            }
        } else if (what < 25) {
            db.reopen();
        } else
            db.step((int)r.below(94));
    }
    db.finish();
    db.reopen();
    db.finish();
    c.saw("branches checked", db.b.size());
    if (db.b.size() > 1) c.distinct(db.log);
}
// Failing to create or open a database leaves no half-open store behind.
VF_SUITE(store_fail, 60000) {
    Rng& r = c.rng;
    Dir dir;
    c.input("");
    Store s;
    ron::Status ok;
    switch (r.below(4)) {
        case 0:  // nothing to open
            ok = s.Open(ron::Uuid::NIL);
            VF_CHECK(c, !ok, "opened a database that does not exist", "");
            break;
        case 1: {
            Store::Branches b;
            ok = Store::OpenAll(b);
            VF_CHECK(c, !ok && b.empty(), "opened a database that does not exist", "");
            break;
        }
        case 2:  // a name that is taken
            ok = s.Create(uuid(name("default")));
            VF_CHECK(c, !ok, "the default branch is created under another id", "");
            break;
        default: {  // in use
            Store other;
            ok = other.Create(ron::Uuid::NIL);
            VF_CHECK(c, ok, "create fails", ok.str());
            ok = r.coin() ? s.Create(r.coin() ? ron::Uuid::NIL : ron::Uuid{"x"}) : s.Open(ron::Uuid::NIL);
            VF_CHECK(c, !ok, "one database is opened twice", "");
            Db::closed(c, s);
            VF_CHECK(c, other.open(), "the other store is closed", "");
            Frame f;
            VF_CHECK(c, other.Read(ron::Key::ZERO, f), "the other store is broken", "");
        }
    }
    Db::closed(c, s);
    if (!r.chance(30)) {  // and the next attempt succeeds
        ok = s.Create(r.coin() ? ron::Uuid::NIL : ron::Uuid{"x"});
        VF_CHECK(c, ok, "create fails", ok.str());
        Frame f;
        VF_CHECK(c, s.Read(ron::Key::ZERO, f), "read fails", "");
    }
    c.saw("failed openings");
    c.distinct(str(1, (char)r.below(256)));
}
