// driver_damage.cc - stores and replicas whose files are damaged, or whose reads fail: what can
// not be read is reported, and never taken for something else.
#include <sys/syscall.h>
#include <atomic>
#include <fstream>
#include <rocksdb/advanced_cache.h>
#include <rocksdb/table.h>
#include "db/joined_store.hpp"
#include "db/mem_store.hpp"
#include "replica_model.hpp"

// The faults: reads of table files (the only ones RocksDB makes by pread) that fail, end early
// or bring a wrong byte. Nothing else is touched.
namespace fault {
std::atomic<bool> armed{false};
std::atomic<long> skip{0}, count{0}, seen{0}, made{0};
int kind = 0;
u64 salt = 0;
static void arm(Rng& r, int k) {
    kind = k, salt = r.next();
    skip = (long)r.below(r.coin() ? 4 : 40);
    count = r.chance(50) ? 1 : r.chance(50) ? 1 + (long)r.below(5) : 1000000;
    armed = true;
}
static ssize_t read(int fd, void* to, size_t n, off_t at) {
    ssize_t got = syscall(SYS_pread64, fd, to, n, at);
    seen++;
    if (!armed || got <= 0 || skip-- > 0 || count-- <= 0) return got;
    made++;
    switch (kind) {
        case 0: errno = EIO; return -1;
        case 1: static_cast<u8*>(to)[(salt >> 8) % got] ^= 1 << (salt & 7); return got;
        default: return 0;
    }
}
}  // namespace fault
extern "C" {
ssize_t pread(int fd, void* to, size_t n, off_t at) { return fault::read(fd, to, n, at); }
ssize_t pread64(int fd, void* to, size_t n, off64_t at) { return fault::read(fd, to, n, at); }
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }
int fallocate(int, int, off_t, off_t) { errno = EOPNOTSUPP; return -1; }
int sync_file_range(int, off64_t, off64_t, unsigned) { return 0; }
}

namespace {
namespace fs = std::filesystem;
// What may go wrong from here on: nothing, files that are spoiled, or reads that go wrong.
struct Trouble {
    Case& c;
    bool damaged = false;
    explicit Trouble(Case& c_) : c{c_} { clear(); }
    ~Trouble() { clear(); }
    void clear() { fault::armed = false, fault::made = 0, fault::seen = 0; }
    bool any() const { return damaged || fault::made > 0; }
    // an error is no surprise any more
    void excuse(const ron::Status& ok, const char* what) {
        VF_CHECK(c, any(), "fails for no reason", str(what) + ": " + ok.str());
        c.saw("errors reported");
        c.saw((str("errors: ") + what).c_str());
    }
    void arm() {
        int k = (int)c.rng.below(3);
        static const char* const K[] = {"reads fail\n", "reads bring wrong bytes\n", "reads end early\n"};
        c.more(K[k]);
        fault::arm(c.rng, k);
    }
    void disarm() {
        fault::armed = false;
        if (fault::made) c.saw("reads spoiled", fault::made);
    }
    // one table file: a few wrong bytes in a row, or its end cut off
    void spoil_files() {
        std::vector<fs::path> t;
        for (auto& f : fs::directory_iterator(ron::ROCKSDB_STORE_DIR))
            if (f.path().extension() == ".sst") t.push_back(f.path());
        if (t.empty()) return;
        std::sort(t.begin(), t.end());
        Rng& r = c.rng;
        auto& f = r.pick(t);
        std::error_code gone;  // (RocksDB may be just deleting it)
        size_t size = fs::file_size(f, gone);
        if (gone || !size) return;
        damaged = true;
        if (r.chance(15)) {
            size_t to = r.below(size);
            c.more("cut " + f.filename().string() + " at " + std::to_string(to) + "\n");
            fs::resize_file(f, to, gone);
        } else if (r.chance(5)) {
            c.more("lose " + f.filename().string() + "\n");
            fs::remove(f, gone);
        } else {
            size_t at = r.below(r.coin() ? size : std::min<size_t>(size, 1000)), n = 1 + r.below(r.coin() ? 1 : 64);
            std::fstream s{f, std::ios::in | std::ios::out | std::ios::binary};
            str b(std::min(n, size - at), 0);
            s.seekg(at), s.read(&b[0], b.size());
            c.more("spoil " + f.filename().string() + " at " + std::to_string(at) + ", " + std::to_string(b.size()) + " bytes\n");
            if (b.size() == 1 || r.coin()) b[r.below(b.size())] ^= 1 << r.below(8);
            else for (auto& x : b) x = (char)r.next();
            s.seekp(at), s.write(b.data(), b.size());
        }
        c.saw("files spoiled");
    }
};

// ---- stores: the checks of store_model.hpp, where every step may end in an error
template <class S>
void try_read(Trouble& t, S& s, const Model& m, const MKey& k) {
    Case& c = t.c;
    Frame f{"@1+junk :lww;"};
    ron::Status ok = s.Read(key(k), f);
    if (!ok) return t.excuse(ok, "read");
    auto it = m.find(k);
    if (it == m.end()) VF_CHECK(c, f.empty(), "a never-written key has a value", show(k) + ": " + f.data());
    else same_value(c, k, ops_of(c, f, "value read"), it->second, "a wrong value is read", f.data());
    if (t.any()) c.saw("right answers in trouble");
}
// is the iterator there? (an error may stand for the value)
template <class It>
bool try_at(Trouble& t, It& i, const Model& m, Model::const_iterator want, const str& ctx) {
    Case& c = t.c;
    if (want == m.end()) {
        check_at(c, i, m, want, ctx);
        return true;
    }
    VF_CHECK(c, mkey(i.key()) == want->first, "iterator at a wrong key", "at " + show(mkey(i.key())) + ", expected " + show(want->first) + "\n" + ctx);
    Frame v{i.value().data().str()};
    Cursor cu{v};
    if (cu.Next() && cu.ref() == ron::Uuid::FATAL) {
        t.excuse(ron::Status{cu.id()}, "value");
        return false;
    }
    same_value(c, want->first, ops_of(c, v, "iterated value"), want->second, "wrong value iterated", ctx);
    return true;
}
template <class S>
void try_walk(Trouble& t, S& s, const Model& m, const MKey& k, bool prev) {
    Case& c = t.c;
    typename S::Iterator i{s};
    ron::Status ok = i.SeekTo(key(k), prev);
    if (!ok) return t.excuse(ok, "seek");
    auto at = m.lower_bound(k);
    if (prev && (at == m.end() || !(at->first == k))) at = at == m.begin() ? m.end() : std::prev(at);
    if (!try_at(t, i, m, at, str("after seeking ") + (prev ? "back " : "") + "to " + show(k))) return;
    while (at != m.end()) {
        ok = i.Next();
        ++at;
        if (!ok && ok != ron::Status::ENDOFINPUT) return t.excuse(ok, "step");
        if (!ok) VF_CHECK(c, at == m.end(), "the end comes early", show(at->first) + " is next");
        if (!try_at(t, i, m, at, "stepping")) return;
    }
    if (t.any()) c.saw("right answers in trouble");
}
// what has been read before is to be read again
void forget(rocksdb::DB* db, Case& c) {
    auto* cache = db->GetOptions().table_factory->GetOptions<rocksdb::Cache>(rocksdb::TableFactory::kBlockCacheOpts());
    if (!cache) return;
    cache->SetCapacity(0);
    cache->EraseUnRefEntries();
    c.saw("caches dropped");
}
void flush(rocksdb::DB* db, Case& c) {
    std::vector<std::string> files;
    uint64_t size;
    auto ok = db->GetLiveFiles(files, &size, true);
    VF_CHECK(c, ok.ok(), "flush fails", ok.ToString());
}
}  // namespace

VF_SUITE(store_damage, 60000) {
    Rng& r = c.rng;
    Dir dir;
    Trouble t{c};
    World w{r, 2 + (int)r.below(8)};
    struct B {
        Id id;
        Store s;
        Model m;
    };
    std::vector<B> b(1 + r.below(3));
    c.input("");
    str log;
    auto note = [&](const str& s) { c.more(s + "\n"); if (log.size() < 20000) log += s + "\n"; };
    auto raw = [&] { return static_cast<rocksdb::DB*>(b[0].s.db().get()); };
    for (size_t i = 0; i < b.size(); i++) {
        if (i) b[i].id = md::ev(md::M60, i), b[i].s = Store{b[0].s.db()};
        ron::Status ok = b[i].s.Create(uuid(b[i].id));
        VF_CHECK(c, ok, "create fails", ok.str());
        Op o;
        o.ref = name("zero");
        b[i].m[MKey{}].push_back({o});
    }
    for (int n = 5 + (int)r.below(r.chance(25) ? 200 : 50); n > 0; n--) {
        auto& x = r.pick(b);
        Obj& o = r.pick(w.objs);
        auto it = x.m.find(o.key);
        Ops ops = w.next(o, it == x.m.end() ? Writes{} : it->second);
        Frame f = make(c, ops);
        note(md::text(x.id) + " " + show(o.key) + " " + f.data());
        ron::Status ok = x.s.Write(key(o.key), f);
        VF_CHECK(c, ok, "write fails", ok.str());
        x.m[o.key].push_back(ops);
        if (r.chance(15)) note("flush"), flush(raw(), c);
    }
    flush(raw(), c);
    for (auto& x : b) x.s.Close();
    bool files = r.chance(30);
    bool early = r.chance(40);
    if (early) files ? t.spoil_files() : t.arm();
    auto open = [&](bool sure) {
        for (int tries = 0;; tries++) {
            Store::Branches got;
            ron::Status ok = Store::OpenAll(got);
            if (!ok) {
                VF_CHECK(c, !sure, "does not open again", ok.str());
                t.excuse(ok, "open");
                VF_CHECK(c, got.empty(), "stores of a database that is not open", "");
                if (tries > 3) return false;
                continue;
            }
            VF_CHECK(c, got.size() == b.size(), "wrong branches", std::to_string(got.size()));
            for (auto& x : b) {
                auto i = got.find(uuid(x.id));
                VF_CHECK(c, i != got.end(), "a branch is lost", md::text(x.id));
                x.s = i->second;
            }
            return true;
        }
    };
    if (open(false)) {
        if (r.chance(80)) forget(raw(), c);
        if (!early) files ? t.spoil_files() : t.arm();
        for (int n = 3 + (int)r.below(15); n > 0; n--) {
            auto& x = r.pick(b);
            int k = (int)r.below(100);
            MKey at;
            if (r.chance(70)) {
                auto i = x.m.begin();
                std::advance(i, r.below(x.m.size()));
                at = i->first;
            } else do at = w.any_key(); while (at.end());
            if (k < 45) try_read(t, x.s, x.m, at);
            else if (k < 60) try_walk(t, x.s, x.m, r.coin() ? at : MKey{}, r.chance(30));
            else if (k < 90) {  // behind a layer of memory
                using Mem = ron::InMemoryStore<Frame>;
                Mem mem;
                Model then = x.m;
                for (int q = (int)r.below(4); q > 0; q--) {
                    Obj& o = r.pick(w.objs);
                    auto it = then.find(o.key);
                    Ops ops = w.next(o, it == then.end() ? Writes{} : it->second);
                    Frame f = make(c, ops);
                    ron::Status ok = mem.Write(key(o.key), f);
                    VF_CHECK(c, ok, "write fails", ok.str());
                    then[o.key].push_back(ops);
                }
                ron::JoinedStore<Store, Mem> j{x.s, mem};
                if (r.coin()) try_read(t, j, then, at);
                else try_walk(t, j, then, r.coin() ? at : MKey{}, r.chance(30));
                c.saw("joined stores");
            } else {
                Obj& o = r.pick(w.objs);
                auto it = x.m.find(o.key);
                Ops ops = w.next(o, it == x.m.end() ? Writes{} : it->second);
                Frame f = make(c, ops);
                note(md::text(x.id) + " " + show(o.key) + " " + f.data());
                ron::Status ok = x.s.Write(key(o.key), f);
                if (!ok) t.excuse(ok, "write");
                else x.m[o.key].push_back(ops);
            }
        }
        for (auto& x : b) x.s.Close();
    } else c.saw("databases that do not open");
    t.disarm();
    if (!files) {  // nothing is damaged really
        t.clear();
        note("and now for real");
        open(true);
        for (auto& x : b) {
            for (auto& k : x.m) if (k.second.empty()) c.fail("harness", "no writes");
            check_all(c, x.s, x.m, w);
        }
        c.saw("databases sound afterwards");
    }
    if (fault::made || t.damaged || !files) c.distinct(log);
}

namespace {
struct Shaky : World2 {
    Trouble t;
    explicit Shaky(Case& c_) : World2{c_}, t{c_} {}
    rocksdb::DB* db() { return static_cast<rocksdb::DB*>(re->GetStore(ron::Uuid::NIL).db().get()); }
    void flush_all() { note("flush\n"), flush(db(), c); }
    bool open(bool sure) {
        for (int tries = 0;; tries++) {
            ron::Status ok = re->Open();
            if (!ok) {
                VF_CHECK(c, !sure, "does not open again", ok.str());
                t.excuse(ok, "open");
                note("not open: " + ok.str() + "\n");
                VF_CHECK(c, !re->open(), "open after failing to open", "");
                if (tries > 3) return false;
                continue;
            }
            VF_CHECK(c, !sure || !t.any(), "trouble", "");
            ron::Uuids ids;
            re->ListStores(ids);
            VF_CHECK(c, ids.size() == b.size() + 1, "wrong branches", std::to_string(ids.size()));
            for (auto& x : b) {
                VF_CHECK(c, re->HasBranch(ron::Word{x.first}), "a branch is lost", md::word(x.first));
                Commit co{*re, re->yarn2branch(ron::Word{x.first})};
                VF_CHECK(c, co.tip() == uuid(x.second.tip), "wrong tip", co.tip().str() + ", not " + md::text(x.second.tip));
            }
            VF_CHECK(c, re->active_store() == uuid(active), "another active store", re->active_store().str() + ", not " + md::text(active));
            return true;
        }
    }
    void try_object(Branch& x) {
        auto i = x.objs.begin();
        std::advance(i, r.below(x.objs.size()));
        Commit co{*re, re->yarn2branch(ron::Word{x.yarn})};
        Frame f;
        ron::Status ok;
        switch (r.below(4)) {
            case 0:
                ok = co.GetFrame(f, uuid(i->first), ron::form2uuid(ron::FORM(i->second.form)));
                if (!ok) return t.excuse(ok, "object");
                same_object(i->first, i->second, f, "object state");
                break;
            case 1:
                ok = co.GetObjectLog(f, uuid(i->first));
                if (!ok) return t.excuse(ok, "log");
                same_value(c, MKey{LOG_F, i->first.o & md::M60, i->first.v & md::M60}, ops_of(c, f, "object log"), i->second.chains, "object log", f.data());
                break;
            case 2: {
                Object o = i->second;
                o.chains.resize(1 + r.below(o.chains.size()));
                ok = co.GetObjectVersion(f, uuid(i->first), uuid(o.chains.back().back().id));
                if (!ok) return t.excuse(ok, "version");
                same_object(i->first, o, f, "object version");
                break;
            }
            default: {
                Replica::Names got;
                ok = co.ReadNames(got);
                if (!ok) return t.excuse(ok, "names");
                VF_CHECK(c, got.size() == x.names.size(), "names are lost", std::to_string(got.size()));
            }
        }
        if (t.any()) c.saw("right answers in trouble");
    }
    void try_query(Branch& x) {
        std::vector<Id> known;
        for (auto& o : x.objs) if (o.second.form != MAX_F) known.push_back(o.first);
        if (known.empty()) return;
        Id of = r.pick(known);
        const Object& o = x.objs.at(of);
        Ops want = expected(o.form, o.chains);
        Op a;
        a.term = md::QUERY;
        bool text = o.form == RGA_F && r.coin();
        if (text) {
            a.id = md::id(of.v & md::M60, md::DERIVED, of.o & md::M60);
            a.ref = name("txt");
        } else {
            a.id = of;
            a.ref = o.form == LWW_F ? LWW : o.form == RGA_F ? RGA : o.form == MX_F ? MX : YARN_ID;
        }
        Frame in{md::spell(Ops{a}, r)};
        if (text) a.vals = {Val::string(text_of(want))}, want = {a};
        Builder resp;
        ron::Status ok = re->ReceiveFrame(resp, in, ron::Word{x.yarn});
        if (!ok) return t.excuse(ok, "query");
        Frame answer = resp.Release();
        same_ops(c, ops_of(c, answer, "answer"), want, false, text ? "wrong text" : "wrong answer to a query", answer.data());
        if (t.any()) c.saw("right answers in trouble");
    }
    void try_receive(Branch& x) {
        Ops f = good(x);
        if (r.chance(40)) spoil(x, f);
        if (!sent.empty() && r.chance(15)) f = r.pick(sent).second;
        Branch then = x;
        str why;
        bool good = true;
        for (auto& o : f) if (good) good = take(then, o, why);
        if (f.empty()) return;
        Frame in = make(c, f);
        note("receive " + md::word(x.yarn) + " " + in.data() + "\n");
        Builder resp;
        ron::Status ok = re->ReceiveFrame(resp, in, ron::Word{x.yarn});
        if (!good) {
            VF_CHECK(c, !ok, "a bad frame is accepted", "(" + why + ") " + in.data());
            c.saw("bad frames refused");
            return;
        }
        if (!ok) {
            note("  refused: " + ok.str() + "\n");
            return t.excuse(ok, "frame");
        }
        x = then;
        for (auto& o : f) if (o.id.version() == md::TIME) see(o.id.v);
        c.saw("good frames accepted");
    }
    void try_fork() {
        u64 from = any().yarn, yarn;
        do yarn = 1 + md::gen_word(r) % (md::M60 - 1);
        while (b.count(yarn) || b[from].tips.count(md::ev(0, yarn).o));
        note("fork " + md::word(from) + " as " + md::word(yarn) + "\n");
        ron::Status ok = re->ForkBranch(ron::Word{yarn}, ron::Word{from});
        if (!ok) {
            note("  refused: " + ok.str() + "\n");
            VF_CHECK(c, !re->HasBranch(ron::Word{yarn}), "a branch that is not forked is there", md::word(yarn));
            return t.excuse(ok, "fork");
        }
        Branch x = b[from];
        x.yarn = yarn;
        x.tip = Id{};
        begin_yarn(x, false);
        b[yarn] = x;
        c.saw("forks made");
    }
};
}  // namespace
VF_SUITE(replica_damage, 120000) {
    Rng& r = c.rng;
    Dir dir;
    Shaky w{c};
    ron::Status ok = Replica::CreateReplica();
    VF_CHECK(c, ok, "no replica is created", ok.str());
    w.re = std::make_unique<Replica>();
    ok = w.re->Open();
    VF_CHECK(c, ok, "open fails", ok.str());
    c.input("");
    w.wide = r.chance(40);  // tables of many blocks
    w.create();
    for (int n = 5 + (int)r.below(20); n > 0; n--) {
        int k = (int)r.below(100);
        if (k < 70) w.receive(w.any());
        else if (k < 75) w.create();
        else if (k < 80) w.fork();
        else if (k < 84) w.hop();
        else if (k < 86) w.name_it();
        else w.flush_all();
    }
    if (r.chance(80)) w.flush_all();
    ok = w.re->Close();
    VF_CHECK(c, ok, "close fails", ok.str());
    bool files = r.chance(30);
    bool early = r.chance(40);
    if (early) files ? w.t.spoil_files() : w.t.arm();
    if (w.open(false)) {
        if (r.chance(80)) forget(w.db(), c);
        if (!early) files ? w.t.spoil_files() : w.t.arm();
        for (int n = 3 + (int)r.below(15); n > 0; n--) {
            auto& x = w.any();
            int k = (int)r.below(100);
            if (k < 35) w.try_object(x);
            else if (k < 50) w.try_query(x);
            else if (k < 90) w.try_receive(x);
            else if (!files) w.try_fork();
        }
        ok = w.re->Close();
        VF_CHECK(c, ok, "close fails", ok.str());
    } else c.saw("replicas that do not open");
    w.t.disarm();
    if (!files) {
        w.t.clear();
        w.note("and now for real\n");
        w.open(true);
        w.check_all();
        c.saw("replicas sound afterwards");
    }
    c.distinct(w.log);
}
