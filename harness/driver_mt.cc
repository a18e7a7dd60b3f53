// driver_mt.cc - many threads on shared frames, clocks and one open store. Built with
// ThreadSanitizer, which reports any data race; the results are compared with sequential ones.
#include <sched.h>
#include <rocksdb/db.h>
#include <rocksdb/options.h>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include "store_model.hpp"
#include "rocks_dir.hpp"
#include "ron/hash.hpp"
#include "rdt/rdt.hpp"
#include "rdt/lww_obj.hpp"

extern "C" {
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }
int fallocate(int, int, off_t, off_t) { errno = EOPNOTSUPP; return -1; }
int sync_file_range(int, off64_t, off64_t, unsigned) { return 0; }
}

// RocksDB is not instrumented: the memory it passes from thread to thread must not look as
// if written by the thread that allocated it (its own synchronization is not seen).
extern "C" void __tsan_ignore_thread_begin();
extern "C" void __tsan_ignore_thread_end();
namespace {
void* get(size_t n, size_t al = 0) {
    __tsan_ignore_thread_begin();
    void* p = al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    __tsan_ignore_thread_end();
    if (!p) throw std::bad_alloc{};
    return p;
}
void put(void* p) {
    __tsan_ignore_thread_begin();
    free(p);
    __tsan_ignore_thread_end();
}
}  // namespace
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }

using namespace sm;
using Store = ron::RocksDBStore<Frame>;
using Cursors = Frame::Cursors;

namespace {
// n threads started at once; the first failure of any is reported
struct Team {
    std::mutex m;
    bool failed = false;
    str key, msg;
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    template <class F>
    void run(Case& c, int n, F f) {
        std::vector<std::thread> ts;
        u64 seed = c.rng.next();
        for (int k = 0; k < n; k++)
            ts.emplace_back([&, k] {
                Case mine{seed, u64(k), c.idx};
                ready++;
                while (!go) sched_yield();
                try {
                    f(mine, k);
                } catch (vf::Fail& e) {
                    std::lock_guard<std::mutex> l{m};
                    if (!failed) failed = true, key = e.key, msg = "thread " + std::to_string(k) + ": " + e.msg;
                }
            });
        while (ready < n) sched_yield();
        go = true;
        for (auto& t : ts) t.join();
        if (failed) c.fail(key, msg);
    }
};
void lull(Rng& r) {
    switch (r.below(12)) {
        case 0: sched_yield(); break;
        case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); break;
    }
}

// ---- shared frames
struct Shared {
    std::vector<Frame> f;          // whatever
    std::vector<Frame> lww, rga, mx, max, log;
    std::vector<Cursor> cur;       // positioned cursors of f, copied by the threads
    std::vector<ron::SHA2> hash;
    std::vector<ron::Uuid> ids;
    std::vector<str> names;
    ron::FORM form;
};
str dump(const Frame& f) {
    str s;
    Cursor c = f.cursor();
    ron::Status ok;
    while ((ok = c.Next())) {
        s += c.id().str() + c.ref().str();
        for (size_t i = 2; i < c.op().size(); i++) {
            ron::Atom a = c.atom(i);
            if (a.type() == ron::STRING) {
                str t;
                ron::ReadString(t, c, a);
                s += t;
            } else if (a.type() == ron::FLOAT) s += std::to_string(a.value.as_float);
            else s += std::to_string(a.value.as_u64) + "." + std::to_string(a.origin.as_u64);
        }
    }
    return s + ok.str();
}
str merge(ron::FORM form, const std::vector<Frame>& in) {
    Cursors cs;
    for (auto& f : in) {
        cs.emplace_back(f);
        if (!cs.back().Next()) cs.pop_back();
    }
    Frame out;
    ron::Status ok = ron::MergeCursors<Frame>(out, form, cs);
    return ok.str() + out.data();
}
const int TASKS = 13;
str task(Shared& s, int what, size_t n) {
    const Frame& f = s.f[n % s.f.size()];
    switch (what) {
        case 0: return dump(f);
        case 1: {  // write it anew
            Builder b;
            Cursor c = f.cursor();
            while (c.Next()) b.AppendOp(c);
            return b.Release().data();
        }
        case 2: {
            str r;
            Cursor c = f.cursor();
            ron::SHA2 p = s.hash[n % s.hash.size()];
            while (c.Next()) p = ron::SHA2::OpMerkleHash(c, p, s.hash[(n + 1) % s.hash.size()]);
            return p.hex() + p.base64() + (p == s.hash[0] ? "=" : "");
        }
        case 3: {
            str r;
            for (auto& g : s.f) r += ron::CompareFrames(f, g) ? "1" : "0";
            return r;
        }
        case 4: return merge(ron::LWW_RDT_FORM, s.lww);
        case 5: return merge(ron::RGA_RDT_FORM, s.rga);
        case 6: return merge(ron::MX_RDT_FORM, s.mx);
        case 7: return merge(ron::MAX_RDT_FORM, s.max);
        case 8: {
            Frame out;
            const Frame& l = s.log[n % s.log.size()];
            ron::Status ok = ron::ObjectLogToState<Frame>(out, l);
            return ok.str() + out.data();
        }
        case 9: {
            str r;
            for (size_t i = 0; i < s.ids.size(); i++) {
                r += s.ids[i].str() + ron::Uuid{s.names[i]}.str();
                r += s.ids[i] < s.ids[n % s.ids.size()] ? "<" : ">";
                ron::FORM fm = ron::uuid2form(s.ids[i]);
                r += std::to_string(int(fm)) + ron::form2uuid(ron::FORM((n + i) % 256)).str();
                r += ron::Key{s.ids[i], ron::FORM(n % 21)}.str();
            }
            return r;
        }
        case 10: {
            str r;
            for (auto& l : s.lww) {
                ron::LWWObject<Frame> o{l};
                for (auto k : {"a", "b", "c"}) {
                    ron::Uuid key{k};
                    r += o.uuid(key).str() + o.string(key) + std::to_string(o.number(key));
                }
            }
            return r;
        }
        case 11: {  // a cursor of one's own, from a shared one
            Cursor c = s.cur[n % s.cur.size()];
            str r;
            int k = 0;
            do {
                if (!c.valid()) break;
                r += c.id().str();
                for (size_t i = 2; i < c.op().size(); i++)
                    if (c.atom(i).type() == ron::STRING) {
                        ron::Atom a = c.atom(i);
                        while (c.NextCodepoint(a) == ron::OK) r += std::to_string(u32(a.value.cp));
                    }
            } while (c.Next() && ++k < 1000);
            return r;
        }
        default: {
            str r;
            ron::Word w = ron::Uuid::HybridTime(1300000000 + n * 7919 % 100000000, n * 104729 % 1000000000);
            r += w.str();
            Frame a = ron::OneOp<Frame>(s.ids[n % s.ids.size()], ron::LWW_FORM_UUID);
            return r + a.data();
        }
    }
}
}  // namespace

// ============================================= P20 shared immutable data =====
VF_SUITE(mt_frames, 60000) {
    Rng& r = c.rng;
    Shared s;
    for (int n = 2 + (int)r.below(4); n > 0; n--) {
        Ops ops = md::gen_ops(r);
        s.f.push_back(r.chance(80) ? make(c, ops) : Frame{md::spell(ops, r) + "'\\u12 @"});
    }
    auto part = [&](const Ops& all, bool header) {
        Ops out;
        for (size_t i = 0; i < all.size(); i++)
            if ((header && !i) || r.chance(60)) out.push_back(all[i]);
        return make(c, out);
    };
    Ops l = gen_object(r, LWW, 16, true), x = gen_object(r, MX, 16, true);
    Tree t = gen_tree(r, 20, 30);
    for (int n = 2 + (int)r.below(3); n > 0; n--) {
        s.lww.push_back(part(l, true));
        s.mx.push_back(part(x, false));
        std::vector<bool> in(t.ops.size());
        in[0] = true;
        for (size_t i = 1; i < t.ops.size(); i++) in[i] = in[t.idx[t.ops[i].ref]] && r.chance(80);
        Ops state;
        t.order(0, &in, state);
        s.rga.push_back(make(c, state));
        Ids ids{r};
        Ops m;
        Op o;
        o.id = ids.next(), o.ref = MAX;
        m.push_back(o);
        o.ref = o.id, o.id = ids.next(), o.vals = {Val::integer(r.range(-9, 9))};
        m.push_back(o);
        s.max.push_back(make(c, m));
        s.log.push_back(make(c, l));
    }
    for (auto& f : s.f) {
        Cursor k = f.cursor();
        k.Next();
        s.cur.push_back(k);
    }
    for (int n = 0; n < 3; n++) {
        str hx;
        for (int i = 0; i < 64; i++) hx += "0123456789abcdef"[r.below(16)];
        s.hash.push_back(ron::SHA2::ParseHex(hx));
    }
    for (int n = 0; n < 6; n++) {
        Id i = r.chance(30) ? r.pick(std::vector<Id>{LWW, RGA, MX, YARN}) : md::gen_id(r);
        s.ids.push_back(uuid(i));
        s.names.push_back(md::text(i));
    }
    str in;
    for (auto& f : s.f) in += f.data() + "\n";
    for (auto& f : s.lww) in += f.data() + "\n";
    for (auto& f : s.rga) in += f.data() + "\n";
    c.input(in);
    int n = 2 + (int)r.below(3);
    // concurrently first: what is initialised lazily is initialised there
    std::vector<std::vector<str>> got(n);
    std::vector<std::vector<int>> order(n);
    const int N = 3 * TASKS;
    for (auto& o : order) {
        for (int i = 0; i < N; i++) o.push_back(i);
        if (r.chance(70)) r.shuffle(o);
    }
    Team team;
    team.run(c, n, [&](Case& mine, int k) {
        got[k].resize(N);
        for (int i : order[k]) {
            got[k][i] = task(s, i % TASKS, i / TASKS * 7 + i);
            lull(mine.rng);
        }
    });
    for (int i = 0; i < N; i++) {
        str want = task(s, i % TASKS, i / TASKS * 7 + i);
        for (int k = 0; k < n; k++) {
            VF_CHECK(c, got[k][i] == want, "a concurrent result differs",
                     "task " + std::to_string(i % TASKS) + " in thread " + std::to_string(k) + "\n" + vf::show(got[k][i]) + "\nalone:\n" + vf::show(want));
            c.saw("concurrent results compared");
        }
    }
    c.saw("threads", n);
    c.distinct(in);
}

// ======================================== P20 clocks and identifiers =========
VF_SUITE(mt_clock, 60000) {
    Rng& r = c.rng;
    int n = 2 + (int)r.below(3);
    c.input("");
    timespec t0, t1;
    clock_gettime(CLOCK_REALTIME, &t0);
    t0.tv_nsec = t0.tv_nsec / 1000 * 1000;
    std::vector<std::vector<u64>> got(n);
    Team team;
    std::vector<std::pair<time_t, long>> in;
    std::vector<std::vector<u64>> conv(n);
    for (int i = 0; i < 60; i++) in.emplace_back(1262304000 + r.below(4000000000ULL), r.below(1000000000));
    team.run(c, n, [&](Case& mine, int k) {
        for (int i = 0; i < 60; i++) {
            got[k].push_back(ron::Uuid::Now().as_u64);
            size_t j = (i + k * 17) % in.size();
            conv[k].push_back(ron::Uuid::HybridTime(in[j].first, in[j].second).as_u64);
            lull(mine.rng);
        }
    });
    clock_gettime(CLOCK_REALTIME, &t1);
    u64 lo = ron::Uuid::HybridTime(t0.tv_sec, t0.tv_nsec).as_u64, hi = ron::Uuid::HybridTime(t1.tv_sec, t1.tv_nsec).as_u64;
    for (int k = 0; k < n; k++) {
        u64 last = lo;
        for (u64 g : got[k]) {
            VF_CHECK(c, g >= last, "the time goes backwards", ron::Word{last}.str() + " then " + ron::Word{g}.str());
            last = g;
        }
        VF_CHECK(c, last <= hi, "the time runs ahead", ron::Word{last}.str() + " by " + ron::Word{hi}.str());
        for (int i = 0; i < 60; i++) {
            size_t j = (i + k * 17) % in.size();
            VF_CHECK(c, conv[k][i] == ron::Uuid::HybridTime(in[j].first, in[j].second).as_u64, "timestamp altered by another thread",
                     std::to_string(in[j].first) + "." + std::to_string(in[j].second));
        }
        c.saw("clock readings", got[k].size());
    }
    c.distinct(c.idx);
}

// ============================================== P20 one store, many threads ==
namespace {
struct SharedObj {
    MKey k;
    Id root, form;
};
}  // namespace
VF_SUITE(mt_store, 120000) {
    Rng& r = c.rng;
    Dir dir;
    c.input("");
    int n = 2 + (int)r.below(3);
    std::vector<std::unique_ptr<Store>> st;
    st.push_back(std::make_unique<Store>());
    ron::Status ok = st[0]->Create(ron::Uuid::NIL);
    VF_CHECK(c, ok, "create fails", ok.str());
    int nb = 1 + (int)r.below(2);
    for (int i = 1; i < nb; i++) {
        st.push_back(std::make_unique<Store>(*st[0]));
        ok = st[i]->Create(uuid(md::ev(md::M60, i)));
        VF_CHECK(c, ok, "create fails", ok.str());
    }
    rocksdb::DB* raw = static_cast<rocksdb::DB*>(st[0]->db().get());

    // objects everyone writes to, and those of one thread each
    std::vector<SharedObj> shared;
    std::set<MKey> used;
    for (int i = 0; i < 3; i++) {
        SharedObj o;
        o.root = md::ev(1000 + i, 1);
        o.form = i == 0 ? LWW : i == 1 ? MX : LWW;
        o.k = MKey{i == 0 ? LWW_F : i == 1 ? MX_F : LOG_F, o.root.o & md::M60, o.root.v};
        shared.push_back(o);
        used.insert(o.k);
    }
    std::vector<std::unique_ptr<Rng>> rngs;
    std::vector<std::unique_ptr<World>> w;
    for (int k = 0; k < n; k++) {
        rngs.emplace_back(new Rng{r.next()});
        for (;;) {
            w.emplace_back(new World{*rngs[k], 1 + (int)r.below(3)});
            bool clash = false;
            for (auto& o : w[k]->objs) clash = clash || used.count(o.key);
            if (!clash) break;
            w.pop_back();
        }
        for (auto& o : w[k]->objs) used.insert(o.key);
    }
    std::vector<std::vector<Model>> own(n, std::vector<Model>(nb));                   // [thread][branch]
    std::vector<std::vector<std::vector<Writes>>> put(n, std::vector<std::vector<Writes>>(nb, std::vector<Writes>(shared.size())));
    std::vector<u64> steps(n), reads(n), scans(n);
    int len = 8 + (int)r.below(30);
    bool copies = r.coin();
    std::atomic<int> busy{n};
    Team team;
    team.run(c, n + 1, [&](Case& mine, int k) {
        Rng& rng = mine.rng;
        if (k == n) {  // the maintenance: flushes, compactions, other branches
            while (busy > 0) {
                switch (rng.below(4)) {
                    case 0: {
                        std::vector<std::string> files;
                        uint64_t size;
                        auto s = raw->GetLiveFiles(files, &size, true);
                        VF_CHECK(mine, s.ok(), "flush fails", s.ToString());
                        break;
                    }
                    case 1: {
                        auto s = raw->CompactRange(rocksdb::CompactRangeOptions{}, nullptr, nullptr);
                        VF_CHECK(mine, s.ok(), "compaction fails", s.ToString());
                        break;
                    }
                    case 2: {
                        Store b{st[0]->db()};
                        ron::Status s = b.Create(uuid(md::ev(md::M60, 77)));
                        VF_CHECK(mine, s, "create fails", s.str());
                        s = b.Drop();
                        VF_CHECK(mine, s, "drop fails", s.str());
                        break;
                    }
                    default: std::this_thread::sleep_for(std::chrono::microseconds(rng.below(2000)));
                }
            }
            return;
        }
        struct Done {
            std::atomic<int>& b;
            ~Done() { b--; }
        } done{busy};
        // the same store objects, or copies of them
        std::vector<std::unique_ptr<Store>> copy;
        std::vector<Store*> s;
        for (int b = 0; b < nb; b++) {
            if (copies) copy.push_back(std::make_unique<Store>(*st[b]));
            s.push_back(copies ? copy[b].get() : st[b].get());
        }
        World& mw = *w[k];
        u64 clock = 2000;
        auto shared_op = [&](size_t o) {
            Op x;
            x.id = md::ev(++clock, 10 + k), x.ref = shared[o].root;
            if (shared[o].form == MX) x.vals = {Val::integer(rng.below(3)), Val::integer(rng.below(3)), Val::integer(rng.below(100))};
            else x.vals = {Val::uuid(name(str(1, "abc"[rng.below(3)]))), Val::integer(rng.below(100))};
            return x;
        };
        auto check_shared = [&](int b, size_t o) {
            Frame f;
            ron::Status ok = s[b]->Read(key(shared[o].k), f);
            VF_CHECK(mine, ok, "read fails", ok.str());
            Ops got = ops_of(mine, f, "shared value");
            std::map<Id, int> seen;
            Id last{};
            for (auto& x : got) {
                VF_CHECK(mine, ++seen[x.id] == 1, "an op is there twice", md::show(x) + "\n" + f.data());
                if (shared[o].k.form != LOG_F) VF_CHECK(mine, last < x.id, "ops out of order", f.data());
                last = x.id;
            }
            size_t at = 0;
            for (auto& ws : put[k][b][o])
                for (auto& x : ws) {
                    VF_CHECK(mine, seen.count(x.id), "a thread does not see its own write", md::show(x) + "\n" + f.data());
                    if (shared[o].k.form == LOG_F) {  // in the order of writing
                        while (at < got.size() && !(got[at].id == x.id)) at++;
                        VF_CHECK(mine, at < got.size(), "a thread's writes are out of order", f.data());
                    }
                }
            reads[k]++;
        };
        for (int i = 0; i < len; i++) {
            int b = (int)rng.below(nb);
            Store& at = *s[b];
            Model& m = own[k][b];
            switch (rng.below(8)) {
                case 0:
                case 1: {  // own object
                    Obj& o = mw.objs[rng.below(mw.objs.size())];
                    auto it = m.find(o.key);
                    Ops ops = mw.next(o, it == m.end() ? Writes{} : it->second);
                    Frame f = make(mine, ops);
                    ron::Status ok = at.Write(key(o.key), f);
                    VF_CHECK(mine, ok, "write fails", ok.str());
                    m[o.key].push_back(ops);
                    break;
                }
                case 2:
                case 3: {  // shared object
                    size_t o = rng.below(shared.size());
                    Ops ops;
                    for (int q = 1 + (int)rng.below(3); q > 0; q--) ops.push_back(shared_op(o));
                    Frame f = make(mine, ops);
                    ron::Status ok = at.Write(key(shared[o].k), f);
                    VF_CHECK(mine, ok, "write fails", ok.str());
                    put[k][b][o].push_back(ops);
                    if (rng.coin()) check_shared(b, o);
                    break;
                }
                case 4: {  // both at once
                    Store::Records rs;
                    std::vector<Ops> all;
                    for (size_t o = 0; o < shared.size(); o++) {
                        all.push_back({shared_op(o)});
                        rs.emplace_back(key(shared[o].k), make(mine, all.back()));
                    }
                    ron::Status ok = at.Write(rs);
                    VF_CHECK(mine, ok, "batch fails", ok.str());
                    for (size_t o = 0; o < shared.size(); o++) put[k][b][o].push_back(all[o]);
                    break;
                }
                case 5: {
                    Obj& o = mw.objs[rng.below(mw.objs.size())];
                    if (rng.coin()) check_read(mine, at, m, o.key, "a thread does not read its own writes");
                    check_shared(b, rng.below(shared.size()));
                    reads[k]++;
                    break;
                }
                case 6: {  // scan: everything of one's own is there
                    Store::Iterator it{at};
                    ron::Status ok = it.SeekTo(ron::Key::ZERO);
                    VF_CHECK(mine, ok, "seek fails", ok.str());
                    auto want = m.begin();
                    ron::Key last = ron::Key::ZERO;
                    bool first = true;
                    for (ron::Key q = it.key(); q != ron::Key::END; q = it.key()) {
                        VF_CHECK(mine, first || last < q, "keys out of order", q.str());
                        first = false, last = q;
                        if (want != m.end() && mkey(q) == want->first) {
                            Frame copy{it.value().data()};
                            same_value(mine, want->first, ops_of(mine, copy, "iterated value"), want->second, "wrong value iterated", copy.data());
                            ++want;
                        }
                        it.Next();
                    }
                    VF_CHECK(mine, want == m.end(), "a thread does not find its own writes", want == m.end() ? "" : show(want->first));
                    scans[k]++;
                    break;
                }
                default: lull(rng);
            }
            lull(rng);
            steps[k]++;
        }
        for (int b = 0; b < nb; b++)
            for (size_t o = 0; o < shared.size(); o++) check_shared(b, o);
    });
    for (int k = 0; k < n; k++) c.saw("concurrent steps", steps[k]), c.saw("own writes read back", reads[k]), c.saw("concurrent scans", scans[k]);
    // everything acknowledged is there once, before and after reopening
    for (int again = 0; again < 2; again++) {
        for (int b = 0; b < nb; b++) {
            Model m;
            m[MKey{}].push_back({[] { Op o; o.ref = name("zero"); return o; }()});
            for (int k = 0; k < n; k++) m.insert(own[k][b].begin(), own[k][b].end());
            for (size_t o = 0; o < shared.size(); o++) {
                Writes all;
                for (int k = 0; k < n; k++)
                    for (auto& x : put[k][b][o]) all.push_back(x);
                if (shared[o].k.form != LOG_F) {
                    if (!all.empty()) m[shared[o].k] = all;
                    continue;
                }
                Frame f;
                ok = st[b]->Read(key(shared[o].k), f);
                VF_CHECK(c, ok, "read fails", ok.str());
                Ops got = ops_of(c, f, "shared log"), want;
                for (auto& x : all) want.insert(want.end(), x.begin(), x.end());
                // by author the order is that of writing
                std::stable_sort(got.begin(), got.end(), [](const Op& x, const Op& y) { return x.id.o < y.id.o; });
                same_ops(c, got, want, false, "writes lost or repeated in a shared log", f.data());
                if (!all.empty()) m[shared[o].k] = {ops_of(c, f, "shared log")};
            }
            for (auto& x : m) check_read(c, *st[b], m, x.first, "writes lost or repeated");
            check_scan(c, *st[b], m);
            c.saw("final states checked");
        }
        if (again) break;
        for (auto& x : st) x->Close();
        Store::Branches all;
        ok = Store::OpenAll(all);
        VF_CHECK(c, ok, "OpenAll fails", ok.str());
        VF_CHECK(c, (int)all.size() == nb, "wrong branches on reopening", std::to_string(all.size()));
        for (int b = 0; b < nb; b++) st[b] = std::make_unique<Store>(all.find(b ? uuid(md::ev(md::M60, b)) : ron::Uuid::NIL)->second);
    }
    c.distinct(c.idx);
}
