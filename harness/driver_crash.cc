// driver_crash.cc - the persistent store under crashes: a child process runs a workload and
// dies at a chosen file system call (maybe in the middle of a write), at a random instant,
// or on a failing write; or its log file is torn afterwards. Then the database is
// reopened and what is there is compared with what was issued and acknowledged.
#include <rocksdb/db.h>
#include <fstream>
#include <memory>
#include <thread>
#include "crash_point.hpp"
#include "rocks_dir.hpp"
#include "store_model.hpp"

using namespace sm;
using Store = ron::RocksDBStore<Frame>;
using Records = Store::Records;

namespace {
struct Put {
    int obj;
    Ops ops;
    Frame f;
};
struct Step {
    enum { WRITE, BATCH, FLUSH } what;
    int branch;
    std::vector<Put> puts;
};
struct Plan {
    std::vector<Id> branches;
    std::vector<std::vector<Step>> threads;
    std::unique_ptr<World> w;
};
using State = std::vector<Model>;  // by branch

Plan plan(Case& c, bool threads, bool flush) {
    Rng& r = c.rng;
    Plan p;
    int T = threads ? 2 + (int)r.below(MAXT - 1) : 1;
    int nobj = T + (int)r.below(6);
    u32 big = r.chance(12) ? 25 : 0;  // batches of many kilobytes
    p.w = std::make_unique<World>(r, nobj);
    p.branches.push_back(Id{});
    for (int n = (int)r.below(3); n > 0; n--) p.branches.push_back(md::ev(md::M60, p.branches.size()));
    p.threads.resize(T);
    std::vector<Model> m(p.branches.size());
    for (int t = 0; t < T; t++) {
        std::vector<int> mine;  // every object is written by one thread
        for (int o = t; o < nobj; o += T) mine.push_back(o);
        for (int n = 1 + (int)r.below(r.chance(10) ? 60 : 20); n > 0; n--) {
            Step s;
            s.branch = (int)r.below(p.branches.size());
            int k = (int)r.below(100);
            s.what = k < 55 ? Step::WRITE : k < 92 || !flush ? Step::BATCH : Step::FLUSH;
            if (s.what != Step::FLUSH)
                for (int q = s.what == Step::WRITE ? 1 : r.chance(big) ? 40 + (int)r.below(160) : 1 + (int)r.below(5); q > 0; q--) {
                    Put u;
                    u.obj = r.pick(mine);
                    Obj& o = p.w->objs[u.obj];
                    Writes& have = m[s.branch][o.key];
                    u.ops = p.w->next(o, have);
                    have.push_back(u.ops);
                    u.f = make(c, u.ops);
                    s.puts.push_back(u);
                }
            p.threads[t].push_back(s);
        }
    }
    return p;
}
str show(const Plan& p) {
    str s;
    for (auto& t : p.threads) {
        s += "thread\n";
        int i = 0;
        for (auto& x : t) {
            s += " " + std::to_string(i++) + (x.what == Step::WRITE ? " write" : x.what == Step::BATCH ? " batch" : " flush") + " branch " + std::to_string(x.branch) + "\n";
            for (auto& u : x.puts) s += "    " + sm::show(p.w->objs[u.obj].key) + " " + u.f.data() + "\n";
        }
    }
    return s;
}
void apply(Model& m, const Plan& p, const Step& s) {
    for (auto& u : s.puts) m[p.w->objs[u.obj].key].push_back(u.ops);
}
bool flush_all(Store& s) {
    std::vector<std::string> files;
    uint64_t size;
    return static_cast<rocksdb::DB*>(s.db().get())->GetLiveFiles(files, &size, true).ok();
}
// the workload, in the child. Stops at the first error.
void run(const Plan& p, std::vector<Store>& stores, int t) {
    auto& steps = p.threads[t];
    for (size_t i = 0; i < steps.size(); i++) {
        auto& s = steps[i];
        board->issued[t] = (int)i + 1;
        bool ok = true;
        if (s.what == Step::FLUSH) ok = flush_all(stores[0]);
        else if (s.what == Step::WRITE) ok = stores[s.branch].Write(key(p.w->objs[s.puts[0].obj].key), s.puts[0].f);
        else {
            Records rs;
            for (auto& u : s.puts) rs.emplace_back(key(p.w->objs[u.obj].key), u.f);
            ok = stores[s.branch].Write(rs);
        }
        if (!ok) return;
        board->acked[t] = (int)i + 1;
    }
}
// what the reopened database holds, per branch and object; ops by key
using Found = std::vector<std::map<MKey, Ops>>;
std::vector<Store> open_all(Case& c, const Plan& p, bool failed = false) {
    Store::Branches b;
    ron::Status ok = Store::OpenAll(b);
    if (!ok) may_refuse(failed, ok.str());
    VF_CHECK(c, ok, "reopening fails", ok.str());
    std::vector<Store> out;
    for (auto& i : p.branches) {
        auto it = b.find(uuid(i));
        VF_CHECK(c, it != b.end(), "a branch is lost", md::text(i));
        out.push_back(it->second);
    }
    VF_CHECK(c, b.size() == p.branches.size(), "branches appear", std::to_string(b.size()));
    return out;
}
Found read_all(Case& c, std::vector<Store>& stores, const Plan& p) {
    Found f;
    for (auto& s : stores) {
        f.emplace_back();
        Store::Iterator i{s};
        ron::Status ok = i.SeekTo(ron::Key::ZERO);
        VF_CHECK(c, ok, "seek fails", ok.str());
        while (i.key() != ron::Key::END) {
            auto v = i.value();
            f.back()[mkey(i.key())] = ops_of(c, Frame{v.data()}, "value");
            Frame r;
            ok = s.Read(i.key(), r);
            VF_CHECK(c, ok, "read fails", ok.str());
            ok = i.Next();
            VF_CHECK(c, ok || ok == ron::Status::ENDOFINPUT, "iteration fails", ok.str());
        }
        VF_CHECK(c, f.back().count(MKey{}), "the creation record is lost", "");
    }
    return f;
}
bool same(const Found& f, const State& st, int thread, int nthreads, const Plan& p, str& why) {
    for (size_t b = 0; b < f.size(); b++) {
        for (size_t o = 0; o < p.w->objs.size(); o++) {
            if ((int)(o % nthreads) != thread) continue;
            const MKey& k = p.w->objs[o].key;
            auto got = f[b].find(k);
            auto want = st[b].find(k);
            bool g = got != f[b].end(), w = want != st[b].end();
            str at = "branch " + std::to_string(b) + " " + sm::show(k);
            if (g != w) {
                why = at + (g ? ": a value that was never written" : ": nothing, expected\n" + md::show(expected(k.form, want->second)));
                return false;
            }
            if (!g) continue;
            Ops e = expected(k.form, want->second), x = got->second;
            if (k.form == MAX_F && e.size() == x.size() && !e.empty() && e.back().vals == x.back().vals) e.back() = x.back();
            bool eq = e.size() == x.size();
            for (size_t i = 0; eq && i < e.size(); i++) eq = e[i].same(x[i]);
            if (!eq) {
                why = at + ": got\n" + md::show(x) + "expected\n" + md::show(e);
                return false;
            }
        }
    }
    return true;
}
// the surviving writes of a thread are a prefix lo..hi of what it issued
void judge(Case& c, const Plan& p, const Found& f, int t, int lo, int hi, State* survived = nullptr) {
    State st(p.branches.size());
    str why, first;
    auto& steps = p.threads[t];
    int n = 0;
    for (; n < lo; n++) apply(st[steps[n].branch], p, steps[n]);
    for (;; n++) {
        if (same(f, st, t, (int)p.threads.size(), p, why)) {
            if (n > lo) c.saw("unacknowledged writes that survived");
            if (survived)
                for (size_t b = 0; b < st.size(); b++)
                    for (auto& x : st[b]) (*survived)[b][x.first] = x.second;
            return;
        }
        if (first.empty()) first = why;
        if (n == hi) break;
        apply(st[steps[n].branch], p, steps[n]);
    }
    c.fail("not a prefix of the issued writes", "thread " + std::to_string(t) + " acknowledged " + std::to_string(board->acked[t]) + ", issued " + std::to_string(board->issued[t]) +
                                                     " steps; no prefix of " + std::to_string(lo) + ".." + std::to_string(hi) + " is what the database holds:\n" + first);
}
str last_log(const str& db) {
    str best;
    for (auto& e : std::filesystem::directory_iterator(db)) {
        str n = e.path().filename().string();
        if (n.size() > 4 && n.substr(n.size() - 4) == ".log" && (best.size() < n.size() || best < n)) best = n;
    }
    return best.empty() ? best : db + "/" + best;
}
std::vector<Store> create_all(Case& c, const Plan& p) {
    std::vector<Store> stores;
    for (auto& i : p.branches) {
        Store s;
        if (!stores.empty()) s = stores[0];
        ron::Status ok = s.Create(uuid(i));
        VF_CHECK(c, ok, "create fails", ok.str());
        stores.push_back(s);
    }
    return stores;
}
void work(Case& c, const Plan& p, std::vector<Store>& stores) {
    (void)c;
    std::vector<std::thread> th;
    if (p.threads.size() == 1) run(p, stores, 0);
    else {
        for (size_t t = 0; t < p.threads.size(); t++) th.emplace_back([&, t] { run(p, stores, (int)t); });
        for (auto& t : th) t.join();
    }
}
// reopen (maybe crashing on the way), judge, go on writing, reopen again, judge
// (not after a call that failed: RocksDB stands one fault at a time)
void after(Case& c, const Plan& p, std::vector<std::pair<int, int>> range, bool failed = false) {
    Rng& r = c.rng;
    for (int n = failed ? 0 : (int)r.below(3); n > 0; n--) {
        if (!r.chance(50)) continue;
        arm(r, 1, 12);
        in_child(c, [&] { auto s = open_all(c, p); s.clear(); }, true);
        c.saw(board->died_in_call ? "crashes while recovering" : "recoveries before the crash came");
        board->died_in_call = 0;
    }
    Rng rr = r;
    in_child(c, [&] {
        State st(p.branches.size());
        {
            auto s = open_all(c, p, failed);
            Found f = read_all(c, s, p);
            for (size_t t = 0; t < p.threads.size(); t++) judge(c, p, f, (int)t, range[t].first, range[t].second, &st);
            for (size_t b = 0; b < f.size(); b++)
                for (auto& x : f[b])
                    if (!(x.first == MKey{}) && !st[b].count(x.first)) c.fail("a key that was never written", sm::show(x.first));
            c.saw("databases recovered");
            // life goes on
            for (int n = (int)rr.below(6); n > 0; n--) {
                int b = (int)rr.below(s.size());
                Obj& o = rr.pick(p.w->objs);
                Ops ops = p.w->next(o, st[b][o.key]);
                ron::Status ok = s[b].Write(key(o.key), make(c, ops));
                VF_CHECK(c, ok, "a write after the recovery fails", ok.str());
                st[b][o.key].push_back(ops);
                c.saw("writes after recovery");
            }
            for (auto& m : st)  // (drop the entries made by looking)
                for (auto i = m.begin(); i != m.end();) i = i->second.empty() ? m.erase(i) : std::next(i);
        }
        auto s = open_all(c, p);
        Found f = read_all(c, s, p);
        str why;
        for (size_t t = 0; t < p.threads.size(); t++)
            if (!same(f, st, (int)t, (int)p.threads.size(), p, why)) c.fail("wrong state after the recovery", why);
    }, false);
}
}  // namespace

// dies in the middle of a file system call
VF_SUITE(crash_at_call, 120000) {
    Rng& r = c.rng;
    Dir dir;
    reset();
    Plan p = plan(c, r.chance(30), true);
    c.input(show(p));
    size_t steps = 0;
    for (auto& t : p.threads) steps += t.size();
    int how = r.chance(20) ? 2 : 1;
    u64 seed = r.next();
    int st = in_child(c, [&] {
        auto s = create_all(c, p);
        Rng q{seed};
        arm(q, how, (i64)(steps * 3 / 2 + 4));
        work(c, p, s);
        if (q.chance(30)) s.clear();  // (the crash may come on closing)
        if (q.chance(80)) kill(getpid(), SIGKILL);
        s.clear();
    }, true, 0, how == 2);
    (void)st;
    c.more("crash after " + std::to_string(board->calls) + " calls\n");
    c.saw("file system calls watched", board->calls);
    c.saw(board->died_in_call ? "crashes in a call" : how == 2 ? "failing calls" : "kills after the work");
    std::vector<std::pair<int, int>> range;
    for (size_t t = 0; t < p.threads.size(); t++) {
        range.emplace_back(board->acked[t], board->issued[t]);
        c.saw("writes acknowledged", board->acked[t]);
        c.more("thread " + std::to_string(t) + " acknowledged " + std::to_string(board->acked[t]) + " of " + std::to_string(board->issued[t]) + "\n");
    }
    c.distinct(show(p) + std::to_string(board->calls));
    after(c, p, range, how == 2);
}
// dies at a random instant
VF_SUITE(crash_any_time, 120000) {
    Rng& r = c.rng;
    Dir dir;
    reset();
    Plan p = plan(c, r.chance(50), true);
    c.input(show(p));
    in_child(c, [&] { auto s = create_all(c, p); }, false);
    in_child(c, [&] {
        auto s = open_all(c, p);
        work(c, p, s);
        for (;;) pause();
    }, true, 1 + r.below(r.coin() ? 300 : 3000));
    std::vector<std::pair<int, int>> range;
    bool mid = false;
    for (size_t t = 0; t < p.threads.size(); t++) {
        range.emplace_back(board->acked[t], board->issued[t]);
        mid = mid || (board->issued[t] && board->acked[t] < (int)p.threads[t].size());
        c.saw("writes acknowledged", board->acked[t]);
    }
    c.saw(mid ? "kills in mid-work" : "kills before or after the work");
    c.distinct(show(p) + std::to_string(board->acked[0]));
    after(c, p, range);
}
// the log is torn
VF_SUITE(torn_log, 120000) {
    Rng& r = c.rng;
    Dir dir;
    reset();
    Plan p = plan(c, false, r.coin());
    c.input(show(p));
    in_child(c, [&] { auto s = create_all(c, p); }, false);
    in_child(c, [&] {
        auto s = open_all(c, p);
        work(c, p, s);
        kill(getpid(), SIGKILL);
    }, true);
    VF_CHECK(c, board->acked[0] == (int)p.threads[0].size(), "write fails", "");
    str log = last_log(ron::ROCKSDB_STORE_DIR);
    VF_CHECK(c, !log.empty(), "no log file", "");
    u64 size = std::filesystem::file_size(log), to = size - std::min<u64>(size, r.chance(30) ? r.below(40) : r.below(size + 1));
    std::filesystem::resize_file(log, to);
    c.more("torn " + log.substr(log.rfind('/')) + " at " + std::to_string(to) + " of " + std::to_string(size) + "\n");
    int flushed = 0;
    for (size_t i = 0; i < p.threads[0].size(); i++)
        if (p.threads[0][i].what == Step::FLUSH) flushed = (int)i + 1;
    c.saw("bytes torn off", size - to);
    c.saw("logs torn");
    c.distinct(show(p) + std::to_string(to));
    after(c, p, {{to == size ? board->acked[0].load() : flushed, board->issued[0]}});
}
// dies while creating or dropping branches
VF_SUITE(crash_branches, 120000) {
    Rng& r = c.rng;
    Dir dir;
    reset();
    struct Act { bool create; int branch; };
    std::vector<Act> acts;
    std::set<int> now;
    for (int n = 2 + (int)r.below(8); n > 0; n--) {
        int b = 1 + (int)r.below(4);
        bool create = !now.count(b);
        if (create) now.insert(b); else now.erase(b);
        acts.push_back({create, b});
    }
    str text;
    for (auto& a : acts) text += str(a.create ? "create " : "drop ") + std::to_string(a.branch) + "\n";
    c.input(text);
    auto mark = [](size_t i) { return str(1, char('B' + i)) + "+A"; };
    auto bid = [](int b) { return md::ev(md::M60, b); };
    ron::Key k{ron::Uuid{"1+A"}, ron::LWW_RDT_FORM};
    u64 seed = r.next();
    in_child(c, [&] {
        Store zero;
        ron::Status ok = zero.Create(ron::Uuid::NIL);
        VF_CHECK(c, ok, "create fails", ok.str());
        Rng q{seed};
        arm(q, 1, (i64)acts.size() * 6 + 3);
        std::map<int, Store> open;
        for (size_t i = 0; i < acts.size(); i++) {
            board->issued[0] = (int)i + 1;
            int b = acts[i].branch;
            if (acts[i].create) {
                Store s = zero;
                ok = s.Create(uuid(bid(b)));
                VF_CHECK(c, ok, "create fails", ok.str());
                open.emplace(b, s);
                ok = open[b].Write(k, Frame{"@1+A :lww; @" + mark(i) + " 'mark';"});
            } else {
                ok = open[b].Drop();
                VF_CHECK(c, ok, "drop fails", ok.str());
                open.erase(b);
            }
            board->acked[0] = (int)i + 1;
        }
        kill(getpid(), SIGKILL);
    }, true);
    int lo = board->acked[0], hi = board->issued[0];
    c.saw(board->died_in_call ? "crashes in a call" : "kills after the work");
    c.distinct(text + std::to_string(board->calls));
    in_child(c, [&] {
        Store::Branches b;
        ron::Status ok = Store::OpenAll(b);
        VF_CHECK(c, ok, "reopening fails", ok.str());
        std::map<int, size_t> have;  // branch -> the step that made it
        for (int i = 0; i < lo; i++)
            if (acts[i].create) have[acts[i].branch] = i; else have.erase(acts[i].branch);
        int doubt = hi > lo ? acts[lo].branch : 0;
        for (int n = 1; n <= 4; n++) {
            auto it = b.find(uuid(bid(n)));
            bool is = it != b.end();
            if (n == doubt) {
                c.saw(is ? "the last branch is there" : "the last branch is not there");
            } else
                VF_CHECK(c, is == (have.count(n) > 0), is ? "a dropped branch is back" : "a branch is lost", std::to_string(n));
            if (!is) continue;
            Frame f;
            ok = it->second.Read(k, f);
            VF_CHECK(c, ok, "read fails", ok.str());
            if (have.count(n)) {
                Ops ops = ops_of(c, f, "value");
                VF_CHECK(c, ops.size() == 2 && ops[1].id == id(ron::Uuid{mark(have[n])}), "wrong data in a branch", f.data());
            } else if (!f.empty()) {
                Ops ops = ops_of(c, f, "value");
                VF_CHECK(c, ops.size() == 2 && ops[1].id == id(ron::Uuid{mark(lo)}), "old data in a new branch", f.data());
            }
        }
        VF_CHECK(c, b.count(ron::Uuid::NIL), "the default branch is lost", "");
        c.saw("databases recovered");
    }, false);
}
