// driver_replica_crash.cc - a replica in a process that dies: what it has answered for is there
// afterwards, what was under way is there entirely or not at all, and it opens and goes on.
#include "crash_point.hpp"
#include "replica_model.hpp"

namespace {
struct Step {
    enum { FRAME, CREATE, FORK, HOP, NAME } what;
    u64 branch = 0, from = 0;
    Frame f;
    bool good = true;
    Id tag, to;
};
struct State {
    std::map<u64, Branch> b;
    Id active;
    std::map<Id, Id> names;
};
struct Plan {
    std::vector<Step> steps;
    std::vector<State> states;                 // after so many steps
    std::map<u64, std::set<u64>> began;        // branch -> the forks whose first events it holds
};

Plan plan(World2& w) {
    Rng& r = w.r;
    Plan p;
    auto state = [&] { p.states.push_back(State{w.b, w.active, w.meta_names}); };
    state();
    str text;
    for (int n = 3 + (int)r.below(r.chance(15) ? 50 : 18); n > 0; n--) {
        Step s;
        int k = (int)r.below(100);
        if (w.b.empty() || k < 12) {
            s.what = Step::CREATE;
            s.branch = 1 + md::gen_word(r) % (md::M60 - 1);
            if (w.b.count(s.branch)) continue;
            Branch& x = w.b[s.branch];
            x.yarn = s.branch;
            Op o;
            o.id = md::ev(0, s.branch), o.ref = YARN_ID;
            str why;
            if (!take(x, o, why)) w.c.fail("harness", why);
            text += "create " + md::word(s.branch) + "\n";
        } else if (k < 22) {
            s.what = Step::FORK;
            s.from = w.any().yarn;
            do s.branch = 1 + md::gen_word(r) % (md::M60 - 1);
            while (w.b.count(s.branch) || w.b[s.from].tips.count(md::ev(0, s.branch).o) || std::count(w.authors.begin(), w.authors.end(), s.branch));
            Branch x = w.b[s.from];
            x.yarn = s.branch;
            x.fork = true;
            x.tip = Id{};
            w.b[s.branch] = x;
            p.began[s.branch] = p.began[s.from];
            p.began[s.branch].insert(s.branch);
            text += "fork " + md::word(s.from) + " as " + md::word(s.branch) + "\n";
        } else if (k < 30) {
            s.what = Step::HOP;
            s.to = w.active = md::ev(NEVER, w.any().yarn);
            text += "hop on " + md::text(s.to) + "\n";
        } else if (k < 38) {
            s.what = Step::NAME;
            s.tag = name(str(1, "abc"[r.below(3)]) + "Y"), s.to = md::ev(NEVER, w.any().yarn);
            w.meta_names[s.tag] = s.to;
            text += "name " + md::text(s.to) + " " + md::text(s.tag) + "\n";
        } else {
            s.what = Step::FRAME;
            Branch& x = w.any();
            s.branch = x.yarn;
            Ops f = w.good(x);
            // (an author with no event there begins a yarn, so the fork's own author stays out)
            if (r.chance(15)) w.spoil(x, f);
            if (f.empty()) continue;
            bool own = false;
            for (auto& o : f) own = own || (x.fork && (o.id.version() == md::NAME ? !(o.id == COMMENT) : (o.id.o & md::M60) == x.yarn));
            if (own) continue;
            Branch then = x;
            str why;
            for (auto& o : f) s.good = s.good && take(then, o, why);
            s.f = make(w.c, f);
            if (s.good) x = then;
            text += (s.good ? "receive " : "receive (bad: " + why + ") ") + md::word(s.branch) + " " + s.f.data() + "\n";
        }
        p.steps.push_back(s);
        state();
    }
    w.note(text);
    return p;
}
// Stops at the first step that fails and should not
void run(Case& c, Replica& re, const Plan& p, bool calls_fail) {
    for (size_t i = 0; i < p.steps.size(); i++) {
        auto& s = p.steps[i];
        board->issued[0] = (int)i + 1;
        ron::Status ok;
        switch (s.what) {
            case Step::FRAME: {
                Builder resp;
                ok = re.ReceiveFrame(resp, s.f, ron::Word{s.branch});
                break;
            }
            case Step::CREATE: ok = re.CreateBranch(ron::Word{s.branch}, true); break;
            case Step::FORK: ok = re.ForkBranch(ron::Word{s.branch}, ron::Word{s.from}); break;
            case Step::HOP: ok = re.SetActiveStore(uuid(s.to)); break;
            case Step::NAME: {
                Commit meta{re, ron::Uuid::NIL};
                ok = meta.WriteName(uuid(s.tag), uuid(s.to));
                if (ok) ok = meta.Save();
            }
        }
        if (calls_fail && !ok && s.good) return;
        VF_CHECK(c, (bool)ok == s.good, s.good ? "a step fails" : "a bad frame is accepted", "step " + std::to_string(i) + ": " + ok.str());
        board->acked[0] = (int)i + 1;
    }
}
// puts the first events of forks, which are stamped by the replica, where they belong
void settle(Case& c, Replica& re, const Plan& p, State& st) {
    for (auto& f : p.began) {
        if (!f.second.count(f.first) || !st.b.count(f.first)) continue;
        if (!re.HasBranch(ron::Word{f.first})) c.fail("no branch", md::word(f.first));
        Commit co{re, re.yarn2branch(ron::Word{f.first})};
        Op o;
        o.id = id(co.tip()), o.ref = YARN_ID;
        for (auto& x : st.b) {
            auto i = p.began.find(x.first);
            if (i == p.began.end() || !i->second.count(f.first)) continue;
            str why;
            if (!take(x.second, o, why)) c.fail("a fork begins with a bad event", why + " " + md::text(o.id));
        }
    }
}
int judge(World2& w, const Plan& p, int lo, int hi) {
    str first;
    for (int n = lo; n <= hi; n++) {
        State st = p.states[n];
        try {
            settle(w.c, *w.re, p, st);
            w.b = st.b, w.active = st.active, w.meta_names = st.names;
            w.check_all();
            if (n > lo) w.c.saw("unacknowledged steps that survived");
            return n;
        } catch (Fail& e) {
            if (first.empty()) first = e.key + ": " + e.msg;
        }
    }
    w.c.fail("not a state between what was acknowledged and what was issued", "acknowledged " + std::to_string(lo) + ", issued " + std::to_string(hi) + " steps\n" + first);
}
}  // namespace

VF_SUITE(replica_crash, 120000) {
    Rng& r = c.rng;
    Dir dir;
    reset();
    World2 w{c};
    c.input("");
    Plan p = plan(w);
    int how = (int)r.below(10);  // 0..2: at any time, 3: a call fails, else in a call
    bool fails = how == 3;
    u64 seed = r.next();
    in_child(c, [&] {
        {
            ron::Status ok = Replica::CreateReplica();
            VF_CHECK(c, ok, "no replica is created", ok.str());
        }
        Replica re;
        ron::Status ok = re.Open();
        VF_CHECK(c, ok, "open fails", ok.str());
        Rng q{seed};
        if (how >= 3) arm(q, fails ? 2 : 1, (i64)p.steps.size() * 4 + 6);
        run(c, re, p, fails);
        if (how < 3) for (;;) pause();
        if (q.chance(30)) re.Close();
        kill(getpid(), SIGKILL);
    }, true, how < 3 ? 1 + r.below(r.coin() ? 1000 : 10000) : 0, fails);
    int lo = board->acked[0], hi = board->issued[0];
    c.saw(how < 3 ? (hi > lo ? "kills in mid-step" : "kills between steps") : fails ? "failing calls" : board->died_in_call ? "crashes in a call" : "kills after the work");
    c.saw("steps acknowledged", lo);
    if (hi > lo) {
        static const char* const W[] = {"a frame", "a creation", "a fork", "a hop", "a naming"};
        c.saw(str("died in ") + W[p.steps[lo].what]);
    }
    c.more("acknowledged " + std::to_string(lo) + ", issued " + std::to_string(hi) + " of " + std::to_string(p.steps.size()) + " steps\n");
    c.distinct(w.log + std::to_string(board->calls) + " " + std::to_string(lo));
    // the recovery is interrupted too (but after a call that failed: RocksDB stands one fault at a time)
    for (int n = fails ? 0 : (int)r.below(3); n > 0; n--) {
        arm(r, 1, 14);
        in_child(c, [&] {
            Replica re;
            ron::Status ok = re.Open();
            VF_CHECK(c, ok, "open fails", ok.str());
        }, true);
        c.saw(board->died_in_call ? "crashes while recovering" : "recoveries before the crash came");
        board->died_in_call = 0;
    }
    in_child(c, [&] {
        w.re = std::make_unique<Replica>();
        ron::Status ok = w.re->Open();
        if (!ok) may_refuse(fails, ok.str());
        VF_CHECK(c, ok, "open fails", ok.str());
        judge(w, p, lo, hi);
        c.saw("replicas recovered");
        // life goes on
        for (auto& x : w.b) x.second.fork = false;
        if (w.b.empty()) w.create();
        for (int n = 1 + (int)r.below(4); n > 0; n--) w.receive(w.any());
        w.check_all();
        w.reopen();
        w.re->Close();
    }, false);
}
