// replica_model.hpp - a replica's branches, what they must accept and hold, and histories of
// frames for them: good ones, spoiled ones, and all the other things one does to a replica.
#pragma once
#include <rocksdb/db.h>
#include <memory>
#include "db/replica.hpp"
#include "hash_model.hpp"
#include "rocks_dir.hpp"
#include "store_model.hpp"
#include "visibility.hpp"

using namespace sm;
using Store = ron::RocksDBStore<Frame>;
using Replica = ron::Replica<Store>;
using Commit = Replica::Commit;

namespace {
const Id YARN_ID = name("yarn"), COMMENT = md::id(63ull << 54, md::NAME, 0);
const u64 NEVER = 63ull << 54;  // no event is as late as that
struct Event {
    Op op;
    Id obj;
    str hash;
};
struct Object {
    int form;
    bool odd = false;  // has operations its type gives no meaning to
    Writes chains;
    Writes all() const {
        Ops a;
        for (auto& x : chains) a.insert(a.end(), x.begin(), x.end());
        return Writes{a};
    }
};
// what one branch holds
struct Branch {
    u64 yarn = 0;
    bool fork = false;  // its own author's events are not known beforehand
    Id tip;
    std::map<Id, Event> ev;
    std::map<u64, Id> tips;  // by author (origin bits)
    std::map<Id, Object> objs;
    std::map<Id, Id> names;
    Id greatest() const {
        Id g;
        for (auto& t : tips) if (g.v < t.second.v) g = t.second;
        return g;
    }
};
int form_of(const Id& ref) {
    static const std::map<Id, int> F{{LWW, LWW_F}, {RGA, RGA_F}, {MX, MX_F}, {MAX, MAX_F}, {YARN_ID, YARN_F}};
    auto i = F.find(ref);
    return i == F.end() ? -1 : i->second;
}
// May this op go on top of that? If so, it does. The rules, from the documentation of the
// replica: an event is newer than what its author has made, and refers to a known older
// event or to the type of the object it creates; the first event of an author is its yarn.
bool take(Branch& b, const Op& o, str& why) {
    if (o.id == COMMENT) return true;
    if (o.id == name("name")) {
        if (o.vals.empty() || o.vals[0].t != md::U || o.vals[0].u.version() != md::NAME) return why = "bad name", false;
        b.names[o.vals[0].u] = b.tip;
        return true;
    }
    if (o.id.version() != md::TIME) return why = "not an event", false;
    if (o.id.v >= NEVER) return why = "never", false;
    auto tip = b.tips.find(o.id.o);
    Id obj = o.id;
    if (o.ref.version() == md::TIME) {
        if (!(o.ref < o.id)) return why = "refers to the future", false;
        auto r = b.ev.find(o.ref);
        if (r == b.ev.end()) return why = "refers to an unknown event", false;
        obj = r->second.obj;
    } else if (o.ref.version() == md::NAME) {
        if (form_of(o.ref) < 0) return why = "unknown type", false;
    } else return why = "bad reference", false;
    if (o.ref == YARN_ID) {
        if (tip != b.tips.end()) return why = "second beginning of a yarn", false;
    } else {
        if (tip == b.tips.end()) return why = "unknown author", false;
        if (!(tip->second < o.id)) return why = "not newer than its author's last", false;
    }
    // the hash covers the event, its author's previous one and the one referred to, or the type
    str prev = tip == b.tips.end() ? str(32, 0) : b.ev.at(tip->second).hash;
    str ref = o.ref.version() == md::TIME ? b.ev.at(o.ref).hash : sha(be8(o.ref.v) + be8(o.ref.o));
    b.tips[o.id.o] = o.id;
    if ((o.id.o & md::M60) == b.yarn) b.tip = o.id;
    b.ev[o.id] = Event{o, obj, model_hash(o, prev, ref)};
    auto& x = b.objs[obj];
    if (obj == o.id) x.form = form_of(o.ref);
    if (x.form == MAX_F && obj != o.id && o.vals.empty()) x.odd = true;
    x.chains.push_back({o});
    return true;
}

struct World2 {
    Case& c;
    Rng& r;
    std::map<u64, Branch> b;  // by yarn
    std::unique_ptr<Replica> re;
    std::vector<u64> authors;
    std::vector<std::pair<u64, Ops>> sent;
    Id active;
    u64 seen = 0;    // the clock must be past this
    std::map<Id, Id> meta_names;
    bool hashes = false;  // check the recorded hashes
    bool wide = false;    // long values, too
    bool arrays = false;  // mostly arrays, and all that can be done to their elements
    str log;
    void note(const str& s) {
        c.more(s);
        if (log.size() < 20000) log += s;
    }

    explicit World2(Case& c_) : c{c_}, r{c_.rng} {
        for (int n = 2 + (int)r.below(3); n > 0; n--) authors.push_back(1 + md::gen_word(r) % (md::M60 - 1));
    }
    Branch& any() {
        auto i = b.begin();
        std::advance(i, r.below(b.size()));
        return i->second;
    }
    void see(u64 v) { seen = std::max(seen, v & md::M60); }
    Val small() {
        if (wide && r.chance(25)) {
            std::u32string t(500 + r.below(2500), 'a');
            for (auto& x : t) x = 'a' + r.below(26);
            return Val::string(t);
        }
        return r.chance(60) ? Val::string(std::u32string(1, 'a' + r.below(26))) : gen_small_val(r);
    }

    // ---- frames ----
    // an event on top of the branch as it would be
    bool event(Branch& x, Ops& out, u64 author, const Id* to = nullptr) {
        Op o;
        u64 origin = md::ev(0, author).o;
        auto t = x.tips.find(origin);
        if (t == x.tips.end()) {
            o.id = md::ev(r.coin() ? 1 + r.below(1000) : (x.greatest().v & md::M60) + r.below(50) + 1, author);
            o.ref = YARN_ID;
            if (r.chance(30)) o.vals = {small()};
        } else {
            if (to) o.ref = *to;
            else {
                int k = (int)r.below(100);
                if (k < (arrays ? 5 : 25)) o.ref = r.pick(arrays ? std::vector<Id>{RGA, RGA, RGA, LWW} : std::vector<Id>{LWW, LWW, RGA, RGA, MX, MAX});
                else if (k < 55) o.ref = t->second;  // go on with the chain
                else {
                    auto e = x.ev.begin();
                    std::advance(e, r.below(x.ev.size()));
                    o.ref = e->first;
                }
            }
            u64 least = t->second.v & md::M60;
            if (o.ref.version() == md::TIME) {
                auto& e = x.ev.at(o.ref);
                least = std::max(least, o.ref.v & md::M60);
                int f = x.objs.at(e.obj).form;
                switch (f) {
                    case LWW_F: o.vals = {gen_key(r), small()}; break;
                    case RGA_F:
                        if (arrays && r.chance(70)) {
                            const Op& p = x.ev.at(o.ref).op;
                            int k = (int)r.below(100);
                            if (p.ref == RGA && k < 90) o.vals = {Val::string(std::u32string(1, md::gen_cp(r)))};
                            else if (is_name(p, RM)) o.vals = {Val::uuid(k < 55 ? RM : UN)};
                            else if (is_name(p, UN)) o.vals = {Val::uuid(k < 5 ? RM : UN)};
                            else if (k < 35) o.vals = {Val::uuid(RM)};
                            else if (k < 80) o.vals = {Val::string(std::u32string(1, md::gen_cp(r)))};
                            else if (k < 90) o.vals = {Val::string(md::gen_str(r))};
                            else if (k < 95) o.vals = {md::gen_val(r), md::gen_val(r)};
                            else o.vals = {Val::string(std::u32string())};
                        } else
                            o.vals = {r.chance(80) ? Val::string(std::u32string(1, 'a' + r.below(26))) : r.coin() ? Val::uuid(r.chance(80) ? RM : UN) : small()};
                        break;
                    case MX_F: o.vals = {Val::integer(r.below(3)), Val::integer(r.below(3)), small()}; break;
                    case MAX_F:
                        o.ref = e.obj;
                        o.vals = {Val::integer(r.range(-50, 50))};
                        break;
                    default: if (r.coin()) o.vals = {small()};
                }
            }
            u64 v = least + 1 + (r.chance(70) ? 0 : r.below(r.coin() ? 5 : 100000));
            if (v >= NEVER - 1000000) return false;
            o.id = md::ev(v, author);
            if (r.chance(5) && r.coin()) o.vals.clear();
            if (o.ref.version() == md::TIME && x.objs.at(x.ev.at(o.ref).obj).form == MAX_F && o.vals.empty()) o.vals = {Val::integer(7)};
        }
        str why;
        if (!take(x, o, why)) c.fail("harness", "made a bad event: " + why + " " + md::show(o));
        out.push_back(o);
        return true;
    }
    Ops good(Branch x) {
        Ops out;
        for (int n = 1 + (int)r.below(4); n > 0; n--) {
            int k = (int)r.below(100);
            if (k < 8) {
                Op o;
                o.id = COMMENT;
                o.vals = {Val::string(U"hello")};
                out.push_back(o);
            } else if (k < 14 && !x.fork) {
                Op o;
                o.id = name("name");
                o.vals = {Val::uuid(name(str(1, "abc"[r.below(3)]) + "x"))};
                str why;
                take(x, o, why);
                out.push_back(o);
            } else {
                u64 a = !x.fork && r.chance(50) ? x.yarn : r.pick(authors);
                event(x, out, a);
                for (int q = (int)r.below(r.chance(20) ? 12 : 4); q > 0; q--) {
                    Id to = out.back().id;
                    bool chain = r.chance(80) && to.version() == md::TIME && (to.o & md::M60) == a;
                    event(x, out, a, chain ? &to : nullptr);
                }
            }
        }
        return out;
    }
    void spoil(const Branch& x, Ops& f) {
        if (f.empty()) return;
        size_t i = r.below(f.size());
        Op& o = f[i];
        auto some = [&]() -> Id {
            auto e = x.ev.begin();
            std::advance(e, r.below(x.ev.size()));
            return e->first;
        };
        switch (r.below(13)) {
            case 0: o.id.v = (o.id.v & ~md::M60) | r.below((o.id.v & md::M60) + 1); break;
            case 1: f.insert(f.begin() + r.below(f.size() + 1), f[i]); break;
            case 2: o.ref = md::ev((some().v & md::M60) + r.below(3), o.id.o & md::M60); break;
            case 3: o.ref = md::ev(1 + r.below(o.id.v & md::M60 ? o.id.v & md::M60 : 1), r.pick(authors)); break;
            case 4: o.ref = r.coin() ? o.id : md::ev((o.id.v & md::M60) + 1, r.pick(authors)); break;
            case 5: std::swap(f[i], f[r.below(f.size())]); break;
            case 6: f.erase(f.begin() + i); break;
            case 7: o.ref = md::id(o.ref.v & md::M60, r.coin() ? md::HASH : md::DERIVED, o.ref.o & md::M60); break;
            case 8: { static const char* const N[] = {"zero", "notatype", "log", "meta", "chain", "tail", "obj", "txt", "json", "sha3"}; o.ref = name(N[r.below(10)]); break; }
            case 9: o.ref = YARN_ID; break;
            case 10: o.id.o = md::ev(0, 1 + md::gen_word(r) % (md::M60 - 1)).o; break;
            case 11: o.id = md::ev(NEVER, o.id.o & md::M60); break;
            case 12: {
                auto e = x.ev.begin();
                std::advance(e, r.below(x.ev.size()));
                f.insert(f.begin() + i, e->second.op);
            }
        }
    }
    // ---- what is stored ----
    str raw(u64 yarn) {
        str s;
        Store::Iterator i{yarn ? re->GetBranch(ron::Word{yarn}) : re->GetStore(ron::Uuid::NIL)};  // (0 stands for the metadata)
        ron::Status ok = i.SeekTo(ron::Key::ZERO);
        VF_CHECK(c, ok, "seek fails", ok.str());
        while (i.key() != ron::Key::END) {
            s += show(mkey(i.key())) + " " + i.value().data().str() + "\n";
            if (!i.Next()) break;
        }
        return s;
    }
    void same_object(const Id& id, const Object& o, const Frame& state, const char* what) {
        if (o.odd) return;
        same_value(c, MKey{o.form, id.o & md::M60, id.v & md::M60}, ops_of(c, state, what), o.chains, what, state.data());
    }
    void check_object(Commit& co, const Id& id, const Object& o) {
        Frame f;
        ron::Status ok = co.GetFrame(f, uuid(id), ron::form2uuid(ron::FORM(o.form)));
        VF_CHECK(c, ok, "an object is not read", ok.str());
        same_object(id, o, f, "object state");
        Frame log;
        ok = co.GetObjectLog(log, uuid(id));
        VF_CHECK(c, ok, "a log is not read", ok.str());
        same_value(c, MKey{LOG_F, id.o & md::M60, id.v & md::M60}, ops_of(c, log, "object log"), o.chains, "object log", log.data());
        c.saw("objects checked");
    }
    // an object as it was when this event came
    void check_version(Branch& x) {
        if (x.objs.empty()) return;
        auto i = x.objs.begin();
        std::advance(i, r.below(x.objs.size()));
        Object o = i->second;
        o.chains.resize(1 + r.below(o.chains.size()));
        Id at = o.chains.back().back().id;
        Commit co{*re, re->yarn2branch(ron::Word{x.yarn})};
        Frame f;
        ron::Status ok = co.GetObjectVersion(f, uuid(i->first), uuid(at));
        VF_CHECK(c, ok, "a version is not read", ok.str());
        same_object(i->first, o, f, "object version");
        c.saw("object versions checked");
    }
    void check_names(Commit& co, const std::map<Id, Id>& want) {
        Replica::Names got;
        ron::Status ok = co.ReadNames(got);
        VF_CHECK(c, ok, "names are not read", ok.str());
        for (auto& n : want) {
            auto i = got.find(uuid(n.first));
            VF_CHECK(c, i != got.end(), "a name is lost", md::text(n.first));
            VF_CHECK(c, i->second == uuid(n.second), "a name stands for something else", md::text(n.first) + " is " + i->second.str() + ", not " + md::text(n.second));
        }
        VF_CHECK(c, got.size() == want.size(), "names appear", std::to_string(got.size()));
    }
    // what is recorded of an event: its object, the type of that, and its hash
    void check_meta(Branch& x, const Id& id, const Frame& f) {
        const Event& e = x.ev.at(id);
        Op want;
        want.id = id;
        want.ref = name("meta");
        want.vals = {Val::uuid(e.obj), Val::uuid(x.ev.at(e.obj).op.ref), Val::string(md::ascii32(base64(e.hash)))};
        same_ops(c, ops_of(c, f, "meta record"), Ops{want}, false, "wrong hash, object or type of an event", f.data());
        c.saw("event hashes checked");
    }
    void check(Branch& x) {
        VF_CHECK(c, re->HasBranch(ron::Word{x.yarn}), "no branch", md::word(x.yarn));
        Commit co{*re, re->yarn2branch(ron::Word{x.yarn})};
        VF_CHECK(c, co.tip() == uuid(x.tip), "wrong tip", "of branch " + md::word(x.yarn) + ": " + co.tip().str() + ", not " + md::text(x.tip));
        for (auto& o : x.objs) check_object(co, o.first, o.second);
        check_names(co, x.names);
        // nothing else is stored
        Store::Iterator i{re->GetBranch(ron::Word{x.yarn})};
        ron::Status ok = i.SeekTo(ron::Key::ZERO);
        VF_CHECK(c, ok, "seek fails", ok.str());
        size_t n = 0;
        while (i.key() != ron::Key::END) {
            MKey k = mkey(i.key());
            Id id = md::ev(k.v, k.o);
            bool known = k == MKey{} || (k == MKey{LWW_F, 0, 0} && !x.names.empty()) || (k.form == META_F && x.ev.count(id)) || (k.form == LOG_F && x.objs.count(id)) ||
                         (x.objs.count(id) && x.objs.at(id).form == k.form);
            VF_CHECK(c, known, "a record of nothing", show(k) + " " + i.value().data().str());
            if (k.form != META_F) n++;
            else if (hashes) check_meta(x, id, Frame{i.value().data().str()});
            if (!i.Next()) break;
        }
        VF_CHECK(c, n == 1 + !x.names.empty() + 2 * x.objs.size(), "records are missing", std::to_string(n));
        c.saw("branches checked");
    }
    void check_all() {
        for (auto& x : b) check(x.second);
        ron::Uuids ids;
        re->ListStores(ids);
        VF_CHECK(c, ids.size() == b.size() + 1, "wrong list of stores", std::to_string(ids.size()));
        VF_CHECK(c, re->active_store() == uuid(active), "another active store", re->active_store().str() + ", not " + md::text(active));
        Commit meta{*re, ron::Uuid::NIL};
        check_names(meta, meta_names);
    }
    void now(u64 author) {
        ron::Uuid n = re->Now(ron::Word{author});
        VF_CHECK(c, n.version() == ron::TIME, "the clock reads no event", n.str());
        u64 want = author ? author : active.o & md::M60;
        VF_CHECK(c, (n.origin.as_u64 & md::M60) == want, "the clock reads of another author", n.str());
        u64 v = n.value.as_u64 & md::M60;
        VF_CHECK(c, v > seen, "the clock does not go on", n.str() + " after " + md::word(seen));
        seen = v;
        c.saw("clock readings");
    }
    // ---- steps ----
    void receive(Branch& x) {
        Ops f;
        bool resent = !sent.empty() && r.chance(6);
        if (resent) f = r.pick(sent).second;
        else f = good(x);
        if (!resent && r.chance(35))
            for (int n = 1 + (int)r.chance(20); n > 0; n--) spoil(x, f);
        Branch then = x;
        str why;
        bool ok = true;
        for (auto& o : f) {
            if (!ok) break;
            ok = take(then, o, why);
        }
        if (f.empty()) return;
        Frame in = make(c, f);
        if (r.chance(4)) {  // a frame that ends in rubbish
            str t = in.data();
            size_t e = t.find_last_not_of(" \t\r\n;,!.");
            t.resize(e + 1);
            static const char* const J[] = {" 'abc", " @(;", " =1x;", "; @1+A :lww \x01;"};
            in = Frame{t + J[r.below(4)]};
            Cursor cu{in};
            ron::Status st;
            while ((st = cu.Next())) {}
            if (st != ron::Status::ENDOFFRAME) ok = false, why = "malformed";
            else return;
        }
        note("receive " + md::word(x.yarn) + " " + in.data() + "\n");
        if (!ok) note("  (bad: " + why + ")\n");
        str before = ok ? "" : raw(x.yarn);
        for (auto& o : f) if (o.id.version() == md::TIME && o.id.v < NEVER) { if (ok) see(o.id.v); }
        if (r.chance(25)) {
            by_commit(x, then, in, f, ok);
        } else {
            Builder resp;
            ron::Status st = re->ReceiveFrame(resp, in, ron::Word{x.yarn});
            if (ok) VF_CHECK(c, st, "a good frame is rejected", st.str() + "\n" + in.data());
            else VF_CHECK(c, !st, "a bad frame is accepted", "(" + why + ") " + in.data());
            if (ok) x = then;
        }
        if (ok) {
            c.saw("frames accepted");
            c.saw("events accepted", f.size());
            sent.emplace_back(x.yarn, f);
        } else {
            str after = raw(x.yarn);
            VF_CHECK(c, before == after, "a rejected frame leaves traces", "before:\n" + before + "after:\n" + after);
            c.saw("frames rejected");
            c.saw(("rejected: " + why).c_str());
        }
        if (r.chance(30)) check(x);
        else {
            Commit co{*re, re->yarn2branch(ron::Word{x.yarn})};
            VF_CHECK(c, co.tip() == uuid(x.tip), "wrong tip", co.tip().str() + ", not " + md::text(x.tip));
        }
    }
    // the same, through a commit, with reads before it is saved; maybe it never is
    void by_commit(Branch& x, Branch& then, const Frame& in, const Ops& f, bool& ok) {
        for (auto& o : f) if (o.id.version() != md::TIME) return direct(x, then, in, ok);
        bool save = r.chance(70);
        str before = raw(x.yarn);
        {
            Commit co{*re, re->yarn2branch(ron::Word{x.yarn})};
            Cursor cu{in};
            ron::Status st = cu.Next();
            Builder resp;
            while (st && cu.valid()) st = co.SaveChain(resp, cu);
            if (!ok) {
                if (st) st = cu.Next() == ron::Status::ENDOFFRAME ? ron::Status::OK : ron::Status::BADSYNTAX;
                VF_CHECK(c, !st, "a bad chain is accepted", in.data());
                return;
            }
            VF_CHECK(c, st, "a good chain is rejected", st.str() + "\n" + in.data());
            for (auto& o : then.objs)
                if (r.chance(50)) check_object(co, o.first, o.second);
            VF_CHECK(c, co.tip() == uuid(then.tip), "wrong tip", co.tip().str());
            {
                Commit other{*re, re->yarn2branch(ron::Word{x.yarn})};
                for (auto& o : x.objs)
                    if (r.chance(30)) check_object(other, o.first, o.second);
            }
            if (save) {
                st = co.Save();
                VF_CHECK(c, st, "a commit is not saved", st.str());
                x = then;
                c.saw("commits saved");
                return;
            }
        }
        str after = raw(x.yarn);
        VF_CHECK(c, before == after, "a dropped commit leaves traces", "before:\n" + before + "after:\n" + after);
        c.saw("commits dropped");
    }
    void direct(Branch& x, Branch& then, const Frame& in, bool ok) {
        Builder resp;
        ron::Status st = re->ReceiveFrame(resp, in, ron::Word{x.yarn});
        if (ok) VF_CHECK(c, st, "a good frame is rejected", st.str() + "\n" + in.data());
        else VF_CHECK(c, !st, "a bad frame is accepted", in.data());
        if (ok) x = then;
    }
    // queries: objects, and arrays as texts; up to four in a frame
    void query(Branch& x, bool texts = false) {
        std::vector<Id> known, arrays;
        for (auto& o : x.objs) {
            if (o.second.form != MAX_F) known.push_back(o.first);  // (a max is not served)
            if (o.second.form == RGA_F) arrays.push_back(o.first);
        }
        if (known.empty()) return;
        Ops q;
        std::vector<Ops> want;
        for (int n = 1 + (r.chance(30) ? (int)r.below(4) : 0); n > 0; n--) {
            bool t = !arrays.empty() && (texts || r.chance(40));
            Id of = r.pick(t ? arrays : known);
            const Object& o = x.objs.at(of);
            Ops all = expected(o.form, o.chains);
            Op a;
            a.term = md::QUERY;
            if (t) {
                a.id = md::id(of.v & md::M60, md::DERIVED, of.o & md::M60);
                a.ref = name("txt");
                q.push_back(a);
                a.vals = {Val::string(text_of(all))};
                c.saw("texts read");
                c.saw("characters read", a.vals[0].s.size());
                for (auto& e : all) if (is_name(e, RM)) { c.saw("texts of arrays with removals"); break; }
                all = {a};
            } else {
                a.id = of;
                a.ref = o.form == LWW_F ? LWW : o.form == RGA_F ? RGA : o.form == MX_F ? MX : YARN_ID;
                q.push_back(a);
                c.saw("queries");
            }
            want.push_back(all);
        }
        str before = raw(x.yarn);
        Builder resp;
        Frame in{md::spell(q, r)};
        ron::Status st = re->ReceiveFrame(resp, in, ron::Word{x.yarn});
        VF_CHECK(c, st, "a query fails", st.str() + "\n" + in.data());
        Frame answer = resp.Release();
        Ops got = ops_of(c, answer, "answer");
        size_t at = 0;
        for (size_t i = 0; i < want.size(); i++) {
            Ops part(got.begin() + std::min(at, got.size()), got.begin() + std::min(at + want[i].size(), got.size()));
            same_ops(c, part, want[i], false, q[i].ref == name("txt") ? "wrong text" : "wrong answer to a query", "asked " + in.data() + "\nanswered " + answer.data());
            at += want[i].size();
        }
        VF_CHECK(c, at == got.size(), "too long an answer", answer.data());
        VF_CHECK(c, raw(x.yarn) == before, "a query changes the store", "");
    }
    // events without ids: the replica is to stamp them
    void unstamped(Branch& x) {
        Branch then = x;
        Ops f;
        int n = 1 + (int)r.below(6);
        std::vector<std::pair<Id, int>> refs;  // absolute reference, or the number of an op
        std::vector<int> form;
        for (int i = 0; i < n; i++) {
            Op o;
            o.id = Id{(u64)i, md::ev(0, 0).o};
            int fm;
            if (i == 0 || r.chance(20)) {
                if (i == 0 && r.coin() && !x.objs.empty()) {
                    auto e = x.ev.begin();
                    std::advance(e, r.below(x.ev.size()));
                    if (r.chance(40) && x.ev.count(x.greatest())) e = x.ev.find(x.greatest());
                    o.ref = e->first;
                    fm = x.objs.at(e->second.obj).form;
                    if (fm == MAX_F || fm == YARN_F || (e->first.o & md::M60) == 0) return;
                } else {
                    o.ref = r.pick(std::vector<Id>{LWW, RGA, MX});
                    fm = form_of(o.ref);
                }
            } else {
                int to = r.chance(70) ? i - 1 : (int)r.below(i);
                o.ref = Id{(u64)to, md::ev(0, 0).o};
                fm = form[to];
            }
            if (o.ref.version() == md::TIME)
                switch (fm) {
                    case LWW_F: o.vals = {gen_key(r), small()}; break;
                    case RGA_F: o.vals = {Val::string(std::u32string(1, 'a' + r.below(26)))}; break;
                    default: o.vals = {Val::integer(r.below(3)), Val::integer(r.below(3)), small()};
                }
            form.push_back(fm);
            f.push_back(o);
        }
        Frame in = make(c, f);
        note("unstamped " + md::word(x.yarn) + " " + in.data() + "\n");
        Builder resp;
        ron::Status st = re->ReceiveFrame(resp, in, ron::Word{x.yarn});
        VF_CHECK(c, st, "an unstamped frame is rejected", st.str() + "\n" + in.data());
        Commit co{*re, re->yarn2branch(ron::Word{x.yarn})};
        ron::Uuid tip = co.tip();
        u64 last = tip.value.as_u64 & md::M60, first = last - n + 1;
        VF_CHECK(c, (tip.origin.as_u64 & md::M60) == x.yarn, "stamped for another author", tip.str());
        VF_CHECK(c, first > seen && last >= first, "stamped with an old time", "first " + md::word(first) + ", seen " + md::word(seen));
        for (auto& o : f) {
            o.id = md::ev(first + o.id.v, x.yarn);
            if (o.ref.version() == md::TIME && (o.ref.o & md::M60) == 0 && o.ref.v < 1 << 20) o.ref = md::ev(first + o.ref.v, x.yarn);
            str why;
            if (!take(then, o, why)) c.fail("harness", "unstamped: " + why + " " + md::show(o));
        }
        see(last);
        x = then;
        c.saw("unstamped frames");
        check(x);
    }
    // A request of any kind. Whatever it is, the process lives on; if it is refused or only
    // asks, nothing changes; if the model takes it, so does the replica. Returns false if it was
    // accepted and the model has no say in what it means.
    bool mess(bool on_branch) {
        Branch& x = any();
        std::vector<Id> known;
        for (auto& e : x.ev) known.push_back(e.first);
        auto any_id = [&]() -> Id {
            Id k = r.pick(known);
            switch (r.below(12)) {
                case 0: return md::id(k.v & md::M60, md::DERIVED, k.o & md::M60);
                case 1: return md::id(k.v & md::M60, md::HASH, k.o & md::M60);
                case 2: return md::id(k.v & md::M60, md::NAME, k.o & md::M60);
                case 3: return md::gen_id(r);
                case 4: return Id{k.v | (u64)r.below(16) << 60, k.o};
                case 5: return Id{k.v, 0};
                case 6: return Id{r.below(5), md::ev(0, 0).o};
                case 7: return Id{md::ev(NEVER, 0).v, k.o};
                case 8: return Id{k.v + r.below(4) - 1, k.o};
                default: return k;
            }
        };
        static const char* const N[] = {"lww", "rga", "mx", "max", "yarn", "zero", "log", "meta", "chain", "op", "sha2", "sha3", "prev", "head", "obj", "csv", "txt", "json", "name",
                                        "tag", "rm", "un", "inc", "vv", "since", "patch", "hili", "dtxt", "error", "0", "~", "notatype", "map", "patch", "cmd", "all"};
        auto any_name = [&]() -> Id { return r.chance(5) ? COMMENT : name(N[r.below(sizeof N / sizeof *N)]); };
        Ops f;
        bool ask = r.chance(15);
        if (ask) {
            for (int n = 1 + (int)r.below(4); n > 0; n--) {
                Op o;
                o.id = r.chance(60) ? r.pick(known) : any_id();
                if (r.chance(60) && !x.objs.empty()) o.id = std::next(x.objs.begin(), r.below(x.objs.size()))->first;
                if (r.chance(20)) o.id = md::id(o.id.v & md::M60, md::DERIVED, o.id.o & md::M60);
                static const char* const F[] = {"lww", "rga", "mx", "yarn", "log", "txt"};
                o.ref = r.chance(70) ? name(F[r.below(6)]) : r.coin() ? any_name() : any_id();
                o.term = md::QUERY;
                if (r.chance(10)) o.vals.push_back(md::gen_val(r));
                f.push_back(o);
            }
        } else if (r.chance(50)) {
            f = good(x);
            for (int n = (int)r.below(4); n > 0; n--) spoil(x, f);
        }
        for (int n = ask ? 0 : f.empty() ? 1 + (int)r.below(4) : (int)r.below(3); n > 0; n--) {
            Op o;
            o.id = r.chance(75) ? any_id() : any_name();
            o.ref = r.chance(40) ? any_id() : any_name();
            for (int v = (int)r.below(4); v > 0; v--) o.vals.push_back(r.chance(25) ? Val::uuid(r.coin() ? any_id() : any_name()) : md::gen_val(r));
            if (r.coin()) o.term = (int)r.below(4);
            f.insert(f.begin() + r.below(f.size() + 1), o);
        }
        for (auto& o : f) {
            if (ask) break;
            if (r.chance(15)) o.term = (int)r.below(4);
            if (r.chance(3)) o.ref = any_id();
            if (r.chance(3)) o.id = any_id();
            if (r.chance(3)) o.vals.clear();
        }
        static const char J[] = "@:;,!?'\"=^>()+-%$*#0aZ~_ .\n";
        str t = md::spell(f, r);
        if (r.chance(15) && !t.empty())
            for (int n = 1 + (int)r.below(3); n > 0; n--) {
                size_t at = r.below(t.size());
                switch (r.below(3)) {
                    case 0: t[at] = J[r.below(sizeof J - 1)]; break;
                    case 1: t.erase(at, 1 + r.below(3)); break;
                    default: t.insert(at, t.substr(r.below(t.size()), r.below(8)));
                }
                if (t.empty()) break;
            }
        if (md::RefParse(t).outside) return true;  // (a NUL, a lone surrogate: no defined character)
        u64 yarn = on_branch ? x.yarn : r.coin() ? 0 : 1 + md::gen_word(r) % (md::M60 - 1);
        while (!on_branch && b.count(yarn)) yarn = 1 + md::gen_word(r) % (md::M60 - 1);
        note("mess " + md::word(yarn) + " " + t + "\n");
        std::map<u64, str> before;
        for (auto& y : b) before[y.first] = raw(y.first);
        str meta = on_branch ? "" : raw(0);
        Builder resp;
        ron::Status st = re->ReceiveFrame(resp, Frame{t}, ron::Word{yarn});
        Frame answer = resp.Release();
        if (st) ops_of(c, answer, "answer");
        for (auto& y : b)
            if (y.first != x.yarn || !on_branch || !st) VF_CHECK(c, raw(y.first) == before[y.first], y.first == x.yarn ? "a refused request leaves traces" : "a request changes another branch", st.str() + "\n" + t);
        if (!on_branch) {
            if (st && yarn == 0) return false;  // to the metadata
            VF_CHECK(c, !st, "a request to no branch is served", t);
            VF_CHECK(c, raw(0) == meta, "a refused request leaves traces", st.str() + "\n" + t);
            c.saw("requests to no branch refused");
            return true;
        }
        if (!st) {
            c.saw("requests refused");
            c.saw(("refused: " + st.str().substr(0, 11)).c_str());
            return true;
        }
        Parsed p = parse(c, t);
        VF_CHECK(c, p.end == ENDED, "a malformed request is served", t);
        Branch then = x;
        str why;
        bool sure = true, asks = true, taken = true;
        for (auto& o : p.ops) {
            if (o.id == COMMENT) continue;
            if (o.term == md::QUERY) {
                sure = false;
                asks = asks && o.id.version() != md::NAME;  // (naming is a command, however it ends)
                continue;
            }
            if (o.id.version() == md::DERIVED && o.term == md::REDUCED) { sure = false; continue; }
            asks = false;
            if (sure && taken) taken = take(then, o, why);
        }
        if (asks) {
            VF_CHECK(c, raw(x.yarn) == before[x.yarn], "a query changes the store", t);
            c.saw("requests that only ask");
            return true;
        }
        for (auto& o : p.ops) if (o.id.version() == md::TIME && o.id.v < NEVER) see(o.id.v);
        if (sure && taken) {
            bool plain = true;
            for (auto& o : p.ops) plain = plain && !o.id.variety() && !o.ref.variety();
            if (plain) {
                x = then;
                check(x);
                c.saw("requests taken");
                return true;
            }
        }
        bool stamped = sure;
        for (auto& o : p.ops) stamped = stamped && (o.id.o & md::M60) && !o.id.variety() && !o.ref.variety() && (o.id.version() == md::TIME || o.id == COMMENT);
        VF_CHECK(c, !stamped || taken, "a bad request is served", "(" + why + ") " + t);
        c.saw("requests of another meaning");
        if (getenv("VF_ODD")) fprintf(stderr, "ODD (%s) %s\n", why.c_str(), t.c_str());
        return false;
    }
    // what must be so in any case: every record can be read, and comes back as it was
    void sane() {
        auto read = [&](u64 yarn) {
            str s;
            Store::Iterator i{re->GetBranch(ron::Word{yarn})};
            ron::Status ok = i.SeekTo(ron::Key::ZERO);
            VF_CHECK(c, ok, "seek fails", ok.str());
            while (i.key() != ron::Key::END) {
                Frame v{i.value().data().str()};
                Parsed p = parse(c, v.data());
                VF_CHECK(c, p.end == ENDED, "an unreadable record", show(mkey(i.key())) + " " + v.data());
                for (auto& o : p.ops) o.term = 0;
                s += show(mkey(i.key())) + " " + md::show(p.ops, 100000) + "\n";
                c.saw("records read");
                if (!i.Next()) break;
            }
            return s;
        };
        std::map<u64, str> before;
        for (auto& y : b) before[y.first] = read(y.first);
        ron::Status ok = re->Close();
        VF_CHECK(c, ok, "close fails", ok.str());
        ok = re->Open();
        VF_CHECK(c, ok, "open fails", ok.str());
        for (auto& y : b) VF_CHECK(c, read(y.first) == before[y.first], "reopening changes a branch", before[y.first] + "\nnow " + read(y.first));
    }
    void new_object(Branch& x) {
        Op o;
        o.ref = r.pick(std::vector<Id>{LWW, RGA, MX, MAX});
        {
            Commit co{*re, re->yarn2branch(ron::Word{x.yarn})};
            ron::Status st = co.NewObject(uuid(o.ref));
            VF_CHECK(c, st, "no new object", st.str());
            o.id = id(co.tip());
            VF_CHECK(c, (o.id.v & md::M60) > seen && (o.id.o & md::M60) == x.yarn, "a new object has an old id", md::text(o.id));
            see(o.id.v);
            st = co.Save();
            VF_CHECK(c, st, "a commit is not saved", st.str());
        }
        note("new object " + md::text(o.id) + " " + md::text(o.ref) + "\n");
        str why;
        if (!take(x, o, why)) c.fail("harness", "new object: " + why);
        c.saw("new objects");
    }
    void begin_yarn(Branch& x, bool transcendent) {
        Op o;
        o.ref = YARN_ID;
        Commit co{*re, re->yarn2branch(ron::Word{x.yarn})};
        o.id = id(co.tip());
        VF_CHECK(c, (o.id.o & md::M60) == x.yarn, "a branch begins with another author", md::text(o.id));
        if (transcendent) VF_CHECK(c, (o.id.v & md::M60) == 0, "a transcendent branch has a date", md::text(o.id));
        else VF_CHECK(c, (o.id.v & md::M60) > seen, "a branch begins in the past", md::text(o.id));
        see(o.id.v);
        str why;
        if (!take(x, o, why)) c.fail("harness", "yarn: " + why);
    }
    void create() {
        u64 yarn = r.chance(20) && !b.empty() ? any().yarn : r.coin() ? r.pick(authors) : 1 + md::gen_word(r) % (md::M60 - 1);
        bool tr = r.chance(40);
        note("create branch " + md::word(yarn) + (tr ? " (transcendent)" : "") + "\n");
        ron::Status ok = re->CreateBranch(ron::Word{yarn}, tr);
        if (b.count(yarn)) {
            VF_CHECK(c, !ok, "a branch is created twice", md::word(yarn));
            c.saw("second creations refused");
            return;
        }
        VF_CHECK(c, ok, "a branch is not created", ok.str());
        Branch& x = b[yarn];
        x.yarn = yarn;
        begin_yarn(x, tr);
        c.saw("branches created");
    }
    void fork() {
        u64 from = any().yarn, yarn;
        do yarn = 1 + md::gen_word(r) % (md::M60 - 1);
        while (b.count(yarn) || b[from].tips.count(md::ev(0, yarn).o));
        note("fork " + md::word(from) + " as " + md::word(yarn) + "\n");
        ron::Status ok = re->ForkBranch(ron::Word{yarn}, ron::Word{from});
        VF_CHECK(c, ok, "a branch is not forked", ok.str());
        Branch x = b[from];
        x.yarn = yarn;
        x.tip = Id{};
        begin_yarn(x, false);
        b[yarn] = x;
        check(b[yarn]);
        c.saw("forks");
    }
    void drop() {
        u64 yarn = any().yarn;
        if (b.size() < 2 || active == md::ev(NEVER, yarn)) return;
        note("drop " + md::word(yarn) + "\n");
        ron::Status ok = re->DropBranch(ron::Word{yarn});
        VF_CHECK(c, ok, "a branch is not dropped", ok.str());
        VF_CHECK(c, !re->HasBranch(ron::Word{yarn}), "a dropped branch is there", "");
        b.erase(yarn);
        c.saw("drops");
    }
    void hop() {
        active = r.chance(20) ? Id{} : md::ev(NEVER, any().yarn);
        note("hop on " + md::text(active) + "\n");
        ron::Status ok = re->SetActiveStore(uuid(active));
        VF_CHECK(c, ok, "no hop", ok.str());
        Id no = md::ev(NEVER - 1, 1 + md::gen_word(r) % (md::M60 - 1));
        ok = re->SetActiveStore(uuid(no));
        VF_CHECK(c, !ok, "a hop onto nothing", "");
        c.saw("hops");
    }
    void name_it() {
        Id tag = name(str(1, "abc"[r.below(3)]) + "Y"), what = md::ev(NEVER, any().yarn);
        {
            Commit meta{*re, ron::Uuid::NIL};
            ron::Status ok = meta.WriteName(uuid(tag), uuid(what));
            VF_CHECK(c, ok, "a name is not written", ok.str());
            ok = meta.Save();
            VF_CHECK(c, ok, "a name is not saved", ok.str());
        }
        meta_names[tag] = what;
        c.saw("branches named");
    }
    void reopen() {
        note("reopen\n");
        ron::Status ok = re->Close();
        VF_CHECK(c, ok, "close fails", ok.str());
        if (r.coin()) re = std::make_unique<Replica>();
        ok = re->Open();
        VF_CHECK(c, ok, "open fails", ok.str());
        seen = 0;
        for (auto& x : b) see(x.second.tip.v);
        VF_CHECK(c, !re->Open(), "opened twice", "");
        c.saw("reopenings");
        check_all();
    }
};
}  // namespace

