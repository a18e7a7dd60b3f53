// driver_replica.cc - replicas: frames of events by several authors, good and bad, received
// by the branches of a replica, against a model of what must be accepted and kept.
#include "replica_model.hpp"

// Nothing here depends on power failures: syncing and preallocation only cost time.
extern "C" {
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }
int fallocate(int, int, off_t, off_t) { errno = EOPNOTSUPP; return -1; }
int sync_file_range(int, off64_t, off64_t, unsigned) { return 0; }
}

static void begin(World2& w) {
    Case& c = w.c;
    ron::Status ok = Replica::CreateReplica();
    VF_CHECK(c, ok, "no replica is created", ok.str());
    w.re = std::make_unique<Replica>();
    ok = w.re->Open();
    VF_CHECK(c, ok, "open fails", ok.str());
    c.input("");
    w.create();
}
static void history(Case& c, bool hashes) {
    Rng& r = c.rng;
    Dir dir;
    World2 w{c};
    w.hashes = hashes;
    begin(w);
    for (int n = 5 + (int)r.below(r.chance(10) ? 80 : 25); n > 0; n--) {
        int k = (int)r.below(100);
        if (k < 55) w.receive(w.any());
        else if (k < 62) w.query(w.any(), k < 58);
        else if (k < 65) w.check_version(w.any());
        else if (k < 69) w.unstamped(w.any());
        else if (k < 72) w.new_object(w.any());
        else if (k < 76) w.now(r.coin() ? 0 : r.pick(w.authors));
        else if (k < 80) w.create();
        else if (k < 83) w.fork();
        else if (k < 85) w.drop();
        else if (k < 89) w.hop();
        else if (k < 92) w.name_it();
        else w.reopen();
    }
    w.check_all();
    w.reopen();
    c.distinct(w.log);
}
VF_SUITE(replica_history, 120000) { history(c, false); }
VF_SUITE(replica_hashes, 120000) { history(c, true); }

// requests of every kind, most of them nonsense
VF_SUITE(replica_hostile, 120000) {
    Rng& r = c.rng;
    Dir dir;
    World2 w{c};
    begin(w);
    if (r.coin()) w.create();
    for (int n = 2 + (int)r.below(8); n > 0; n--) w.receive(w.any());
    bool known = true;
    for (int n = 10 + (int)r.below(40); n > 0 && known; n--) {
        known = w.mess(!r.chance(5));
        if (known && r.chance(5)) w.receive(w.any());
        if (known && r.chance(5)) w.query(w.any());
    }
    if (known) w.check_all();
    w.sane();
    c.distinct(w.log);
}

// texts that are edited, and read after every edit
VF_SUITE(replica_text, 120000) {
    Rng& r = c.rng;
    Dir dir;
    World2 w{c};
    w.arrays = true;
    begin(w);
    for (int n = 10 + (int)r.below(40); n > 0; n--) {
        auto& x = w.any();
        int k = (int)r.below(100);
        if (k < 80) w.receive(x);
        else if (k < 90) w.unstamped(x);
        else if (k < 94) w.create();
        else if (k < 96) w.fork();
        else w.reopen();
        w.query(w.any(), true);
    }
    w.check_all();
    c.distinct(w.log);
}
