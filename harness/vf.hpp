// vf.hpp - the monitoring harness shared by all drivers.
//
// A driver registers suites: functions that run ONE case, deterministically
// derived from (seed, suite, index), against the real code, and report what an
// oracle saw. Cases run in worker processes, so an assertion, a sanitizer
// report or a hang costs one case only and is recorded as a violation with the
// case's index and input.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace vf {

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using str = std::string;

inline u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline u64 hash(const void* p, size_t n, u64 h = 1469598103934665603ULL) {
    auto c = static_cast<const u8*>(p);
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL;
    return mix(h);
}
inline u64 hash(const str& s, u64 h = 1469598103934665603ULL) {
    return hash(s.data(), s.size(), h);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s{mix(seed)} {}
    u64 next() { return mix(s += 0x9e3779b97f4a7c15ULL); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo) + 1); }
    bool chance(u32 pct) { return below(100) < pct; }
    bool coin() { return next() & 1; }
    template <class V> auto& pick(V& v) { return v[below(v.size())]; }
    template <class V> const auto& pick(const V& v) { return v[below(v.size())]; }
    template <class V> void shuffle(V& v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
    }
};

struct Fail {
    str key, msg;
};

// ---- state shared between the parent and the workers ----------------------
constexpr int MAXW = 64, MAXC = 384;
constexpr size_t INPUT_MAX = 1 << 16, DISTINCT = 1 << 24;
struct Slot {
    std::atomic<u64> idx, start_ms, done;
    u32 input_len;
    char input[INPUT_MAX];
};
struct Counter {
    char name[56];
    std::atomic<u64> n;
};
struct Shm {
    Slot slot[MAXW];
    std::atomic<int> lock, ncounters;
    Counter counter[MAXC];
    std::atomic<u64> distinct[DISTINCT];
    std::atomic<u64> ndistinct;
    std::atomic<u64> nviol, evaluations;
    char sample[6][3000];
    std::atomic<int> nsample;
};
extern Shm* shm;
extern int worker;
extern str outdir;
extern str tier;

inline u64 now_ms() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return u64(t.tv_sec) * 1000 + t.tv_nsec / 1000000;
}

inline std::atomic<u64>& counter(const str& name) {
    static thread_local std::map<str, std::atomic<u64>*> cache;
    auto it = cache.find(name);
    if (it != cache.end()) return *it->second;
    while (shm->lock.exchange(1)) usleep(10);
    int n = shm->ncounters, i = 0;
    while (i < n && name != shm->counter[i].name) i++;
    if (i == n && n < MAXC) {
        snprintf(shm->counter[i].name, sizeof shm->counter[i].name, "%s", name.c_str());
        shm->ncounters = n + 1;
    }
    if (i >= MAXC) i = MAXC - 1;
    shm->lock = 0;
    return *(cache[name] = &shm->counter[i].n);
}

str jesc(const str& s);

struct Case {
    u64 seed, idx;
    Rng rng;
    Case(u64 seed_, u64 suite, u64 idx_) : seed{seed_}, idx{idx_}, rng{mix(mix(seed_) ^ suite) ^ mix(idx_ * 2 + 1)} {}
    // what is being run: kept in shared memory, so it survives a crash
    void input(const str& s) {
        Slot& sl = shm->slot[worker];
        sl.input_len = (u32)std::min(s.size(), INPUT_MAX);
        memcpy(sl.input, s.data(), sl.input_len);
    }
    void more(const str& s) {
        Slot& sl = shm->slot[worker];
        u32 n = (u32)std::min(s.size(), INPUT_MAX - sl.input_len);
        memcpy(sl.input + sl.input_len, s.data(), n);
        sl.input_len += n;
    }
    // count an event the monitor observed
    void saw(const str& what, u64 n = 1) { counter(what) += n; }
    // report a distinct non-trivial situation
    void distinct(u64 h) {
        h = mix(h) | 1;
        size_t i = h & (DISTINCT - 1);
        for (int k = 0; k < 64; k++, i = (i + 1) & (DISTINCT - 1)) {
            u64 cur = shm->distinct[i];
            if (cur == h) return;
            if (!cur) {
                if (shm->distinct[i].compare_exchange_strong(cur, h)) {
                    shm->ndistinct++;
                    return;
                }
                if (cur == h) return;
            }
        }
    }
    void distinct(const str& s) { distinct(hash(s)); }
    void sample(const str& s) {
        if (shm->nsample >= 6) return;
        int i = shm->nsample++;
        if (i < 6) snprintf(shm->sample[i], sizeof shm->sample[i], "%s", s.c_str());
    }
    [[noreturn]] void fail(const str& key, const str& msg) { throw Fail{key, msg}; }
    void check(bool ok, const char* key, const str& msg) {
        if (!ok) fail(key, msg);
    }
};
#define VF_CHECK(c, cond, key, msg) \
    do {                            \
        if (!(cond)) (c).fail(key, msg); \
    } while (0)

using Fn = void (*)(Case&);
struct Suite {
    const char* name;
    Fn fn;
    u64 timeout_ms;
};
std::vector<Suite>& suites();
struct Reg {
    Reg(const char* n, Fn f, u64 t = 20000) { suites().push_back({n, f, t}); }
};
#define VF_SUITE(name, ...)                        \
    static void vf_suite_##name(vf::Case&);         \
    static vf::Reg vf_reg_##name{#name, vf_suite_##name, ##__VA_ARGS__}; \
    static void vf_suite_##name(vf::Case& c)

inline str hex(const str& s) {
    str r;
    char b[4];
    for (unsigned char ch : s) snprintf(b, 4, "%02x", ch), r += b;
    return r;
}
inline str show(const str& s, size_t max = 2000) {
    str r;
    for (unsigned char ch : s.substr(0, max)) {
        char b[8];
        if (ch == '\n') r += "\\n";
        else if (ch == '\\') r += "\\\\";
        else if (ch < 32 || ch >= 127) snprintf(b, 8, "\\x%02x", ch), r += b;
        else r += (char)ch;
    }
    if (s.size() > max) r += "...";
    return r;
}

int main_(int argc, char** argv);
}  // namespace vf
