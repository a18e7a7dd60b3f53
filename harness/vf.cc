#include "vf.hpp"
#include <algorithm>
#include <set>
#include <fstream>
#include <sstream>

namespace vf {
Shm* shm;
int worker = 0;
str outdir = ".";
str tier = "quick";

std::vector<Suite>& suites() {
    static std::vector<Suite> s;
    return s;
}

str jesc(const str& s) {
    str r;
    for (unsigned char ch : s) {
        char b[8];
        if (ch == '"' || ch == '\\') r += '\\', r += (char)ch;
        else if (ch < 32 || ch >= 127) snprintf(b, 8, "\\u%04x", ch), r += b;  // bytes as latin-1
        else r += (char)ch;
    }
    return r;
}

static void record(const Suite& s, u64 seed, u64 idx, const str& key, const str& msg, const str& in) {
    shm->nviol++;
    u64 n = counter("violations[" + key.substr(0, 40) + "]")++;
    if (n >= 25) return;  // enough examples of this one
    str line = "{\"suite\":\"" + str(s.name) + "\",\"seed\":" + std::to_string(seed) + ",\"idx\":" +
               std::to_string(idx) + ",\"key\":\"" + jesc(key) + "\",\"msg\":\"" + jesc(msg.substr(0, 8000)) +
               "\",\"input\":\"" + jesc(in.substr(0, 20000)) + "\"}\n";
    int fd = open((outdir + "/violations.jsonl").c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd >= 0) {
        ssize_t w = write(fd, line.data(), line.size());
        (void)w;
        close(fd);
    }
}

static void run_case(const Suite& s, u64 seed, u64 idx) {
    Slot& sl = shm->slot[worker];
    sl.input_len = 0;
    sl.idx = idx;
    sl.start_ms = now_ms();
    Case c{seed, hash(str(s.name)), idx};
    try {
        s.fn(c);
    } catch (const Fail& f) {
        record(s, seed, idx, f.key, f.msg, str(sl.input, sl.input_len));
    } catch (const std::exception& e) {
        record(s, seed, idx, str("exception:") + e.what(), str("uncaught exception: ") + e.what(),
               str(sl.input, sl.input_len));
    }
    shm->evaluations++;
    sl.start_ms = 0;
}

// a stable name for a crash: the assertion, or the sanitizer's error and top frame of our code
static str crash_key(const str& err, int status) {
    auto grab = [&](const char* from, const char* till) -> str {
        size_t a = err.find(from);
        if (a == str::npos) return "";
        a += strlen(from);
        size_t b = err.find(till, a);
        return err.substr(a, b == str::npos ? 120 : b - a);
    };
    str k;
    if (err.find("Assertion `") != str::npos) {
        k = "assert:" + grab("Assertion `", "' failed");
    } else if (err.find("runtime error: ") != str::npos) {
        str m = grab("runtime error: ", "\n");
        str t;
        for (char ch : m) if (!isdigit((u8)ch)) t += ch;
        k = "ubsan:" + t.substr(0, 80);
    } else if (err.find("ERROR: AddressSanitizer: ") != str::npos) {
        k = "asan:" + grab("ERROR: AddressSanitizer: ", " ");
    } else if (err.find("WARNING: ThreadSanitizer: ") != str::npos) {
        k = "tsan:" + grab("WARNING: ThreadSanitizer: ", " (pid");
    } else if (err.find("ERROR: LeakSanitizer") != str::npos) {
        k = "leak";
    } else if (WIFSIGNALED(status)) {
        k = "signal:" + std::to_string(WTERMSIG(status));
    } else {
        k = "exit:" + std::to_string(WEXITSTATUS(status));
    }
    // the first frame inside the project
    size_t at = 0;
    while ((at = err.find("\n    #", at)) != str::npos) {
        size_t e = err.find('\n', at + 1);
        str f = err.substr(at, e == str::npos ? str::npos : e - at);
        size_t in = f.find(" in ");
        if (in != str::npos && f.find("vf.cc") == str::npos && f.find("/harness/") == str::npos &&
            f.find("ron::") != str::npos) {
            str fn = f.substr(in + 4);
            size_t par = fn.find_first_of("( <");
            k += "@" + fn.substr(0, par);
            break;
        }
        at = e == str::npos ? err.size() : e;
    }
    return k;
}

static str slurp(const str& p) {
    std::ifstream f(p);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

static void worker_main(const Suite& s, u64 seed, u64 from, u64 step, u64 till) {
    for (u64 i = from; i < till; i += step) run_case(s, seed, i);
}

static pid_t spawn(const Suite& s, int w, u64 seed, u64 from, u64 step, u64 till) {
    fflush(nullptr);
    pid_t p = fork();
    if (p) return p;
    worker = w;
    str e = outdir + "/worker-" + std::to_string(w) + ".err";
    int fd = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    worker_main(s, seed, from, step, till);
    shm->slot[w].idx = till;
    fflush(nullptr);
    _exit(0);
}

static void run_suite(const Suite& s, u64 seed, u64 base, u64 cases, int jobs, u64 tmo_scale) {
    if ((u64)jobs > cases) jobs = (int)cases;
    if (jobs < 1) jobs = 1;
    u64 till = base + cases;
    std::vector<pid_t> pid(jobs);
    std::vector<int> retried(jobs, 0);
    int live = 0, deaths = 0;
    for (int w = 0; w < jobs; w++) {
        shm->slot[w].idx = base + w;
        shm->slot[w].start_ms = 0;
        pid[w] = spawn(s, w, seed, base + w, jobs, till);
        live++;
    }
    u64 limit = s.timeout_ms * tmo_scale;
    std::vector<bool> killed(jobs, false);
    std::vector<u64> retry_idx(jobs, ~0ULL);
    while (live) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p == 0) {
            u64 t = now_ms();
            for (int w = 0; w < jobs; w++) {
                u64 b = shm->slot[w].start_ms;
                u64 lim = retry_idx[w] == shm->slot[w].idx ? limit * 4 : limit;
                if (pid[w] && b && t > b && t - b > lim && !killed[w]) {
                    killed[w] = true;
                    kill(pid[w], SIGKILL);
                }
            }
            usleep(2000);
            continue;
        }
        if (p < 0) break;
        int w = int(std::find(pid.begin(), pid.end(), p) - pid.begin());
        if (w == jobs) continue;
        live--;
        pid[w] = 0;
        Slot& sl = shm->slot[w];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl.idx >= till) continue;
        u64 idx = sl.idx;
        str in(sl.input, sl.input_len);
        if (killed[w]) {
            killed[w] = false;
            if (retry_idx[w] != idx) {  // slow machine? once more, with a longer limit
                retry_idx[w] = idx;
                pid[w] = spawn(s, w, seed, idx, jobs, till);
                live++;
                continue;
            }
            record(s, seed, idx, "hang", "the case did not finish in " + std::to_string(limit * 4) + " ms", in);
            shm->evaluations++;
        } else {
            str err = slurp(outdir + "/worker-" + std::to_string(w) + ".err");
            size_t at = err.find("ERROR: ");
            if (at == str::npos) at = err.find("runtime error");
            if (at != str::npos && at > 200) err = err.substr(at - 200);
            record(s, seed, idx, crash_key(err, st), "the process died: " + err, in);
            shm->evaluations++;
        }
        if (++deaths > 400) {
            fprintf(stderr, "suite %s: too many dead workers, stopping\n", s.name);
            for (auto q : pid) if (q) kill(q, SIGKILL);
            while (waitpid(-1, &st, 0) > 0) {}
            return;
        }
        if (idx + jobs < till) {
            sl.start_ms = 0;
            pid[w] = spawn(s, w, seed, idx + jobs, jobs, till);
            live++;
        }
    }
}

int main_(int argc, char** argv) {
    u64 seed = 1, base = 0, cases = 1000, scale = 1;
    int jobs = 8;
    bool inproc = false;
    std::vector<str> names;
    for (int i = 1; i < argc; i++) {
        str a = argv[i];
        auto val = [&] { return str(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 0);
        else if (a == "--cases") cases = strtoull(val().c_str(), 0, 0);
        else if (a == "--base") base = strtoull(val().c_str(), 0, 0);
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--out") outdir = val();
        else if (a == "--tier") tier = val();
        else if (a == "--inproc") inproc = true;
        else if (a == "--timeout-scale") scale = strtoull(val().c_str(), 0, 0);
        else if (a == "--suite") names.push_back(val());
        else if (a == "--list") {
            for (auto& s : suites()) puts(s.name);
            return 0;
        } else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }
    if (jobs > MAXW) jobs = MAXW;
    shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) return 2;
    mkdir(outdir.c_str(), 0755);
    u64 t0 = now_ms();
    for (auto& s : suites()) {
        bool want = false;
        u64 n = cases;
        for (auto& nm : names) {
            size_t eq = nm.find('=');
            if (nm.substr(0, eq) == s.name) {
                want = true;
                if (eq != str::npos) n = strtoull(nm.c_str() + eq + 1, 0, 0);
            }
        }
        if (!want) continue;
        u64 e0 = shm->evaluations, t1 = now_ms(), v0 = shm->nviol;
        if (inproc) {
            for (u64 i = base; i < base + n; i++) run_case(s, seed, i);
        } else {
            run_suite(s, seed, base, n, jobs, scale);
        }
        fprintf(stderr, "suite %-22s %9" PRIu64 " cases %6" PRIu64 " violations %7.1f s\n", s.name,
                shm->evaluations - e0, shm->nviol - v0, (now_ms() - t1) / 1000.0);
        counter(str("cases[") + s.name + "]") += shm->evaluations - e0;
    }
    std::ofstream o(outdir + "/stats.json");
    o << "{\"evaluations\":" << shm->evaluations << ",\"distinct\":" << shm->ndistinct
      << ",\"violations\":" << shm->nviol << ",\"wall_ms\":" << (now_ms() - t0) << ",\"counters\":{";
    for (int i = 0; i < shm->ncounters; i++)
        o << (i ? "," : "") << "\"" << jesc(shm->counter[i].name) << "\":" << shm->counter[i].n;
    o << "},\"samples\":[";
    for (int i = 0; i < std::min<int>(6, shm->nsample); i++)
        o << (i ? "," : "") << "\"" << jesc(shm->sample[i]) << "\"";
    o << "]}\n";
    return shm->nviol ? 1 : 0;
}
}  // namespace vf

int main(int argc, char** argv) { return vf::main_(argc, argv); }
