// crash_point.hpp - a child process that dies in a chosen file system call (maybe in the middle
// of a write), at a random instant, or has a call fail; what it got done is kept outside it.
#pragma once
#include <dirent.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstring>
#include <stdexcept>
#include <string>
#include "vf.hpp"

using namespace vf;

namespace {
constexpr int MAXT = 4;
// shared between the worker and its children
struct Board {
    std::atomic<int> armed;       // 0 off, 1 die, 2 fail
    std::atomic<i64> countdown;   // file system calls till then
    std::atomic<u32> part;        // how much of the last write gets through, per mille
    std::atomic<u64> calls;       // calls seen
    std::atomic<u64> died_in_call;
    std::atomic<int> issued[MAXT], acked[MAXT];
    std::atomic<u32> msg_len;
    char key[200], msg[30000];
};
Board* board;
void get_board() {
    if (!board) board = (Board*)mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
template <class F>
F real(const char* n) {
    return (F)dlsym(RTLD_NEXT, n);
}
// -1: go on, 0: fail this call, 1: die in this call
int at_call(int fd) {
    if (!board || !board->armed || (fd >= 0 && fd <= 2)) return -1;
    board->calls++;
    if (board->countdown.fetch_sub(1) != 1) return -1;
    return board->armed == 2 ? 0 : 1;
}
[[noreturn]] void die() {
    board->died_in_call++;
    kill(getpid(), SIGKILL);
    for (;;) pause();
}
}  // namespace

extern "C" {
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }
int fallocate(int, int, off_t, off_t) { errno = EOPNOTSUPP; return -1; }
int sync_file_range(int, off64_t, off64_t, unsigned) { return 0; }
ssize_t write(int fd, const void* b, size_t n) {
    static auto f = real<ssize_t (*)(int, const void*, size_t)>("write");
    int a = at_call(fd);
    if (a < 0) return f(fd, b, n);
    size_t m = n * board->part / 1000;
    if (m) f(fd, b, m);
    if (a) die();
    errno = ENOSPC;
    return -1;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t at) {
    static auto f = real<ssize_t (*)(int, const void*, size_t, off_t)>("pwrite");
    int a = at_call(fd);
    if (a < 0) return f(fd, b, n, at);
    size_t m = n * board->part / 1000;
    if (m) f(fd, b, m, at);
    if (a) die();
    errno = ENOSPC;
    return -1;
}
int rename(const char* x, const char* y) {
    static auto f = real<int (*)(const char*, const char*)>("rename");
    int a = at_call(-1);
    if (a < 0) return f(x, y);
    if (a && board->part >= 500) f(x, y);
    if (a) die();
    errno = EIO;
    return -1;
}
int unlink(const char* x) {
    static auto f = real<int (*)(const char*)>("unlink");
    int a = at_call(-1);
    if (a < 0) return f(x);
    if (a && board->part >= 500) f(x);
    if (a) die();
    errno = EIO;
    return -1;
}
int ftruncate(int fd, off_t n) {
    static auto f = real<int (*)(int, off_t)>("ftruncate");
    int a = at_call(fd);
    if (a < 0) return f(fd, n);
    if (a && board->part >= 500) f(fd, n);
    if (a) die();
    errno = EIO;
    return -1;
}
}

namespace {
// After a call that failed in a log file, and a crash while RocksDB was mending that by itself, RocksDB may
// refuse to open the database for good; that is not the doing of the code under test.
struct Refused {};
void may_refuse(bool failed, const std::string& why) {
    if (failed && why.find("SST file is ahead of WALs") != std::string::npos) throw Refused{};
}
// run in a process of its own; a failed check is passed on. Returns the wait status.
template <class F>
int in_child(Case& c, F fn, bool may_die, u64 kill_after_us = 0, bool may_stall = false) {
    get_board();
    board->msg_len = 0;
    fflush(nullptr);
    int err = memfd_create("stderr", 0);
    pid_t p = fork();
    if (p < 0) throw std::runtime_error("fork");
    if (!p) {
        dup2(err, 2);
        alarm(50);
        try {
            fn();
        } catch (vf::Fail& e) {
            snprintf(board->key, sizeof board->key, "%s", e.key.c_str());
            snprintf(board->msg, sizeof board->msg, "%s", e.msg.c_str());
            board->msg_len = 1;
        } catch (Refused&) {
            c.saw("RocksDB's refusals after a failing call");
        }
        board->armed = 0;
        _exit(0);
    }
    int st = 0;
    if (kill_after_us) {  // so long after the work has begun
        auto begun = [] { for (auto& i : board->issued) if (i) return true; return false; };
        for (int n = 0; n < 200000 && !begun(); n++) {
            if (waitpid(p, &st, WNOHANG) == p) break;
            usleep(50);
        }
        timespec till, t;
        clock_gettime(CLOCK_MONOTONIC, &till);
        till.tv_nsec += (long)kill_after_us * 1000;
        till.tv_sec += till.tv_nsec / 1000000000, till.tv_nsec %= 1000000000;
        do clock_gettime(CLOCK_MONOTONIC, &t);
        while (t.tv_sec < till.tv_sec || (t.tv_sec == till.tv_sec && t.tv_nsec < till.tv_nsec));
        kill(p, SIGKILL);
    }
    if (may_stall) {  // RocksDB may stop all writes for good after a call that failed: what it has acknowledged counts
        auto done = [] { u64 n = 0; for (int t = 0; t < MAXT; t++) n += board->issued[t] + board->acked[t]; return n; };
        u64 was = done();
        for (int same = 0; waitpid(p, &st, WNOHANG) != p; usleep(500)) {
            if (was != done()) was = done(), same = 0;
            if (++same < 5000) continue;
            kill(p, SIGKILL);
            c.saw("stalls after a failing call");
            waitpid(p, &st, 0);
            break;
        }
    } else waitpid(p, &st, 0);
    board->armed = 0;
    str said(4000, 0);
    ssize_t got = pread(err, &said[0], said.size(), 0);
    said.resize(got > 0 ? (size_t)got : 0);
    close(err);
    if (said.size()) fprintf(stderr, "%s", said.c_str());
    if (may_stall && WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) {
        // RocksDB may also stop the process after a call that failed, by an assertion of its own
        size_t a = said.find(": Assertion `"), f = a == str::npos ? a : said.rfind(": ", a - 1);
        if (f != str::npos && said.substr(f, a - f).find("rocksdb::") != str::npos && said.substr(f, a - f).find("ron::") == str::npos) {
            c.saw("RocksDB's assertions after a failing call");
            st = SIGKILL;
        }
    }
    if (board->msg_len) throw vf::Fail{board->key, board->msg};
    if (WIFSIGNALED(st) && !(may_die && WTERMSIG(st) == SIGKILL))
        c.fail(str("child died of signal ") + std::to_string(WTERMSIG(st)), "the process died\n" + said);
    return st;
}
void reset() {
    get_board();
    board->armed = 0;
    board->calls = 0;
    board->died_in_call = 0;
    for (int t = 0; t < MAXT; t++) board->issued[t] = board->acked[t] = 0;
}
void arm(Rng& r, int how, i64 span) {
    board->part = r.chance(40) ? 0 : r.chance(30) ? 1000 : (u32)r.below(1000);
    board->countdown = 1 + (i64)r.below(span);
    board->armed = how;
}
}  // namespace
