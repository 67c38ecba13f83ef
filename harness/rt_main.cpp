// Driver of the workloads on real event loops.
#include "rt.hpp"
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <dlfcn.h>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/lsan_interface.h>
#define RT_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define RT_TSAN 1
#endif
#endif
// A loop is held for a moment right before it falls asleep, and after it has been awakened: that is when wake-ups get lost.
// (ThreadSanitizer has interceptors of its own for these calls.)
namespace rt { namespace {
std::atomic<uint32_t> sleep_delay_us{0}, sleep_delay_nth{1}; std::atomic<uint64_t> delayed{0};
void before_sleep() {
    auto limit = sleep_delay_us.load(relaxed);
    if (!limit) return;
    static thread_local uint64_t x = my_id() * 0x9E3779B97F4A7C15ull;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    if (x % sleep_delay_nth.load(relaxed)) return;
    delayed.fetch_add(1, relaxed);
    nap(int64_t((x >> 20) % limit));
}
template <class F> F real_fn(const char *n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
} }
#ifndef RT_TSAN
#define RT_WRAP(name, params, args) extern "C" int name params { static auto f = rt::real_fn<int (*) params>(#name); rt::before_sleep(); return f args; }
RT_WRAP(pthread_cond_wait, (pthread_cond_t *c, pthread_mutex_t *m), (c, m))
RT_WRAP(pthread_cond_timedwait, (pthread_cond_t *c, pthread_mutex_t *m, const timespec *t), (c, m, t))
RT_WRAP(pthread_cond_clockwait, (pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t), (c, m, k, t))
RT_WRAP(epoll_wait, (int e, epoll_event *v, int n, int t), (e, v, n, t))
RT_WRAP(select, (int n, fd_set *a, fd_set *b, fd_set *c, timeval *t), (n, a, b, c, t))
RT_WRAP(poll, (pollfd *p, nfds_t n, int t), (p, n, t))
#endif
namespace rt {
std::map<std::string, workload_fn> &registry() { static std::map<std::string, workload_fn> m; return m; }
namespace {
std::mutex await_lock; std::string await_what, await_prop;
struct found_t { std::string prop, what; uint64_t c; };
std::vector<found_t> found; std::map<std::string, int> per_prop;
std::atomic<uint64_t> cur_case{0}; uint64_t done = 0;
std::string json(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += char(c); }
    return o + "\"";
}
void collect() { for (auto &v : R.violations) if (per_prop[v.prop]++ < 5) found.push_back({v.prop, v.what, cur_case}); R.violations.clear(); }
void report() { // under big_lock or single threaded
    std::string o = "{\"cases\":" + std::to_string(done) + ",\"distinct\":["; bool first = true;
    for (auto h : R.distinct) { o += (first ? "" : ",") + std::to_string(h); first = false; }
    o += "],\"counters\":{"; first = true;
    for (auto &c : R.counters) { o += (first ? "" : ",") + json(c.first) + ":" + std::to_string(c.second); first = false; }
    o += "},\"violations\":["; first = true;
    for (auto &f : found) { o += std::string(first ? "" : ",") + "{\"prop\":" + json(f.prop) + ",\"what\":" + json(f.what) + ",\"case\":" + std::to_string(f.c) + "}"; first = false; }
    o += "]}\n";
    (void)!write(1, o.data(), o.size());
}
void watchdog() {
    double limit = getenv("RT_STALL") ? atof(getenv("RT_STALL")) : 20; // seconds without any progress, of a machine which gives us time
    uint64_t last = ~0ull; double idle = 0; auto prev = clk::now();
    for (;;) {
        std::this_thread::sleep_for(std::chrono::milliseconds(20));
        auto now = clk::now(); double d = us_between(prev, now) / 1e6; prev = now;
        auto p = progress.load(relaxed);
        if (p != last) { last = p; idle = 0; continue; }
        idle += d < 0.2 ? d : 0.02; // the machine itself stalls: not counted
        if (idle < limit) continue;
        std::lock_guard<std::mutex> l(await_lock);
        if (await_what.empty()) { idle = 0; continue; }
        std::lock_guard<std::mutex> l2(big_lock);
        violate(await_prop.c_str(), "nothing happens for %d seconds, still awaited: %s", int(limit), (await_what + (stall_info ? stall_info() : "")).c_str());
        collect(); done++; report();
        if (getenv("RT_ABORT")) abort();
        _exit(1);
    }
}
} // namespace
void awaiting(const char *prop, const std::string &what) { std::lock_guard<std::mutex> l(await_lock); await_prop = prop; await_what = what; tick(); }
void not_awaiting() { std::lock_guard<std::mutex> l(await_lock); await_what.clear(); tick(); }
} // namespace rt

using namespace rt;
int main(int argc, char **argv) {
    uint64_t seed = 1, from = 0, to = 1, leak_every = 10; std::string wl; const char *progress_file = nullptr;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--workload") wl = v;
        else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--from") from = strtoull(v.c_str(), 0, 10);
        else if (a == "--to") to = strtoull(v.c_str(), 0, 10);
        else if (a == "--verbose") R.verbose = v != "0";
        else if (a == "--progress") progress_file = argv[i + 1];
        else if (a == "--leak-every") leak_every = strtoull(v.c_str(), 0, 10);
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    auto it = rt::registry().find(wl);
    if (it == rt::registry().end()) { fprintf(stderr, "unknown workload '%s'\n", wl.c_str()); return 3; }
    unsetenv("DISPLAY"); if (getenv("RT_INSPECT")) { setenv("ROTOR_INSPECT_DELIVERY", "99", 1); std::cout << std::unitbuf; } else unsetenv("ROTOR_INSPECT_DELIVERY");
    if (!R.verbose) std::cout.setstate(std::ios_base::badbit);
    int pfd = progress_file ? open(progress_file, O_WRONLY | O_CREAT | O_TRUNC, 0644) : -1;
    uint64_t hseed = seed; for (char c : wl) hseed = hseed * 1000003 + (unsigned char)c;
    std::thread(watchdog).detach();
    uint64_t batch = from;
    for (uint64_t c = from; c < to; ++c) {
        cur_case = c;
        if (pfd >= 0) { auto s = fmt("%-20llu", (unsigned long long)c); (void)!pwrite(pfd, s.data(), s.size(), 0); }
        { std::lock_guard<std::mutex> l(big_lock); R.begin_case(); }
        {
            rng_t g(hseed * 0x9E3779B97F4A7C15ull + c * 0xD1B54A32D192ED03ull);
            { rng_t h(hseed ^ c * 0x2545F4914F6CDD1Dull); sleep_delay_us.store(h.chance(0.5) ? uint32_t(h.range(100, 3000)) : 0, relaxed); sleep_delay_nth.store(uint32_t(h.chance(0.3) ? 1 : h.range(2, 10)), relaxed); }
            it->second(g);
        }
        not_awaiting();
        if (auto n = delayed.exchange(0, relaxed)) seen("delays right before the sleep of a loop", n);
        std::lock_guard<std::mutex> l(big_lock);
        done++;
        R.distinct.insert(R.trace_hash);
        collect();
#ifdef RT_ASAN
        if (leak_every && ((c + 1 - from) % leak_every == 0 || c + 1 == to)) {
            if (__lsan_do_recoverable_leak_check()) { found.push_back({"P15", "memory leaked (see the report of LeakSanitizer)", batch}); fprintf(stderr, "LEAK in cases %llu..%llu\n", (unsigned long long)batch, (unsigned long long)c); leak_every = 0; }
            batch = c + 1;
        }
#else
        (void)batch;
#endif
    }
    std::lock_guard<std::mutex> l(big_lock);
    report();
    _exit(found.empty() ? 0 : 1);
}
