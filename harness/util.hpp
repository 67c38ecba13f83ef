#pragma once
// Shared by every harness: random numbers, violation reporting, counters, trace.
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace util {

struct rng_t {
    uint64_t s;
    explicit rng_t(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) u64(); }
    uint64_t u64() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); } // inclusive
    bool chance(double p) { return double(u64() >> 11) / 9007199254740992.0 < p; }
    template <class V> auto &pick(V &v) { return v[below(v.size())]; }
    template <class V> void shuffle(V &v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

inline std::string vfmt(const char *f, va_list ap) {
    char buf[1024];
    va_list ap2; va_copy(ap2, ap);
    int n = vsnprintf(buf, sizeof buf, f, ap);
    if (n < int(sizeof buf)) { va_end(ap2); return std::string(buf, n > 0 ? n : 0); }
    std::string s(n + 1, 0);
    vsnprintf(&s[0], n + 1, f, ap2); va_end(ap2); s.resize(n);
    return s;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s; }

struct violation_t { std::string prop, what; };

struct run_t { // the whole process
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<violation_t> violations; // of the current case
    std::vector<std::string> trace;      // of the current case
    uint64_t trace_hash = 0;
    bool verbose = false;
    void begin_case() { violations.clear(); trace.clear(); trace_hash = 1469598103934665603ull; }
    void hash(const std::string &s) { for (unsigned char c : s) { trace_hash ^= c; trace_hash *= 1099511628211ull; } trace_hash ^= 0x5bd1e995; }
};
inline run_t R;

inline void tracef(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline const unsigned long long *trace_clock = nullptr; // verbose output is stamped with it
inline void tracef(const char *f, ...) {
    va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap);
    R.hash(s);
    if (R.verbose) { if (trace_clock) fprintf(stderr, "  | %llu %s\n", *trace_clock, s.c_str()); else fprintf(stderr, "  | %s\n", s.c_str()); }
    if (R.trace.size() < 20000) R.trace.push_back(std::move(s));
}
inline void violate(const char *prop, const char *f, ...) __attribute__((format(printf, 2, 3)));
inline void violate(const char *prop, const char *f, ...) {
    va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap);
    if (R.violations.size() < 50) R.violations.push_back({prop, s});
    R.trace.push_back("*** " + std::string(prop) + " " + s);
    if (R.verbose) fprintf(stderr, "*** %s %s\n", prop, s.c_str());
}
inline void count(const std::string &k, uint64_t n = 1) { R.counters[k] += n; }
} // namespace util
