// Small exhaustive explorer ("stateless model checker") shared by all harnesses.
//
// A harness is a set of scenarios.  A scenario body is ordinary C++ that drives the
// real qm-dsp code and a boring reference model; every nondeterministic decision
// (operation, argument, chunk size, input sample, scheduling decision, environment
// answer) goes through mc::choose(n).  The runner enumerates *every* choice vector by
// depth-first search, re-executing the body from scratch for each one.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>

namespace mc {

struct Violation { std::string key, msg; };
struct SkipExec {};

// ---- nondeterminism -------------------------------------------------------
int choose(int n, const char *label = 0);       // 0..n-1, all explored
template <class T, size_t N> T pick(const T (&a)[N], const char *label = 0) { return a[choose((int)N, label)]; }
template <class T> T pick(const std::vector<T> &a, const char *label = 0) { return a[choose((int)a.size(), label)]; }

// ---- tiers and bounds -----------------------------------------------------
bool thorough();
inline int tiered(int quick, int thor) { return thorough() ? thor : quick; }

// ---- oracle ---------------------------------------------------------------
[[noreturn]] void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void evals(uint64_t n = 1);          // oracle comparisons made
void step(uint64_t n = 1);           // transitions: operations executed on the implementation
void state(uint64_t h);              // abstract (reference-model) state reached
void outcome(uint64_t h);            // distinct observed outcome
bool recording();                    // is this execution's log being kept?
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
const char *scenario_name();

inline bool close(double a, double b, double tol = 1e-9) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
    return std::fabs(a - b) <= tol * (m > 1 ? m : 1);
}
inline void check_close(double got, double want, double tol, const char *key, const char *what, long i = -1) {
    evals();
    if (!close(got, want, tol))
        fail(key, "%s[%ld]: got %.17g, reference model says %.17g", what, i, got, want);
}
inline void check_vec(const std::vector<double> &got, const std::vector<double> &want, double tol, const char *key, const char *what) {
    evals();
    if (got.size() != want.size()) fail(key, "%s: got %zu values, reference model says %zu", what, got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i) check_close(got[i], want[i], tol, key, what, (long)i);
}
inline void require(bool ok, const char *key, const char *fmt, ...) {
    evals();
    if (ok) return;
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fail(key, "%s", b);
}

// ---- hashing --------------------------------------------------------------
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h;
}
struct Hash {
    uint64_t h;
    explicit Hash(const char *tag = "") : h(1469598103934665603ULL) { for (; *tag; ++tag) h = mix(h, (unsigned char)*tag); }
    Hash &i(long long v) { h = mix(h, (uint64_t)v); return *this; }
    Hash &d(double v) { // quantised: equal up to ~1e-9 relative noise is *usually* the same state; only a statistic
        if (std::isnan(v)) return i(0x7ff8); float f = (float)v; uint32_t u; memcpy(&u, &f, 4); h = mix(h, u); return *this; }
    template <class V> Hash &vec(const V &v) { i((long long)v.size()); for (size_t k = 0; k < v.size(); ++k) d((double)v[k]); return *this; }
    operator uint64_t() const { return h; }
};

// ---- leak oracle ----------------------------------------------------------
// Runs body several times; a leak is heap memory still live after each run, by the same
// non-zero amount every time (a cache that is filled once does not count).
void leak_check(const char *key, const std::function<void()> &body);
// live heap bytes right now (allocation hooks); 0 in non-sanitizer flavours
long live_bytes();

// ---- deterministic pseudo-data (never a random choice: fixed functions of the index) ---
inline double wave(long i, int seed = 0) {
    uint64_t x = (uint64_t)i * 0x9E3779B97F4A7C15ULL + (uint64_t)(seed + 1) * 0xBF58476D1CE4E5B9ULL;
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 27; x *= 0x94D049BB133111EBULL; x ^= x >> 31;
    return (double)(int64_t)(x >> 11) / (double)(1LL << 52) - 1.0;
}

// ---- registration ---------------------------------------------------------
struct Scenario {
    const char *name; void (*body)(); const char *bounds; int shardDepth; int shards; int tierMask; // 1 quick 2 thorough
    Scenario(const char *n, void (*b)(), const char *bounds_, int sd, int sh, int tm);
};
// abort hook: harnesses that run on fibres switch back to the main context here
extern void (*abort_hook)();
// runs in the main process before anything else has been used
extern void (*on_start)();
extern bool in_fiber;
}

// MC_SCENARIO(name, "bounds description", shardDepth, shards): body follows
#define MC_SCENARIO_T(NAME, BOUNDS, SD, SH, TM) \
    static void mc_body_##NAME(); \
    static mc::Scenario mc_reg_##NAME(#NAME, mc_body_##NAME, BOUNDS, SD, SH, TM); \
    static void mc_body_##NAME()
#define MC_SCENARIO(NAME, BOUNDS, SD, SH) MC_SCENARIO_T(NAME, BOUNDS, SD, SH, 3)
