// C06: distinct instances share no hidden mutable state: threads using different instances never touch common memory unordered.
#include "drivers.h"
#include "threads.h"
using drv::V; using drv::C;
static void work(int k, int c, std::vector<V> &out) { std::unique_ptr<drv::Drv> d(C[k].make(c)); for (int i = 0; i < drv::STEPS; ++i) { V o; d->step(i, o); out.push_back(o); } }
struct Use { int k, c; };
// A happens-before race check over one schedule decides all of them: if no two threads make unordered conflicting accesses,
// every interleaving is equivalent to this one (a single Mazurkiewicz trace).
static void together(const std::vector<Use> &u, bool compare, const char *only = "", const char *except = "") {
    std::vector<std::vector<V> > got(u.size()), solo(u.size()); sched::Options o; o.raceAll = true; o.fixedOrder = true; o.maxSteps = 1000000; o.randIsShared = false; sched::failOnRace = false;
    sched::run(o, [&] { std::vector<std::unique_ptr<Body> > t; for (size_t i = 0; i < u.size(); ++i) t.emplace_back(new Body([&, i] { work(u[i].k, u[i].c, got[i]); })); for (auto &x : t) x->start(); for (auto &x : t) x->wait(); });
    std::vector<std::string> r = sched::races(); sched::Stats s = sched::stats(); mc::step(s.accesses); mc::require(s.accesses > 0, "instrumented", "no accesses seen"); for (auto &x : r) mc::logf("%s", x.c_str()); for (auto &x : r) { size_t p = x.find(" write in "), e = x.find(' ', p + 10); if (x.find(only) != std::string::npos && !(*except && (x.find(" in dlamch_") != std::string::npos || x.find(" in cblas_dgemm") != std::string::npos))) mc::fail(("shared-state:" + x.substr(p + 10, e == std::string::npos ? e : e - p - 10)).c_str(), "%d conflicting accesses between instances in different threads: %s", (int)s.conflicts, x.c_str()); }
    if (compare) for (size_t i = 0; i < u.size(); ++i) { work(u[i].k, u[i].c, solo[i]); for (size_t j = 0; j < got[i].size(); ++j) mc::require(drv::same(got[i][j], solo[i][j]), "result", "%s: result of call %d in a thread differs from a run on its own", C[u[i].k].name, (int)j); }
    mc::outcome(mc::Hash("t").i(s.threads));
}
MC_SCENARIO(same_component, "two threads each using its own instance of the same component, all configuration pairs: no unordered conflicting access to any memory, so every interleaving gives the same results", 2, 132) { int k = mc::choose(drv::N, "component"), c = mc::choose(drv::NC, "config a"), d = mc::choose(drv::NC, "config b"); if (C[k].random || d < c) return; mc::logf("%s", C[k].name); together({{k, c}, {k, d}}, true); mc::state(mc::Hash("s").i(k).i(c).i(d)); }
MC_SCENARIO(first_use, "five threads using their own instances at once, first use of the component in the process", 1, 32) { int k = mc::choose(drv::N, "component"); if (C[k].random) return; together({{k, 0}, {k, 1}, {k, 2}, {k, 3}, {k, 0}}, false); mc::state(mc::Hash("f").i(k)); }
MC_SCENARIO(everything, "all components in all four configurations at once, one thread each (124 threads)", 0, 1) { std::vector<Use> u; for (int k = 0; k < drv::N; ++k) for (int c = 0; c < drv::NC; ++c) if (!C[k].random) u.push_back({k, c}); together(u, true); mc::state(1); }
MC_SCENARIO_T(pairs, "every unordered pair of different components and every configuration", 2, 96, 2) { int k = mc::choose(drv::N, "a"), l = mc::choose(drv::N, "b"); if (l <= k || C[k].random || C[l].random) return; int c = mc::choose(16, "configs"); together({{k, c & 3}, {l, c >> 2}}, true); mc::state(mc::Hash("p").i(k).i(l).i(c)); }
MC_SCENARIO(random_components, "HMM training and the segmenter in two threads, all configuration pairs (component already used once): nothing shared except the C library's random number generator (and the bundled BLAS's own globals, see bundled_blas)", 2, 12) { int k = mc::choose(drv::N, "component"), c = mc::choose(drv::NC, "config a"), d = mc::choose(drv::NC, "config b"); if (!C[k].random || d < c) return; mc::logf("%s", C[k].name); std::vector<V> warm; work(k, 0, warm); together({{k, c}, {k, d}}, false, "", "bundled"); mc::state(mc::Hash("r").i(k).i(c).i(d)); }
MC_SCENARIO(bundled_blas, "HMM training in two threads: the bundled LAPACK/BLAS routines with static state", 1, 2) { int w = mc::choose(2, "routine"), k = 0; while (strcmp(C[k].name, w ? "Segmenter" : "HMM")) ++k; together({{k, 1}, {k, 1}}, false, w ? " in cblas_dgemm" : " in dlamc"); mc::state(w); }
