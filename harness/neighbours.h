// Instances whose configurations differ in a single parameter, used one after the other in one process: what the second
// computes is what it computes in a process that has used nothing else. (State kept across instances under an incomplete
// key shows up only between such neighbours.)
#pragma once
#include "mc.h"
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstring>
#include <cmath>
namespace nb {
typedef std::vector<double> V;
struct Var { std::string what; std::function<V()> run; };
struct Vars : std::vector<Var> { void add(const std::string &w, std::function<V()> f) { push_back({w, f}); } };
struct Alone { bool ok = false; V v; };
inline std::vector<Alone> &alone() { static std::vector<Alone> a; return a; }
inline Vars &vars() { static Vars v; return v; }
inline std::function<void(Vars &)> &maker() { static std::function<void(Vars &)> m; return m; }
// the reference results: each from a process of its own, forked before the code under test has been used at all
inline void start() {
    maker()(vars());
    for (auto &x : vars()) {
        int p[2]; Alone a; if (pipe(p)) { alone().push_back(a); continue; }
        pid_t c = fork();
        if (c == 0) { close(p[0]); int null = ::open("/dev/null", 1); dup2(null, 1); dup2(null, 2); alarm(5); V v; try { v = x.run(); } catch (...) { _exit(1); } size_t n = v.size() * sizeof(double), at = 0; while (at < n) { ssize_t w = write(p[1], (char *)v.data() + at, n - at); if (w <= 0) _exit(1); at += w; } _exit(0); }
        close(p[1]); std::string s; char buf[65536]; ssize_t r; while ((r = read(p[0], buf, sizeof buf)) > 0) s.append(buf, r); close(p[0]); int st = 1; waitpid(c, &st, 0);
        a.ok = st == 0; a.v.resize(s.size() / sizeof(double)); if (!a.v.empty()) memcpy(a.v.data(), s.data(), a.v.size() * sizeof(double)); alone().push_back(a);
    }
}
inline void check(int i, const V &r, const char *how, int o) {
    const Alone &a = alone()[i]; if (!a.ok) return; // it fails on its own: run() in this process has reported that already
    bool same = a.v.size() == r.size(); size_t k = 0; for (; same && k < r.size(); ++k) same = memcmp(&a.v[k], &r[k], sizeof(double)) == 0 || (std::isnan(a.v[k]) && std::isnan(r[k]));
    mc::require(same, "neighbours", "%s %s %s: results differ from those in a fresh process (value %d of %d: %.17g, alone %.17g)", vars()[i].what.c_str(), how, vars()[o].what.c_str(), (int)k - 1, (int)r.size(), k && k <= r.size() ? r[k - 1] : 0.0, k && k <= a.v.size() ? a.v[k - 1] : 0.0);
}
inline void scenario() {
    int n = (int)vars().size(), a = mc::choose(n, "first"), b = mc::choose(n, "second"); mc::logf("%s then %s", vars()[a].what.c_str(), vars()[b].what.c_str());
    V r = vars()[a].run(); check(a, r, "before", b); r = vars()[b].run(); mc::step(2); check(b, r, "after", a); mc::state(mc::Hash("nb").i(a).i(b));
}
inline V sig(int n, int seed = 1) { V x(n); for (int i = 0; i < n; ++i) x[i] = 0.6 * std::sin(0.07 * (seed + 2) * i) + 0.3 * mc::wave(i, seed + 1); return x; }
inline void app(V &o, const V &x) { o.insert(o.end(), x.begin(), x.end()); }
}
// NEIGHBOURS { v.add("what", [] { ...; return results; }); ... }
#define NEIGHBOURS(BOUNDS) \
    static void nb_make(nb::Vars &v); \
    static int nb_set = (nb::maker() = nb_make, mc::on_start = nb::start, 0); \
    MC_SCENARIO(neighbours, "every ordered pair from " BOUNDS ": the second used after the first in one process gives bitwise the results it gives in a process that has used nothing else", 1, 8) { (void)nb_set; nb::scenario(); } \
    static void nb_make(nb::Vars &v)
