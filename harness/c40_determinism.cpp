// C40: every component's results depend only on its configuration and the calls made on it: not on what memory held before,
// on instances that existed earlier, or on other instances used in between.
#include "drivers.h"
#include <new>
#include <cstdlib>
#include <malloc.h>
#include <xmmintrin.h>
#include <clocale>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" { void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *); }
static int fillByte = -1; // fresh heap memory is filled with this
static long live = 0; // heap bytes held by the code under test and the harness
static void *get(size_t n) { void *p = __real_malloc(n ? n : 1); if (p) live += malloc_usable_size(p); if (p && fillByte >= 0) memset(p, fillByte, malloc_usable_size(p)); return p; }
extern "C" void *__wrap_malloc(size_t n) { return get(n); }
extern "C" void *__wrap_realloc(void *p, size_t n) { size_t old = p ? malloc_usable_size(p) : 0; void *q = get(n); if (p && q) { memcpy(q, p, old < n ? old : n); live -= old; __real_free(p); } return q; }
extern "C" void __wrap_free(void *p) { if (p) { live -= malloc_usable_size(p); if (fillByte >= 0) memset(p, fillByte, malloc_usable_size(p)); } __real_free(p); }
void *operator new(size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
static __attribute__((noinline)) void dirtyStack(int b) { if (b < 0) return; volatile char a[200000]; for (size_t i = 0; i < sizeof a; ++i) a[i] = (char)b; }
// random numbers and the clock belong to the instance under test
static unsigned *rng; static unsigned noRng = 1;
extern "C" int __wrap_rand() { unsigned &r = rng ? *rng : noRng; r = r * 1103515245u + 12345u; return (int)(r >> 1); }
extern "C" void __wrap_srand(unsigned s) { (rng ? *rng : noRng) = s; }
static unsigned clockReads;
extern "C" time_t __wrap_time(time_t *t) { ++clockReads; if (t) *t = 12345; return 12345; }
using drv::V; using drv::C;
// settings of the whole process that other code computes under: SSE and x87 rounding, denormal and trap controls, and the locale
struct Process { unsigned sse; unsigned short x87; std::string locale; Process() : sse(_mm_getcsr() & ~0x3fu), locale(setlocale(LC_ALL, 0)) { asm volatile("fnstcw %0" : "=m"(x87)); } ~Process() { _mm_setcsr(sse); asm volatile("fldcw %0" : : "m"(x87)); setlocale(LC_ALL, locale.c_str()); } };
struct Inst { int k, c; unsigned r; std::unique_ptr<drv::Drv> d; int at; std::vector<V> out; Inst(int k, int c) : k(k), c(c), r(5), at(0) {} void next(int stack) { // one operation: construct, step, step, step, destroy
        Process was; unsigned seed = r, reads = clockReads; rng = &r; dirtyStack(stack); if (at == 0) d.reset(C[k].make(c)); else if (at <= drv::STEPS) { V o; o.reserve(4096); d->step(at - 1, o); out.push_back(o); } else d.reset(); rng = 0; Process now;
        mc::require(now.sse == was.sse && now.x87 == was.x87, "floating-point-mode", "%s (configuration %d), operation %d: leaves the process's floating-point control settings changed (SSE %#x, was %#x; x87 %#x, was %#x)", C[k].name, c, at, now.sse, was.sse, now.x87, was.x87); mc::require(now.locale == was.locale, "locale", "%s: changes the locale to %s", C[k].name, now.locale.c_str());
        mc::require(C[k].random || (r == seed && clockReads == reads), "random", "%s (configuration %d), operation %d: takes random numbers or reads the clock", C[k].name, c, at); ++at; mc::step(); }
    bool done() const { return at == drv::STEPS + 2; } };
// every baseline comes from a process of its own, forked before anything else was used
static std::map<int, std::vector<V>> base;
static std::vector<V> fresh(int k, int c) { int f = fillByte; fillByte = 0; std::vector<V> o; { Inst i(k, c); while (!i.done()) i.next(0); o = i.out; } fillByte = f; return o; }
static void baselines() {
    for (int k = 0; k < drv::N; ++k) for (int c = 0; c < drv::NC; ++c) {
        int p[2]; if (pipe(p)) continue;
        pid_t pid = fork();
        if (pid == 0) { close(p[0]); int null = open("/dev/null", O_WRONLY); dup2(null, 1); dup2(null, 2); alarm(5); std::vector<double> m; try { for (auto &v : fresh(k, c)) { m.push_back(v.size()); m.insert(m.end(), v.begin(), v.end()); } } catch (...) { _exit(1); } size_t n = m.size() * sizeof(double), at = 0; while (at < n) { ssize_t w = write(p[1], (char *)m.data() + at, n - at); if (w <= 0) _exit(1); at += w; } _exit(0); }
        close(p[1]); std::string s; char buf[65536]; ssize_t r; while ((r = read(p[0], buf, sizeof buf)) > 0) s.append(buf, r); close(p[0]); int st = 1; waitpid(pid, &st, 0); if (st) continue;
        V m(s.size() / sizeof(double)); memcpy(m.data(), s.data(), m.size() * sizeof(double)); auto &b = base[drv::NC * k + c]; for (size_t at = 0; at < m.size();) { size_t n = (size_t)m[at++]; b.emplace_back(m.begin() + at, m.begin() + at + n); at += n; }
    }
}
static int hooked = (mc::on_start = baselines, 0);
static const std::vector<V> &baseline(int k, int c) { (void)hooked; auto &x = base[drv::NC * k + c]; if (x.empty()) x = fresh(k, c); return x; }
static void check(const Inst &i, const char *key, const char *how) { const std::vector<V> &b = baseline(i.k, i.c); for (size_t s = 0; s < i.out.size(); ++s) { mc::require(drv::same(i.out[s], b[s]), key, "%s (configuration %d), call %d: result differs from a run on its own in clean memory%s", C[i.k].name, i.c, (int)s, how); } }
static const int F[] = {0xff, 0x7f, 0x01, 0xaa, 0x3f, 0x00};
MC_SCENARIO(memory, "33 components x 4 configurations x 6 heap fill patterns x 6 stack fill patterns x histories of 1..3 calls: bitwise equal results", 1, 32) { int k = mc::choose(drv::N, "component"), c = mc::choose(drv::NC, "config"); baseline(k, c); int h = mc::pick(F, "heap"), s = mc::pick(F, "stack"), n = 1 + mc::choose(drv::STEPS, "calls"); mc::logf("%s", C[k].name); { fillByte = h; Inst i(k, c); for (int j = 0; j <= n; ++j) i.next(s); i.d.reset(); fillByte = -1; check(i, "memory", ", with other memory contents"); } mc::state(mc::Hash("m").i(k).i(c).i(h).i(s).i(n)); }
MC_SCENARIO(after_others, "every ordered pair of (component, configuration): the second used after the first has been used and destroyed, in the memory the first one left behind", 2, 64) { int a = mc::choose(drv::N, "first"), ac = mc::choose(drv::NC, "config"), b = mc::choose(drv::N, "second"), bc = mc::choose(drv::NC, "config"); mc::logf("%s then %s", C[a].name, C[b].name); { Inst i(a, ac); while (!i.done()) i.next(-1); check(i, "before", ""); Inst j(b, bc); while (!j.done()) j.next(-1); check(j, "after-others", ", after another component was used"); Inst l(a, ac); while (!l.done()) l.next(-1); check(l, "again", ", used again"); } mc::state(mc::Hash("a").i(a).i(ac).i(b).i(bc)); }
MC_SCENARIO(interleaved, "two instances of the same component (all configuration pairs): every interleaving of construct, three calls and destroy on each (252)", 4, 64) { int k = mc::choose(drv::N, "component"), c = mc::choose(drv::NC, "config a"), e = mc::choose(drv::NC, "config b"); if (e < c) return; Inst a(k, c), b(k, e); mc::logf("%s", C[k].name); mc::Hash h("i"); h.i(k).i(c).i(e); while (!a.done() || !b.done()) { int w = a.done() ? 1 : b.done() ? 0 : mc::choose(2, "who"); h.i(w); (w ? b : a).next(-1); } check(a, "interleaved", ", interleaved with another instance"); check(b, "interleaved", ", interleaved with another instance"); mc::state(h); }
MC_SCENARIO(interleaved_mixed, "two instances of different components, every unordered pair, all configurations: 2 (thorough 20) interleaving patterns: alternating and nested; thorough: every interleaving of the first 3 operations", 2, 64) { int k = mc::choose(drv::N, "a"), l = mc::choose(drv::N, "b"); if (l <= k) return; Inst a(k, mc::choose(drv::NC, "config a")), b(l, mc::choose(drv::NC, "config b")); mc::logf("%s and %s", C[k].name, C[l].name); int mode = mc::choose(mc::tiered(2, 3), "pattern"); int t = 0, free = mode == 2 ? 6 : 0; while (!a.done() || !b.done()) { int w = a.done() ? 1 : b.done() ? 0 : t < free ? mc::choose(2, "who") : mode == 0 ? t % 2 : t == 0 || t > 5 ? 0 : 1; ++t; (w ? b : a).next(-1); } check(a, "interleaved", ", interleaved with another component"); check(b, "interleaved", ", interleaved with another component"); mc::state(mc::Hash("x").i(k).i(l).i(mode).i(a.c).i(b.c)); }
MC_SCENARIO(abandoned, "every component destroyed after 0..3 calls, 3 instances in a row, then used again: results and heap unchanged", 1, 32) { int k = mc::choose(drv::N, "component"), c = mc::choose(drv::NC, "config"), n = mc::choose(4, "calls"); baseline(k, c); long g[4]; for (int u = 0; u < 4; ++u) { long l = live; { Inst i(k, c); for (int j = 0; j <= n; ++j) i.next(-1); i.d.reset(); } g[u] = live - l; } mc::require(!(g[2] > 0 && g[2] == g[3]), "leak", "%s: every use leaves %ld more heap bytes", C[k].name, g[3]); { Inst i(k, c); while (!i.done()) i.next(-1); check(i, "abandoned", ", after abandoned instances"); } mc::state(mc::Hash("b").i(k).i(c).i(n)); }
