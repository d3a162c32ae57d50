// C20: MedianFilter is the exact order statistic of the last n pushed values (zeros before the start).
#include "mc.h"
#include "refdsp.h"
#include "maths/MedianFilter.h"
#include <deque>
#include "neighbours.h"
template <class T> struct Ref { int n; float pc; std::deque<T> w; Ref(int n_, float p) : n(n_), pc(p) { reset(); } void reset() { w.assign(n, T(0)); } void push(T v) { w.pop_front(); w.push_back(v != v ? T(0) : v); } T at(float p) const { std::vector<T> s(w.begin(), w.end()); std::sort(s.begin(), s.end()); int ix = int(n * p / 100.f); if (ix >= n) ix = n - 1; if (ix < 0) ix = 0; return s[ix]; } T get() const { return at(pc); } };
static const float PC[] = {50, 0, 100, 25, 75, 33.3f};
template <class T> static void compare(MedianFilter<T> &f, const Ref<T> &r) { mc::evals(); if (!(f.get() == r.get())) mc::fail("order-statistic", "get()=%g, the order statistic of the window is %g (size %d, percentile %g)", (double)f.get(), (double)r.get(), r.n, r.pc); for (float p : PC) if (!(f.getAt(p) == r.at(p))) mc::fail("percentile", "getAt(%g)=%g, expected %g", p, (double)f.getAt(p), (double)r.at(p)); if (f.getSize() != r.n) mc::fail("size", "getSize()=%d", f.getSize()); }
MC_SCENARIO(words, "double, sizes 1..6, percentiles 50,0,100,25: every push word of length 7 (thorough 8) over {0,1,-1,2}", 3, 64) { int n = 1 + mc::choose(6, "size"); float pc = PC[mc::choose(4, "pc")]; MedianFilter<double> f(n, pc); Ref<double> r(n, pc); static const double al[] = {0, 1, -1, 2}; compare(f, r); for (int i = 0; i < mc::tiered(7, 8); ++i) { double v = mc::pick(al, "v"); f.push(v); r.push(v); mc::step(); compare(f, r); mc::Hash h("w"); h.i(n); for (double d : r.w) h.d(d); mc::state(h); } }
template <class T> static void hist(int depth) { int n = 1 + mc::choose(5, "size"); MedianFilter<T> f(n); Ref<T> r(n, 50); for (int d = 0; d < depth; ++d) { int op = mc::choose(7, "op"); mc::step(); if (op == 0) { f.reset(); r.reset(); } else if (op == 1) { f.setPercentile(90); r.pc = 90; } else if (op == 2) { f.setPercentile(10); r.pc = 10; } else { T v = op == 3 ? T(3) : op == 4 ? T(-2) : op == 5 ? T(d) : std::numeric_limits<T>::has_quiet_NaN ? std::numeric_limits<T>::quiet_NaN() : T(7); f.push(v); r.push(v); } compare(f, r); mc::Hash h("h"); h.i(n).d(r.pc); for (T t : r.w) h.d((double)t); mc::state(h); } }
MC_SCENARIO(histories, "double/float/int, sizes 1..5: every sequence of 6 (thorough 7) operations from {push 3, push -2, push increasing, push NaN, setPercentile 90/10, reset}", 3, 64) { int t = mc::choose(3, "type"), d = mc::tiered(6, 7); if (t == 0) hist<double>(d); else if (t == 1) hist<float>(d); else hist<int>(d); }
MC_SCENARIO(whole, "static filter(): every word over {0,1,3} of length 0..8 (thorough 9) and sizes 1..7: centred running median, zero-extended, same length", 2, 32) { int n = 1 + mc::choose(7, "size"), L = mc::choose(mc::tiered(9, 10), "len"); std::vector<double> x; static const double al[] = {1, 0, 3}; for (int i = 0; i < L; ++i) x.push_back(mc::pick(al, "x")); std::vector<double> got = MedianFilter<double>::filter(n, x), want; mc::step();
    for (int i = 0; i < L; ++i) { std::vector<double> w; int last = i + n / 2; for (int k = last - n + 1; k <= last; ++k) w.push_back(k >= 0 && k < L ? x[k] : 0); std::sort(w.begin(), w.end()); want.push_back(w[n / 2 < n ? int(n * 50.f / 100.f) : n - 1]); } mc::check_vec(got, want, 0, "static-filter", "filtered"); mc::state(mc::Hash("s").i(n).vec(x)); }
MC_SCENARIO(percentiles, "sizes 1..25, 40, 50, 64, 100, 101, 128, 200, every integer percentile -10..110 via constructor, setPercentile and getAt", 1, 8) { int n = 1 + mc::choose(32, "n"); static const int big[] = {40, 50, 64, 100, 101, 128, 200}; if (n > 25) n = big[n - 26]; int p = mc::choose(121, "p") - 10; MedianFilter<double> f(n, (float)p), g(n); g.setPercentile((float)p); Ref<double> r(n, (float)p); for (int i = 0; i < n; ++i) { double v = n > 25 ? mc::wave(i, 1) : (i * 7) % 25; f.push(v); g.push(v); r.push(v); } mc::step(2 * n); mc::require(f.get() == r.get() && g.get() == r.get() && g.getAt((float)p) == r.get(), "percentile", "size %d percentile %d", n, p); mc::state(mc::Hash("p").i(n).i(p)); }
MC_SCENARIO(longrun, "sizes 1,2,3,10,101: 2000 pushes in 3 patterns, compared throughout", 1, 5) { static const int S[] = {1, 2, 3, 10, 101}; int n = mc::pick(S, "n"), k = mc::choose(3, "pat"); MedianFilter<double> f(n, 50); Ref<double> r(n, 50); for (int i = 0; i < 2000; ++i) { double v = k == 0 ? mc::wave(i, 1) : k == 1 ? i % 5 : 1e6 - i; f.push(v); r.push(v); compare(f, r); } mc::step(2000); mc::state(mc::Hash("l").i(n).i(k)); }
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int n = 1 + mc::choose(3); mc::leak_check("leak", [&] { MedianFilter<double> f(n); f.push(1); f.reset(); }); mc::state(n); }
MC_SCENARIO(extremes, "double/float/int, sizes 1,2,3,5: every push word of length 5 (thorough 6) over {0, largest, most negative, 1e-300, infinity, -infinity, -0, 1}", 3, 32) { auto go = [&](auto z) { typedef decltype(z) T; static const int S[] = {3, 1, 2, 5}; int n = mc::pick(S, "size"); MedianFilter<T> f(n); Ref<T> r(n, 50); typedef std::numeric_limits<T> N; const T al[] = {T(1), N::max(), N::lowest(), N::min(), N::has_infinity ? N::infinity() : T(5), N::has_infinity ? T(-N::infinity()) : T(-5), T(-0.0), T(0)}; mc::Hash h("x"); for (int i = 0; i < mc::tiered(5, 6); ++i) { T v = al[mc::choose(8, "v")]; f.push(v); r.push(v); mc::step(); compare(f, r); h.d((double)v); } mc::state(h.i(n)); }; int t = mc::choose(3, "type"); if (t == 0) go(double()); else if (t == 1) go(float()); else go(int()); }
MC_SCENARIO(very_large, "double/float/int, sizes 1000, 1023, 5000, 33000: filled and beyond in 3 patterns, percentiles 50, 10, 99.5 compared at 60 points of the history, reset, and whole-signal filtering of 3000 samples by definition", 2, 15) {
    auto go = [&](auto z, int ty) { typedef decltype(z) T; static const int S[] = {1000, 1023, 5000, 33000}; int n = mc::pick(S, "size"), pat = n > 5000 ? 0 : mc::choose(3, "pattern"); static const float P[] = {50, 10, 99.5f}; float pc = P[mc::choose(n > 5000 ? 1 : 3, "percentile")]; MedianFilter<T> f(n, pc); Ref<T> r(n, pc); int total = n > 5000 ? n + 2000 : 2 * n + 10; for (int i = 0; i < total; ++i) { T v = pat == 0 ? T(100000 * mc::wave(i, 1)) : pat == 1 ? T(i % 7) : T(1000000 - 3 * i); f.push(v); r.push(v); if (i % (total / 60) == 0 || i == n - 1 || i == n) compare(f, r); if (i == n + 5 && n <= 5000) { f.reset(); r.reset(); compare(f, r); } } compare(f, r); mc::step(total);
        if (n <= 1023 && pat == 0) { std::vector<T> x; for (int i = 0; i < 3000; ++i) x.push_back(T(1000 * mc::wave(i, 2))); std::vector<T> got = MedianFilter<T>::filter(n, x); mc::require(got.size() == x.size(), "length", "filter returned %zu values", got.size()); for (int i = 0; i < 3000; i += 37) { std::vector<T> w; int after = n / 2; for (int j = i + after - n + 1; j <= i + after; ++j) w.push_back(j >= 0 && j < 3000 ? x[j] : T(0)); std::sort(w.begin(), w.end()); mc::require(got[i] == w[n / 2], "whole", "value %d is %g, the running median is %g", i, (double)got[i], (double)w[n / 2]); } } mc::state(mc::Hash("v").i(ty).i(n).i(pat).d(pc)); };
    int t = mc::choose(3, "type"); if (t == 0) go(double(), 0); else if (t == 1) go(float(), 1); else go(int(), 2);
}
NEIGHBOURS("9 filters that differ in size or percentile") {
    for (int n : {4, 5, 300}) for (int p : {0, 50, 75}) v.add("filter of " + std::to_string(n) + " at " + std::to_string(p), [n, p] { MedianFilter<double> m(n, p); nb::V o; for (double d : nb::sig(40)) { m.push(d); o.push_back(m.get()); } nb::app(o, MedianFilter<double>::filter(n, nb::sig(30, 3))); return o; });
}
