// C37: tonal centroid (TonalEstimator), TCSGram bookkeeping, and the harmonic change detection function.
#include "mc.h"
#include "dsp/tonal/TonalEstimator.h"
#include "dsp/tonal/TCSgram.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
#include <new>
#include <cstring>
#include "neighbours.h"
typedef std::vector<double> V;
static V centroid(const V &c) { static const double R[] = {1, 0.6, 1.1}; static const int S[] = {7, 4, 9}; V t(6, 0.0); for (int p = 0; p < 12; ++p) for (int k = 0; k < 3; ++k) { double a = 2 * M_PI * ((S[k] * p) % 12) / 12.0; t[2 * k] += R[k] * std::sin(a) * c[p]; t[2 * k + 1] += R[k] * std::cos(a) * c[p]; } return t; }
static V vec(const std::valarray<double> &v) { return V(std::begin(v), std::end(v)); }
static void checkChroma(TonalEstimator &e, const V &c) { ChromaVector v; for (int i = 0; i < 12; ++i) v[i] = c[i]; TCSVector t = e.transform2TCS(v); mc::step(); mc::require(vec(v) == c, "input-modified", "chroma changed"); V w = centroid(c); mc::check_vec(vec(t), w, 1e-9, "centroid", "centroid"); double m = 0; for (double d : w) m += d * d; mc::check_close(t.magnitude(), std::sqrt(m), 1e-9, "magnitude", "magnitude", 0); }
MC_SCENARIO(chords, "every subset of the 12 pitch classes x 3 weightings: the six coordinates on the circles of fifths, major and minor thirds", 1, 12) { int lo = mc::choose(12, "w"), kind = lo % 3, part = lo / 3; TonalEstimator e; for (int s = part; s < 4096; s += 4) { V c(12, 0.0); for (int i = 0; i < 12; ++i) if (s >> i & 1) c[i] = kind == 0 ? 1 : kind == 1 ? 0.25 + 0.1 * i : 100 * mc::wave(i, s % 7); checkChroma(e, c); mc::state(mc::Hash("c").i(kind).i(s)); } }
MC_SCENARIO(levels, "every assignment of 3 levels {0, 0.5, -2} to 9 (thorough 12) pitch classes", 4, 81) { TonalEstimator e; V c(12, 0.0); int n = mc::tiered(9, 12); static const double L[] = {0, 0.5, -2}; mc::Hash h("l"); for (int i = 0; i < n; ++i) { c[(i * 5) % 12] = mc::pick(L, "level"); h.d(c[(i * 5) % 12]); } checkChroma(e, c); mc::state(h); }
MC_SCENARIO(chroma_vector, "every vector of 0..6 bins over {0, 1, -3, 1e-9} and vectors of 12, 24, 36: L1 normalisation, near-silence becomes zero, clear", 2, 9) {
    int n = mc::choose(10, "n"); if (n > 6) n = (n - 6) * 12; ChromaVector v(n); mc::require((int)v.size() == n, "size", "size"); static const double E[] = {0, 1, -3, 1e-9}; mc::Hash h("v"); h.i(n); V x; for (int i = 0; i < n; ++i) { mc::require(v[i] == 0, "zero", "new vector not zero"); x.push_back(n <= 6 ? mc::pick(E, "e") : 10 * mc::wave(i, 4)); v[i] = x[i]; h.d(x[i]); } double s = 0; for (double d : x) s += std::fabs(d);
    v.normalizeL1(); mc::step(); for (int i = 0; i < n; ++i) mc::check_close(v[i], s > 1e-7 ? x[i] / s : 0.0, 1e-12, "l1", "normalised", i); v.clear(); for (int i = 0; i < n; ++i) mc::require(v[i] == 0, "clear", "bin %d not cleared", i); mc::state(h);
}
static TCSVector tcs(int k, int i) { TCSVector t; for (int j = 0; j < 6; ++j) t[j] = k == 0 ? 0 : k == 1 ? (j == 1) : k == 2 ? -0.5 * (j + 1) : mc::wave(6 * i + j, 3); return t; }
enum { ADD1, ADD2, CLEAR, DUR, RESERVE, NOPS };
MC_SCENARIO(gram, "every history of 7 (thorough 9) calls from {add A, add B, clear, change frame duration, reserve} on objects built in dirty memory: vectors, times and duration", 3, 50) {
    alignas(TCSGram) static unsigned char mem[sizeof(TCSGram)]; memset(mem, mc::choose(2, "dirt") ? 0x7f : 0xff, sizeof mem); TCSGram &g = *new (mem) TCSGram; double dur = 0; std::vector<V> m; std::vector<long> at; mc::Hash h("g"); int n = mc::tiered(7, 9);
    for (int o = 0; o < n; ++o) { int op = mc::choose(NOPS, "op"); h.i(op); mc::step(); if (op <= ADD2) { TCSVector t = tcs(op + 2, o); at.push_back((long)(m.size() * dur)); m.push_back(vec(t)); g.addTCSVector(t); } else if (op == CLEAR) { g.clear(); m.clear(); at.clear(); } else if (op == DUR) { dur = dur == 92.9 ? 10 : 92.9; g.setFrameDuration(dur); } else g.reserve(20);
        mc::require(g.getSize() == (int)m.size() && g.getDuration() == (long)(m.size() * dur), "duration", "size %d duration %ld, expected %d and %ld", g.getSize(), g.getDuration(), (int)m.size(), (long)(m.size() * dur)); }
    for (int i = -2; i < (int)m.size() + 2; ++i) { TCSVector t; t[0] = 99; g.getTCSVector(i, t); bool in = i >= 0 && i < (int)m.size(); mc::require(vec(t) == (in ? m[i] : V(6, 0.0)), "vector", "vector %d of %d wrong", i, (int)m.size()); if (in) mc::require(g.getTime(i) == at[i], "time", "time %ld expected %ld", g.getTime(i), at[i]); } g.~TCSGram(); mc::state(h);
}
static void checkChange(const std::vector<V> &x, int width, bool reuse) {
    TCSGram g; g.setFrameDuration(50); for (auto &v : x) { TCSVector t; for (int j = 0; j < 6; ++j) t[j] = v[j]; g.addTCSVector(t); } ChangeDFConfig c; c.smoothingWidth = width; ChangeDetectionFunction f(c); if (reuse) { TCSGram o; for (int i = 0; i < 3; ++i) o.addTCSVector(tcs(3, i)); f.process(o); } V got = vec(f.process(g)); mc::step(); int n = (int)x.size(); double sigma = (2 * width + 1) / (2 * 2.3548);
    auto S = [&](int i) { V s(6, 0.0); if (i >= 0 && i < n) for (int k = std::max(0, i - width); k <= std::min(n - 1, i + width); ++k) { double w = std::exp(-(k - i) * (k - i) / (2 * sigma * sigma)) / (sigma * std::sqrt(2 * M_PI)); for (int j = 0; j < 6; ++j) s[j] += w * x[k][j]; } return s; };
    V want; for (int i = 0; i < n; ++i) { V a = S(i - 1), b = S(i + 1); double d = 0; for (int j = 0; j < 6; ++j) d += (a[j] - b[j]) * (a[j] - b[j]); want.push_back(std::sqrt(d)); } mc::check_vec(got, want, 1e-9, "change", "change"); for (int i = 0; i < n; ++i) mc::require(vec([&] { TCSVector t; g.getTCSVector(i, t); return t; }()) == x[i], "input-modified", "gram changed");
}
MC_SCENARIO(change_words, "every sequence of 0..6 (thorough 8) centroids from 4 kinds x smoothing widths 0..4, fresh and reused: distance between the Gaussian-smoothed neighbours", 3, 40) { int w = mc::choose(5, "width"), r = mc::choose(2, "reuse"), n = mc::choose(mc::tiered(7, 9), "n"); std::vector<V> x; mc::Hash h("c"); h.i(w).i(r); for (int i = 0; i < n; ++i) { int k = mc::choose(4, "k"); x.push_back(vec(tcs(k, i))); h.i(k); } checkChange(x, w, r); mc::state(h); }
MC_SCENARIO(change_long, "1..60 frames x every width 0..12", 1, 13) { int w = mc::choose(13, "width"); for (int n = 1; n <= 60; ++n) { std::vector<V> x; for (int i = 0; i < n; ++i) x.push_back(vec(tcs(i / 9 % 2 ? 3 : 2, i))); checkChange(x, w, false); mc::state(mc::Hash("l").i(w).i(n)); } }
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int n = mc::choose(4); mc::leak_check("leak", [&] { TonalEstimator e; TCSGram g; g.setFrameDuration(10); for (int i = 0; i < n * 4; ++i) { ChromaVector c; c[i % 12] = 1; g.addTCSVector(e.transform2TCS(c)); } ChangeDFConfig k; k.smoothingWidth = n; ChangeDetectionFunction f(k); f.process(g); }); mc::state(n); }
MC_SCENARIO(scales, "chords and dense chroma x 9 scales 1e-200..1e200, and change detection over 400 and 3000 (thorough 20000) frames at scales 1e-6, 1, 1e6 with widths 0, 5, 40", 1, 9) {
    static const double A[] = {1, 1e-200, 1e-30, 1e-12, 1e-7, 1e7, 1e12, 1e30, 1e200}; int ai = mc::choose(9, "scale"); double a = A[ai]; TonalEstimator e; for (int k = 0; k < 40; ++k) { ChromaVector v, u; for (int i = 0; i < 12; ++i) { u[i] = k < 12 ? (i == k || i == (k + 4) % 12 || i == (k + 7) % 12) : mc::wave(i, k); v[i] = a * u[i]; } TCSVector t = e.transform2TCS(v), w = e.transform2TCS(u); mc::step(2); V c(12); for (int i = 0; i < 12; ++i) c[i] = u[i]; V z = centroid(c); for (int j = 0; j < 6; ++j) { mc::check_close(w[j], z[j], 1e-9, "centroid", "centroid", j); mc::check_close(t[j] / a, z[j], 1e-9, "scaling", "centroid", j); } }
    if (ai < 3) { double b = ai == 0 ? 1 : ai == 1 ? 1e-6 : 1e6; static const int N[] = {400, 3000, 20000}, W[] = {5, 0, 40}; int n = N[mc::choose(mc::tiered(2, 3), "frames")], w = mc::pick(W, "width"); std::vector<V> x; for (int i = 0; i < n; ++i) { V v; for (int j = 0; j < 6; ++j) v.push_back(b * (mc::wave(6 * (i / 11) + j, 4) + 0.1 * mc::wave(6 * i + j, 3))); x.push_back(v); } TCSGram g, u; for (int i = 0; i < n; ++i) { TCSVector t, s; for (int j = 0; j < 6; ++j) { t[j] = x[i][j]; s[j] = x[i][j] / b; } g.addTCSVector(t); u.addTCSVector(s); } ChangeDFConfig c; c.smoothingWidth = w; ChangeDetectionFunction f(c), f2(c); V p = vec(f.process(g)), q = vec(f2.process(u)); mc::require((int)p.size() == n, "size", "%zu values", p.size()); for (int i = 0; i < n; ++i) mc::check_close(p[i] / b, q[i], 1e-9, "scaling", "change", i); std::vector<V> y; for (V &v : x) { y.push_back(v); for (double &d : y.back()) d /= b; } if (n <= 3000 || w < 40) checkChange(y, w, false); mc::state(mc::Hash("c").i(n).i(w)); } mc::state(mc::Hash("s").d(a));
}
MC_SCENARIO(long_gram, "3000 (thorough 20000) frames of durations 92.9, 10, 371.5: every stored vector, its time and the total duration", 1, 3) {
    static const double D[] = {92.9, 10, 371.5}; double d = mc::pick(D, "duration"); int n = mc::tiered(3000, 20000); TCSGram g; g.setFrameDuration(d); for (int i = 0; i < n; ++i) { g.addTCSVector(tcs(3, i)); mc::step(); } mc::require(g.getSize() == n && g.getDuration() == (long)(n * d), "duration", "size %d duration %ld", g.getSize(), g.getDuration()); for (int i = 0; i < n; ++i) { TCSVector t; g.getTCSVector(i, t); mc::require(vec(t) == vec(tcs(3, i)), "vector", "vector %d wrong", i); mc::require(g.getTime(i) == (long)(i * d), "time", "time %ld of frame %d", g.getTime(i), i); } mc::state(mc::Hash("g").d(d));
}
MC_SCENARIO(change_wide, "smoothing widths 13..40, 64, 100, 127, 200, 500 x 1, 30, 150, 700 frames", 1, 33) { static const int B[] = {64, 100, 127, 200, 500}; int k = mc::choose(33, "width"), w = k < 28 ? 13 + k : B[k - 28]; for (int n : {1, 30, 150, 700}) { std::vector<V> x; for (int i = 0; i < n; ++i) x.push_back(vec(tcs(i / 9 % 2 ? 3 : 2, i))); checkChange(x, w, n == 150); mc::state(mc::Hash("w").i(w).i(n)); } }
MC_SCENARIO(hours, "a stream of 500000 (thorough 2000000) frames of duration 92.9, 93, 371.5, 11.61: every time and the total duration, vectors spot-checked", 1, 4) {
    static const double D[] = {92.9, 93, 371.5, 11.61}; double d = mc::pick(D, "duration"); int n = mc::tiered(500000, 2000000); TCSGram g; g.setFrameDuration(d); TCSVector v[3] = {tcs(3, 0), tcs(3, 1), tcs(3, 2)}; for (int i = 0; i < n; ++i) g.addTCSVector(v[i % 3]); mc::step(); mc::require(g.getSize() == n && g.getDuration() == (long)(n * d), "duration", "size %d duration %ld", g.getSize(), g.getDuration()); for (int i = 0; i < n; ++i) mc::require(g.getTime(i) == (long)(i * d), "time", "time %ld of frame %d", g.getTime(i), i); for (int i = 0; i < n; i += 997) { TCSVector t; g.getTCSVector(i, t); mc::require(vec(t) == vec(v[i % 3]), "vector", "vector %d wrong", i); } mc::state(mc::Hash("H").d(d));
}
NEIGHBOURS("6 smoothing widths and 3 inputs") {
    for (int w : {1, 2, 3, 5, 6, 40}) for (int n : {4, 9, 30}) v.add("smoothing " + std::to_string(w) + " of " + std::to_string(n), [w, n] { TonalEstimator e; TCSGram g; for (int k = 0; k < n; ++k) { ChromaVector c; for (int j = 0; j < 12; ++j) c[j] = 0.2 + std::fabs(mc::wave(k * 12 + j, 1)); g.addTCSVector(e.transform2TCS(c)); } ChangeDFConfig k; k.smoothingWidth = w; ChangeDetectionFunction f(k); ChangeDistance d = f.process(g); return nb::V(std::begin(d), std::end(d)); });
}
