// C38: feature distances: cosine distance, Kullback-Leibler divergences, beat spectrum, unbiased autocorrelation.
#include "mc.h"
#include "maths/CosineDistance.h"
#include "maths/KLDivergence.h"
#include "maths/Correlation.h"
#include "dsp/rhythm/BeatSpectrum.h"
typedef std::vector<double> V; typedef std::vector<V> M;
static double cosd(const V &a, const V &b) { if (a.size() != b.size()) return 1; double s = 0, p = 0, q = 0; for (size_t i = 0; i < a.size(); ++i) { s += a[i] * b[i]; p += a[i] * a[i]; q += b[i] * b[i]; } return p == 0 || q == 0 ? 1 : 1 - s / std::sqrt(p) / std::sqrt(q); }
static const double E[] = {0, 1, -2, 0.001};
MC_SCENARIO(cosine, "every pair of vectors of 0..4 values over {0, 1, -2, 0.001} (lengths equal or not), through one reused object: 1 - cosine, 1 for zero or mismatched vectors, symmetric, in [0,2]", 3, 60) { int n = mc::choose(5, "n"), m = n ? mc::choose(3, "m") : mc::choose(2, "m"); m = m == 0 ? n : m == 1 ? n + 1 : n - 1; V a, b; mc::Hash h("c"); h.i(n).i(m); for (int i = 0; i < n; ++i) { a.push_back(mc::pick(E, "a")); h.d(a[i]); } if (m == n) for (int i = 0; i < m; ++i) { b.push_back(mc::pick(E, "b")); h.d(b[i]); } else b.assign(m, 1.0); CosineDistance c; V j(3, 1.0), k(3, 2.0); c.distance(j, k); V a0(a), b0(b); double d = c.distance(a, b), e = c.distance(b, a); mc::step(); mc::require(a == a0 && b == b0, "input-modified", "inputs changed"); mc::check_close(d, cosd(a, b), 1e-12, "cosine", "distance", 0); mc::require(d == e, "symmetric", "d(a,b)=%.17g, d(b,a)=%.17g", d, e); mc::require(d > -1e-12 && d < 2 + 1e-12, "range", "distance %g", d); mc::state(h); }
MC_SCENARIO(gaussian, "every pair of Gaussian models of 0..2 (thorough 3) dimensions over 4 means and 3 variances: symmetrised divergence, zero only between equal models, never negative", 3, 60) {
    int n = mc::choose(mc::tiered(3, 4), "n"); V m1, m2, v1, v2; static const double U[] = {0, 1, -2.5, 1e3}, W[] = {1, 0.1, 25}; mc::Hash h("g"); h.i(n); double want = 0; for (int i = 0; i < n; ++i) { m1.push_back(mc::pick(U, "m1")); v1.push_back(mc::pick(W, "v1")); m2.push_back(mc::pick(U, "m2")); v2.push_back(mc::pick(W, "v2")); h.d(m1[i]).d(m2[i]).d(v1[i]).d(v2[i]); double d = m1[i] - m2[i]; want += 0.5 * (std::log(v2[i] / v1[i]) + (v1[i] + d * d) / v2[i] - 1) + 0.5 * (std::log(v1[i] / v2[i]) + (v2[i] + d * d) / v1[i] - 1); }
    KLDivergence k; V a(m1), b(v1), c(m2), d(v2); double g = k.distanceGaussian(m1, v1, m2, v2), r = k.distanceGaussian(m2, v2, m1, v1); mc::step(); mc::require(a == m1 && b == v1 && c == m2 && d == v2, "input-modified", "inputs changed"); mc::check_close(g, want, 1e-9 * (1 + want), "gaussian", "divergence", 0); mc::check_close(r, g, 1e-9 * (1 + want), "symmetric", "divergence", 1); mc::require(g > -1e-9, "negative", "divergence %g", g); if (m1 == m2 && v1 == v2) mc::require(std::fabs(g) < 1e-12, "self", "divergence of equal models %g", g); else mc::require(g > 1e-9, "distinct", "divergence of different models %g", g); mc::state(h);
}
MC_SCENARIO(distribution, "every pair of distributions on 1..4 outcomes with weights 0..3: one-sided and symmetrised divergence in tens, sum of the two directions, Gibbs", 3, 60) {
    int n = 1 + mc::choose(4, "n"); V p, q; double sp = 0, sq = 0; for (int i = 0; i < n; ++i) { p.push_back(mc::choose(4, "p")); q.push_back(mc::choose(4, "q")); sp += p[i]; sq += q[i]; } if (sp == 0 || sq == 0) return; double a = 0, b = 0; mc::Hash h("d"); for (int i = 0; i < n; ++i) { p[i] /= sp; q[i] /= sq; } for (int i = 0; i < n; ++i) { h.d(p[i]).d(q[i]); double x = p[i] ? p[i] : 1e-20, y = q[i] ? q[i] : 1e-20; a += p[i] * std::log10(x / y); b += q[i] * std::log10(y / x); }
    KLDivergence k; V p0(p), q0(q); double o = k.distanceDistribution(p, q, false), s = k.distanceDistribution(p, q, true), r = k.distanceDistribution(q, p, true); mc::step(); mc::require(p == p0 && q == q0, "input-modified", "inputs changed"); mc::check_close(o, a, 1e-9, "divergence", "KL(p,q)", 0); mc::check_close(s, a + b, 1e-9, "symmetrised", "KL(p,q)+KL(q,p)", 0); mc::check_close(r, s, 1e-9, "symmetric", "divergence", 0); mc::require(o > -1e-9 && s > -1e-9, "negative", "divergence %g %g", o, s); if (p == q) mc::require(o == 0 && s == 0, "self", "divergence from itself %g", o); mc::state(h);
}
static void checkBeat(const M &x, BeatSpectrum &b) { M x0(x); V got = b.process(x); mc::step(); mc::require(x == x0, "input-modified", "input changed"); int n = (int)x.size() / 2; mc::require((int)got.size() == n, "size", "%d values for %d frames", (int)got.size(), (int)x.size()); V w(n, 0.0); double mx = 0; for (int k = 0; k < n; ++k) { for (int i = 0; i < n; ++i) w[k] += cosd(x[i], x[i + k + 1]); mx = std::max(mx, w[k]); } for (double d : got) mc::require(d <= 1 && d == d, "range", "value %g", d); if (mx > 1e-9) for (int k = 0; k < n; ++k) mc::check_close(got[k], w[k] / mx, 1e-9, "beat", "beat spectrum", k); }
MC_SCENARIO(beat_words, "every sequence of 0..8 (thorough 10) frames from 4 kinds (including silent): mean distance to the frame k later, peak 1", 3, 64) { int n = mc::choose(mc::tiered(9, 11), "n"); static const V S[] = {{1, 0, 0.5}, {0, 0, 0}, {0.2, 1, -1}, {2, 0, 1}}; M x; mc::Hash h("b"); for (int i = 0; i < n; ++i) { int k = mc::choose(4, "f"); x.push_back(S[k]); h.i(k); } BeatSpectrum b; checkBeat(x, b); mc::state(h); }
MC_SCENARIO(beat_periods, "periodic frame sequences of period 1..16, lengths 0..80, frames of 1..5 values, reused object", 1, 16) { int p = 1 + mc::choose(16, "period"); BeatSpectrum b; for (int d = 1; d <= 5; ++d) for (int n = 0; n <= 80; ++n) { M x; for (int i = 0; i < n; ++i) { V v; for (int j = 0; j < d; ++j) v.push_back(1.1 + mc::wave(i % p * d + j, 1)); x.push_back(v); } checkBeat(x, b); mc::state(mc::Hash("p").i(p).i(d).i(n)); } }
static void checkCorr(const V &x) { int n = (int)x.size(); V in(x), y(n + 1, -7.0); Correlation c; c.doAutoUnBiased(in.data(), y.data(), n); mc::step(); mc::require(in == x && y[n] == -7, "bounds", "input or memory past the output changed"); for (int k = 0; k < n; ++k) { double s = 0, m = 0; for (int i = 0; i + k < n; ++i) { s += x[i] * x[i + k]; m += std::fabs(x[i] * x[i + k]); } s /= n - k; m /= n - k; mc::require(y[k] > 0, "positive", "autocorrelation %g at lag %d", y[k], k); mc::check_close(y[k], s > 0 ? s : 2.2204e-16, 1e-12 * (m + 1e-3), "autocorrelation", "autocorrelation", k); } }
MC_SCENARIO(correlation_words, "every signal of 0..8 (thorough 10) samples over {0, 1, -2}: mean lagged product, tiny positive value instead of non-positive ones", 3, 27) { int n = mc::choose(mc::tiered(9, 11), "n"); V x; mc::Hash h("a"); for (int i = 0; i < n; ++i) { x.push_back(E[mc::choose(3, "x")]); h.d(x[i]); } checkCorr(x); mc::state(h); }
MC_SCENARIO(correlation_long, "every length 0..200 x 3 signals", 1, 3) { int k = mc::choose(3, "signal"); for (int n = 0; n <= 200; ++n) { V x; for (int i = 0; i < n; ++i) x.push_back(k == 0 ? mc::wave(i, 1) : k == 1 ? i % 7 == 0 : 100 * std::sin(i * 0.3)); checkCorr(x); mc::state(mc::Hash("l").i(k).i(n)); } }
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int n = mc::choose(4); mc::leak_check("leak", [&] { M x(n * 3, V(2, 1.0)); BeatSpectrum b; b.process(x); KLDivergence k; k.distanceDistribution(V(n, 0.1), V(n, 0.2), true); CosineDistance c; c.distance(V(n, 0.1), V(n + 1, 0.2)); }); mc::state(n); }
MC_SCENARIO(realistic, "vectors of 12, 20, 60, 1000 values at 7 scales 1e-4..1e60 against each other (49 pairs): cosine distance does not depend on level; Gaussian models of 20 dimensions with variances 1e-10..1e10; distributions of 100 and 1000 outcomes", 2, 28) {
    static const int N[] = {12, 20, 60, 1000}; static const double A[] = {1, 1e-4, 1e-3, 1e-2, 1e9, 1e20, 1e60}; int n = mc::pick(N, "n"); double a = mc::pick(A, "a"), b = mc::pick(A, "b"); V x, y, u, v; for (int i = 0; i < n; ++i) { x.push_back(1 + mc::wave(i, 3)); y.push_back(0.5 + mc::wave(i, 8)); u.push_back(a * x[i]); v.push_back(b * y[i]); } CosineDistance c; mc::check_close(c.distance(u, v), cosd(x, y), 1e-10, "cosine", "distance"); mc::check_close(c.distance(u, u), 0, 1e-10, "cosine", "distance from itself"); V w(u); for (double &d : w) d *= -1; mc::check_close(c.distance(u, w), 2, 1e-10, "cosine", "distance from the opposite"); mc::step(3);
    if (b == 1) { int d = std::min(n, 20); double s = a == 1e20 ? 1e-10 : a > 1e20 ? 1e10 : a; V m1, m2, v1, v2; double want = 0; for (int i = 0; i < d; ++i) { m1.push_back(std::sqrt(s) * x[i]); m2.push_back(std::sqrt(s) * y[i]); v1.push_back(s * (1 + i % 3)); v2.push_back(s * (2 + i % 5)); double q = x[i] - y[i], r = 1 + i % 3, t = 2 + i % 5; want += 0.5 * (std::log(t / r) + (r + q * q) / t - 1) + 0.5 * (std::log(r / t) + (t + q * q) / r - 1); } KLDivergence k; mc::check_close(k.distanceGaussian(m1, v1, m2, v2), want, 1e-9, "gaussian", "divergence"); double sp = 0, sq = 0, o = 0, r = 0; V p, q; for (int i = 0; i < n; ++i) { p.push_back(x[i] + 1e-3); q.push_back(std::fabs(y[i]) + (i % 7 ? 0 : 1e-3)); sp += p[i]; sq += q[i]; } for (int i = 0; i < n; ++i) { p[i] /= sp; q[i] /= sq; double e = std::max(p[i], 1e-20), f = std::max(q[i], 1e-20); o += p[i] * std::log10(e / f); r += q[i] * std::log10(f / e); } mc::check_close(k.distanceDistribution(p, q, false), o, 1e-8, "divergence", "KL(p,q)"); mc::check_close(k.distanceDistribution(p, q, true), o + r, 1e-8, "symmetrised", "KL(p,q)+KL(q,p)"); mc::step(3); } mc::state(mc::Hash("r").i(n).d(a).d(b));
}
MC_SCENARIO(long_signals, "autocorrelation of 3 signals of 512, 1000, 3000 (thorough 10000) samples at scales 1e-60, 1e-9, 1, 1e9, 1e60; beat spectrum of 300 and 800 frames of 12 and 40 values", 2, 30) {
    static const int N[] = {512, 1000, 3000, 10000}; static const double A[] = {1, 1e-60, 1e-9, 1e9, 1e60}; int n = N[mc::choose(mc::tiered(3, 4), "n")], k = mc::choose(3, "signal"); double a = mc::pick(A, "scale"); V x, y; for (int i = 0; i < n; ++i) { x.push_back(k == 0 ? 1.5 + mc::wave(i, 1) : k == 1 ? i % 43 == 0 : 1 + std::sin(i * 0.3)); y.push_back(a * x[i]); } V got(n); Correlation c; c.doAutoUnBiased(y.data(), got.data(), n); mc::step(); for (int l = 0; l < n; ++l) { double s = 0; for (int i = 0; i + l < n; ++i) s += x[i] * x[i + l]; s /= n - l; if (s > 0) mc::check_close(got[l] / a / a, s, 1e-9, "autocorrelation", "autocorrelation", l); else mc::require(got[l] > 0, "positive", "autocorrelation %g at lag %d", got[l], l); }
    if (n == 512 || n == 1000) { M f; int d = n == 512 ? 12 : 40, len = n == 512 ? 300 : 800; for (int i = 0; i < len; ++i) { V v; for (int j = 0; j < d; ++j) v.push_back(a * (1.1 + mc::wave((i % (9 + k)) * d + j, 1) + 0.1 * mc::wave(i * d + j, 2))); f.push_back(v); } BeatSpectrum b; if (a == 1 || a == 1e9) checkBeat(f, b); } mc::state(mc::Hash("l").i(n).i(k).d(a));
}
MC_SCENARIO(beat_similar, "frames that differ from each other only slightly: relative differences 0.1, 0.01, ..., 1e-6, with 2 to 60 frames of 2, 3, 12 values at levels 1e-4, 1, 1e6; the peak of the beat spectrum is 1 however small the differences", 1, 6) {
    int e = 1 + mc::choose(6, "exponent"); double eps = std::pow(10.0, -e); static const int D[] = {2, 3, 12}; static const double A[] = {1, 1e-4, 1e6}; for (int d : D) for (double a : A) for (int n : {2, 3, 4, 7, 8, 16, 60}) { M x; for (int i = 0; i < n; ++i) { V v; for (int j = 0; j < d; ++j) v.push_back(a * (1 + 0.1 * j + eps * (mc::wave(i * d + j, 1) + ((i + j) % 3 - 1)))); x.push_back(v); }
        BeatSpectrum b; V got = b.process(x); mc::step(); int h = n / 2; std::vector<long double> w(h, 0.0L); long double mx = 0; for (int k = 0; k < h; ++k) { for (int i = 0; i < h; ++i) { const V &p = x[i], &q = x[i + k + 1]; long double s = 0, u = 0, t = 0; for (int j = 0; j < d; ++j) { s += (long double)p[j] * q[j]; u += (long double)p[j] * p[j]; t += (long double)q[j] * q[j]; } w[k] += 1 - s / sqrtl(u * t); } mx = std::max(mx, w[k]); }
        double tol = 1e-9 + (8e-16 * (d + 4) + 4e-20 / (a * a)) * h / (double)mx; mc::require((int)got.size() == h, "size", "%d values for %d frames", (int)got.size(), n); if (mx <= 0 || tol > 0.1) continue; double top = 0; for (int k = 0; k < h; ++k) { mc::check_close(got[k], (double)(w[k] / mx), tol, "beat", "beat spectrum", k); top = std::max(top, got[k]); } mc::check_close(top, 1, 1e-9, "peak", "largest value"); mc::state(mc::Hash("s").i(e).i(d).i(n).d(a)); }
}
MC_SCENARIO(wide_frames, "beat spectrum of 2, 9, 64 and 130 frames of 60, 100, 257, 513 and 2048 values, periodic and dense; one reused object", 1, 5) { static const int D[] = {257, 60, 100, 513, 2048}; int d = mc::pick(D, "values"); BeatSpectrum b; for (int p : {3, 10, 1000}) for (int n : {2, 9, 64, 130}) { if (d == 2048 && n > 64) continue; M x; for (int i = 0; i < n; ++i) { V v; for (int j = 0; j < d; ++j) v.push_back(1.1 + mc::wave(i % p * d + j, 1)); x.push_back(v); } checkBeat(x, b); mc::state(mc::Hash("w").i(d).i(n).i(p)); } }
