// C35: MathUtilities helpers equal their mathematical definitions on every small input.
#include "mc.h"
#include "refdsp.h"
#include "maths/MathUtilities.h"
#include <numeric>
#include <climits>
using ref::V; using std::vector; using std::min; using std::max;
typedef MathUtilities M;
static V word(int maxlen, const vector<double> &al, int minlen = 0) { int n = minlen + mc::choose(maxlen - minlen + 1, "len"); V x; for (int i = 0; i < n; ++i) x.push_back(mc::pick(al, "x")); return x; }
static const vector<double> A5 = {0, 1, -1, 2.5, -3};

MC_SCENARIO(reductions, "every word of length 1..6 (thorough 7) over {0,1,-1,2.5,-3}: mean, sum, median, min/max, argmax, alpha-norm (1,2,9), L1/L2/L3 norm", 3, 32) {
    V x = word(mc::tiered(6, 7), A5, 1); int n = (int)x.size(); mc::state(mc::Hash("r").vec(x)); V keep(x); mc::step(14);
    double s = 0; for (double d : x) s += d;
    mc::check_close(M::sum(x.data(), n), s, 1e-12, "sum", "sum"); mc::check_close(M::mean(x.data(), n), s / n, 1e-12, "mean", "mean");
    mc::check_close(M::median(x.data(), n), ref::median(x), 1e-12, "median", "median");
    double lo, hi; M::getFrameMinMax(x.data(), n, &lo, &hi); double rl = *std::min_element(x.begin(), x.end()), rh = *std::max_element(x.begin(), x.end());
    mc::check_close(lo, rl, 0, "minmax", "min"); mc::check_close(hi, rh, 0, "minmax", "max");
    int first = (int)(std::max_element(x.begin(), x.end()) - x.begin()); double mx = -99;
    mc::require(M::getMax(x.data(), n, &mx) == first && mx == rh, "argmax", "getMax(array) does not give the first maximum"); mx = -99;
    mc::require(M::getMax(x, &mx) == first && mx == rh, "argmax", "getMax(vector) does not give the first maximum");
    mc::require(M::getMax(x) == first && M::getMax(x.data(), n) == first, "argmax", "getMax without value pointer differs");
    static const int al[] = {1, 2, 9};
    for (int a : al) { double g; M::getAlphaNorm(x.data(), n, a, &g); mc::check_close(g, ref::alphaNorm(x, a), 1e-10, "alpha-norm", "alpha norm (array)", a); mc::check_close(M::getAlphaNorm(x, a), ref::alphaNorm(x, a), 1e-10, "alpha-norm", "alpha norm (vector)", a); }
    for (int p = 1; p <= 3; ++p) { double t = 0; for (double d : x) t += std::pow(std::fabs(d), p); mc::check_close(M::getLpNorm(x, p), std::pow(t, 1.0 / p), 1e-10, "lp-norm", "L^p norm", p); }
    for (int st = 0; st <= n; ++st) for (int c = 0; st + c <= n; ++c) { double t = 0; for (int i = 0; i < c; ++i) t += x[st + i]; mc::check_close(M::mean(x, st, c), c ? t / c : 0, 1e-12, "mean-subset", "mean of subset", st * 100 + c); }
    if (x != keep) mc::fail("input-modified", "input changed");
}
MC_SCENARIO(normalising, "every word of length 0..5 (thorough 6) over {0,1,-1,2.5,-3}: normalise (3 modes, both overloads), normaliseLp (p=0..3, two thresholds)", 3, 32) {
    V x = word(mc::tiered(5, 6), A5); int n = (int)x.size(); mc::state(mc::Hash("n").vec(x)); double s = 0, m = 0; for (double d : x) { s += d; m = max(m, std::fabs(d)); }
    for (int t = 0; t < 3; ++t) {
        V w(x); double div = t == 1 ? s : t == 2 ? m : 1; if (div != 0) for (double &d : w) d /= div;
        V a(x), b(x); a.push_back(0); M::normalise(a.data(), n, (M::NormaliseType)t); a.pop_back(); M::normalise(b, (M::NormaliseType)t); mc::step(2);
        mc::check_vec(a, w, 1e-12, "normalise", "normalise(array)"); mc::check_vec(b, w, 1e-12, "normalise", "normalise(vector)");
        if (t == 2 && m > 0) { double q = 0; for (double d : b) q = max(q, std::fabs(d)); mc::check_close(q, 1, 1e-12, "normalise", "unit max"); }
    }
    for (int p = 0; p <= 3; ++p) for (int th = 0; th < 2; ++th) {
        double thr = th ? 2.2 : 1e-6; V r = M::normaliseLp(x, p, thr); mc::step(); V w(x);
        if (n && p) { double t = 0; for (double d : x) t += std::pow(std::fabs(d), p); t = std::pow(t, 1.0 / p); if (std::fabs(t - thr) < 1e-9) continue;
            if (t < thr) w = V(n, 1.0 / std::pow(n, 1.0 / p)); else for (double &d : w) d /= t; }
        mc::check_vec(r, w, 1e-12, "normalise-lp", "normaliseLp");
        if (n && p) mc::check_close(M::getLpNorm(r, p), 1, 1e-9, "normalise-lp", "norm of the result");
    }
}
MC_SCENARIO(circshift, "length 1..6, shift 0..14: rotation by shift (rightwards)", 0, 1) {
    int n = 1 + mc::choose(6, "n"), s = mc::choose(15, "shift"); V x; for (int i = 0; i < n; ++i) x.push_back(i + 1); V w(n); for (int i = 0; i < n; ++i) w[(((i + s) % n) + n) % n] = x[i];
    M::circShift(x.data(), n, s); mc::step(); mc::check_vec(x, w, 0, "circshift", "rotated"); mc::state(mc::Hash("c").i(n).i(s));
}
MC_SCENARIO(threshold, "every word in {0,1,4}^n n=0..7, and ramps/waves of length 0..40: adaptiveThreshold subtracts the clipped [-8,+7] moving mean and rectifies", 2, 16) {
    V x; if (mc::choose(2, "kind")) { int n = mc::choose(41, "n"); int seed = mc::choose(3, "seed"); for (int i = 0; i < n; ++i) x.push_back(seed == 2 ? i : mc::wave(i, seed) + 1); } else x = word(7, {0, 1, 4});
    int n = (int)x.size(); V w(n); for (int i = 0; i < n; ++i) { double s = 0; int c = 0; for (int j = max(0, i - 8); j <= min(n - 1, i + 7); ++j) { s += x[j]; ++c; } w[i] = max(0.0, x[i] - s / c); }
    M::adaptiveThreshold(x); mc::step(); mc::check_vec(x, w, 1e-10, "adaptive-threshold", "thresholded"); mc::state(mc::Hash("t").vec(w));
}
MC_SCENARIO(scalars, "round on k/4 for |k|<=40 and on +-m*2^e, m in {1, 1.25, 1.5, 1.75}, e 5..200; mod/princarg on k*pi/6 +- 0.01 for |k|<=60 and |k|=10^2..10^8; mod with 9 quotients 2^30..2^44; factorial 0..170; empty arrays", 0, 1) {
    int what = mc::choose(6, "what");
    if (what == 5) { static const double Q[] = {1073741824., 2147483647., 2147483648., 2147483653., 4294967296., 4294967301., 8589934592., 1099511627781., 17592186044416.}, Y[] = {8, 1, 3, -8, 2.5}; double y = mc::pick(Y, "y"), q = mc::pick(Q, "q") * (mc::choose(2, "neg") ? -1 : 1), r = y * mc::choose(4, "r") / 4; mc::check_close(M::mod(q * y + r, y), r, 1e-9, "mod", "mod of a large argument", (long)q); }
    else if (what == 4) { double z[1] = {7}, lo = 5, hi = 5; const vector<double> e; mc::check_close(M::sum(z, 0), 0, 0, "empty", "sum of nothing"); mc::check_close(M::mean(z, 0), 0, 0, "empty", "mean of nothing"); mc::check_close(M::median(z, 0), 0, 0, "empty", "median of nothing"); M::getFrameMinMax(z, 0, &lo, &hi); mc::require(lo == 0 && hi == 0, "empty", "range of nothing is %g..%g", lo, hi); M::normalise(z, 0); mc::require(z[0] == 7, "empty", "wrote past an empty array"); }
    else if (what == 0) { double x; if (mc::choose(2, "large")) x = (mc::choose(2) ? -1 : 1) * std::ldexp(4 + mc::choose(4, "m"), mc::choose(196, "e") + 3); else x = (mc::choose(81, "k") - 40) / 4.0; mc::check_close(M::round(x), x < 0 ? -std::floor(-x + 0.5) : std::floor(x + 0.5), 0, "round", "round", (long)(std::fmod(x, 1e6) * 4)); }
    else if (what == 1) { int k = mc::choose(135, "k") - 60; if (k > 60) { int d = (k - 61) / 2; k = (k % 2 ? 1 : -1) * (int)std::pow(10.0, d + 2); } double e = mc::choose(2) ? 0.01 : -0.01; double x = k * M_PI / 6 + e; double r = M::princarg(x);
        mc::require(r >= -M_PI - 1e-9 && r <= M_PI + 1e-9, "princarg-range", "princarg(%g)=%g", x, r); double turns = (x - r) / (2 * M_PI); mc::require(std::fabs(turns - std::floor(turns + 0.5)) < 1e-9 + 1e-15 * std::fabs(x), "princarg", "princarg(%g)=%g is not congruent", x, r); }
    else if (what == 2) { double x = (mc::choose(41, "x") - 20) * 0.7; static const double ys[] = {1, 2.5, 3, -2, -6.25}; double y = mc::pick(ys, "y"); double r = M::mod(x, y); double q = (x - r) / y; mc::require(std::fabs(q - std::floor(q + 0.5)) < 1e-9 && r * (y > 0 ? 1 : -1) >= -1e-9 && std::fabs(r) <= std::fabs(y) + 1e-9, "mod", "mod(%g,%g)=%g", x, y, r); }
    else { int n = mc::choose(171, "n"); double f = 1; for (int i = 2; i <= n; ++i) f *= i; mc::check_close(M::factorial(n), f, 1e-12, "factorial", "factorial", n); }
    mc::step(); mc::state(mc::Hash("s").i(what));
}
MC_SCENARIO(integers, "every x in -70..5000 plus every 2^k-1,2^k,2^k+1 up to 2^30: power-of-two helpers; every pair 1..60 and every pair of 16 sample rates and large numbers: gcd; compareInt on 121 pairs over the whole range of int", 0, 1) {
    int what = mc::choose(3, "what");
    if (what == 0) {
        int big = mc::choose(2, "big"), x; if (big) { int k = 13 + mc::choose(18, "k"); x = (1 << k) - 1 + (k < 30 ? mc::choose(3) : mc::choose(2)); } else x = mc::choose(5071, "x") - 70;
        bool is = x >= 1 && (x & (x - 1)) == 0; long lo = 1, hi = 1; while (lo * 2 <= x) lo *= 2; while (hi < x) hi *= 2;
        mc::require(M::isPowerOfTwo(x) == is, "ispow2", "isPowerOfTwo(%d)", x); mc::require(M::nextPowerOfTwo(x) == hi, "nextpow2", "nextPowerOfTwo(%d)=%d", x, M::nextPowerOfTwo(x));
        mc::require(M::previousPowerOfTwo(x) == lo, "prevpow2", "previousPowerOfTwo(%d)=%d", x, M::previousPowerOfTwo(x));
        long nr = x - lo < hi - x ? lo : hi; if (x < 1) nr = 1; mc::require(M::nearestPowerOfTwo(x) == nr, "nearestpow2", "nearestPowerOfTwo(%d)=%d, expected %ld", x, M::nearestPowerOfTwo(x), nr);
    } else if (what == 1) { static const int BIG[] = {8000, 11025, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 176400, 192000, 1000000007, 2147483647, 1073741824, 1836311903}; int a, b; if (mc::choose(2, "big")) { a = mc::pick(BIG, "a"); b = mc::pick(BIG, "b"); } else { a = 1 + mc::choose(60, "a"); b = 1 + mc::choose(60, "b"); } mc::require(M::gcd(a, b) == std::__gcd(a, b), "gcd", "gcd(%d,%d)=%d", a, b, M::gcd(a, b)); }
    else { static const int AL[] = {0, -2, -1, 1, 2, 2147483647, -2147483647 - 1, 2147483646, -2147483647, 1500000000, -1500000000}; int a = mc::pick(AL), b = mc::pick(AL); int r = M::compareInt(&a, &b); mc::require((r < 0) == (a < b) && (r > 0) == (a > b), "compare", "compareInt(%d,%d)=%d", a, b, r); }
    mc::step(); mc::state(mc::Hash("i").i(what));
}
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int n = 1 + mc::choose(3); mc::leak_check("leak", [&] { V x(n, 2.0); M::median(x.data(), n); M::normaliseLp(x, 2); M::adaptiveThreshold(x); }); mc::state(n); }
MC_SCENARIO(long_vectors, "21 lengths 7..100000 x 4 signals x 5 scales 2^-60..2^60: mean, sum, median, range, argmax, alpha and L^p norms, three normalisations, L^p normalisation, rotation, adaptive threshold", 2, 21) {
    static const int N[] = {7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 100, 127, 255, 256, 257, 1000, 1023, 4096, 10001, 65537, 100000}, E[] = {0, -60, -25, 25, 60}; int n = mc::pick(N, "n"), kind = mc::choose(4, "signal"), e = mc::pick(E, "scale"); V x; for (int i = 0; i < n; ++i) x.push_back(std::ldexp(kind == 0 ? mc::wave(i, 3) : kind == 1 ? i % 17 - 3.0 : kind == 2 ? n - i : (i == n / 3) * 5.0 - (i == n - 1), e)); auto U = [&](double v) { return std::ldexp(v, -e); }; V keep(x); double s = 0, m = 0; for (double d : x) { s += d; m = max(m, std::fabs(d)); } double tol = 1e-9; mc::step(14);
    mc::check_close(U(M::sum(x.data(), n)), U(s), tol, "sum", "sum"); mc::check_close(U(M::mean(x.data(), n)), U(s / n), tol, "mean", "mean"); mc::check_close(U(M::mean(x, n / 3, n / 2)), U(std::accumulate(x.begin() + n / 3, x.begin() + n / 3 + n / 2, 0.0) / (n / 2)), tol, "mean-subset", "mean of subset"); mc::check_close(M::median(x.data(), n), ref::median(x), 0, "median", "median"); double lo, hi; M::getFrameMinMax(x.data(), n, &lo, &hi); mc::check_close(lo, *std::min_element(x.begin(), x.end()), 0, "minmax", "min"); mc::check_close(hi, *std::max_element(x.begin(), x.end()), 0, "minmax", "max"); int first = (int)(std::max_element(x.begin(), x.end()) - x.begin()); double mx = -99; mc::require(M::getMax(x.data(), n, &mx) == first && mx == hi && M::getMax(x) == first, "argmax", "getMax does not give the first maximum");
    for (int a = 1; a <= 3; ++a) { double g; M::getAlphaNorm(x.data(), n, a, &g); mc::check_close(U(g), U(ref::alphaNorm(x, a)), tol, "alpha-norm", "alpha norm (array)", a); mc::check_close(U(M::getAlphaNorm(x, a)), U(ref::alphaNorm(x, a)), tol, "alpha-norm", "alpha norm (vector)", a); double t = 0; for (double d : x) t += std::pow(std::fabs(d), a); mc::check_close(U(M::getLpNorm(x, a)), U(std::pow(t, 1.0 / a)), tol, "lp-norm", "L^p norm", a); V r = M::normaliseLp(x, a, std::ldexp(1e-6, e)), w(x); double L = std::pow(t, 1.0 / a); for (double &d : w) d /= L; mc::check_vec(r, w, tol, "normalise-lp", "normaliseLp"); }
    for (int t = 0; t < 3; ++t) { V w(x); double div = t == 1 ? s : t == 2 ? m : 1; if (std::fabs(U(div)) < 1e-6) continue; for (double &d : w) d = t ? d / div : U(d); V a(x), b(x); M::normalise(a.data(), n, (M::NormaliseType)t); M::normalise(b, (M::NormaliseType)t); if (!t) for (int i = 0; i < n; ++i) { a[i] = U(a[i]); b[i] = U(b[i]); } mc::check_vec(a, w, tol * (1 + n), "normalise", "normalise(array)"); mc::check_vec(b, w, tol * (1 + n), "normalise", "normalise(vector)"); }
    V w(n); for (int i = 0; i < n; ++i) { double q = 0; int c = 0; for (int j = max(0, i - 8); j <= min(n - 1, i + 7); ++j) { q += U(x[j]); ++c; } w[i] = max(0.0, U(x[i]) - q / c); } V a(x); M::adaptiveThreshold(a); for (double &d : a) d = U(d); mc::check_vec(a, w, 1e-9 * (1 + U(m)), "adaptive-threshold", "thresholded"); if (x != keep) mc::fail("input-modified", "input changed"); if (n <= 4096) { int sh = n / 3; V r(x), z(n); for (int i = 0; i < n; ++i) z[(i + sh) % n] = x[i]; M::circShift(r.data(), n, sh); mc::check_vec(r, z, 0, "circshift", "rotated"); } mc::state(mc::Hash("L").i(n).i(kind).i(e));
}
