// C34: TPolyFit::PolyFit2 returns the least-squares polynomial and the correlation coefficient.
#include "mc.h"
#include <vector>
#include <cmath>
#include <iostream>
#include "maths/Polyfit.h"
#include <set>
typedef std::vector<double> V;
static void check(const V &x, const V &y, int terms) {
    V c(terms, 0.0), x0(x), y0(y); double r = TPolyFit::PolyFit2(x0, y0, c); mc::step();
    if ((int)c.size() != terms) mc::fail("terms", "coefficient count changed to %zu", c.size());
    double srs = 0, sy = 0, sy2 = 0, scale = 1; V e;
    for (size_t i = 0; i < x.size(); ++i) { double f = 0, p = 1; for (int j = 0; j < terms; ++j) { f += c[j] * p; p *= x[i]; } e.push_back(y[i] - f); srs += e[i] * e[i]; sy += y[i]; sy2 += y[i] * y[i]; }
    // the residual of the least-squares optimum is orthogonal to every power of x
    for (int j = 0; j < terms; ++j) { double d = 0, s = 1; for (size_t i = 0; i < x.size(); ++i) { d += e[i] * std::pow(x[i], j); s += std::fabs(std::pow(x[i], j)) * (1 + std::fabs(y[i])); } if (s > scale) scale = s;
        mc::require(std::fabs(d) <= 1e-7 * s, "least-squares", "residual not orthogonal to x^%d (%g): not the least-squares fit", j, d); }
    double var = sy2 - sy * sy / x.size(); 
    if (std::fabs(var) < 1e-9) return;      // constant data: coefficient unspecified up to rounding
    double q = srs / var, want = q >= 1 ? 0 : std::sqrt(1 - q);
    if (q > 1 - 1e-6) { mc::require(r >= 0 && r < 1e-2, "correlation", "correlation %g for a fit explaining nothing", r); return; }
    mc::check_close(r, want, 1e-6, "correlation", "correlation coefficient");
}
MC_SCENARIO(grids, "1..4 coefficients; x a consecutive grid, symmetric grid or uneven grid of 2..7 points; every y word over {0,1,-2}", 3, 32) {
    int terms = 1 + mc::choose(4, "terms"), n = 2 + mc::choose(6, "n"), g = mc::choose(3, "grid"); if (n < terms) return; V x, y; static const double u[] = {-3, -1, 0.5, 0, 2, 2.5, 4}, al[] = {0, 1, -2};
    for (int i = 0; i < n; ++i) { x.push_back(g == 0 ? i : g == 1 ? i - (n - 1) / 2.0 : u[i]); y.push_back(mc::pick(al, "y")); }
    check(x, y, terms); mc::state(mc::Hash("g").i(terms).i(g).vec(y));
}
MC_SCENARIO(points, "1..3 coefficients; every x word over {-1,0,1,2} of 2..5 points with enough distinct abscissae, y in 3 patterns: repeated and unordered abscissae", 2, 16) {
    int terms = 1 + mc::choose(3, "terms"), n = 2 + mc::choose(4, "n"); V x, y; static const double al[] = {-1, 0, 1, 2}; for (int i = 0; i < n; ++i) x.push_back(mc::pick(al, "x")); int k = mc::choose(3, "y"); for (int i = 0; i < n; ++i) y.push_back(k == 0 ? mc::wave(i, 1) : k == 1 ? x[i] * x[i] - 3 : (i % 2 ? 5 : -5));
    if ((int)std::set<double>(x.begin(), x.end()).size() < terms) return; check(x, y, terms); mc::state(mc::Hash("p").i(terms).i(k).vec(x));
}
MC_SCENARIO(exact, "every polynomial with up to 4 coefficients from {0,1,-2} sampled at up to 9 points is recovered exactly", 2, 16) {
    int terms = 1 + mc::choose(4, "terms"); V c; static const double al[] = {0, 1, -2}; for (int i = 0; i < terms; ++i) c.push_back(mc::pick(al, "c")); int n = terms + 1 + mc::choose(5, "n"); V x, y; for (int i = 0; i < n; ++i) { double t = (i - n / 2) * 0.75; x.push_back(t); double s = 0, p = 1; for (double k : c) { s += k * p; p *= t; } y.push_back(s); }
    V g(terms, 9.0); double r = TPolyFit::PolyFit2(x, y, g); mc::step(); mc::check_vec(g, c, 1e-7, "exact-recovery", "coefficients"); bool constant = true; for (size_t i = 1; i < c.size(); ++i) if (c[i] != 0) constant = false; if (!constant) mc::check_close(r, 1, 1e-5, "correlation", "perfect fit"); mc::state(mc::Hash("e").vec(c).i(n));
}
MC_SCENARIO(scales, "1..5 coefficients, 5..9 points, abscissae scaled by 2^-30..2^30 and ordinates by 2^-20..2^20, 4 data patterns: the coefficients scale accordingly (the fit does not depend on the units)", 3, 25) {
    int terms = 1 + mc::choose(5, "terms"), n = 5 + mc::choose(5, "n"), pat = mc::choose(4, "data"), kx = 5 * (mc::choose(13, "xscale") - 6), ky = 20 * (mc::choose(3, "yscale") - 1); V x, y, sx, sy;
    for (int i = 0; i < n; ++i) { double t = (i - n / 2) * 0.5 + (i == 1 ? 0.125 : 0), v = pat == 0 ? mc::wave(i, 3) : pat == 1 ? t * t - 2 * t + 1 : pat == 2 ? (i == 2) : 3; x.push_back(t); y.push_back(v); sx.push_back(std::ldexp(t, kx)); sy.push_back(std::ldexp(v, ky)); }
    V c(terms, 0.0), d(terms, 0.0); double r = TPolyFit::PolyFit2(x, y, c), s = TPolyFit::PolyFit2(sx, sy, d); mc::step(); check(x, y, terms); double m = 1; for (double v : c) m = std::max(m, std::fabs(v)); for (int j = 0; j < terms; ++j) d[j] = std::ldexp(d[j], kx * j - ky);
    mc::check_vec(d, c, 1e-7 * m, "scaling", "coefficients in other units"); if (pat != 3) { double q = std::max(r, s) < 1e-2 ? 0 : s; mc::check_close(q, q == 0 ? 0 : r, 1e-4, "correlation", "correlation in other units"); } mc::state(mc::Hash("s").i(terms).i(n).i(pat).i(kx).i(ky));
}
MC_SCENARIO(unfittable, "0..4 coefficients, 0..5 points of up to 5 distinct abscissae, 0..6 ordinates: requests that have no unique fit return without touching anything but the coefficients", 2, 10) {
    int terms = mc::choose(5, "terms"), n = mc::choose(6, "n"), k = mc::choose(7, "ordinates"), same = mc::choose(2, "same"); V x, y, c(terms, 7.0); for (int i = 0; i < n; ++i) x.push_back(same ? 2 : i); for (int i = 0; i < k; ++i) y.push_back(i % 3); V x0(x), y0(y);
    std::streambuf *old = std::cerr.rdbuf(0); double r = TPolyFit::PolyFit2(x, y, c); std::cerr.rdbuf(old); mc::step(); mc::require(x == x0 && y == y0 && (int)c.size() == terms, "modified", "arguments changed"); if (terms < 1 || n < 2 || n != k) { mc::require(r == 0, "result", "returned %g for an invalid request", r); for (double v : c) mc::require(v == 7.0, "coefficients", "coefficients changed by an invalid request"); } mc::state(mc::Hash("u").i(terms).i(n).i(k).i(same));
}
MC_SCENARIO(long_fits, "1..5 coefficients, 10, 50, 200, 1000 and 5000 (thorough 50000) points over [-1,1], 3 data patterns at ordinate scales 1e-9, 1, 1e9: residual orthogonal to every power, correlation", 2, 25) {
    int terms = 1 + mc::choose(5, "terms"); static const int N[] = {10, 50, 200, 1000, 5000, 50000}; int n = N[mc::choose(mc::tiered(5, 6), "n")], pat = mc::choose(3, "data"); static const double A[] = {1, 1e-9, 1e9}; double a = mc::pick(A, "scale"); V x, y, u; for (int i = 0; i < n; ++i) { double t = 2.0 * i / (n - 1) - 1; x.push_back(t); u.push_back(pat == 0 ? mc::wave(i, 3) : pat == 1 ? t * t * t - 2 * t + 1 : std::sin(5 * t)); y.push_back(a * u.back()); } V c(terms, 0.0), d(terms, 0.0); double r = TPolyFit::PolyFit2(x, y, c), s = TPolyFit::PolyFit2(x, u, d); mc::step(2); check(x, u, terms); for (int j = 0; j < terms; ++j) mc::check_close(c[j] / a, d[j], 1e-8, "scaling", "coefficient in other units", j); if (std::max(r, s) > 1e-2) mc::check_close(r, s, 1e-5, "correlation", "correlation in other units"); mc::state(mc::Hash("l").i(terms).i(n).i(pat).d(a));
}
MC_SCENARIO(offsets, "1..4 coefficients, 4..9 points, 4 variation patterns of size 2^0..2^-14 around 1, -8, 64: the fit of the variation is found whatever the offset, and the correlation is that of the variation", 2, 12) {
    int terms = 1 + mc::choose(4, "terms"), n = 4 + mc::choose(6, "n"), pat = mc::choose(4, "data"), e = 2 * mc::choose(8, "size"); static const double O[] = {1, -8, 64}; double o = mc::pick(O, "offset"), a = std::ldexp(o, -e); V x, u, y; for (int i = 0; i < n; ++i) { double t = (i - n / 2) * 0.5 + (i == 1 ? 0.125 : 0); x.push_back(t); u.push_back(pat == 0 ? mc::wave(i, 3) : pat == 1 ? (i % 3 == 1 ? 1 : -0.5) + 0.3 * i : pat == 2 ? (i == 2) : t * t - t); u.back() = std::ldexp(std::round(std::ldexp(u.back(), 20)), -20); y.push_back(o + a * u.back()); }
    if (n <= terms) { mc::state(mc::Hash("n").i(n)); return; } V c(terms, 0.0), d(terms, 0.0); double r = TPolyFit::PolyFit2(x, u, c), s = TPolyFit::PolyFit2(x, y, d); mc::step(2); check(x, u, terms); d[0] -= o; for (int j = 0; j < terms; ++j) mc::check_close(d[j] / a, c[j], 1e-9 * std::ldexp(1.0, e), "offset", "coefficient with an offset added", j); if (r > 0.05 && r < 1 - 1e-3) mc::check_close(s, r, 1e-6 + 1e-12 * std::ldexp(1.0, 2 * e), "correlation", "correlation with an offset added"); mc::state(mc::Hash("o").i(terms).i(n).i(pat).i(e).d(o));
}
MC_SCENARIO(many_terms, "6..10 coefficients, terms+1, 2*terms, 60, 500 points over [-1,1] or [-2,2], evenly spaced or in a shuffled order with repeats, 4 data patterns: residual orthogonal to every power, and polynomials of that degree recovered", 2, 10) {
    int terms = 6 + mc::choose(5, "terms"), nn[] = {terms + 1, 2 * terms, 60, 500}, n = mc::pick(nn, "n"), pat = mc::choose(4, "data"); double w = 1 + mc::choose(2, "width"); bool shuffled = mc::choose(2, "shuffled"); V x, y, c; for (int j = 0; j < terms; ++j) c.push_back((j * 5 % 7) - 3 + (j == terms - 1)); for (int i = 0; i < n; ++i) { int q = shuffled ? (int)((long)i * 7919 % n) : i; double t = w * (2.0 * q / (n - 1) - 1); if (shuffled && i % 11 == 10 && n > 2 * terms) t = x[i - 1]; x.push_back(t); double s = 0; for (int j = terms; j-- > 0;) s = s * t + c[j]; y.push_back(pat == 0 ? mc::wave(i, 3) : pat == 1 ? s : pat == 2 ? (i % 3 == 1) : std::exp(-4 * t * t)); }
    check(x, y, terms); if (pat == 1) { V g(terms, 9.0); double r = TPolyFit::PolyFit2(x, y, g); mc::step(); mc::check_vec(g, c, 1e-4, "exact-recovery", "coefficients"); mc::check_close(r, 1, 1e-5, "correlation", "perfect fit"); } mc::state(mc::Hash("m").i(terms).i(n).i(pat).d(w).i(shuffled));
}
