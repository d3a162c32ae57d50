// C39: wavelet decomposition filters: every wavelet type (the whole state space) x what the output vectors held before.
#include "mc.h"
#include "dsp/wavelet/Wavelet.h"
#include <set>
#include <cstring>
#include "neighbours.h"
typedef std::vector<double> V; typedef Wavelet::Type T;
struct Info { const char *name; int len, moments; double tol; char fam; };
static const Info I[] = {{"Haar", 2, 1, 1e-10, 'd'},
    {"Daubechies 2", 4, 2, 1e-10, 'd'}, {"Daubechies 3", 6, 3, 1e-10, 'd'}, {"Daubechies 4", 8, 4, 1e-10, 'd'}, {"Daubechies 5", 10, 5, 1e-10, 'd'}, {"Daubechies 6", 12, 6, 1e-10, 'd'}, {"Daubechies 7", 14, 7, 1e-10, 'd'}, {"Daubechies 8", 16, 8, 1e-10, 'd'}, {"Daubechies 9", 18, 9, 1e-10, 'd'}, {"Daubechies 10", 20, 10, 1e-10, 'd'}, {"Daubechies 20", 40, 12, 1e-10, 'd'}, {"Daubechies 40", 80, 12, 5e-5, 'd'},
    {"Symlet 2", 4, 2, 1e-10, 's'}, {"Symlet 3", 6, 3, 1e-10, 's'}, {"Symlet 4", 8, 4, 1e-10, 's'}, {"Symlet 5", 10, 5, 1e-10, 's'}, {"Symlet 6", 12, 6, 1e-10, 's'}, {"Symlet 7", 14, 7, 1e-10, 's'}, {"Symlet 8", 16, 8, 1e-10, 's'}, {"Symlet 9", 18, 9, 1e-10, 's'}, {"Symlet 10", 20, 10, 1e-10, 's'}, {"Symlet 20", 40, 12, 1e-10, 's'}, {"Symlet 30", 60, 12, 5e-8, 's'},
    {"Coiflet 1", 6, 2, 1e-10, 'c'}, {"Coiflet 2", 12, 4, 1e-10, 'c'}, {"Coiflet 3", 18, 6, 1e-10, 'c'}, {"Coiflet 4", 24, 8, 1e-10, 'c'}, {"Coiflet 5", 30, 10, 2e-8, 'c'},
    {"Biorthogonal 1.3", 6, 1, 1e-10, 'b'}, {"Biorthogonal 1.5", 10, 1, 1e-10, 'b'}, {"Biorthogonal 2.2", 6, 2, 1e-10, 'b'}, {"Biorthogonal 2.4", 10, 2, 1e-10, 'b'}, {"Biorthogonal 2.6", 14, 2, 1e-10, 'b'}, {"Biorthogonal 2.8", 18, 2, 1e-10, 'b'}, {"Biorthogonal 3.1", 4, 3, 1e-10, 'b'}, {"Biorthogonal 3.3", 8, 3, 1e-10, 'b'}, {"Biorthogonal 3.5", 12, 3, 1e-10, 'b'}, {"Biorthogonal 3.7", 16, 3, 1e-10, 'b'}, {"Biorthogonal 3.9", 20, 3, 1e-10, 'b'}, {"Biorthogonal 4.4", 10, 4, 1e-10, 'b'}, {"Biorthogonal 5.5", 12, 5, 1e-10, 'b'}, {"Biorthogonal 6.8", 18, 6, 1e-10, 'b'},
    {"Meyer", 102, 1, 5e-6, 'm'}};
static const int N = sizeof I / sizeof *I;
static void get(int t, V &l, V &h) { Wavelet::createDecompositionFilters((T)t, l, h); mc::step(); }
static V prefix(const V &l) { V p; double s = 0; for (int i = (int)l.size() - 1; i >= 0; --i) p.push_back(s += l[i] * l[i]); return p; }
static double moment(const V &h, int p, double c, double *scale) { double x = 0, s = 0; int n = (int)h.size(); for (int i = 0; i < n; ++i) { double w = std::pow((i - c) / (n / 2.0), p); x += w * h[i]; s += std::fabs(w * h[i]); } if (scale) *scale = s; return x; }
MC_SCENARIO(filters, "all 43 wavelets: length, perfect reconstruction, low-pass and high-pass gain, quadrature mirror and double-shift orthonormality (orthogonal families), symmetry (biorthogonal), vanishing moments, minimum-phase ordering Daubechies vs Symlet", 1, 43) {
    mc::require(Wavelet::LastType + 1 == N, "types", "%d wavelet types, expected %d", Wavelet::LastType + 1, N); int t = mc::choose(N, "type"); const Info &f = I[t]; V l, h; get(t, l, h); int n = f.len; double tol = f.tol;
    mc::require((int)l.size() == n && (int)h.size() == n, "length", "%s: lengths %d and %d, expected %d", f.name, (int)l.size(), (int)h.size(), n);
    double s = 0, hs = 0; for (double d : l) s += d; for (double d : h) hs += d; mc::check_close(s, std::sqrt(2.0), tol, "gain", f.name, 0); mc::check_close(hs, 0, tol, "gain", f.name, 1);
    V T0(2 * n - 1, 0.0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) T0[i + j] += 0.5 * l[i] * h[j] * ((j & 1 ? -1 : 1) - (i & 1 ? -1 : 1)); for (int i = 0; i < 2 * n - 1; ++i) mc::check_close(T0[i], i == n - 1 ? -1.0 : 0.0, tol, "reconstruction", f.name, i);
    if (f.fam != 'b') { for (int i = 0; i < n; ++i) mc::check_close(h[i], (i & 1 ? 1 : -1) * l[n - 1 - i], 1e-13, "mirror", f.name, i); for (int k = 0; k < n; k += 2) { double x = 0; for (int i = 0; i + k < n; ++i) x += l[i] * l[i + k]; mc::check_close(x, k == 0, tol, "orthonormal", f.name, k); } }
    else { int a = 0, b = n; while (a < n && l[a] == 0) ++a; while (b > a && l[b - 1] == 0) --b; for (int i = a; i < b; ++i) mc::check_close(l[i], l[a + b - 1 - i], 1e-13, "symmetry", f.name, i); int c = 0, d = n; while (c < n && h[c] == 0) ++c; while (d > c && h[d - 1] == 0) --d; int sg = (d - c) % 2 ? 1 : -1; for (int i = c; i < d; ++i) mc::check_close(h[i], sg * h[c + d - 1 - i], 1e-13, "symmetry", f.name, i); }
    for (int p = 0; p < f.moments; ++p) { double sc, x = moment(h, p, n / 2.0, &sc); mc::require(std::fabs(x) < std::max(1e-6, 10 * tol) * std::max(sc, 1e-3), "moments", "%s: moment %d of the high-pass filter is %g", f.name, p, x); }
    if (f.fam == 'd' && t) { double sc, x = moment(h, f.moments, n / 2.0, &sc); if (n <= 20) mc::require(std::fabs(x) > 1e-5 * sc, "moments", "%s has more than %d vanishing moments", f.name, f.moments); for (int o = 0; o < N; ++o) if (I[o].len == n && I[o].fam == 's') { V l2, h2; get(o, l2, h2); V p = prefix(l), q = prefix(l2); for (int i = 0; i < n; ++i) mc::require(p[i] > q[i] - 1e-9, "phase", "%s is not the minimum-phase filter (%s is more front-loaded at %d)", f.name, I[o].name, i); } }
    if (f.fam == 's' && n >= 8) { for (int o = 0; o < N; ++o) if (I[o].len == n && I[o].fam == 'd') { V l2, h2; get(o, l2, h2); auto asym = [&](const V &v) { double c = 0, e = 0, a = 0; for (int i = 0; i < n; ++i) { c += i * v[i] * v[i]; e += v[i] * v[i]; } c /= e; for (int i = 0; i < n; ++i) a += std::pow(i - c, 3) * v[i] * v[i]; return std::fabs(a); }; double a = asym(l), b = asym(l2); mc::require(a < b, "symmetry", "%s is less symmetric than %s", f.name, I[o].name); } }
    if (f.fam == 'c') { double c = 0; for (int i = 0; i < n; ++i) c += i * l[i]; c /= std::sqrt(2.0); for (int p = 1; p < f.moments; ++p) { double sc, x = moment(l, p, c, &sc); mc::require(std::fabs(x) < std::max(1e-6 * sc, 1e-8), "coiflet", "%s: moment %d of the low-pass filter is %g", f.name, p, x); } }
    mc::state(mc::Hash("f").i(t).vec(l).vec(h));
}
MC_SCENARIO(names, "all 43 names, all distinct", 0, 1) { std::set<std::string> s; for (int t = 0; t < N; ++t) { std::string n = Wavelet::getWaveletName((T)t); mc::step(); mc::require(n == I[t].name, "name", "wavelet %d is called \"%s\", expected \"%s\"", t, n.c_str(), I[t].name); s.insert(n); mc::state(t); } mc::require((int)s.size() == N, "distinct", "names repeat"); }
MC_SCENARIO(histories, "every pair of wavelets through the same output vectors, and vectors with previous contents: the second result is as if fresh", 1, 43) { int a = mc::choose(N, "a"); for (int b = 0; b < N; ++b) { V l(3, 9.0), h, l2, h2; get(a, l, h); get(b, l, h); get(b, l2, h2); mc::require(l == l2 && h == h2, "fresh", "%s after %s differs from fresh", I[b].name, I[a].name); mc::state(mc::Hash("h").i(a).i(b)); } }
MC_SCENARIO(transform, "every wavelet x every signal of 6 (thorough 8) samples over {-1,0,2}, zero-extended: analysis to half rate and synthesis returns the signal, delayed", 2, 43) {
    int t = mc::choose(N, "type"), L = mc::tiered(6, 8); V l, h; get(t, l, h); int n = (int)l.size(); V x; static const double E[] = {0, -1, 2}; for (int i = 0; i < L; ++i) x.push_back(mc::pick(E, "x")); auto at = [&](int i) { return i >= 0 && i < L ? x[i] : 0.0; }; V y(L + 2 * n, 0.0);
    for (int m = 0; 2 * m < L + n; ++m) { double a = 0, d = 0; for (int j = 0; j < n; ++j) { a += l[j] * at(2 * m - j); d += h[j] * at(2 * m - j); } for (int j = 0; j < n; ++j) { y[2 * m + j] += a * h[j] * (j & 1 ? -1 : 1) ; y[2 * m + j] -= d * l[j] * (j & 1 ? -1 : 1); } }
    for (int i = 0; i < L + n - 1; ++i) mc::check_close(-y[i], i >= n - 1 ? at(i - n + 1) : 0.0, 20 * I[t].tol, "roundtrip", I[t].name, i); mc::state(mc::Hash("t").i(t).vec(x));
}
NEIGHBOURS("all wavelet types") {
    for (int t = 0; t <= (int)Wavelet::LastType; ++t) v.add(Wavelet::getWaveletName((Wavelet::Type)t), [t] { nb::V a, b; Wavelet::createDecompositionFilters((Wavelet::Type)t, a, b); nb::V o = a; nb::app(o, b); return o; });
}
