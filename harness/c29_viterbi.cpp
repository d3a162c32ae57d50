// C29: Viterbi decoding returns a most probable state path; Gaussian likelihoods and matrix inversion are exact.
#include "mc.h"
#include "refhmm.h"
using namespace refhmm;
static bool same(const model_t *m, const Hmm &h) { Hmm g = read(m); return g.p0 == h.p0 && g.a == h.a && g.mu == h.mu && g.cov == h.cov; }
static void check(const Hmm &h, const M &x) {
    int T = (int)x.size(), N = h.N(); model_t *m = make(h); Mat X(x); std::vector<int> q(T, -1); viterbi_decode(X, T, m, q.data()); mc::step(); bool kept = same(m, h) && X.get(h.L()) == x; hmm_close(m); mc::require(kept, "input-modified", "model or data changed");
    for (int s : q) mc::require(s >= 0 && s < N, "state-range", "state %d", s); M lb = h.obs(x); double best = -INFINITY;
    if (std::pow((double)N, T) <= 300000) paths(N, T, [&](const std::vector<int> &p) { best = std::max(best, score(h, lb, p)); });
    else { V f(N), g(N); for (int j = 0; j < N; ++j) f[j] = ln(h.p0[j]) + lb[0][j]; for (int t = 1; t < T; ++t) { for (int j = 0; j < N; ++j) { double b = -INFINITY; for (int i = 0; i < N; ++i) b = std::max(b, f[i] + ln(h.a[i][j])); g[j] = b + lb[t][j]; } f = g; } best = *std::max_element(f.begin(), f.end()); }
    double got = score(h, lb, q); mc::outcome(mc::Hash("q").i((long)got)); if (best > -INFINITY) mc::require(got >= best - 1e-8 * (1 + std::fabs(best)), "optimal", "decoded path has log probability %.12g, the best path %.12g", got, best);
}
static const M A2[] = {{{0.9, 0.1}, {0.2, 0.8}}, {{0.5, 0.5}, {0.5, 0.5}}, {{0, 1}, {1, 0}}, {{1, 0}, {0.3, 0.7}}, {{0.001, 0.999}, {0.6, 0.4}}};
static const V P2[] = {{0.5, 0.5}, {1, 0}, {0.01, 0.99}};
MC_SCENARIO(two_states, "2 states, 5 transition matrices (with zeros) x 3 initial distributions x 2 variances: every observation word of length 1..9 (thorough 11) over {0, 1, 2.2}", 3, 48) {
    int T = 1 + mc::choose(mc::tiered(9, 11), "T"); Hmm h; h.a = A2[mc::choose(5, "a")]; h.p0 = P2[mc::choose(3, "p0")]; h.mu = {{0}, {2}}; h.cov = {{mc::choose(2, "cov") ? 0.05 : 1.3}}; M x; mc::Hash s("2"); s.i(T).vec(h.p0).d(h.a[0][0]).d(h.cov[0][0]); static const double O[] = {0, 1, 2.2}; for (int t = 0; t < T; ++t) { x.push_back(V(1, mc::pick(O, "obs"))); s.d(x[t][0]); } check(h, x); mc::state(s);
}
static V row(int N, int k) { V r(N, 0.0); if (k < N) { r[k] = 1; return r; } double s = 0; for (int i = 0; i < N; ++i) { r[i] = k == N ? 1 : k == N + 1 ? 1 + i * i : 10.0 / (1 + i); s += r[i]; } for (double &d : r) d /= s; return r; }
MC_SCENARIO(transitions, "3 states, 2-dimensional data with correlated covariance: every choice of transition rows and initial distribution from {each unit vector, uniform, increasing, decreasing} x 5 observation sequences of length 6", 2, 36) {
    Hmm h; for (int i = 0; i < 3; ++i) h.a.push_back(row(3, mc::choose(6, "row"))); h.p0 = row(3, mc::choose(6, "p0")); h.mu = {{0, 0}, {1, -1}, {2, 1}}; h.cov = {{1, 0.4}, {0.4, 0.7}}; int k = mc::choose(5, "data"); M x; for (int t = 0; t < 6; ++t) x.push_back({k == 4 ? 1e6 : 3 * mc::wave(t, k), k == 3 ? 0 : 2 * mc::wave(t, k + 10)}); check(h, x); mc::Hash s("3"); s.vec(h.p0).i(k); for (auto &r : h.a) s.vec(r); mc::state(s);
}
MC_SCENARIO(shapes, "every combination of 1..8 states, 1..5 dimensions, lengths 1,2,3,7,40,300; and degenerate initial distributions", 2, 16) {
    int N = 1 + mc::choose(8, "N"), L = 1 + mc::choose(5, "L"); static const int TT[] = {1, 2, 3, 7, 40, 300}; int T = mc::pick(TT, "T"); Hmm h; for (int i = 0; i < N; ++i) { V r(N), mu(L); double s = 0; for (int j = 0; j < N; ++j) { r[j] = i == j ? 5 : 1 + 0.5 * mc::wave(j, i); s += r[j]; } for (double &d : r) d /= s; for (int d = 0; d < L; ++d) mu[d] = 2 * mc::wave(d, i + 50); h.a.push_back(r); h.mu.push_back(mu); } h.p0 = row(N, mc::choose(2, "p0") ? N + 1 : N - 1);
    for (int d = 0; d < L; ++d) { V r(L); for (int e = 0; e < L; ++e) r[e] = d == e ? 1 + d * 0.3 : 0.2 * std::cos(d + e); h.cov.push_back(r); } M x; for (int t = 0; t < T; ++t) { V v(L); for (int d = 0; d < L; ++d) v[d] = 3 * mc::wave(t, d + 90); x.push_back(v); } check(h, x); mc::state(mc::Hash("s").i(N).i(L).i(T).d(h.p0[0]));
}
MC_SCENARIO(inverse, "every 1x1, 2x2 matrix over {-2,-1,0,0.5,1,3} and every symmetric 3x3 matrix over {-1,0,1,2}, plus dense sizes up to 20: inverse times matrix is the identity and the determinant's magnitude is right; singular matrices give determinant 0", 2, 24) {
    int n = 1 + mc::choose(4, "n"); M c; mc::Hash s("i"); if (n <= 2) { static const double E[] = {-2, -1, 0, 0.5, 1, 3}; c.assign(n, V(n)); for (auto &r : c) for (double &d : r) { d = mc::pick(E, "e"); s.d(d); } } else if (n == 3) { static const double E[] = {-1, 0, 1, 2}; c.assign(3, V(3)); for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) { c[i][j] = c[j][i] = mc::pick(E, "e"); s.d(c[i][j]); } } else { int z = 4 + mc::choose(17, "size"); c.assign(z, V(z)); for (int i = 0; i < z; ++i) for (int j = 0; j < z; ++j) c[i][j] = i == j ? 3 + i % 3 : mc::wave(i * z + j, 4) * 0.7; s.i(z); n = z; }
    Mat C(c), I(n, n); double d = -7; invert(C, n, I, &d); mc::step(); double want = std::fabs(det(c)); mc::require(C.get(n) == c, "input-modified", "matrix changed"); mc::check_close(d, want, 1e-9 * std::max(1.0, want), "determinant", "determinant"); if (want > 1e-9) { M v = I.get(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double p = 0; for (int k = 0; k < n; ++k) p += v[i][k] * c[k][j]; mc::check_close(p, i == j, 1e-8, "inverse", "inverse times matrix", i * n + j); } } mc::state(s);
}
MC_SCENARIO(densities, "gauss and loggauss for dimensions 1..4, 6 means x 6 points x 3 covariances, including far tails", 1, 4) {
    int L = 1 + mc::choose(4, "L"), k = mc::choose(3, "cov"), a = mc::choose(6, "mu"), b = mc::choose(6, "x"); M c(L, V(L)); for (int d = 0; d < L; ++d) for (int e = 0; e < L; ++e) c[d][e] = d == e ? (k == 0 ? 1 : k == 1 ? 0.01 : 5 + d) : (k == 2 ? 0.8 : 0); Hmm h; h.p0 = {1}; h.mu = {V(L)}; h.cov = c; V x(L), y(L), z(L); for (int d = 0; d < L; ++d) { h.mu[0][d] = a * mc::wave(d, a); x[d] = b == 5 ? 40 : b * mc::wave(d, b + 7); } M iv = inverse(c); double dt = det(c); Mat I(iv);
    double want = h.logb(x, 0, iv, dt), got = loggauss(x.data(), L, h.mu[0].data(), I, dt, y.data(), z.data()), g = gauss(x.data(), L, h.mu[0].data(), I, dt, y.data(), z.data()); mc::check_close(got, want, 1e-9 * (1 + std::fabs(want)), "loggauss", "log density"); mc::check_close(g, std::exp(want), 1e-9 * (std::exp(want) + 1e-300), "gauss", "density"); mc::step(2); mc::state(mc::Hash("d").i(L).i(k).i(a).i(b));
}
MC_SCENARIO(degenerate, "constant features (singular covariance) and unreachable observations, lengths 1..6: decoding terminates with valid states", 1, 4) { int T = 1 + mc::choose(6, "T"), k = mc::choose(4, "kind"); Hmm h; h.p0 = {0.5, 0.5}; h.a = {{0.5, 0.5}, {0.5, 0.5}}; h.mu = {{0, 0}, {1, 1}}; h.cov = k == 0 ? M{{0, 0}, {0, 0}} : k == 1 ? M{{1, 0}, {0, 0}} : k == 2 ? M{{1, 1}, {1, 1}} : M{{1, 0}, {0, 1}}; if (k == 3) { h.p0 = {0, 0}; h.a = {{0, 0}, {0, 0}}; } M x(T, V(2, 1.0)); model_t *m = make(h); Mat X(x); std::vector<int> q(T, -1); viterbi_decode(X, T, m, q.data()); hmm_close(m); mc::step(); for (int s : q) mc::require(s >= 0 && s < 2, "state-range", "state %d", s); mc::state(mc::Hash("g").i(T).i(k)); }
MC_SCENARIO(leaks, "no heap growth per decode or inversion", 0, 1) { int T = 1 + mc::choose(3); mc::leak_check("leak", [&] { Hmm h; h.p0 = {0.5, 0.5}; h.a = A2[0]; h.mu = {{0}, {1}}; h.cov = {{1}}; model_t *m = make(h); M x(T, V(1, 0.3)); Mat X(x); int q[3]; viterbi_decode(X, T, m, q); hmm_close(m); }); mc::state(T); }
MC_SCENARIO(long_sequences, "2..12 states, 1..8 dimensions, 5000 and 20000 (thorough 60000) frames, feature scales 1e-4, 1, 1e4, with sticky transitions: the decoded path stays optimal however long the recording", 2, 24) {
    static const int TT[] = {5000, 20000, 60000}, NN[] = {3, 2, 12}, LL[] = {2, 1, 8}; static const double A[] = {1, 1e-4, 1e4}; int T = TT[mc::choose(mc::tiered(2, 3), "T")], N = mc::pick(NN, "N"), L = mc::pick(LL, "L"); double a = mc::pick(A, "scale"); Hmm h; for (int i = 0; i < N; ++i) { V r(N, 0.02 / N), mu(L); r[i] += 0.98; for (int d = 0; d < L; ++d) mu[d] = a * 3 * mc::wave(d, i + 50); h.a.push_back(r); h.mu.push_back(mu); } h.p0.assign(N, 1.0 / N); for (int d = 0; d < L; ++d) { V r(L); for (int e = 0; e < L; ++e) r[e] = a * a * (d == e ? 1 + d * 0.3 : 0.2 * std::cos(d + e)); h.cov.push_back(r); } M x; for (int t = 0; t < T; ++t) { V v(L); for (int d = 0; d < L; ++d) v[d] = h.mu[t / 37 % N][d] + a * 1.5 * mc::wave(t, d + 90); x.push_back(v); } check(h, x); mc::state(mc::Hash("L").i(N).i(L).i(T).d(a));
}
MC_SCENARIO(scales, "1..12 dimensional covariances x 9 scales 1e-12..1e12, dense and diagonal: inverse, determinant, log densities", 1, 12) {
    int n = 1 + mc::choose(12, "n"); static const double A[] = {1, 1e-12, 1e-8, 1e-5, 1e-3, 1e3, 1e5, 1e8, 1e12}; double a = mc::pick(A, "scale"); bool diag = mc::choose(2, "diagonal"); M c(n, V(n)), u(c); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { u[i][j] = i == j ? 2 + i % 3 : diag ? 0 : 0.3 * std::cos(i + j); c[i][j] = a * u[i][j]; } Mat C(c), I(n, n); double d = -7; invert(C, n, I, &d); mc::step(); double want = std::fabs(det(u)) * std::pow(a, n); mc::check_close(d / want, 1, 1e-8, "determinant", "determinant ratio"); M v = I.get(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double p = 0; for (int k = 0; k < n; ++k) p += v[i][k] * c[k][j]; mc::check_close(p, i == j, 1e-8, "inverse", "inverse times matrix", i * n + j); }
    Hmm h; h.p0 = {1}; h.mu = {V(n, 0.0)}; h.cov = c; V x(n), y(n), z(n); for (int i = 0; i < n; ++i) x[i] = std::sqrt(a) * mc::wave(i, 3); double w = h.logb(x, 0, inverse(c), det(c)), g = loggauss(x.data(), n, h.mu[0].data(), I, d, y.data(), z.data()); mc::check_close(g, w, 1e-8 * (1 + std::fabs(w)), "loggauss", "log density"); mc::state(mc::Hash("sc").i(n).d(a).i(diag));
}
MC_SCENARIO(inverse_large, "sizes 1..24, 31, 33, 50, 63..66, 97, 100, 128, 130 x 7 structures (dominant diagonal, dominant cyclic diagonals by 1, 2 and half the size, anti-diagonal, scaled permutation, covariance of wide-ranging variances): inverse and determinant", 1, 35) {
    static const int N[] = {31, 33, 50, 63, 64, 65, 66, 97, 100, 128, 130}; int z = mc::choose(35, "size"), n = z < 24 ? z + 1 : N[z - 24], k = mc::choose(7, "structure"); M c(n, V(n)); double ld = 0; bool known = false;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double w = mc::wave(i * n + j, 4 + k); int sh = k == 1 ? 1 : k == 2 ? 2 : k == 3 ? n / 2 : 0; if (k < 4) c[i][j] = (j == (i + sh) % n ? 2.0 * n * (1 + i % 3) : 0) + w; else if (k == 4) { c[i][j] = j == n - 1 - i ? i + 1 : 0; known = true; } else if (k == 5) { c[i][j] = j == (i * 7 + 3) % n && n % 7 ? (i % 2 ? -1 : 1) * (1 + i % 5) : n % 7 == 0 && i == j ? 1 + i % 5 : 0; known = true; } else { double s = std::pow(10.0, i % 7 - 3), t = std::pow(10.0, j % 7 - 3); c[i][j] = s * t * (i == j ? 2 : 0.5 * std::cos(0.1 * (i - j))); } }
    if (known) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (c[i][j] != 0) ld += std::log(std::fabs(c[i][j]));
    if (!known) { std::vector<std::vector<long double> > a(n, std::vector<long double>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = c[i][j]; for (int i = 0; i < n; ++i) { int p = i; for (int r = i; r < n; ++r) if (fabsl(a[r][i]) > fabsl(a[p][i])) p = r; std::swap(a[i], a[p]); ld += std::log((double)fabsl(a[i][i])); for (int r = i + 1; r < n; ++r) { long double f = a[r][i] / a[i][i]; if (f != 0) for (int q = i; q < n; ++q) a[r][q] -= f * a[i][q]; } } }
    Mat C(c), I(n, n); double d = -7; invert(C, n, I, &d); mc::step(); mc::require(C.get(n) == c, "input-modified", "matrix changed"); if (std::fabs(ld) < 600) mc::check_close(std::log(d), ld, 1e-8 * (1 + n), "determinant", "log determinant"); M v = I.get(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double p = 0, m = 0; for (int q = 0; q < n; ++q) { p += v[i][q] * c[q][j]; m += std::fabs(v[i][q] * c[q][j]); } mc::check_close(p, i == j, 1e-9 * (1 + m), "inverse", "inverse times matrix", i * n + j); } mc::state(mc::Hash("il").i(n).i(k));
}
MC_SCENARIO(densities_large, "gauss and loggauss for 1..24, 40 and 100 dimensions, 4 points, precision matrices diagonal and banded", 1, 26) {
    int z = mc::choose(26, "L"), L = z < 24 ? z + 1 : z == 24 ? 40 : 100, k = mc::choose(2, "kind"), b = mc::choose(4, "x"); M iv(L, V(L)); V x(L), mu(L), y(L), w(L); double s = 0; for (int d = 0; d < L; ++d) { mu[d] = mc::wave(d, 2); x[d] = mu[d] + (b == 0 ? 0 : b == 1 ? 1 : b == 2 ? mc::wave(d, 9) : (d % 5 - 2) * 0.5); for (int e = 0; e < L; ++e) iv[d][e] = d == e ? 1 + d % 4 : k && std::abs(d - e) < 3 ? 0.2 : 0; } for (int d = 0; d < L; ++d) for (int e = 0; e < L; ++e) s += (x[d] - mu[d]) * iv[d][e] * (x[e] - mu[e]); double dt = 0.3 + b, want = -0.5 * (s + L * std::log(2 * M_PI) + std::log(dt)); Mat I(iv); double got = loggauss(x.data(), L, mu.data(), I, dt, y.data(), w.data()), g = gauss(x.data(), L, mu.data(), I, dt, y.data(), w.data()); mc::step(2); mc::check_close(got, want, 1e-9 * (1 + std::fabs(want)), "loggauss", "log density"); mc::check_close(g, std::exp(want), 1e-8 * std::exp(want) + 1e-300, "gauss", "density"); mc::state(mc::Hash("dl").i(L).i(k).i(b));
}
MC_SCENARIO(many_states, "100, 127..130, 200, 255..258, 300 states x 1, 2 dimensions x 30 frames, 3 transition structures (dense, cyclic with forbidden moves, sticky): the decoded path is optimal and visits every part of the model", 2, 30) {
    static const int NN[] = {130, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300}; int N = mc::pick(NN, "N"), L = 1 + mc::choose(2, "L"), k = mc::choose(3, "structure"), T = 30; Hmm h; h.p0.assign(N, 1.0 / N); for (int i = 0; i < N; ++i) { V r(N), mu(L); double s = 0; for (int j = 0; j < N; ++j) { int d = (j - i + N) % N; r[j] = k == 0 ? 1 + 0.5 * mc::wave(i * N + j, 7) : k == 1 ? (d % 37 == 0 || d % 11 == 3) : (i == j ? 50.0 : 1.0); s += r[j]; } for (double &v : r) v /= s; for (int d = 0; d < L; ++d) mu[d] = 3.0 * (d ? i % 17 : i); h.a.push_back(r); h.mu.push_back(mu); } for (int d = 0; d < L; ++d) { V r(L, 0.1); r[d] = 1 + d; h.cov.push_back(r); }
    M x; for (int t = 0; t < T; ++t) { V v(L); int s = k == 1 ? t * 37 % N : (t * 89 + 120) % N; for (int d = 0; d < L; ++d) v[d] = h.mu[s][d] + 0.7 * mc::wave(t, d + 4); x.push_back(v); } check(h, x); mc::state(mc::Hash("N").i(N).i(L).i(k));
}
