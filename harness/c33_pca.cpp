// C33: PCA projection: centred data projected on the eigenvectors of its scatter matrix, in order of decreasing variance.
#include "mc.h"
#include "refhmm.h"
#include "maths/pca/pca.h"
#include <numeric>
using refhmm::M; using refhmm::V; using refhmm::Mat;
// Jacobi eigenvalues, descending
static V eig(M a) { int n = (int)a.size(); double tot = 0; for (auto &r : a) for (double d : r) tot += d * d; for (int sweep = 0; sweep < 60; ++sweep) { double off = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) off += a[i][j] * a[i][j]; if (off <= 1e-31 * tot) break; for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) if (a[p][q] != 0) { double th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c; for (int k = 0; k < n; ++k) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; } for (int k = 0; k < n; ++k) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; } } } V e; for (int i = 0; i < n; ++i) e.push_back(a[i][i]); std::sort(e.rbegin(), e.rend()); return e; }
static void check(const M &x, int nc, int extra) {
    int n = (int)x.size(), m = (int)x[0].size() - extra; Mat X(x); pca_project(X, n, m, nc); mc::step(); M y = X.get(m + extra); V mean(m, 0.0); for (auto &r : x) for (int j = 0; j < m; ++j) mean[j] += r[j] / n; M c(n, V(m)), s(m, V(m, 0.0)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c[i][j] = x[i][j] - mean[j]; for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) for (int i = 0; i < n; ++i) s[a][b] += c[i][a] * c[i][b]; V ev = eig(s); double sc = 1e-12; for (double d : ev) sc = std::max(sc, std::fabs(d));
    for (int i = 0; i < n; ++i) { for (int j = nc; j < m; ++j) mc::check_close(y[i][j], c[i][j], 1e-9 * (1 + std::sqrt(sc)), "rest", "column beyond the components (centred data)", i * m + j); for (int j = m; j < m + extra; ++j) mc::require(y[i][j] == x[i][j], "extra-column", "column outside the matrix changed"); }
    // component k has the k-th largest eigenvalue as its sum of squares, different components are uncorrelated
    for (int k = 0; k < nc; ++k) for (int l = 0; l <= k; ++l) { double d = 0; for (int i = 0; i < n; ++i) d += y[i][k] * y[i][l]; mc::check_close(d, k == l ? ev[k] : 0, 1e-8 * sc, k == l ? "variance" : "uncorrelated", k == l ? "sum of squares of component" : "product of components", k); }
    // y lies in the span: S-weighted identity  sum_i y_ik c_i = lambda_k u_k, whose norm is lambda_k
    for (int k = 0; k < nc; ++k) { double nn = 0; V bp(m, 0.0); for (int a = 0; a < m; ++a) { double v = 0; for (int i = 0; i < n; ++i) v += y[i][k] * c[i][a]; bp[a] = v; nn += v * v; } mc::check_close(nn, ev[k] * ev[k], 1e-7 * sc * sc, "direction", "squared back-projection of component", k); if (ev[k] > 1e-6 * sc) for (int i = 0; i < n; ++i) { double p = 0; for (int a = 0; a < m; ++a) p += c[i][a] * bp[a] / ev[k]; mc::check_close(y[i][k], p, 1e-6 * std::sqrt(sc), "projection", "projected value", i * nc + k); } }
    if (nc == m) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { double a = 0, b = 0; for (int k = 0; k < m; ++k) { a += (c[i][k] - c[j][k]) * (c[i][k] - c[j][k]); b += (y[i][k] - y[j][k]) * (y[i][k] - y[j][k]); } mc::check_close(b, a, 1e-8 * sc, "distance", "squared distance between rows", i * n + j); }
}
MC_SCENARIO(words, "every 2x2, 3x2, 4x2 matrix over {0,1,2,-3} and 3x3 and 4x3 over {0,1,-2}, every number of components", 3, 48) {
    int sh = mc::choose(5, "shape"); static const int R[] = {2, 3, 4, 3, 4}, C[] = {2, 2, 2, 3, 3}; int n = R[sh], m = C[sh]; static const double E[] = {0, 1, -2}, F[] = {0, 1, 2, -3}; M x(n, V(m)); mc::Hash h("w"); h.i(sh); for (auto &r : x) for (double &d : r) { d = m == 2 ? mc::pick(F, "e") : mc::pick(E, "e"); h.d(d); } int nc = mc::choose(m + 1, "components"); check(x, nc, 0); mc::state(h.i(nc));
}
MC_SCENARIO(shapes, "every size 1..8 rows+1 x 1..10 columns, 30 rows x 21..24 columns, every number of components up to the column count, 3 data kinds (dense, graded scales, nearly collinear), with and without an extra column beyond the matrix", 2, 20) {
    int m = 1 + mc::choose(14, "cols"), n; if (m > 10) { m += 10; n = 30; } else n = 2 + mc::choose(8, "rows") * 2; int k = mc::choose(3, "kind"), extra = mc::choose(2, "extra"), nc = m > 10 ? (mc::choose(2, "nc") ? 20 : m) : mc::choose(m + 1, "nc"); M x(n, V(m + extra)); for (int i = 0; i < n; ++i) for (int j = 0; j < m + extra; ++j) x[i][j] = k == 0 ? mc::wave(i * 31 + j, 3) : k == 1 ? mc::wave(i * 31 + j, 4) * std::pow(3.0, (j * 7 % m) - m / 2) : mc::wave(i, 2) * (j + 1) + 1e-3 * mc::wave(i * 31 + j, 5) + 100; check(x, nc, extra); mc::state(mc::Hash("s").i(n).i(m).i(k).i(nc).i(extra));
}
MC_SCENARIO(diagonal, "axis-aligned data: every permutation of variances over 2..5 columns (already diagonal scatter matrices)", 2, 20) { int m = 2 + mc::choose(4, "cols"); std::vector<int> left(m); std::iota(left.begin(), left.end(), 0); V sd; for (int j = 0; j < m; ++j) { int k = mc::choose((int)left.size(), "next"); sd.push_back(1 + left[k]); left.erase(left.begin() + k); } M x; for (int j = 0; j < m; ++j) for (int s = -1; s <= 1; s += 2) { V r(m, 0.0); r[j] = s * sd[j]; x.push_back(r); } check(x, m, 0); check(x, 1, 0); mc::state(mc::Hash("d").vec(sd)); }
MC_SCENARIO(degenerate, "constant data, one row, rank-one data, 1..6 columns, all component counts", 1, 6) { int m = 1 + mc::choose(6, "cols"), k = mc::choose(3, "kind"), nc = mc::choose(m + 1, "nc"); M x(k == 1 ? 1 : 4, V(m)); for (size_t i = 0; i < x.size(); ++i) for (int j = 0; j < m; ++j) x[i][j] = k == 2 ? (i + 1.0) * (j - 1.5) : 2.5; check(x, nc, 0); mc::state(mc::Hash("g").i(m).i(k).i(nc)); }
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int m = 1 + mc::choose(4); mc::leak_check("leak", [&] { M x(3, V(m)); for (int i = 0; i < 3; ++i) for (int j = 0; j < m; ++j) x[i][j] = i * j; Mat X(x); pca_project(X, 3, m, m); }); mc::state(m); }
MC_SCENARIO(realistic, "200 and 500 rows x 20, 36, 60 columns at scales 1e-6, 1, 1e6, dense, graded and nearly collinear data, 1, 20 and all components", 2, 18) {
    static const int R[] = {200, 500}, C[] = {36, 20, 60}; static const double A[] = {1, 1e-6, 1e6}; int m = mc::pick(C, "cols"), k = mc::choose(3, "kind"), n = mc::pick(R, "rows"); double a = mc::pick(A, "scale"); int q = mc::choose(3, "nc"), nc = q == 0 ? 20 : q == 1 ? 1 : m; if (q == 2 && n > 200) return; M x(n, V(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x[i][j] = k == 0 ? mc::wave(i * 67 + j, 3) : k == 1 ? mc::wave(i * 67 + j, 4) * std::pow(1.3, (j * 7 % m) - m / 2) : mc::wave(i, 2) * (j + 1) + 1e-2 * mc::wave(i * 67 + j, 5); M y(x); if (a == 1) { check(x, std::min(nc, 4), 0); } for (V &r : x) for (double &d : r) d *= a; Mat X(x), Y(y); pca_project(X, n, m, nc); pca_project(Y, n, m, nc); mc::step(2); M p = X.get(m), w = Y.get(m); V ev(nc, 0.0); double top = 0; for (int c = 0; c < nc; ++c) { for (int i = 0; i < n; ++i) ev[c] += w[i][c] * w[i][c]; top = std::max(top, ev[c]); } for (int c = 0; c < nc; ++c) { double e = 0; for (int i = 0; i < n; ++i) e += p[i][c] * p[i][c] / (a * a); mc::check_close(e / top, ev[c] / top, 1e-9, "scaling", "variance of component", c); if (c) mc::require(ev[c] <= ev[c - 1] * (1 + 1e-9) + 1e-12 * top, "order", "component %d has more variance than the one before", c); } mc::state(mc::Hash("r").i(n).i(m).i(k).d(a).i(nc));
}
MC_SCENARIO(scales, "every 3x2 matrix over {0,1,2,-3} and 4x4 dense data x 8 scales 2^-200..2^200: variances scale with the square, order and decorrelation kept", 3, 48) {
    static const int E[] = {-200, -60, -30, -10, 10, 30, 60, 200}; int e = mc::pick(E, "scale"); bool dense = mc::choose(2, "dense"); int n = dense ? 4 : 3, m = dense ? 4 : 2; static const double F[] = {0, 1, 2, -3}; M x(n, V(m)); mc::Hash h("s"); h.i(e).i(dense); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { x[i][j] = dense ? mc::wave(i * 4 + j, 3) : mc::pick(F, "e"); h.d(x[i][j]); } M y(x); for (V &r : y) for (double &d : r) d = std::ldexp(d, e); Mat X(x), Y(y); pca_project(X, n, m, m); pca_project(Y, n, m, m); mc::step(2); M p = X.get(m), q = Y.get(m); for (int c = 0; c < m; ++c) { double a = 0, b = 0; for (int i = 0; i < n; ++i) { a += p[i][c] * p[i][c]; double v = std::ldexp(q[i][c], -e); b += v * v; } mc::check_close(b, a, 1e-9, "scaling", "variance of component", c); } mc::state(h);
}
MC_SCENARIO(wide, "100, 129, 150 columns (thorough 200, 256 too) and 20 rows more, or 40 rows: dense and graded data; 4, 65 and all components", 2, 12) {
    static const int C[] = {129, 100, 150, 200, 256}; int m = C[mc::choose(mc::tiered(3, 5), "cols")], k = mc::choose(2, "kind"), n = mc::choose(2, "rows") ? 40 : m + 20, q = mc::choose(3, "components"), nc = q == 0 ? 4 : q == 1 ? 65 : m; M x(n, V(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x[i][j] = k == 0 ? mc::wave(i * 311 + j, 3) : mc::wave(i * 311 + j, 4) * std::pow(1.05, (j * 7 % m) - m / 2); check(x, nc, 0); mc::state(mc::Hash("w").i(n).i(m).i(k).i(nc));
}
MC_SCENARIO(offsets, "every 3x2 matrix over {0,1,2,-3} and dense data of 4x4, 40x3, 60x8 and 300x12 x offsets 10, 1e3, 1e5, 1e6 of one or all columns, x scales 1, 2^30: the position of the data does not affect its components", 3, 48) {
    static const double O[] = {1e6, 1e5, 1e3, 10}; static const int E[] = {0, 30}, N[] = {3, 4, 40, 60, 300}, C[] = {2, 4, 3, 8, 12}; static const double F[] = {0, 1, 2, -3}; int k = mc::choose(5, "data"), n = N[k], m = C[k]; double o = mc::pick(O, "offset"); bool all = mc::choose(2, "all") != 0; int e = mc::pick(E, "scale"); M x(n, V(m)); mc::Hash h("o"); h.i(k).d(o).i(all).i(e); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { double v = k ? mc::wave(i * 16 + j, 3) * (1 + j % 3) : mc::pick(F, "e"); h.d(v); x[i][j] = std::ldexp(v + (all ? o + 7 * j : j == 1 ? -o : 0), e); } for (int nc = 1; nc <= m; nc += m > 4 ? m - 1 : 1) { check(x, nc, 0); } mc::state(h);
}
