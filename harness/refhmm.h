// Brute-force reference for Gaussian hidden Markov models with a tied full covariance: everything is a sum or maximum over all N^T state paths.
#pragma once
#include "refdsp.h"
#include "hmm/hmm.h"
#include <cstdlib>
namespace refhmm { using ref::V; typedef std::vector<V> M;
inline double det(M a) { int n = (int)a.size(); double d = 1; for (int i = 0; i < n; ++i) { int p = i; for (int r = i; r < n; ++r) if (std::fabs(a[r][i]) > std::fabs(a[p][i])) p = r; if (a[p][i] == 0) return 0; if (p != i) { std::swap(a[p], a[i]); d = -d; } d *= a[i][i]; for (int r = i + 1; r < n; ++r) { double f = a[r][i] / a[i][i]; for (int c = i; c < n; ++c) a[r][c] -= f * a[i][c]; } } return d; }
inline M inverse(M a) { int n = (int)a.size(); M b(n, V(n, 0.0)); for (int i = 0; i < n; ++i) b[i][i] = 1; for (int i = 0; i < n; ++i) { int p = i; for (int r = i; r < n; ++r) if (std::fabs(a[r][i]) > std::fabs(a[p][i])) p = r; std::swap(a[p], a[i]); std::swap(b[p], b[i]); double f = a[i][i]; for (int c = 0; c < n; ++c) { a[i][c] /= f; b[i][c] /= f; } for (int r = 0; r < n; ++r) if (r != i) { double g = a[r][i]; for (int c = 0; c < n; ++c) { a[r][c] -= g * a[i][c]; b[r][c] -= g * b[i][c]; } } } return b; }
struct Hmm { V p0; M a, mu, cov; int N() const { return (int)p0.size(); } int L() const { return (int)cov.size(); }
    double logb(const V &x, int j, const M &inv, double dt) const { double s = 0; int L = (int)x.size(); for (int d = 0; d < L; ++d) for (int e = 0; e < L; ++e) s += (x[d] - mu[j][d]) * inv[d][e] * (x[e] - mu[j][e]); return -0.5 * (s + L * std::log(2 * M_PI) + std::log(std::fabs(dt))); }
    M obs(const M &x) const { M inv = inverse(cov), b(x.size(), V(N())); double d = det(cov); for (size_t t = 0; t < x.size(); ++t) for (int j = 0; j < N(); ++j) b[t][j] = logb(x[t], j, inv, d); return b; } };
template <class F> void paths(int N, int T, F f) { std::vector<int> q(T, 0); for (;;) { f(q); int i = 0; while (i < T && ++q[i] == N) q[i++] = 0; if (i == T) return; } }
inline double ln(double v) { return v > 0 ? std::log(v) : -INFINITY; }
inline double score(const Hmm &h, const M &lb, const std::vector<int> &q) { double s = ln(h.p0[q[0]]) + lb[0][q[0]]; for (size_t t = 1; t < q.size(); ++t) s += ln(h.a[q[t - 1]][q[t]]) + lb[t][q[t]]; return s; }
// C-style copies
struct Mat { std::vector<double *> p; explicit Mat(int r, int c) { for (int i = 0; i < r; ++i) p.push_back((double *)malloc(c * sizeof(double))); } Mat(const M &m) { for (const V &v : m) { p.push_back((double *)malloc(v.size() * sizeof(double))); std::copy(v.begin(), v.end(), p.back()); } } ~Mat() { for (double *d : p) free(d); } Mat(const Mat &) = delete; operator double **() { return p.data(); } M get(int c) const { M m; for (double *d : p) m.push_back(V(d, d + c)); return m; } };
inline model_t *make(const Hmm &h) { auto row = [](const V &v) { double *d = (double *)malloc(v.size() * sizeof(double)); std::copy(v.begin(), v.end(), d); return d; }; auto mat = [&](const M &m) { double **r = (double **)malloc(m.size() * sizeof(double *)); for (size_t i = 0; i < m.size(); ++i) r[i] = row(m[i]); return r; };
    model_t *m = (model_t *)malloc(sizeof(model_t)); m->N = h.N(); m->L = h.L(); m->p0 = row(h.p0); m->a = mat(h.a); m->mu = mat(h.mu); m->cov = mat(h.cov); return m; }
inline Hmm read(const model_t *m) { Hmm h; h.p0.assign(m->p0, m->p0 + m->N); for (int i = 0; i < m->N; ++i) { h.a.push_back(V(m->a[i], m->a[i] + m->N)); h.mu.push_back(V(m->mu[i], m->mu[i] + m->L)); } for (int i = 0; i < m->L; ++i) h.cov.push_back(V(m->cov[i], m->cov[i] + m->L)); return h; }
}
