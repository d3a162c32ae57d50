// C30: HMM training: forward-backward gives the exact posteriors, re-estimation is the EM update, and the likelihood never falls.
#include "mc.h"
#include "refhmm.h"
using namespace refhmm;
static bool chooseRand = false; static unsigned lcg = 1;
extern "C" int __wrap_rand() { if (chooseRand) { static const int v[] = {RAND_MAX / 3, 0, RAND_MAX}; return mc::pick(v, "rand"); } lcg = lcg * 1103515245u + 12345u; return (int)(lcg >> 1); }
extern "C" void __wrap_srand(unsigned) { lcg = 1; }
struct Xi { std::vector<double **> p; int T, N; Xi(int T, int N) : T(T), N(N) { for (int t = 0; t < T; ++t) { double **r = (double **)malloc(N * sizeof(double *)); for (int i = 0; i < N; ++i) r[i] = (double *)malloc(N * sizeof(double)); p.push_back(r); } } ~Xi() { for (double **r : p) { for (int i = 0; i < N; ++i) free(r[i]); free(r); } } };
struct Post { M gamma; std::vector<M> xi; double ll; };
// exact posteriors by the (unscaled) recursions in long double; agreement with summing all paths is itself checked by the harness
static Post exact(const V &p0, const M &a, const M &b) {
    int N = (int)p0.size(), T = (int)b.size(); typedef std::vector<std::vector<long double>> LM; LM al(T, std::vector<long double>(N)), be(T, std::vector<long double>(N, 1)); long double ll = 0;
    for (int t = 0; t < T; ++t) { long double s = 0; for (int j = 0; j < N; ++j) { long double v = 0; if (t == 0) v = p0[j]; else for (int i = 0; i < N; ++i) v += al[t - 1][i] * a[i][j]; al[t][j] = v * b[t][j]; s += al[t][j]; } ll += std::log(s); for (auto &v : al[t]) v /= s; }
    for (int t = T - 2; t >= 0; --t) { long double s = 0; for (int i = 0; i < N; ++i) { long double v = 0; for (int j = 0; j < N; ++j) v += a[i][j] * b[t + 1][j] * be[t + 1][j]; be[t][i] = v; s += v; } for (auto &v : be[t]) v /= s; }
    Post p; p.ll = (double)ll; for (int t = 0; t < T; ++t) { V g(N); long double s = 0; for (int i = 0; i < N; ++i) s += al[t][i] * be[t][i]; for (int i = 0; i < N; ++i) g[i] = (double)(al[t][i] * be[t][i] / s); p.gamma.push_back(g); }
    for (int t = 0; t + 1 < T; ++t) { M x(N, V(N)); long double s = 0; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) s += al[t][i] * a[i][j] * b[t + 1][j] * be[t + 1][j]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) x[i][j] = (double)(al[t][i] * a[i][j] * b[t + 1][j] * be[t + 1][j] / s); p.xi.push_back(x); }
    return p;
}
static void checkFB(const V &p0, const M &a, const M &b, int iter) {
    int N = (int)p0.size(), T = (int)b.size(); Mat A(a), B(b), G(T, N); Xi X(T, N); double ll = -3.25, l1 = 0, l2 = -77; V p(p0); forward_backwards(X.p.data(), G, &ll, &l1, &l2, iter, N, T, p.data(), A, B); mc::step(); mc::require(p == p0 && A.get(N) == a && B.get(N) == b, "input-modified", "inputs changed"); mc::require(l1 == -3.25, "previous", "previous log likelihood %g not carried over", l1);
    Post w = exact(p0, a, b); mc::check_close(ll, w.ll, 1e-8 * (1 + std::fabs(w.ll)), "loglik", "log likelihood"); M g = G.get(N); for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) { mc::check_close(g[t][i], w.gamma[t][i], 1e-9, "gamma", "posterior", t * N + i); if (t + 1 < T) for (int j = 0; j < N; ++j) mc::check_close(X.p[t][i][j], w.xi[t][i][j], 1e-9, "xi", "transition posterior", (t * N + i) * N + j); }
    if (T <= 30 && std::pow((double)N, T) <= 300) { double tot = 0; M gg(T, V(N, 0.0)); paths(N, T, [&](const std::vector<int> &q) { double v = p0[q[0]] * b[0][q[0]]; for (int t = 1; t < T; ++t) v *= a[q[t - 1]][q[t]] * b[t][q[t]]; tot += v; for (int t = 0; t < T; ++t) gg[t][q[t]] += v; }); mc::check_close(ll, std::log(tot), 1e-8 * (1 + std::fabs(std::log(tot))), "loglik", "log likelihood by enumeration of paths"); for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) mc::check_close(g[t][i], gg[t][i] / tot, 1e-9, "gamma", "posterior by enumeration of paths", t * N + i); }
}
static V row(int N, int k) { V r(N, 0.0); if (k < N) { r[k] = 1; return r; } double s = 0; for (int i = 0; i < N; ++i) { r[i] = k == N ? 1 : k == N + 1 ? 1 + i * i : 10.0 / (1 + i); s += r[i]; } for (double &d : r) d /= s; return r; }
MC_SCENARIO(posteriors, "2 states: every transition matrix and initial distribution from {unit vectors, uniform, skewed both ways} x every observation-likelihood word of length 1..5 (thorough 6) over 3 likelihood pairs; every sum taken over all state paths", 3, 48) {
    V p0 = row(2, mc::choose(5, "p0")); M a; for (int i = 0; i < 2; ++i) a.push_back(row(2, mc::choose(5, "row"))); int T = 1 + mc::choose(mc::tiered(5, 6), "T"); static const V B[] = {{0.5, 0.1}, {1e-5, 2.0}, {0.3, 1e-9}}; M b; mc::Hash h("p"); h.vec(p0).vec(a[0]).vec(a[1]); for (int t = 0; t < T; ++t) { int k = mc::choose(3, "b"); h.i(k); b.push_back(B[k]); } checkFB(p0, a, b, 1 + mc::choose(2, "iter")); mc::state(h);
}
MC_SCENARIO(three, "3 states, every row combination from 6 shapes, 4 likelihood sequences of length 5", 2, 36) { V p0 = row(3, mc::choose(6, "p0")); M a; mc::Hash h("t"); for (int i = 0; i < 3; ++i) { a.push_back(row(3, mc::choose(6, "row"))); h.vec(a[i]); } int k = mc::choose(4, "b"); M b; for (int t = 0; t < 5; ++t) { V r(3); for (int j = 0; j < 3; ++j) r[j] = k == 3 ? std::pow(10.0, -3 * ((t + j) % 3)) : 1.05 + mc::wave(t * 3 + j, k); b.push_back(r); } checkFB(p0, a, b, 3); mc::state(h.vec(p0).i(k)); }
MC_SCENARIO(long_sequences, "posteriors and one EM step for 1..4 states and 300, 2500 (thorough 20000) frames with likelihoods around 1e-40, 1, 1e40: nothing under- or overflows over a long recording", 2, 16) {
    int N = 1 + mc::choose(4, "N"), s = mc::choose(3, "scale"), k = mc::choose(2, "rows"); static const int L[] = {300, 2500, 20000}; int T = L[mc::choose(mc::tiered(2, 3), "T")]; V p0 = row(N, N + 2); M a; for (int i = 0; i < N; ++i) { V r(N); double q = 0; for (int j = 0; j < N; ++j) { r[j] = k ? 1.0 + (i * 3 + j) % 4 : i == j ? 50 : 1; q += r[j]; } for (double &d : r) d /= q; a.push_back(r); }
    M b; for (int t = 0; t < T; ++t) { V r(N); for (int j = 0; j < N; ++j) r[j] = (s == 0 ? 1e-40 : s == 1 ? 1 : 1e40) * (1.05 + mc::wave(t * 7 + j, 2)); b.push_back(r); } checkFB(p0, a, b, 2); mc::state(mc::Hash("L").i(N).i(s).i(k).i(T));
}
static Hmm start(int N, int L, int k) { Hmm h; for (int i = 0; i < N; ++i) { V r(N), mu(L); double s = 0; for (int j = 0; j < N; ++j) { r[j] = 1.1 + mc::wave(i * N + j, k); s += r[j]; } for (double &d : r) d /= s; for (int d = 0; d < L; ++d) mu[d] = (0.3 + i) * mc::wave(i * L + d, k + 20); h.a.push_back(r); h.mu.push_back(mu); } V p(N); double s = 0; for (int i = 0; i < N; ++i) { p[i] = 1 + i; s += p[i]; } for (double &d : p) d /= s; h.p0 = p; for (int d = 0; d < L; ++d) { V r(L, 0.0); r[d] = 1 + 0.5 * d; if (d) r[d - 1] = 0.2; if (d + 1 < L) r[d + 1] = 0.2; h.cov.push_back(r); } return h; }
static M data(int T, int L, int k) { M x; for (int t = 0; t < T; ++t) { V v(L); for (int d = 0; d < L; ++d) v[d] = k == 0 ? 2 * mc::wave(t, d + 5) : k == 1 ? ((t / 4) % 2 ? 3 : -1) + 0.5 * mc::wave(t, d + 8) : k == 2 ? (t % 3) * (d + 1.0) + 0.3 * mc::wave(t, d) : 100 + mc::wave(t, d + 30); x.push_back(v); } return x; }
static M expB(const Hmm &h, const M &x) { M b = h.obs(x); for (V &r : b) for (double &d : r) d = std::exp(d); return b; }
static Hmm em(const Hmm &h, const M &x, const Post &p) {
    int N = h.N(), L = h.L(), T = (int)x.size(); Hmm g = h; g.p0 = p.gamma[0]; for (V &r : g.cov) std::fill(r.begin(), r.end(), 0.0);
    for (int i = 0; i < N; ++i) { double s = 0, all = 0; for (int t = 0; t < T; ++t) { if (t + 1 < T) s += p.gamma[t][i]; all += p.gamma[t][i]; } for (int j = 0; j < N; ++j) { double v = 0; for (int t = 0; t + 1 < T; ++t) v += p.xi[t][i][j]; g.a[i][j] = s == 0 ? 0 : v / s; } for (int d = 0; d < L; ++d) { double v = 0; for (int t = 0; t < T; ++t) v += p.gamma[t][i] * x[t][d]; g.mu[i][d] = v / all; for (int e = 0; e < L; ++e) for (int t = 0; t < T; ++t) g.cov[d][e] += p.gamma[t][i] * (x[t][d] - h.mu[i][d]) * (x[t][e] - h.mu[i][e]) / T; } }
    return g;
}
static double dist(const Hmm &a, const Hmm &b) { double m = 0; auto f = [&](const V &x, const V &y) { for (size_t i = 0; i < x.size(); ++i) { double e = std::fabs(x[i] - y[i]) / (1 + std::fabs(y[i])); if (!(e <= m)) m = e; } }; f(a.p0, b.p0); for (int i = 0; i < a.N(); ++i) { f(a.a[i], b.a[i]); f(a.mu[i], b.mu[i]); } for (int i = 0; i < a.L(); ++i) f(a.cov[i], b.cov[i]); return m; }
MC_SCENARIO(reestimate, "1..4 states x 1..3 dimensions x lengths 2..9,30,700 x 4 data kinds x 3 starting models: baum_welch equals the EM update for the given posteriors", 2, 16) {
    int N = 1 + mc::choose(4, "N"), L = 1 + mc::choose(3, "L"), ti = mc::choose(10, "T"), T = ti == 9 ? 700 : ti == 8 ? 30 : 2 + ti, k = mc::choose(4, "data"), m = mc::choose(3, "model"); Hmm h = start(N, L, m); M x = data(T, L, k); if (k == 3) for (V &r : h.mu) for (double &d : r) d += 100; Post p = exact(h.p0, h.a, expB(h, x)); model_t *mm = make(h); Mat X(x), G(p.gamma); Xi xi(T, N); for (int t = 0; t + 1 < T; ++t) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) xi.p[t][i][j] = p.xi[t][i][j];
    baum_welch(mm->p0, mm->a, mm->mu, mm->cov, N, T, L, X, xi.p.data(), G); mc::step(); Hmm got = read(mm); hmm_close(mm); mc::require(X.get(L) == x && G.get(N) == p.gamma, "input-modified", "data changed"); double e = dist(got, em(h, x, p)); mc::require(e <= 1e-8, "em-update", "re-estimated model differs from the EM update by %g", e); mc::state(mc::Hash("r").i(N).i(L).i(T).i(k).i(m));
}
// training stops after 50 rounds, or after a round that gained less than a ten-thousandth of the previous round's log likelihood over
// that of the first frame in the second round (ref)
static double firstFrame(const Hmm &g, const M &x) { M b = expB(g, M(1, x[0])); double s = 0; for (int i = 0; i < g.N(); ++i) s += g.p0[i] * b[0][i]; return std::log(s); }
MC_SCENARIO(training, "2..4 states x 1..3 dimensions x 4 data kinds x 3 starting models x lengths 12,40,600: training is 1 to 50 whole EM steps, each no less likely than the last; distributions stay normalised, the covariance symmetric", 2, 16) {
    int N = 2 + mc::choose(3, "N"), L = 1 + mc::choose(3, "L"), k = mc::choose(4, "data"), m = mc::choose(3, "model"), T = 12; { int ti = mc::choose(3, "T"); T = ti == 2 ? 600 : ti ? 40 : 12; } Hmm h = start(N, L, m); M x = data(T, L, k); if (k == 3) for (V &r : h.mu) for (double &d : r) d += 100; model_t *mm = make(h); Mat X(x); hmm_train(X, T, mm); mc::step(); Hmm got = read(mm); hmm_close(mm); mc::require(X.get(L) == x, "input-modified", "data changed");
    Hmm g = h; double prev = -INFINITY; bool found = false, bad = false; for (int it = 1; it <= 50 && !found && !bad; ++it) { Post p = exact(g.p0, g.a, expB(g, x)); if (!(p.ll == p.ll) || std::fabs(det(g.cov)) < 1e-9) { bad = true; break; } mc::require(p.ll >= prev - 1e-6 * (1 + std::fabs(p.ll)), "reference", "EM lowered the likelihood"); prev = p.ll; g = em(g, x, p); if (dist(got, g) <= 1e-6) { found = true; mc::outcome(it); } }
    if (!bad) { mc::require(found, "em-iterates", "trained model is none of the EM iterates"); Post p = exact(got.p0, got.a, expB(got, x)); mc::require(p.ll >= exact(h.p0, h.a, expB(h, x)).ll - 1e-9, "worse", "training made the data less likely"); double s = 0; for (double d : got.p0) s += d; mc::check_close(s, 1, 1e-9, "normalised", "sum of initial probabilities"); for (V &r : got.a) { s = 0; for (double d : r) s += d; mc::require(std::fabs(s - 1) < 1e-9 || s == 0, "normalised", "transition row sums to %g", s); } for (int d = 0; d < L; ++d) for (int e = 0; e < L; ++e) mc::check_close(got.cov[d][e], got.cov[e][d], 1e-9 * (1 + std::fabs(got.cov[d][e])), "symmetric", "covariance", d * L + e); }
    mc::outcome(mc::Hash("o").i(bad)); mc::state(mc::Hash("t").i(N).i(L).i(T).i(k).i(m));
}
MC_SCENARIO(converges, "well separated clusters, 2..4 states: after training each cluster's frames decode to one state of their own, from every cyclic assignment of initial means", 1, 3) {
    int N = 2 + mc::choose(3, "N"), rot = mc::choose(N, "rotation"), L = 1 + mc::choose(2, "L"), T = N * 12; Hmm h = start(N, L, 0); M x; for (int t = 0; t < T; ++t) { int c = t / 6 % N; V v(L); for (int d = 0; d < L; ++d) v[d] = 10 * c * (d ? -1 : 1) + 0.4 * mc::wave(t, d); x.push_back(v); } for (int i = 0; i < N; ++i) for (int d = 0; d < L; ++d) h.mu[i][d] = 10 * ((i + rot) % N) * (d ? -1 : 1) + 1.5; model_t *m = make(h); Mat X(x); hmm_train(X, T, m); std::vector<int> q(T); viterbi_decode(X, T, m, q.data()); hmm_close(m); mc::step(2); for (int t = 0; t < T; ++t) mc::require(((q[t] + rot) % N) == t / 6 % N, "clusters", "frame %d decoded as state %d", t, q[t]); mc::state(mc::Hash("c").i(N).i(rot).i(L));
}
static void checkInit(int N, int L, int T, int k, bool every) {
    M x = data(T, L, k); Mat X(x); chooseRand = every; model_t *m = hmm_init(X, T, L, N); chooseRand = false; mc::step(); Hmm h = read(m); int mn = m->N, ml = m->L; hmm_close(m); mc::require(mn == N && ml == L && X.get(L) == x, "shape", "model shape %d %d", mn, ml); double s = 0; for (double d : h.p0) { s += d; mc::require(d > 0, "positive", "probability %g", d); } mc::check_close(s, 1, 1e-9, "normalised", "sum of initial probabilities"); for (V &r : h.a) { s = 0; for (double d : r) { s += d; mc::require(d > 0, "positive", "probability %g", d); } mc::check_close(s, 1, 1e-9, "normalised", "transition row sum"); }
    for (int d = 0; d < L; ++d) { double mean = 0, var = 0; for (auto &v : x) mean += v[d] / T; for (auto &v : x) var += (v[d] - mean) * (v[d] - mean) / (T - 1); for (int e = 0; e < L; ++e) mc::check_close(h.cov[d][e], d == e ? var : 0, 1e-9 * (1 + var), "covariance", "covariance", d * L + e); for (int i = 0; i < N; ++i) mc::require(std::fabs(h.mu[i][d] - mean) <= 0.25 * std::sqrt(var) + 1e-9, "means", "mean %g too far from %g", h.mu[i][d], mean); }
    mc::state(mc::Hash("i").i(N).i(L).i(T).i(k).vec(h.p0).vec(h.a[0]).vec(h.mu[0]));
}
MC_SCENARIO(init, "initial models for 1..5 states x 1..3 dimensions x lengths 2..6,50 x 4 data kinds: normalised positive distributions, means within a quarter deviation of the data mean, diagonal sample variances", 2, 15) {
    int N = 1 + mc::choose(5, "N"), L = 1 + mc::choose(3, "L"), ti = mc::choose(6, "T"), T = ti == 5 ? 50 : 2 + ti, k = mc::choose(4, "data"); checkInit(N, L, T, k, false);
}
MC_SCENARIO(init_random, "every outcome in {0, a third, the maximum} of every random number drawn while initialising 1-2 states in 1-2 dimensions", 3, 27) { int s = mc::choose(3, "shape"); checkInit(s == 0 ? 1 : 2, s == 1 ? 1 : s == 0 ? 2 : mc::tiered(1, 2), 5, 0, true); }
MC_SCENARIO(degenerate, "constant data, constant features, two frames, an unreachable state: training terminates, and nothing is accessed out of bounds", 1, 4) { int k = mc::choose(4, "kind"), N = 1 + mc::choose(4, "N"), T = 2 + mc::choose(5, "T"); Hmm h = start(N, 2, 1); M x = data(T, 2, 0); for (auto &v : x) { if (k == 0) v = {1, 1}; if (k == 1) v[1] = 5; } if (k == 2) h.mu[0] = {1e8, 1e8}; if (k == 3) h.p0 = row(N, 0), h.a.assign(N, row(N, 0)); model_t *m = make(h); Mat X(x); hmm_train(X, T, m); std::vector<int> q(T, -1); viterbi_decode(X, T, m, q.data()); hmm_close(m); mc::step(2); for (int s : q) mc::require(s >= 0 && s < N, "state-range", "state %d", s); mc::state(mc::Hash("d").i(k).i(N).i(T)); }
MC_SCENARIO(leaks, "no heap growth per model, training or decode", 0, 1) { int N = 1 + mc::choose(3); mc::leak_check("leak", [&] { M x = data(10, 2, 0); Mat X(x); model_t *m = hmm_init(X, 10, 2, N); hmm_train(X, 10, m); int q[10]; viterbi_decode(X, 10, m, q); hmm_close(m); }); mc::state(N); }
MC_SCENARIO(realistic, "4, 10 and 40 states x 6, 13 and 21 dimensions x 400 frames of slowly moving features at scales 1, 0.01 and 100: initial model, posteriors, one EM step, and whole training as EM iterates", 3, 27) {
    static const int NS[] = {4, 10, 40}, LS[] = {6, 13, 21}; static const double SC[] = {1, 0.01, 100}; int N = mc::pick(NS, "N"), L = mc::pick(LS, "L"), T = 400; double sc = mc::pick(SC, "scale"); M x; for (int t = 0; t < T; ++t) { V v(L); for (int d = 0; d < L; ++d) v[d] = sc * (((t / 25 * 7 + d * 3) % 5) + 0.8 * mc::wave(t * L + d, 3)); x.push_back(v); }
    Mat X(x); lcg = 9; model_t *m = hmm_init(X, T, L, N); Hmm h0 = read(m); mc::step(); double s = 0; for (double d : h0.p0) { s += d; mc::require(d > 0, "positive", "probability %g", d); } mc::check_close(s, 1, 1e-9, "normalised", "sum of initial probabilities"); for (V &r : h0.a) { s = 0; for (double d : r) s += d; mc::check_close(s, 1, 1e-9, "normalised", "transition row sum"); }
    for (int d = 0; d < L; ++d) { double mean = 0, var = 0; for (auto &v : x) mean += v[d] / T; for (auto &v : x) var += (v[d] - mean) * (v[d] - mean) / (T - 1); for (int e = 0; e < L; ++e) mc::check_close(h0.cov[d][e], d == e ? var : 0, 1e-9 * var, "covariance", "covariance", d * L + e); for (int i = 0; i < N; ++i) mc::require(std::fabs(h0.mu[i][d] - mean) <= 0.2500001 * std::sqrt(var), "means", "mean %g too far from %g", h0.mu[i][d], mean); }
    M b = h0.obs(x); for (V &r : b) { double mx = *std::max_element(r.begin(), r.end()); for (double &d : r) d = std::exp(d - mx); } checkFB(h0.p0, h0.a, b, 1); // scaling a frame's likelihoods alters no posterior
    Post p = exact(h0.p0, h0.a, b); Mat G(p.gamma); Xi xi(T, N); for (int t = 0; t + 1 < T; ++t) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) xi.p[t][i][j] = p.xi[t][i][j]; baum_welch(m->p0, m->a, m->mu, m->cov, N, T, L, X, xi.p.data(), G); mc::step(); Hmm one = read(m), w = em(h0, x, p); auto rel = [&](const Hmm &a, const Hmm &c) { double e = 0; for (int i = 0; i < N; ++i) { e = std::max(e, std::fabs(a.p0[i] - c.p0[i])); for (int j = 0; j < N; ++j) e = std::max(e, std::fabs(a.a[i][j] - c.a[i][j])); for (int d = 0; d < L; ++d) e = std::max(e, std::fabs(a.mu[i][d] - c.mu[i][d]) / sc); } for (int d = 0; d < L; ++d) for (int f = 0; f < L; ++f) e = std::max(e, std::fabs(a.cov[d][f] - c.cov[d][f]) / (sc * sc)); return e; }; double e = rel(one, w); mc::require(e <= 1e-8, "em-update", "re-estimated model differs from the EM update by %g", e); hmm_close(m);
    if (N == 40 && !mc::thorough()) { mc::state(mc::Hash("R").i(N).i(L).d(sc)); return; }
    m = make(h0); hmm_train(X, T, m); mc::step(); Hmm got = read(m); hmm_close(m); mc::require(X.get(L) == x, "input-modified", "data changed"); Hmm g = h0; bool found = false; double best = INFINITY; for (int it = 1; it <= 50 && !found; ++it) { b = g.obs(x); for (V &r : b) { double mx = *std::max_element(r.begin(), r.end()); for (double &d : r) d = std::exp(d - mx); } g = em(g, x, exact(g.p0, g.a, b)); best = std::min(best, rel(got, g)); if (best <= 1e-5) { found = true; mc::outcome(it); } } mc::require(found, "em-iterates", "trained model is none of the EM iterates (closest differs by %g)", best); mc::state(mc::Hash("R").i(N).i(L).d(sc));
}
MC_SCENARIO(print, "printing models of 1..4 states x 1..3 dimensions: every probability, mean and covariance to six places, a row per line, in order", 1, 4) {
    int N = 1 + mc::choose(4, "N"), L = 1 + mc::choose(3, "L"); Hmm h = start(N, L, mc::choose(2, "model")); model_t *m = make(h); char *buf = nullptr; size_t len = 0; FILE *old = stdout, *f = open_memstream(&buf, &len); fflush(old); stdout = f; hmm_print(m); stdout = old; fclose(f); std::string got(buf, len), w; free(buf); hmm_close(m); mc::step(); auto row = [&](const V &v) { for (double d : v) { char b[64]; snprintf(b, sizeof b, "%f ", d); w += b; } w += "\n"; }; auto mat = [&](const char *t, const M &a) { w += t; for (const V &v : a) row(v); w += "\n\n"; }; w = "p0:\n"; row(h.p0); w += "\n"; mat("a:\n", h.a); mat("mu:\n", h.mu); mat("cov:\n", h.cov); auto squash = [](const std::string &t) { std::string o; bool sp = false; for (char c : t) { if (c == ' ' || c == '\n') sp = true; else { if (sp) o += ' '; sp = false; o += c; } } return o; }; mc::require(squash(got) == squash(w), "text", "printed \"%s\", expected \"%s\"", got.c_str(), w.c_str()); mc::state(mc::Hash("P").i(N).i(L));
}

MC_SCENARIO(slow, "2 and 3 states x 1 and 2 dimensions x 60, 150 values from overlapping clusters x 4 initial separations x 6 cluster distances: training that needs up to 50 rounds runs until a round gains next to nothing, or 50 rounds, and ends in exactly that EM iterate", 2, 24) {
    int N = 2 + mc::choose(2, "N"), L = 1 + mc::choose(2, "L"); static const double S[] = {0.02, 0.1, 0.4, 1.2}, D[] = {0.9, 0.5, 1.4, 2, 3, 6}; int si = mc::choose(4, "separation"), di = mc::choose(6, "distance"), T = mc::choose(2, "T") ? 150 : 60; M x; for (int t = 0; t < T; ++t) { V v(L); for (int d = 0; d < L; ++d) v[d] = D[di] * ((t / 7) % N) * (d ? -0.6 : 1) + 1.3 * mc::wave(t, d + 3) + 0.4 * mc::wave(t * 3 + d, 60); x.push_back(v); }
    Hmm h = start(N, L, 0); for (int i = 0; i < N; ++i) { h.p0[i] = 1.0 / N; for (int j = 0; j < N; ++j) h.a[i][j] = i == j ? 0.52 : 0.48 / (N - 1); for (int d = 0; d < L; ++d) h.mu[i][d] = 0.45 + S[si] * (i - 0.5) * (d ? -1 : 1); } model_t *m = make(h); Mat X(x); hmm_train(X, T, m); mc::step(); Hmm got = read(m); hmm_close(m); mc::require(X.get(L) == x, "input-modified", "data changed");
    Hmm g = h; V ll(1, 0.0); bool stop = false; double ref = 0; int it = 0; while (!stop && it < 50) { ++it; if (it == 2) ref = firstFrame(g, x); Post p = exact(g.p0, g.a, expB(g, x)); ll.push_back(p.ll); g = em(g, x, p); double gain = it > 1 ? ll[it] - ll[it - 1] : 1, lim = it > 1 ? 1e-4 * (ll[it - 1] - ref) : 0; if (it > 1 && std::fabs(gain - lim) <= 1e-9 * (1 + std::fabs(ll[it]))) { mc::outcome(-1); mc::state(mc::Hash("S").i(N).i(L).i(si).i(di).i(T)); return; } stop = it > 1 && gain < lim; }
    double e = dist(got, g); mc::require(e <= 1e-6, "em-iterates", "trained model differs from that of %d EM rounds by %g", it, e); mc::outcome(it); mc::state(mc::Hash("S").i(N).i(L).i(si).i(di).i(T));
}
MC_SCENARIO(many_states, "posteriors and transition posteriors for 100, 127..130, 200, 255..258, 300 states x 1, 2, 12 frames, 2 likelihood patterns", 1, 11) {
    static const int NN[] = {130, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300}, TT[] = {12, 1, 2}; int N = mc::pick(NN, "N"), T = mc::pick(TT, "T"), k = mc::choose(2, "pattern"); V p0 = row(N, N + 1); M a, b; for (int i = 0; i < N; ++i) { V r(N); double s = 0; for (int j = 0; j < N; ++j) s += r[j] = 1.01 + mc::wave(i * N + j, 5); for (double &v : r) v /= s; a.push_back(r); } for (int t = 0; t < T; ++t) { V r(N); for (int j = 0; j < N; ++j) r[j] = k ? (std::abs(j - (t * 89 + 120) % N) < 3 ? 1 : 1e-6) : 1.05 + mc::wave(t * 3 + j, 2); b.push_back(r); } checkFB(p0, a, b, 1 + k); mc::state(mc::Hash("N").i(N).i(T).i(k));
}
