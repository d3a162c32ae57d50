// C32: building blocks of the segmenter: state histograms, MPEG-7 normalisation, chroma folding, histogram clustering.
#include "mc.h"
#include "refhmm.h"
#include "dsp/segmentation/cluster_segmenter.h"
#include "maths/pca/pca.h"
using refhmm::M; using refhmm::V; using refhmm::Mat; typedef std::vector<int> VI;
static unsigned lcg = 1; static int randKind = 0; static int nrand() { lcg = lcg * 1103515245u + 12345u; int v = (int)(lcg >> 1); switch (randKind) { case 0: case 1: case 2: return v; case 3: return RAND_MAX; default: return v % 2 ? RAND_MAX : 1; } }
extern "C" int __wrap_rand() { return nrand(); }
extern "C" void __wrap_srand(unsigned) { lcg = 7 + randKind; }
MC_SCENARIO(histograms, "every state word of length 1..8 (thorough 9) over 3 states and of length 5..10 (12) over 2 states, every odd window not longer than it", 3, 48) {
    int m = 3 - mc::choose(2, "m"), nx = m == 3 ? 1 + mc::choose(mc::tiered(8, 9), "nx") : 5 + mc::choose(mc::tiered(6, 8), "nx"); int hl = 1 + 2 * mc::choose((nx + 1) / 2, "hlen"); VI x; mc::Hash h("h"); h.i(m).i(hl); for (int i = 0; i < nx; ++i) { x.push_back(mc::choose(m, "x")); h.i(x[i]); } V got(nx * m + 1, -9.0); got.back() = 42; VI in(x); create_histograms(in.data(), nx, m, hl, got.data()); mc::step(); mc::require(in == x && got.back() == 42, "bounds", "input or memory past the histograms changed");
    for (int i = 0; i < nx; ++i) { int c = std::min(std::max(i, hl / 2), nx - hl / 2 - 1); V w(m, 0.0); double n = 0; for (int t = c - hl / 2; t <= c + hl / 2; ++t) w[x[t]] += 1; for (double d : w) n += d * d; for (int j = 0; j < m; ++j) mc::check_close(got[i * m + j], w[j] / n, 1e-12, "histogram", "histogram value", i * m + j); } mc::state(h);
}
MC_SCENARIO(mpeg7, "every 1x1..3x2 and 2x3 feature matrix over {0, 1e-3, 0.5, 1, 20}: dB scaling, unit norm, envelope relative to the loudest frame in the extra column", 2, 25) {
    static const int R[] = {1, 1, 2, 3, 2}, C[] = {1, 3, 2, 2, 3}; int s = mc::choose(5, "shape"), n = R[s], c = C[s]; M x(n, V(c + 1, -5.0)); static const double E[] = {0.5, 0, 1e-3, 1, 20}; mc::Hash h("m"); h.i(s); for (auto &r : x) for (int j = 0; j < c; ++j) { r[j] = mc::pick(E, "f"); h.d(r[j]); } Mat X(x); mpeg7_constq(X, n, c); mc::step(); M y = X.get(c + 1), d(n, V(c)); V env(n, 0.0); double mx = 0; for (int i = 0; i < n; ++i) { for (int j = 0; j < c; ++j) { d[i][j] = 10 * std::log10(x[i][j] + 2.220446049250313e-16); env[i] += d[i][j] * d[i][j]; } env[i] = std::sqrt(env[i]); mx = std::max(mx, env[i]); } for (int i = 0; i < n; ++i) { if (env[i] < 1e-9) continue; for (int j = 0; j < c; ++j) mc::check_close(y[i][j], d[i][j] / env[i], 1e-9, "normalised", "normalised feature", i * c + j); mc::check_close(y[i][c], env[i] / mx, 1e-9, "envelope", "envelope", i); } mc::state(h);
}
MC_SCENARIO(chroma, "every combination of 1..12 bins, 1..40 coefficients, 1..3 frames with signed values: complete octaves are folded, the rest ignored", 1, 12) { int bins = 1 + mc::choose(12, "bins"), nc = 1 + mc::choose(40, "ncoeff"), n = 1 + mc::choose(3, "frames"); M x(n, V(nc)); for (int i = 0; i < n; ++i) for (int j = 0; j < nc; ++j) x[i][j] = mc::wave(i * 50 + j, 2); Mat X(x), Y(n, bins); cq2chroma(X, n, nc, bins, Y); mc::step(); mc::require(X.get(nc) == x, "input-modified", "features changed"); M y = Y.get(bins); for (int i = 0; i < n; ++i) for (int b = 0; b < bins; ++b) { double w = 0; for (int o = 0; o < nc / bins; ++o) w += std::fabs(x[i][o * bins + b]); mc::check_close(y[i][b], w, 1e-12, "chroma", "chroma", i * bins + b); } mc::state(mc::Hash("c").i(bins).i(nc).i(n)); }
static double kl(const double *a, const double *b, int n) { double d = 0; for (int i = 0; i < n; ++i) { double q = (a[i] + b[i]) / 2; if (q > 0) { if (a[i] > 0) d += a[i] * std::log(a[i] / q); if (b[i] > 0) d += b[i] * std::log(b[i] / q); } } return d; }
// reference clustering; false if some assignment is undecided within rounding. eps disturbs every divergence by that much
static bool melt(const V &h, int m, int n, const V &bs, int k, int l, VI &c, double eps = 0) {
    int limit = l > 0 ? l : 20; M cl(k, V(m)); for (auto &r : cl) { double s = 0; for (double &d : r) { d = nrand(); s += d * d; } for (double &d : r) d /= std::sqrt(s); } c.assign(n, 1);
    for (size_t a = 0; a < bs.size(); ++a) for (int it = 0; it < (a ? 5 : 20); ++it) {
        VI old = c; M lp(n, V(k)); for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < k; ++j) { double dv = kl(cl[j].data(), &h[i * m], m); if (eps != 0) dv += eps * (1 + dv) * mc::wave(i * 7 + j * 3 + it, 4); lp[i][j] = -bs[a] * dv; s += std::exp(lp[i][j]); } for (int j = 0; j < k; ++j) { int cnt = 0; for (int b = std::max(0, i - limit); b <= std::min(n - 1, i + limit); ++b) cnt += old[b] != j + 1; lp[i][j] -= std::log(s) + 0.02 * cnt; } }
        for (int i = 0; i < n; ++i) { int best = 0; for (int j = 1; j < k; ++j) { if (std::fabs(lp[i][j] - lp[i][best]) < 1e-9 * (1 + std::fabs(lp[i][best])) && !(lp[i][j] == lp[i][best] && cl[j] == cl[best])) return false; if (lp[i][j] > lp[i][best]) best = j; } c[i] = best + 1; }
        if (c == old) break;
        for (int j = 0; j < k; ++j) { V r(m, 0.0); double s = 0; for (int i = 0; i < n; ++i) { double w = std::exp(lp[i][j]); s += w; for (int b = 0; b < m; ++b) r[b] += w * h[i * m + b]; } for (double &d : r) d /= s; cl[j] = r; }
    }
    return true;
}
static void checkMelt(V h, int m, int n, V bs, int k, int l) {
    V h0(h), b0(bs); VI got(n + 1, -3), want; lcg = 7 + randKind; cluster_melt(h.data(), m, n, bs.data(), (int)bs.size(), k, l, got.data()); mc::step(); mc::require(h == h0 && bs == b0 && got[n] == -3, "bounds", "input or memory past the assignments changed"); got.pop_back(); for (int c : got) mc::require(c >= 1 && c <= k, "range", "assignment %d of %d clusters", c, k);
    lcg = 7 + randKind; bool ok = melt(h, m, n, bs, k, l, want); for (int d = -1; ok && d <= 1; d += 2) { VI other; lcg = 7 + randKind; melt(h, m, n, bs, k, l, other, d * 1e-12); if (other != want) ok = false; } mc::outcome(mc::Hash("m").i(ok).i(ok ? want[0] : 0)); if (ok) for (int i = 0; i < n; ++i) mc::require(got[i] == want[i], "assignment", "histogram %d assigned to cluster %d, expected %d", i, got[i], want[i]);
}
MC_SCENARIO(melt_words, "every sequence of 1..6 (thorough 8) histograms from 4 shapes x 1..4 clusters x neighbourhoods default,1,2 x 5 random-number behaviours (3 seeds, constant, two-valued)", 3, 60) {
    randKind = mc::choose(5, "rand"); int k = 1 + mc::choose(4, "k"), l = mc::choose(3, "limit"), n = 1 + mc::choose(mc::tiered(6, 7), "n"); static const V S[] = {{1, 0, 0}, {0, 1, 0}, {0.2, 0.2, 0.6}, {1.0 / 3, 1.0 / 3, 1.0 / 3}}; V h, bs; mc::Hash s("w"); s.i(randKind).i(k).i(l); for (int i = 0; i < n; ++i) { int c = mc::choose(4, "h"); s.i(c); h.insert(h.end(), S[c].begin(), S[c].end()); } for (int i = 0; i < 6; ++i) bs.push_back(100 * std::pow(0.5, i)); checkMelt(h, 3, n, bs, k, l); mc::state(s);
}
MC_SCENARIO(melt_long, "1..40 histograms of 2..12 bins in 1..8 clusters with schedules of 0,1,20 temperatures, all random-number behaviours", 2, 20) { randKind = mc::choose(5, "rand"); int k = 1 + mc::choose(8, "k"), m = 2 + mc::choose(6, "m") * 2, n = 1 + mc::choose(8, "n") * 5; static const int T[] = {20, 1, 0}; int t = mc::pick(T, "t"); V h, bs; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) h.push_back(((i / 7 + j) % 3 == 0 ? 1.0 : 0) + 0.05 * (1 + mc::wave(i * m + j, 3))); for (int i = 0; i < t; ++i) bs.push_back(100 * std::pow(0.7, i)); checkMelt(h, m, n, bs, k, 0); mc::state(mc::Hash("l").i(randKind).i(k).i(m).i(n).i(t)); }
MC_SCENARIO(slow_convergence, "60, 150 and 300 unstructured histograms in 2..8 clusters, neighbourhoods 1, 5, 20, 60, schedules of 1, 2 and 5 temperatures, 6 (thorough 12) inputs: many runs use up the iterations allowed per temperature", 2, 36) { randKind = mc::choose(3, "rand"); static const int N[] = {150, 60, 300}, L[] = {1, 5, 20, 60}, T[] = {1, 2, 5}; int n = mc::pick(N, "n"), k = 2 + 2 * mc::choose(4, "k"), l = mc::pick(L, "l"), t = mc::pick(T, "t"), w = mc::choose(mc::tiered(6, 12), "input"); V h, bs; for (int i = 0; i < n; ++i) { V r(4); double q = 0; for (int j = 0; j < 4; ++j) q += r[j] = std::fabs(mc::wave(i * 4 + j, w)); for (double d : r) h.push_back(d / q); } for (int i = 0; i < t; ++i) bs.push_back(100 * std::pow(0.7, i)); checkMelt(h, 4, n, bs, k, l); mc::state(mc::Hash("c").i(randKind).i(n).i(k).i(l).i(t).i(w)); }
// the documented pipeline, stage by stage: [dB features -> first 20 principal components and the envelope | chroma] -> x10 -> HMM -> Viterbi path -> histograms -> annealed clustering over 20 temperatures
static VI composed(const M &x, int n, int nc, int bins, int type, int states, int hl, int k, int limit) {
    lcg = 5; int c = nc; M y(x); if (type == 0) { Mat A(x); mpeg7_constq(A, n, nc); M e = A.get(nc + 1); int np = std::min(20, nc); Mat B(e); pca_project(B, n, nc, np); M z = B.get(nc + 1); y.assign(n, V(np + 1)); for (int i = 0; i < n; ++i) { for (int j = 0; j < np; ++j) y[i][j] = z[i][j]; y[i][np] = e[i][nc]; } c = np + 1; } if (type == 1) { Mat A(x), B(n, bins); cq2chroma(A, n, nc, bins, B); y = B.get(bins); c = bins; }
    for (V &r : y) { r.resize(c); for (double &d : r) d *= 10; } Mat Y(y); model_t *m = hmm_init(Y, n, c, states); hmm_train(Y, n, m); VI q(n); viterbi_decode(Y, n, m, q.data()); hmm_close(m); V h(n * states), bs; create_histograms(q.data(), n, states, hl, h.data()); for (int i = 0; i < 20; ++i) bs.push_back(i ? bs[i - 1] * 0.7 : 100); cluster_melt(h.data(), states, n, bs.data(), 20, k, limit, q.data()); return q;
}
MC_SCENARIO(pipeline, "constq_segment and cluster_segment on 2-section features: constant-Q sizes 1..40 coefficients (fewer and more than the principal components kept), chroma, raw; 1..4 clusters, windows 1,3,9, 9..30 frames, all random-number behaviours: assignments valid, memory safe, and equal to the composition of the stages", 2, 25) {
    randKind = mc::choose(5, "rand"); int type = mc::choose(3, "type"), nc = mc::choose(8, "ncoeff"); static const int NC[] = {24, 1, 2, 12, 19, 20, 21, 40}; nc = NC[nc]; int k = 1 + mc::choose(4, "clusters"), n = mc::choose(2, "frames") ? 30 : 9, hl = 1 + 4 * mc::choose(3, "hlen"); M x(n, V(nc + 1, 7.0)); for (int i = 0; i < n; ++i) for (int j = 0; j < nc; ++j) x[i][j] = 0.5 + 0.4 * mc::wave(i * 41 + j, 3) + (i < n / 2 && j < nc / 2 ? 3 : 0); Mat X(x); VI q(n + 1, -4); int bins = std::min(nc, 12); lcg = 5;
    if (type == 2) cluster_segment(q.data(), X, n, nc, 4, hl, k, 3); else constq_segment(q.data(), X, n, bins, nc, type == 0 ? FEATURE_TYPE_CONSTQ : FEATURE_TYPE_CHROMA, 4, hl, k, 0); mc::step(); mc::require(q[n] == -4, "bounds", "wrote past the assignments"); for (int i = 0; i < n; ++i) mc::require(q[i] >= 1 && q[i] <= k, "range", "assignment %d of %d clusters", q[i], k); if (n == 30 || k == 1) { VI w = composed(x, n, nc, bins, type, 4, hl, k, type == 2 ? 3 : 0); for (int i = 0; i < n; ++i) mc::require(q[i] == w[i], "composition", "frame %d is in cluster %d, but %d when the stages are called one after another", i, q[i], w[i]); } mc::state(mc::Hash("p").i(randKind).i(type).i(nc).i(k).i(n).i(hl));
}
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int k = 1 + mc::choose(3); mc::leak_check("leak", [&] { V h(12, 0.25), bs(3, 10.0); VI c(4); cluster_melt(h.data(), 3, 4, bs.data(), 3, k, 0, c.data()); M x(12, V(25, 0.5)); for (int i = 0; i < 12; ++i) for (int j = 0; j < 24; ++j) x[i][j] += mc::wave(i * 24 + j, 1) * 0.4; Mat X(x), Y(x); VI q(12); constq_segment(q.data(), X, 12, 12, 24, FEATURE_TYPE_CONSTQ, 3, 3, k, 0); constq_segment(q.data(), Y, 12, 12, 24, FEATURE_TYPE_CHROMA, 3, 3, k, 0); }); mc::state(k); }
MC_SCENARIO(realistic, "300 and 1500 frames over 10 and 40 states with histogram lengths 9 and 15; MPEG-7 normalisation of 200 frames of 96 values at scales 1e-9..1e9; chroma folding of 200 frames; clustering 300 histograms of 40 bins into 2..10 clusters with the default schedule", 2, 30) {
    randKind = mc::choose(3, "rand"); int k = 2 + 2 * mc::choose(5, "k"), big = mc::choose(2, "size"), m = big ? 40 : 10, nx = big ? 1500 : 300, hl = big ? 15 : 9; VI x(nx); for (int i = 0; i < nx; ++i) x[i] = (int)((i / 41 * 7 + (mc::wave(i, 5) > 0.5 ? 1 : 0) + (mc::wave(i, 6) > 0 ? 2 : 0)) % m); V got(nx * m); create_histograms(x.data(), nx, m, hl, got.data()); mc::step(); for (int i = 0; i < nx; ++i) { int c = std::min(std::max(i, hl / 2), nx - hl / 2 - 1); V w(m, 0.0); double n = 0; for (int t = c - hl / 2; t <= c + hl / 2; ++t) w[x[t]] += 1; for (double d : w) n += d * d; for (int j = 0; j < m; ++j) mc::check_close(got[i * m + j], w[j] / n, 1e-12, "histogram", "histogram value", i * m + j); }
    V h(got.begin(), got.begin() + 300 * m), bs; for (int i = 0; i < 20; ++i) bs.push_back(100 * std::pow(0.7, i)); checkMelt(h, m, 300, bs, k, big ? 0 : 30);
    static const double A[] = {1, 1e-9, 1e-3, 1e3, 1e9}; for (double a : A) { int n = 200, c = 96; M f(n, V(c + 1, 0.0)); for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) f[i][j] = a * (1.01 + mc::wave(i * 97 + j, 3)) * (j % 5 == 0 ? 10 : 1); M g(f); Mat F(f), G(g), Y(n, 12); cq2chroma(G, n, c, 12, Y); mpeg7_constq(F, n, c); mc::step(2); M y = F.get(c + 1), z = Y.get(12); V env(n, 0.0); double mx = 0; for (int i = 0; i < n; ++i) { for (int j = 0; j < c; ++j) { double d = 10 * std::log10(f[i][j] + 2.220446049250313e-16); env[i] += d * d; } env[i] = std::sqrt(env[i]); mx = std::max(mx, env[i]); } for (int i = 0; i < n; ++i) { for (int j = 0; j < c; ++j) mc::check_close(y[i][j], 10 * std::log10(f[i][j] + 2.220446049250313e-16) / env[i], 1e-9, "normalised", "normalised feature", i * c + j); mc::check_close(y[i][c], env[i] / mx, 1e-9, "envelope", "envelope", i); for (int b = 0; b < 12; ++b) { double w = 0; for (int o = 0; o < 8; ++o) w += std::fabs(f[i][o * 12 + b]); mc::check_close(z[i][b] / a, w / a, 1e-10, "chroma", "chroma", i * 12 + b); } } } mc::state(mc::Hash("r").i(randKind).i(k).i(big));
}
MC_SCENARIO(large_numbers, "histograms over 100, 128, 129, 200, 256, 257, 1000 states with windows of 1, 15, 255, 257 and 601 of 700 frames, few and many distinct states per window; clustering 40 histograms into 100, 129 and 260 clusters and over 130 and 300 bins", 2, 14) {
    static const int MM[] = {129, 100, 128, 200, 256, 257, 1000}, HL[] = {15, 1, 255, 257, 601}, KK[] = {129, 100, 260, 4}; int m = mc::pick(MM, "states"), few = mc::choose(2, "few"), hl = mc::pick(HL, "window"), nx = 700; VI x(nx); for (int i = 0; i < nx; ++i) x[i] = few ? (m - 1 - (i / 290) % 3 - (i % 7 == 0)) : (i * 61 + i / 9) % m; V got(nx * m + 1, -9.0); VI in(x); create_histograms(in.data(), nx, m, hl, got.data()); mc::step(); mc::require(in == x && got[nx * m] == -9.0, "bounds", "input or memory past the histograms changed");
    for (int i = 0; i < nx; ++i) { int c = std::min(std::max(i, hl / 2), nx - hl / 2 - 1); V w(m, 0.0); double n = 0; for (int t = c - hl / 2; t <= c + hl / 2; ++t) w[x[t]] += 1; for (double d : w) n += d * d; for (int j = 0; j < m; ++j) if (std::fabs(got[i * m + j] - w[j] / n) > 1e-12) mc::fail("histogram", "frame %d state %d: %g, expected %g", i, j, got[i * m + j], w[j] / n); }
    if (hl == 15) { randKind = few; int k = mc::pick(KK, "clusters"), b = std::min(m, 300), n = 40; V h, bs; for (int i = 0; i < n; ++i) for (int j = 0; j < b; ++j) h.push_back(got[(i * 17) * m + m - b + j]); for (int i = 0; i < 3; ++i) bs.push_back(100 * std::pow(0.7, i)); checkMelt(h, b, n, bs, k, 0); mc::state(mc::Hash("k").i(k).i(m).i(few)); } mc::state(mc::Hash("L").i(m).i(few).i(hl));
}
