// C26: TempoTrackV2: the tempo path maximises the joint periodicity/continuity score; the beats are a dynamic-programming optimum.
// Oracles are optimality certificates (values are unique even where several paths tie).
#include "mc.h"
#include "refdsp.h"
#include "dsp/tempotracking/TempoTrackV2.h"
#include "neighbours.h"
using ref::V;
static V thresh(const V &x) { int n = (int)x.size(); V w(n); for (int i = 0; i < n; ++i) { double s = 0; int c = 0; for (int j = std::max(0, i - 8); j <= std::min(n - 1, i + 7); ++j) { s += x[j]; ++c; } w[i] = std::max(0.0, x[i] - s / c); } return w; }
static const double EPS = 0.0000008;
struct Tempo { std::vector<V> rcf; V wv; };
static Tempo tempo(const V &df, double bpm, bool gauss) {
    Tempo t; double r = (60 * 44100 / 512) / bpm; for (int i = 0; i < 128; ++i) t.wv.push_back(gauss ? std::exp(-(i - r) * (i - r) / (2 * (r / 4) * (r / 4))) : i / (r * r) * std::exp(-(double)i * i / (2 * r * r)));
    for (size_t s = 0; s + 512 < df.size(); s += 128) {
        V x = thresh(V(df.begin() + s, df.begin() + s + 512)), acf(512), c(128, 0.0); for (int l = 0; l < 512; ++l) { double v = 0; for (int n = 0; n + l < 512; ++n) v += x[n] * x[n + l]; acf[l] = v / (512 - l); }
        for (int p = 2; p < 128; ++p) for (int a = 1; a <= 4; ++a) { double v = 0; for (int k = a * p - a; k <= a * p + a - 2; ++k) v += acf[k]; c[p - 1] += v * t.wv[p - 1] / (2 * a - 1); }
        c = thresh(c); double sum = 0; for (double &d : c) { d += EPS; sum += d; } for (double &d : c) d /= sum + EPS; t.rcf.push_back(c);
    }
    return t;
}
static double lt(int a, int b) { if (a < 20 || a >= 108 || b < 20 || b >= 108) return -INFINITY; return -(double)(a - b) * (a - b) / 128; }
static double lg(double v) { return v > 0 ? std::log(v) : -INFINITY; }
static void checkTempo(const V &df, double bpm, bool gauss, float rate, int inc, int presize) {
    V bp(presize, -3.0), tp; V in(df); TempoTrackV2 tt(rate, inc); if (bpm == 120 && !gauss) tt.calculateBeatPeriod(in, bp, tp); else tt.calculateBeatPeriod(in, bp, tp, bpm, gauss); mc::step(); if (in != df) mc::fail("input-modified", "detection function changed");
    Tempo t = tempo(df, bpm, gauss); int T = (int)t.rcf.size(); if (T < 2) { mc::require(tp.empty(), "short", "tempi for an input too short to track"); for (double b : bp) mc::require(b == -3, "short", "beat period set for an input too short"); return; }
    mc::require(bp.size() == std::max(df.size(), (size_t)presize) && tp.size() == bp.size(), "sizes", "%zu periods and %zu tempi for %zu values", bp.size(), tp.size(), df.size());
    std::vector<int> path; for (size_t i = 0; i < bp.size(); ++i) { int f = std::min((int)i / 128, T - 1); if ((int)path.size() <= f) path.push_back((int)bp[i]); mc::require(bp[i] == path[f], "piecewise", "period at %zu is %g, expected %d for its segment", i, bp[i], path[f]); mc::check_close(tp[i], 60.0 * rate / inc / bp[i], 1e-5, "tempo", "tempo", (long)i); }
    V best(128), nb(128); for (int j = 0; j < 128; ++j) best[j] = lg(t.wv[j]) + lg(t.rcf[0][j]); for (int k = 1; k < T; ++k) { for (int j = 0; j < 128; ++j) { double m = -INFINITY; for (int i = 0; i < 128; ++i) m = std::max(m, best[i] + lt(j, i)); nb[j] = m + lg(t.rcf[k][j]); } best = nb; }
    double opt = -INFINITY; for (double d : best) opt = std::max(opt, d); double got = lg(t.wv[path[0]]) + lg(t.rcf[0][path[0]]); for (int k = 1; k < T; ++k) got += lt(path[k], path[k - 1]) + lg(t.rcf[k][path[k]]);
    mc::require(path[0] >= 20 && path[0] < 108 && got >= opt - 1e-4, "optimal-path", "tempo path scores %g, optimum is %g", got, opt);
}
static void checkBeats(const V &df, const V &bp, double alpha, double tight) {
    V out(1, -7.0); V d0(df), b0(bp); TempoTrackV2 tt(44100, 512); if (alpha == 0.9 && tight == 4) tt.calculateBeats(d0, b0, out); else tt.calculateBeats(d0, b0, out, alpha, tight); mc::step(); if (d0 != df || b0 != bp) mc::fail("input-modified", "input changed");
    mc::require(!out.empty() && out[0] == -7, "append", "existing entries lost"); out.erase(out.begin()); int n = (int)df.size(); if (!n || bp.empty()) { mc::require(out.empty(), "empty", "beats from nothing"); return; }
    V cum(n); std::vector<V> cand(n); std::vector<int> lo(n);
    for (int i = 0; i < n; ++i) { double mu = bp[i]; int a = (int)(-2 * mu), b = (int)std::floor(0.5 * mu + 0.5); b = -b; double best = 0; lo[i] = i + a; for (int k = a; k <= b; ++k) { double w = mu > 0 ? std::exp(-0.5 * std::pow(tight * std::log((std::round(2 * mu) - (k - a)) / mu), 2)) : 0, v = i + k >= 0 && mu > 0 ? w * cum[i + k] : 0; cand[i].push_back(v); best = std::max(best, v); } cum[i] = alpha * best + (1 - alpha) * df[i]; }
    auto optimal = [&](int i, int from) { int k = from - lo[i]; if (k < 0 || k >= (int)cand[i].size()) return false; double m = 0; for (double v : cand[i]) m = std::max(m, v); return m <= 0 || cand[i][k] >= m * (1 - 1e-9); };
    mc::require(!out.empty(), "no-beats", "no beats"); int last = (int)out.back(); int s = std::max(0, (int)(n - bp.back())); double m = 0; for (int i = s; i < n; ++i) m = std::max(m, cum[i]); bool zero = m <= 0 || s >= n; mc::require(zero ? last == std::min(s, n - 1) : (last >= s && last < n && cum[last] >= m * (1 - 1e-9)), "last-beat", "last beat %d is not the strongest of the last period", last);
    for (size_t k = 0; k < out.size(); ++k) { mc::require(out[k] == (int)out[k] && out[k] >= 0 && out[k] < n && (k == 0 || out[k] > out[k - 1]), "order", "beat %zu at %g", k, out[k]); if (k) mc::require(optimal((int)out[k], (int)out[k - 1]), "optimal-link", "beat %g does not follow %g in any optimal sequence", out[k], out[k - 1]); }
    int f = (int)out[0]; bool stop = false; for (int p = lo[f]; p <= std::max(0, lo[f]); ++p) if (p <= 0 || p == f) if (optimal(f, p)) stop = true; if (bp[f] < 1) stop = true; mc::require(stop, "truncated", "beat sequence stops at %d although an earlier beat is better", f);
}
MC_SCENARIO(beats_words, "every detection function in {0,1,3}^n, n=1..9 (thorough 10), constant periods 1,2,3,4,5,2.5,8,20, default and two other (alpha, tightness) pairs", 3, 48) {
    int n = 1 + mc::choose(mc::tiered(9, 10), "n"); static const double P[] = {2, 1, 3, 4, 5, 2.5, 8, 20}; double p = mc::pick(P, "period"); int at = mc::choose(3, "params"); V df; static const double al[] = {0, 1, 3}; for (int i = 0; i < n; ++i) df.push_back(mc::pick(al, "df")); checkBeats(df, V(n, p), at == 0 ? 0.9 : at == 1 ? 0.5 : 0.99, at == 0 ? 4 : at == 1 ? 8 : 1); mc::state(mc::Hash("w").vec(df).d(p).i(at));
}
MC_SCENARIO(beats_varying, "every period word over {0,2,3,5} for 7 (thorough 8) frames x 4 detection functions; empty inputs", 2, 32) {
    int n = mc::tiered(7, 8); V bp; static const double P[] = {2, 0, 3, 5}; for (int i = 0; i < n; ++i) bp.push_back(mc::pick(P, "p")); int k = mc::choose(5, "df"); V df(n); for (int i = 0; i < n; ++i) df[i] = k == 0 ? 1 : k == 1 ? i % 3 == 0 : k == 2 ? std::fabs(mc::wave(i, 1)) : k == 3 ? 0 : i; if (k == 4) { df.clear(); } checkBeats(df, bp, 0.9, 4); if (k == 4) checkBeats(V(3, 1.0), V(), 0.9, 4); mc::state(mc::Hash("v").vec(bp).i(k));
}
MC_SCENARIO(beats_long, "pulse trains of every period 4..40 and every phase, period hint from period-2..period+2, with and without noise, 300 frames", 2, 48) {
    int p = 4 + mc::choose(37, "period"), ph = mc::choose(p, "phase"), hint = p + mc::choose(5, "hint") - 2; bool noise = mc::choose(2, "noise"); V df(300); for (int i = 0; i < 300; ++i) df[i] = (i % p == ph ? 1.0 : 0.0) + (noise ? 0.2 * std::fabs(mc::wave(i, p)) : 0.0); checkBeats(df, V(300, (double)std::max(1, hint)), 0.9, 4); mc::state(mc::Hash("L").i(p).i(ph).i(hint).i(noise));
}
MC_SCENARIO(tempo_trains, "pulse trains of every (quick: every second, and both limits of the tracked range 20 and 108) period 15..115, with/without noise, 5 lengths from 640 to 1500 (around frame boundaries), 3 tempo preferences x {Rayleigh, Gaussian}", 3, 48) {
    int p = 15 + mc::choose(mc::tiered(53, 101), "period") * mc::tiered(2, 1); if (p > 115) p = p == 117 ? 108 : 20; static const int L[] = {641, 640, 769, 1024, 1500}; int n = mc::pick(L, "len"); bool noise = mc::choose(2, "noise"); static const double B[] = {120, 60, 180}; double bpm = mc::pick(B, "bpm"); bool g = mc::choose(2, "gauss"); V df(n); for (int i = 0; i < n; ++i) df[i] = (i % p == 3 ? 1.0 : 0.0) + (noise ? 0.3 * std::fabs(mc::wave(i, p)) : 0.0); checkTempo(df, bpm, g, 44100, 512, n); mc::state(mc::Hash("t").i(p).i(n).i(noise).d(bpm).i(g));
}
MC_SCENARIO(tempo_changes, "every word of 4 (thorough 5) tempo segments of 256 frames over periods {30,43,60,86}: tempo changes; output vector empty or presized; 3 rate/increment pairs", 3, 48) {
    int k = mc::tiered(4, 5); V df; static const int P[] = {43, 30, 60, 86}; mc::Hash h("c"); int next = 0, t = 0; for (int s = 0; s < k; ++s) { int p = mc::pick(P, "period"); h.i(p); for (int i = 0; i < 256; ++i, ++t) { bool b = t == next; if (b) next = t + p; df.push_back(b + 0.05 * std::fabs(mc::wave(t, 3))); } } int v = mc::choose(3, "var"); checkTempo(df, 120, false, v == 1 ? 48000 : 44100, v == 2 ? 256 : 512, v == 1 ? 0 : (int)df.size()); mc::state(h.i(v));
}
MC_SCENARIO(tempo_jumps, "clean pulse trains that change abruptly between every ordered pair of (quick: every second) beat periods 21..107 in steps of 2 after 700 values, the second 1 or 30 times as loud, at amplitudes 1 and 3e4, 1400 values: jumps of up to 86 between analysis frames", 2, 44) {
    int st = mc::tiered(4, 2), k = mc::tiered(22, 44), p = 21 + st * mc::choose(k, "from"), q = 21 + st * mc::choose(k, "to"); double a = mc::choose(2, "louder") ? 30 : 1, amp = mc::choose(2, "amp") ? 1 : 3e4; V df(1400, 0.0); int t = 3; for (; t < 700; t += p) df[t] = 1; for (t = std::max(700, t - p + q); t < 1400; t += q) df[t] = a; for (double &d : df) d *= amp; checkTempo(df, 120, false, 44100, 512, 1400); mc::state(mc::Hash("j").i(p).i(q).d(a).d(amp));
}
MC_SCENARIO(tempo_pairs, "two or three events at every ordered pair of spacings 22..109 in steps of 3, the first visible to the first analysis frames and the second to the last only, 641, 769 and 897 values, amplitudes 1 and 1e4, 2 weightings: no evidence between the two tempos", 2, 30) {
    int p = 22 + 3 * mc::choose(30, "from"), q = 22 + 3 * mc::choose(30, "to"); static const int L[] = {641, 769, 897}; int n = mc::pick(L, "len"); double a = mc::choose(2, "amp") ? 1 : 1e4; bool g = mc::choose(2, "gauss") != 0, three = mc::thorough() ? mc::choose(2, "three") != 0 : (p + q) % 2; V df(n, 0.0); df[127 - 21] += a; df[127 - 21 + p] += a; if (three) df[127 - 21 + 2 * p] += a; df[n - 20] += 0.9 * a; df[n - 20 - q] += a; checkTempo(df, g ? 80 : 130, g, 44100, 512, n); mc::state(mc::Hash("pp").i(p).i(q).i(n).d(a).i(g).i(three));
}
MC_SCENARIO(tempo_presized, "beat-period vectors already holding other values, of 11 lengths from 0 to 20000 around the length of the detection function (641, 900, 1500 or 2100 values), 5 periods, 2 weightings: every entry is set, also past the end of the input", 2, 16) {
    static const int L[] = {641, 900, 1500, 2100}, P[] = {43, 30, 60, 86, 107}, X[] = {0, 1, -1, 127, 129, 512, 600, 2000, 18000, -100000, -500}; int n = mc::pick(L, "len"), p = mc::pick(P, "period"), x = mc::pick(X, "extra"); bool g = mc::choose(2, "gauss"); V df(n); for (int i = 0; i < n; ++i) df[i] = (i % (i < n / 2 ? p : 50) == 3 ? 1.0 : 0.0) + 0.05 * std::fabs(mc::wave(i, p)); checkTempo(df, 120, g, 44100, 512, std::max(0, n + x)); mc::state(mc::Hash("p").i(n).i(p).i(x).i(g));
}
MC_SCENARIO(tempo_long, "20000 and 45000 (thorough also 160000) values (hundreds of analysis frames): steady, drifting, switching and noisy tempo, and no tempo at all, at scales 1e-4, 1, 1e4: the whole path stays optimal however long the input", 3, 24) {
    static const int L[] = {20000, 45000, 160000}; int n = L[mc::choose(mc::tiered(2, 3), "len")], k = mc::choose(5, "kind"); static const double S[] = {1, 1e-4, 1e4}; double sc = mc::pick(S, "scale"); V df(n); double next = 0; for (int i = 0; i < n; ++i) { double p = k == 0 ? 43 : k == 1 ? 30 + 60.0 * i / n : k == 2 ? (i / 4000 % 2 ? 86 : 35) : 50; if (i >= next && k < 4) { df[i] = sc; next += p; } df[i] += sc * (k >= 3 ? 0.7 : 0.05) * std::fabs(mc::wave(i, 3 + k)); } checkTempo(df, 120, k == 2, 44100, 512, n); mc::state(mc::Hash("L").i(n).i(k).d(sc));
}
MC_SCENARIO(tempo_edges, "silent, constant, ramp and single-pulse inputs of every length 0..20 and 500..530, 635..645, 767..771: short inputs are left untouched, nothing is accessed out of bounds", 2, 16) {
    static const int lo[] = {0, 500, 635, 767}, cnt[] = {21, 31, 11, 5}; int g = mc::choose(4, "range"), n = lo[g] + mc::choose(cnt[g], "n"), k = mc::choose(4, "kind"); V df(n, 0.0); for (int i = 0; i < n; ++i) df[i] = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 0.01 * i : i == n / 2; checkTempo(df, 120, mc::choose(2, "gauss"), 44100, 512, n); checkBeats(df, V(n, n > 640 ? 43.0 : 0.0), 0.9, 4); mc::state(mc::Hash("e").i(n).i(k));
}
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int n = 600 + 100 * mc::choose(2); mc::leak_check("leak", [&] { V d(n, 1.0), b(n), t, o; d[5] = 2; TempoTrackV2 tt(44100, 512); tt.calculateBeatPeriod(d, b, t); tt.calculateBeats(d, b, o); }); mc::state(n); }
NEIGHBOURS("9 trackers and calls that differ in rate, increment, input tempo, constraint, alpha or tightness") {
    struct P { float fs; int inc; double tempo; bool con; double alpha, tight; }; static const P p[] = {{44100, 512, 120, false, 0.9, 4}, {22050, 512, 120, false, 0.9, 4}, {44100, 441, 120, false, 0.9, 4}, {22050, 256, 120, false, 0.9, 4}, {44100, 512, 100, false, 0.9, 4}, {44100, 512, 120, true, 0.9, 4}, {44100, 512, 100, true, 0.9, 4}, {44100, 512, 120, false, 0.5, 4}, {44100, 512, 120, false, 0.9, 8}};
    for (auto &q : p) v.add("tracker " + std::to_string(&q - p), [q] { TempoTrackV2 t(q.fs, q.inc); int n = 600; nb::V x(n), per(n), te, b; for (int i = 0; i < n; ++i) x[i] = 0.1 + (i % 37 == 0) + 0.05 * mc::wave(i, 2); t.calculateBeatPeriod(x, per, te, q.tempo, q.con); t.calculateBeats(x, per, b, q.alpha, q.tight); nb::V o = per; nb::app(o, te); nb::app(o, b); return o; });
}
