// C27: TempoTrack: frame-wise beat prediction from a detection function, against an independent executable model of the
// published algorithm. Where two candidates tie (within rounding) the model marks the decision undecided and compares only
// the structural guarantees from that frame on.
#include "mc.h"
#include "refdsp.h"
#include "dsp/tempotracking/TempoTrack.h"
#include <memory>
#include "neighbours.h"
using ref::V;
typedef std::vector<int> VI;
static int W = 512, L = 128, PRE = 8, POST = 7; static double ALPHA = 9;
static V LPB = {0.16, 0.32, 0.16}, LPA = {1, -0.5949, 0.2348};
static TTParams params() { TTParams p; p.winLength = W; p.lagLength = L; p.alpha = ALPHA; p.LPOrd = (int)LPB.size() - 1; p.LPACoeffs = LPA.data(); p.LPBCoeffs = LPB.data(); p.WinT.pre = PRE; p.WinT.post = POST; return p; }
// rounding error of the conditioned detection function, relative to its largest value: autocorrelations closer than that allows are undecided
static const double NOISE = 1e-15;
struct Model {
    double cut = 0; bool shaky = false, inexact = false; double noise = 0; int triple = 0; double tempo = 0; VI beats; V tempi; std::vector<int> firstBeat;
    void decide(double a, double b, double scale) { if (std::fabs(a - b) <= 1e-9 * scale && a != b) shaky = true; }
    int argmax(const V &v, int from, int to, bool &any, double err = 0) { any = false; int k = from; double m = 0, second = 0; for (int i = from; i < to; ++i) { double x = i >= 0 && i < (int)v.size() ? v[i] : 0; if (x > m) { second = m; m = x; k = i; any = true; } else second = std::max(second, x); } if (any && m != second && m - second <= std::max(1e-9 * m, err)) shaky = true; return k; }
    void prune(V &x) { if (cut > 0) { double top = *std::max_element(x.begin(), x.end()); for (double &d : x) if (d < cut * top) d = 0; } }
    int rnd(double x) { double f = x - std::floor(x); if (std::fabs(f - 0.5) < 1e-9 && (inexact || f != 0.5)) shaky = true; return (int)std::floor(x + 0.5); }
    V rayleigh() { V w; for (int i = 1; i <= L; ++i) w.push_back(i / (43.0 * 43) * std::exp(-(double)i * i / (2 * 43.0 * 43))); return w; }
    V gauss(double lag) { V w; double s = lag / 4; for (int i = 1; i <= L; ++i) w.push_back(std::exp(-0.5 * std::pow((i - lag) / s, 2)) / (std::sqrt(2 * M_PI) * s)); return w; }
    double findPeriod(const V &acf, const V &w, int sig) {
        V c(L, 0.0); int elems = sig ? sig : 4;
        for (int p = 2; p < L; ++p) { double v = 0; for (int a = 1; a <= elems; ++a) { double s = 0; for (int k = a * p - a; k <= a * p + a - 2; ++k) s += acf[k]; v += sig ? s : s / (2 * a - 1); } c[p - 1] = v * w[p - 1]; }
        int m = 0;
        if (sig) { bool any; m = argmax(c, 0, L, any, 16 * noise / W * *std::max_element(w.begin(), w.end())); if (!any) m = 0; }
        else {
            c = ref::dfproc(c, LPB, LPA, ALPHA, PRE, POST); prune(c); double sum = 0, worst = 0; for (double d : c) sum += d; m = 1;
            if (sum > 0) {
                for (double &d : c) d /= sum; auto cost = [&](int i, int j) { return std::fabs(1 - std::fabs(std::log2((double)i / j))) + 0.01 / (c[i] + c[j]); };
                for (int i = 1; i < L; ++i) for (int j = 1; j <= i; ++j) worst = std::max(worst, cost(i, j));
                double best = worst, second = worst; int bi = 1, bj = 1; for (int i = 2; i < L; ++i) for (int j = 1; j < i; ++j) { double v = cost(i, j); if (v < best) { second = best; best = v; bi = i; bj = j; } else second = std::min(second, v); }
                if (best < worst) { if (second - best <= 1e-9 * std::max(1.0, best)) shaky = true; if (std::fabs(c[bi] - c[bj]) <= 1e-9 * c[bi]) shaky = true; m = c[bi] > c[bj] ? bi : bj; }
            }
        }
        double t = 5168.0 / m; if (m > 0 && t >= 30 && t <= 180) tempo = t;
        bool any; auto off = [&](int from, int to) { int k = argmax(acf, from, to, any, noise / std::max(1, W - to)); return any ? k - from : 0; };
        int o3 = off(3 * m, 3 * m + 5); inexact = o3 % 3 != 0; double p1 = m + 1, p2 = (2 * m + 1 + off(2 * m, 2 * m + 3)) / 2.0, p3 = (3 * m + o3) / 3.0, p4 = (4 * m - 4 + off(4 * m, 4 * m + 7)) / 4.0;
        double p = sig == 3 ? (p1 + p2 + p3) / 3 : (p1 + p2 + p3 + p4) / 4; return rnd(p) < 1 ? 43 : p;
    }
    int meter(const V &acf, double period) {
        int p = rnd(period); auto e = [&](int k) { double s = 0; for (int i = std::max(0, k * p - 2); i <= std::min(W - 1, k * p + 2); ++i) s += acf[i]; return s; };
        double e3 = e(3), e4 = e(4); if (W >= 6 * p + 2) { e3 += e(6); e4 += e(2); } decide(e3, e4, e3 + e4 + 80 * noise / W * 1e9); return e3 > e4 ? 3 : 4;
    }
    V phaseWeights(double period, int fsp, int last) {
        int p = rnd(period), po = last + p - fsp; if (last == 0 || po < 0) return V(p, 1.0);
        V g; for (int i = 0; i < 2 * p; ++i) g.push_back(std::exp(-0.5 * std::pow((i - p) / (p / 8.0), 2))); double s = std::sqrt(2 * M_PI) * (p / 8.0); for (double &d : g) d /= s;
        double lo = *std::min_element(g.begin(), g.end()), hi = *std::max_element(g.begin(), g.end()); for (double &d : g) d = (d - lo) / hi; g.push_back(0); g.push_back(0);
        V w; for (int i = 0; i < p; ++i) w.push_back(g.at(p - po + 1 + i)); return w;
    }
    // keep only the frames on which a model that treats rounding residue as zero agrees
    void common(const Model &o) {
        size_t k = 0; while (k < tempi.size() && k < o.tempi.size() && tempi[k] == o.tempi[k] && frameBeats(k) == o.frameBeats(k)) ++k;
        if (k < tempi.size()) { shaky = true; tempi.resize(k); beats.resize(firstBeat[k]); firstBeat.resize(k); }
    }
    VI frameBeats(size_t k) const { return VI(beats.begin() + firstBeat[k], k + 1 < firstBeat.size() ? beats.begin() + firstBeat[k + 1] : beats.end()); }
    void run(const V &df) {
        int n = (int)df.size(), frames = (n + L - 1) / L, flag = 0, sig = 0, last = 0; bool constant = false; V RW = rayleigh(), GW, P, G;
        for (int f = 0; f < frames && !shaky; ++f) {
            V raw(W, 0.0); for (int i = 0; i < W && f * L + i < n; ++i) raw[i] = df[f * L + i] * (cut > 0 ? 1 + 1e-14 * mc::wave(i, 77) : 1);
            V x = ref::dfproc(raw, LPB, LPA, ALPHA, PRE, POST), acf(W); prune(x); { double top = 0, sum = 0; for (double d : raw) top = std::max(top, std::fabs(d)); for (double d : x) sum += d; noise = NOISE * top * sum; } for (int l = 0; l < W; ++l) { double s = 0; for (int i = 0; i + l < W; ++i) s += x[i] * x[i + l]; s /= W - l; acf[l] = s > 0 ? s : 2.2204e-16; }
            P.push_back(findPeriod(acf, RW, 0)); G.push_back(GW.empty() ? 0 : findPeriod(acf, GW, sig));
            if (flag == 0) { double d = std::fabs(G[f] - P[f]); decide(d, 3.9017, 1); if (d > 3.9017) flag = 3; }
            if (flag == 1) { double d = std::fabs(2 * P[f] - P[f - 1] - P[f - 2]); decide(d, 2 * 3.9017, 1); constant = d < 2 * 3.9017; flag = 0; } else if (flag > 0) --flag;
            double period; V ph;
            if (constant) { sig = meter(acf, P[f]); triple += sig == 3; GW = gauss(P[f]); if (GW[0] == 0) GW.clear(); G[f] = findPeriod(acf, GW.empty() ? gauss(P[f]) : GW, sig); period = G[f]; ph = phaseWeights(period, f * L, 0); constant = false; }
            else if (!GW.empty()) { period = G[f]; ph = phaseWeights(period, f * L, last); }
            else { period = P[f]; ph = phaseWeights(period, f * L, 0); }
            int p = rnd(period); V al; for (int o = 0; o < p; ++o) { double s = 0; for (int i = o; i < W; i += p + 1) s += raw[i] * std::pow((double)(W - i) / W, 2); al.push_back(s * ph[o]); }
            bool any; int a = argmax(al, 0, p, any); if (!any) a = 0; if (shaky) break;
            firstBeat.push_back((int)beats.size()); last = f * L + a; beats.push_back(last); while (last + p < (f + 1) * L) beats.push_back(last += p);
            tempi.push_back(tempo);
        }
    }

};
static void check(TempoTrack &tt, const V &df) {
    V t(1, -5.0); VI b = tt.process(df, &t); mc::step(); int n = (int)df.size(), frames = (n + L - 1) / L;
    mc::require((int)t.size() == frames + 1 && t[0] == -5, "tempo-count", "%zu tempi for %d frames", t.size() - 1, frames);
    for (size_t i = 1; i < t.size(); ++i) mc::require(t[i] == 0 || (t[i] >= 30 && t[i] <= 180), "tempo-range", "frame %zu: tempo %g", i - 1, t[i]);
    int f = 0; for (size_t i = 0; i < b.size(); ++i) { mc::require(b[i] >= 0 && b[i] < frames * L && (i == 0 || b[i] >= b[i - 1]), "order", "beat %zu at %d", i, b[i]); while (f * L <= b[i]) { if (f * L + L > b[i]) break; ++f; mc::require(f < frames, "order", "beat beyond the end"); } }
    std::vector<char> has(frames); for (int x : b) has[x / L] = 1; for (int i = 0; i < frames; ++i) mc::require(has[i], "beatless-frame", "no beat predicted in frame %d", i);
    Model m, m2; m2.cut = 1e-12; m.run(df); m2.run(df); m.common(m2); mc::outcome(mc::Hash("o").i(m.triple).i((long)m.beats.size()).i(m.shaky ? (long)m.tempi.size() : -1));
    for (size_t i = 0; i < m.tempi.size(); ++i) mc::check_close(t[i + 1], m.tempi[i], 1e-4, "tempo", "locked tempo of frame", (long)i);
    mc::require(b.size() >= m.beats.size() && (m.shaky || b.size() == m.beats.size()), "beat-count", "%zu beats, expected %zu", b.size(), m.beats.size());
    for (size_t i = 0; i < m.beats.size(); ++i) mc::require(b[i] == m.beats[i], "beat", "beat %zu at %d, expected %d", i, b[i], m.beats[i]);
}
MC_SCENARIO(trains, "pulse trains of every period 12..120 (quick: every third), phases 0, 7, period-1, with/without noise, lengths 640,1024,1501", 2, 48) {
    int p = 12 + mc::choose(mc::tiered(37, 109), "period") * mc::tiered(3, 1), ph = mc::choose(3, "phase"); ph = ph == 0 ? 0 : ph == 1 ? 7 : p - 1; static const int N[] = {1501, 1024, 640}; int n = mc::pick(N, "len"); bool noise = mc::choose(2, "noise");
    V df(n); for (int i = 0; i < n; ++i) df[i] = (i % p == ph ? 1.0 : 0.0) + (noise ? 0.3 * (1 + mc::wave(i, p)) : 0.0); TempoTrack tt(params()); check(tt, df); mc::state(mc::Hash("t").i(p).i(ph).i(n).i(noise));
}
MC_SCENARIO(changes, "every word of 3 (thorough 5) tempo segments of 384 frames over periods {30,43,60,86}, with/without noise: tempo changes, meter changes", 2, 32) {
    int k = mc::tiered(3, 5); static const int P[] = {43, 30, 60, 86}; bool noise = mc::choose(2, "noise"); V df; mc::Hash h("c"); int t = 0, next = 0; for (int s = 0; s < k; ++s) { int p = mc::pick(P, "period"); h.i(p); for (int i = 0; i < 384; ++i, ++t) { bool b = t == next; if (b) next = t + p; df.push_back(b + (noise ? 0.1 * (1 + mc::wave(t, 3)) : 0)); } } TempoTrack tt(params()); check(tt, df); mc::state(h.i(noise));
}
static V block(int k, int t0, int n) { V x; for (int i = t0; i < t0 + n; ++i) x.push_back(k == 0 ? 0 : k == 1 ? 0.7 : k == 2 ? i % 43 == 0 : k == 3 ? (i % 61 == 5) * 2.0 : k == 4 ? 0.5 * (1 + mc::wave(i, 4)) : 0.01 * (i % 128)); return x; }
MC_SCENARIO(words, "every word of 4 (thorough 5) blocks of 128 values from {silence, constant, pulses of 43, pulses of 61, noise, ramp}, plus a partial block of 0, 1 or 77", 2, 36) {
    int k = mc::tiered(4, 5); V df; mc::Hash h("w"); for (int s = 0; s < k; ++s) { int b = mc::choose(6, "block"); h.i(b); V x = block(b, s * 128, 128); df.insert(df.end(), x.begin(), x.end()); } static const int T[] = {0, 1, 77}; int tail = mc::pick(T, "tail"); V x = block(2, k * 128, tail); df.insert(df.end(), x.begin(), x.end()); TempoTrack tt(params()); check(tt, df); mc::state(h.i(tail));
}
MC_SCENARIO(edges, "6 kinds of input of every length 0..24, 120..136, 506..520 and 636..644", 2, 24) {
    static const int lo[] = {0, 120, 506, 636}, cnt[] = {25, 17, 15, 9}; int g = mc::choose(4, "range"), n = lo[g] + mc::choose(cnt[g], "n"), k = mc::choose(6, "kind"); TempoTrack tt(params()); check(tt, block(k, 0, n)); mc::state(mc::Hash("e").i(n).i(k));
}
MC_SCENARIO(reuse, "every sequence of 3 (thorough 4) process calls on one object over 6 inputs of different lengths: each result is that of a fresh object", 2, 36) {
    int d = mc::tiered(3, 4); TempoTrack tt(params()); mc::Hash h("r"); for (int s = 0; s < d; ++s) { int k = mc::choose(6, "input"); h.i(k); V df = k == 0 ? block(2, 0, 700) : k == 1 ? block(3, 0, 300) : k == 2 ? V() : k == 3 ? block(0, 0, 600) : k == 4 ? block(4, 0, 900) : block(2, 20, 129); check(tt, df); } mc::state(h);
}
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int k = mc::choose(6); mc::leak_check("leak", [&] { TempoTrack tt(params()); V t; tt.process(block(k, 0, 900), &t); tt.process(block(2, 0, 900)); }); mc::state(k); }
MC_SCENARIO(meters, "accent patterns of 2, 3, 4 and 6 beats x 24 (thorough 96) beat periods between 24 and 84, whole and fractional, x 3 degrees of timing jitter, 2500 values: duple and triple metre, periods refined from unequal peaks", 2, 48) {
    static const int M[] = {3, 6, 4, 2}; int m = mc::pick(M, "metre"); double per = 24 + mc::choose(mc::tiered(24, 96), "period") * (mc::thorough() ? 0.6325 : 2.53); int j = mc::choose(3, "jitter"); V df(2500); double next = 3; int beat = 0; for (int i = 0; i < 2500; ++i) { df[i] += 0.02 * (1 + mc::wave(i, 5)); if (i >= next) { int at = i + (int)(j * 1.5 * (1 + mc::wave(beat, 9))); double s = beat % m == 0 ? 1 : m == 6 && beat % 3 == 0 ? 0.7 : 0.12; if (at < 2500) df[at] += s; if (at + 1 < 2500) df[at + 1] += s * 0.4; next += per; ++beat; } } TempoTrack tt(params()); check(tt, df); mc::state(mc::Hash("m").i(m).d(per).i(j));
}
MC_SCENARIO(long_inputs, "6000 and 20000 (thorough 60000) values: steady, drifting, switching, noisy tempo and long silences: every frame for as long as the reference is decided, and the structure throughout", 1, 10) {
    static const int N[] = {6000, 20000, 60000}; int n = N[mc::choose(mc::tiered(2, 3), "len")], k = mc::choose(5, "kind"); V df(n); double next = 3; for (int i = 0; i < n; ++i) { double per = k == 0 ? 43 : k == 1 ? 40 + 12.0 * i / n : k == 2 ? (i / 2500 % 2 ? 60 : 43) : k == 3 ? 57.3 : 51; bool b = i >= next; if (b) next += per; df[i] = (k == 4 && i / 1500 % 2 ? 0 : b ? 1 : 0) + (k >= 3 ? 0.08 * (1 + mc::wave(i, 3)) : 0); if (k == 4 && i / 1500 % 4 == 1) df[i] = 0; } TempoTrack tt(params()); check(tt, df); mc::state(mc::Hash("L").i(n).i(k));
}
MC_SCENARIO(scales, "pulse trains of 6 periods with and without noise x 10 amplitudes 2^-100..2^100: predictions do not depend on the level", 2, 12) {
    static const int E[] = {-100, -50, -30, -20, -10, 10, 20, 30, 50, 100}, P[] = {43, 30, 37, 60, 77, 100}; int p = mc::pick(P, "period"); bool noise = mc::choose(2, "noise"); int e = mc::pick(E, "scale"); V df(1501), sc; for (int i = 0; i < 1501; ++i) { df[i] = (i % p == 5) + (noise ? 0.3 * (1 + mc::wave(i, p)) : 0); sc.push_back(std::ldexp(df[i], e)); } TempoTrack a(params()), b(params()); V ta, tb; VI x = a.process(df, &ta), y = b.process(sc, &tb); mc::step(2); Model m, m2; m2.cut = 1e-12; m.run(df); m2.run(df); m.common(m2); size_t nb = m.beats.size(); mc::require(x.size() >= nb && y.size() >= nb && std::equal(x.begin(), x.begin() + nb, y.begin()), "scaling", "beats differ at scale 2^%d", e); for (size_t i = 0; i < m.tempi.size(); ++i) mc::check_close(tb[i], ta[i], 1e-6, "scaling", "tempo", (long)i); mc::state(mc::Hash("s").i(p).i(noise).i(e));
}

// everything but the fixed design constants (Rayleigh parameter, thresholds) is the caller's to choose; the comb filter reads lags up to 4 * lagLength - 2
struct Cfg { Cfg(int w, int l, double a, int pre, int post, V b, V den) { W = w; L = l; ALPHA = a; PRE = pre; POST = post; LPB = b; LPA = den; } ~Cfg() { W = 512; L = 128; ALPHA = 9; PRE = 8; POST = 7; LPB = {0.16, 0.32, 0.16}; LPA = {1, -0.5949, 0.2348}; } };
MC_SCENARIO(parameters, "window/lag lengths {256/64, 400/100, 1024/128, 1024/256, 700/150, 513/128} x alpha {9, 2, 1} x median windows {8/7, 16/15, 3/5, 0/4} x 3 smoothing filters of order 1, 2 and 3 x 6 (thorough 10) inputs", 3, 24) {
    static const int WL[][2] = {{256, 64}, {400, 100}, {1024, 128}, {1024, 256}, {700, 150}, {513, 128}}, PP[][2] = {{8, 7}, {16, 15}, {3, 5}, {0, 4}}; static const double A[] = {9, 2, 1}; int g = mc::choose(6, "lengths"); double a = mc::pick(A, "alpha"); int m = mc::choose(4, "median"), f = mc::choose(3, "filter");
    Cfg c(WL[g][0], WL[g][1], a, PP[m][0], PP[m][1], f == 0 ? V{0.2, 0.4, 0.2} : f == 1 ? V{0.4, 0.4} : V{0.1, 0.3, 0.3, 0.1}, f == 0 ? V{1, -0.4, 0.2} : f == 1 ? V{1, -0.2} : V{1, -0.5, 0.3, -0.1});
    int k = mc::choose(mc::tiered(6, 10), "input"); V df; if (k == 0) df = block(2, 0, 4 * W - 3); else if (k == 1) { df = block(3, 0, 3 * W); for (int i = 0; i < 3 * W; ++i) df[i] += 0.2 * (1 + mc::wave(i, 8)); } else if (k == 2) { for (int b = 0; b < 4; ++b) { V x = block(b == 1 ? 3 : 2, b * W, W); df.insert(df.end(), x.begin(), x.end()); } for (size_t i = 0; i < df.size(); ++i) df[i] += 0.05 * (1 + mc::wave(i, 2)); } else if (k == 3) df = block(4, 0, 2 * W + L / 2); else if (k <= 5) { int at = 3, beat = 0, mm = k == 4 ? 7 : 3; double next = 3; df.assign(4 * W - 96, 0); for (int i = 0, n = (int)df.size(); i < n; ++i) { df[i] += 0.02 * (1 + mc::wave(i, 6)); if (i >= next) { at = beat % mm; df[i] += at == 0 ? 1 : at == mm / 2 ? 0.5 : 0.1; next += 0.8 * L + 0.1; ++beat; } } } else for (int i = 0, n = 3 * W + 7 * k; i < n; ++i) df.push_back((i % (19 + 7 * k) == k) + 0.5 * (i % (38 + 14 * k) == 3) + 0.1 * (1 + mc::wave(i, k)));
    TempoTrack tt(params()); check(tt, df); mc::state(mc::Hash("P").i(g).d(a).i(m).i(f).i(k));
}
MC_SCENARIO(long_windows, "windows of 6, 8 and 12 lag lengths (128, 100) x accent patterns of 2..7 beats x 12 (thorough 48) beat periods between 0.64 and 0.98 lag lengths x 2 secondary accents: metre decided from every multiple the window holds", 2, 36) {
    static const int WS[] = {8, 6, 12}; int w = mc::pick(WS, "window"), l = mc::choose(2, "lag") ? 100 : 128, mm = 2 + mc::choose(6, "metre"); double per = l * (0.64 + 0.34 * mc::choose(mc::tiered(12, 48), "period") / mc::tiered(12.0, 48.0)); bool sec = mc::choose(2, "secondary"); Cfg c(w * l, l, 9, 8, 7, LPB, LPA);
    V df(3000, 0.0); double next = 3; int beat = 0; for (int i = 0; i < 3000; ++i) { df[i] += 0.02 * (1 + mc::wave(i, 6)); if (i >= next) { int at = beat % mm; df[i] += at == 0 ? 1 : at == mm / 2 ? (sec ? 0.5 : 0.25) : 0.1; next += per; ++beat; } } TempoTrack tt(params()); check(tt, df); mc::state(mc::Hash("W").i(w).i(l).i(mm).d(per).i(sec));
}
NEIGHBOURS("6 trackers that differ in window, lag range, thresholding window or exponent") {
    static double la[] = {1.0, -0.5949, 0.2348}, lb[] = {0.16, 0.32, 0.16};
    struct P { int w, l; double alpha; int pre, post; }; static const P p[] = {{512, 128, 9, 8, 7}, {600, 128, 9, 8, 7}, {512, 100, 9, 8, 7}, {512, 128, 3, 8, 7}, {512, 128, 9, 6, 7}, {512, 128, 9, 8, 5}};
    for (auto &q : p) v.add("tracker " + std::to_string(&q - p), [q] { TTParams c; c.winLength = q.w; c.lagLength = q.l; c.alpha = q.alpha; c.LPOrd = 2; c.LPACoeffs = la; c.LPBCoeffs = lb; c.WinT.pre = q.pre; c.WinT.post = q.post; TempoTrack t(c); nb::V x(1100), te, o; for (int i = 0; i < 1100; ++i) x[i] = 0.1 + (i % 37 == 0) + 0.05 * mc::wave(i, 2); for (int b : t.process(x, &te)) o.push_back(b); nb::app(o, te); return o; });
}
