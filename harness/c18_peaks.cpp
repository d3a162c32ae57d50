// C18: detection-function conditioning (DC removal, alpha-norm, zero-phase low-pass, moving-median threshold)
// and peak picking follow their definitions for every input, length and window.
#include "mc.h"
#include "refdsp.h"
#include <iostream>
#include "dsp/signalconditioning/DFProcess.h"
#include "dsp/onsets/PeakPicking.h"
#include <memory>
#include "neighbours.h"
using ref::V; using std::vector; using std::min; using std::max;

struct LP { const char *name; V b, a; };
static const vector<LP> &lps() { static vector<LP> c = {
    {"butter2", {0.1600, 0.3200, 0.1600}, {1.0000, -0.5949, 0.2348}}, {"identity", {1}, {1}}, {"one-pole", {0.3, 0.2}, {1, -0.5}},
    {"order4", {0.1, 0.2, 0.3, 0.2, 0.1}, {1, -0.3, 0.2, -0.1, 0.05}} }; return c; }
struct Win { int pre, post; };
static const Win wins[] = {{8, 7}, {0, 0}, {1, 0}, {0, 1}, {2, 1}, {1, 3}, {6, 16}};

static V smooth(const V &x, const LP &lp, int alpha, Win w, bool positive, float delta) {
    long n = (long)x.size(); if (!n) return x;
    double lo = *std::min_element(x.begin(), x.end()), an = ref::alphaNorm(x, alpha);
    V s; for (double d : x) s.push_back(an > 0 ? (d - lo) / an : 0.0);       // silence stays silent
    s = ref::filtfilt(lp.b, lp.a, s);
    V out;
    for (long i = 0; i < n; ++i) {
        V m(s.begin() + max(0L, i - w.pre), s.begin() + min(n, i + w.post + 1));
        double v = s[i] - ref::median(m) - delta; if (positive && !(v > 0)) v = 0; out.push_back(v);
    }
    return out;
}
static DFProcConfig dcfg(int n, const LP &lp, int alpha, Win w, bool pos, float delta) {
    DFProcConfig c; c.length = n; c.LPOrd = (int)lp.b.size() - 1; c.LPACoeffs = (double *)lp.a.data(); c.LPBCoeffs = (double *)lp.b.data();
    c.winPre = w.pre; c.winPost = w.post; c.AlphaNormParam = alpha; c.isMedianPositive = pos; c.delta = delta; return c;
}
static V runDF(DFProcess &p, const V &x) { V in(x), out(x.size(), 777.0); p.process(in.data(), out.data()); mc::step(); if (in != x) mc::fail("input-modified", "input changed"); return out; }
static V signal(int kind, int n, int seed) { V x(n);
    for (int i = 0; i < n; ++i) switch (kind) {
        case 0: x[i] = mc::wave(i, seed) + 1.2; break; case 1: x[i] = 0; break; case 2: x[i] = 3.5; break;
        case 3: x[i] = (i % 7 == 3) ? 2 : 0; break; case 4: x[i] = mc::wave(i, seed + 9); break; default: x[i] = i == n / 2 ? 1 : 0; }
    return x; }

MC_SCENARIO(conditioning, "4 filters x 7 median windows x every length 0..40 (thorough 0..70) x 6 signals (random, silent, constant, pulse train, signed, impulse) x {keep sign, rectify}, delta 0.1, alpha 9", 3, 64) {
    const LP &lp = lps()[mc::choose((int)lps().size(), "lp")]; Win w = mc::pick(wins, "win"); int n = mc::choose(mc::tiered(41, 71), "len");
    int kind = mc::choose(6, "signal"); bool pos = mc::choose(2, "pos"); mc::logf("%s pre %d post %d len %d", lp.name, w.pre, w.post, n);
    V x = signal(kind, n, 1); DFProcess p(dcfg(n, lp, 9, w, pos, 0.1f));
    V want = smooth(x, lp, 9, w, pos, 0.1f);
    mc::check_vec(runDF(p, x), want, 1e-7, "smoothed", "df");
    V y = signal(0, n, 5); mc::check_vec(runDF(p, y), smooth(y, lp, 9, w, pos, 0.1f), 1e-7, "smoothed-again", "df on second call");
    mc::state(mc::Hash(lp.name).i(w.pre).i(w.post).i(n).i(kind)); mc::Hash o; o.vec(want); mc::outcome(o);
}
MC_SCENARIO(words, "every word in {0,1,3}^n for n=1..7 (thorough 8), windows (2,1) and (8,7), alpha 2, delta 0, butterworth filter", 2, 16) {
    Win w = mc::choose(2, "win") ? wins[0] : wins[4]; int n = 1 + mc::choose(mc::tiered(7, 8), "len"); static const double al[] = {0, 1, 3}; V x; for (int i = 0; i < n; ++i) x.push_back(mc::pick(al, "x"));
    DFProcess p(dcfg(n, lps()[0], 2, w, false, 0)); mc::check_vec(runDF(p, x), smooth(x, lps()[0], 2, w, false, 0), 1e-7, "smoothed", "df"); mc::state(mc::Hash("w").i(w.pre).vec(x));
}

// ---- peak picking
struct Q { double a, c; };
static void pickCheck(const V &x, const LP &lp, int alpha, Win w, float delta, Q q) {
    int n = (int)x.size(); PPickParams p; p.length = n; p.tau = 0.01; p.alpha = alpha; p.cutoff = 0.3; p.LPOrd = (int)lp.b.size() - 1; p.LPACoeffs = (double *)lp.a.data(); p.LPBCoeffs = (double *)lp.b.data();
    p.WinT = PPWinThresh(w.pre, w.post); p.QuadThresh = QFitThresh(q.a, 0, q.c); p.delta = delta;
    PeakPicking pp(p); V src(x); vector<int> on(1, -7); pp.process(src.data(), n, on); mc::step();
    if (n < 4) { mc::require(src == x && on == vector<int>(1, -7), "too-short", "a %d-value input was changed or produced peaks", n); return; }
    V s = smooth(x, lp, alpha, w, false, delta); mc::check_vec(src, s, 1e-7, "smoothed", "smoothed df written back");
    mc::require(on.size() && on[0] == -7, "onset-list", "existing entries of the onset vector were disturbed");
    vector<int> got(on.begin() + 1, on.end()); size_t g = 0; const double eps = 1e-7;
    for (int i = 2; i < n - 2; ++i) {
        const double *y = &s[i];
        double h = (2 * y[-2] - y[-1] - 2 * y[0] - y[1] + 2 * y[2]) / 14, f = (-3 * y[-2] + 12 * y[-1] + 17 * y[0] + 12 * y[1] - 3 * y[2]) / 35;
        const double *z = &src[i]; bool peak = z[0] > z[-1] && z[0] > z[1] && z[0] > 0; // exact, on the conditioned signal handed back (checked above)
        double sharp = max(-q.a - h, f - q.c), m = peak ? sharp : -1; bool have = g < got.size() && got[g] == i;
        if (m > eps && !have) mc::fail("missed-peak", "index %d is a qualifying local maximum but was not reported", i);
        if (m < -eps && have) mc::fail("false-peak", "index %d reported but does not qualify", i);
        if (have) ++g; mc::evals();
    }
    mc::require(g == got.size(), "false-peak", "%zu reported onsets are out of order, duplicated or out of range", got.size() - g);
    mc::Hash h; for (int i : got) h.i(i); mc::outcome(h);
}
MC_SCENARIO(peaks_words, "every word in {0,1,4}^n, n=1..9 (thorough 10), window (2,1), alpha 9, thresholds {(0,0),(0.5,0.05),(0,5)}, filters {butterworth, identity}", 4, 64) {
    const LP &lp = lps()[mc::choose(2, "lp")];
    static const Q qs[] = {{0.5, 0.05}, {0, 0}, {0, 5}}; Q q = mc::pick(qs, "q"); int n = 1 + mc::choose(mc::tiered(9, 10), "len"); static const double al[] = {0, 1, 4}; V x; for (int i = 0; i < n; ++i) x.push_back(mc::pick(al, "x"));
    pickCheck(x, lp, 9, wins[4], 0, q); mc::state(mc::Hash("w").i((long)lp.b.size()).d(q.a).vec(x));
}
MC_SCENARIO(peaks_long, "4 filters x 7 windows x lengths {3,4,5,10,15,16,17,30,100,500} x 6 signals x 5 sensitivities x delta {0,0.2}", 3, 64) {
    const LP &lp = lps()[mc::choose((int)lps().size(), "lp")]; Win w = mc::pick(wins, "win"); static const int L[] = {3, 4, 5, 10, 15, 16, 17, 30, 100, 500}; int n = mc::pick(L, "len"); int kind = mc::choose(6, "signal");
    static const int S[] = {50, 0, 100, 25, 90}; int s = mc::pick(S, "sens"); Q q = {(100 - s) / 1000.0, (100 - s) / 1500.0}; float delta = mc::choose(2, "delta") ? 0.2f : 0;
    pickCheck(signal(kind, n, 3), lp, 9, w, delta, q); mc::state(mc::Hash(lp.name).i(w.pre).i(w.post).i(n).i(kind).i(s));
}
MC_SCENARIO(leaks, "no heap growth per object or call", 0, 1) {
    int n = 30 + mc::choose(2); mc::leak_check("leak", [&] { pickCheck(signal(0, n, 1), lps()[0], 9, wins[0], 0, Q{0, 0}); DFProcess p(dcfg(n, lps()[0], 9, wins[0], true, 0)); V x(n, 1.0), y(n); p.process(x.data(), y.data()); p.process(x.data(), y.data()); }); mc::state(n);
}
// the alpha norm makes the conditioned function independent of the input's scale
MC_SCENARIO(scales, "4 filters x 3 windows x alpha 1,2,3,9 x 8 scales 2^-45..2^45, lengths 30, 300: conditioning and peaks do not depend on the scale of the input", 1, 16) {
    const LP &lp = lps()[mc::choose((int)lps().size(), "lp")]; static const Win W[] = {{8, 7}, {2, 1}, {60, 90}}; Win w = mc::pick(W, "win"); static const int A[] = {9, 1, 2, 3}, E[] = {-45, -30, -20, -10, 10, 20, 30, 45}; int al = mc::pick(A, "alpha"), e = mc::pick(E, "scale"), n = mc::choose(2, "n") ? 300 : 30; V x = signal(0, n, 4), s(x); for (double &d : s) d = std::ldexp(d, e); DFProcess p(dcfg(n, lp, al, w, false, 0.05f)); mc::check_vec(runDF(p, s), smooth(x, lp, al, w, false, 0.05f), 1e-7, "smoothed", "df"); pickCheck(s, lp, al, w, 0.05f, Q{0.01, 0.02}); mc::state(mc::Hash(lp.name).i(w.pre).i(al).i(e).i(n));
}
MC_SCENARIO(long_inputs, "lengths 1024, 4096, 5001, 20000, 70000 x 3 signals x 3 windows up to (100, 150), alpha 9 and 2: every conditioned value and every peak", 1, 15) {
    static const int L[] = {1024, 4096, 5001, 20000, 70000}; int n = mc::pick(L, "n"), k = mc::choose(3, "signal"); static const Win W[] = {{8, 7}, {100, 150}, {0, 5}}; Win w = mc::pick(W, "win"); if (n > 30000 && w.pre > 50) w = {9, 9}; pickCheck(signal(k == 2 ? 3 : k ? 4 : 0, n, 6), lps()[k], k ? 2 : 9, w, 0, Q{0.01, 0.02}); mc::state(mc::Hash("L").i(n).i(k).i(w.pre));
}
MC_SCENARIO(wide_windows, "2 filters x 8 median windows of 61 to 401 values x lengths 20..420 around the window sizes x 3 signals, delta 0.05: windows wider than the function on either or both sides", 2, 16) {
    static const Win WW[] = {{50, 10}, {10, 50}, {60, 60}, {100, 100}, {120, 3}, {3, 120}, {150, 200}, {200, 200}}; static const int N[] = {20, 59, 60, 61, 62, 63, 100, 101, 110, 120, 121, 122, 123, 124, 125, 150, 200, 201, 202, 250, 351, 352, 400, 401, 402, 420};
    const LP &lp = lps()[mc::choose(2, "lp")]; Win w = mc::pick(WW, "win"); int n = mc::pick(N, "len"); static const int K[] = {0, 3, 4}; int kind = mc::pick(K, "signal"); V x = signal(kind, n, 2); DFProcess p(dcfg(n, lp, 9, w, false, 0.05f)); mc::check_vec(runDF(p, x), smooth(x, lp, 9, w, false, 0.05f), 1e-7, "smoothed", "df"); mc::state(mc::Hash(lp.name).i(w.pre).i(w.post).i(n).i(kind));
}
NEIGHBOURS("15 detection-function processors and peak pickers that differ in one setting") {
    static double la[] = {1.0, -0.5949, 0.2348}, lb[] = {0.16, 0.32, 0.16}, lc[] = {1.0, -0.4, 0.2}, ld[] = {0.2, 0.4, 0.2};
    struct P { int n, pre, post; double *a, *b; double alpha, delta; bool med; }; static const P p[] = {{60, 8, 7, la, lb, 9, 0, true}, {60, 8, 7, la, lb, 9, 0, false}, {60, 8, 7, lc, lb, 9, 0, true}, {60, 8, 7, la, ld, 9, 0, true}, {60, 6, 7, la, lb, 9, 0, true}, {60, 8, 5, la, lb, 9, 0, true}, {60, 8, 7, la, lb, 3, 0, true}, {60, 8, 7, la, lb, 9, 0.1, true}, {80, 8, 7, la, lb, 9, 0, true}};
    for (auto &q : p) v.add("processor " + std::to_string(&q - p), [q] { DFProcConfig c; c.length = q.n; c.LPOrd = 2; c.LPACoeffs = q.a; c.LPBCoeffs = q.b; c.winPre = q.pre; c.winPost = q.post; c.AlphaNormParam = q.alpha; c.isMedianPositive = q.med; c.delta = q.delta; DFProcess d(c); nb::V x = nb::sig(q.n), y(q.n); for (double &s : x) s = std::fabs(s) + 0.1; d.process(x.data(), y.data()); return y; });
    for (auto &q : p) if (q.med && q.delta == 0 && q.n == 60) v.add("picker " + std::to_string(&q - p), [q] { PPickParams c; c.length = q.n; c.tau = 0.01; c.alpha = q.alpha; c.cutoff = 50; c.LPOrd = 2; c.LPACoeffs = q.a; c.LPBCoeffs = q.b; c.WinT.pre = q.pre; c.WinT.post = q.post; PeakPicking d(c); nb::V x = nb::sig(q.n); for (double &s : x) s = std::fabs(s) + 0.1; std::vector<int> on; d.process(x.data(), q.n, on); nb::V o(on.begin(), on.end()); nb::app(o, x); return o; });
}
