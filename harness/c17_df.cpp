// C17: onset detection functions: every value equals the published definition over the frame history.
#include "mc.h"
#include "refcq.h"
#include "dsp/onsets/DetectionFunction.h"
#include <complex>
#include <map>
#include "neighbours.h"
using ref::V; typedef std::complex<double> C; typedef std::vector<C> VC;
struct Cfg { int n, step, type; double rise; bool whiten; double relax, floor; };
struct Model {
    Cfg c; int h; V peak, hist, p1, p2, mag;
    explicit Model(const Cfg &cc) : c(cc), h(cc.n / 2 + 1), peak(h, 0.0), hist(h, 0.0), p1(h, 0.0), p2(h, 0.0), mag(h) { if (c.relax < 0) c.relax = 0.9997; if (c.floor < 0) c.floor = 0.01; }
    double lo, hi; // accepted interval (lo != hi only when a broadband bin sits on the threshold)
    void frame(const VC &w) {
        double v = 0; int tie = 0;
        for (int i = 0; i < h; ++i) {
            double m = std::abs(w[i]), ph = std::arg(w[i]);
            if (c.whiten) { double p = std::max({m, m < peak[i] ? m + (peak[i] - m) * c.relax : m, c.floor}); peak[i] = p; if (p > 0) m /= p; }
            mag[i] = m; double dev = std::remainder(ph - 2 * p1[i] + p2[i], 2 * M_PI);
            switch (c.type) {
            case DF_HFC: v += m * (i + 1); break;
            case DF_SPECDIFF: v += std::sqrt(std::fabs(m * m - hist[i] * hist[i])); break;
            case DF_PHASEDEV: v += std::fabs(dev); break;
            case DF_COMPLEXSD: v += std::abs(hist[i] - std::polar(m, dev)); break;
            case DF_BROADBAND: if (hist[i] > 0) { double d = m > 0 ? 20 * std::log10(m / hist[i]) : -INFINITY; if (m == hist[i]) v += 0 > c.rise; /* unchanged: exactly 0 dB */ else if (std::fabs(d - c.rise) < 1e-6) ++tie; else if (d > c.rise) v += 1; } break;
            }
            hist[i] = m; p2[i] = p1[i]; p1[i] = ph;
        }
        lo = v; hi = v + tie;
    }
};
static DFConfig conf(const Cfg &c) { DFConfig d; d.stepSize = c.step; d.frameLength = c.n; d.DFType = c.type; d.dbRise = c.rise; d.adaptiveWhitening = c.whiten; d.whiteningRelaxCoeff = c.relax; d.whiteningFloor = c.floor; return d; }
static void judge(DetectionFunction &df, Model &m, double got) {
    mc::step(); double tol = 1e-6 * (1 + std::fabs(m.hi)); mc::require(got >= m.lo - tol && got <= m.hi + tol, "value", "detection value %.12g, definition gives %.12g", got, m.lo);
    const double *g = df.getSpectrumMagnitude(); for (int i = 0; i < m.h; ++i) mc::check_close(g[i], m.mag[i], 1e-8, "magnitude", "spectrum magnitude", i);
}
static void timeFrame(DetectionFunction &df, Model &m, const V &x) {
    int n = m.c.n; VC w(m.h); for (int k = 0; k < m.h; ++k) for (int i = 0; i < n; ++i) { int j = (i + n / 2) % n; w[k] += x[j] * (0.5 - 0.5 * std::cos(2 * M_PI * j / n)) * std::polar(1.0, -2 * M_PI * ((long)i * k % n) / n); }
    V in(x); double got = df.processTimeDomain(in.data()); if (in != x) mc::fail("input-modified", "input frame changed"); m.frame(w); judge(df, m, got);
}
static void freqFrame(DetectionFunction &df, Model &m, const VC &w) { V r, i; for (auto &z : w) { r.push_back(z.real()); i.push_back(z.imag()); } V r0(r), i0(i); double got = df.processFrequencyDomain(r.data(), i.data()); if (r != r0 || i != i0) mc::fail("input-modified", "input changed"); m.frame(w); judge(df, m, got); }
struct Wh { bool on; double relax, floor; }; static const Wh WH[] = {{false, -1, -1}, {true, -1, -1}, {true, 0.9, 0.5}, {true, 0, 0.1}, {true, 0.8, 0}};
MC_SCENARIO(histories, "5 types x 5 whitening settings (one without a floor) x frame sizes 2,4,8,32; every sequence of 5 (thorough 6) frames from {dense loud, dense quiet, rotated, frequency-domain dense, frequency-domain silent}", 3, 48) {
    int type = 1 + mc::choose(5, "type"); Wh w = mc::pick(WH, "whiten"); static const int S[] = {8, 2, 4, 32}; int n = mc::pick(S, "n"); Cfg c = {n, n / 2, type, 3.0, w.on, w.relax, w.floor}; DetectionFunction df(conf(c)); Model m(c); mc::Hash hh("h"); hh.i(type).i(w.on).d(w.relax).i(n);
    for (int d = 0; d < mc::tiered(5, 6); ++d) { int op = mc::choose(5, "op"); hh.i(op); mc::logf("%d", op);
        if (op >= 3) { VC x(n / 2 + 1); if (op == 3) for (int i = 0; i <= n / 2; ++i) x[i] = C(mc::wave(i, d), mc::wave(i, d + 7)); freqFrame(df, m, x); }
        else { V x(n); for (int i = 0; i < n; ++i) x[i] = op == 0 ? mc::wave(i, 3 * d) + 0.3 : op == 1 ? 0.01 * mc::wave(i, 3 * d + 1) : mc::wave((i + d) % n, 77); timeFrame(df, m, x); }
        mc::state(hh); }
}
MC_SCENARIO(words, "5 types x whitening off/on/on without a floor, frame of 3 bins: every pair of frames with bins from {0, 1, -2, 0.5i, -1-i, 4}, then a fixed third frame", 3, 48) {
    int type = 1 + mc::choose(5, "type"); int wh = mc::choose(3, "whiten"); Cfg c = {4, 2, type, 2.0, wh > 0, 0.5, wh == 2 ? 0 : 0.25}; DetectionFunction df(conf(c)); Model m(c); static const C AL[] = {0, 1, C(-2, 0), C(0, 0.5), C(-1, -1), 4}; mc::Hash h("w"); h.i(type).i(wh);
    for (int f = 0; f < 2; ++f) { VC x(3); for (int i = 0; i < 3; ++i) { x[i] = mc::pick(AL, "bin"); h.d(x[i].real()).d(x[i].imag()); } freqFrame(df, m, x); } freqFrame(df, m, {C(1, 1), C(-1, 0.5), C(0.2, -3)}); mc::state(h);
}
MC_SCENARIO(rise, "broadband: every ratio m/40 (m 1..160) of consecutive magnitudes x every threshold 0..12 dB x loudness 1e-6,1,1e6", 1, 8) {
    static const double L[] = {1, 1e-6, 1e6}; double l = mc::pick(L, "loud"); int k = 1 + mc::choose(160, "ratio"), t = mc::choose(13, "rise"); Cfg c = {4, 2, DF_BROADBAND, (double)t, false, -1, -1}; DetectionFunction df(conf(c)); Model m(c);
    freqFrame(df, m, {l, C(0, l), 0}); freqFrame(df, m, {l * k / 40, l, l}); freqFrame(df, m, {l, C(l * k / 40, 0), l}); mc::state(mc::Hash("r").d(l).i(k).i(t));
}
MC_SCENARIO(decay, "whitening over 300 (thorough 1500) frames: impulse, silence, slow ramp, alternating; 5 coefficient settings x 5 types", 2, 20) {
    int type = 1 + mc::choose(5, "type"); Wh w = WH[mc::choose(5, "wh")]; int kind = mc::choose(4, "kind"); Cfg c = {8, 4, type, 1.0, w.on, w.relax, w.floor}; DetectionFunction df(conf(c)); Model m(c);
    for (int t = 0; t < mc::tiered(300, 1500); ++t) { double g = kind == 0 ? (t == 3 ? 100 : 0.02) : kind == 1 ? (t < 5 ? 1 : 0) : kind == 2 ? 0.001 * t : t % 7 ? 1 : 0.003; VC x(5); for (int i = 0; i < 5; ++i) x[i] = g * C(mc::wave(i, t), mc::wave(i + 9, t)); freqFrame(df, m, x); } mc::state(mc::Hash("d").i(type).i(kind).d(w.relax).i(w.on));
}
MC_SCENARIO(two, "two detection functions of different types interleaved in every order of 6 frames do not influence each other", 2, 25) {
    Cfg a = {8, 4, 1 + mc::choose(5, "A"), 3, true, 0.9, 0.1}, b = {4, 4, 1 + mc::choose(5, "B"), 3, true, 0.5, 0.2}; DetectionFunction da(conf(a)), db(conf(b)); Model ma(a), mb(b);
    for (int d = 0; d < 6; ++d) { if (mc::choose(2, "which")) { V x(4); for (int i = 0; i < 4; ++i) x[i] = mc::wave(i, d); timeFrame(db, mb, x); } else { V x(8); for (int i = 0; i < 8; ++i) x[i] = mc::wave(i, d + 20); timeFrame(da, ma, x); } } mc::state(mc::Hash("2").i(a.type).i(b.type));
}
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int type = 1 + mc::choose(5); mc::leak_check("leak", [&] { Cfg c = {8, 4, type, 3, true, -1, -1}; DetectionFunction d(conf(c)); V x(8, 1.0); d.processTimeDomain(x.data()); }); mc::state(type); }
MC_SCENARIO(realistic, "5 types x 5 whitening settings x frame sizes 256, 512, 1000, 1024, 2048, 4096, 6000 (steps n/2, n/4): 4 time-domain frames (loud, quiet, silent, loud) and 3 frequency-domain frames", 2, 25) {
    int type = 1 + mc::choose(5, "type"); Wh w = mc::pick(WH, "whiten"); static const int S[] = {1024, 256, 512, 1000, 2048, 4096, 6000}; int n = mc::pick(S, "n"); Cfg c = {n, mc::choose(2, "step") ? n / 4 : n / 2, type, 3.0, w.on, w.relax, w.floor}; DetectionFunction df(conf(c)); Model m(c);
    std::vector<C> tw; for (int i = 0; i < n; ++i) tw.push_back(std::polar(1.0, -2 * M_PI * i / n)); auto spec = [&](const V &x) { V y(n); for (int i = 0; i < n; ++i) { int j = (i + n / 2) % n; y[i] = x[j] * (0.5 - 0.5 * std::cos(2 * M_PI * j / n)); } VC s(m.h); for (int k = 0; k < m.h; ++k) { C a = 0; for (int i = 0; i < n; ++i) a += y[i] * tw[(long)i * k % n]; s[k] = a; } return s; };
    for (int t = 0; t < 4; ++t) { V x(n); for (int i = 0; i < n; ++i) x[i] = (t == 1 ? 1e-3 : t == 2 ? 0 : 1) * mc::wave(i, t); V in(x); double got = df.processTimeDomain(in.data()); if (in != x) mc::fail("input-modified", "input frame changed"); static std::map<std::pair<int, int>, VC> cache; VC &sp = cache[std::make_pair(n, t)]; if (sp.empty()) sp = spec(x); m.frame(sp); judge(df, m, got); }
    for (int t = 0; t < 3; ++t) { VC x(m.h); for (int i = 0; i < m.h; ++i) x[i] = C(mc::wave(i, t + 20), mc::wave(i, t + 30)); freqFrame(df, m, x); } mc::state(mc::Hash("R").i(type).i(w.on).d(w.relax).i(n).i(c.step));
}
MC_SCENARIO(scales, "5 types x {no whitening, whitening without a floor} x 8 scales 2^-100..2^100: 6 frames, dense and sparse: the value scales with the input (phase, broadband and whitened values do not change)", 1, 10) {
    int type = 1 + mc::choose(5, "type"); bool wh = mc::choose(2, "whiten"), sparse = mc::choose(2, "sparse"); static const int E[] = {-100, -60, -40, -20, 20, 40, 60, 100}; int e = mc::pick(E, "scale"); Cfg c = {16, 8, type, 3.0, wh, 0.8, 0}; DetectionFunction a(conf(c)), b(conf(c)); double g = wh || type == DF_PHASEDEV || type == DF_BROADBAND ? 1 : std::ldexp(1.0, -e);
    for (int t = 0; t < 6; ++t) { V r(9), i(9), R, I; for (int k = 0; k < 9; ++k) if (!sparse || (k + t) % 3 == 0) { r[k] = mc::wave(k, t); i[k] = mc::wave(k, t + 9); } for (double d : r) R.push_back(std::ldexp(d, e)); for (double d : i) I.push_back(std::ldexp(d, e)); double p = a.processFrequencyDomain(r.data(), i.data()), q = b.processFrequencyDomain(R.data(), I.data()); mc::step(2); mc::check_close(q * g, p, 1e-8 * (1 + std::fabs(p)), "scaling", "detection value", t); } mc::state(mc::Hash("s").i(type).i(wh).i(sparse).i(e));
}
MC_SCENARIO(very_large, "5 types x whitening off/on x frame sizes 8192, 16384, 32768, 131072: 4 time-domain frames (loud, quiet, silent, loud) and 2 frequency-domain frames", 2, 10) {
    int type = 1 + mc::choose(5, "type"); Wh w = WH[mc::choose(2, "whiten") * 2]; static const int S[] = {16384, 8192, 32768, 131072}; int n = mc::pick(S, "n"); Cfg c = {n, n / 2, type, 3.0, w.on, w.relax, w.floor}; DetectionFunction df(conf(c)); Model m(c);
    for (int t = 0; t < 4; ++t) { V x(n); for (int i = 0; i < n; ++i) x[i] = (t == 1 ? 1e-3 : t == 2 ? 0 : 1) * mc::wave(i, t); static std::map<std::pair<int, int>, VC> cache; VC &sp = cache[std::make_pair(n, t)]; if (sp.empty()) { VC y(n); for (int i = 0; i < n; ++i) { int j = (i + n / 2) % n; y[i] = x[j] * (0.5 - 0.5 * std::cos(2 * M_PI * j / n)); } sp = refcq::fft2(y); sp.resize(m.h); } V in(x); double got = df.processTimeDomain(in.data()); if (in != x) mc::fail("input-modified", "input frame changed"); m.frame(sp); judge(df, m, got); }
    for (int t = 0; t < 2; ++t) { VC x(m.h); for (int i = 0; i < m.h; ++i) x[i] = C(mc::wave(i, t + 20), mc::wave(i, t + 30)); freqFrame(df, m, x); } mc::state(mc::Hash("V").i(type).i(w.on).i(n));
}
NEIGHBOURS("15 detection functions that differ in one setting") {
    struct P { int type, step, len; double rise; bool w; double relax, floor; }; static const P p[] = {{DF_COMPLEXSD, 32, 64, 3, false, -1, -1}, {DF_HFC, 32, 64, 3, false, -1, -1}, {DF_SPECDIFF, 32, 64, 3, false, -1, -1}, {DF_PHASEDEV, 32, 64, 3, false, -1, -1}, {DF_BROADBAND, 32, 64, 3, false, -1, -1}, {DF_BROADBAND, 32, 64, 0.5, false, -1, -1}, {DF_COMPLEXSD, 16, 64, 3, false, -1, -1}, {DF_COMPLEXSD, 32, 128, 3, false, -1, -1}, {DF_COMPLEXSD, 32, 64, 3, true, -1, -1}, {DF_COMPLEXSD, 32, 64, 3, true, 0.5, -1}, {DF_COMPLEXSD, 32, 64, 3, true, -1, 0.2}, {DF_BROADBAND, 32, 64, 3, true, -1, -1}, {DF_HFC, 32, 4096, 3, false, -1, -1}, {DF_PHASEDEV, 16, 64, 3, false, -1, -1}, {DF_SPECDIFF, 32, 128, 3, false, -1, -1}};
    for (auto &q : p) v.add("detection function " + std::to_string(&q - p), [q] { DFConfig c; c.DFType = q.type; c.stepSize = q.step; c.frameLength = q.len; c.dbRise = q.rise; c.adaptiveWhitening = q.w; c.whiteningRelaxCoeff = q.relax; c.whiteningFloor = q.floor; DetectionFunction d(c); nb::V o; for (int k = 0; k < 5; ++k) { nb::V x = nb::sig(q.len, k); for (double &s : x) s *= 1 + k; o.push_back(d.processTimeDomain(x.data())); double *m = d.getSpectrumMagnitude(); o.insert(o.end(), m, m + q.len / 2 + 1); } return o; });
}
