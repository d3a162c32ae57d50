// C24: key detection: decimate, chroma, running mean, profile correlation, argmax, running median -- for every frame history.
#include <memory>
#include "refchroma.h"
#include "refdec.h"
#include "dsp/keydetection/GetKeyMode.h"
#include "dsp/rateconversion/Decimator.h"
#include <deque>
#include "neighbours.h"
using namespace refcq;
static const double MAJ[36] = {0.0384, 0.0629, 0.0258, 0.0121, 0.0146, 0.0106, 0.0364, 0.0610, 0.0267, 0.0126, 0.0121, 0.0086, 0.0364, 0.0623, 0.0279, 0.0275, 0.0414, 0.0186, 0.0173, 0.0248, 0.0145, 0.0364, 0.0631, 0.0262, 0.0129, 0.0150, 0.0098, 0.0312, 0.0521, 0.0235, 0.0129, 0.0142, 0.0095, 0.0289, 0.0478, 0.0239};
static const double MIN[36] = {0.0375, 0.0682, 0.0299, 0.0119, 0.0138, 0.0093, 0.0296, 0.0543, 0.0257, 0.0292, 0.0519, 0.0246, 0.0159, 0.0234, 0.0135, 0.0291, 0.0544, 0.0248, 0.0137, 0.0176, 0.0104, 0.0352, 0.0670, 0.0302, 0.0222, 0.0349, 0.0164, 0.0174, 0.0297, 0.0166, 0.0222, 0.0401, 0.0202, 0.0175, 0.0270, 0.0146};
static double corr(const V &d, const double *prof, int shift) { double md = 0, mp = 0; for (int i = 0; i < 36; ++i) { md += d[i] / 36; mp += prof[i] / 36; } double n = 0, a = 0, b = 0; for (int i = 0; i < 36; ++i) { double x = d[i] - md, y = prof[((i - shift) % 36 + 36) % 36] - mp; n += x * y; a += x * x; b += y * y; } return a * b > 0 ? n / std::sqrt(a * b) : 0; }
struct Cf { double rate; int dec; float tune; };
static const Cf CF[] = {{1000, 1, 440}, {2000, 2, 440}, {8000, 8, 440}, {4000, 4, 415}};
struct Model {
    Cf cf; Chroma ch; int L, nAvg, nMed; V stream; std::deque<V> frames; std::deque<int> keys; V strength; // 0 = undecided (tie)
    Model(const Cf &c, double hp, double med) : cf(c), ch(c.rate / c.dec, c.tune * std::pow(2.0, (48 - 69) / 12.0), c.tune * std::pow(2.0, (96 - 69) / 12.0), 36, 0.0054, 2), L(ch.k->L) { nAvg = std::max(1, (int)std::ceil(hp * c.rate / c.dec / L - 1e-9)); nMed = std::max(1, (int)std::ceil(med * c.rate / c.dec / L - 1e-9)); }
    // chroma of one decimated frame, remembered: the same frames recur in many histories
    const V &chroma(const V &frame) { static std::map<std::pair<const Kernel *, V>, V> memo; V &r = memo[std::make_pair(ch.k, frame)]; if (r.empty()) r = ch.fromFrame(frame); return r; }
    int frame(const V &x) {
        V y; if (cf.dec == 1) y = x; else { stream.insert(stream.end(), x.begin(), x.end()); V all = refdec::decimate(cf.dec, false, stream); y.assign(all.end() - L, all.end()); }
        return decimated(y);
    }
    int decimated(const V &y) {
        frames.push_back(chroma(y)); if ((int)frames.size() > nAvg) frames.pop_front(); V mean(36, 0.0); for (auto &f : frames) for (int i = 0; i < 36; ++i) mean[i] += f[i] / frames.size();
        double all[72]; for (int k = 0; k < 36; ++k) { all[k] = corr(mean, MAJ, k - 2); all[36 + k] = corr(mean, MIN, k - 2); }
        int best = 0; for (int k = 1; k < 72; ++k) if (all[k] > all[best]) best = k; double second = -2; for (int k = 0; k < 72; ++k) if (k / 3 != best / 3) second = std::max(second, all[k]); bool tie = all[best] - second < 1e-7;
        strength.assign(24, -2); for (int k = 0; k < 72; ++k) strength[k / 3] = std::max(strength[k / 3], all[k]);
        keys.push_back(tie ? 0 : best / 3 + 1); if ((int)keys.size() > nMed) keys.pop_front(); std::vector<int> s(keys.begin(), keys.end()); std::sort(s.begin(), s.end()); if (s[0] == 0) return 0; return s[(s.size() + 1) / 2 - 1];
    }
};
static void feed(GetKeyMode &g, Model &m, const V &x) {
    V in(x); int key = g.process(in.data()), want = m.frame(x); mc::step(); if (in != x) mc::fail("input-modified", "input changed"); mc::require(key >= 0 && key <= 24, "key-range", "key %d", key); mc::require(!want || key == want, "key", "key %d, reference says %d", key, want);
    double *s = g.getKeyStrengths(); for (int i = 0; i < 24; ++i) mc::check_close(s[i], m.strength[i], 1e-7, "strength", "key strength", i);
}
static V block(const Model &m, int kind, int t) {
    int n = m.L * m.cf.dec; V x(n, 0.0); static const int CH[][3] = {{48, 52, 55}, {55, 59, 62}, {57, 60, 64}, {54, 58, 61}}; 
    if (kind < 4) for (int j = 0; j < 3; ++j) { double f = m.cf.tune * std::pow(2.0, (CH[kind][j] - 69) / 12.0) / m.cf.rate; for (int i = 0; i < n; ++i) x[i] += 0.3 * std::sin(2 * M_PI * f * i); }
    else if (kind == 4) for (int i = 0; i < n; ++i) x[i] = mc::wave(i, t % 3);
    return x; // kind 5: silence
}
static GetKeyMode *make(const Cf &c, double hp, double med, int overlap) { GetKeyMode::Config k(c.rate, c.tune); k.hpcpAverage = hp; k.medianAverage = med; k.frameOverlapFactor = overlap; k.decimationFactor = c.dec; return new GetKeyMode(k); }
MC_SCENARIO(histories, "chroma averages of 0,2,4 frames x key medians of 0,1,3 frames: every sequence of 4 (thorough 5) frames from {C, G, A minor, F# triads, noise, silence}, no decimation", 3, 48) {
    static const double H[] = {1, 0, 2}, M[] = {1.5, 0, 0.5}; double hp = mc::pick(H, "hpcp"), md = mc::pick(M, "median"); std::unique_ptr<GetKeyMode> g(make(CF[0], hp, md, 1)); Model m(CF[0], hp, md); mc::Hash h("h"); h.d(hp).d(md);
    for (int d = 0; d < mc::tiered(4, 5); ++d) { int op = mc::choose(6, "frame"); h.i(op); feed(*g, m, block(m, op, d)); mc::state(h); }
}
MC_SCENARIO(long_window, "every word of 8 (thorough 9) frames over {C, F#} and every word of 5 (6) over 3 chords, averages 1..4 frames, medians 1..6: buffers wrap around twice", 2, 48) {
    int a = 1 + mc::choose(4, "avg"), b = 1 + mc::choose(6, "med"); double hp = a * 0.512 - 0.01, md = b * 0.512 - 0.01; std::unique_ptr<GetKeyMode> g(make(CF[0], hp, md, 1)); Model m(CF[0], hp, md); bool two = mc::choose(2, "alphabet"); mc::Hash h("l"); h.i(a).i(b).i(two); int n = two ? mc::tiered(8, 9) : mc::tiered(5, 6); for (int d = 0; d < n; ++d) { int op = two ? mc::choose(2, "f") * 3 : mc::choose(3, "f"); h.i(op); feed(*g, m, block(m, op, 0)); mc::state(h); }
}
MC_SCENARIO(decimated, "decimation 2, 4 (tuning 415) and 8: every sequence of 3 (thorough 4) frames from 6 kinds; block and hop size for overlaps 1,2,8", 2, 18) {
    const Cf &c = CF[1 + mc::choose(3, "cfg")]; static const int O[] = {1, 2, 8}; int ov = O[mc::choose(3, "overlap")]; std::unique_ptr<GetKeyMode> g(make(c, 1, 1, ov)); Model m(c, 1, 1); mc::require(g->getBlockSize() == m.L * c.dec && g->getHopSize() == m.L / ov * c.dec, "block-size", "block %d hop %d", g->getBlockSize(), g->getHopSize()); mc::Hash h("d"); h.i(c.dec).i(ov);
    for (int d = 0; d < (ov == 1 ? mc::tiered(3, 4) : 1); ++d) { int op = mc::choose(6, "frame"); h.i(op); feed(*g, m, block(m, op, d)); mc::state(h); }
}
MC_SCENARIO(triads, "all 12 major and 12 minor tonic triads in 2 tunings, rates 44100/8 and 8000/1: tonic-dominant progressions detect their key", 2, 24) {
    int key = mc::choose(24, "key"); bool hi = mc::choose(2, "rate"); static const float TU[] = {440, 415.3f}; Cf c = {hi ? 44100.0 : 8000.0, hi ? 8 : 2, mc::pick(TU, "tune")}; std::unique_ptr<GetKeyMode> g(make(c, 10, 10, 1)); int n = g->getBlockSize(); int root = 48 + key % 12; bool minor = key >= 12; int got = 0;
    static const int DEG[] = {0, 7, 5, 0}; for (int d = 0; d < 4; ++d) { V x(n, 0.0); int r = root + DEG[d], third = DEG[d] == 7 ? 4 : minor ? 3 : 4; int notes[] = {r, r + third, r + 7}; for (int p : notes) { double f = c.tune * std::pow(2.0, (p - 69) / 12.0) / c.rate; for (int i = 0; i < n; ++i) x[i] += 0.3 * std::sin(2 * M_PI * f * i); } got = g->process(x.data()); mc::step(); }
    mc::require(got == key + 1, "triad-key", "key %d detected for progression in key %d", got, key + 1); mc::state(mc::Hash("t").i(key).i(hi).d(c.tune));
}
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int n = mc::choose(2); mc::leak_check("leak", [&] { std::unique_ptr<GetKeyMode> g(make(CF[0], n, n, 1)); V x(g->getBlockSize(), 1.0); g->process(x.data()); }); mc::state(n); }
MC_SCENARIO(levels, "chroma averages of 1 and 3 frames: every sequence of 3 (thorough 4) frames from {C, F# triads, noise} x levels {1, 2^-25, 2^15}, with and without decimation: key and strengths do not depend on loudness", 2, 32) {
    static const double H[] = {0, 1.5}; double hp = mc::pick(H, "hpcp"); bool dec = mc::choose(2, "decimated"); const Cf &c = CF[dec ? 1 : 0]; std::unique_ptr<GetKeyMode> g(make(c, hp, 1, 1)); Model m(c, hp, 1); mc::Hash h("v"); h.d(hp).i(dec); for (int d = 0; d < mc::tiered(3, 4); ++d) { static const int K[] = {0, 3, 4}; int op = mc::pick(K, "frame"), l = mc::choose(3, "level"); h.i(op).i(l); V x = block(m, op, d); for (double &v : x) v = std::ldexp(v, l == 0 ? 0 : l == 1 ? -25 : 15); feed(*g, m, x); mc::state(h); }
}
MC_SCENARIO(realistic, "44100 Hz decimated by 8, default averaging of 10 s: 5 programmes of 45 (thorough 150) frames (one key throughout, a change of key halfway, alternating keys, noise then a key, near-silent noise in between), every frame's key and strengths", 2, 10) {
    static const Cf R[] = {{44100, 8, 440}, {48000, 8, 443}}; const Cf &c = R[mc::choose(2, "rate")]; int prog = mc::choose(5, "programme"); std::unique_ptr<GetKeyMode> g(make(c, 10, 10, 1)); Model m(c, 10, 10); int n = mc::tiered(45, 150); mc::Hash h("r"); h.d(c.rate).i(prog); mc::require(g->getBlockSize() == m.L * c.dec, "block-size", "block %d", g->getBlockSize());
    // a whole number of cycles per block is not needed: one decimator history, long stream
    std::unique_ptr<Decimator> dd(new Decimator(m.L * c.dec, c.dec)); for (int t = 0; t < n; ++t) { int k = prog == 0 ? 0 : prog == 1 ? (t < n / 2 ? 0 : 3) : prog == 2 ? (t / 5 % 2 ? 1 : 2) : prog == 3 ? (t < 20 ? 4 : 1) : (t % 16 < 8 ? 2 : 4); V x = block(m, k, t % 3), y(m.L); if (prog == 4 && k == 4) for (double &v : x) v = std::ldexp(v, -30); dd->process(x.data(), y.data()); V in(x); int key = g->process(in.data()), want = m.decimated(y); mc::step(); mc::require(!want || key == want, "key", "frame %d: key %d, reference says %d", t, key, want); double *s = g->getKeyStrengths(); for (int i = 0; i < 24; ++i) mc::check_close(s[i], m.strength[i], 1e-7, "strength", "key strength", i); mc::state(h.i(t)); }
}
MC_SCENARIO(long_average, "chroma averages of 130 and 260 frames with key medians of 110 and 5 frames, no decimation: 3 programmes of 320 frames (change of key halfway, slow alternation, noise then two keys)", 2, 6) {
    bool wide = mc::choose(2, "wide"); int prog = mc::choose(3, "programme"); double hp = (wide ? 260 : 130) * 0.512 - 0.01, md = (wide ? 5 : 110) * 0.512 - 0.01; std::unique_ptr<GetKeyMode> g(make(CF[0], hp, md, 1)); Model m(CF[0], hp, md); mc::Hash h("L"); h.i(wide).i(prog);
    for (int t = 0; t < 320; ++t) { int op = prog == 0 ? (t < 170 ? 0 : 3) : prog == 1 ? (t / 90 % 2 ? 1 : 2) : t < 60 ? 4 : t < 200 ? 1 : 3; feed(*g, m, block(m, op, 0)); } mc::state(h);
}
MC_SCENARIO(overlaps, "frame overlap factors 2, 3, 4, 8, 16, without decimation and decimated by 2 (4 frames only): every word of 4 frames over 3 chords with averages of 3 and medians of 4 frames, and 2 programmes of 40 frames with averages of 12 and medians of 15", 2, 20) {
    static const int O[] = {4, 2, 3, 8, 16}; int ov = mc::pick(O, "overlap"), prog = mc::choose(4, "programme"); mc::Hash h("o"); h.i(ov).i(prog); const Cf &c = CF[prog == 3 ? 1 : 0]; double hp = (prog == 0 || prog == 3 ? 3 : 12) * 0.512 - 0.01, md = (prog == 0 || prog == 3 ? 4 : 15) * 0.512 - 0.01; std::unique_ptr<GetKeyMode> g(make(c, hp, md, ov)); Model m(c, hp, md); if (prog == 0 || prog == 3) { for (int d = 0; d < (prog == 3 ? 3 : 4); ++d) { static const int K[] = {0, 3, 2}; int op = prog == 3 && d == 2 ? 1 : mc::pick(K, "frame"); h.i(op); feed(*g, m, block(m, op, d)); mc::state(h); } return; }
    for (int t = 0; t < 40; ++t) { int op = prog == 1 ? (t < 18 ? 0 : 3) : t / 7 % 2 ? 1 : 2; feed(*g, m, block(m, op, 0)); mc::state(h.i(t)); }
}
NEIGHBOURS("8 detectors that differ in one setting") {
    struct P { double fs; float tune; double h, m; int over, dec; }; static const P p[] = {{2205, 440, 2, 3, 1, 1}, {2205, 415, 2, 3, 1, 1}, {2205, 440, 1, 3, 1, 1}, {2205, 440, 2, 1, 1, 1}, {2205, 440, 2, 3, 2, 1}, {4410, 440, 2, 3, 1, 2}, {4410, 440, 2, 3, 1, 1}, {2400, 440, 2, 3, 1, 1}};
    for (auto &q : p) v.add("key detector " + std::to_string(&q - p), [q] { GetKeyMode::Config c(q.fs, q.tune); c.hpcpAverage = q.h; c.medianAverage = q.m; c.frameOverlapFactor = q.over; c.decimationFactor = q.dec; GetKeyMode g(c); nb::V o; for (int k = 0; k < 4; ++k) { nb::V x = nb::sig(g.getBlockSize(), k); o.push_back(g.process(x.data())); double *s = g.getKeyStrengths(); o.insert(o.end(), s, s + 24); } return o; });
}
