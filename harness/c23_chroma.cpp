// C23: Chromagram: octave-folded constant-Q magnitudes of the Hamming-windowed frame, normalised as configured.
#include "refchroma.h"
#include "dsp/chromagram/Chromagram.h"
#include "neighbours.h"
using namespace refcq;
struct Cf { double fs, min, max; int bpo; double thr; }; static const Cf CF[] = {{1000, 55.7, 220, 12, 0.0054}, {1000, 60, 200, 5, 0.0054}, {8000, 261.6, 3000, 12, 0.01}, {500, 50, 90, 3, 0}, {1000, 110, 440, 1, 0.0054}, {2000, 65.4, 523.2, 7, 0.002}};
static ChromaConfig conf(const Cf &c, int norm) { ChromaConfig k; k.FS = c.fs; k.min = c.min; k.max = c.max; k.BPO = c.bpo; k.CQThresh = c.thr; k.normalise = norm == 0 ? MathUtilities::NormaliseNone : norm == 1 ? MathUtilities::NormaliseUnitSum : MathUtilities::NormaliseUnitMax; return k; }
static void cmp(const double *got, const V &want) { for (size_t i = 0; i < want.size(); ++i) mc::check_close(got[i], want[i], 1e-8, "chroma", "chroma bin", (long)i); }
static void time(Chromagram &c, const Chroma &r, const V &x) { V in(x); double *o = c.process(in.data()); mc::step(); if (in != x) mc::fail("input-modified", "frame changed"); cmp(o, r.fromFrame(x)); }
static void freq(Chromagram &c, const Chroma &r, const VC &X) { V a, b; for (auto &z : X) { a.push_back(z.real()); b.push_back(z.imag()); } V a0(a), b0(b); double *o = c.process(a.data(), b.data()); mc::step(); if (a != a0 || b != b0) mc::fail("input-modified", "spectrum changed"); cmp(o, r.fromSpectrum(X)); }
MC_SCENARIO(histories, "6 configurations x 3 normalisations: every sequence of 4 (thorough 5) calls from {dense frame, silent frame, tone frame, dense spectrum, impulse frame}", 3, 48) {
    const Cf &c = CF[mc::choose(6, "cfg")]; int norm = mc::choose(3, "norm"); Chromagram g(conf(c, norm)); Chroma r(c.fs, c.min, c.max, c.bpo, c.thr, norm); int L = r.k->L; mc::require(g.getFrameSize() == L && g.getHopSize() == L / 8, "frame-size", "frame %d hop %d, expected %d %d", g.getFrameSize(), g.getHopSize(), L, L / 8); mc::require(g.getK() / c.bpo == r.k->K / c.bpo, "octaves", "K %d", g.getK());
    mc::Hash h("h"); h.d(c.min).i(norm);
    for (int d = 0; d < mc::tiered(4, 5); ++d) { int op = mc::choose(5, "op"); h.i(op); if (op == 3) { VC X(L); for (int i = 0; i < L; ++i) X[i] = C(mc::wave(i, d), mc::wave(i, d + 50)); freq(g, r, X); } else { V x(L, 0.0); if (op == 4) x[(L / 2 + 7 * d) % L] = 2; else if (op != 1) for (int i = 0; i < L; ++i) x[i] = op == 0 ? mc::wave(i, d) : std::sin(2 * M_PI * c.min * 1.2 * i / c.fs + d); time(g, r, x); } mc::state(h); }
}
MC_SCENARIO(basis, "6 configurations x 3 normalisations: every unit spectrum, real and imaginary; every unit impulse frame", 2, 36) {
    const Cf &c = CF[mc::choose(6, "cfg")]; int norm = mc::choose(3, "norm"); Chromagram g(conf(c, norm)); Chroma r(c.fs, c.min, c.max, c.bpo, c.thr, norm); int L = r.k->L; bool t = mc::choose(2, "time");
    for (int i = 0; i < L; ++i) { if (t) { V x(L, 0.0); x[i] = 1; V in(x); double *o = g.process(in.data()); mc::step(); V w = r.fromFrame(x); cmp(o, w); } else { VC X(L); X[i] = 1; Chroma raw(c.fs, c.min, c.max, c.bpo, c.thr, 0); double m = 0; for (double v : raw.fromSpectrum(X)) m = std::max(m, v); if (norm && m < 1e-12 && m > 0) continue; freq(g, r, X); X[i] = C(0, -2); freq(g, r, X); } } mc::state(mc::Hash("b").d(c.min).i(norm).i(t));
}
MC_SCENARIO(tones, "every semitone of four octaves, 12/36 bins per octave, 3 normalisations, 2 phases: the pitch class of the tone is the strongest chroma bin, and unit normalisations hold", 2, 24) {
    int bpo = mc::choose(2, "bpo") ? 36 : 12, norm = mc::choose(3, "norm"), p = mc::choose(48, "pitch"), ph = mc::choose(2, "phase"); Cf c = {8000, 65.406391325149661, 65.406391325149661 * 16, bpo, 0.0054}; Chromagram g(conf(c, norm)); int L = g.getFrameSize(); V x(L); double f = c.min * std::pow(2.0, p / 12.0); for (int i = 0; i < L; ++i) x[i] = std::sin(2 * M_PI * f * i / c.fs + ph); double *o = g.process(x.data()); mc::step(); double s = 0, m = 0; int best = 0; for (int i = 0; i < bpo; ++i) { s += o[i]; m = std::max(m, o[i]); if (o[i] > o[best]) best = i; }
    mc::require(best == (p % 12) * (bpo / 12), "pitch-class", "%g Hz: strongest chroma bin %d, expected %d", f, best, (p % 12) * (bpo / 12)); if (norm == 1) mc::check_close(s, 1, 1e-9, "unit-sum", "sum"); if (norm == 2) mc::check_close(m, 1, 1e-9, "unit-max", "max"); mc::state(mc::Hash("t").i(bpo).i(p).i(ph).i(norm));
}
MC_SCENARIO(unity, "unityNormalise over every positive word {1,2,5}^k for 3 configurations: maximum 1, ratios kept; kabs on a 9x9 grid", 1, 6) {
    static const int I[] = {3, 4, 1}; const Cf &c = CF[mc::pick(I, "cfg")]; Chromagram g(conf(c, 0)); V x; static const double al[] = {1, 2, 5}; double m = 0; for (int i = 0; i < c.bpo; ++i) { x.push_back(mc::pick(al, "x")); m = std::max(m, x.back()); } V w(x); for (double &d : w) d /= m; g.unityNormalise(x.data()); mc::step(); mc::check_vec(x, w, 1e-12, "unity", "value"); for (int a = -4; a <= 4; ++a) for (int b = -4; b <= 4; ++b) mc::check_close(g.kabs(a, b), std::hypot(a, b), 1e-12, "kabs", "modulus"); mc::state(mc::Hash("u").vec(w));
}
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int n = mc::choose(3); mc::leak_check("leak", [&] { Chromagram g(conf(CF[3], n)); V x(g.getFrameSize(), 1.0); for (int i = 0; i < n; ++i) g.process(x.data()); }); mc::state(n); }
MC_SCENARIO(realistic, "8 configurations as used on music (44100 Hz with 12, 24 and 36 bins per octave over 1..9 octaves, 5512.5 with 36, 96000 Hz, ranges that are not whole octaves) x 3 normalisations: dense, tonal and quiet frames and a dense spectrum, in sequence", 1, 8) {
    static const Cf R[] = {{44100, 65.4064, 1046.5, 12, 0.0054}, {5512.5, 130.8128, 2093, 36, 0.0054}, {44100, 220, 3000, 24, 0.0054}, {44100, 440, 900, 36, 0.0054}, {16000, 55, 1500, 12, 0.0054}, {44100, 55, 14080, 12, 0.0054}, {44100, 40, 20000, 6, 0.0054}, {96000, 110, 24000, 12, 0.01}}; const Cf &c = R[mc::choose(8, "cfg")]; int norm = mc::choose(3, "norm"); Chromagram g(conf(c, norm)); Chroma r(c.fs, c.min, c.max, c.bpo, c.thr, norm); int L = r.k->L; mc::require(g.getFrameSize() == L && g.getHopSize() == L / 8 && g.getK() == r.k->K, "frame-size", "frame %d hop %d bins %d, expected %d %d %d", g.getFrameSize(), g.getHopSize(), g.getK(), L, L / 8, r.k->K); mc::Hash h("r"); h.d(c.min).i(c.bpo).i(norm);
    for (int d = 0; d < 4; ++d) { if (d == 3) { VC X(L); for (int i = 0; i < L; ++i) X[i] = C(mc::wave(i, d), mc::wave(i, d + 50)); freq(g, r, X); } else { V x(L); for (int i = 0; i < L; ++i) x[i] = d == 1 ? 0.4 * std::sin(2 * M_PI * c.min * 1.5 * i / c.fs) + 0.3 * std::sin(2 * M_PI * c.min * 2.52 * i / c.fs) : (d == 2 ? 1e-5 : 1) * mc::wave(i, d); time(g, r, x); } mc::state(h.i(d)); }
}
MC_SCENARIO(scales, "6 configurations x 3 normalisations x 12 amplitudes 2^-100..2^100, time and frequency input: unnormalised chroma scales with the input, normalised chroma is independent of its level", 2, 36) {
    const Cf &c = CF[mc::choose(6, "cfg")]; int norm = mc::choose(3, "norm"); static const int E[] = {-100, -60, -45, -30, -20, -10, 10, 20, 30, 45, 60, 100}; int e = mc::pick(E, "scale"); Chromagram g(conf(c, norm)), q(conf(c, norm)); int L = g.getFrameSize(); for (int f = 0; f < 2; ++f) { V a(L), b(L); for (int i = 0; i < L; ++i) { a[i] = mc::wave(i, 4 + f); b[i] = mc::wave(i, 7); } double *o = f ? g.process(a.data(), b.data()) : g.process(a.data()); V w(o, o + c.bpo); for (double &v : a) v = std::ldexp(v, e); for (double &v : b) v = std::ldexp(v, e); double *p = f ? q.process(a.data(), b.data()) : q.process(a.data()); mc::step(2); for (int i = 0; i < c.bpo; ++i) mc::check_close(norm ? p[i] : std::ldexp(p[i], -e), w[i], 1e-10, "scaling", "chroma bin", i); } mc::state(mc::Hash("s").d(c.min).i(norm).i(e));
}
MC_SCENARIO(many_bins, "60, 96, 120, 127..129, 200, 255..257, 300 bins per octave over one (to 129 also two) octaves x 3 normalisations: dense, tonal and single-line frames and a dense spectrum, in sequence", 2, 22) {
    static const int B[] = {128, 60, 96, 120, 127, 129, 200, 255, 256, 257, 300}; int bpo = mc::pick(B, "bpo"), oct = 1 + mc::choose(bpo < 200 ? 2 : 1, "octaves"), norm = mc::choose(3, "norm"); Cf c = {8000, oct == 1 ? 1900.0 : 950, 3800, bpo, 0.0054}; Chromagram g(conf(c, norm)); Chroma r(c.fs, c.min, c.max, c.bpo, c.thr, norm); int L = r.k->L; mc::require(g.getFrameSize() == L && g.getHopSize() == L / 8 && g.getK() == r.k->K, "frame-size", "frame %d hop %d bins %d, expected %d %d %d", g.getFrameSize(), g.getHopSize(), g.getK(), L, L / 8, r.k->K);
    for (int d = 0; d < 4; ++d) { if (d == 3) { VC X(L); for (int i = 0; i < L; ++i) X[i] = C(mc::wave(i, d), mc::wave(i, d + 50)); freq(g, r, X); } else { V x(L); for (int i = 0; i < L; ++i) x[i] = d == 1 ? 0.4 * std::sin(2 * M_PI * c.min * 1.5 * i / c.fs) + 0.3 * std::sin(2 * M_PI * c.min * 1.02 * i / c.fs) : d == 2 ? i == L / 3 : mc::wave(i, d); time(g, r, x); } } mc::state(mc::Hash("mb").i(bpo).i(oct).i(norm));
}
NEIGHBOURS("9 chromagrams that differ in rate, one frequency limit, bins per octave, threshold or normalisation") {
    struct P { double fs, lo, hi; int bpo; double thr; MathUtilities::NormaliseType nt; }; static const P p[] = {{8000, 500, 2000, 6, 0.0054, MathUtilities::NormaliseNone}, {8000, 500, 2000, 6, 0.1, MathUtilities::NormaliseNone}, {8000, 500, 2000, 5, 0.0054, MathUtilities::NormaliseNone}, {8000, 500, 3900, 6, 0.0054, MathUtilities::NormaliseNone}, {8000, 520, 2000, 6, 0.0054, MathUtilities::NormaliseNone}, {8100, 500, 2000, 6, 0.0054, MathUtilities::NormaliseNone}, {8000, 500, 2000, 6, 0.0054, MathUtilities::NormaliseUnitMax}, {8000, 500, 2000, 6, 0.0054, MathUtilities::NormaliseUnitSum}, {16000, 1000, 4000, 6, 0.0054, MathUtilities::NormaliseNone}};
    for (auto &q : p) v.add("chromagram " + std::to_string(&q - p), [q] { ChromaConfig c; c.FS = q.fs; c.min = q.lo; c.max = q.hi; c.BPO = q.bpo; c.CQThresh = q.thr; c.normalise = q.nt; Chromagram t(c); nb::V o; for (int k = 0; k < 2; ++k) { nb::V x = nb::sig(t.getFrameSize(), k); double *r = t.process(x.data()); o.insert(o.end(), r, r + q.bpo); } return o; });
}
