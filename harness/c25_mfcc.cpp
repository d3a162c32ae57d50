// C25: MFCC: window, magnitude spectrum, 40-band triangular mel-style filterbank, log, cosine transform.
#include "refcq.h"
#include "dsp/mfcc/MFCC.h"
#include <memory>
#include "neighbours.h"
using namespace refcq;
struct Cf { int fs, n, nceps; double pw; bool c0; WindowType win; };
struct Model {
    Cf c; std::vector<V> W; // filter weights per bin
    explicit Model(const Cf &cc) : c(cc) {
        double f[43]; for (int i = 0; i < 13; ++i) f[i] = 66.6666666 + i * 66.66666666; for (int i = 13; i < 42; ++i) f[i] = f[12] * std::pow(1.0711703, i - 12);
        for (int k = 0; k < 40; ++k) { V w(c.n / 2, 0.0); double lo = f[k], ce = f[k + 1], up = f[k + 2], h = 2 / (up - lo); for (int j = 0; j < c.n / 2; ++j) { double q = (double)j / c.n * c.fs; if (q > lo && q <= ce) w[j] = h * (q - lo) / (ce - lo); else if (q > ce && q < up) w[j] = h * (up - q) / (up - ce); } W.push_back(w); }
    }
    V ceps(const VC &X) const {
        V e; for (auto &w : W) { double t = 0; for (int j = 0; j < c.n / 2; ++j) t += w[j] * std::abs(X[j]); double l = t > 0 ? std::log10(t) : 0; e.push_back(c.pw == 1 ? l : std::pow(l, c.pw)); }
        V y; for (int i = c.c0 ? 0 : 1; i <= c.nceps; ++i) { double s = 0; for (int j = 0; j < 40; ++j) s += e[j] * std::cos(i * (j + 0.5) * M_PI / 40); y.push_back(s / std::sqrt(20.0) * (i == 0 ? std::sqrt(0.5) : 1)); } return y; }
    V win() const { V w; for (int i = 0; i < c.n; ++i) { double t = 2 * M_PI * i / c.n; switch (c.win) { case RectangularWindow: w.push_back(0.5); break; case HammingWindow: w.push_back(0.54 - 0.46 * std::cos(t)); break; case BartlettWindow: { int h = c.n / 2; w.push_back(i < h ? (double)i / h : 1 - (double)(i - h) / h); break; } case BlackmanWindow: w.push_back(0.42 - 0.5 * std::cos(t) + 0.08 * std::cos(2 * t)); break; case BlackmanHarrisWindow: w.push_back(0.35875 - 0.48829 * std::cos(t) + 0.14128 * std::cos(2 * t) - 0.01168 * std::cos(3 * t)); break; default: w.push_back(0.5 - 0.5 * std::cos(t)); } } return w; }
};
static MFCCConfig conf(const Cf &c) { MFCCConfig k(c.fs); k.fftsize = c.n; k.nceps = c.nceps; k.logpower = c.pw; k.want_c0 = c.c0; k.window = c.win; return k; }
static void cmp(const Model &m, const V &out, int r, const V &want) { mc::require(r == m.c.nceps, "return", "process returned %d, expected nceps %d", r, m.c.nceps); for (size_t i = 0; i < want.size(); ++i) mc::check_close(out[i], want[i], 1e-6, "cepstrum", "coefficient", (long)i); mc::require(out[want.size()] == 77, "overrun", "wrote beyond the coefficients"); }
static void time(MFCC &f, const Model &m, const V &x) { V in(x), out(m.c.nceps + 2, 77.0); int r = f.process(in.data(), out.data()); mc::step(); if (in != x) mc::fail("input-modified", "frame changed"); VC w(x.size()); V wn = m.win(); for (size_t i = 0; i < x.size(); ++i) w[i] = x[i] * wn[i]; cmp(m, out, r, m.ceps(dft(w))); }
static void freq(MFCC &f, const Model &m, const VC &X) { V a, b, out(m.c.nceps + 2, 77.0); for (auto &z : X) { a.push_back(z.real()); b.push_back(z.imag()); } V a0(a), b0(b); int r = f.process(a.data(), b.data(), out.data()); mc::step(); if (a != a0 || b != b0) mc::fail("input-modified", "spectrum changed"); cmp(m, out, r, m.ceps(X)); }
static const int FS[] = {16000, 8000, 44100, 48000}, NN[] = {256, 64, 512, 2, 100, 1024}, NC[] = {13, 1, 19, 39, 40, 0};
MC_SCENARIO(histories, "3 rates x 3 sizes x 4 coefficient counts x with/without C0 x 3 windows: every sequence of 3 (thorough 4) calls from {dense frame, silent frame, loud dense frame, dense spectrum}", 3, 48) {
    Cf c; c.fs = FS[mc::choose(3, "fs")]; c.n = NN[mc::choose(3, "n")]; static const int N4[] = {13, 1, 19, 40}; c.nceps = mc::pick(N4, "nceps"); c.c0 = mc::choose(2, "c0"); c.pw = 1; static const WindowType W[] = {HammingWindow, RectangularWindow, HanningWindow}; c.win = mc::pick(W, "win"); MFCC f(conf(c)); Model m(c); mc::require(f.getfftlength() == c.n, "fft-length", "getfftlength() %d", f.getfftlength()); mc::Hash h("h"); h.i(c.fs).i(c.n).i(c.nceps).i(c.c0).i(c.win);
    for (int d = 0; d < mc::tiered(3, 4); ++d) { int op = mc::choose(4, "op"); h.i(op); if (op == 3) { VC X(c.n / 2 + 1); for (int i = 0; i <= c.n / 2; ++i) X[i] = C(mc::wave(i, d), mc::wave(i, d + 30)); freq(f, m, X); } else { V x(c.n, 0.0); if (op != 1) for (int i = 0; i < c.n; ++i) x[i] = (op == 2 ? 1000 : 1) * mc::wave(i, d); time(f, m, x); } mc::state(h); }
}
MC_SCENARIO(basis, "4 rates x 6 sizes x log power 1,2,3: every single spectral bin at 3 amplitudes, with/without C0 (band energies are linear in the magnitudes)", 2, 48) {
    Cf c; c.fs = mc::pick(FS, "fs"); c.n = mc::pick(NN, "n"); c.pw = 1 + mc::choose(3, "pow"); c.nceps = 19; c.c0 = mc::choose(2, "c0"); c.win = HammingWindow; MFCC f(conf(c)); Model m(c); static const double A[] = {1, 0.001, 50}; double a = mc::pick(A, "amp"); for (int j = 0; j <= c.n / 2; ++j) { VC X(c.n / 2 + 1); X[j] = std::polar(a, 0.7 * j); freq(f, m, X); } mc::state(mc::Hash("b").i(c.fs).i(c.n).d(c.pw).i(c.c0).d(a));
}
MC_SCENARIO(counts, "every coefficient count 0..45, with/without C0, 2 rates", 1, 8) { Cf c = {16000, 128, mc::choose(46, "nceps"), 1, mc::choose(2, "c0") != 0, HammingWindow}; if (mc::choose(2, "fs")) c.fs = 22050; MFCC f(conf(c)); Model m(c); V x(128); for (int i = 0; i < 128; ++i) x[i] = mc::wave(i, 5); time(f, m, x); mc::state(mc::Hash("c").i(c.nceps).i(c.c0).i(c.fs)); }
MC_SCENARIO(words, "every spectrum over {0,1,2} on 8 bins of a 16-point transform, rate 4000, two frames", 2, 16) { Cf c = {4000, 16, 13, 1, true, HammingWindow}; MFCC f(conf(c)); Model m(c); VC X(9); static const double al[] = {0, 1, 2}; mc::Hash h("w"); for (int i = 0; i < 8; ++i) { X[i] = mc::pick(al, "x"); h.d(X[i].real()); } freq(f, m, X); X[3] += 1; freq(f, m, X); mc::state(h); }
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int n = mc::choose(3); mc::leak_check("leak", [&] { Cf c = {8000, 32, 3 * n, 1, n == 1, HammingWindow}; MFCC f(conf(c)); V x(32, 1.0), o(9); f.process(x.data(), o.data()); }); mc::state(n); }
MC_SCENARIO(realistic, "rates 44100, 48000, 96000, 22050 x sizes 1024, 2048, 4096 (thorough 16384, and 8192 to 32768 in very_large) x 20 coefficients and C0: dense frames at 9 amplitudes 1e-12..1e12 and silence in alternation, one object", 2, 24) {
    static const int F[] = {44100, 48000, 96000, 22050}, N[] = {1024, 2048, 4096, 16384}; Cf c; c.fs = mc::pick(F, "fs"); c.n = N[mc::choose(mc::tiered(3, 4), "n")]; c.nceps = 20; c.pw = 1 + mc::choose(2, "pow"); c.c0 = mc::choose(2, "c0"); static const WindowType W[] = {HammingWindow, HanningWindow}; c.win = mc::pick(W, "win"); MFCC f(conf(c)); Model m(c); static const double A[] = {1, 1e-12, 1e12, 1e-3, 0, 32768, 1e-6, 1e6, 1e-9, 0, 1e9}; mc::Hash h("r"); h.i(c.fs).i(c.n).d(c.pw).i(c.c0).i(c.win); int d = 0; for (double a : A) { V x(c.n); for (int i = 0; i < c.n; ++i) x[i] = a * mc::wave(i, d); ++d; time(f, m, x); mc::state(h.i(d)); }
}
MC_SCENARIO(scales, "every spectral line of a 64-point transform at 3 rates x 10 amplitudes 1e-150..1e140, with a second line 1e6 times stronger or none: band energies are linear at any level", 2, 30) {
    static const int F[] = {16000, 8000, 44100}; Cf c = {mc::pick(F, "fs"), 64, 19, 1, true, HammingWindow}; static const double A[] = {1e-150, 1e-60, 1e-30, 1e-15, 1e-8, 1e5, 1e10, 1e30, 1e60, 1e140}; double a = mc::pick(A, "amp"); MFCC f(conf(c)); Model m(c); for (int two = 0; two < 2; ++two) for (int j = 0; j <= 32; ++j) { VC X(33); X[j] = std::polar(a, 0.3 * j); if (two) X[(j + 5) % 33] += a * 1e6; freq(f, m, X); } mc::state(mc::Hash("s").i(c.fs).d(a));
}
MC_SCENARIO(very_large, "rates 44100, 96000, 192000, 384000, 8000, 11025, 6000 x sizes 8192, 16384, 32768, 131072 x 13, 30, 40 coefficients: 3 dense frames, one of them a spectrum", 2, 21) {
    static const int F[] = {44100, 96000, 192000, 384000, 8000, 11025, 6000}, N[] = {8192, 16384, 32768, 131072}, K[] = {13, 30, 40}; Cf c; c.fs = mc::pick(F, "fs"); c.n = mc::pick(N, "n"); c.nceps = mc::pick(K, "nceps"); c.pw = 1; c.c0 = c.nceps != 30; c.win = HammingWindow; MFCC f(conf(c)); Model m(c); for (int d = 0; d < 2; ++d) { V x(c.n); for (int i = 0; i < c.n; ++i) x[i] = mc::wave(i, d); time(f, m, x); } VC X(c.n / 2 + 1); for (int i = 0; i <= c.n / 2; ++i) X[i] = C(mc::wave(i, 5), mc::wave(i, 30)); freq(f, m, X); mc::state(mc::Hash("v").i(c.fs).i(c.n).i(c.nceps));
}
MC_SCENARIO(windows, "all six window types x sizes 64, 512, 2048 x 2 rates x with/without C0 x log power 1, 2: 3 dense frames at 2 amplitudes", 2, 36) {
    static const int F[] = {16000, 44100}, N[] = {512, 64, 2048}; static const WindowType W[] = {RectangularWindow, BartlettWindow, HammingWindow, HanningWindow, BlackmanWindow, BlackmanHarrisWindow}; Cf c; c.win = mc::pick(W, "window"); c.n = mc::pick(N, "n"); c.fs = mc::pick(F, "fs"); c.nceps = 19; c.c0 = mc::choose(2, "c0") != 0; c.pw = 1 + mc::choose(2, "pow"); MFCC f(conf(c)); Model m(c); for (int d = 0; d < 3; ++d) { V x(c.n); for (int i = 0; i < c.n; ++i) x[i] = (d == 1 ? 1000 : 1) * (mc::wave(i, d) + 0.5); time(f, m, x); } mc::state(mc::Hash("W").i(c.win).i(c.n).i(c.fs).i(c.c0).d(c.pw));
}
MC_SCENARIO(powers, "log powers 0.25, 0.5, 1.5, 1.9, 2.5, 4, 6 x 3 rates x 3 sizes x with/without C0: 3 dense frames and a spectrum with every band energy above one, and silence", 2, 21) {
    static const double P[] = {1.9, 0.5, 2.5, 0.25, 1.5, 4, 6}; static const int F[] = {16000, 44100, 8000}, N[] = {512, 256, 1024}; Cf c; c.pw = mc::pick(P, "power"); c.fs = mc::pick(F, "fs"); c.n = mc::pick(N, "n"); c.c0 = mc::choose(2, "c0") != 0; c.nceps = 19; c.win = HammingWindow; MFCC f(conf(c)); Model m(c); for (int d = 0; d < 4; ++d) { V x(c.n, 0.0); if (d != 2) for (int i = 0; i < c.n; ++i) x[i] = 1e9 * (mc::wave(i, d) + 0.4 * ((i * 31 + d) % 7)); x[0] += d == 2 ? 0 : 1e12; time(f, m, x); } VC X(c.n / 2 + 1); for (int i = 0; i <= c.n / 2; ++i) X[i] = C(1e6 * (1.5 + mc::wave(i, 5)), 1e6 * mc::wave(i, 30)); freq(f, m, X); mc::state(mc::Hash("P").d(c.pw).i(c.fs).i(c.n).i(c.c0));
}
NEIGHBOURS("9 configurations that differ in one setting") {
    struct P { int fs, n, c; double lp; bool c0; WindowType w; }; static const P p[] = {{22050, 512, 13, 1, true, HammingWindow}, {16000, 512, 13, 1, true, HammingWindow}, {22050, 1024, 13, 1, true, HammingWindow}, {22050, 512, 19, 1, true, HammingWindow}, {22050, 512, 13, 2, true, HammingWindow}, {22050, 512, 13, 1, false, HammingWindow}, {22050, 512, 13, 1, true, HanningWindow}, {44100, 512, 13, 1, true, HammingWindow}, {44100, 1024, 13, 1, true, HammingWindow}};
    for (auto &q : p) v.add("MFCC " + std::to_string(&q - p), [q] { MFCCConfig c(q.fs); c.fftsize = q.n; c.nceps = q.c; c.logpower = q.lp; c.want_c0 = q.c0; c.window = q.w; MFCC m(c); nb::V x = nb::sig(q.n), o(q.c + q.c0); m.process(x.data(), o.data()); return o; });
}
