// C22: ConstantQ: the spectral-kernel transform, for every configuration, input and call history; both entry points agree.
#include "refcq.h"
#include "dsp/chromagram/ConstantQ.h"
#include <iostream>
#include "neighbours.h"
using namespace refcq;
static const Spec SP[] = {{1000, 100, 790, 12, 0.0054}, {1000, 97, 410, 5, 0.0}, {8000, 440, 3520, 12, 0.0054}, {2000, 110, 900, 3, 0.05}, {1000, 55.3, 440, 7, 0.001}, {500, 50, 200, 1, 0.0054}, {44100, 3000, 12345, 24, 0.01}, {1000, 61, 63, 2, 0.0}, {1000, 100, 790, 12, 10.0}};
static CQConfig conf(const Spec &s) { CQConfig c; c.FS = s.fs; c.min = s.min; c.max = s.max; c.BPO = s.bpo; c.CQThresh = s.thr; return c; }
static int checkShape(ConstantQ &q, const Spec &s) {
    double x = s.bpo * std::log2(s.max / s.min); int lo = (int)std::ceil(x - 1e-9), hi = (int)std::ceil(x + 1e-9); mc::require(q.getK() == lo || q.getK() == hi, "bins", "getK()=%d, expected %d", q.getK(), lo);
    mc::require(q.getFFTLength() == fftLength(s), "fft-length", "getFFTLength()=%d, expected %d", q.getFFTLength(), fftLength(s)); mc::require(q.getHop() == fftLength(s) / 8, "hop", "getHop()=%d", q.getHop()); mc::check_close(q.getQ(), Q(s), 1e-9, "q", "Q"); return q.getK();
}
static void run(ConstantQ &q, const Kernel &k, const VC &X, int how) {
    V slack; VC w = apply(k, X, &slack); V re(k.K + 1, 77.0), im(k.K + 1, 77.0); mc::step();
    if (how == 0) { V xr, xi; for (auto &c : X) { xr.push_back(c.real()); xi.push_back(c.imag()); } V r0(xr), i0(xi); q.process(xr.data(), xi.data(), re.data(), im.data()); if (r0 != xr || i0 != xi) mc::fail("input-modified", "spectrum changed"); if (re[k.K] != 77 || im[k.K] != 77) mc::fail("overrun", "wrote beyond getK() values"); }
    else { V x; for (auto &c : X) { x.push_back(c.real()); x.push_back(c.imag()); } V x0(x); double *o = q.process(x.data()); if (x0 != x) mc::fail("input-modified", "spectrum changed"); for (int j = 0; j < k.K; ++j) { re[j] = o[2 * j]; im[j] = o[2 * j + 1]; } }
    for (int j = 0; j < k.K; ++j) { double e = std::abs(C(re[j], im[j]) - w[j]); mc::require(e <= 1e-9 * (1 + std::abs(w[j])) + slack[j] * 1.001, how ? "interleaved" : "split", "bin %d: got %.12g%+.12gi, kernel definition gives %.12g%+.12gi", j, re[j], im[j], w[j].real(), w[j].imag()); }
}
MC_SCENARIO(basis, "9 configurations (1..24 bins per octave, thresholds 0..10, 1 to 48 bins): every unit spectrum, real and imaginary, both entry points (the transform is linear, so the basis decides it)", 1, 9) {
    int ci = mc::choose(9, "cfg"); Spec s = SP[ci]; ConstantQ q(conf(s)); int K = checkShape(q, s); q.sparsekernel(); const Kernel &k = kernel(s, K);
    for (int c = 0; c < k.L; ++c) for (int im = 0; im < 2; ++im) for (int how = 0; how < 2; ++how) { VC X(k.L); X[c] = im ? C(0, 1) : C(1, 0); run(q, k, X, how); } mc::state(mc::Hash("b").i(ci));
}
MC_SCENARIO(shapes, "bin count, FFT length, hop and Q for every bins-per-octave 1..60 x 8 frequency ranges x 5 sample rates", 1, 6) {
    int bpo = 1 + mc::choose(60, "bpo"); static const double R[] = {1.9, 2, 4, 8, 3, 1.01, 7.5, 32}, F[] = {8000, 11025, 44100, 48000, 96000}; Spec s = {mc::pick(F, "fs"), 65.4063913251, 0, bpo, 0.0054}; s.max = s.min * mc::pick(R, "range"); ConstantQ q(conf(s)); mc::step(); checkShape(q, s); mc::state(mc::Hash("s").i(bpo).d(s.fs).d(s.max));
}
MC_SCENARIO(histories, "3 configurations: every sequence of 5 (thorough 6) calls from {split, interleaved, silent, kernel rebuilt, second object}: no dependence on the past", 1, 16) {
    Spec s = SP[mc::choose(3, "cfg")]; ConstantQ q(conf(s)), other(conf(SP[3])); q.sparsekernel(); other.sparsekernel(); const Kernel &k = kernel(s, q.getK()), &ko = kernel(SP[3], other.getK()); mc::Hash h("h"); h.d(s.fs).i(s.bpo);
    for (int d = 0; d < mc::tiered(5, 6); ++d) { int op = mc::choose(5, "op"); h.i(op); VC X(k.L); if (op != 2) for (int i = 0; i < k.L; ++i) X[i] = C(mc::wave(i, d), mc::wave(i, d + 50)); if (op == 3) { q.sparsekernel(); mc::step(); } else if (op == 4) { VC Y(ko.L); for (int i = 0; i < ko.L; ++i) Y[i] = mc::wave(i, d + 9); run(other, ko, Y, d % 2); } else run(q, k, X, op == 1); mc::state(h); }
}
MC_SCENARIO(tones, "a sinusoid at each bin's frequency peaks in that bin: 4 configurations, all bins, 4 phases", 1, 8) {
    static const int CI[] = {1, 2, 4, 6}; Spec s = SP[mc::pick(CI, "cfg")]; ConstantQ q(conf(s)); int K = q.getK(); q.sparsekernel(); int L = q.getFFTLength(); int b = mc::choose(K, "bin"); int ph = mc::choose(4, "phase");
    double f = s.min * std::pow(2.0, (double)b / s.bpo); V x(L); for (int i = 0; i < L; ++i) x[i] = std::sin(2 * M_PI * f * i / s.fs + ph * M_PI / 2); VC X = frameSpectrum(x); V xr, xi, re(K), im(K); for (auto &c : X) { xr.push_back(c.real()); xi.push_back(c.imag()); } q.process(xr.data(), xi.data(), re.data(), im.data()); mc::step();
    int best = 0; for (int j = 1; j < K; ++j) if (std::hypot(re[j], im[j]) > std::hypot(re[best], im[best])) best = j; mc::require(best == b, "tone-bin", "%g Hz: strongest bin %d, expected %d", f, best, b); mc::state(mc::Hash("t").d(f).i(ph));
}
MC_SCENARIO(leaks, "no heap growth, with the kernel built 0..3 times", 0, 1) { int n = mc::choose(4); mc::leak_check("leak", [&] { ConstantQ q(conf(SP[5])); for (int i = 0; i < n; ++i) q.sparsekernel(); V x(2 * q.getFFTLength()); if (n) q.process(x.data()); }); mc::state(n); }
MC_SCENARIO(realistic, "7 configurations as used on music (44100 Hz / 12, 24 and 36 bins per octave, 48000 / 60, key detection's 5512.5 / 36, 11025 / 12, and a low octave whose windows pass 32768 samples): dense spectra at amplitudes 1e-9, 1, 1e9 and single lines near DC, the middle and Nyquist, both entry points", 1, 7) {
    static const Spec R[] = {{5512.5, 130.8128, 2093.0, 36, 0.0054}, {44100, 65.4064, 2093.0, 12, 0.0054}, {44100, 261.626, 4186.0, 24, 0.0054}, {44100, 130.8128, 523.3, 36, 0.0054}, {48000, 440, 880, 60, 0.001}, {11025, 27.5, 4000, 12, 0.0054}, {44100, 36.7, 73.4, 24, 0.0054}};
    int ci = mc::choose(7, "cfg"); Spec s = R[ci]; ConstantQ q(conf(s)); int K = checkShape(q, s); q.sparsekernel(); const Kernel &k = kernel(s, K); static const double A[] = {1, 1e-9, 1e9}; mc::Hash h("r"); h.i(ci); for (double a : A) for (int how = 0; how < 2; ++how) { VC X(k.L); for (int i = 0; i < k.L; ++i) X[i] = C(mc::wave(i, 3), mc::wave(i, 17)); V slack; VC w = apply(k, X, &slack); V xr, xi, il, re(K), im(K); for (auto &c : X) { xr.push_back(a * c.real()); xi.push_back(a * c.imag()); il.push_back(a * c.real()); il.push_back(a * c.imag()); } if (how == 0) q.process(xr.data(), xi.data(), re.data(), im.data()); else { double *o = q.process(il.data()); for (int j = 0; j < K; ++j) { re[j] = o[2 * j]; im[j] = o[2 * j + 1]; } } mc::step(); for (int j = 0; j < K; ++j) mc::require(std::abs(C(re[j], im[j]) / a - w[j]) <= 1e-8 * (1 + std::abs(w[j])) + slack[j] * 1.001, "realistic", "amplitude %g bin %d: got %.12g%+.12gi, kernel definition gives %.12g%+.12gi", a, j, re[j] / a, im[j] / a, w[j].real(), w[j].imag()); }
    static const double F[] = {0, 1, 2, 0.25, 0.5}; for (double f : F) { int c = f < 3 && f >= 1 ? (int)f : (int)(f * k.L); VC X(k.L); X[c] = C(3, -4); run(q, k, X, 0); if (c) { VC Y(k.L); Y[k.L - c] = C(1, 2); run(q, k, Y, 1); } } mc::state(h);
}
MC_SCENARIO(scales, "9 configurations x 12 amplitudes 2^-300..2^300, both entry points: the output scales with the input", 1, 9) {
    int ci = mc::choose(9, "cfg"); static const int E[] = {-300, -120, -60, -40, -20, -8, 8, 20, 40, 60, 120, 300}; int e = mc::pick(E, "scale"); ConstantQ q(conf(SP[ci])); q.sparsekernel(); int K = q.getK(), L = q.getFFTLength(); V a(L), b(L), il, re(K), im(K), re2(K), im2(K); for (int i = 0; i < L; ++i) { a[i] = mc::wave(i, 2); b[i] = mc::wave(i, 9); } q.process(a.data(), b.data(), re.data(), im.data()); for (int i = 0; i < L; ++i) { a[i] = std::ldexp(a[i], e); b[i] = std::ldexp(b[i], e); il.push_back(a[i]); il.push_back(b[i]); } q.process(a.data(), b.data(), re2.data(), im2.data()); double *o = q.process(il.data()); mc::step(3);
    for (int j = 0; j < K; ++j) { mc::check_close(std::ldexp(re2[j], -e), re[j], 1e-12, "scaling", "real", j); mc::check_close(std::ldexp(im2[j], -e), im[j], 1e-12, "scaling", "imaginary", j); mc::check_close(std::ldexp(o[2 * j], -e), re[j], 1e-12, "scaling", "real", j); mc::check_close(std::ldexp(o[2 * j + 1], -e), im[j], 1e-12, "scaling", "imaginary", j); } mc::state(mc::Hash("sc").i(ci).i(e));
}
MC_SCENARIO(fine, "transforms of 131072 to 524288 points (36 bins per octave at 55 and 27.5 Hz of 96 and 192 kHz; thousands of bins per octave near the Nyquist frequency): dense spectra and single lines inside, beside and far from the kernels, both entry points", 1, 4) {
    static const Spec R[] = {{96000, 55, 57, 36, 0.0054}, {44100, 12000, 12000.4, 25000, 0.0054}, {44100, 20000, 20000.4, 60000, 0.0054}, {192000, 27.5, 28.1, 36, 0.001}};
    int ci = mc::choose(4, "cfg"); Spec s = R[ci]; ConstantQ q(conf(s)); int K = checkShape(q, s); q.sparsekernel(); const Kernel &k = kernel(s, K); VC X(k.L); for (int i = 0; i < k.L; ++i) X[i] = C(mc::wave(i, 3), mc::wave(i, 17)); run(q, k, X, 0); run(q, k, X, 1);
    int best = 1; for (int c = 1; c < k.L; ++c) if (std::abs(k.k[0][c]) > std::abs(k.k[0][best])) best = c; int at[] = {best, best + 1, best - 65536, best + 65536, 1, k.L / 2}; for (int c : at) if (c > 0 && c < k.L) { VC Y(k.L); Y[k.L - c] = C(2e5, -1e5); run(q, k, Y, c % 2); } mc::outcome(mc::Hash("f").i(k.L)); mc::state(mc::Hash("f").i(ci));
}
NEIGHBOURS("8 transforms that differ in rate, one frequency limit, bins per octave or threshold") {
    struct P { double fs, lo, hi; int bpo; double thr; }; static const P p[] = {{8000, 500, 2000, 6, 0.0054}, {8000, 500, 2000, 6, 0.1}, {8000, 500, 2000, 6, 0}, {8000, 500, 2000, 5, 0.0054}, {8000, 500, 1800, 6, 0.0054}, {8000, 520, 2000, 6, 0.0054}, {8100, 500, 2000, 6, 0.0054}, {16000, 1000, 4000, 6, 0.0054}};
    for (auto &q : p) v.add("constant-Q " + std::to_string(&q - p), [q] { CQConfig c; c.FS = q.fs; c.min = q.lo; c.max = q.hi; c.BPO = q.bpo; c.CQThresh = q.thr; ConstantQ t(c); t.sparsekernel(); nb::V x = nb::sig(2 * t.getFFTLength()); double *r = t.process(x.data()); nb::V o(r, r + 2 * t.getK()); o.push_back(t.getQ()); o.push_back(t.getHop()); return o; });
}
