// C14: FFT / FFTReal are the DFT (forward unscaled, inverse 1/n) for every size; objects are stateless between calls.
#include "mc.h"
#include "refdsp.h"
#include "dsp/transforms/FFT.h"
#include <complex>
#include <memory>
#include <stdexcept>
#include "neighbours.h"
using ref::V; typedef std::complex<double> C; typedef std::vector<C> VC;
static VC dft(const VC &x, bool inv) { int n = (int)x.size(); VC y(n); VC w(n); for (int k = 0; k < n; ++k) w[k] = std::polar(1.0, (inv ? 2 : -2) * M_PI * k / n); for (int k = 0; k < n; ++k) { C s = 0; for (long i = 0; i < n; ++i) s += x[i] * w[(i * k) % n]; y[k] = inv ? s / (double)n : s; } return y; }
static const double TOL = 1e-9;
static void cplx(FFT &f, const VC &x, bool inv, bool nullImag) {
    int n = (int)x.size(); V r, i; for (auto &c : x) { r.push_back(c.real()); i.push_back(c.imag()); } V r0(r), i0(i), ro(n, 9.0), io(n, 9.0);
    f.process(inv, r.data(), nullImag ? 0 : i.data(), ro.data(), io.data()); mc::step(); if (r != r0 || i != i0) mc::fail("input-modified", "input changed");
    VC xx(x); if (nullImag) for (auto &c : xx) c = c.real(); VC w = dft(xx, inv); for (int k = 0; k < n; ++k) { mc::check_close(ro[k], w[k].real(), TOL, "fft", "real", k); mc::check_close(io[k], w[k].imag(), TOL, "fft", "imag", k); }
}
static void real(FFTReal &f, const V &x) {
    int n = (int)x.size(); V x0(x), ro(n, 9.0), io(n, 9.0), mo(n, 9.0); f.forward(x0.data(), ro.data(), io.data()); f.forwardMagnitude(x0.data(), mo.data()); mc::step(2); if (x0 != x) mc::fail("input-modified", "input changed");
    VC w = dft(VC(x.begin(), x.end()), false); for (int k = 0; k < n; ++k) { mc::check_close(ro[k], w[k].real(), TOL, "fftreal", "real", k); mc::check_close(io[k], w[k].imag(), TOL, "fftreal", "imag", k); mc::check_close(mo[k], std::abs(w[k]), TOL, "fftreal-magnitude", "magnitude", k); }
}
static void realinv(FFTReal &f, const VC &half, int n, bool junk) { // only the first n/2+1 bins count
    V r, i; for (auto &c : half) { r.push_back(c.real()); i.push_back(c.imag()); } if (junk) for (int k = n / 2 + 1; k < n; ++k) { r.push_back(NAN); i.push_back(NAN); } V out(n, 9.0); V r0(r);
    f.inverse(r.data(), i.data(), out.data()); mc::step(); VC full(n); for (int k = 0; k <= n / 2; ++k) full[k] = half[k]; full[0] = half[0].real(); full[n / 2] = half[n / 2].real(); for (int k = 1; k < n - n / 2; ++k) full[n - k] = std::conj(half[k]); VC w = dft(full, true);
    for (int k = 0; k < n; ++k) mc::check_close(out[k], w[k].real(), TOL, "fftreal-inverse", "sample", k);
}
static const int SZ[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22, 24, 25, 26, 27, 28, 30, 32, 33, 35, 36, 45, 48, 49, 50, 60, 64, 77, 96, 100, 101, 120, 121, 125, 128};
MC_SCENARIO(basis, "45 sizes 1..128 (radix 2,3,4,5 and generic): every unit impulse at real and imaginary part, forward and inverse, null imaginary input (linearity makes the basis decide the transform)", 1, 45) {
    int n = mc::pick(SZ, "n"); int k = mc::choose(n, "k"); FFT f(n); VC x(n); x[k] = 1; cplx(f, x, false, false); cplx(f, x, true, false); cplx(f, x, false, true); cplx(f, x, true, true); x[k] = C(0, 1); cplx(f, x, false, false); cplx(f, x, true, false);
    if (n % 2 == 0) { FFTReal r(n); V y(n); y[k] = 1; real(r, y); if (k <= n / 2) { VC h(n / 2 + 1); h[k] = 1; realinv(r, h, n, true); realinv(r, h, n, false); h[k] = C(0, 1); realinv(r, h, n, true); } } mc::state(mc::Hash("b").i(n).i(k));
}
MC_SCENARIO(dense, "every size 1..200 (thorough 1..600): dense complex and real data, forward, inverse, and round trip; linearity", 1, 50) {
    int n = 1 + mc::choose(mc::tiered(200, 600), "n"); VC x(n), y(n), z(n); for (int i = 0; i < n; ++i) { x[i] = C(mc::wave(i, 1), mc::wave(i, 2)); y[i] = C(mc::wave(i, 3), mc::wave(i, 4)); z[i] = 2.0 * x[i] - y[i]; }
    FFT f(n); cplx(f, x, false, false); cplx(f, x, true, false); cplx(f, z, false, false); cplx(f, y, false, true);
    V r, i, a(n), b(n), c(n), d(n); for (auto &q : x) { r.push_back(q.real()); i.push_back(q.imag()); } f.process(false, r.data(), i.data(), a.data(), b.data()); f.process(true, a.data(), b.data(), c.data(), d.data()); mc::check_vec(c, r, TOL, "roundtrip", "real"); mc::check_vec(d, i, TOL, "roundtrip", "imag");
    if (n % 2 == 0) { FFTReal g(n); real(g, r); g.forward(r.data(), a.data(), b.data()); g.inverse(a.data(), b.data(), c.data()); mc::check_vec(c, r, TOL, "roundtrip", "real fft"); VC h(n / 2 + 1); for (int k = 0; k <= n / 2; ++k) h[k] = C(mc::wave(k, 5), k == 0 || k == n / 2 ? 0 : mc::wave(k, 6)); realinv(g, h, n, true); } mc::state(mc::Hash("d").i(n));
}
MC_SCENARIO(words, "every real word over {0,1,-1} of length 2,4,6 (thorough 8) and every complex word over {0,1,i,-1} of length 1..4", 2, 16) {
    if (mc::choose(2)) { int n = 2 + 2 * mc::choose(mc::tiered(3, 4), "n"); V x; static const double al[] = {0, 1, -1}; for (int i = 0; i < n; ++i) x.push_back(mc::pick(al, "x")); FFTReal f(n); real(f, x); mc::state(mc::Hash("r").vec(x)); }
    else { int n = 1 + mc::choose(4, "n"); VC x; static const C al[] = {0, 1, C(0, 1), -1}; mc::Hash h("c"); for (int i = 0; i < n; ++i) { x.push_back(mc::pick(al, "x")); h.d(x[i].real()).d(x[i].imag()); } FFT f(n); cplx(f, x, false, false); cplx(f, x, true, false); mc::state(h); }
}
MC_SCENARIO(histories, "sizes 2,6,8,30: every sequence of 4 (thorough 5) calls from {forward, inverse, real forward, magnitude, real inverse} on shared objects: each result independent of the past", 2, 16) {
    static const int S[] = {8, 2, 6, 30}; int n = mc::pick(S, "n"); FFT f(n); FFTReal g(n); mc::Hash h("h"); h.i(n);
    for (int d = 0; d < mc::tiered(4, 5); ++d) { int op = mc::choose(5, "op"); h.i(op); V x; VC c; for (int i = 0; i < n; ++i) { x.push_back(mc::wave(i, d)); c.push_back(C(mc::wave(i, d), mc::wave(i, d + 9))); } if (op == 0) cplx(f, c, false, false); else if (op == 1) cplx(f, c, true, false); else if (op == 2) real(g, x); else if (op == 3) cplx(f, c, false, true); else { c.resize(n / 2 + 1); c[0] = c[0].real(); c[n / 2] = c[n / 2].real(); realinv(g, c, n, false); } mc::state(h); }
}
MC_SCENARIO(construction, "FFTReal throws invalid_argument exactly for odd sizes 1..65; no leak either way", 0, 1) {
    int n = 1 + mc::choose(65, "n"); bool threw = false; try { FFTReal f(n); } catch (std::invalid_argument &) { threw = true; } mc::step(); mc::require(threw == (n % 2 == 1), "odd-size", "size %d: %s", n, threw ? "threw" : "did not throw"); mc::state(n);
    mc::leak_check("leak", [&] { V a(n), b(n); FFT f(n); f.process(false, a.data(), 0, a.data(), b.data()); try { FFTReal g(n); g.forwardMagnitude(a.data(), b.data()); } catch (std::invalid_argument &) {} });
}
MC_SCENARIO(large, "sizes 256, 512, 1000, 1009, 1023, 1024, 2048, 2187, 3125 (thorough also 3000, 4096, 4097): dense data, every bin", 1, 9) { static const int S[] = {1024, 256, 512, 1000, 1009, 1023, 2048, 2187, 3125, 3000, 4096, 4097}; int n = S[mc::choose(mc::tiered(9, 12), "n")]; VC x(n); for (int i = 0; i < n; ++i) x[i] = C(mc::wave(i, 1), mc::wave(i, 2)); FFT f(n); cplx(f, x, false, false); cplx(f, x, true, false); if (n % 2 == 0) { V r; for (auto &c : x) r.push_back(c.real()); FFTReal g(n); real(g, r); } mc::state(n); }
MC_SCENARIO(very_large, "sizes 4096, 6000, 8192, 16384, 32768, 65536, 131072, 262144: dense complex and real data, 40 bins by definition, exact round trip, energy (Parseval)", 1, 8) {
    static const int S[] = {4096, 6000, 8192, 16384, 32768, 65536, 131072, 262144}; int n = mc::pick(S, "n"); V r(n), i(n), a(n), b(n), c(n), d(n), m(n); double e = 0, E = 0; for (int k = 0; k < n; ++k) { r[k] = mc::wave(k, 1); i[k] = mc::wave(k, 2); e += r[k] * r[k] + i[k] * i[k]; }
    auto bin = [&](int k, bool im) { C s = 0; for (long t = 0; t < n; ++t) s += C(r[t], im ? i[t] : 0) * std::polar(1.0, -2 * M_PI * (double)(t * k % n) / n); return s; };
    FFT f(n); f.process(false, r.data(), i.data(), a.data(), b.data()); mc::step(); for (int k = 0; k < n; ++k) E += a[k] * a[k] + b[k] * b[k]; mc::check_close(E / n, e, 1e-9, "energy", "energy"); for (int q = 0; q < 40; ++q) { int k = q < 20 ? q * (n / 20) : n - 1 - (q - 20) * (n / 23); C w = bin(k, true); mc::check_close(a[k], w.real(), 1e-8, "fft", "real", k); mc::check_close(b[k], w.imag(), 1e-8, "fft", "imag", k); }
    f.process(true, a.data(), b.data(), c.data(), d.data()); mc::check_vec(c, r, TOL, "roundtrip", "real"); mc::check_vec(d, i, TOL, "roundtrip", "imag");
    FFTReal g(n); g.forward(r.data(), a.data(), b.data()); g.forwardMagnitude(r.data(), m.data()); mc::step(2); for (int q = 0; q < 40; ++q) { int k = q < 20 ? q * (n / 20) : n - 1 - (q - 20) * (n / 23); C w = bin(k, false); mc::check_close(a[k], w.real(), 1e-8, "fftreal", "real", k); mc::check_close(b[k], w.imag(), 1e-8, "fftreal", "imag", k); } for (int k = 0; k < n; ++k) { mc::check_close(m[k], std::hypot(a[k], b[k]), TOL, "fftreal-magnitude", "magnitude", k); if (k) { mc::check_close(a[n - k], a[k], TOL, "fftreal", "symmetry", k); mc::check_close(b[n - k], -b[k], TOL, "fftreal", "antisymmetry", k); } } g.inverse(a.data(), b.data(), c.data()); mc::check_vec(c, r, TOL, "roundtrip", "real fft"); mc::state(n);
}
MC_SCENARIO(scales, "sizes 1,2,5,8,12,15,30,64 x 12 scales 2^-100..2^100, dense data and single impulses: every transform scales exactly", 1, 8) {
    static const int S[] = {8, 1, 2, 5, 12, 15, 30, 64}, E[] = {-100, -80, -60, -50, -40, -25, -15, 15, 25, 40, 60, 100}; int n = mc::pick(S, "n"), e = mc::pick(E, "scale"); bool imp = mc::choose(2, "impulse"); VC x(n); for (int k = 0; k < n; ++k) x[k] = imp ? C(k == n / 3, k == n / 2) : C(mc::wave(k, 1), mc::wave(k, 2)); auto up = [&](double v) { return std::ldexp(v, e); };
    V r, i, a(n), b(n); for (auto &z : x) { r.push_back(up(z.real())); i.push_back(up(z.imag())); } FFT f(n); for (int inv = 0; inv < 2; ++inv) { f.process(inv, r.data(), i.data(), a.data(), b.data()); mc::step(); VC w = dft(x, inv); for (int k = 0; k < n; ++k) { mc::check_close(std::ldexp(a[k], -e), w[k].real(), TOL, "fft", "real", k); mc::check_close(std::ldexp(b[k], -e), w[k].imag(), TOL, "fft", "imag", k); } }
    if (n % 2 == 0) { FFTReal g(n); V m(n), o(n); g.forward(r.data(), a.data(), b.data()); g.forwardMagnitude(r.data(), m.data()); g.inverse(a.data(), b.data(), o.data()); mc::step(3); V re; for (double d : r) re.push_back(std::ldexp(d, -e)); VC w = dft(VC(re.begin(), re.end()), false); for (int k = 0; k < n; ++k) { mc::check_close(std::ldexp(a[k], -e), w[k].real(), TOL, "fftreal", "real", k); mc::check_close(std::ldexp(b[k], -e), w[k].imag(), TOL, "fftreal", "imag", k); mc::check_close(std::ldexp(m[k], -e), std::abs(w[k]), TOL, "fftreal-magnitude", "magnitude", k); mc::check_close(std::ldexp(o[k], -e), re[k], TOL, "roundtrip", "real fft", k); } } mc::state(mc::Hash("s").i(n).i(e).i(imp));
}
NEIGHBOURS("the complex and real transforms of 11 sizes, both directions") {
    for (int n : {8, 12, 16, 17, 18, 64, 66, 2048, 4096, 4098, 8192}) { v.add("FFT " + std::to_string(n), [n] { FFT f(n); nb::V x = nb::sig(n), y = nb::sig(n, 4), a(n), b(n), o; f.process(false, x.data(), y.data(), a.data(), b.data()); o = a; nb::app(o, b); f.process(true, x.data(), y.data(), a.data(), b.data()); nb::app(o, a); nb::app(o, b); return o; });
        if (n % 2 == 0) v.add("FFTReal " + std::to_string(n), [n] { FFTReal f(n); nb::V x = nb::sig(n), a(n), b(n), m(n), o; f.forward(x.data(), a.data(), b.data()); o = a; nb::app(o, b); f.forwardMagnitude(x.data(), m.data()); nb::app(o, m); f.inverse(a.data(), b.data(), m.data()); nb::app(o, m); return o; }); }
}
