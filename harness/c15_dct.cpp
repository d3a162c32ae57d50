// C15: DCT is the type-II / type-III transform pair, plain and unitary.
#include "mc.h"
#include "refdsp.h"
#include "dsp/transforms/DCT.h"
#include "neighbours.h"
using ref::V;
static V dct2(const V &x) { int n = (int)x.size(); V y(n); for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) y[k] += 2 * x[i] * std::cos(M_PI * k * (2 * i + 1) / (2 * n)); return y; }
static V dct3(const V &x) { int n = (int)x.size(); V y(n); for (int i = 0; i < n; ++i) { y[i] = x[0] / 2; for (int k = 1; k < n; ++k) y[i] += x[k] * std::cos(M_PI * k * (2 * i + 1) / (2 * n)); y[i] /= n; } return y; }
static double us(int n, int k) { return (k == 0 ? std::sqrt(1.0 / n) : std::sqrt(2.0 / n)) / 2; }
static V op(DCT &d, int which, const V &x) {
    int n = (int)x.size(); V in(x), out(n, 9.0), w; mc::step();
    if (which == 0) { d.forward(in.data(), out.data()); w = dct2(x); } else if (which == 1) { d.inverse(in.data(), out.data()); w = dct3(x); }
    else if (which == 2) { d.forwardUnitary(in.data(), out.data()); w = dct2(x); for (int k = 0; k < n; ++k) w[k] *= us(n, k); }
    else { d.inverseUnitary(in.data(), out.data()); w = x; for (int k = 0; k < n; ++k) w[k] /= us(n, k); w = dct3(w); }
    static const char *nm[] = {"forward", "inverse", "forward-unitary", "inverse-unitary"}; if (in != x) mc::fail("input-modified", "input changed"); mc::check_vec(out, w, 1e-9, nm[which], "coefficient"); return out;
}
MC_SCENARIO(basis, "every size 1..40 (thorough 1..80), every unit vector, all four transforms", 1, 40) { int n = 1 + mc::choose(mc::tiered(40, 80), "n"), k = mc::choose(n, "k"); DCT d(n); V x(n); x[k] = 1; for (int w = 0; w < 4; ++w) op(d, w, x); mc::state(mc::Hash("b").i(n).i(k)); }
MC_SCENARIO(words, "every word over {0,1,-2} of length 1..6 (thorough 7): values, round trips and unitary energy", 2, 16) { int n = 1 + mc::choose(mc::tiered(6, 7), "n"); V x; static const double al[] = {0, 1, -2}; for (int i = 0; i < n; ++i) x.push_back(mc::pick(al, "x")); DCT d(n); mc::check_vec(op(d, 1, op(d, 0, x)), x, 1e-9, "roundtrip", "sample"); V u = op(d, 2, x); mc::check_vec(op(d, 3, u), x, 1e-9, "roundtrip-unitary", "sample"); double a = 0, b = 0; for (int i = 0; i < n; ++i) { a += x[i] * x[i]; b += u[i] * u[i]; } mc::check_close(b, a, 1e-9, "energy", "energy"); mc::state(mc::Hash("w").vec(x)); }
MC_SCENARIO(histories, "sizes 1,2,5,8,13: every sequence of 5 (thorough 6) calls over the four transforms on one object", 2, 16) { static const int S[] = {5, 1, 2, 8, 13}; int n = mc::pick(S, "n"); DCT d(n); mc::Hash h("h"); h.i(n); for (int k = 0; k < mc::tiered(5, 6); ++k) { int w = mc::choose(4, "op"); V x; for (int i = 0; i < n; ++i) x.push_back(mc::wave(i, k)); op(d, w, x); h.i(w); mc::state(h); } }
MC_SCENARIO(large, "sizes 64,100,127,256,512: dense data, all transforms", 1, 5) { static const int S[] = {64, 100, 127, 256, 512}; int n = mc::pick(S, "n"); DCT d(n); V x; for (int i = 0; i < n; ++i) x.push_back(mc::wave(i, 3)); for (int w = 0; w < 4; ++w) op(d, w, x); mc::state(n); }
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int n = 1 + mc::choose(9); mc::leak_check("leak", [&] { DCT d(n); V x(n, 1.0), y(n); d.forward(x.data(), y.data()); d.inverseUnitary(x.data(), y.data()); }); mc::state(n); }
MC_SCENARIO(scales, "sizes 1,2,3,8,13,40 x 10 scales 2^-100..2^100: all four transforms scale exactly; sizes 1000, 1024, 2048 dense", 1, 9) {
    static const int S[] = {8, 1, 2, 3, 13, 40, 1000, 1024, 2048}, E[] = {0, -100, -70, -50, -30, -15, 15, 30, 60, 100}; int n = mc::pick(S, "n"); DCT d(n); V x; for (int i = 0; i < n; ++i) x.push_back(mc::wave(i, 3)); if (n > 100) { for (int w = 0; w < 4; ++w) op(d, w, x); mc::state(n); return; }
    int e = mc::pick(E, "scale"); V s(x); for (double &v : s) v = std::ldexp(v, e); for (int w = 0; w < 4; ++w) { V a = op(d, w, x), b(n); if (w == 0) d.forward(s.data(), b.data()); else if (w == 1) d.inverse(s.data(), b.data()); else if (w == 2) d.forwardUnitary(s.data(), b.data()); else d.inverseUnitary(s.data(), b.data()); mc::step(); for (double &v : b) v = std::ldexp(v, -e); mc::check_vec(b, a, 1e-12, "scaling", "coefficient"); } mc::state(mc::Hash("s").i(n).i(e));
}
MC_SCENARIO(magnitudes, "sizes 3,5,8: every sequence of 3 (thorough 4) calls over the four transforms x amplitudes 1, 2^55, 2^-55 on one object", 2, 24) {
    static const int S[] = {3, 5, 8}, E[] = {0, 55, -55}; int n = mc::pick(S, "n"); DCT d(n); mc::Hash h("m"); h.i(n);
    for (int k = 0; k < mc::tiered(3, 4); ++k) { int w = mc::choose(4, "op"), e = mc::pick(E, "amplitude"); V x; for (int i = 0; i < n; ++i) x.push_back(std::ldexp(mc::wave(i, k), e)); V y(n), z(n); DCT fresh(n); for (int j = 0; j < 2; ++j) { DCT &o = j ? fresh : d; V &r = j ? z : y; if (w == 0) o.forward(x.data(), r.data()); else if (w == 1) o.inverse(x.data(), r.data()); else if (w == 2) o.forwardUnitary(x.data(), r.data()); else o.inverseUnitary(x.data(), r.data()); } mc::step(); for (double &v : y) v = std::ldexp(v, -e); for (double &v : z) v = std::ldexp(v, -e); mc::check_vec(y, z, 1e-12, "history-dependent", "coefficient"); h.i(w).i(e); mc::state(h); }
}
MC_SCENARIO(very_large, "sizes 3000, 4096, 8192, 10007, 16384, 32768, 65536 (thorough 100000, 131072): 40 coefficients of each of the four transforms by definition, round trips and unitary energy", 1, 9) {
    static const int S[] = {4096, 3000, 8192, 10007, 16384, 32768, 65536, 100000, 131072}; int n = S[mc::choose(mc::tiered(7, 9), "n")]; DCT d(n); V x(n), y(n), z(n); for (int i = 0; i < n; ++i) x[i] = mc::wave(i, 3) + 0.25 * mc::wave(i / 64, 5);
    static std::vector<double> ct; ct.resize(4 * n); for (int i = 0; i < 4 * n; ++i) ct[i] = std::cos(2 * M_PI * i / (4.0 * n));
    auto def2 = [&](int k) { double s = 0; for (int i = 0; i < n; ++i) s += 2 * x[i] * ct[(long)k * (2 * i + 1) % (4L * n)]; return s; };
    auto def3 = [&](int i, bool un) { double s = x[0] / 2 / (un ? us(n, 0) : 1); for (int k = 1; k < n; ++k) s += x[k] / (un ? us(n, k) : 1) * ct[(long)k * (2 * i + 1) % (4L * n)]; return s / n; };
    auto at = [&](int j) { return j < 8 ? j : j < 16 ? n - 1 - (j - 8) : (int)((long)j * n / 40 + j) % n; }; V in(x); double tol = 1e-9 * std::sqrt((double)n);
    d.forward(in.data(), y.data()); for (int j = 0; j < 40; ++j) mc::check_close(y[at(j)], def2(at(j)), 10 * tol, "forward", "coefficient", at(j)); d.inverse(y.data(), z.data()); mc::check_vec(z, x, 1e-8, "roundtrip", "sample");
    d.forwardUnitary(in.data(), y.data()); for (int j = 0; j < 40; ++j) mc::check_close(y[at(j)], def2(at(j)) * us(n, at(j)), tol, "forward-unitary", "coefficient", at(j)); d.inverseUnitary(y.data(), z.data()); mc::check_vec(z, x, 1e-8, "roundtrip-unitary", "sample"); double a = 0, b = 0; for (int i = 0; i < n; ++i) { a += x[i] * x[i]; b += y[i] * y[i]; } mc::check_close(b / a, 1, 1e-9, "energy", "energy ratio");
    d.inverse(in.data(), y.data()); for (int j = 0; j < 40; ++j) mc::check_close(y[at(j)], def3(at(j), false), 1e-9, "inverse", "sample", at(j)); d.inverseUnitary(in.data(), y.data()); for (int j = 0; j < 40; ++j) mc::check_close(y[at(j)], def3(at(j), true), tol, "inverse-unitary", "sample", at(j)); if (in != x) mc::fail("input-modified", "input changed"); mc::step(6); mc::state(n);
}
NEIGHBOURS("9 sizes, all four transforms") {
    for (int n : {1, 2, 3, 8, 9, 16, 64, 1024, 1026}) v.add("DCT " + std::to_string(n), [n] { DCT d(n); nb::V x = nb::sig(n), y(n), o; d.forward(x.data(), y.data()); nb::app(o, y); d.inverseUnitary(x.data(), y.data()); nb::app(o, y); d.forwardUnitary(x.data(), y.data()); nb::app(o, y); d.inverse(x.data(), y.data()); nb::app(o, y); return o; });
}
