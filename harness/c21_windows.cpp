// C21: analysis windows equal their formulas for every type and length; copy/assign/cut behave as values.
#include "mc.h"
#include "refdsp.h"
#include "base/Window.h"
#include "base/KaiserWindow.h"
#include "base/SincWindow.h"
#include "neighbours.h"
using ref::V;
static double wf(int t, int n, int i) {
    double c1 = std::cos(2 * M_PI * i / n), c2 = std::cos(4 * M_PI * i / n), c3 = std::cos(6 * M_PI * i / n);
    switch (t) { case 0: return 0.5;
        case 1: if (n == 1) return 1; if (n == 2) return 0; if (n == 3) return i == 0 ? 0 : 2. / 3; { int h = n / 2; if (i < h) return (double)i / h; if (i >= n - h) return 1 - (double)(i - (n - h)) / h; return 1; }
        case 2: return n > 1 ? 0.54 - 0.46 * c1 : 1; case 3: return n > 1 ? 0.5 - 0.5 * c1 : 1; case 4: return n > 1 ? 0.42 - 0.5 * c1 + 0.08 * c2 : 1; default: return n > 1 ? 0.35875 - 0.48829 * c1 + 0.14128 * c2 - 0.01168 * c3 : 1; } }
template <class T> static void value(const Window<T> &w, int t, int n, double tol) {
    mc::require(w.getType() == t && w.getSize() == n, "attributes", "type/size do not match construction"); std::vector<T> d = w.getWindowData(); mc::require((int)d.size() == n, "size", "window data has %zu values", d.size()); std::vector<T> src(n), dst(n, T(9)); for (int i = 0; i < n; ++i) src[i] = T(mc::wave(i, 2) + 2); std::vector<T> s0(src); w.cut(src.data(), dst.data()); mc::step(2); if (src != s0) mc::fail("input-modified", "input changed"); w.cut(src.data());
    for (int i = 0; i < n; ++i) { mc::check_close(d[i], wf(t, n, i), tol, "window-value", "window", i); mc::check_close(dst[i], s0[i] * wf(t, n, i), tol * 4, "cut", "cut", i); mc::check_close(src[i], dst[i], 0, "cut-inplace", "in-place cut", i); } }
MC_SCENARIO(values, "6 types x every length 1..300 (thorough 1..1500) and powers of two to 8192, 1000, 1323, 4410, 16384, 65536, 100000, double and float", 1, 6) { int t = mc::choose(6, "type"), n; if (mc::choose(2, "big")) { static const int B[] = {512, 1024, 2048, 4096, 8192, 1000, 1323, 4410, 16384, 65536, 100000}; n = mc::pick(B, "n"); } else n = 1 + mc::choose(mc::tiered(300, 1500), "n"); value(Window<double>((WindowType)t, n), t, n, 1e-12); value(Window<float>((WindowType)t, n), t, n, 1e-5); mc::state(mc::Hash("v").i(t).i(n)); }
MC_SCENARIO(copies, "every sequence of 5 (thorough 6) operations from {assign other, self-assign, copy-construct, cut} over two windows of different type and size", 1, 16) { int t1 = mc::choose(6, "t1"), t2 = mc::choose(6, "t2"); int n1 = 5, n2 = 9; Window<double> a((WindowType)t1, n1), b((WindowType)t2, n2); mc::Hash h("c"); h.i(t1).i(t2);
    for (int d = 0; d < mc::tiered(5, 6); ++d) { int op = mc::choose(5, "op"); h.i(op); mc::step(); if (op == 0) { a = b; t1 = t2; n1 = n2; } else if (op == 1) { b = a; t2 = t1; n2 = n1; } else if (op == 2) { Window<double> &r = a; a = r; } else if (op == 3) { Window<double> c(a); value(c, t1, n1, 1e-12); } else { b = Window<double>(BlackmanWindow, 3); t2 = BlackmanWindow; n2 = 3; } value(a, t1, n1, 1e-12); value(b, t2, n2, 1e-12); mc::state(h); } }
static double I0(double x) { double s = 1, t = 1; for (int k = 1; k < 200; ++k) { t *= (x / 2 / k) * (x / 2 / k); s += t; } return s; }
MC_SCENARIO(kaiser, "every length 1..200 (thorough 1..500), beta 0,0.5,2,5,8.6,10.06,12: Kaiser window values, symmetric, peak 1", 1, 8) { static const double B[] = {5, 0, 0.5, 2, 8.6, 10.06, 12}; KaiserWindow::Parameters p; p.beta = mc::pick(B, "beta"); p.length = 1 + mc::choose(mc::tiered(200, 500), "n"); KaiserWindow k(p); int n = p.length; mc::step(); mc::require(k.getLength() == n, "length", "length"); V src(n, 2.0), dst(n, 9.0); k.cut(src.data(), dst.data()); k.cut(src.data());
    for (int i = 0; i < n; ++i) { double r = n > 1 ? 2.0 * i / (n - 1) - 1 : 0, w = I0(p.beta * std::sqrt(std::max(0.0, 1 - r * r))) / I0(p.beta); mc::check_close(k.getWindow()[i], w, 1e-7, "kaiser", "window", i); mc::check_close(dst[i], 2 * w, 2e-7, "kaiser-cut", "cut", i); mc::check_close(src[i], dst[i], 0, "kaiser-cut", "in-place cut", i); } mc::state(mc::Hash("k").d(p.beta).i(n)); }
MC_SCENARIO(kaiser_design, "attenuation 1..140 dB, and just above 21 and 50, x transition widths/bandwidths: length and beta from Kaiser's formulas, all three constructors agree", 1, 8) { int ai = mc::choose(143, "att"); double a = ai < 140 ? 1 + ai : ai == 140 ? 21.05 : ai == 141 ? 50.05 : 0.5; static const double T[] = {0.01, 0.05, 0.1, 0.37, 1.0, 0.0003}; double t = mc::pick(T, "trans"); KaiserWindow::Parameters p = KaiserWindow::parametersForTransitionWidth(a, t); mc::step();
    double len = 1 + (a > 21 ? std::ceil((a - 7.95) / (2.285 * t)) : std::ceil(5.79 / t)), beta = a > 50 ? 0.1102 * (a - 8.7) : a > 21 ? 0.5842 * std::pow(a - 21, 0.4) + 0.07886 * (a - 21) : 0;
    mc::require(std::fabs(p.length - len) <= (std::fabs((a - 7.95) / (2.285 * t) - std::floor((a - 7.95) / (2.285 * t) + 0.5)) < 1e-9 ? 1 : 0), "kaiser-design", "length %d, formula gives %g", p.length, len); mc::check_close(p.beta, beta, 1e-9, "kaiser-design", "beta"); double sr = 8000, bw = t * sr / (2 * M_PI); KaiserWindow::Parameters q = KaiserWindow::parametersForBandwidth(a, bw, sr); mc::require(std::abs(q.length - p.length) <= 1, "kaiser-design", "bandwidth design gives length %d, transition-width design %d", q.length, p.length); mc::check_close(q.beta, beta, 1e-9, "kaiser-design", "beta"); if (t > 0.3) { mc::require(KaiserWindow::byTransitionWidth(a, t).getLength() == p.length && KaiserWindow::byBandwidth(a, bw, sr).getLength() == q.length, "kaiser-design", "factory differs from parameters"); } mc::state(mc::Hash("d").d(a).d(t)); }
MC_SCENARIO(sinc, "every length 0..200, p 1,1.5,2,3,7.3,20: sin(x)/x with peak 1 at the centre", 1, 6) { static const double P[] = {2, 1, 1.5, 3, 7.3, 20}; double p = mc::pick(P, "p"); int n = mc::choose(201, "n"); SincWindow s(n, p); mc::step(); mc::require(s.getLength() == n, "length", "length"); V src(n, 1.0), dst(n); s.cut(src.data(), dst.data()); s.cut(src.data()); for (int i = 0; i < n; ++i) { double x = (i - n / 2) * 2 * M_PI / p, w = i == n / 2 ? 1 : std::sin(x) / x; mc::check_close(s.getWindow()[i], w, 1e-12, "sinc", "window", i); mc::check_close(dst[i], w, 1e-12, "sinc-cut", "cut", i); mc::check_close(src[i], dst[i], 0, "sinc-cut", "cut", i); } mc::state(mc::Hash("s").d(p).i(n)); }
MC_SCENARIO(leaks, "construct, copy, assign, destroy: no heap growth", 0, 1) { int t = mc::choose(6); mc::leak_check("leak", [&] { Window<double> a((WindowType)t, 20), b(HanningWindow, 7), c(a); b = a; a = c; a = a; }); mc::leak_check("leak", [&] { KaiserWindow k = KaiserWindow::byTransitionWidth(40, 0.5), l(k); SincWindow s(10, 3), u(s); k = l; s = u; }); mc::state(t); }
MC_SCENARIO(long_windows, "Kaiser windows of 1000..100001 values, beta 0.01..30, and sinc windows of 1000..100001 values, p 0.5..4410: every value, through copies and assignment as well", 1, 12) {
    static const int N[] = {1000, 1001, 4097, 8192, 20001, 100001}; int n = mc::pick(N, "n");
    if (mc::choose(2, "kind")) { static const double P[] = {2, 0.5, 3.3, 20, 441, 4410}; double p = mc::pick(P, "p"); SincWindow a(n, p), b(7, 3), c(a); b = c; V one(n, 1.0); b.cut(one.data()); mc::step(); mc::require(b.getLength() == n, "length", "length"); for (int i = 0; i < n; ++i) { double x = (i - n / 2) * 2 * M_PI / p, w = i == n / 2 ? 1 : std::sin(x) / x; mc::check_close(a.getWindow()[i], w, 1e-10, "sinc", "window", i); mc::check_close(one[i], w, 1e-10, "sinc-cut", "cut", i); } mc::state(mc::Hash("ls").i(n).d(p)); }
    else { static const double B[] = {8.6, 0.01, 1, 12.3, 20, 30}; KaiserWindow::Parameters q, r; q.beta = mc::pick(B, "beta"); q.length = n; r.beta = 1; r.length = 5; KaiserWindow a(q), b(r), c(a); b = c; V one(n, 1.0); b.cut(one.data()); mc::step(); mc::require(b.getLength() == n, "length", "length"); double top = I0(q.beta); for (int i = 0; i < n; ++i) { double z = 2.0 * i / (n - 1) - 1, w = I0(q.beta * std::sqrt(std::max(0.0, 1 - z * z))) / top; mc::check_close(a.getWindow()[i], w, 1e-7, "kaiser", "window", i); mc::check_close(one[i], w, 1e-7, "kaiser-cut", "cut", i); } mc::state(mc::Hash("lk").i(n).d(q.beta)); }
}
MC_SCENARIO(scales, "all windows x lengths 1,2,3,8,33 x input amplitudes 2^-600..2^600: cutting is multiplication by the window at every amplitude; inputs of infinity stay infinite", 1, 8) {
    int t = mc::choose(8, "type"); static const int N[] = {1, 2, 3, 8, 33}, E[] = {0, -600, -100, -40, 40, 100, 600}; int n = mc::pick(N, "n"), e = mc::pick(E, "scale"); V x(n), y(n); for (int i = 0; i < n; ++i) x[i] = std::ldexp(mc::wave(i, 1) + 1.5, e); V z(x); const double *w; V wd; KaiserWindow::Parameters p; p.length = n; p.beta = 6; KaiserWindow kw(p); SincWindow sw(n, 3);
    if (t < 6) { Window<double> win((WindowType)t, n); wd = win.getWindowData(); win.cut(x.data(), y.data()); win.cut(z.data()); } else if (t == 6) { w = kw.getWindow(); wd.assign(w, w + n); kw.cut(x.data(), y.data()); kw.cut(z.data()); } else { w = sw.getWindow(); wd.assign(w, w + n); sw.cut(x.data(), y.data()); sw.cut(z.data()); } mc::step();
    for (int i = 0; i < n; ++i) { mc::check_close(std::ldexp(y[i], -e), std::ldexp(x[i], -e) * wd[i], 1e-14, "scaling", "cut", i); mc::check_close(std::ldexp(z[i], -e), std::ldexp(y[i], -e), 0, "scaling", "in-place cut", i); } mc::state(mc::Hash("sc").i(t).i(n).i(e));
}
NEIGHBOURS("every window type in 7 sizes and 9 Kaiser and sinc windows that differ in one parameter") {
    for (int t = FirstWindow; t <= LastWindow; ++t) for (int n : {1, 16, 17, 1024, 2048, 4096, 65536}) v.add("window type " + std::to_string(t) + " of " + std::to_string(n), [t, n] { Window<double> w((WindowType)t, n); nb::V o = w.getWindowData(); Window<float> f((WindowType)t, n < 5000 ? n : 5); std::vector<float> g = f.getWindowData(); o.insert(o.end(), g.begin(), g.end()); return o; });
    for (int n : {16, 17, 4096}) for (double b : {0.0, 4.0, 9.0}) v.add("Kaiser and sinc windows " + std::to_string(n) + " " + std::to_string(b), [n, b] { KaiserWindow::Parameters p; p.length = n; p.beta = b; KaiserWindow k(p); SincWindow s(n, b + 3); nb::V o(k.getWindow(), k.getWindow() + n); o.insert(o.end(), s.getWindow(), s.getWindow() + n); return o; });
}
