// C11: FiltFilt = forward filter, reverse, filter, reverse over the odd-reflected signal; a pure function of its argument.
#include "mc.h"
#include "dsp/signalconditioning/FiltFilt.h"
#include <memory>
#include "refdsp.h"
#include "neighbours.h"
using namespace std;
typedef vector<double> V;
struct Cfg { const char *name; V b, a; };
static const vector<Cfg> &cfgs() {
    static vector<Cfg> c = {
        {"gain", {0.5}, {1.0}}, {"fir1", {1, -0.5}, {}}, {"fir2", {0.25, 0.5, -0.75}, {}}, {"gain-fir", {2}, {}},
        {"iir1", {1, 0.5}, {1, -0.5}}, {"iir2", {0.2066, 0.4131, 0.2066}, {1.0, -0.3695, 0.1958}},
        {"iir3", {0.3, -0.2, 0.1, 0.7}, {1.0, -0.4, 0.3, -0.2}},
        {"fir8", {1, 2, 3, 4, 5, -4, -3, 2, 1}, {}},
        {"fir40", V(41), {}}, {"iir35", V(36), V(36)},
    };
    for (auto &k : c) if (k.b.size() > 30 && k.b[0] == 0) { for (size_t i = 0; i < k.b.size(); ++i) k.b[i] = 0.05 * (double)(i % 7 + 1) * (i % 3 == 1 ? -1 : 1); for (size_t i = 0; i < k.a.size(); ++i) k.a[i] = i ? 0.01 * ((i % 2) ? 1 : -1) : 1; }
    return c;
}
static V model(const Cfg &c, const V &x) { return ref::filtfilt(c.b, c.a, x); }
static V call(FiltFilt &f, const V &x) {
    V in(x), out(x.size(), 12345.0); f.process(in.data(), out.data(), (int)x.size()); mc::step();
    if (in != x) mc::fail("input-modified", "input changed");
    return out;
}
static FiltFilt make(const Cfg &c) { Filter::Parameters p; p.a = c.a; p.b = c.b; return FiltFilt(p); }

MC_SCENARIO(words, "10 coefficient sets (FIR orders to 40, IIR to 35); every input word in {0,1,-1}^n for every n=1..7 (thorough 8), fresh object", 3, 32) {
    const Cfg &c = cfgs()[mc::choose((int)cfgs().size(), "cfg")]; int n = 1 + mc::choose(mc::tiered(7, 8), "len");
    V x; static const double al[] = {0, 1, -1}; for (int i = 0; i < n; ++i) x.push_back(mc::pick(al, "x"));
    FiltFilt f(make(c)); mc::check_vec(call(f, x), model(c, x), 1e-9, "zero-phase", "output"); mc::state(mc::Hash(c.name).vec(x));
}
MC_SCENARIO(histories, "10 coefficient sets; every sequence of 3 (thorough 4) calls on one object with lengths from {0,1,2,3,10,24,25,40,100,130}: each call equals the model of that input alone", 2, 32) {
    const Cfg &c = cfgs()[mc::choose((int)cfgs().size(), "cfg")]; FiltFilt f(make(c));
    static const int L[] = {40, 0, 1, 2, 3, 10, 24, 25, 100, 130};
    mc::Hash h(c.name);
    for (int d = 0; d < mc::tiered(3, 4); ++d) { int n = mc::pick(L, "len"); V x; for (int i = 0; i < n; ++i) x.push_back(mc::wave(i, d)); mc::logf("process %d", n);
        mc::check_vec(call(f, x), model(c, x), 1e-9, "zero-phase", "output"); h.i(n); mc::state(h); }
}
// zero phase: time reversal commutes on a signal that has decayed well inside its ends
MC_SCENARIO(reversal, "8 coefficient sets; unit impulse at every position of a 121-sample block away from the edges gives a response symmetric about the impulse", 1, 8) {
    const Cfg &c = cfgs()[mc::choose(8, "cfg")]; int pos = 50 + mc::choose(21, "pos"); V x(121); x[pos] = 1; FiltFilt f(make(c)); V y = call(f, x);
    for (int d = 1; d < 50; ++d) mc::check_close(y[pos - d], y[pos + d], 1e-6, "zero-phase-symmetry", "mirror", d);
    mc::state(mc::Hash(c.name).i(pos));
}
MC_SCENARIO(leaks, "no heap growth per call or per object", 0, 1) {
    const Cfg &c = cfgs()[mc::choose((int)cfgs().size(), "cfg")]; V x(50, 1.0), y(50);
    mc::leak_check("leak", [&] { FiltFilt f(make(c)); f.process(x.data(), y.data(), 50); f.process(x.data(), y.data(), 50); }); mc::state(mc::Hash(c.name));
}
MC_SCENARIO(scales, "10 coefficient sets x 9 scales 2^-80..2^80 x lengths 1, 30, 300: exact scaling of the result; long inputs 5000, 70000", 1, 10) {
    const Cfg &c = cfgs()[mc::choose((int)cfgs().size(), "cfg")]; static const int E[] = {0, -80, -50, -40, -20, 20, 40, 64, 80}, L[] = {30, 1, 300, 5000, 70000}; int n = mc::pick(L, "len"), e = n > 1000 ? 0 : mc::pick(E, "scale"); V x, s; for (int i = 0; i < n; ++i) { x.push_back(mc::wave(i, 3)); s.push_back(std::ldexp(x[i], e)); } FiltFilt f(make(c)); V y = call(f, s); for (double &d : y) d = std::ldexp(d, -e); mc::check_vec(y, model(c, x), 1e-9, "zero-phase", "output"); mc::state(mc::Hash(c.name).i(n).i(e));
}
MC_SCENARIO(high_orders, "orders 84..86, 100, 127..129, 255..257, 300, 600 as FIR and IIR x lengths 1, 2, 50, one below / at / above three orders and one above the extension, 2000: two different calls on one object", 2, 22) {
    static const int N[] = {85, 84, 86, 100, 127, 128, 129, 255, 256, 257, 300, 600}; int n = mc::pick(N, "order"); bool iir = mc::choose(2, "iir") != 0; Cfg c; c.name = "high"; for (int i = 0; i <= n; ++i) { c.b.push_back(mc::wave(i, 3)); if (iir) c.a.push_back(i ? 0.9 / n * mc::wave(i, 4) : 1); } const int L[] = {50, 1, 2, 3 * n - 1, 3 * n, 3 * n + 1, 3 * n + 4, 2000}; int len = L[mc::choose(8, "len")]; FiltFilt f(make(c));
    for (int d = 0; d < 2; ++d) { V x; for (int i = 0; i < len + 7 * d; ++i) x.push_back(mc::wave(i, d + 2)); V w = model(c, x); double m = 1; for (double v : w) m = std::max(m, std::fabs(v)); mc::check_vec(call(f, x), w, 1e-11 * m, "zero-phase", "output"); } mc::state(mc::Hash("ho").i(n).i(iir).i(len));
}
NEIGHBOURS("6 filters that differ in one coefficient, the order or FIR/IIR") {
    struct P { std::vector<double> a, b; }; static const P p[] = {{{}, {0.5, 0.25, 0.1}}, {{}, {0.5, 0.25, 0.2}}, {{}, {0.5, 0.25, 0.1, 0.05}}, {{1, 0, 0}, {0.5, 0.25, 0.1}}, {{1, -0.5, 0.2}, {0.5, 0.25, 0.1}}, {{1, -0.5, 0.1}, {0.5, 0.25, 0.1}}};
    for (auto &q : p) v.add("filter " + std::to_string(&q - p), [q] { Filter::Parameters k; k.a = q.a; k.b = q.b; FiltFilt f(k); nb::V x = nb::sig(70), y(70), z(5); f.process(x.data(), y.data(), 70); f.process(x.data(), z.data(), 5); nb::app(y, z); return y; });
}
