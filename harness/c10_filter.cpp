// C10: Filter is the rational difference equation, streamed: chunking-invariant, reset == fresh.
#include "mc.h"
#include "dsp/signalconditioning/Filter.h"
#include <memory>
#include <stdexcept>
#include "neighbours.h"
using namespace std;
typedef vector<double> V;

struct Cfg { const char *name; V b, a; };
static const vector<Cfg> &cfgs() {
    static vector<Cfg> c = {
        {"gain-fir", {2.0}, {}},
        {"gain-iir", {0.5}, {1.0}},
        {"fir1", {1, -1}, {}},
        {"fir2", {0.25, 0.5, -0.75}, {}},
        {"fir3", {1, 2, 3, 4}, {}},
        {"iir1", {1, 0.5}, {1, -0.5}},
        {"iir2-butter", {0.2066, 0.4131, 0.2066}, {1.0, -0.3695, 0.1958}},
        {"iir3", {0.3, -0.2, 0.1, 0.7}, {1.0, -0.4, 0.3, -0.2}},
        {"iir-pure-delay-feedback", {0, 0, 1}, {1, 0, 0.5}},
        {"fir20", V(21), {}},
        {"fir21", V(22), {}},
        {"iir8", {0.1, 0.2, 0.3, 0.4, 0.5, 0.4, 0.3, 0.2, 0.1}, {1, -0.1, 0.1, -0.1, 0.1, -0.1, 0.1, -0.1, 0.1}},
        {"iir21", V(22), V(22)},
        {"iir20", V(21), V(21)},
        {"fir40", V(41), {}},
        {"iir22", V(23), V(23)},
        {"iir23", V(24), V(24)},
        {"iir45", V(46), V(46)},
        {"fir64", V(65), {}},
    };
    static bool init = false;
    if (!init) { init = true;
        for (auto &k : c) {
            bool z = true; for (double d : k.b) if (d != 0) z = false;
            if (z) for (size_t i = 0; i < k.b.size(); ++i) k.b[i] = 0.05 * (double)(i + 1) * (i % 3 == 1 ? -1 : 1);
            if (!k.a.empty() && k.a[0] == 0) { for (size_t i = 0; i < k.a.size(); ++i) k.a[i] = 0.02 * ((i % 2) ? 1 : -1); k.a[0] = 1; }
        }
    }
    return c;
}

// reference: keeps the entire history since the last reset
struct Ref {
    const Cfg &c; V x, y;
    explicit Ref(const Cfg &c_) : c(c_) {}
    double put(double v) {
        x.push_back(v); long n = (long)x.size() - 1; double s = 0;
        for (long i = 0; i < (long)c.b.size(); ++i) if (n - i >= 0) s += c.b[i] * x[n - i];
        for (long i = 1; i < (long)c.a.size(); ++i) if (n - i >= 0) s -= c.a[i] * y[n - i];
        y.push_back(s); return s;
    }
    void reset() { x.clear(); y.clear(); }
    uint64_t hash(int ci) const { mc::Hash h("F"); h.i(ci).i((long)x.size());
        for (long k = 1; k <= 22 && k <= (long)x.size(); ++k) h.d(x[x.size() - k]); return h; }
};

static unique_ptr<Filter> make(const Cfg &c) { Filter::Parameters p; p.a = c.a; p.b = c.b; return unique_ptr<Filter>(new Filter(p)); }

static void feed(Filter &f, Ref &r, const V &in) {
    V out(in.size()), src(in);
    f.process(src.data(), out.data(), (int)in.size());
    mc::step();
    for (size_t i = 0; i < in.size(); ++i) mc::check_close(out[i], r.put(in[i]), 1e-9, "difference-equation", "output", (long)i);
    for (size_t i = 0; i < in.size(); ++i) if (src[i] != in[i]) mc::fail("input-modified", "input sample %zu changed", i);
}

// all call histories over {process(k samples) for k in a chunk alphabet crossing the internal buffer wrap, reset}
MC_SCENARIO(histories, "19 coefficient sets (FIR orders 0..64, IIR orders 0..45); every sequence of 4 (thorough 5) calls from {process 0,1,2,7,19,20,21,22,41,64 samples; reset}", 2, 64) {
    int ci = mc::choose((int)cfgs().size(), "cfg"); const Cfg &c = cfgs()[ci];
    static const int sz[] = {1, 2, 0, 7, 19, 20, 21, 22, 41, 64};
    unique_ptr<Filter> f = make(c); Ref r(c); long t = 0;
    mc::logf("%s", c.name);
    mc::require(f->getOrder() == (int)c.b.size() - 1, "order", "getOrder()=%d for %zu coefficients", f->getOrder(), c.b.size());
    int depth = mc::tiered(4, 5);
    for (int d = 0; d < depth; ++d) {
        int op = mc::choose(11, "op");
        if (op == 10) { f->reset(); r.reset(); mc::step(); mc::logf("reset"); }
        else { V in; for (int i = 0; i < sz[op]; ++i) in.push_back(mc::wave(t++, 1)); mc::logf("process %d", sz[op]); feed(*f, r, in); }
        mc::state(r.hash(ci));
    }
}

// all input words over {-1,0,1} and all ways of cutting them into calls
MC_SCENARIO(words, "6 coefficient sets; every input word in {0,1,-1}^6 (thorough ^7), every composition of the word into consecutive process() calls, then 25 zeros", 3, 32) {
    static const int which[] = {1, 3, 5, 6, 7, 8};
    int ci = mc::pick(which, "cfg"); const Cfg &c = cfgs()[ci];
    int n = mc::tiered(6, 7); V w; for (int i = 0; i < n; ++i) { static const double al[] = {0, 1, -1}; w.push_back(mc::pick(al, "x")); }
    unique_ptr<Filter> f = make(c); Ref r(c);
    V cur;
    for (int i = 0; i < n; ++i) { cur.push_back(w[i]); if (i == n - 1 || mc::choose(2, "cut")) { feed(*f, r, cur); cur.clear(); mc::state(r.hash(ci)); } }
    feed(*f, r, V(25, 0.0));
    mc::Hash h; h.vec(r.y); mc::outcome(h);
}

// two filters alive at once never influence each other; long runs stay equal to the reference
MC_SCENARIO(pairs, "every ordered pair of coefficient sets, 6 (thorough 8) interleaved calls chosen between the two, chunk 13, then 200 samples one by one", 2, 32) {
    int a = mc::choose((int)cfgs().size(), "A"), b = mc::choose((int)cfgs().size(), "B");
    unique_ptr<Filter> fa = make(cfgs()[a]), fb = make(cfgs()[b]); Ref ra(cfgs()[a]), rb(cfgs()[b]); long t = 0;
    for (int d = 0; d < mc::tiered(6, 8); ++d) {
        int w = mc::choose(2, "which"); V in; for (int i = 0; i < 13; ++i) in.push_back(mc::wave(t++, 2));
        if (w) feed(*fb, rb, in); else feed(*fa, ra, in);
        mc::state(mc::mix(ra.hash(a), rb.hash(b)));
    }
    for (int i = 0; i < 200; ++i) feed(*fa, ra, V(1, mc::wave(t++, 3)));
}

MC_SCENARIO(construction, "every (|b|,|a|) in 0..4 x 0..4: constructor throws logic_error exactly on the documented bad combinations", 0, 1) {
    int nb = mc::choose(5, "nb"), na = mc::choose(5, "na");
    Filter::Parameters p; for (int i = 0; i < nb; ++i) p.b.push_back(1 + i); for (int i = 0; i < na; ++i) p.a.push_back(i ? 0.1 : 1);
    bool bad = na == 0 ? nb == 0 : na != nb, threw = false;
    try { Filter f(p); mc::step(); V in(50, 1.0), out(50); f.process(in.data(), out.data(), 50); } catch (logic_error &) { threw = true; }
    mc::state(mc::Hash("c").i(nb).i(na));
    mc::require(threw == bad, "construction", "|b|=%d |a|=%d: %s", nb, na, threw ? "threw" : "did not throw");
    if (!bad) mc::leak_check("leak", [&] { Filter f(p); V in(50, 1.0), out(50); f.process(in.data(), out.data(), 50); f.reset(); });
}

// linearity over the whole useful range: nothing is flushed, clipped or rounded to a coarser type
MC_SCENARIO(scales, "19 coefficient sets x 13 scales 2^-80..2^80: 120 samples (dense, or an impulse and its tail) in blocks of 1, 17, 120", 1, 16) {
    int ci = mc::choose((int)cfgs().size(), "cfg"); const Cfg &c = cfgs()[ci]; static const int E[] = {0, -80, -60, -50, -40, -30, -20, -10, 10, 30, 50, 64, 80}; int e = mc::pick(E, "scale"); bool imp = mc::choose(2, "impulse"); static const int B[] = {120, 1, 17}; int bl = mc::pick(B, "block"); unique_ptr<Filter> f = make(c); Ref r(c);
    for (int i = 0; i < 120; i += bl) { V in; for (int k = i; k < min(120, i + bl); ++k) in.push_back(ldexp(imp ? k == 3 : mc::wave(k, 5), e)); V out(in.size()); f->process(in.data(), out.data(), (int)in.size()); mc::step(); for (size_t k = 0; k < in.size(); ++k) { double w = r.put(ldexp(in[k], -e)); mc::check_close(ldexp(out[k], -e), w, 1e-9, "difference-equation", "output", i + (long)k); if (imp && fabs(w) > 1e-18 && fabs(w) < 1e-6) mc::require(fabs(ldexp(out[k], -e) / w - 1) < 1e-3, "tail", "impulse response sample %ld is %g, expected %g", i + (long)k, ldexp(out[k], -e), w); } }
    mc::state(mc::Hash("s").i(ci).i(e).i(imp).i(bl));
}
MC_SCENARIO(long_blocks, "19 coefficient sets: one call of 4095, 4096, 4097, 40000, 70000 samples followed by a short one", 1, 16) {
    int ci = mc::choose((int)cfgs().size(), "cfg"); const Cfg &c = cfgs()[ci]; static const int L[] = {4096, 4095, 4097, 40000, 70000}; int n = mc::pick(L, "n"); unique_ptr<Filter> f = make(c); Ref r(c); V a(n), b(50); for (int i = 0; i < n; ++i) a[i] = mc::wave(i, 6); for (int i = 0; i < 50; ++i) b[i] = mc::wave(i, 7); feed(*f, r, a); feed(*f, r, b); mc::state(mc::Hash("L").i(ci).i(n));
}
MC_SCENARIO(high_orders, "orders 100, 127..129, 200, 255..257, 300, 511..513, 1000, 1024, 4097, as FIR, IIR and FIR with trailing zeros x blocks of 1, 64, order, order + 1 and everything at once: four orders' worth of samples, reset, and half as many again", 2, 30) {
    static const int N[] = {128, 100, 127, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4097}; int n = mc::pick(N, "order"), kind = mc::choose(3, "kind"), bk = mc::choose(5, "block"); if (n == 4097 && bk == 0) bk = 4; Cfg c; c.name = "high"; for (int i = 0; i <= n; ++i) { c.b.push_back(kind == 2 && i > n / 2 ? 0 : mc::wave(i, 3)); if (kind == 1) c.a.push_back(i ? 0.9 / n * mc::wave(i, 4) : 1); }
    unique_ptr<Filter> f = make(c); Ref r(c); int total = n > 1100 ? 3 * n : 4 * n, bl = bk == 0 ? 1 : bk == 1 ? 64 : bk == 2 ? n : bk == 3 ? n + 1 : total; if (f->getOrder() != n) mc::fail("order", "order %d, expected %d", f->getOrder(), n);
    auto go = [&](int len, int seed) { for (int i = 0; i < len; i += bl) { V in; for (int k = i; k < min(len, i + bl); ++k) in.push_back(mc::wave(k, seed)); feed(*f, r, in); } }; go(total, 5); f->reset(); r.reset(); go(total / 2, 8); mc::state(mc::Hash("ho").i(n).i(kind).i(bk));
}
NEIGHBOURS("9 filters that differ in one coefficient, the order or FIR/IIR") {
    struct P { std::vector<double> a, b; }; static const P p[] = {{{}, {0.5, 0.25, 0.1}}, {{}, {0.5, 0.25, 0.2}}, {{}, {0.4, 0.25, 0.1}}, {{}, {0.5, 0.25, 0.1, 0.05}}, {{1, 0, 0}, {0.5, 0.25, 0.1}}, {{1, -0.5, 0.2}, {0.5, 0.25, 0.1}}, {{1, -0.5, 0.1}, {0.5, 0.25, 0.1}}, {{1, -0.4, 0.2}, {0.5, 0.25, 0.1}}, {{1, -0.5, 0.2}, {0.5, 0.25, 0.2}}};
    for (auto &q : p) v.add("filter " + std::to_string(&q - p), [q] { Filter::Parameters k; k.a = q.a; k.b = q.b; Filter f(k); nb::V x = nb::sig(70), y(70); f.process(x.data(), y.data(), 30); f.process(x.data() + 30, y.data() + 30, 40); return y; });
}
