// C12: Decimator / DecimatorB: anti-alias filter then keep every factor-th sample, state carried across blocks.
#include "mc.h"
#include "refdec.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
#include <memory>
#include <complex>
#include "neighbours.h"
using ref::V;
typedef std::vector<float> VF;
using namespace refdec;

struct Model { // keeps the whole stream since reset
    int factor; bool b; V x; explicit Model(int f, bool b_) : factor(f), b(b_) {}
    V out() const { return decimate(factor, b, x); }
    V block(const V &in) { x.insert(x.end(), in.begin(), in.end()); V y = out(); return V(y.end() - in.size() / factor, y.end()); }
};
template <class D> static V pd(D &d, const V &in, int outn, bool inplace) { V src(in), out(inplace ? in : V(outn, 7.0)); if (inplace) { d.process((const double *)out.data(), out.data()); out.resize(outn); } else { d.process((const double *)src.data(), out.data()); if (src != in) mc::fail("input-modified", "input changed"); } mc::step(); return out; }
template <class D> static V pf(D &d, const V &in, int outn, bool inplace) { VF src(in.begin(), in.end()), out(inplace ? src : VF(outn, 7.f)); if (inplace) { d.process((const float *)out.data(), out.data()); out.resize(outn); } else d.process((const float *)src.data(), out.data()); mc::step(); return V(out.begin(), out.end()); }

// ops: double block, float block, in-place, silent block, impulse block, reset
MC_SCENARIO(histories, "Decimator factors 1,2,4,8 and DecimatorB factors 2,4,8,16; every sequence of 4 (thorough 5) calls from {double, float, in-place double, in-place float, impulse, alternating-sign block; reset}, 3 block lengths", 3, 64) {
    bool b = mc::choose(2, "B"); static const int fa[] = {2, 1, 4, 8}, fb[] = {2, 4, 8, 16}; int f = b ? mc::pick(fb, "factor") : mc::pick(fa, "factor"); static const int ml[] = {1, 3, 8}; int n = f * mc::pick(ml, "blocks");
    std::unique_ptr<Decimator> d(b ? 0 : new Decimator(n, f)); std::unique_ptr<DecimatorB> db(b ? new DecimatorB(n, f) : 0); Model m(f, b); long t = 0;
    mc::require((b ? db->getFactor() : d->getFactor()) == f, "factor", "getFactor() wrong");
    for (int k = 0; k < mc::tiered(4, 5); ++k) {
        int op = mc::choose(b ? 6 : 7, "op"); mc::logf("op %d", op); if (op == 6) { d->resetFilter(); m.x.clear(); mc::step(); continue; }
        V in(n); for (int i = 0; i < n; ++i) in[i] = op == 4 ? (i == 0) : op == 5 ? (i % 2 ? -1 : 1) : (float)mc::wave(t++, 1); bool fl = op == 1 || op == 3, ip = op == 2 || op == 3;
        V got = b ? (fl ? pf(*db, in, n / f, ip) : pd(*db, in, n / f, ip)) : (fl ? pf(*d, in, n / f, ip) : pd(*d, in, n / f, ip));
        mc::check_vec(got, m.block(in), fl ? 3e-6 : 1e-8, "decimated", "output"); mc::state(mc::Hash("h").i(b).i(f).i(n).i(t).vec(got));
    }
}
MC_SCENARIO(words, "every input word in {0,1,-1}^8 as blocks of 8 (factors 2,4,8 of both classes), then two silent blocks", 2, 32) {
    bool b = mc::choose(2, "B"); static const int fs[] = {2, 4, 8}; int f = mc::pick(fs, "f"); V in; static const double al[] = {0, 1, -1}; for (int i = 0; i < 8; ++i) in.push_back(mc::pick(al, "x"));
    Decimator d(8, f); DecimatorB db(8, f); Model m(f, b); for (int k = 0; k < 3; ++k) { V x = k ? V(8, 0.0) : in; mc::check_vec(b ? pd(db, x, 8 / f, false) : pd(d, x, 8 / f, false), m.block(x), 1e-9, "decimated", "output"); } mc::state(mc::Hash("w").i(b).i(f).vec(in));
}
// same stream cut into different block lengths by different objects gives the same output
MC_SCENARIO(blocking, "every composition of 6 (thorough 8) sub-blocks of length factor into blocks, each processed through the object of that length with state carried by a single long object", 1, 8) {
    bool b = mc::choose(2, "B"); static const int fs[] = {2, 4, 8}; int f = mc::pick(fs, "f"); int parts = mc::tiered(6, 8); V x; for (int i = 0; i < parts * f; ++i) x.push_back(mc::wave(i, 4));
    // block length is fixed per object, so compare objects of every divisor block length over the same stream
    int bl = 1 + mc::choose(parts, "block"); if (parts % bl) return; Decimator d(bl * f, f), D(parts * f, f); DecimatorB db(bl * f, f), DB(parts * f, f); V a, w = b ? pd(DB, x, parts, false) : pd(D, x, parts, false);
    for (int i = 0; i < parts; i += bl) { V in(x.begin() + i * f, x.begin() + (i + bl) * f); V o = b ? pd(db, in, bl, false) : pd(d, in, bl, false); a.insert(a.end(), o.begin(), o.end()); } mc::check_vec(a, w, 1e-9, "blocking", "output"); mc::state(mc::Hash("b").i(b).i(f).i(bl));
}
// anti-aliasing: gain of the whole chain measured from the impulse responses at every polyphase offset
MC_SCENARIO(response, "every factor of both classes: full impulse response (all polyphase offsets), gain at 64 frequencies: ~1 in the passband, strongly attenuated above the output Nyquist", 0, 1) {
    bool b = mc::choose(2, "B"); static const int fs[] = {2, 4, 8}; int f = mc::pick(fs, "f"), n = 4096; V h(n + f, 0.0);
    for (int p = 0; p < f; ++p) { V in(n); in[p] = 1; Decimator d(n, f); DecimatorB db(n, f); V o = b ? pd(db, in, n / f, false) : pd(d, in, n / f, false); for (int i = 0; i < n / f; ++i) if (i * f - p >= 0) h[i * f - p] = o[i]; }
    for (int k = 0; k <= 64; ++k) { std::complex<double> g = 0; double w = M_PI * k / 64; for (int i = 0; i < n; ++i) g += h[i] * std::exp(std::complex<double>(0, -w * i)); double a = std::abs(g), edge = 64.0 / f;
        if (b && f > 2) continue;   // a cascade has no single impulse response at intermediate rates
        if (k <= 0.7 * edge) mc::require(a > 0.89 && a < 1.12, "passband", "gain %g at %g of the output Nyquist", a, k / edge);
        if (k >= (b ? 1.5 : 1.25) * edge) mc::require(a < 0.12, "stopband", "gain %g at %g of the output Nyquist", a, k / edge); }
    mc::state(mc::Hash("r").i(b).i(f));
}
MC_SCENARIO(invalid, "DecimatorB with every factor 0..20 and length 0..33: getFactor 0 and process leaves the output alone exactly when the factor is not a power of two >= 2 or does not divide the length", 0, 1) {
    int f = mc::choose(21, "f"), n = mc::choose(34, "n"); DecimatorB d(n, f); bool ok = f >= 2 && (f & (f - 1)) == 0 && n % f == 0; mc::require((d.getFactor() == f) == ok || (f == 0 && !ok), "validity", "factor %d length %d: getFactor()=%d", f, n, d.getFactor());
    V in(n, 1.0), out(n + 1, 42.0); d.process((const double *)in.data(), out.data()); mc::step(); for (int i = ok ? n / f : 0; i <= n; ++i) mc::check_close(out[i], 42, 0, "validity", "output beyond the decimated block", i); mc::state(mc::Hash("i").i(f).i(n));
}
MC_SCENARIO(unsupported, "Decimator with unsupported factors 3,5,6,16: every word in {0,1,-1}^3 spread over two blocks plus dense data: documented plain decimation, no anti-alias filter", 1, 4) {
    static const int fs[] = {3, 5, 6, 16}; int f = mc::pick(fs, "f"), n = 3 * f; Decimator d(n, f); static const double al[] = {0, 1, -1}; V w; for (int i = 0; i < 3; ++i) w.push_back(mc::pick(al, "x")); bool fl = mc::choose(2, "float"), ip = mc::choose(2, "inplace");
    for (int k = 0; k < 3; ++k) { V in(n); for (int i = 0; i < n; ++i) in[i] = k == 2 ? (float)mc::wave(i, 3) : w[(i + k) % 3]; V want; for (int i = 0; i < n; i += f) want.push_back(in[i]); mc::check_vec(fl ? pf(d, in, 3, ip) : pd(d, in, 3, ip), want, 1e-6, "unsupported", "output"); } mc::state(mc::Hash("u").i(f).vec(w));
}
MC_SCENARIO(leaks, "no heap growth per object", 0, 1) { static const int fs[] = {2, 4, 8}; int f = mc::pick(fs); V in(16, 1.0), out(16); mc::leak_check("leak", [&] { Decimator d(16, f); DecimatorB e(16, f); d.process((const double *)in.data(), out.data()); e.process((const double *)in.data(), out.data()); }); mc::state(f); }
MC_SCENARIO(scales, "every factor of both classes: blocks of length 1, 8, 1024 and 32768 x factor, double and float, at 9 scales 2^-80..2^60: the output scales exactly", 1, 16) {
    bool b = mc::choose(2, "B"); static const int fa[] = {2, 4, 8}, L[] = {8, 1, 1024, 32768}, E[] = {0, -80, -60, -45, -30, -15, 15, 30, 60}; int f = mc::pick(fa, "f"), n = f * mc::pick(L, "len"), e = n > 10000 ? 0 : mc::pick(E, "scale"); bool fl = mc::choose(2, "float"); Decimator d(n, f); DecimatorB db(n, f); Model m(f, b);
    for (int k = 0; k < (n > 10000 ? 2 : 3); ++k) { V in(n), s(n); for (int i = 0; i < n; ++i) { in[i] = (float)mc::wave(i, 8 + k); s[i] = std::ldexp(in[i], e); } V got = b ? (fl ? pf(db, s, n / f, false) : pd(db, s, n / f, false)) : (fl ? pf(d, s, n / f, false) : pd(d, s, n / f, false)); for (double &x : got) x = std::ldexp(x, -e); mc::check_vec(got, m.block(in), fl ? 3e-6 : 1e-8, "decimated", "output"); } mc::state(mc::Hash("s").i(b).i(f).i(n).i(e).i(fl));
}
MC_SCENARIO(ragged, "Decimator with every block length 1..40 and factor 1..8: exactly length/factor samples are written, each of them one of the kept ones", 1, 8) {
    static const int fs[] = {2, 4, 8, 1, 3}; int f = mc::pick(fs, "f"), n = 1 + mc::choose(40, "n"); Decimator d(n, f); bool fl = mc::choose(2, "float"); V in(n), out(n + 2, 42.0); for (int i = 0; i < n; ++i) in[i] = (float)mc::wave(i, 2); VF fi(in.begin(), in.end()), fo(n + 2, 42.f); if (fl) { d.process((const float *)fi.data(), fo.data()); out.assign(fo.begin(), fo.end()); } else d.process((const double *)in.data(), out.data()); mc::step();
    V pad(in); while (pad.size() % f) pad.push_back(0); V want = f == 3 ? V() : decimate(f, false, pad); if (f == 3) for (int i = 0; i < n; i += 3) want.push_back(in[i]); for (int i = 0; i < n + 2; ++i) mc::check_close(out[i], i < n / f ? want[i] : 42, i < n / f ? 3e-6 : 0, "ragged", "output", i); mc::state(mc::Hash("g").i(f).i(n).i(fl));
}
MC_SCENARIO(cascades, "DecimatorB with every power-of-two factor 2..4096 and Decimator with 2,4,8: every sequence of 3 calls from {double, float, in-place, impulse, constant block}, blocks of 1 and 5 x factor: every stage keeps its own history however many there are", 2, 24) {
    int k = mc::choose(15, "factor"), ml = mc::choose(2, "len") ? 5 : 1; bool b = k < 12; int f = b ? 2 << k : 2 << (k - 12), n = f * ml; Decimator d(b ? 8 : n, b ? 1 : f); DecimatorB db(b ? n : 8, b ? f : 2); Model m(f, b); long t = 0; mc::Hash h("c"); h.i(k).i(ml);
    for (int c = 0; c < 3; ++c) { int op = mc::choose(5, "op"); V in(n); for (int i = 0; i < n; ++i) in[i] = op == 3 ? (i == n / 3) : op == 4 ? 1 : (float)(mc::wave(t++, 1) + 0.3); V got = b ? (op == 1 ? pf(db, in, ml, false) : pd(db, in, ml, op == 2)) : (op == 1 ? pf(d, in, ml, false) : pd(d, in, ml, op == 2)); mc::check_vec(got, m.block(in), op == 1 ? 3e-6 : 1e-8, "decimated", "output"); mc::state(h.i(op)); }
}
NEIGHBOURS("21 decimators of either kind that differ in length or factor") {
    for (int n : {64, 128, 4096}) for (int f : {1, 2, 4, 8}) { v.add("Decimator " + std::to_string(n) + "/" + std::to_string(f), [n, f] { Decimator d(n, f); nb::V x = nb::sig(n), y(n / f); nb::V o; for (int k = 0; k < 2; ++k) { d.process(x.data(), y.data()); nb::app(o, y); } return o; }); if (f > 1) v.add("DecimatorB " + std::to_string(n) + "/" + std::to_string(f), [n, f] { DecimatorB d(n, f); nb::V x = nb::sig(n), y(n / f); nb::V o; for (int k = 0; k < 2; ++k) { d.process(x.data(), y.data()); nb::app(o, y); } return o; }); }
}
