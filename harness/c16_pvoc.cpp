// C16: PhaseVocoder: magnitude/phase of the fft-shifted frame; unwrapped phase congruent and nearest to linear advance.
#include "mc.h"
#include "refcq.h"
#include "dsp/phasevocoder/PhaseVocoder.h"
#include <complex>
#include <memory>
#include "neighbours.h"
using ref::V; typedef std::complex<double> C; typedef std::vector<C> VC;
struct Model { int n, hop; V phase, unw; V slack; void reset() { slack.assign(n / 2 + 1, 1e-6); phase.assign(n / 2 + 1, 0); for (int i = 0; i <= n / 2; ++i) phase[i] = -2 * M_PI * hop * i / n; unw = phase; } };
static double wrap(double d) { return std::remainder(d, 2 * M_PI); }
static void judge(Model &m, const VC &bins, const V &mag, const V &ph, const V &un) {
    for (int i = 0; i <= m.n / 2; ++i) {
        mc::check_close(mag[i], std::abs(bins[i]), 1e-9, "magnitude", "magnitude", i);
        mc::require(ph[i] >= -M_PI - 1e-9 && ph[i] <= M_PI + 1e-9, "phase-range", "phase[%d]=%g", i, ph[i]);
        mc::require(std::abs(std::polar(std::abs(bins[i]), ph[i]) - bins[i]) <= 1e-8 * (1 + std::abs(bins[i])), "phase", "bin %d: phase %g does not reproduce the bin", i, ph[i]);
        m.slack[i] += 1e-15 * std::fabs(un[i]); // rounding of the accumulated sum
        mc::require(std::fabs(wrap(un[i] - ph[i])) < m.slack[i], "unwrapped-congruent", "bin %d: unwrapped %g is not congruent to phase %g", i, un[i], ph[i]);
        double adv = un[i] - m.unw[i] - 2 * M_PI * m.hop * i / m.n;
        mc::require(std::fabs(adv) <= M_PI + m.slack[i], "unwrapped-nearest", "bin %d: unwrapped phase deviates from the expected advance by %g (> pi)", i, adv);
        m.phase[i] = ph[i]; m.unw[i] = un[i];
    }
}
static void timeFrame(PhaseVocoder &p, Model &m, const V &x) { int h = m.n / 2; V in(x), a(h + 1), b(h + 1), c(h + 1); p.processTimeDomain(in.data(), a.data(), b.data(), c.data()); mc::step(); if (in != x) mc::fail("input-modified", "input changed"); VC w(h + 1); for (int k = 0; k <= h; ++k) for (int i = 0; i < m.n; ++i) w[k] += x[(i + h) % m.n] * std::polar(1.0, -2 * M_PI * ((long)i * k % m.n) / m.n); judge(m, w, a, b, c); }
static void freqFrame(PhaseVocoder &p, Model &m, const VC &w) { int h = m.n / 2; V r, i, a(h + 1), b(h + 1), c(h + 1); for (auto &z : w) { r.push_back(z.real()); i.push_back(z.imag()); } V r0(r), i0(i); p.processFrequencyDomain(r.data(), i.data(), a.data(), b.data(), c.data()); mc::step(); if (r != r0 || i != i0) mc::fail("input-modified", "input changed"); judge(m, w, a, b, c); }
MC_SCENARIO(histories, "sizes 2,4,6,8,16 x hops 1,n/2,n,3n/2; every sequence of 5 (thorough 6) calls from {dense time frame, tone frame, silent frame, frequency frame, reset}", 2, 32) {
    static const int S[] = {8, 2, 4, 6, 16}; Model m; m.n = mc::pick(S, "n"); int hs[] = {m.n / 2, 1, m.n, 3 * m.n / 2}; m.hop = mc::pick(hs, "hop"); m.reset(); PhaseVocoder p(m.n, m.hop); mc::Hash hh("h"); hh.i(m.n).i(m.hop);
    for (int d = 0; d < mc::tiered(5, 6); ++d) { int op = mc::choose(5, "op"); mc::logf("op %d", op); hh.i(op); if (op == 4) { p.reset(); m.reset(); mc::step(); continue; } if (op == 3) { VC w; for (int i = 0; i <= m.n / 2; ++i) w.push_back(C(mc::wave(i, d), mc::wave(i, d + 7))); freqFrame(p, m, w); } else { V x(m.n); for (int i = 0; i < m.n; ++i) x[i] = op == 0 ? mc::wave(i, d) : op == 1 ? std::cos(2 * M_PI * (i + m.hop * d) * 1.3 / m.n) : 0; timeFrame(p, m, x); } mc::state(hh); }
}
MC_SCENARIO(words, "size 4 and 6, every real frame over {0,1,-1} followed by every second frame pattern of 4", 2, 16) { Model m; m.n = mc::choose(2) ? 6 : 4; m.hop = 2; m.reset(); PhaseVocoder p(m.n, 2); V x; static const double al[] = {0, 1, -1}; for (int i = 0; i < m.n; ++i) x.push_back(mc::pick(al, "x")); timeFrame(p, m, x); int k = mc::choose(4, "second"); V y(x); if (k == 1) for (double &d : y) d = -d; if (k == 2) std::reverse(y.begin(), y.end()); if (k == 3) y[0] += 1; timeFrame(p, m, y); mc::state(mc::Hash("w").vec(x).i(k)); }
MC_SCENARIO(phases, "one bin driven through every pair of phases k*pi/12+0.01 (24 x 24) and a third, size 4 hop 1..3, frequency domain", 1, 16) { Model m; m.n = 4; m.hop = 1 + mc::choose(3, "hop"); m.reset(); PhaseVocoder p(4, m.hop); for (int d = 0; d < 3; ++d) { int k = mc::choose(d == 2 ? 6 : 24, "ph"); double a = k * M_PI / (d == 2 ? 3 : 12) + 0.01; VC w = {std::polar(1.0, a), std::polar(2.0, -a), std::polar(0.5, 2 * a)}; freqFrame(p, m, w); mc::state(mc::Hash("p").d(m.unw[0]).d(m.unw[1])); } }
MC_SCENARIO(tone, "steady tones at every bin of size 32 and hops 4,8,16: after the first frame the unwrapped phase advances by exactly the tone frequency, 40 frames", 1, 8) { Model m; m.n = 32; static const int H[] = {4, 8, 16}; m.hop = mc::pick(H, "hop"); int bin = 2 + mc::choose(13, "bin"); m.reset(); PhaseVocoder p(32, m.hop); double prev = 0; for (int t = 0; t < 40; ++t) { V x(32); for (int i = 0; i < 32; ++i) x[i] = std::cos(2 * M_PI * (i + (double)t * m.hop) * bin / 32); timeFrame(p, m, x); if (t) mc::check_close(m.unw[bin] - prev, 2 * M_PI * bin * m.hop / 32, 1e-7, "tone-advance", "advance", t); prev = m.unw[bin]; } mc::state(mc::Hash("t").i(m.hop).i(bin)); }
MC_SCENARIO(leaks, "no heap growth", 0, 1) { int n = 2 + 2 * mc::choose(4); mc::leak_check("leak", [&] { PhaseVocoder p(n, n / 2); V x(n, 1.0), a(n), b(n), c(n); p.processTimeDomain(x.data(), a.data(), b.data(), c.data()); p.reset(); }); mc::state(n); }
static void bigFrame(PhaseVocoder &p, Model &m, const V &x) { int h = m.n / 2; V in(x), a(h + 1), b(h + 1), c(h + 1); p.processTimeDomain(in.data(), a.data(), b.data(), c.data()); mc::step(); VC w(h + 1); static std::vector<C> tw; if ((int)tw.size() != m.n) { tw.clear(); for (int i = 0; i < m.n; ++i) tw.push_back(std::polar(1.0, -2 * M_PI * i / m.n)); } for (int k = 0; k <= h; ++k) { C s = 0; for (int i = 0; i < m.n; ++i) s += x[(i + h) % m.n] * tw[(long)i * k % m.n]; w[k] = s; } judge(m, w, a, b, c); }
MC_SCENARIO(large, "sizes 256, 512, 1000, 1024, 2048 with hops n/4, n/2, 441: 3 dense frames, reset, 1 frame", 1, 5) { static const int S[] = {256, 512, 1000, 1024, 2048}; Model m; m.n = mc::pick(S, "n"); int hs[] = {m.n / 2, m.n / 4, 441}; m.hop = mc::pick(hs, "hop"); m.reset(); PhaseVocoder p(m.n, m.hop); for (int t = 0; t < 4; ++t) { if (t == 3) { p.reset(); m.reset(); } V x(m.n); for (int i = 0; i < m.n; ++i) x[i] = mc::wave(i, t); bigFrame(p, m, x); } mc::state(mc::Hash("L").i(m.n).i(m.hop)); }
MC_SCENARIO(longrun, "sizes 4, 8, 16 x hops 1, n/2, n: 4000 frames, dense / tone / alternating silence, then reset and 20 frames: accumulated phase never slips", 1, 9) { static const int S[] = {8, 4, 16}; Model m; m.n = mc::pick(S, "n"); int hs[] = {m.n / 2, 1, m.n}; m.hop = mc::pick(hs, "hop"); int k = mc::choose(3, "kind"); m.reset(); PhaseVocoder p(m.n, m.hop); for (int t = 0; t < 4020; ++t) { if (t == 4000) { p.reset(); m.reset(); } V x(m.n); for (int i = 0; i < m.n; ++i) x[i] = k == 0 ? mc::wave(i + (long)t * m.n, 3) : k == 1 ? std::cos(2 * M_PI * (i + (double)m.hop * t) * 1.3 / m.n) : t % 50 < 25 ? mc::wave(i + t, 2) : 0; timeFrame(p, m, x); } mc::state(mc::Hash("l").i(m.n).i(m.hop).i(k)); }
MC_SCENARIO(scales, "sizes 2, 4, 8, 16 at 10 scales 2^-100..2^100, time and frequency frames: magnitudes scale exactly, phases do not change", 1, 4) { static const int S[] = {8, 2, 4, 16}, E[] = {-100, -80, -60, -40, -20, 20, 40, 60, 80, 100}; int n = mc::pick(S, "n"), e = mc::pick(E, "scale"), h = n / 2; bool fd = mc::choose(2, "freq"); PhaseVocoder p(n, h), q(n, h); for (int t = 0; t < 3; ++t) { V x(n), y(n), s(n), r(n), a(h + 1), b(h + 1), c(h + 1), A(h + 1), B(h + 1), D(h + 1); for (int i = 0; i < n; ++i) { x[i] = mc::wave(i, t); y[i] = mc::wave(i, t + 5); s[i] = std::ldexp(x[i], e); r[i] = std::ldexp(y[i], e); } if (fd) { p.processFrequencyDomain(x.data(), y.data(), a.data(), b.data(), c.data()); q.processFrequencyDomain(s.data(), r.data(), A.data(), B.data(), D.data()); } else { p.processTimeDomain(x.data(), a.data(), b.data(), c.data()); q.processTimeDomain(s.data(), A.data(), B.data(), D.data()); } mc::step(2); for (double &v : A) v = std::ldexp(v, -e); mc::check_vec(A, a, 1e-9, "scaling", "magnitude"); for (int k = 0; k <= h; ++k) { if (a[k] < 1e-9) continue; mc::require(std::fabs(wrap(B[k] - b[k])) < 1e-6, "scaling", "bin %d: phase %g became %g at scale 2^%d", k, b[k], B[k], e); mc::require(std::fabs(wrap(D[k] - c[k])) < 1e-6, "scaling", "bin %d: unwrapped phase %g became %g", k, c[k], D[k]); } } mc::state(mc::Hash("s").i(n).i(e).i(fd)); }
MC_SCENARIO(very_large, "sizes 4096, 8192, 10000, 16384, 32768, 65536, 131072 with hops n/2, n/8, 512: 3 dense frames, a silent frame, a frequency frame, reset, 1 frame", 1, 7) {
    static const int S[] = {8192, 4096, 10000, 16384, 32768, 65536, 131072}; Model m; m.n = mc::pick(S, "n"); int hs[] = {m.n / 2, m.n / 8, 512}; m.hop = mc::pick(hs, "hop"); m.reset(); PhaseVocoder p(m.n, m.hop); int h = m.n / 2;
    static std::map<std::pair<int, int>, VC> cache; for (int t = 0; t < 6; ++t) { if (t == 5) { p.reset(); m.reset(); mc::step(); } if (t == 4) { VC w; for (int i = 0; i <= h; ++i) w.push_back(C(mc::wave(i, t), mc::wave(i, t + 7))); freqFrame(p, m, w); continue; }
        V x(m.n, 0.0); if (t != 3) for (int i = 0; i < m.n; ++i) x[i] = mc::wave(i, t) + 0.3; VC &w = cache[std::make_pair(m.n, t)]; if (w.empty()) { VC y(m.n); for (int i = 0; i < m.n; ++i) y[i] = x[(i + h) % m.n]; if (m.n & (m.n - 1)) { static VC tw; if ((int)tw.size() != m.n) { tw.clear(); for (int i = 0; i < m.n; ++i) tw.push_back(std::polar(1.0, -2 * M_PI * i / m.n)); } for (int k = 0; k <= h; ++k) { C s = 0; for (int i = 0, q = 0; i < m.n; ++i) { s += y[i].real() * tw[q]; q += k; if (q >= m.n) q -= m.n; } w.push_back(s); } } else { w = refcq::fft2(y); w.resize(h + 1); } }
        V in(x), a(h + 1), b(h + 1), c(h + 1); p.processTimeDomain(in.data(), a.data(), b.data(), c.data()); mc::step(); if (in != x) mc::fail("input-modified", "input changed"); judge(m, w, a, b, c); } mc::state(mc::Hash("V").i(m.n).i(m.hop));
}
MC_SCENARIO(marathon, "sizes 4 and 8 x hops n/2, 64 and 441: 70000 (thorough 300000) consecutive frames, dense / tone / alternating silence: the unwrapped phase keeps accumulating", 1, 6) {
    Model m; m.n = mc::choose(2, "n") ? 8 : 4; int hs[] = {m.n / 2, 64, 441}; m.hop = mc::pick(hs, "hop"); int k = mc::choose(3, "kind"); m.reset(); PhaseVocoder p(m.n, m.hop); int T = mc::tiered(70000, 300000);
    for (int t = 0; t < T; ++t) { V x(m.n); for (int i = 0; i < m.n; ++i) x[i] = k == 0 ? mc::wave(i + (long)t * m.n, 3) : k == 1 ? std::cos(2 * M_PI * std::fmod((i + (double)m.hop * t) * 1.3 / m.n, 1.0)) : t % 50 < 25 ? mc::wave(i + t, 2) : 0; timeFrame(p, m, x); } mc::state(mc::Hash("M").i(m.n).i(m.hop).i(k));
}
NEIGHBOURS("9 phase vocoders that differ in frame length or hop") {
    for (int n : {32, 64, 4096}) for (int h : {8, 16, 17}) v.add("PhaseVocoder " + std::to_string(n) + " hop " + std::to_string(h), [n, h] { PhaseVocoder p(n, h); int m = n / 2 + 1; nb::V o, a(m), b(m), c(m); for (int k = 0; k < 3; ++k) { nb::V x = nb::sig(n, k); p.processTimeDomain(x.data(), a.data(), b.data(), c.data()); nb::app(o, a); nb::app(o, b); nb::app(o, c); } return o; });
}
