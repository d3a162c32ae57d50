// C13: Resampler output is windowed-sinc interpolation of the stream: independent of chunking, bounded per call.
#include "mc.h"
#include "refdsp.h"
#include "dsp/rateconversion/Resampler.h"
#include <stdexcept>
#include <memory>
#include <map>
#include "neighbours.h"
using ref::V;
static double I0(double x) { double s = 1, t = 1; for (int k = 1; k < 200; ++k) { t *= (x / 2 / k) * (x / 2 / k); s += t; } return s; }
static long gcdl(long a, long b) { while (b) { long c = a % b; a = b; b = c; } return a; }
struct Spec { long in, out; double scale; V filt; long h, lat; // in/out: spacing of source/target samples on the filter grid
    Spec(long s, long t, double snr, double bw) { long g = gcdl(s, t), hi = std::max(s, t) / g; in = t / g; out = s / g; double peak = hi; if (t < s) peak /= 1 - bw / 2;
        double tr = bw * 2 * M_PI / hi; long len = 1 + (long)(snr > 21 ? std::ceil((snr - 7.95) / (2.285 * tr)) : std::ceil(5.79 / tr)); double beta = snr > 50 ? 0.1102 * (snr - 8.7) : snr > 21 ? 0.5842 * std::pow(snr - 21, 0.4) + 0.07886 * (snr - 21) : 0;
        if (len % 2 == 0) ++len; if (len > 200001) len = 200001; h = len / 2; double d = I0(beta); for (long i = 0; i < len; ++i) { double x = (i - h) * M_PI / peak, r = 2.0 * i / (len - 1) - 1; filt.push_back((i == h ? 1 : std::sin(x) / x) * I0(beta * std::sqrt(std::max(0.0, 1 - r * r))) / d); } scale = in / peak; lat = (len - h + out - 1) / out; }
    double y(const V &x, long j) const { // output j of the stream, from the definition
        double s = 0; long pos = (j - lat) * out; for (long i = 0; i < (long)x.size(); ++i) { long k = h + i * in - pos; if (k >= 0 && k < (long)filt.size()) s += x[i] * filt[k]; } return s * scale; }
    long need(long j) const { // first number of inputs after which output j depends on no future input
        long pos = (j - lat) * out + h; return pos < 0 ? 0 : pos / in + 1; }
};
static const Spec &spec(long s, long t, double snr, double bw) { static std::map<std::vector<double>, Spec *> c; std::vector<double> k = {(double)s, (double)t, snr, bw}; Spec *&p = c[k]; if (!p) p = new Spec(s, t, snr, bw); return *p; }
struct Stream { Resampler &r; const Spec &sp; long s, t; V x; long got; bool vec;
    Stream(Resampler &r_, const Spec &p, long s_, long t_) : r(r_), sp(p), s(s_), t(t_), got(0), vec(false) {}
    void put(const V &in) {
        long cap = (long)std::ceil((double)in.size() * t / s); V src(in), out(cap + 2, 77.0); long n; mc::step();
        if (vec) { V o = r.process(src.data(), (int)src.size()); n = (long)o.size(); if (n > cap) mc::fail("count", "%ld samples returned from %zu inputs; documented maximum %ld", n, in.size(), cap); for (long i = 0; i < n; ++i) out[i + 1] = o[i]; }
        else { n = r.process(src.data(), out.data() + 1, (int)src.size()); if (n < 0 || n > cap) mc::fail("count", "%ld samples returned from %zu inputs; documented maximum %ld", n, in.size(), cap); for (long i = n; i <= cap; ++i) if (out[i + 1] != 77.0) mc::fail("overrun", "wrote beyond the reported %ld samples", n); if (out[0] != 77) mc::fail("overrun", "wrote before dst"); }
        if (src != in) mc::fail("input-modified", "input changed"); x.insert(x.end(), in.begin(), in.end());
        for (long i = 0; i < n; ++i) { mc::check_close(out[i + 1], sp.y(x, got), 1e-6, "interpolated", "output", got); if (sp.need(got) > (long)x.size()) mc::fail("premature", "output %ld was produced from %zu inputs although it depends on later ones", got, x.size()); ++got; }
        // no output may be withheld: floor(N*t/s) samples must have appeared after N inputs
        long due = (long)std::floor((double)x.size() * t / s); mc::require(got >= due, "withheld", "only %ld outputs after %zu inputs at ratio %ld/%ld", got, x.size(), t, s);
    } };
struct Rate { long s, t; }; static const Rate R[] = {{3, 2}, {2, 3}, {1, 1}, {4, 1}, {1, 4}, {5, 7}, {7, 5}, {8, 3}, {3, 8}, {441, 480}, {48000, 44100}, {44100, 16000}, {6, 4}, {2, 1}, {1, 2}};
struct Q { double snr, bw; }; static const Q QS[] = {{40, 0.3}, {100, 0.1}, {15, 0.5}};
MC_SCENARIO(histories, "15 rate pairs x 3 filter qualities; every sequence of 4 (thorough 5) process calls with chunk sizes from {1,0,2,5,13,60}, both overloads", 3, 64) {
    int ri = mc::choose(mc::tiered(9, 15), "rate"); Rate r = R[ri]; Q q = QS[mc::choose(3, "q")]; const Spec &sp = spec(r.s, r.t, q.snr, q.bw); Resampler rs(r.s, r.t, q.snr, q.bw); mc::require(rs.getLatency() == sp.lat, "latency", "getLatency()=%d, filter centre delay is %ld", rs.getLatency(), sp.lat); Stream st(rs, sp, r.s, r.t); static const int C[] = {5, 1, 0, 2, 13, 60}; long t = 0; mc::logf("%ld->%ld", r.s, r.t);
    for (int d = 0; d < mc::tiered(4, 5); ++d) { int k = mc::choose(6, "chunk"); st.vec = (d & 1); V in; for (int i = 0; i < C[k]; ++i) in.push_back(mc::wave(t++, 1)); mc::logf("process %d", C[k]); st.put(in); mc::state(mc::Hash("h").i(ri).d(q.snr).i(t).i(st.got)); }
}
MC_SCENARIO(compositions, "6 rate pairs: every composition of 9 (thorough 11) samples into consecutive calls, then 40 zeros one by one: output stream identical whatever the chunking", 2, 32) {
    Rate r = R[mc::choose(mc::tiered(6, 9), "rate")]; const Spec &sp = spec(r.s, r.t, 40, 0.3); Resampler rs(r.s, r.t, 40, 0.3); Stream st(rs, sp, r.s, r.t); int n = mc::tiered(9, 11); V cur; for (int i = 0; i < n; ++i) { cur.push_back(mc::wave(i, 2)); if (i == n - 1 || mc::choose(2, "cut")) { st.put(cur); cur.clear(); mc::state(mc::Hash("c").i(r.s).i(r.t).i(i).i(st.got)); } } for (int i = 0; i < 40; ++i) st.put(V(1, 0.0));
}
MC_SCENARIO(basis, "15 rate pairs x 3 qualities: impulse at every one of the first 24 input positions, chunk sizes 1 and 7", 1, 15) { Rate r = R[mc::choose(15, "rate")]; Q q = QS[mc::choose(3, "q")]; int pos = mc::choose(24, "pos"); const Spec &sp = spec(r.s, r.t, q.snr, q.bw); Resampler rs(r.s, r.t, q.snr, q.bw); Stream st(rs, sp, r.s, r.t); int c = mc::choose(2) ? 7 : 1; for (int i = 0; i < 98; i += c) { V in(c, 0.0); for (int k = 0; k < c; ++k) if (i + k == pos) in[k] = 1; st.put(in); } mc::state(mc::Hash("b").i(r.s).i(r.t).i(pos).i(c).d(q.snr)); }
MC_SCENARIO(oneoff, "static resample(): 12 rate pairs x every input length 1..40 and 200: length ceil(n*t/s), latency-compensated values", 1, 12) {
    static const Rate O[] = {{3, 2}, {2, 3}, {1, 1}, {4, 1}, {1, 4}, {5, 7}, {7, 5}, {8, 3}, {3, 8}, {16, 11}, {12, 16}, {1000, 999}}; int k = mc::choose(mc::tiered(11, 12), "rate"); Rate r = O[k]; int n = 1 + mc::choose(41, "n"); if (n == 41) n = 200; const Spec &sp = spec(r.s, r.t, 100, 0.02); V x; for (int i = 0; i < n; ++i) x.push_back(mc::wave(i, 3)); V got = Resampler::resample(r.s, r.t, x.data(), n); mc::step(); long want = (long)std::ceil((double)n * r.t / r.s);
    mc::require((long)got.size() == want, "oneoff-length", "%zu samples for %d inputs at %ld/%ld, expected %ld", got.size(), n, r.t, r.s, want); for (long j = 0; j < want; ++j) mc::check_close(got[j], sp.y(x, j + sp.lat), 1e-6, "oneoff", "sample", j); if (r.s == r.t) mc::check_vec(got, x, 1e-6, "identity", "sample"); mc::state(mc::Hash("o").i(k).i(n));
}
MC_SCENARIO(longrun, "9 rate pairs, 6000 samples in chunks of 1, 64, 1000: no withholding, no drift, values at every 37th output", 1, 9) { Rate r = R[mc::choose(9, "rate")]; static const int C[] = {64, 1, 1000}; int c = mc::pick(C, "chunk"); const Spec &sp = spec(r.s, r.t, 40, 0.3); Resampler rs(r.s, r.t, 40, 0.3); V x; long got = 0; for (int i = 0; i < 6000; i += c) { V in; for (int k = 0; k < c; ++k) in.push_back(mc::wave(i + k, 5)); x.insert(x.end(), in.begin(), in.end()); V o = rs.process(in.data(), c); mc::step(); for (double d : o) { if (got % 37 == 0) { long lo = std::max(0L, ((got - sp.lat) * sp.out - sp.h) / sp.in - 2), hi = std::min((long)x.size(), ((got - sp.lat) * sp.out + sp.h) / sp.in + 3); double s = 0; for (long q = lo; q < hi; ++q) { long f = sp.h + q * sp.in - (got - sp.lat) * sp.out; if (f >= 0 && f < (long)sp.filt.size()) s += x[q] * sp.filt[f]; } mc::check_close(d, s * sp.scale, 1e-6, "interpolated", "output", got); } ++got; } mc::require(got >= (long)std::floor((double)x.size() * r.t / r.s) && got <= (long)std::ceil((double)x.size() * r.t / r.s) + sp.lat + 1, "withheld", "%ld outputs after %zu inputs", got, x.size()); } mc::state(mc::Hash("l").i(r.s).i(r.t).i(c)); }
MC_SCENARIO(leaks, "no heap growth", 0, 1) { Rate r = R[mc::choose(6)]; mc::leak_check("leak", [&] { Resampler rs(r.s, r.t, 40, 0.3); V x(50, 1.0); rs.process(x.data(), 50); }); mc::state(mc::Hash("k").i(r.s).i(r.t)); }
static double defn(const Spec &sp, const V &x, long j) { long pos = (j - sp.lat) * sp.out, lo = std::max(0L, (pos - sp.h) / sp.in - 2), hi = std::min((long)x.size(), (pos + sp.h) / sp.in + 3); double s = 0; for (long q = lo; q < hi; ++q) { long k = sp.h + q * sp.in - pos; if (k >= 0 && k < (long)sp.filt.size()) s += x[q] * sp.filt[k]; } return s * sp.scale; }
MC_SCENARIO(long_blocks, "7 rate pairs up to 192000: one call of 70000 samples then one of 300, both overloads, after a call of 10: number and values (every 61st output)", 1, 7) {
    static const Rate B[] = {{48000, 44100}, {44100, 48000}, {44100, 192000}, {192000, 44100}, {3, 2}, {44100, 11025}, {1, 3}}; Rate r = B[mc::choose(7, "rate")]; bool vec = mc::choose(2, "vec"); const Spec &sp = spec(r.s, r.t, 40, 0.3); Resampler rs(r.s, r.t, 40, 0.3); V x; long got = 0; static const int C[] = {10, 70000, 300};
    for (int c : C) { V in; for (int i = 0; i < c; ++i) in.push_back(mc::wave((long)x.size() + i, 4)); x.insert(x.end(), in.begin(), in.end()); long cap = (long)std::ceil((double)c * r.t / r.s); V o; if (vec) o = rs.process(in.data(), c); else { o.resize(cap + 1, 77.0); int n = rs.process(in.data(), o.data(), c); mc::require(n >= 0 && n <= cap && o[cap] == 77, "count", "%d samples from %d inputs, maximum %ld", n, c, cap); o.resize(n); } mc::step(); for (double d : o) { if (got % 61 == 0) mc::check_close(d, defn(sp, x, got), 1e-6, "interpolated", "output", got); ++got; } mc::require(got >= (long)std::floor((double)x.size() * r.t / r.s) && got <= (long)std::ceil((double)x.size() * r.t / r.s) + 2, "withheld", "%ld outputs after %zu inputs at %ld/%ld", got, x.size(), r.t, r.s); }
    mc::state(mc::Hash("B").i(r.s).i(r.t).i(vec));
}
MC_SCENARIO(large_ratios, "nearly equal and coprime rates (44101/44100, 48000/47999, 8000/7999, 1/500, 500/1) with the default quality: filters up to the documented 200001 taps; 700 samples in calls of 100: values of every output", 0, 1) {
    static const Rate B[] = {{8000, 7999}, {7999, 8000}, {44101, 44100}, {1, 500}, {500, 1}, {47999, 48000}}; Rate r = B[mc::choose(mc::tiered(5, 6), "rate")]; const Spec &sp = spec(r.s, r.t, 100, 0.02); Resampler rs(r.s, r.t); mc::require(rs.getLatency() == sp.lat, "latency", "getLatency()=%d, filter centre delay is %ld", rs.getLatency(), sp.lat); V x; long got = 0, n = r.s > 100 * r.t ? 200000 : 700; for (int i = 0; i < n; i += 100) { V in; for (int k = 0; k < 100; ++k) in.push_back(mc::wave(i + k, 9)); x.insert(x.end(), in.begin(), in.end()); V o = rs.process(in.data(), 100); mc::step(); for (double d : o) { if (r.t <= 100 * r.s || got % 53 == 0) mc::check_close(d, defn(sp, x, got), 1e-6, "interpolated", "output", got); ++got; } } mc::state(mc::Hash("G").i(r.s).i(r.t));
}
MC_SCENARIO(scales, "9 rate pairs at 8 scales 2^-80..2^80: 60 samples in calls of 20, exact scaling", 1, 9) {
    Rate r = R[mc::choose(9, "rate")]; static const int E[] = {-80, -60, -40, -20, 20, 40, 64, 80}; int e = mc::pick(E, "scale"); Resampler a(r.s, r.t, 40, 0.3), b(r.s, r.t, 40, 0.3); for (int i = 0; i < 60; i += 20) { V x, y; for (int k = 0; k < 20; ++k) { x.push_back(mc::wave(i + k, 2)); y.push_back(std::ldexp(x[k], e)); } V p = a.process(x.data(), 20), q = b.process(y.data(), 20); for (double &d : q) d = std::ldexp(d, -e); mc::step(2); mc::check_vec(q, p, 1e-12, "scaling", "output"); } mc::state(mc::Hash("S").i(r.s).i(r.t).i(e));
}
MC_SCENARIO(huge_block, "20000001 samples in one call (more than a float can count) then 7 more, for 2/3 (thorough also 3/2, 1/1): number of outputs, and values at every 100003rd and the last 200", 0, 1) {
    static const Rate B[] = {{2, 3}, {3, 2}, {1, 1}}; Rate r = B[mc::choose(mc::tiered(1, 3), "rate")]; const Spec &sp = spec(r.s, r.t, 20, 0.4); Resampler rs(r.s, r.t, 20, 0.4); V x(20000001); for (size_t i = 0; i < x.size(); ++i) x[i] = (double)((i * 7919) % 1009) / 1009 - 0.5; V o = rs.process(x.data(), (int)x.size()); mc::step(); long got = (long)o.size(), due = (long)std::floor((double)x.size() * r.t / r.s); mc::require(got >= due && got <= due + 1, "withheld", "%ld outputs after %zu inputs", got, x.size());
    for (long j = 0; j < got; j += j + 200 < got && (j + 100003) < got - 200 ? 100003 : j < got - 200 ? got - 200 - j : 1) mc::check_close(o[j], defn(sp, x, j), 1e-6, "interpolated", "output", j); V().swap(o); V in; for (int i = 0; i < 7; ++i) { in.push_back(i - 2.5); } x.insert(x.end(), in.begin(), in.end()); o = rs.process(in.data(), 7); mc::step(); for (size_t j = 0; j < o.size(); ++j) mc::check_close(o[j], defn(sp, x, got + (long)j), 1e-6, "interpolated", "output", got + (long)j); due = (long)std::floor((double)x.size() * r.t / r.s); mc::require(got + (long)o.size() >= due, "withheld", "%ld outputs after %zu inputs", got + (long)o.size(), x.size()); mc::state(mc::Hash("H").i(r.s).i(r.t));
}
MC_SCENARIO(many_phases, "coprime rates with 32749 to 96001 phases (32767/32768/32769, 65535/65536/65537, 44100/48001, 44101/96001) x 2 filter qualities, up and down: 300 samples in calls of 20: values of every output", 1, 8) {
    static const Rate B[] = {{44100, 48001}, {32768, 32767}, {32769, 32768}, {65536, 65537}, {65537, 65535}, {48001, 44100}, {44101, 96001}, {32749, 65521}}; Rate r = B[mc::choose(8, "rate")]; bool d = mc::choose(2, "quality") != 0; double snr = d ? 100 : 40, bw = d ? 0.02 : 0.5; const Spec &sp = spec(r.s, r.t, snr, bw); Resampler rs(r.s, r.t, snr, bw); mc::require(rs.getLatency() == sp.lat, "latency", "getLatency()=%d, filter centre delay is %ld", rs.getLatency(), sp.lat); V x; long got = 0;
    for (int i = 0; i < 300; i += 20) { V in; for (int k = 0; k < 20; ++k) in.push_back(mc::wave(i + k, 9)); x.insert(x.end(), in.begin(), in.end()); V o = rs.process(in.data(), 20); mc::step(); mc::require(o.size() <= (size_t)std::ceil(20.0 * r.t / r.s), "count", "%zu samples from 20", o.size()); for (double v : o) { mc::check_close(v, defn(sp, x, got), 1e-6, "interpolated", "output", got); ++got; } mc::require(got >= (long)std::floor((double)x.size() * r.t / r.s), "withheld", "only %ld outputs after %zu inputs", got, x.size()); } mc::state(mc::Hash("MP").i(r.s).i(r.t).i(d));
}
NEIGHBOURS("12 resamplers that differ in one rate, the signal to noise ratio or the bandwidth") {
    struct P { int a, b; double s, w; }; static const P p[] = {{8, 5, 50, 0.1}, {8, 7, 50, 0.1}, {8, 3, 50, 0.1}, {9, 5, 50, 0.1}, {5, 8, 50, 0.1}, {16, 10, 50, 0.1}, {8, 5, 60, 0.1}, {8, 5, 50, 0.2}, {8, 5, 15, 0.1}, {44100, 48000, 50, 0.1}, {44100, 48000, 60, 0.1}, {48000, 44100, 50, 0.1}};
    for (auto &q : p) v.add("resampler " + std::to_string(q.a) + ":" + std::to_string(q.b) + " " + std::to_string(q.s) + " dB " + std::to_string(q.w), [q] { Resampler r(q.a, q.b, q.s, q.w); nb::V x = nb::sig(300), o; nb::app(o, r.process(x.data(), 100)); nb::app(o, r.process(x.data() + 100, 200)); o.push_back(r.getLatency()); if (q.a < 100) nb::app(o, Resampler::resample(q.a, q.b, x.data(), 50)); return o; });
}
