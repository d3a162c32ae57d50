// C28: DownBeat: decimated buffering of block-wise audio; beat spectral differences and downbeat choice follow the definition.
#include "mc.h"
#include "refdec.h"
#include "refcq.h"
#include "dsp/tempotracking/DownBeat.h"
#include "neighbours.h"
using ref::V; typedef std::vector<float> F; typedef std::vector<int> VI;
static V dec(int factor, const V &x) { if (factor <= 8) return refdec::decimate(factor, false, x); V y = refdec::decimate(8, false, x); for (double &d : y) d = (float)d; return refdec::decimate(factor / 8, false, y); }
static void checkBuffer(DownBeat &d, int factor, const V &in) { size_t n = 77; const float *b = d.getBufferedAudio(n); V want = in.empty() ? V() : dec(factor, in); mc::require(n == want.size(), "buffer-length", "%zu samples buffered, expected %zu", n, want.size()); V got(b, b + n); mc::check_vec(got, want, 2e-5, "buffer", "buffered audio"); }
MC_SCENARIO(buffering, "factors 1..64 x increments 64,128: every sequence of 4 (thorough 6) calls from {dense block, loud block, silent block, impulse block, resetAudioBuffer}; the buffer is read after every call", 3, 48) {
    static const int FS[] = {16, 1, 2, 4, 8, 32, 64}; int f = mc::pick(FS, "factor"), inc = mc::choose(2, "inc") ? 128 : 64, d = mc::tiered(4, 6); DownBeat db(44100, f, inc); V in; mc::Hash h("b"); h.i(f).i(inc);
    for (int k = 0; k < d; ++k) { int op = mc::choose(5, "op"); h.i(op); mc::step(); if (op == 4) { db.resetAudioBuffer(); in.clear(); } else { F x(inc, 0.f); for (int i = 0; i < inc; ++i) x[i] = (float)(op == 0 ? mc::wave(i, k + 1) : op == 1 ? 50 * mc::wave(i, k + 9) : op == 3 ? (i == (k * 7) % inc) : 0); db.pushAudioBlock(x.data()); in.insert(in.end(), x.begin(), x.end()); } checkBuffer(db, f, in); } mc::state(h);
}
MC_SCENARIO(growth, "100 (thorough 600) blocks pushed, all factors: the whole stream is kept in order across every buffer growth", 1, 7) { static const int FS[] = {16, 1, 2, 4, 8, 32, 64}; int f = mc::pick(FS, "factor"), n = mc::tiered(100, 600); DownBeat db(44100, f, 64); V in; for (int k = 0; k < n; ++k) { F x(64); for (int i = 0; i < 64; ++i) x[i] = (float)mc::wave(k * 64 + i, 3); db.pushAudioBlock(x.data()); mc::step(); in.insert(in.end(), x.begin(), x.end()); } checkBuffer(db, f, in); mc::state(f); }
static V spectrum(const V &x) { int n = (int)x.size(); V m(n / 2); if (n > 512) { refcq::VC z(x.begin(), x.end()); z = refcq::dft(z); for (int k = 0; k < n / 2; ++k) m[k] = std::abs(z[k]); return m; } for (int k = 0; k < n / 2; ++k) { double re = 0, im = 0; for (int i = 0; i < n; ++i) { double a = 2 * M_PI * ((long)k * i % n) / n; re += x[i] * std::cos(a); im -= x[i] * std::sin(a); } m[k] = std::sqrt(re * re + im * im); } return m; }
static V thresh(const V &x) { int n = (int)x.size(); V w(n); for (int i = 0; i < n; ++i) { double s = 0; int c = 0; for (int j = std::max(0, i - 8); j <= std::min(n - 1, i + 7); ++j) { s += x[j]; ++c; } w[i] = std::max(0.0, x[i] - s / c); } return w; }
static double js(V a, V b) { int n = std::min(512, (int)a.size() / 4); double sa = 0, sb = 0, d = 0; for (int i = 0; i < n; ++i) { a[i] += 2.2204e-16; b[i] += 2.2204e-16; sa += a[i]; sb += b[i]; } for (int i = 0; i < n; ++i) { double p = a[i] / sa, q = b[i] / sb, m = (p + q) / 2; d += -m * std::log(m) + 0.5 * p * std::log(p) + 0.5 * q * std::log(q); } return d; }
struct Cfg { float rate; int factor, inc, frame; };
static const Cfg CF[] = {{800, 16, 16, 128}, {1200, 4, 8, 512}, {90, 1, 4, 128}, {2, 1, 1, 2}, {400, 16, 32, 32}};
static void check(DownBeat &db, const Cfg &c, int bpb, const F &audio, const V &beats) {
    VI out(1, -9); db.findDownBeats(audio.data(), audio.size(), beats, out); mc::step(); V sd(1, -1.0); db.getBeatSD(sd); mc::require(out.size() && out[0] == -9 && sd.size() && sd[0] == -1, "append", "previous entries overwritten"); out.erase(out.begin()); sd.erase(sd.begin());
    if (audio.empty()) { mc::require(out.empty() && sd.empty(), "empty", "results without audio"); return; }
    V want, old; std::vector<char> fuzzy; bool oldFuzzy = false, anyFuzzy = false; for (size_t i = 0; i + 1 < beats.size(); ++i) {
        long b = (long)(beats[i] * c.inc / c.factor), e = (long)(beats[i + 1] * c.inc / c.factor); e = std::min(e, (long)audio.size() - 1); e = std::max(e, b); V x(c.frame, 0.0);
        for (long j = 0; j < e - b && j < c.frame; ++j) x[j] = audio[b + j] * 0.5 * (1 - std::cos(2 * M_PI * j / (e - b))); V m = spectrum(x), s = thresh(m); double ms = 0, ss = 0; for (double d : m) ms += d; for (int q = 0; q < std::min(512, (int)s.size() / 4); ++q) ss += s[q]; bool f = ms > 0 && ss < 1e-8 * ms; // a flat spectrum leaves only rounding residue after thresholding
        if (i) { want.push_back(js(old, s)); fuzzy.push_back(f || oldFuzzy); anyFuzzy |= fuzzy.back(); } old = s; oldFuzzy = f; }
    mc::require(sd.size() == want.size(), "sd-count", "%zu differences, expected %zu", sd.size(), want.size()); for (size_t i = 0; i < sd.size(); ++i) if (!fuzzy[i]) mc::check_close(sd[i], want[i], 1e-6, "beat-sd", "beat spectral difference", (long)i); for (double d : sd) mc::require(d >= -1e-9 && d <= std::log(2.0) + 1e-9, "sd-range", "divergence %g outside 0..ln 2", d);
    int ts = bpb ? bpb : 4; V cand(ts, 0.0); for (int b = 0; b < ts; ++b) { int n = 0; for (int k = b - 1; k < (int)want.size(); k += ts) if (k >= 0) { cand[b] += want[k] / ts; ++n; } if (n) cand[b] /= n; }
    double top = *std::max_element(cand.begin(), cand.end()); size_t first = out.empty() ? beats.size() : (size_t)out[0];
    if (!out.empty()) { mc::require(out[0] >= 0 && out[0] < ts && (anyFuzzy || cand[out[0]] >= top - 1e-7), "phase", "first downbeat %d is not where the spectral change is largest", out[0]); }
    else { bool far = false; for (int b = 0; b < ts; ++b) if (cand[b] >= top - 1e-7 && b >= (int)beats.size()) far = true; mc::require(far || anyFuzzy || beats.empty(), "missing", "no downbeats"); }
    size_t k = 0; for (size_t i = first; i < beats.size(); i += ts, ++k) mc::require(k < out.size() && out[k] == (int)i, "interval", "downbeat %zu is not at beat %zu", k, i); mc::require(out.size() == k, "interval", "%zu downbeats, expected %zu", out.size(), k);
}
static F sound(int kind, int n) { F x(n); for (int i = 0; i < n; ++i) x[i] = (float)(kind == 0 ? mc::wave(i, 5) : kind == 1 ? 0 : kind == 2 ? std::sin(2 * M_PI * i * (0.05 + 0.05 * (i / 60 % 3))) : (i % 50 == 0)); return x; }
MC_SCENARIO(beat_words, "2 (thorough 5) configurations x beats per bar 0,1,2,3,5,8: every word of 3 (thorough 5) beat intervals over {0, 10, 25.5, 60, 300} frames on 4 kinds of audio of 300 samples: overlong beats, empty beats, beats past the end", 3, 48) {
    const Cfg &c = CF[mc::choose(mc::tiered(2, 5), "cfg")]; static const int BP[] = {0, 3, 1, 2, 5, 8}; int bpb = mc::pick(BP, "bpb"), kind = mc::choose(4, "sound"), d = mc::tiered(3, 5); static const double IV[] = {10, 0, 25.5, 60, 300}; V beats(1, 3.0); mc::Hash h("w"); for (int i = 0; i < d; ++i) { double v = mc::pick(IV, "interval"); h.d(v); beats.push_back(beats.back() + v); } DownBeat db(c.rate, c.factor, c.inc); if (bpb) db.setBeatsPerBar(bpb); check(db, c, bpb, sound(kind, 300), beats); mc::state(h.i(bpb).i(kind).i(c.frame));
}
MC_SCENARIO(sizes, "5 configurations x 4 sounds: every audio length 0..40 and every number of beats 0..6, and reuse of one object for all of them", 2, 20) { const Cfg &c = CF[mc::choose(5, "cfg")]; int kind = mc::choose(4, "sound"), nb = mc::choose(7, "beats"); DownBeat db(c.rate, c.factor, c.inc); V beats; for (int i = 0; i < nb; ++i) beats.push_back(i * 7.0); for (int n = 0; n <= mc::tiered(40, 90); ++n) { check(db, c, 0, sound(kind, n), beats); check(db, c, 0, sound(0, 60), beats); } mc::state(mc::Hash("s").i(c.frame).i(kind).i(nb)); }
MC_SCENARIO(bars, "bar patterns: every metre 2..7 and every phase; the harmony changes at every bar line; detected downbeats are the bar lines, whichever order setBeatsPerBar is called in", 2, 27) {
    int bpb = 2 + mc::choose(6, "bpb"), ph = mc::choose(bpb, "phase"); const Cfg &c = CF[0]; int len = 60, nb = bpb * 5 + 1; F x(len * nb + 10); for (int i = 0; i < (int)x.size(); ++i) { int beat = i / len, bar = (beat - ph + bpb) / bpb; double f = (bar % 2 ? 5 : 11) / 128.0; x[i] = (float)(std::sin(2 * M_PI * f * i)); } V beats; for (int b = 0; b < nb; ++b) beats.push_back(b * len); DownBeat db(c.rate, c.factor, c.inc); if (mc::choose(2, "again")) { db.setBeatsPerBar(9); VI o; db.findDownBeats(x.data(), x.size(), beats, o); } db.setBeatsPerBar(bpb); check(db, c, bpb, x, beats);
    VI out; db.findDownBeats(x.data(), x.size(), beats, out); mc::require(!out.empty() && out[0] == ph, "bars", "metre %d: first downbeat %d, expected %d", bpb, out.empty() ? -1 : out[0], ph); mc::state(mc::Hash("B").i(bpb).i(ph));
}
MC_SCENARIO(frames, "beat frame size is the next power of two above 1.3 s of downsampled audio: 12 rates/factors; a beat longer than the frame is cut, one shorter is zero padded; rates of one and two downsampled samples a second have the smallest frame", 1, 8) { static const float R[] = {44100, 48000, 22050, 8000, 11025, 16000, 64, 32}; float r = mc::pick(R, "rate"); int f = mc::choose(2, "factor") ? 64 : 32; int t = (int)(r / f * 1.3), fr = 1; while (fr < t) fr *= 2; fr = std::max(fr, 2); Cfg c = {r, f, 64, fr}; DownBeat db(r, f, 64); int n = fr * 3 + 100; F x = sound(0, n); V b; double u = (double)f / 64; b = {0, fr * 0.5 * u, fr * 1.7 * u, fr * 2.9 * u, fr * 3.0 * u}; check(db, c, 0, x, b); mc::state(mc::Hash("f").i(fr).i(f)); }
MC_SCENARIO(leaks, "no heap growth", 0, 1) { static const int FS[] = {1, 4, 16, 64}; int f = mc::pick(FS), m = mc::choose(3); mc::leak_check("leak", [&] { DownBeat db(800, f, 64); F x(64, 0.5f); for (int k = 0; k < 40 * m; ++k) { db.pushAudioBlock(x.data()); if (k == 30) db.resetAudioBuffer(); } size_t n; const float *a = db.getBufferedAudio(n); VI o; V b = {0, 2, 4}; db.findDownBeats(a, n, b, o); }); mc::state(mc::Hash("l").i(f).i(m)); }
MC_SCENARIO(realistic, "44100 and 48000 Hz, decimation 16, increment 512: 20 s (thorough 120 s) of noise, chord changes, speech-like bursts and quiet sound, 0.3..0.7 s beats, 0..7 beats per bar, at amplitudes 1, 1e-4, 30000", 2, 12) {
    Cfg c = {mc::choose(2, "rate") ? 48000.f : 44100.f, 16, 512, 4096}; int kind = mc::choose(3, "sound"); static const int BP[] = {0, 3, 5, 7}; int bpb = mc::pick(BP, "bpb"); static const float A[] = {1, 1e-4f, 30000}; float amp = mc::pick(A, "amp"); int fs = (int)c.rate / 16, n = fs * mc::tiered(20, 120); F x(n); for (int i = 0; i < n; ++i) { double t = (double)i / fs; int bar = (int)(t / 2); x[i] = amp * (float)(kind == 0 ? mc::wave(i, 5) : kind == 1 ? std::sin(2 * M_PI * (100 + 40 * (bar % 5)) * t) + 0.5 * std::sin(2 * M_PI * (250 + 60 * (bar % 3)) * t) + 0.01 * mc::wave(i, 3) : mc::wave(i, 9) * std::exp(-8 * std::fmod(t, 0.5))); } V b(1, 2.0); for (int i = 0; ; ++i) { double nx = b.back() + (0.3 + 0.05 * (i % 9)) * c.rate / c.inc; if (nx * c.inc / c.factor > n + 3000) break; b.push_back(nx); } DownBeat db(c.rate, c.factor, c.inc); if (bpb) db.setBeatsPerBar(bpb); check(db, c, bpb, x, b); mc::state(mc::Hash("r").i(kind).i(bpb).d(amp).d(c.rate));
}
MC_SCENARIO(long_buffering, "increment 512, factors 16, 1, 64 and 8: 1500 (thorough 6000) blocks at amplitudes 1, 1e-5, 32768 with a reset in the middle or not: the whole stream in order", 1, 12) {
    static const int FS[] = {16, 1, 64, 8}; static const double A[] = {1, 1e-5, 32768}; int f = mc::pick(FS, "factor"); double a = mc::pick(A, "amp"); bool reset = mc::choose(2, "reset"); int n = mc::tiered(1500, 6000); DownBeat db(44100, f, 512); V in; for (int k = 0; k < n; ++k) { if (reset && k == n / 3) { db.resetAudioBuffer(); in.clear(); } F x(512); for (int i = 0; i < 512; ++i) x[i] = (float)(a * mc::wave((k * 512 + i) & 0xfffff, 3)); db.pushAudioBlock(x.data()); mc::step(); in.insert(in.end(), x.begin(), x.end()); } size_t m = 0; const float *b = db.getBufferedAudio(m); V want = dec(f, in); mc::require(m == want.size(), "buffer-length", "%zu samples buffered, expected %zu", m, want.size()); for (size_t i = 0; i < m; ++i) mc::check_close(b[i] / a, want[i] / a, 2e-5, "buffer", "buffered audio", (long)i); mc::state(mc::Hash("lb").i(f).d(a).i(reset));
}
MC_SCENARIO(large_frames, "beat frames of 8192 to 65536 samples (96000, 192000, 88200 Hz and undecimated audio) x 3 sounds, 2..7 beats, beats shorter and longer than the frame: the spectral difference is taken over the first 512 bins", 2, 12) {
    struct R { float rate; int factor; }; static const R RS[] = {{96000, 16}, {192000, 16}, {44100, 8}, {22050, 1}, {44100, 1}, {88200, 32}}; const R &r = RS[mc::choose(mc::tiered(4, 6), "rate")]; int kind = mc::choose(3, "sound"); int t = (int)(r.rate / r.factor * 1.3), fr = 1; while (fr < t) fr *= 2; Cfg c = {r.rate, r.factor, 512, fr}; int n = fr * 5; F x(n); for (int i = 0; i < n; ++i) x[i] = (float)(kind == 0 ? mc::wave(i, 5) : kind == 1 ? std::sin(2 * M_PI * i * (0.002 + 0.004 * (i / (fr / 3) % 4))) + 0.4 * std::sin(2 * M_PI * i * (0.03 + 0.05 * (i / (fr / 3) % 5))) + 0.01 * mc::wave(i, 3) : mc::wave(i, 9) * std::exp(-8.0 * (i % (fr / 2)) / fr));
    double u = (double)r.factor / c.inc * fr; V b = {0.01 * u, 0.35 * u, 0.6 * u, 1.8 * u, 2.2 * u, 4.0 * u, 5.5 * u}; DownBeat db(c.rate, c.factor, c.inc); if (kind) db.setBeatsPerBar(kind + 1); check(db, c, kind ? kind + 1 : 0, x, b); mc::state(mc::Hash("lf").i(fr).i(kind).d(r.rate));
}
MC_SCENARIO(many_beats, "200, 300, 1000 and 33000, 66000 beats of 2 to 40 samples x 0, 12, 100, 127..129, 255..257, 300 beats per bar, the same object asked twice: every beat's spectral difference, and every downbeat", 2, 40) {
    static const int NB[] = {300, 200, 1000, 33000, 66000}, BP[] = {12, 0, 100, 127, 128, 129, 255, 256, 257, 300}; int nb = mc::pick(NB, "beats"), bpb = mc::pick(BP, "bpb"); bool tiny = nb > 2000; Cfg c = tiny ? Cfg{2, 1, 1, 2} : CF[2]; int len = tiny ? 2 : 40; F x(len * (nb + 1)); for (int i = 0; i < (int)x.size(); ++i) x[i] = (float)(mc::wave(i, 5) + (i / len % (bpb ? bpb : 4) == 2 ? 4 * mc::wave(i, 9) : 0)); V b; for (int i = 0; i < nb; ++i) b.push_back((double)i * len * c.factor / c.inc); DownBeat db(c.rate, c.factor, c.inc); if (bpb) db.setBeatsPerBar(bpb); check(db, c, bpb, x, b); b.resize(nb / 2); check(db, c, bpb, x, b); mc::state(mc::Hash("mb").i(nb).i(bpb));
}
NEIGHBOURS("6 trackers that differ in rate, decimation, increment or beats per bar") {
    struct P { float fs; int dec, inc, bpb; }; static const P p[] = {{8000, 4, 64, 4}, {16000, 4, 64, 4}, {8000, 2, 64, 4}, {8000, 4, 32, 4}, {8000, 4, 64, 3}, {16000, 8, 64, 4}};
    for (auto &q : p) v.add("downbeat tracker " + std::to_string(&q - p), [q] { DownBeat d(q.fs, q.dec, q.inc); d.setBeatsPerBar(q.bpb); for (int k = 0; k < 60; ++k) { nb::V x = nb::sig(q.inc, k % 7); std::vector<float> a(x.begin(), x.end()); d.pushAudioBlock(a.data()); } size_t len = 0; const float *a = d.getBufferedAudio(len); std::vector<double> beats; for (int k = 0; k < 60; k += 5) beats.push_back(k); std::vector<int> r; d.findDownBeats(a, len, beats, r); nb::V o(r.begin(), r.end()), sd; d.getBeatSD(sd); nb::app(o, sd); return o; });
}
