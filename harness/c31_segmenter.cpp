// C31: ClusterMeltSegmenter: feature extraction, segmentation of the feature sequence, and any history of calls.
#include "mc.h"
#include "refhmm.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
#include "dsp/segmentation/cluster_segmenter.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/transforms/FFT.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/mfcc/MFCC.h"
#include <sstream>
#include <memory>
#include "neighbours.h"
using refhmm::M; using refhmm::V; using refhmm::Mat; typedef std::vector<int> VI;
static unsigned lcg = 1; static int randKind = 0;
extern "C" int __wrap_rand() { lcg = lcg * 1103515245u + 12345u; int v = (int)(lcg >> 1); return randKind < 3 ? v : v % 2 ? RAND_MAX : 1; }
extern "C" void __wrap_srand(unsigned) { lcg = 7 + randKind; }
struct Seg : ClusterMeltSegmenter { Seg(const ClusterMeltSegmenterParams &p) : ClusterMeltSegmenter(p) {} const M &feats() const { return features; } };
typedef ClusterMeltSegmenterParams P;
static P small(feature_types t) { P p; p.featureType = t; p.windowSize = 0.05; p.hopSize = 0.02; p.fmin = 1000; p.nbins = 4; p.nHMMStates = 3; p.nclusters = 2; p.histogramLength = 3; p.neighbourhoodLimit = 2; return p; }
static const feature_types T[] = {FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA, FEATURE_TYPE_MFCC};
static double sample(int kind, int i, int rate) { switch (kind) { case 0: return 0.0; case 1: return 0.5 * std::sin(2 * M_PI * 1500.0 * i / rate); case 2: return 0.4 * mc::wave(i, 5); default: return i % 173 == 7 ? 1.0 : 0.0; } }
static int factorOf(feature_types t, int fs) { int f = fs / (t == FEATURE_TYPE_MFCC ? 22050 : 11025); int d = 1; while (d < f) d *= 2; return std::min(d, 8); }
// mean over half-overlapping whole frames of one window of (decimated) samples; the transforms are checked in their own right
struct RefFeat {
    feature_types t; int fs, win, d; std::unique_ptr<Decimator> dec; std::unique_ptr<ConstantQ> cq; std::unique_ptr<MFCC> mf; std::unique_ptr<FFTReal> fft; int L, K;
    RefFeat(const P &p, int rate) : t(p.featureType), fs(rate), win((int)(p.windowSize * rate + 0.001)), d(factorOf(t, rate)) {
        if (d > 1) dec.reset(new Decimator(win, d));
        if (t == FEATURE_TYPE_MFCC) { MFCCConfig c(rate / d); c.fftsize = 2048; c.nceps = 19; c.want_c0 = true; mf.reset(new MFCC(c)); L = 2048; K = 20; }
        else { CQConfig c; c.FS = rate / d; c.min = p.fmin; c.max = p.fmax; c.BPO = p.nbins; c.CQThresh = 0.0054; cq.reset(new ConstantQ(c)); cq->sparsekernel(); L = cq->getFFTLength(); K = cq->getK(); fft.reset(new FFTReal(L)); }
    }
    V operator()(const V &x) {
        V y(x); if (d > 1) { y.assign(win / d, 0.0); V in(x.begin(), x.begin() + win); dec->process(in.data(), y.data()); }
        int n = (int)y.size(); V s(K, 0.0); int frames = 0;
        for (int o = 0; o == 0 || o + L < n; o += L / 2) {
            V f(L, 0.0); for (int i = 0; i < L && o + i < n; ++i) f[i] = y[o + i];
            if (mf) { V c(K); mf->process(f.data(), c.data()); for (int k = 0; k < K; ++k) s[k] += c[k]; }
            else { V g(L), re(L), im(L), a(K), b(K); for (int i = 0; i < L; ++i) g[i] = f[(i + L / 2) % L] * (0.54 - 0.46 * std::cos(2 * M_PI * i / L)); fft->forward(g.data(), re.data(), im.data()); cq->process(re.data(), im.data(), a.data(), b.data()); for (int k = 0; k < K; ++k) s[k] += std::sqrt(a[k] * a[k] + b[k] * b[k]); }
            ++frames;
        }
        for (double &v : s) v /= frames; return s;
    }
};
static void checkFeature(const V &got, const V &want) { double m = 1; for (double d : want) m = std::max(m, std::fabs(d)); mc::check_vec(got, want, 1e-9 * m, "feature", "feature"); }
MC_SCENARIO(features, "3 feature types x 8 rates (no, 2x, 4x, 8x decimation; non-power-of-two ratio; more than 8x) x 3 window lengths x sequences of 1..3 blocks of window+{0,1,777} samples of silence, tone, noise, clicks: feature = mean magnitude over half-overlapping frames", 3, 72) {
    static const int R[] = {11025, 22050, 44100, 88200, 8000, 33075, 48000, 192000}; P p = small(mc::pick(T, "type")); int fs = mc::pick(R, "rate"); static const double W[] = {0.05, 0.3, 0.6}; p.windowSize = mc::pick(W, "window"); if (p.featureType == FEATURE_TYPE_CHROMA) { p.nbins = 12; p.fmin = 500; }
    Seg s(p); s.initialise(fs); RefFeat r(p, fs); int win = r.win; mc::require(s.getWindowsize() == win, "window", "window %d, expected %d", s.getWindowsize(), win); int n = 1 + mc::choose(mc::tiered(2, 3), "blocks"); mc::Hash h("f"); h.i(p.featureType).i(fs).i(win); int pos = 0;
    for (int b = 0; b < n; ++b) { int k = mc::choose(4, "signal"), e = mc::choose(b ? 2 : 3, "extra"); int len = win + (e == 2 ? 777 : e); V x(len); for (int i = 0; i < len; ++i) x[i] = sample(k, pos + i, fs); pos += win; V x0(x); s.extractFeatures(x.data(), len); mc::step(); mc::require(x == x0, "input-modified", "input changed"); mc::require((int)s.feats().size() == b + 1, "count", "%d features after %d blocks", (int)s.feats().size(), b + 1); checkFeature(s.feats()[b], r(x)); h.i(k).i(e); }
    V y(win - 1, 0.1); s.extractFeatures(y.data(), win - 1); mc::require((int)s.feats().size() == n, "short", "a block shorter than the window produced a feature"); mc::state(h);
}
static void checkSegmentation(const Segmentation &g, int len, int hop, int m, int fs) {
    mc::require(g.nsegtypes == m && g.samplerate == fs, "header", "segmentation has %d types at rate %d, expected %d at %d", g.nsegtypes, g.samplerate, m, fs); mc::require(!g.segments.empty(), "empty", "no segments"); int at = 0, prev = -1;
    for (const Segment &s : g.segments) { mc::require(s.start == at && s.end > s.start && s.end % hop == 0, "contiguous", "segment [%d,%d) after %d (hop %d)", s.start, s.end, at, hop); mc::require(s.type >= 1 && s.type <= m, "type", "type %d of %d", s.type, m); mc::require(s.type != prev, "merged", "adjacent segments both of type %d", prev); at = s.end; prev = s.type; }
    mc::require(at == len * hop, "end", "segmentation ends at %d, expected %d", at, len * hop);
}
static VI assignments(const P &p, const M &f, bool own, int m) { // the C pipeline, called directly
    int n = (int)f.size(), c = (int)f[0].size(); M x(f); for (V &r : x) r.push_back(0); Mat X(x); VI q(n); if (own || p.featureType == FEATURE_TYPE_MFCC) cluster_segment(q.data(), X, n, c, p.nHMMStates, p.histogramLength, m, p.neighbourhoodLimit); else constq_segment(q.data(), X, n, p.nbins, c, p.featureType, p.nHMMStates, p.histogramLength, m, p.neighbourhoodLimit); return q;
}
static void checkAgainst(const Segmentation &g, const VI &q, int hop) { size_t k = 0; for (int i = 0; i < (int)q.size(); ++i) { while (k < g.segments.size() && g.segments[k].end <= i * hop) ++k; mc::require(k < g.segments.size() && g.segments[k].type == q[i], "assignment", "frame %d is in cluster %d but its segment has type %d", i, q[i], k < g.segments.size() ? g.segments[k].type : -1); } }
MC_SCENARIO(given_features, "every word of 3..7 (thorough 9) features over 3 prototypes given with setFeatures, 1..3 clusters through segment() and segment(m), 4 random-number behaviours, histograms of 1 and 3 frames: the segmentation is the run-length form of the clustering", 3, 60) {
    int hl = 1 + 2 * mc::choose(2, "hist"); randKind = mc::choose(hl == 1 ? 2 : 4, "rand"); int m = 1 + mc::choose(3, "m"); bool via = mc::choose(2, "segment(m)"); int n = 3 + mc::choose(mc::tiered(5, 7), "n"); static const V S[] = {{1, 0.2}, {-1, 0.5}, {0.1, 3}}; M f; mc::Hash h("g"); h.i(randKind).i(m).i(via).i(hl); for (int i = 0; i < n; ++i) { int c = mc::choose(3, "f"); V v = S[c]; for (int j = 0; j < 2; ++j) v[j] += 0.05 * mc::wave(2 * i + j, 1); f.push_back(v); h.i(c); }
    P p = small(FEATURE_TYPE_CONSTQ); p.histogramLength = hl; if (!via) p.nclusters = m; Seg s(p); s.initialise(11025); s.setFeatures(f); mc::require(s.feats() == f, "set", "features not stored"); lcg = 3; if (via) s.segment(m); else s.segment(); mc::step(); mc::require(s.getNSegmentTypes() == m, "ntypes", "%d types", s.getNSegmentTypes()); mc::require(s.feats().empty(), "cleared", "features not cleared after segmenting"); checkSegmentation(s.getSegmentation(), n, s.getHopsize(), m, 11025); lcg = 3; checkAgainst(s.getSegmentation(), assignments(p, f, true, m), s.getHopsize()); mc::outcome(mc::Hash("s").i(s.getSegmentation().segments.size())); mc::state(h);
}
enum { INIT, EXTRACT, SET, SEGMENT, SEGMENT1, CLEAR, INIT2, NOPS };
MC_SCENARIO(histories, "every history of 6 (thorough 7) calls from {initialise at 11025, extract three blocks, setFeatures, segment, segment(1), clear, initialise at 22050} for 3 feature types: memory safe, segmentations well-formed and equal to the clustering of the features extracted, all instances leak-free", 4, 64) {
    feature_types t = mc::pick(T, "type"); P p = small(t); randKind = mc::choose(mc::tiered(1, 2), "rand"); long b0 = mc::live_bytes(); mc::Hash h("h"); h.i(t);
    { Seg s(p); std::vector<V> model; bool own = false, ready = false; int fs = 11025, m = 2, block = 0; std::unique_ptr<RefFeat> ref; s.initialise(fs); ready = true; int n = mc::tiered(5, 6);
      for (int o = 0; o < n; ++o) { int op = mc::choose(NOPS, "op"); h.i(op); mc::step();
        switch (op) {
        case INIT: case INIT2: { int r = op == INIT ? 11025 : 22050; if (r != fs && !model.empty()) return; fs = r; s.initialise(fs); ready = !own; break; }
        case EXTRACT: for (int k = 0; k < 3; ++k) { V x(s.getWindowsize()); for (size_t i = 0; i < x.size(); ++i) x[i] = sample((block + k) % 3 + 1, (int)i, fs); s.extractFeatures(x.data(), (int)x.size()); if (ready) model.push_back(s.feats().empty() ? V() : s.feats().back()); } ++block; break;
        case SET: model.assign(4, V(3)); for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) model[i][j] = mc::wave(i * 3 + j, 4) + i / 2; s.setFeatures(model); own = true; ready = false; break;
        case CLEAR: s.clear(); model.clear(); break;
        default: { if (op == SEGMENT1) m = 1; M f(model); lcg = 3; if (op == SEGMENT1) s.segment(1); else s.segment(); ready = false; if (f.size() >= 3) { checkSegmentation(s.getSegmentation(), (int)f.size(), s.getHopsize(), m, fs); lcg = 3; checkAgainst(s.getSegmentation(), assignments(p, f, own, m), s.getHopsize()); model.clear(); } }
        }
        mc::require(s.feats().size() == model.size(), "count", "%d features held after call %d, expected %d", (int)s.feats().size(), o, (int)model.size());
      } }
    (void)b0; mc::state(h);
}
MC_SCENARIO(sections, "sequences of 2 and 3 sections (AB, ABA, ABC) of clearly different features, section lengths 40..60 frames, default clustering parameters with 2..4 clusters, 3 random seeds: the segmentation is the run-length form of the clustering", 2, 20) {
    randKind = mc::choose(3, "rand"); static const char *W[] = {"AB", "ABA", "ABC"}; const char *w = mc::pick(W, "form"); int len = 40 + 10 * mc::choose(3, "len"), m = 2 + mc::choose(3, "m"); if (w[2] == 'C' && m < 3) return; M f; for (const char *c = w; *c; ++c) for (int i = 0; i < len; ++i) { V v(4); int t = (int)f.size(); for (int j = 0; j < 4; ++j) v[j] = (j == *c - 'A' ? 8.0 : 0) + 0.5 * mc::wave(t * 4 + j, 2); f.push_back(v); }
    P p; p.nHMMStates = 6; p.nclusters = m; Seg s(p); s.initialise(11025); s.setFeatures(f); lcg = 3; s.segment(); mc::step(); checkSegmentation(s.getSegmentation(), (int)f.size(), s.getHopsize(), m, 11025); mc::outcome(mc::Hash("s").i(s.getSegmentation().segments.size()));
    lcg = 3; checkAgainst(s.getSegmentation(), assignments(p, f, true, m), s.getHopsize()); mc::state(mc::Hash("s").i(randKind).i(len).i(m).i(w[1]).i(w[2]));
}
MC_SCENARIO(sizes, "every combination of 12 rates, 41 window durations (0 to 2 s) and 121 hop durations (0 to 1.2 s): whole samples", 1, 12) { static const int R[] = {8000, 11025, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 1, 7}; int fs = mc::pick(R, "rate"); for (int w = 0; w <= 40; ++w) for (int hp = 0; hp <= 120; ++hp) { P p; p.featureType = FEATURE_TYPE_UNKNOWN; p.windowSize = w * 0.05; p.hopSize = hp * 0.01; Seg s(p); s.initialise(fs); mc::step(); mc::require(s.getWindowsize() == (int)((long)w * 5 * fs / 100) && s.getHopsize() == (int)((long)hp * fs / 100), "size", "window %d hop %d for %.2f and %.2f seconds at %d", s.getWindowsize(), s.getHopsize(), p.windowSize, p.hopSize, fs); } mc::state(fs); }
MC_SCENARIO(print, "printing every segmentation of up to 4 segments with 3 boundary steps and 3 types at 2 rates: one line per segment with start and end in seconds to six places", 1, 4) { Segmentation g; g.nsegtypes = 3; g.samplerate = mc::choose(2) ? 44100 : 8; int n = mc::choose(5), at = 0; std::string want = "structure_name : begin_time end_time\n"; static const int D[] = {1, 8, 44103}; for (int i = 0; i < n; ++i) { Segment s; s.type = mc::choose(3); s.start = at; at += mc::pick(D, "len"); s.end = at; g.segments.push_back(s); char b[200]; snprintf(b, sizeof b, "%d:\t%.6f\t%.6f\n", s.type, s.start / (double)g.samplerate, s.end / (double)g.samplerate); want += b; } std::ostringstream o; o << g; mc::step(); mc::require(o.str() == want, "text", "printed \"%s\", expected \"%s\"", o.str().c_str(), want.c_str()); mc::state(mc::Hash("p").i(n).i(at)); }
MC_SCENARIO(reinitialise, "3 feature types x every sequence of 3 rates from 5 (internal rates and FFT sizes differ), with the features cleared or segmented in between: features after re-initialising are those of a new segmenter", 2, 21) {
    static const int R[] = {11025, 44100, 8000, 21000, 96000}; P p = small(mc::pick(T, "type")); p.windowSize = 0.2; if (p.featureType == FEATURE_TYPE_CHROMA) { p.nbins = 12; p.fmin = 500; } bool seg = mc::choose(2, "segment"); Seg s(p); mc::Hash h("R"); h.i(p.featureType).i(seg);
    for (int k = 0; k < 3; ++k) { int fs = mc::pick(R, "rate"); h.i(fs); s.initialise(fs); RefFeat r(p, fs); mc::require(s.getWindowsize() == r.win, "window", "window %d", s.getWindowsize()); for (int b = 0; b < 3; ++b) { V x(r.win); for (int i = 0; i < r.win; ++i) x[i] = sample(1 + (k + b) % 3, i + b * 977, fs); s.extractFeatures(x.data(), r.win); mc::step(); mc::require((int)s.feats().size() == b + 1, "count", "%d features", (int)s.feats().size()); checkFeature(s.feats()[b], r(x)); } if (seg) s.segment(); else s.clear(); } mc::state(h);
}
MC_SCENARIO(leaks, "construct, initialise once or twice, extract, segment or not, delete, for every feature type and rate: no heap growth", 1, 6) { feature_types t = mc::pick(T, "type"); int fs = mc::choose(2) ? 44100 : 11025, inits = 1 + mc::choose(2), seg = mc::choose(3); mc::leak_check("leak", [&] { Seg s(small(t)); for (int i = 0; i < inits; ++i) s.initialise(fs); V x(s.getWindowsize(), 0.0); for (int k = 0; k < 6; ++k) { for (size_t i = 0; i < x.size(); ++i) x[i] = sample(1 + k / 3, (int)i, fs); s.extractFeatures(x.data(), (int)x.size()); } if (seg) s.segment(); if (seg == 2) { s.initialise(fs); s.extractFeatures(x.data(), (int)x.size()); } }); mc::state(mc::Hash("l").i(t).i(fs).i(inits).i(seg)); }
MC_SCENARIO(defaults, "the default parameters (0.6 s windows every 0.2 s, 62 Hz to 16 kHz, 8 bins an octave, 40 states, 10 clusters, 15-frame histograms) for the 3 feature types at 44100 and 48000 Hz on 12 s (thorough 60 s) of audio in alternating sections at amplitudes 1, 1e-3, 1e-7: features and segmentation", 2, 18) {
    P p; p.featureType = mc::pick(T, "type"); int fs = mc::choose(2, "rate") ? 48000 : 44100; static const double A[] = {1, 1e-3, 1e-7}; double a = mc::pick(A, "amp"); if (p.featureType == FEATURE_TYPE_CHROMA) p.nbins = 12; Seg s(p); s.initialise(fs); RefFeat r(p, fs); int win = s.getWindowsize(), hop = s.getHopsize(); mc::require(win == r.win && hop == (int)(p.hopSize * fs + 0.001), "window", "window %d hop %d", win, hop);
    int nf = mc::tiered(60, 300); V x(win); M f; for (int b = 0; b < nf; ++b) { for (int i = 0; i < win; ++i) { int t = b * hop + i, sec = t / (4 * fs) % 3; x[i] = a * (sec == 0 ? 0.5 * std::sin(2 * M_PI * 220.0 * t / fs) + 0.2 * std::sin(2 * M_PI * 3300.0 * t / fs) + 0.01 * mc::wave(t, 1) : sec == 1 ? 0.4 * mc::wave(t, 5) : 0.3 * std::sin(2 * M_PI * 1000.0 * t / fs) + (t % 9973 == 0)); } s.extractFeatures(x.data(), win); V w = r(x); double m = 0; for (double d : w) m = std::max(m, std::fabs(d)); mc::check_vec(s.feats().back(), w, 1e-9 * m, "feature", "feature"); f.push_back(s.feats().back()); }
    mc::step(nf); lcg = 3; s.segment(); checkSegmentation(s.getSegmentation(), nf, hop, p.nclusters, fs); lcg = 3; checkAgainst(s.getSegmentation(), assignments(p, f, false, p.nclusters), hop); mc::outcome(mc::Hash("d").i(s.getSegmentation().segments.size())); mc::state(mc::Hash("D").i(p.featureType).i(fs).d(a));
}
MC_SCENARIO(parameters, "3 feature types x one parameter at a time away from small settings: lowest frequency 62..2000, highest 3000..5000, bins per octave 1..36, 2..30 states, 2..12 clusters, histograms of 1..21 frames, neighbourhoods of 1..40; 45 frames of alternating sections at 22050: features and segmentation", 2, 72) {
    P p = small(mc::pick(T, "type")); p.windowSize = 0.1; p.hopSize = 0.1; if (p.featureType == FEATURE_TYPE_CHROMA) { p.nbins = 12; p.fmin = 500; } static const int FMIN[] = {62, 200, 2000}, FMAX[] = {3000, 5000}, NB[] = {1, 3, 7, 24, 36}, NS[] = {2, 9, 30}, NC[] = {3, 5, 12}, HL[] = {1, 5, 11, 21}, NL[] = {1, 5, 40};
    int k = mc::choose(24, "parameter"); if (k < 3) p.fmin = FMIN[k]; else if (k < 5) p.fmax = FMAX[k - 3]; else if (k < 10) { p.nbins = NB[k - 5]; if (p.nbins == 36) p.fmin = 1500; } else if (k < 13) p.nHMMStates = NS[k - 10]; else if (k < 16) p.nclusters = NC[k - 13]; else if (k < 20) p.histogramLength = HL[k - 16]; else if (k < 23) p.neighbourhoodLimit = NL[k - 20];
    int fs = 22050; Seg s(p); s.initialise(fs); RefFeat r(p, fs); int win = s.getWindowsize(), hop = s.getHopsize(); V x(win); M f; for (int b = 0; b < 45; ++b) { for (int i = 0; i < win; ++i) { int t = b * hop + i, sec = b / 11 % 3; x[i] = sec == 0 ? sample(1, t, fs) + 0.01 * mc::wave(t, 1) : sec == 1 ? sample(2, t, fs) : 0.3 * std::sin(2 * M_PI * 2600.0 * t / fs) + 0.05 * sample(2, t, fs); } s.extractFeatures(x.data(), win); checkFeature(s.feats().back(), r(x)); f.push_back(s.feats().back()); }
    mc::step(45); lcg = 3; s.segment(); checkSegmentation(s.getSegmentation(), 45, hop, p.nclusters, fs); lcg = 3; checkAgainst(s.getSegmentation(), assignments(p, f, false, p.nclusters), hop); mc::outcome(mc::Hash("p").i(s.getSegmentation().segments.size())); mc::state(mc::Hash("P").i(p.featureType).i(k));
}
MC_SCENARIO(long_histories, "1000, 33000 (thorough 66000) features in alternating sections at 11025 and 44100 Hz (positions past 2^15 frames and 2^29 samples), 2 and 3 clusters; 129 (thorough 128, 130, 256, 257) clusters of 400 features: the segmentation is the run-length form of the clustering", 2, 11) {
    static const int N[] = {1000, 33000, 400, 66000, 400, 400, 400, 400}, M_[] = {0, 0, 129, 0, 128, 130, 256, 257}; int k = mc::choose(mc::tiered(3, 8), "size"), n = N[k], m = M_[k] ? M_[k] : 2 + mc::choose(2, "m"), fs = !M_[k] && mc::choose(2, "rate") ? 44100 : 11025; randKind = 0; if (n > 2000 && !mc::thorough() && (m == 2) != (fs == 44100)) return; M f; for (int i = 0; i < n; ++i) { V v(2); int w = i / 250 % 3; for (int j = 0; j < 2; ++j) v[j] = (M_[k] ? 0 : w == 2 ? 5.0 : w == j ? 9.0 : 0) + mc::wave(i * 2 + j, 2); f.push_back(v); }
    P p; p.nHMMStates = M_[k] ? 12 : 3; p.nclusters = m; p.histogramLength = 15; p.neighbourhoodLimit = 5; Seg s(p); s.initialise(fs); s.setFeatures(f); lcg = 3; s.segment(); mc::step(); checkSegmentation(s.getSegmentation(), n, s.getHopsize(), m, fs); mc::outcome(mc::Hash("s").i(s.getSegmentation().segments.size())); lcg = 3; checkAgainst(s.getSegmentation(), assignments(p, f, true, m), s.getHopsize()); mc::state(mc::Hash("lh").i(k).i(m).i(fs));
}
MC_SCENARIO(exact, "3 feature types x windows of m half transform frames (m 1..6) and -1, 0, +1 samples, with and without decimation by 2 and 4: features = mean over the first frame and those that end before the window does", 2, 18) {
    P p = small(mc::pick(T, "type")); if (p.featureType == FEATURE_TYPE_CHROMA) { p.nbins = 12; p.fmin = 500; } int m = 1 + mc::choose(6, "halves"), e = mc::choose(3, "extra") - 1, f = 1 << mc::choose(3, "decimation"), fs = (p.featureType == FEATURE_TYPE_MFCC ? 22050 : 11025) * f; p.windowSize = 0.1; int L = RefFeat(p, fs).L, w = (m * (L / 2) + e) * f; p.windowSize = (double)w / fs;
    Seg s(p); s.initialise(fs); RefFeat r(p, fs); mc::require(s.getWindowsize() == w && r.win == w, "window", "window %d, expected %d", s.getWindowsize(), w); for (int b = 0; b < 2; ++b) { V x(w); for (int i = 0; i < w; ++i) x[i] = sample(1, i + b * 977, fs) * (i < w / 2 ? 1 : 0.2) + 0.1 * mc::wave(i, b); s.extractFeatures(x.data(), w); mc::step(); mc::require((int)s.feats().size() == b + 1, "count", "%d features", (int)s.feats().size()); checkFeature(s.feats()[b], r(x)); } mc::state(mc::Hash("x").i(p.featureType).i(m).i(e).i(f));
}
NEIGHBOURS("10 segmenters that differ in one setting or the rate") {
    struct P { feature_types t; double w, h; int lo, hi, bins, fs; }; static const P p[] = {{FEATURE_TYPE_CONSTQ, 0.05, 0.02, 1000, 4000, 4, 11025}, {FEATURE_TYPE_CONSTQ, 0.05, 0.02, 1000, 4000, 5, 11025}, {FEATURE_TYPE_CONSTQ, 0.05, 0.02, 1100, 4000, 4, 11025}, {FEATURE_TYPE_CONSTQ, 0.05, 0.02, 1000, 3000, 4, 11025}, {FEATURE_TYPE_CONSTQ, 0.05, 0.02, 1000, 4000, 4, 22050}, {FEATURE_TYPE_CONSTQ, 0.1, 0.02, 1000, 4000, 4, 11025}, {FEATURE_TYPE_CHROMA, 0.05, 0.02, 1000, 4000, 4, 11025}, {FEATURE_TYPE_MFCC, 0.05, 0.02, 1000, 4000, 4, 11025}, {FEATURE_TYPE_MFCC, 0.05, 0.02, 1000, 4000, 4, 22050}, {FEATURE_TYPE_MFCC, 0.05, 0.02, 1000, 4000, 4, 44100}};
    for (auto &q : p) v.add("segmenter " + std::to_string(&q - p), [q] { ClusterMeltSegmenterParams c; c.featureType = q.t; c.windowSize = q.w; c.hopSize = q.h; c.fmin = q.lo; c.fmax = q.hi; c.nbins = q.bins; Seg s(c); s.initialise(q.fs); nb::V o; for (int k = 0; k < 2; ++k) { nb::V x = nb::sig(s.getWindowsize(), k); s.extractFeatures(x.data(), (int)x.size()); } for (auto &f : s.feats()) nb::app(o, f); return o; });
}
