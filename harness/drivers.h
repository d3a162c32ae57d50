// One small deterministic driver per public component: construct, three calls with fixed inputs, destroy.
#pragma once
#include "mc.h"
#include "refhmm.h"
#include "base/Window.h"
#include "base/KaiserWindow.h"
#include "base/SincWindow.h"
#include "base/Pitch.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/keydetection/GetKeyMode.h"
#include "dsp/mfcc/MFCC.h"
#include "dsp/onsets/DetectionFunction.h"
#include "dsp/onsets/PeakPicking.h"
#include "dsp/phasevocoder/PhaseVocoder.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
#include "dsp/rateconversion/Resampler.h"
#include "dsp/rhythm/BeatSpectrum.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
#include "dsp/segmentation/cluster_segmenter.h"
#include "dsp/signalconditioning/DFProcess.h"
#include "dsp/signalconditioning/FiltFilt.h"
#include "dsp/signalconditioning/Filter.h"
#include "dsp/signalconditioning/Framer.h"
#include "dsp/tempotracking/DownBeat.h"
#include "dsp/tempotracking/TempoTrack.h"
#include "dsp/tempotracking/TempoTrackV2.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
#include "dsp/transforms/DCT.h"
#include "dsp/transforms/FFT.h"
#include "dsp/wavelet/Wavelet.h"
#include "hmm/hmm.h"
#include "maths/pca/pca.h"
#include "maths/Correlation.h"
#include "maths/CosineDistance.h"
#define TPolyFit TPolyFitHarness // the header defines non-inline functions that the library defines too
#include "maths/Polyfit.h"
#include "maths/KLDivergence.h"
#include "maths/MathUtilities.h"
#include "maths/MedianFilter.h"
#include "thread/BlockAllocator.h"
#include <memory>
#include <string>
namespace drv {
typedef std::vector<double> V; typedef std::vector<V> M;
struct Drv { virtual ~Drv() {} virtual void step(int i, V &out) = 0; };
inline V sig(int n, int seed) { V x(n); for (int i = 0; i < n; ++i) x[i] = 0.6 * std::sin(0.05 * (seed + 2) * i) + 0.3 * mc::wave(i, seed + 1) + (i % 37 == seed ? 0.7 : 0); return x; }
inline V pos(int n, int seed) { V x = sig(n, seed); for (double &d : x) d = std::fabs(d) + 0.05; return x; }
inline void app(V &o, const V &x) { o.insert(o.end(), x.begin(), x.end()); }
static const int NC = 4; // configurations per component
template <class T> inline T sel(int c, T a, T b, T d, T e) { return c == 0 ? a : c == 1 ? b : c == 2 ? d : e; }
#define DRV(Name) struct Name : Drv
DRV(DFilter) { Filter f; static Filter::Parameters p(int c) { Filter::Parameters q; if (c == 0) { q.a = {1, -0.6, 0.2}; q.b = {0.3, 0.2, 0.1}; } else if (c == 1) q.b = {0.5, 0.25, -0.125, 0.1, 0.05}; else if (c == 2) { q.a = {1, -0.5, 0.3, -0.2, 0.1, 0.05, -0.02}; q.b = {0.2, 0.1, 0.1, 0.2, -0.1, 0.05, 0.3}; } else { q.a = {1}; q.b = {0.7}; } return q; } DFilter(int c) : f(p(c)) {} void step(int i, V &o) { int n = 20 + 13 * i; V x = sig(n, i), y(n); f.process(x.data(), y.data(), n); app(o, y); if (i == 1) f.reset(); } };
DRV(DFiltFilt) { FiltFilt f; DFiltFilt(int c) : f(DFilter::p(c)) {} void step(int i, V &o) { int n = 40 + 20 * i; V x = sig(n, i), y(n); f.process(x.data(), y.data(), n); app(o, y); } };
DRV(DDecimator) { int f; Decimator d; DDecimator(int c) : f(sel(c, 2, 8, 4, 1)), d(64, f) {} void step(int i, V &o) { V x = sig(64, i), y(64 / f); if (i < 2) d.process(x.data(), y.data()); else { std::vector<float> a(x.begin(), x.end()), b(64 / f); d.process(a.data(), b.data()); y.assign(b.begin(), b.end()); d.resetFilter(); } app(o, y); } };
DRV(DDecimatorB) { int f; DecimatorB d; DDecimatorB(int c) : f(sel(c, 2, 8, 4, 16)), d(64, f) {} void step(int i, V &o) { V x = sig(64, i), y(64 / f); if (i < 2) d.process(x.data(), y.data()); else { std::vector<float> a(x.begin(), x.end()), b(64 / f); d.process(a.data(), b.data()); y.assign(b.begin(), b.end()); } app(o, y); } };
DRV(DResampler) { int a, b; Resampler r; DResampler(int c) : a(sel(c, 8, 3, 4, 1)), b(sel(c, 5, 8, 8, 1)), r(a, b, sel(c, 50, 50, 40, 30), sel(c, 0.1, 0.1, 0.2, 0.3)) {} void step(int i, V &o) { V x = sig(40 + 7 * i, i); app(o, r.process(x.data(), (int)x.size())); if (i == 2) app(o, Resampler::resample(a, b, x.data(), 30)); } };
DRV(DFFT) { int n; FFT f; DFFT(int c) : n(sel(c, 32, 30, 154, 81)), f(n) {} void step(int i, V &o) { V x = sig(n, i), z = sig(n, i + 1), re(n), im(n); f.process(i == 2, x.data(), i == 1 ? 0 : z.data(), re.data(), im.data()); app(o, re); app(o, im); } };
DRV(DFFTReal) { int n; FFTReal f; DFFTReal(int c) : n(sel(c, 32, 24, 14, 110)), f(n) {} void step(int i, V &o) { V x = sig(n, i), z(n), re(n), im(n); if (i == 0) { f.forward(x.data(), re.data(), im.data()); app(o, im); } else if (i == 1) f.forwardMagnitude(x.data(), re.data()); else { z = sig(n, 1); f.inverse(x.data(), z.data(), re.data()); } app(o, re); } };
DRV(DDCT) { int n; DCT d; DDCT(int c) : n(sel(c, 16, 9, 11, 14)), d(n) {} void step(int i, V &o) { V x = sig(n, i), y(n); if (i == 0) { d.forward(x.data(), y.data()); V z(n); d.forwardUnitary(x.data(), z.data()); app(o, z); } else if (i == 1) d.inverseUnitary(x.data(), y.data()); else d.inverse(x.data(), y.data()); app(o, y); } };
DRV(DPVoc) { int n; PhaseVocoder p; DPVoc(int c) : n(sel(c, 32, 64, 14, 66)), p(n, n / 4 + (c == 2)) {} void step(int i, V &o) { V x = sig(n, i), a(n / 2 + 1), b(n / 2 + 1), c(n / 2 + 1); if (i < 2) p.processTimeDomain(x.data(), a.data(), b.data(), c.data()); else { V im = sig(n, 7); p.processFrequencyDomain(x.data(), im.data(), a.data(), b.data(), c.data()); } app(o, a); app(o, b); app(o, c); if (i == 1) p.reset(); } };
DRV(DDF) { DetectionFunction d; static DFConfig cf(int c) { DFConfig k; k.stepSize = 32; k.frameLength = 64; k.DFType = sel(c, DF_PHASEDEV, DF_COMPLEXSD, DF_SPECDIFF, DF_BROADBAND); k.dbRise = 3; k.adaptiveWhitening = c == 1; k.whiteningRelaxCoeff = -1; k.whiteningFloor = -1; return k; } DetectionFunction h; static DFConfig hf(int c) { DFConfig k = cf(c); k.DFType = DF_HFC; k.adaptiveWhitening = c == 3; return k; } DDF(int c) : d(cf(c)), h(hf(c)) {} void step(int i, V &o) { V x = sig(64, i), y = sig(33, i + 1); o.push_back(i < 2 ? d.processTimeDomain(x.data()) : d.processFrequencyDomain(x.data(), y.data())); o.push_back(h.processTimeDomain(x.data())); double *m = d.getSpectrumMagnitude(); o.insert(o.end(), m, m + 33); } };
static double LPA[3] = {1.0, -0.5949, 0.2348}, LPB[3] = {0.16, 0.32, 0.16};
DRV(DDFProcess) { V a, b; DFProcConfig k; std::unique_ptr<DFProcess> p; DDFProcess(int c) : a(LPA, LPA + 3), b(LPB, LPB + 3) { k.length = sel(c, 45, 60, 9, 130); k.LPOrd = 2; k.LPACoeffs = a.data(); k.LPBCoeffs = b.data(); k.winPre = sel(c, 7, 8, 3, 30); k.winPost = sel(c, 8, 8, 2, 10); k.AlphaNormParam = 9; k.isMedianPositive = c == 1 || c == 3; p.reset(new DFProcess(k)); } void step(int i, V &o) { V x = pos(k.length, i), y(k.length); p->process(x.data(), y.data()); app(o, y); } };
DRV(DPeak) { V a, b; PPickParams k; std::unique_ptr<PeakPicking> p; DPeak(int c) : a(LPA, LPA + 3), b(LPB, LPB + 3) { k.length = sel(c, 60, 80, 25, 150); k.tau = 0.01; k.alpha = 9; k.cutoff = 300; k.LPOrd = 2; k.LPACoeffs = a.data(); k.LPBCoeffs = b.data(); k.WinT.pre = 8; k.WinT.post = 8; p.reset(new PeakPicking(k)); } void step(int i, V &o) { V x = pos(k.length, i); std::vector<int> on; p->process(x.data(), k.length, on); for (int v : on) o.push_back(v); app(o, x); } };
DRV(DFramer) { int n; Framer f; DFramer(int c) : n(sel(c, 10, 16, 8, 64)) { f.configure(n, sel(c, 10, 5, 12, 16)); } V s; void step(int i, V &o) { s = sig(50 + i, i); f.setSource(s.data(), (int)s.size()); o.push_back(f.getMaxNoFrames()); for (int k = 0; k < 3; ++k) { V d(n); f.getFrame(d.data()); app(o, d); } } };
DRV(DMedian) { MedianFilter<double> m; DMedian(int c) : m(sel(c, 8, 5, 1, 12), sel(c, 30, 50, 100, 0)) {} void step(int i, V &o) { for (double d : sig(12, i)) { m.push(d); o.push_back(m.get()); } } };
DRV(DWindow) { int n; Window<double> w; Window<float> g; DWindow(int c) : n(sel(c, 20, 15, 1, 32)), w(sel(c, BlackmanHarrisWindow, HanningWindow, RectangularWindow, BlackmanWindow), n), g(sel(c, HammingWindow, BartlettWindow, BlackmanHarrisWindow, HanningWindow), n) {} void step(int i, V &o) { V x = sig(n, i), y(n); w.cut(x.data(), y.data()); app(o, y); if (i == 1) { Window<double> k(w); app(o, k.getWindowData()); std::vector<float> v = g.getWindowData(); o.insert(o.end(), v.begin(), v.end()); } } };
DRV(DKaiser) { KaiserWindow k; SincWindow s; static KaiserWindow kw(int c) { return c == 0 ? KaiserWindow::byTransitionWidth(40, 0.5) : c == 1 ? KaiserWindow::byTransitionWidth(60, 0.5) : c == 2 ? KaiserWindow::byTransitionWidth(15, 0.4) : KaiserWindow::byBandwidth(80, 200, 8000); } DKaiser(int c) : k(kw(c)), s(sel(c, 16, 21, 2, 50), sel(c, 6, 4, 3, 11)) {} void step(int i, V &o) { V x = sig(k.getLength(), i), y(x); k.cut(x.data(), y.data()); app(o, y); V z = sig(s.getLength(), i); s.cut(z.data()); app(o, z); } };
DRV(DPitch) { int c; DPitch(int k) : c(k) {} void step(int i, V &o) { float f; o.push_back(Pitch::getFrequencyForPitch(60 + i, 5, sel(c, 415., 440., 442.5, 100.))); o.push_back(Pitch::getPitchForFrequency(300 + 10 * i, &f, sel(c, 415., 440., 442.5, 100.))); o.push_back(f); } };
inline CQConfig cqc(int c) { CQConfig k; k.FS = 8000; k.min = sel(c, 700, 500, 1100, 400); k.max = 3500; k.BPO = sel(c, 5, 6, 3, 12); k.CQThresh = c == 2 ? 0.02 : 0.0054; return k; }
DRV(DCQ) { ConstantQ q; DCQ(int c) : q(cqc(c)) { q.sparsekernel(); } void step(int i, V &o) { int n = q.getFFTLength(), k = q.getK(); V x = sig(n, i), y = sig(n, i + 1), a(k), b(k); q.process(x.data(), y.data(), a.data(), b.data()); app(o, a); app(o, b); if (i == 2) { V z = sig(2 * n, 4); double *r = q.process(z.data()); o.insert(o.end(), r, r + 2 * k); } } };
DRV(DChroma) { Chromagram q; static ChromaConfig cf(int c) { ChromaConfig k; k.FS = 8000; k.min = sel(c, 700, 500, 900, 450); k.max = 3900; k.BPO = sel(c, 5, 6, 4, 12); k.CQThresh = 0.0054; k.normalise = sel(c, MathUtilities::NormaliseNone, MathUtilities::NormaliseUnitMax, MathUtilities::NormaliseUnitSum, MathUtilities::NormaliseUnitMax); return k; } int bpo; DChroma(int c) : q(cf(c)), bpo(cf(c).BPO) {} void step(int i, V &o) { int n = q.getFrameSize(); V x = sig(n, i), y = sig(n, i + 3); double *r = i < 2 ? q.process(x.data()) : q.process(x.data(), y.data()); o.insert(o.end(), r, r + bpo); } };
DRV(DKey) { GetKeyMode g; static GetKeyMode::Config cf(int c) { GetKeyMode::Config k(sel(c, 1500, 2205, 4000, 12000), c == 2 ? 415 : 440); k.decimationFactor = sel(c, 1, 1, 2, 8); k.hpcpAverage = sel(c, 3, 3, 1, 2); k.medianAverage = sel(c, 3, 3, 2, 1); return k; } DKey(int c) : g(cf(c)) {} void step(int i, V &o) { V x = sig(g.getBlockSize(), i); o.push_back(g.process(x.data())); double *s = g.getKeyStrengths(); o.insert(o.end(), s, s + 24); } };
DRV(DMFCC) { MFCC m; static MFCCConfig cf(int c) { MFCCConfig k(sel(c, 22050, 16000, 44100, 48000)); k.fftsize = sel(c, 512, 512, 1024, 600); k.nceps = sel(c, 19, 12, 8, 20); k.want_c0 = c == 1 || c == 3; if (c == 2) { k.logpower = 2; k.window = BlackmanWindow; } return k; } int n, s; DMFCC(int c) : m(cf(c)), n(cf(c).nceps + cf(c).want_c0), s(cf(c).fftsize) {} void step(int i, V &o) { V x = sig(s, i), z = sig(s, i + 4), y(n); if (i < 2) m.process(x.data(), y.data()); else m.process(x.data(), z.data(), y.data()); app(o, y); } };
DRV(DTempo1) { TempoTrack *t; int c_; V a, b; DTempo1(int c) : c_(c), a(LPA, LPA + 3), b(LPB, LPB + 3) { TTParams p; p.winLength = 512; p.lagLength = 128; p.alpha = 9; p.LPOrd = 2; p.LPACoeffs = a.data(); p.LPBCoeffs = b.data(); p.WinT.pre = 8; p.WinT.post = 7; t = new TempoTrack(p); } ~DTempo1() { delete t; } void step(int i, V &o) { int n = sel(c_, 800, 1100, 600, 1500); V x(n); for (int k = 0; k < n; ++k) x[k] = 0.1 + (k % (20 + 3 * i) == 0) + 0.05 * mc::wave(k, i); V tr; for (int v : t->process(x, c_ == 2 ? 0 : &tr)) o.push_back(v); app(o, tr); } };
DRV(DTempo2) { TempoTrackV2 t; int n, c_; DTempo2(int c) : t(sel(c, 44100., 44100., 22050., 48000.), sel(c, 1024, 512, 256, 512)), n(sel(c, 300, 300, 700, 1100)), c_(c) {} void step(int i, V &o) { V x(n); for (int k = 0; k < n; ++k) x[k] = 0.1 + (k % (20 + 3 * i) == 0) + 0.05 * mc::wave(k, i); V p(n), te, b; if (c_ == 3) t.calculateBeatPeriod(x, p, te, 100 + 20 * i, i == 1); else t.calculateBeatPeriod(x, p, te); if (c_ == 2) t.calculateBeats(x, p, b, 0.7, 3); else t.calculateBeats(x, p, b); app(o, p); app(o, te); app(o, b); } };
DRV(DDown) { DownBeat d; DDown(int c) : d(sel(c, 8000, 8000, 16000, 4000), sel(c, 2, 4, 16, 1), 64) { d.setBeatsPerBar(sel(c, 3, 4, 2, 5)); } void step(int i, V &o) { size_t f = 0; for (int k = 0; k < 40; ++k) { V x = sig(64, (k + i) % 7); std::vector<float> a(x.begin(), x.end()); d.pushAudioBlock(a.data()); } const float *au = d.getBufferedAudio(f); std::vector<double> beats; for (int k = 0; k < 40; k += 5) beats.push_back(k); std::vector<int> db; d.findDownBeats(au, f, beats, db); for (int v : db) o.push_back(v); V sd; d.getBeatSD(sd); app(o, sd); d.resetAudioBuffer(); } };
DRV(DBeatSpec) { BeatSpectrum b; int c; DBeatSpec(int k) : c(k) {} void step(int i, V &o) { M m; for (int k = 0; k < sel(c, 9, 10, 5, 40); ++k) m.push_back(pos(4, k % (i + 2))); app(o, b.process(m)); } };
DRV(DTonal) { TonalEstimator e; TCSGram g; int c; DTonal(int k) : c(k) {} void step(int i, V &o) { for (int k = 0; k < (c == 3 ? 15 : 4); ++k) { ChromaVector v; V x = pos(12, k + i); for (int j = 0; j < 12; ++j) v[j] = x[j]; v.normalizeL1(); g.addTCSVector(e.transform2TCS(v)); } ChangeDFConfig cf; cf.smoothingWidth = 1 + c; ChangeDetectionFunction f(cf); ChangeDistance d = f.process(g); o.insert(o.end(), std::begin(d), std::end(d)); o.push_back(g.getDuration()); TCSVector q; g.getTCSVector(1, q); o.push_back(q.magnitude()); o.push_back(g.getTime(1)); } };
DRV(DWavelet) { int c; DWavelet(int k) : c(k) {} V l, h; void step(int i, V &o) { for (int t = c * 3 + i; t <= (int)Wavelet::LastType; t += 12) { Wavelet::createDecompositionFilters((Wavelet::Type)t, l, h); app(o, l); app(o, h); o.push_back(Wavelet::getWaveletName((Wavelet::Type)t).size()); } } };
DRV(DHmm) { int c; model_t *m; M x; DHmm(int k) : c(k), m(0) {} ~DHmm() { if (m) hmm_close(m); } void step(int i, V &o) { int n = 24, D = sel(c, 2, 3, 1, 4); if (i == 0) { for (int t = 0; t < n; ++t) { V v(D); for (int j = 0; j < D; ++j) v[j] = (t / 6 % 2) * 3 + mc::wave(t * 3 + j, c); x.push_back(v); } refhmm::Mat X(x); m = hmm_init(X, n, D, 2); for (int s = 0; s < 2; ++s) { m->p0[s] = 0.5; for (int u = 0; u < 2; ++u) m->a[s][u] = s == u ? 0.8 : 0.2; for (int j = 0; j < D; ++j) m->mu[s][j] = 3 * s; } } refhmm::Mat X(x); if (i == 1) hmm_train(X, n, m); std::vector<int> q(n); if (i) { viterbi_decode(X, n, m, q.data()); for (int v : q) o.push_back(v); } for (int s = 0; s < 2; ++s) { o.push_back(m->p0[s]); for (int j = 0; j < D; ++j) o.push_back(m->mu[s][j]); } } };
DRV(DPca) { int c; DPca(int k) : c(k) {} void step(int i, V &o) { M x; int n = 12, k = 4 + c; for (int t = 0; t < n; ++t) { V v(k); for (int j = 0; j < k; ++j) v[j] = mc::wave(t * k + j, i); x.push_back(v); } refhmm::Mat X(x); pca_project(X, n, k, 2); for (auto &r : X.get(2)) app(o, r); } };
DRV(DSegmenter) { ClusterMeltSegmenter *s; static ClusterMeltSegmenterParams cf(int c) { ClusterMeltSegmenterParams p; p.featureType = sel(c, FEATURE_TYPE_CONSTQ, FEATURE_TYPE_MFCC, FEATURE_TYPE_CHROMA, FEATURE_TYPE_MFCC); p.windowSize = 0.05; p.hopSize = 0.02; p.fmin = 1000; p.nbins = 4; p.nHMMStates = 3; p.nclusters = 2; p.histogramLength = 3; p.neighbourhoodLimit = 2; return p; } int ft; DSegmenter(int c) : s(new ClusterMeltSegmenter(cf(c))), ft(c) { s->initialise(sel(c, 11025, 11025, 11025, 44100)); } ~DSegmenter() { delete s; } void step(int i, V &o) { if (i < 2) for (int k = 0; k < 3; ++k) { V x = sig(s->getWindowsize(), k % 2 + 3 * i); s->extractFeatures(x.data(), (int)x.size()); } else { if (ft == 1) { M f; for (int t = 0; t < 12; ++t) f.push_back(sig(5, t / 4)); s->setFeatures(f); } if (ft == 3) s->segment(3); else s->segment(); for (auto &g : s->getSegmentation().segments) { o.push_back(g.start); o.push_back(g.end); o.push_back(g.type); } } } };
DRV(DMaths) { int c; DMaths(int k) : c(k) {} void maths2(const V &x, const V &y, int i, V &o) { KLDivergence kl; CosineDistance cd; o.push_back(kl.distanceDistribution(x, y, c & 1)); o.push_back(cd.distance(x, y)); o.push_back(MathUtilities::mean(x.data(), 7)); o.push_back(MathUtilities::sum(x.data(), 9)); double an; MathUtilities::getAlphaNorm(x.data(), 11, 3, &an); o.push_back(an); o.push_back(MathUtilities::getAlphaNorm(x, 9)); o.push_back(MathUtilities::round(-2.5 + i)); V z(x); MathUtilities::circShift(z.data(), (int)z.size(), 3 + c); app(o, z); for (int t = 0; t < 3; ++t) { MathUtilities::NormaliseType nt = sel(t, MathUtilities::NormaliseNone, MathUtilities::NormaliseUnitSum, MathUtilities::NormaliseUnitMax, MathUtilities::NormaliseNone); V a(y), b(y); MathUtilities::normalise(a, nt); MathUtilities::normalise(b.data(), (int)b.size(), nt); app(o, a); app(o, b); } for (int p = 1; p <= 3; ++p) { o.push_back(MathUtilities::getLpNorm(x, p)); app(o, MathUtilities::normaliseLp(y, p)); } double mx; o.push_back(MathUtilities::getMax(z.data(), (int)z.size(), &mx)); o.push_back(mx); std::vector<double> hv(x); o.push_back(MathUtilities::getMax(hv, &mx)); for (int n = 1 + i; n < 300; n += 37) { o.push_back(MathUtilities::nextPowerOfTwo(n)); o.push_back(MathUtilities::previousPowerOfTwo(n)); o.push_back(MathUtilities::nearestPowerOfTwo(n)); o.push_back(MathUtilities::isPowerOfTwo(n)); o.push_back(MathUtilities::factorial(n % 12)); } o.push_back(MathUtilities::princarg(7.0 * i - 9)); o.push_back(MathUtilities::mod(7.5 * i, 2.3)); o.push_back(MathUtilities::compareInt(&i, &c)); } void step(int i, V &o) { V x = pos(15 + c, i), y = pos(15 + c, i + 1); double m = 0, n = 0; MathUtilities::getFrameMinMax(x.data(), (int)x.size(), &m, &n); o.push_back(m); o.push_back(n); o.push_back(MathUtilities::median(x.data(), (int)x.size())); o.push_back(MathUtilities::mean(x, 0, 10)); V z(x); MathUtilities::adaptiveThreshold(z); app(o, z); KLDivergence kl; o.push_back(kl.distanceGaussian(x, y, y, x)); V r(x.size()); Correlation co; co.doAutoUnBiased(x.data(), r.data(), (int)x.size()); app(o, r); o.push_back(MathUtilities::gcd(12 + i, 18)); maths2(x, y, i, o); } };
DRV(DAlloc) { typedef BlockAllocator A; int n; A a; std::vector<void *> live; DAlloc(int c) : n(sel(c, 24, 9, 100, 1)), a(sel(c, 24, 9, 100, 1)) {} ~DAlloc() { for (void *p : live) a.deallocate(p); } void step(int i, V &o) { for (int k = 0; k < 30; ++k) { char *p = (char *)a.allocate(); memset(p, i, n); live.push_back(p); } for (int k = 0; k < 10; ++k) { a.deallocate(live.back()); live.pop_back(); } o.push_back(live.size()); for (void *p : live) o.push_back(((char *)p)[n - 1]); } };
DRV(DPoly) { int c; DPoly(int k) : c(k) {} void step(int i, V &o) { int n = sel(c, 6, 9, 4, 20); V x(n), y = sig(n, i), k(sel(c, 2, 3, 4, 5)); for (int j = 0; j < n; ++j) x[j] = j - 0.1 * i; o.push_back(TPolyFit::PolyFit2(x, y, k)); app(o, k); } };
struct Comp { const char *name; Drv *(*make)(int); bool random; };
template <class T> Drv *mk(int c) { return new T(c); }
static const Comp C[] = {{"Filter", mk<DFilter>}, {"FiltFilt", mk<DFiltFilt>}, {"Decimator", mk<DDecimator>}, {"DecimatorB", mk<DDecimatorB>}, {"Resampler", mk<DResampler>}, {"FFT", mk<DFFT>}, {"FFTReal", mk<DFFTReal>}, {"DCT", mk<DDCT>}, {"PhaseVocoder", mk<DPVoc>}, {"DetectionFunction", mk<DDF>}, {"DFProcess", mk<DDFProcess>}, {"PeakPicking", mk<DPeak>}, {"Framer", mk<DFramer>}, {"MedianFilter", mk<DMedian>}, {"Window", mk<DWindow>}, {"KaiserWindow", mk<DKaiser>}, {"Pitch", mk<DPitch>}, {"ConstantQ", mk<DCQ>}, {"Chromagram", mk<DChroma>}, {"GetKeyMode", mk<DKey>}, {"MFCC", mk<DMFCC>}, {"TempoTrack", mk<DTempo1>}, {"TempoTrackV2", mk<DTempo2>}, {"DownBeat", mk<DDown>}, {"BeatSpectrum", mk<DBeatSpec>}, {"Tonal", mk<DTonal>}, {"Wavelet", mk<DWavelet>}, {"HMM", mk<DHmm>, true}, {"PCA", mk<DPca>}, {"Segmenter", mk<DSegmenter>, true}, {"Maths", mk<DMaths>}, {"BlockAllocator", mk<DAlloc>}, {"Polyfit", mk<DPoly>}};
static const int N = sizeof C / sizeof *C, STEPS = 3;
inline bool same(const V &a, const V &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
}
