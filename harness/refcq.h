// Reference constant-Q kernel: straight from its definition, with a textbook DFT.
#pragma once
#include "mc.h"
#include "refdsp.h"
#include <complex>
#include <map>
namespace refcq {
using ref::V; typedef std::complex<double> C; typedef std::vector<C> VC;
struct Spec { double fs, min, max; int bpo; double thr; };
inline double Q(const Spec &s) { return 1 / (std::pow(2.0, 1.0 / s.bpo) - 1); }
inline int fftLength(const Spec &s) { int need = (int)std::ceil(Q(s) * s.fs / s.min), n = 1; while (n < need) n *= 2; return n; }
inline const VC &roots(int n) { static std::map<int, VC> t; VC &w = t[n]; if (w.empty()) for (int i = 0; i < n; ++i) w.push_back(std::polar(1.0, -2 * M_PI * i / n)); return w; }
inline VC fft2(const VC &x) { int n = (int)x.size(); if (n == 1) return x; VC e, o; for (int i = 0; i < n; i += 2) { e.push_back(x[i]); o.push_back(x[i + 1]); } e = fft2(e); o = fft2(o); const VC &w = roots(n); VC y(n); for (int k = 0; k < n / 2; ++k) { C t = w[k] * o[k]; y[k] = e[k] + t; y[k + n / 2] = e[k] - t; } return y; }
inline VC dft(const VC &x) { int n = (int)x.size(); if (n > 128 && !(n & (n - 1))) return fft2(x); const VC &w = roots(n); VC y(n); for (int i = 0; i < n; ++i) if (x[i] != C(0)) for (int k = 0; k < n; ++k) y[k] += x[i] * w[((long)i * k) % n]; return y; }
struct Kernel { int K, L; std::vector<VC> k; std::vector<V> doubt; }; // conj/L weights; doubt: |weight| of entries sitting on the threshold
inline const Kernel &kernel(const Spec &s, int K) {
    static std::map<std::vector<double>, Kernel> cache; std::vector<double> key = {s.fs, s.min, s.max, (double)s.bpo, s.thr, (double)K}; auto it = cache.find(key); if (it != cache.end()) return it->second;
    Kernel r; r.K = K; r.L = fftLength(s); double q = Q(s);
    for (int j = 0; j < K; ++j) {
        double wl = q * s.fs / (s.min * std::pow(2.0, (double)j / s.bpo)); int n = (int)std::ceil(wl - 1e-9); VC w(r.L);
        for (int i = 0; i < n; ++i) { double a = 2 * M_PI * q * i / n, ham = 0.54 - 0.46 * std::cos(2 * M_PI * i / n); int pos = r.L / 2 - n / 2 + i; w[(pos + r.L / 2) % r.L] = std::polar(ham / n, a); }
        VC f = dft(w); VC out(r.L); V d(r.L, 0.0);
        for (int c = 0; c < r.L; ++c) { double m = std::norm(f[c]), t = s.thr * s.thr; if (m > t * (1 + 1e-7)) out[c] = std::conj(f[c]) / (double)r.L; else if (m > t * (1 - 1e-7) - 1e-30) d[c] = std::abs(f[c]) / r.L; }
        r.k.push_back(out); r.doubt.push_back(d);
    }
    return cache[key] = r;
}
// cq value per bin, plus the uncertainty due to threshold ties
inline VC apply(const Kernel &k, const VC &X, V *slack = 0) {
    VC y(k.K); if (slack) slack->assign(k.K, 0.0);
    for (int j = 0; j < k.K; ++j) for (int c = 1; c < k.L; ++c) { y[j] += k.k[j][c] * X[k.L - c]; if (slack) (*slack)[j] += k.doubt[j][c] * std::abs(X[k.L - c]); }
    return y;
}
// only the non-zero weights matter; keeps long kernels affordable
// time frame -> spectrum of the windowed, half-rotated frame
inline VC frameSpectrum(const V &x) { int n = (int)x.size(); VC w(n); for (int i = 0; i < n; ++i) w[(i + n / 2) % n] = x[i] * (0.54 - 0.46 * std::cos(2 * M_PI * i / n)); return dft(w); }
}
