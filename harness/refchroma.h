#pragma once
#include "refcq.h"
namespace refcq {
struct Chroma { Spec s; int norm; const Kernel *k;
    Chroma(double fs, double min, double max, int bpo, double thr, int norm_) : norm(norm_) { s.fs = fs; s.min = min; s.max = min * std::pow(2.0, std::ceil(std::log2(max / min) - 1e-9)); s.bpo = bpo; s.thr = thr; k = &kernel(s, (int)std::lround(bpo * std::log2(s.max / s.min))); }
    V fromSpectrum(const VC &X) const {
        V slack; VC c = apply(*k, X, &slack); V y(s.bpo, 0.0); for (int j = 0; j < k->K; ++j) y[j % s.bpo] += std::abs(c[j]);
        double d = 0; if (norm == 1) for (double v : y) d += v; if (norm == 2) for (double v : y) d = std::max(d, v); if (d > 0) for (double &v : y) v /= d; return y; }
    V fromFrame(const V &x) const { return fromSpectrum(frameSpectrum(x)); }
};
}
