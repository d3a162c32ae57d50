// Plain reference implementations shared by several harnesses.
#pragma once
#include <vector>
#include <algorithm>
#include <cmath>
namespace ref {
typedef std::vector<double> V;
inline double median(V v) { if (v.empty()) return 0; std::sort(v.begin(), v.end()); size_t n = v.size(); return n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1]) / 2; }
inline V filter(const V &b, const V &a, const V &x) {
    V y; for (long n = 0; n < (long)x.size(); ++n) { double s = 0;
        for (long i = 0; i < (long)b.size(); ++i) if (n >= i) s += b[i] * x[n - i];
        for (long i = 1; i < (long)a.size(); ++i) if (n >= i) s -= a[i] * y[n - i];
        y.push_back(s); }
    return y;
}
inline V filtfilt(const V &b, const V &a, const V &x) {
    if (x.empty()) return x; long N = (long)x.size(), e = 3 * ((long)b.size() - 1); V ext;
    for (long i = e; i > 0; --i) ext.push_back(i < N ? 2 * x[0] - x[i] : 0.0);
    ext.insert(ext.end(), x.begin(), x.end());
    for (long i = 0; i < e; ++i) ext.push_back(i + 1 < N ? 2 * x[N - 1] - x[N - 2 - i] : 0.0);
    V y = filter(b, a, ext); std::reverse(y.begin(), y.end()); y = filter(b, a, y); std::reverse(y.begin(), y.end());
    return V(y.begin() + e, y.begin() + e + N);
}
inline double alphaNorm(const V &x, int alpha) { double s = 0; for (double d : x) s += std::pow(std::fabs(d), alpha); return std::pow(s / x.size(), 1.0 / alpha); }
// DFProcess: DC removal, alpha norm, zero-phase low-pass, moving median threshold, half-wave rectification
inline V dfproc(const V &x, const V &b, const V &a, int alpha, int pre, int post) {
    long n = (long)x.size(); if (!n) return x;
    double lo = *std::min_element(x.begin(), x.end()), an = alphaNorm(x, alpha); V s; for (double d : x) s.push_back(an > 0 ? (d - lo) / an : 0.0);
    s = filtfilt(b, a, s); V out;
    for (long i = 0; i < n; ++i) { double v = s[i] - median(V(s.begin() + std::max(0L, i - pre), s.begin() + std::min(n, i + post + 1))); out.push_back(v > 0 ? v : 0); }
    return out;
}
}
