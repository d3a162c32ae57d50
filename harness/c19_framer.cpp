// C19: Framer: frame k is source[k*hop .. k*hop+len) zero-padded past the end, for every call history.
#include "mc.h"
#include "dsp/signalconditioning/Framer.h"
#include <memory>
using namespace std;
typedef vector<double> V;
struct Model { int len, hop; V *src; long n; long k; };
static void frame(Framer &f, Model &m) {
    V d(m.len + 2, 55.0); f.getFrame(d.data() + 1); mc::step();
    if (d[0] != 55 || d[m.len + 1] != 55) mc::fail("frame-overrun", "getFrame wrote outside the frame");
    for (int i = 0; i < m.len; ++i) { long p = m.k * m.hop + i; mc::check_close(d[i + 1], p < m.n ? (*m.src)[p] : 0.0, 0, "frame-contents", "frame sample", i); }
    m.k++;
}
MC_SCENARIO(frames, "every frame length 1..6, hop 1..8, source length 0..20 (thorough 40): number of frames, and contents of all of them and two beyond the end", 2, 16) {
    Model m; m.len = 1 + mc::choose(6, "len"); m.hop = 1 + mc::choose(8, "hop"); m.n = mc::choose(mc::tiered(21, 41), "n"); m.k = 0; V s; for (long i = 0; i < m.n; ++i) s.push_back(1 + i); m.src = &s;
    Framer f; f.configure(m.len, m.hop); f.setSource(s.data(), m.n);
    int want = (int)((m.n + m.hop - 1) / m.hop); mc::require(f.getMaxNoFrames() == want, "frame-count", "getMaxNoFrames()=%d, expected %d", f.getMaxNoFrames(), want);
    for (int i = 0; i < want + 2; ++i) frame(f, m); mc::state(mc::Hash("f").i(m.len).i(m.hop).i(m.n));
    mc::require(f.getMaxNoFrames() == want, "frame-count", "getMaxNoFrames() changed to %d while reading", f.getMaxNoFrames());
}
MC_SCENARIO(histories, "every sequence of 7 (thorough 8) calls from {getFrame, resetCounters, setSource A/B, configure (4,4)/(5,2)/(2,5)}", 2, 32) {
    V a, b; for (int i = 0; i < 11; ++i) a.push_back(1 + i); for (int i = 0; i < 6; ++i) b.push_back(-1 - i);
    Model m = {4, 4, &a, 11, 0}; Framer f; f.configure(4, 4); f.setSource(a.data(), 11); bool dirty = false;
    for (int d = 0; d < mc::tiered(7, 8); ++d) {
        int op = mc::choose(7, "op"); mc::logf("op %d", op);
        if (op == 0) frame(f, m);
        else if (op == 1) { f.resetCounters(); m.k = 0; mc::step(); }
        else if (op <= 3) { if (m.k) { f.resetCounters(); m.k = 0; } V *s = op == 2 ? &a : &b; m.src = s; m.n = (long)s->size(); f.setSource(s->data(), m.n); dirty = false; mc::step(); }
        else { static const int L[] = {4, 5, 2}, H[] = {4, 2, 5}; m.len = L[op - 4]; m.hop = H[op - 4]; m.k = 0; f.configure(m.len, m.hop); dirty = true; mc::step(); }
        if (!dirty) mc::require(f.getMaxNoFrames() == (int)((m.n + m.hop - 1) / m.hop), "frame-count", "getMaxNoFrames()=%d", f.getMaxNoFrames());
        mc::state(mc::Hash("h").i(m.len).i(m.hop).i(m.n).i(m.k).i(dirty));
    }
    frame(f, m);
}
MC_SCENARIO(huge, "frame count for source lengths up to 2^40 with hop 1/3/512 (length alone; the source is not read)", 0, 1) {
    static const int hops[] = {1, 3, 512}; static const int64_t L[] = {1, 2147483646LL, 2147483647LL, 2147483648LL, 1LL << 33, 1LL << 40}; int h = mc::pick(hops, "hop"); int64_t n = mc::pick(L, "n"); Framer f; f.configure(4, h); double x = 0; f.setSource(&x, n); mc::step();
    int64_t want = (n + h - 1) / h; if (want > 2147483647LL) want = 2147483647LL; mc::require(f.getMaxNoFrames() == (int)want, "frame-count", "length %lld hop %d: %d frames", (long long)n, h, f.getMaxNoFrames()); mc::state(mc::Hash("H").i(h).i(n));
}
MC_SCENARIO(leaks, "no heap growth over configure/reconfigure", 0, 1) { int n = 1 + mc::choose(2); mc::leak_check("leak", [&] { Framer f; for (int i = 0; i < n; ++i) f.configure(8, 4); }); mc::state(n); }
// a source of more than 2^32 samples: a sparse mapping, touched only where frames are read
#include <sys/mman.h>
MC_SCENARIO(huge_reads, "source of 2^32+7 samples (sparse mapping), hop 2^30 / 2^31-1 / 2^29+1, frame lengths 1, 4, 64: contents of every frame and two beyond the end", 0, 1) {
    const int64_t N = (1LL << 32) + 7; static double *src; if (!src) { void *p = mmap(0, N * sizeof(double), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { mc::state(1); return; } src = (double *)p; madvise(p, N * sizeof(double), MADV_NOHUGEPAGE); }
    static const int H[] = {1 << 30, 2147483647, (1 << 29) + 1}, L[] = {4, 1, 64}; int hop = mc::pick(H, "hop"), len = mc::pick(L, "len"); int64_t want = (N + hop - 1) / hop; auto at = [&](int64_t p) { return (double)(1 + p % 1000003); };
    for (int64_t k = 0; k < want; ++k) for (int i = 0; i < len; ++i) if (k * hop + i < N) src[k * hop + i] = at(k * hop + i);
    Framer f; f.configure(len, hop); f.setSource(src, N); mc::step(); mc::require(f.getMaxNoFrames() == (int)want, "frame-count", "%d frames, expected %lld", f.getMaxNoFrames(), (long long)want);
    for (int64_t k = 0; k < want + 2; ++k) { V d(len + 1, 55.0); f.getFrame(d.data()); mc::step(); mc::require(d[len] == 55, "frame-overrun", "wrote beyond the frame"); for (int i = 0; i < len; ++i) { int64_t p = k * hop + i; mc::check_close(d[i], p < N ? at(p) : 0.0, 0, "frame-contents", "frame sample", i); } }
    mc::state(mc::Hash("R").i(hop).i(len));
}
MC_SCENARIO(realistic, "frame lengths 256, 1000, 1024, 4096, 65536 x hops n/2, n, n/8+1, 2n, 441 x source lengths 0, 1, n-1, n, n+1, 50000, 100001: number of frames and contents of all of them and two beyond the end, then the same source again after reset", 2, 25) {
    static const int S[] = {1024, 256, 1000, 4096, 65536}; Model m; m.len = mc::pick(S, "len"); int hs[] = {m.len / 2, m.len, m.len / 8 + 1, 2 * m.len, 441}; m.hop = mc::pick(hs, "hop"); long ns[] = {50000, 0, 1, m.len - 1, m.len, m.len + 1, 100001}; m.n = mc::pick(ns, "n"); m.k = 0; V s; for (long i = 0; i < m.n; ++i) s.push_back(1 + i); m.src = &s;
    Framer f; f.configure(m.len, m.hop); f.setSource(s.data(), m.n); int want = (int)((m.n + m.hop - 1) / m.hop); mc::require(f.getMaxNoFrames() == want, "frame-count", "getMaxNoFrames()=%d, expected %d", f.getMaxNoFrames(), want);
    int stride = m.len > 10000 && m.hop < 1000 ? 60 : 100000; for (int i = 0; i < want + 2 && i < stride; ++i) frame(f, m); f.resetCounters(); m.k = 0; for (int i = 0; i < std::min(want, 3); ++i) frame(f, m); mc::state(mc::Hash("R").i(m.len).i(m.hop).i(m.n));
}
