// C05: BlockAllocator hands out disjoint, stable, writable elements; freed ones are reused; everything is released.
#include <vector>
#include <cstring>
#include <deque>
#include <map>
#include "mc.h"
#include "thread/BlockAllocator.h"
#include <memory>
using namespace std;

struct Model {
    BlockAllocator *a; int sz; map<char *, unsigned> live; deque<char *> order; unsigned serial; long peak;
    Model(BlockAllocator *a_, int s) : a(a_), sz(s), serial(0), peak(0) {}
    unsigned char pat(unsigned ser, int i) const { return (unsigned char)(ser * 37 + i * 11 + 5); }
    void alloc() {
        char *p = (char *)a->allocate(); mc::step();
        if (!p) mc::fail("null", "allocate returned null");
        if ((uintptr_t)p % sizeof(void *)) mc::fail("alignment", "element not pointer-aligned");
        auto it = live.lower_bound(p);
        if (it != live.end() && it->first < p + sz) mc::fail("overlap", "new element overlaps a live one (%d bytes)", sz);
        if (it != live.begin()) { --it; if (it->first + sz > p) mc::fail("overlap", "new element overlaps a live one (%d bytes)", sz); }
        ++serial; for (int i = 0; i < sz; ++i) p[i] = (char)pat(serial, i);
        live[p] = serial; order.push_back(p); if ((long)live.size() > peak) peak = (long)live.size();
    }
    void check(char *p, unsigned ser) { for (int i = 0; i < sz; ++i) if ((unsigned char)p[i] != pat(ser, i)) mc::fail("contents", "byte %d of a live %d-byte element changed", i, sz); }
    void drop(size_t k) { char *p = order[k]; order.erase(order.begin() + k); check(p, live[p]); live.erase(p); a->deallocate(p); mc::step(); }
    void checkAll() { mc::evals(); for (auto &e : live) check(e.first, e.second); }
};

// element storage may never exceed what the largest number of simultaneously live elements needs
static void checkFootprint(Model &m, long base) {
    long now = mc::live_bytes(); if (!now) return;
    long own = (long)(m.live.size() * 64 + m.order.size() * 8 + 2048);      // the model's own containers
    long units = (m.sz + 7) / 8 + 1, blocks = (m.peak + 511) / 512;
    long cap = base + own + blocks * (512 * units * 8 + 256) + 256 * 1024 / 8;
    mc::require(now <= cap, "footprint", "heap in use %ld bytes exceeds what the peak of %ld live %d-byte elements needs (%ld)", now - base, m.peak, m.sz, cap - base);
}

MC_SCENARIO(histories, "element sizes {1,8,9,24}; every sequence of 4 (thorough 5) operations from {allocate 1/511/512/513; free newest/oldest/middle one; free every second; free all newest-first/oldest-first; free all but the newest}", 2, 64) {
    static const int szs[] = {8, 1, 9, 24};
    int sz = mc::pick(szs, "size"); int n = mc::tiered(3, 4);
    unique_ptr<BlockAllocator> a(new BlockAllocator(sz)); Model m(a.get(), sz); long base = mc::live_bytes();
    for (int d = 0; d <= n; ++d) {
        int op = d == 0 ? mc::choose(4, "op") : mc::choose(11, "op"); mc::logf("op %d live %zu", op, m.live.size());
        static const int cnt[] = {1, 511, 512, 513};
        if (op < 4) for (int i = 0; i < cnt[op]; ++i) m.alloc();
        else if (op == 4) { if (m.order.size()) m.drop(m.order.size() - 1); }
        else if (op == 5) { if (m.order.size()) m.drop(0); }
        else if (op == 6) { if (m.order.size()) m.drop(m.order.size() / 2); }
        else if (op == 7) { for (size_t k = 0; k < m.order.size(); ++k) m.drop(k); }
        else if (op == 8) { while (m.order.size()) m.drop(m.order.size() - 1); }
        else if (op == 9) { while (m.order.size()) m.drop(0); }
        else { while (m.order.size() > 1) m.drop(0); }
        m.checkAll(); checkFootprint(m, base);
        mc::state(mc::Hash("b").i(sz).i((long)m.live.size()).i(m.serial).i(op));
    }
}

MC_SCENARIO(deep, "every sequence of 8 (thorough 10) single allocate/free-newest/free-oldest operations starting from 0, 510 or 1022 live elements", 3, 32) {
    static const int pre[] = {0, 510, 1022}; int p = mc::pick(pre, "prefill");
    BlockAllocator a(16); Model m(&a, 16); for (int i = 0; i < p; ++i) m.alloc();
    for (int d = 0; d < mc::tiered(8, 10); ++d) {
        int op = mc::choose(m.order.empty() ? 1 : 3, "op");
        if (op == 0) m.alloc(); else m.drop(op == 1 ? m.order.size() - 1 : 0);
        mc::state(mc::Hash("d").i(p).i(d).i((long)m.live.size()).i(m.serial));
    }
    m.checkAll();
}

MC_SCENARIO(pairs, "two allocators, every sequence of 8 interleaved allocate/free operations; deallocating null is a no-op", 2, 8) {
    BlockAllocator a(8), b(32); Model ma(&a, 8), mb(&b, 32);
    for (int d = 0; d < 8; ++d) {
        int op = mc::choose(4, "op"); Model &m = op & 1 ? mb : ma;
        if (op < 2) m.alloc(); else if (m.order.size()) m.drop(0); else m.a->deallocate(0);
        ma.checkAll(); mb.checkAll(); mc::state(mc::Hash("p").i(ma.live.size()).i(mb.live.size()).i(ma.serial).i(mb.serial));
    }
}

// growth past every internal capacity: elements must stay where they are and stay intact
MC_SCENARIO(growth, "600000 simultaneously live elements, then freed newest-first, oldest-first or every second one and reallocated", 1, 3) {
    BlockAllocator a(8); vector<size_t *> p; const int N = 600000;
    for (int i = 0; i < N; ++i) { size_t *q = (size_t *)a.allocate(); *q = (size_t)i * 7 + 1; p.push_back(q); }
    mc::step(N);
    for (int i = 0; i < N; ++i) if (*p[i] != (size_t)i * 7 + 1) mc::fail("contents", "element %d corrupted after growth", i);
    int how = mc::choose(3, "order");
    if (how == 0) for (int i = N - 1; i >= 0; --i) a.deallocate(p[i]);
    else if (how == 1) for (int i = 0; i < N; ++i) a.deallocate(p[i]);
    else {
        for (int i = 0; i < N; i += 2) a.deallocate(p[i]);
        for (int i = 0; i < N; i += 2) { p[i] = (size_t *)a.allocate(); *p[i] = (size_t)i * 7 + 1; }
        for (int i = 0; i < N; ++i) if (*p[i] != (size_t)i * 7 + 1) mc::fail("contents", "element %d corrupted after reuse", i);
    }
    mc::evals(N); mc::state(how);
}

MC_SCENARIO(leaks, "destroying the allocator releases everything, with 0/1/513 live elements", 0, 1) {
    static const int n[] = {0, 1, 513}; int k = mc::pick(n, "n");
    mc::leak_check("leak", [&] { BlockAllocator a(24); void *last = 0; for (int i = 0; i < k; ++i) last = a.allocate(); a.deallocate(last); if (k) a.allocate(); });
    mc::state(k);
}

MC_SCENARIO(churn, "element sizes 1,8,24 x 600, 2048, 5000 elements: every sequence of 3 (thorough 4) partial releases (every second, all but one in 512, first half, all but the last, one in every block), each followed by refilling: no more memory than one block above what the peak needs", 3, 48) {
    static const int S[] = {24, 1, 8}, N[] = {5000, 600, 2048}; int sz = mc::pick(S, "size"), n = mc::pick(N, "elements"); vector<char *> p; p.reserve(n); vector<char *> q; q.reserve(n); long base = mc::live_bytes(); mc::Hash h("c"); h.i(sz).i(n);
    { BlockAllocator a(sz); auto fill = [&] { while ((int)p.size() < n) { char *x = (char *)a.allocate(); memset(x, (int)(p.size() % 251), sz); p.push_back(x); mc::step(); } };
    fill(); long units = (sz + 7) / 8 + 1, cap = ((n + 511) / 512 + 1) * (512 * units * 8 + 128) + 4096;
    for (int d = 0; d < mc::tiered(3, 4); ++d) {
        int k = mc::choose(5, "release"); h.i(k); for (int i = 0; i < n; ++i) mc::require((unsigned char)p[i][sz - 1] == (unsigned char)p[i][0], "contents", "element changed");
        q.clear(); for (int i = 0; i < n; ++i) { bool keep = k == 0 ? i % 2 : k == 1 ? i % 512 == 511 : k == 2 ? i >= n / 2 : k == 3 ? i == n - 1 : i % 512 != 0; if (keep) q.push_back(p[i]); else { a.deallocate(p[i]); mc::step(); } } p = q;
        fill(); for (int i = 0; i < n; ++i) memset(p[i], i % 251, sz);
        long now = mc::live_bytes() - base; mc::require(now <= cap, "footprint", "%ld bytes in use for %d elements of %d bytes, freed space not reused (at most %ld needed)", now, n, sz, cap); mc::state(mc::Hash(h).i(d));
    } }
}
MC_SCENARIO(element_sizes, "every element size 1..80 and 19 sizes from 100 to 300000 bytes around powers of two: 520 elements (1030 for the small ones), every sequence of 3 of {free every second, free oldest, free newest 100, refill}; contents, overlap and footprint", 1, 24) {
    static const int big[] = {100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 2040, 2048, 2056, 4096, 8191, 65536, 300000};
    int k = mc::choose(99, "size"), sz = k < 80 ? k + 1 : big[k - 80], n = sz > 10000 ? 515 : sz > 80 ? 520 : 1030;
    unique_ptr<BlockAllocator> a(new BlockAllocator(sz)); Model m(a.get(), sz); long base = mc::live_bytes(); for (int i = 0; i < n; ++i) m.alloc(); m.checkAll(); int depth = sz > 10000 ? 1 : sz > 80 ? 2 : 3; mc::Hash h("z"); h.i(sz);
    for (int d = 0; d < depth; ++d) { int op = mc::choose(sz > 10000 ? 1 : 4, "op"); h.i(op); if (op == 0) { for (size_t j = 0; j < m.order.size(); ++j) m.drop(j); } else if (op == 1) { if (m.order.size()) m.drop(0); } else if (op == 2) { for (int j = 0; j < 100 && m.order.size(); ++j) m.drop(m.order.size() - 1); } else while ((int)m.order.size() < n) m.alloc(); m.checkAll(); checkFootprint(m, base); mc::state(h); }
    while ((int)m.order.size() < n) m.alloc(); m.checkAll(); checkFootprint(m, base); mc::state(h.i(99));
}
