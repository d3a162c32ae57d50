// C01: Mutex / MutexLocker.  Real thread/Thread.cpp under the controlled scheduler: every pthread call and
// every load/store of the Mutex object itself is a scheduling point.
#include "threads.h"
#include <memory>

namespace {
// harness-side bookkeeping of who is inside (never a scheduling point: only the payload is)
struct World {
    Mutex *m; int holder, marked; long marks; int inside; long done;
    volatile long payload;
    World() : m(0), holder(-1), marked(0), marks(0), inside(0), done(0), payload(0) {}
};
static void enter(World &w, const char *how) {
    mc::require(w.holder == -1, "mutual-exclusion", "thread %d entered via %s while thread %d was inside", sched::self(), how, w.holder);
    w.holder = sched::self();
    long v = w.payload; sched::point("critical-section"); w.payload = v + 1;   // a lost update if two threads are inside
    mc::require(w.holder == sched::self(), "mutual-exclusion", "thread %d is inside thread %d's critical section", w.holder, sched::self());
    w.done++; w.holder = -1;
}
static void op(World &w, int kind) {
    w.marks++; w.marked++;
    if (kind == 0) { w.m->lock(); enter(w, "lock"); w.m->unlock(); }
    else if (kind == 1) {
        long m0 = w.marks; bool alone = w.marked == 1;
        bool ok = w.m->trylock();
        if (ok) { enter(w, "trylock"); w.m->unlock(); }
        else mc::require(!(alone && w.marks == m0), "trylock-free", "trylock failed although no other thread held or wanted the mutex");
        mc::logf("t%d trylock=%d", sched::self(), (int)ok);
    }
    else if (kind == 2) { MutexLocker l(w.m); enter(w, "MutexLocker"); }
    w.marked--;
}
}

static void contention(int nthreads, int nops, int preempt) {
    std::vector<std::vector<int> > prog(nthreads, std::vector<int>(nops));
    for (int t = 0; t < nthreads; ++t) for (int i = 0; i < nops; ++i) prog[t][i] = mc::choose(3, "op");
    // thread programs are unordered: skip permutations
    for (int t = 0; t + 1 < nthreads; ++t) if (prog[t] > prog[t + 1]) return;
    sched::Options o; o.preemptions = preempt;
    World w; long expectMin = 0, expectMax = 0; for (auto &p : prog) for (int k : p) { expectMax++; if (k != 1) expectMin++; }
    sched::run(o, [&] {
        std::unique_ptr<Mutex> m(new Mutex); w.m = m.get();
        sched::watch(m.get(), sizeof(Mutex), "Mutex", false); sched::watch((void *)&w.payload, sizeof w.payload, "protected data", true);
        {
            std::vector<std::unique_ptr<Body> > th;
            for (int t = 1; t < nthreads; ++t) { std::vector<int> p = prog[t]; th.emplace_back(new Body([&w, p] { for (int k : p) op(w, k); })); }
            for (auto &t : th) t->start();
            for (int k : prog[0]) op(w, k);
            for (auto &t : th) t->wait();
        }
        mc::require(w.payload == w.done, "lost-update", "%ld critical sections, protected counter is %ld", w.done, w.payload);
        mc::require(w.done >= expectMin && w.done <= expectMax, "completion", "%ld critical sections ran, expected %ld..%ld", w.done, expectMin, expectMax);
        mc::require(m->trylock(), "released", "mutex still held after every thread released it");
        m->unlock();
        sched::unwatch(m.get());
    });
    mc::outcome(mc::Hash("o").i(w.done).i(sched::stats().switches));
}
MC_SCENARIO(two_threads_2ops, "2 threads x 2 operations from {lock, trylock, MutexLocker}; all schedules with at most 3 (thorough 5) preemptions, preemption points at every pthread call and every access to the mutex object", 6, 96) { contention(2, 2, mc::tiered(3, 5)); }
MC_SCENARIO(three_threads_1op, "3 threads x 1 operation; all schedules with at most 3 (thorough 4) preemptions", 5, 96) { contention(3, 1, mc::tiered(3, 4)); }
MC_SCENARIO(three_threads_2ops, "3 threads x 2 operations; all schedules with at most 1 (thorough 2) preemptions", 8, 96) { contention(3, 2, mc::tiered(1, 2)); }

// releasing a mutex one does not hold must not let anybody else in
MC_SCENARIO(foreign_unlock, "holder thread + intruder calling unlock() 0..2 times then trylock/lock; all schedules with at most 4 (thorough 5) preemptions", 4, 48) {
    int unlocks = mc::choose(3, "unlocks"), then = mc::choose(3, "then"); World w;
    sched::Options o; o.preemptions = mc::tiered(4, 5);
    sched::run(o, [&] {
        Mutex m; w.m = &m; sched::watch(&m, sizeof m, "Mutex", false); sched::watch((void *)&w.payload, sizeof w.payload, "protected data", true);
        Body b([&] { for (int i = 0; i < unlocks; ++i) m.unlock(); op(w, then); });
        b.start(); op(w, 0); op(w, 0); b.wait();
        mc::require(w.payload == w.done, "lost-update", "%ld critical sections, counter %ld", w.done, w.payload);
        m.lock(); m.unlock(); m.unlock();                      // unlocking an unlocked mutex is harmless
        mc::require(m.trylock(), "released", "mutex not free after a redundant unlock"); m.unlock();
        sched::unwatch(&m);
    });
    mc::outcome(mc::Hash("f").i(w.done).i(w.payload));
}

// single-thread histories against a one-bit model, including a second thread probing with trylock after every step
MC_SCENARIO(histories, "every sequence of 7 (thorough 8) operations from {lock, unlock, trylock, MutexLocker scope, foreign trylock, foreign unlock} legal for the model", 2, 32) {
    int depth = mc::tiered(7, 8); std::vector<int> ops; sched::Options o; o.fixedOrder = true;
    for (int i = 0; i < depth; ++i) ops.push_back(mc::choose(6, "op"));
    sched::run(o, [&] {
        Mutex m; bool held = false;
        for (int k : ops) {
            mc::state(mc::Hash("h").i(held).i(k));
            switch (k) {
            case 0: if (!held) { m.lock(); held = true; } break;                 // relocking is documented as deadlock: not legal
            case 1: m.unlock(); held = false; break;
            case 2: { bool r = m.trylock(); mc::require(r == !held, "trylock-model", "trylock=%d with the mutex %s", (int)r, held ? "held" : "free"); held = true; break; }
            case 3: if (!held) { MutexLocker l(&m); bool r = true; Body b([&] { r = m.trylock(); }); b.start(); b.wait(); mc::require(!r, "locker-holds", "another thread got the mutex inside a MutexLocker scope"); }
                    { MutexLocker none(0); } break;
            case 4: { bool r = false; Body b([&] { r = m.trylock(); if (r) m.unlock(); }); b.start(); b.wait(); mc::require(r == !held, "foreign-trylock", "foreign trylock=%d with the mutex %s", (int)r, held ? "held" : "free"); break; }
            case 5: { Body b([&] { m.unlock(); }); b.start(); b.wait(); bool r = false; Body c([&] { r = m.trylock(); if (r) m.unlock(); }); c.start(); c.wait(); mc::require(r == !held, "foreign-unlock", "after a foreign unlock, trylock=%d with the mutex %s", (int)r, held ? "held" : "free"); break; }
            }
        }
        m.unlock();
    });
}

// several mutexes: what one thread knows about one of them says nothing about another
MC_SCENARIO(two_mutexes, "every history of 5 (thorough 6) operations over two mutexes from {lock, unlock, trylock, locker scope holding both, foreign trylock} x 2: each is held or free independently of the other", 2, 48) {
    int depth = mc::tiered(5, 6); std::vector<int> ops; for (int i = 0; i < depth; ++i) ops.push_back(mc::choose(10, "op")); sched::Options o; o.fixedOrder = true;
    sched::run(o, [&] {
        Mutex m[2]; bool held[2] = {false, false};
        auto probe = [&](int i, bool expect) { bool r = false; Body b([&] { r = m[i].trylock(); if (r) m[i].unlock(); }); b.start(); b.wait(); mc::require(r == expect, "independent", "mutex %d: another thread's trylock gave %d with the mutex %s (the other one is %s)", i, (int)r, expect ? "free" : "held", held[1 - i] ? "held" : "free"); };
        for (int k : ops) {
            int i = k & 1; mc::state(mc::Hash("2").i(held[0]).i(held[1]).i(k));
            switch (k >> 1) {
            case 0: if (!held[i]) { m[i].lock(); held[i] = true; } break;
            case 1: m[i].unlock(); held[i] = false; break;
            case 2: { bool r = m[i].trylock(); mc::require(r == !held[i], "trylock-model", "trylock of mutex %d gave %d with the mutex %s", i, (int)r, held[i] ? "held" : "free"); held[i] = true; break; }
            case 3: if (!held[0] && !held[1]) { { MutexLocker a(&m[i]); probe(1 - i, true); { MutexLocker b(&m[1 - i]); probe(i, false); probe(1 - i, false); } probe(i, false); probe(1 - i, true); } probe(i, true); } break;
            case 4: probe(i, !held[i]); break;
            }
        }
        probe(0, !held[0]); probe(1, !held[1]); m[0].unlock(); m[1].unlock();
    });
}
MC_SCENARIO(nested, "2 threads that each take two mutexes in the same order (lock or locker, inner one tried or locked) and a third protected by one of them only, or one mutex each; all schedules with at most 2 (thorough 3) preemptions", 4, 48) {
    int how[2]; for (int &h : how) h = mc::choose(5, "program"); if (how[0] > how[1]) return; World a, b; sched::Options o; o.preemptions = mc::tiered(2, 3);
    sched::run(o, [&] {
        std::unique_ptr<Mutex> x(new Mutex), y(new Mutex); a.m = x.get(); b.m = y.get(); sched::watch(x.get(), sizeof(Mutex), "Mutex", false); sched::watch(y.get(), sizeof(Mutex), "Mutex", false); sched::watch((void *)&a.payload, sizeof a.payload, "protected by A", true); sched::watch((void *)&b.payload, sizeof b.payload, "protected by B", true);
        auto prog = [&](int h) {
            if (h == 0) { x->lock(); enter(a, "lock"); y->lock(); enter(b, "lock"); y->unlock(); x->unlock(); }
            else if (h == 1) { MutexLocker p(x.get()); MutexLocker q(y.get()); enter(b, "MutexLocker"); enter(a, "MutexLocker"); }
            else if (h == 2) { x->lock(); if (y->trylock()) { x->unlock(); enter(b, "trylock"); y->unlock(); } else { enter(a, "lock"); x->unlock(); } }
            else if (h == 3) { y->lock(); enter(b, "lock"); y->unlock(); x->unlock(); if (x->trylock()) { enter(a, "trylock"); x->unlock(); } }
            else { x->lock(); y->lock(); x->unlock(); enter(b, "lock"); y->unlock(); } };
        { Body t([&] { prog(how[1]); }); t.start(); prog(how[0]); t.wait(); }
        mc::require(a.payload == a.done && b.payload == b.done, "lost-update", "%ld and %ld critical sections, protected counters %ld and %ld", a.done, b.done, (long)a.payload, (long)b.payload);
        mc::require(x->trylock() && y->trylock(), "released", "a mutex is still held after every thread released it"); x->unlock(); y->unlock(); sched::unwatch(x.get()); sched::unwatch(y.get());
    });
    mc::outcome(mc::Hash("n").i(a.done).i(b.done).i(sched::stats().switches));
}
