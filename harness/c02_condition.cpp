// C02: Condition.  All schedules, spurious wakeups, timeouts and clock phases.
#include "threads.h"
#include <memory>

namespace {
struct World { Condition *c; volatile long flag; volatile long taken; int holder; long wakes; World() : c(0), flag(0), taken(0), holder(-1), wakes(0) {} };
static void lock(World &w) { w.c->lock(); mc::require(w.holder == -1, "exclusion", "thread %d locked while thread %d holds the condition", sched::self(), w.holder); w.holder = sched::self(); }
static void unlock(World &w) { mc::require(w.holder == sched::self(), "exclusion", "thread %d holds, %d unlocks", w.holder, sched::self()); w.holder = -1; w.c->unlock(); }
static void wait(World &w, int us) {
    w.holder = -1; w.c->wait(us); w.wakes++;
    mc::require(w.holder == -1, "reacquire", "wait() returned in thread %d while thread %d holds the condition's lock", sched::self(), w.holder);
    w.holder = sched::self();
}
static void consume(World &w, int us) { lock(w); while (w.flag == 0) { wait(w, us); } long f = w.flag; w.flag = f - 1; w.taken = w.taken + 1; unlock(w); }
// signalling is allowed while holding the lock and after releasing it
static void produce(World &w, bool after) { lock(w); long f = w.flag; w.flag = f + 1; if (!after) w.c->signal(); unlock(w); if (after) w.c->signal(); }
static void watchAll(World &w) { sched::watch((void *)&w.flag, sizeof w.flag, "predicate", true); sched::watch((void *)&w.taken, sizeof w.taken, "taken", true); }
}

static void handoff(int consumers, int perProducer, int producers, sched::Options o, int us) {
    World w; bool after = mc::choose(2, "signal after unlock") == 1;
    sched::run(o, [&] {
        std::unique_ptr<Condition> c(new Condition("test")); w.c = c.get(); watchAll(w); sched::watch(c.get(), sizeof(Condition), "Condition", false);
        {
            std::vector<std::unique_ptr<Body> > th;
            for (int i = 0; i < consumers; ++i) th.emplace_back(new Body([&w, us] { consume(w, us); }));
            for (int i = 1; i < producers; ++i) th.emplace_back(new Body([&w, perProducer, after] { for (int k = 0; k < perProducer; ++k) produce(w, after); }));
            for (auto &t : th) t->start();
            for (int k = 0; k < perProducer; ++k) produce(w, after);
            for (auto &t : th) t->wait();
        }
        mc::require(w.taken == consumers && w.flag == (long)producers * perProducer - consumers, "tokens", "taken %ld of %d, left %ld", (long)w.taken, consumers, (long)w.flag);
        sched::unwatch(c.get());
    });
    mc::outcome(mc::Hash("h").i(w.wakes).i(sched::stats().switches));
}
static const int waits[] = {0, 1, 250000, 1000000};
MC_SCENARIO(one_to_one, "signal while holding the lock or after releasing it: 1 producer, 1 consumer (wait us in {0,1,250000,1000000}); <=3 (thorough 4) preemptions, <=1 (thorough 2) spurious wakeups, <=1 (thorough 2) early timeouts", 5, 48) {
    sched::Options o; o.preemptions = mc::tiered(3, 4); o.spurious = mc::tiered(1, 2); o.timeouts = mc::tiered(1, 2); handoff(1, 1, 1, o, mc::pick(waits, "us"));
}
MC_SCENARIO(two_consumers, "signal while holding the lock or after releasing it: 1 producer of 2 tokens, 2 consumers; <=2 preemptions, <=1 spurious wakeup, thorough also timed waits with <=1 early timeout", 6, 96) {
    sched::Options o; o.preemptions = 2; o.spurious = 1; o.timeouts = mc::tiered(0, 1); handoff(2, 2, 1, o, mc::tiered(0, 1) ? mc::pick(waits, "us") : 0);
}
MC_SCENARIO(two_producers, "signal while holding the lock or after releasing it: 2 producers x 1 token, 2 consumers; <=2 preemptions (thorough 3)", 6, 96) {
    sched::Options o; o.preemptions = mc::tiered(2, 3); handoff(2, 1, 2, o, 0);
}
// a timed wait that nobody signals: exact duration for every phase of the clock within the second
MC_SCENARIO(timed_expiry, "every (clock microsecond phase, wait duration) in a 14 x 23 grid (durations of 1 microsecond up to the largest an int can hold, around the carry points) at 6 dates (2001, 2023, around 2038 and 2106) plus every phase that makes phase+duration land on or within 2us of a second boundary", 2, 8) {
    static const int durs[] = {1, 2, 3, 999, 1000, 250000, 499999, 500000, 999998, 999999, 1000000, 1000001, 1500000, 2000000, 2500000, 3000000, 3999999, 7250001, 60000000, 1000000001, 2146999999, 2147483646, 2147483647};
    int us = mc::pick(durs, "us"); std::vector<int> ph;
    static const int fixedPh[] = {0, 1, 2, 499999, 500000, 750000, 999997, 999998, 999999};
    for (int p : fixedPh) ph.push_back(p);
    for (int d = -2; d <= 2; ++d) { int p = (2000000 - us % 1000000 + d) % 1000000; ph.push_back(p); }
    if (mc::thorough()) for (int p = 0; p < 1000000; p += 3917) ph.push_back(p);
    int phase = mc::pick(ph, "phase");
    static const long long dates[] = {1700000000LL, 999999999LL, 2147483646LL, 2147483647LL, 4294967294LL, 4294967295LL}; sched::Options o; o.startUs = mc::pick(dates, "date") * 1000000LL + phase;
    sched::run(o, [&] {
        World w; Condition c("timed"); w.c = &c;
        lock(w); long long t0 = sched::nowUs(); wait(w, us); long long t1 = sched::nowUs();
        mc::require(t1 - t0 >= us, "timed-too-short", "wait(%d) with the clock at .%06d s returned after %lld us without a signal", us, phase, t1 - t0);
        mc::require(t1 - t0 <= us + 1000LL, "timed-too-long", "wait(%d) with the clock at .%06d s took %lld us", us, phase, t1 - t0);
        unlock(w);
        lock(w); unlock(w); // still usable
    });
    mc::state(mc::Hash("t").i(us).i(phase).i((long)(o.startUs / 1000000)));
}
// the lock is really free during wait() and really held afterwards
MC_SCENARIO(lock_free_during_wait, "waiter + thread that must acquire the lock while the waiter waits, then signals (before or after unlocking); us in {0,250000,1000000}; <=2 preemptions, <=1 spurious", 4, 16) {
    static const int dd[] = {0, 250000, 1000000}; int us = mc::pick(dd, "us"); sched::Options o; o.preemptions = 2; o.spurious = 1; World w; volatile long go = 0;
    sched::run(o, [&] {
        Condition c("x"); w.c = &c; sched::watch((void *)&go, sizeof go, "go", true);
        bool after = mc::choose(2, "after") == 1;
        Body b([&] { lock(w); go = 1; if (!after) w.c->signal(); unlock(w); if (after) w.c->signal(); });
        lock(w); b.start(); while (!go) wait(w, us); unlock(w); b.wait();
        lock(w); unlock(w);
    });
    mc::outcome(w.wakes);
}
// sequential lifecycle: construction, lock/unlock pairs, destruction while the destroying thread holds the lock
MC_SCENARIO(lifecycle, "every sequence of 5 operations from {lock, unlock, signal, timed wait}, then destruction (locked or unlocked)", 0, 1) {
    std::vector<int> ops; for (int i = 0; i < 5; ++i) ops.push_back(mc::choose(4, "op")); sched::Options o;
    sched::run(o, [&] {
        bool held = false; Condition c("l");
        for (int k : ops) {
            if (k == 0 && !held) { c.lock(); held = true; } else if (k == 1) { c.unlock(); held = false; } else if (k == 2) c.signal(); else if (k == 3 && held) c.wait(1500000);
            Body b([&] { if (!held) { c.lock(); c.unlock(); } }); b.start(); b.wait();
            mc::state(mc::Hash("l").i(held).i(k));
        }
    });
}
// several conditions in use at once: each has its own lock and its own waiters
MC_SCENARIO(two_conditions, "2 conditions with a consumer each and one producer that serves them in either order, nested (holding one while signalling the other) or not; waits of 0 and 250000 us; <=2 (thorough 3) preemptions, <=1 spurious wakeup", 5, 96) {
    int mode = mc::choose(4, "producer"); static const int dd[] = {0, 250000}; int us = mc::pick(dd, "us"); sched::Options o; o.preemptions = mc::tiered(2, 3); o.spurious = 1; World w[2];
    sched::run(o, [&] {
        Condition c0("same name"), c1("same name"); w[0].c = &c0; w[1].c = &c1; watchAll(w[0]); watchAll(w[1]);
        { Body a([&] { consume(w[0], us); }), b([&] { consume(w[1], 0); }); a.start(); b.start();
          if (mode == 0) { produce(w[0], false); produce(w[1], false); } else if (mode == 1) { produce(w[1], true); produce(w[0], false); }
          else { World &p = w[mode - 2], &q = w[3 - mode]; lock(p); produce(q, mode == 3); long f = p.flag; p.flag = f + 1; p.c->signal(); unlock(p); }
          a.wait(); b.wait(); }
        for (int i = 0; i < 2; ++i) { mc::require(w[i].taken == 1 && w[i].flag == 0, "tokens", "condition %d: taken %ld, left %ld", i, (long)w[i].taken, (long)w[i].flag); lock(w[i]); unlock(w[i]); }
    });
    mc::outcome(mc::Hash("2").i(w[0].wakes).i(w[1].wakes).i(sched::stats().switches));
}
