// C04: Thread start / wait / destroy.
#include "threads.h"
#include <memory>
namespace {
struct W { volatile long a, b; int runs, active, begun, starts; W() : a(0), b(0), runs(0), active(0), begun(0), starts(0) {} };
// The destructor of this subclass waits only if run() has not been entered yet (calling run() on a subclass
// that is already gone is a C++ lifetime error of the caller); otherwise ~Thread alone must join.
struct Plain : public Thread { W *w; explicit Plain(W *w_) : w(w_) {} ~Plain() { if (w->begun < w->starts) wait(); } protected: void run() { W *x = w; x->begun++; x->active++; long v = x->a; sched::point("body"); x->a = v + 1; x->runs++; x->active--; } };
}
MC_SCENARIO(histories, "every sequence of 6 (thorough 8) operations from {create, start, wait, destroy, id} on one thread object that respects 'no start while started'; all schedules with <=2 preemptions", 3, 48) {
    int n = mc::tiered(6, 8); std::vector<int> ops; for (int i = 0; i < n; ++i) ops.push_back(mc::choose(5, "op"));
    W w; sched::Options o; o.preemptions = 2;
    sched::run(o, [&] {
        sched::watch((void *)&w.a, sizeof w.a, "thread payload", true);
        std::unique_ptr<Plain> t; int started = 0; bool live = false;
        for (int k : ops) {
            if (k == 0) { if (!t) t.reset(new Plain(&w)); }
            else if (!t) continue;
            else if (k == 1) { if (!live) { w.starts++; t->start(); live = true; started++; } }
            else if (k == 2) { t->wait(); live = false; mc::require(w.runs == started && w.active == 0, "wait-returns-early", "wait() returned: %d of %d runs finished", w.runs, started); mc::require(w.a == started, "visible", "effects of the joined run are not visible"); }
            else if (k == 3) { t.reset(); live = false; mc::require(w.runs == started && w.active == 0, "destroy-joins", "thread object destroyed while its run is unfinished (%d of %d)", w.runs, started); }
            else if (live) { Thread::Id id = t->id(); mc::require(id != 0 && id != (Thread::Id)(sched::self() + 1), "id", "id() of a started thread is not its own"); }
            mc::state(mc::Hash("h").i(!!t).i(live).i(started).i(w.runs).i(k));
        }
        t.reset(); mc::require(w.runs == started, "runs-once", "%d starts, %d runs", started, w.runs);
    });
    mc::outcome(mc::Hash("o").i(w.runs).i(sched::stats().switches));
}
MC_SCENARIO(several, "4 threads started together, waited in every order / destroyed unwaited; <=2 (thorough 3) preemptions", 4, 48) {
    int n = 4, mode = mc::choose(3, "mode"); W w[5]; sched::Options o; o.preemptions = mc::tiered(2, 3);
    sched::run(o, [&] {
        for (int i = 0; i < n; ++i) sched::watch((void *)&w[i].a, sizeof w[i].a, "thread payload", true);
        std::vector<std::unique_ptr<Plain> > t; for (int i = 0; i < n; ++i) t.emplace_back(new Plain(&w[i]));
        for (auto &x : t) { x->w->starts++; x->start(); }
        if (mode == 0) for (int i = 0; i < n; ++i) { t[i]->wait(); mc::require(w[i].runs == 1, "wait-returns-early", "thread %d not finished after wait", i); }
        if (mode == 1) for (int i = n - 1; i >= 0; --i) { t[i]->wait(); t[i]->wait(); mc::require(w[i].runs == 1, "wait-returns-early", "thread %d not finished after wait", i); }
        t.clear();
        for (int i = 0; i < n; ++i) mc::require(w[i].runs == 1 && w[i].a == 1, "runs-once", "thread %d ran %d times", i, w[i].runs);
    });
    mc::outcome(sched::stats().switches);
}
MC_SCENARIO(available, "threadingAvailable() in this build", 0, 1) { mc::step(); mc::state(1); mc::require(Thread::threadingAvailable(), "available", "threads are not available"); }
namespace {
// a thread whose body starts threads of its own; joined by its owner before destruction
struct Outer : public Thread { W *w, *in; int mode; Outer(W *w_, W *i_, int m) : w(w_), in(i_), mode(m) {} ~Outer() { wait(); } protected: void run() { { Plain a(&in[0]), b(&in[1]); in[0].starts++; a.start(); in[1].starts++; b.start(); if (mode == 0) { b.wait(); mc::require(in[1].runs == 1 && in[1].a == 1, "wait-returns-early", "wait() inside a thread returned early"); a.wait(); } if (mode == 1) { a.wait(); mc::require(in[0].runs == 1 && in[0].a == 1, "wait-returns-early", "wait() inside a thread returned early"); in[0].starts++; a.start(); } } long v = w->a; w->a = v + 1; w->runs++; } };
}
MC_SCENARIO(nested, "a thread that starts two threads itself and waits for them, restarts one or only destroys them, while its owner runs a thread of its own; <=2 (thorough 3) preemptions", 3, 48) {
    int mode = mc::choose(3, "mode"), order = mc::choose(2, "order"); W w[2], in[2]; sched::Options o; o.preemptions = mc::tiered(2, 3);
    sched::run(o, [&] {
        for (W *p : {&w[0], &w[1], &in[0], &in[1]}) sched::watch((void *)&p->a, sizeof p->a, "thread payload", true);
        { Plain s(&w[1]); Outer t(&w[0], in, mode); if (order) { w[1].starts++; s.start(); t.start(); } else { t.start(); w[1].starts++; s.start(); } s.wait(); mc::require(w[1].runs == 1, "wait-returns-early", "thread not finished after wait"); t.wait(); mc::require(w[0].runs == 1 && w[0].a == 1, "wait-returns-early", "outer thread not finished after wait"); mc::require(in[0].runs == (mode == 1 ? 2 : 1) && in[1].runs == 1, "runs-once", "inner threads ran %d and %d times", in[0].runs, in[1].runs); }
    });
    mc::outcome(sched::stats().switches);
}
MC_SCENARIO(joined_elsewhere, "a thread object started by one thread and waited for, waited for twice or destroyed by another; <=3 (thorough 4) preemptions", 3, 24) {
    int mode = mc::choose(4, "mode"); W a, b; sched::Options o; o.preemptions = mc::tiered(3, 4);
    sched::run(o, [&] {
        for (W *p : {&a, &b}) sched::watch((void *)&p->a, sizeof p->a, "thread payload", true);
        std::unique_ptr<Plain> t(new Plain(&a)); if (mode != 3) { a.starts++; t->start(); }
        auto joins = [&] { if (mode == 3) { a.starts++; t->start(); return; } if (mode == 2) t.reset(); else t->wait(); mc::require(a.runs == 1 && a.active == 0 && a.a == 1, "wait-returns-early", "thread not finished after %s by another thread", mode == 2 ? "destruction" : "wait()"); if (mode == 1) t->wait(); b.runs++; };
        { Body c(joins); c.start(); c.wait(); } if (mode == 3) { t->wait(); mc::require(a.runs == 1 && a.a == 1, "wait-returns-early", "a thread started elsewhere is not finished after wait()"); b.runs++; } t.reset(); mc::require(a.runs == 1 && b.runs == 1, "runs-once", "ran %d times", a.runs);
    });
    mc::outcome(sched::stats().switches);
}
