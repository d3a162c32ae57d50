// C03: AsynchronousTask: start/await runs the task exactly once, await returns only after it, everything terminates.
#include "threads.h"
#include "thread/AsynchronousTask.h"
#include <memory>
namespace {
struct Task : public AsynchronousTask {
    volatile long in, out; int ran, running; bool wantAwait; int worker;
    Task() : in(0), out(0), ran(0), running(0), wantAwait(false), worker(-1) { sched::watch((void *)&in, sizeof in, "task input", true); sched::watch((void *)&out, sizeof out, "task output", true); }
    ~Task() { sched::unwatch((void *)&in); sched::unwatch((void *)&out); }
    void request(long v) { in = v; startTask(); }
    long result() { awaitTask(); return out; }
protected:
    void performTask() {
        mc::require(running == 0, "reentrant", "performTask entered twice at once"); running++;
        mc::require(sched::self() != 0, "thread", "task ran on the caller's thread");
        long v = in; sched::point("working"); out = v * 2 + 1; ran++; running--;
    }
};
}
static void rounds(int ntasks, int nrounds, sched::Options o) {
    long total = 0;
    sched::run(o, [&] {
        std::vector<std::unique_ptr<Task> > t; for (int i = 0; i < ntasks; ++i) t.emplace_back(new Task);
        for (int r = 0; r < nrounds; ++r) {
            for (int i = 0; i < ntasks; ++i) t[i]->request(10 * r + i);
            for (int i = 0; i < ntasks; ++i) {
                long v = t[i]->result();
                mc::require(t[i]->ran == r + 1, "exactly-once", "after await number %d the task has run %d times", r + 1, t[i]->ran);
                mc::require(t[i]->running == 0, "await-early", "awaitTask returned while the task was running");
                mc::require(v == 2 * (10 * r + i) + 1, "result", "round %d: result %ld, expected %d", r, v, 2 * (10 * r + i) + 1);
            }
            mc::state(mc::Hash("r").i(r));
        }
        for (auto &x : t) total += x->ran;
        t.clear();
        mc::require(total == (long)ntasks * nrounds, "exactly-once", "%ld runs for %d requests", total, ntasks * nrounds);
    });
    mc::outcome(mc::Hash("o").i(total).i(sched::stats().switches));
}
MC_SCENARIO(idle, "construct and destroy without a task, 1..2 tasks; <=3 (thorough 4) preemptions, <=1 (thorough 2) spurious wakeups", 3, 32) { sched::Options o; o.preemptions = mc::tiered(3, 4); o.spurious = mc::tiered(1, 2); rounds(1 + mc::choose(2), 0, o); }
MC_SCENARIO(one_round, "1 task, 1 request; <=4 (thorough 5) preemptions, <=2 spurious wakeups", 5, 48) { sched::Options o; o.preemptions = mc::tiered(4, 5); o.spurious = 2; rounds(1, 1, o); }
MC_SCENARIO(two_rounds, "1 task, 2 consecutive requests; <=3 (thorough 5) preemptions, <=1 (thorough 2) spurious wakeups", 5, 48) { sched::Options o; o.preemptions = mc::tiered(3, 5); o.spurious = mc::tiered(1, 2); rounds(1, 2, o); }
MC_SCENARIO(three_rounds, "1 task, 3 consecutive requests; <=2 (thorough 4) preemptions, <=1 spurious wakeup", 5, 48) { sched::Options o; o.preemptions = mc::tiered(2, 4); o.spurious = 1; rounds(1, 3, o); }
MC_SCENARIO(two_tasks, "2 tasks started together then awaited, 1 round; <=2 (thorough 3) preemptions, <=1 spurious wakeup", 6, 96) { sched::Options o; o.preemptions = mc::tiered(2, 3); o.spurious = 1; rounds(2, 1, o); }
MC_SCENARIO(two_tasks_two_rounds, "2 tasks, 2 rounds; <=1 (thorough 2) preemptions, <=1 spurious wakeup", 6, 96) { sched::Options o; o.preemptions = mc::tiered(1, 2); o.spurious = 1; rounds(2, 2, o); }

// tasks really run in the background: work that is under way may depend on other tasks and on the caller, before anybody awaits it
MC_SCENARIO(overlap, "2 tasks whose work needs each other to be under way (each sets its own flag and waits for the other's), and 1 task whose work the caller waits to see begin before it awaits; awaited in either order; <=1 (thorough 2) preemptions, <=1 spurious wakeup", 6, 96) {
    sched::Options o; o.preemptions = mc::tiered(1, 2); o.spurious = 1; int order = mc::choose(2, "order"), kind = mc::choose(2, "kind");
    struct Meet { Condition c; int here; Meet() : c("meet"), here(0) {} void arrive() { c.lock(); ++here; c.signal(); c.unlock(); } void until(int n) { c.lock(); while (here < n) c.wait(); c.unlock(); } };
    struct T : public AsynchronousTask { Meet *mine, *other; int ran; T(Meet *a, Meet *b) : mine(a), other(b), ran(0) {} void go() { startTask(); } void end() { awaitTask(); } void performTask() { mine->arrive(); if (other) other->until(1); ran++; } };
    sched::run(o, [&] {
        Meet a, b;
        if (kind == 0) { T x(&a, &b), y(&b, &a); x.go(); y.go(); if (order) { y.end(); x.end(); } else { x.end(); y.end(); } mc::require(x.ran == 1 && y.ran == 1, "exactly-once", "ran %d and %d times", x.ran, y.ran); }
        else { T x(&a, order ? &b : 0); x.go(); a.until(1); b.arrive(); x.end(); mc::require(x.ran == 1, "exactly-once", "ran %d times", x.ran); }
    });
    mc::outcome(mc::Hash("v").i(order).i(kind).i(sched::stats().switches));
}
