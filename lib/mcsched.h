// Controlled cooperative scheduler over the real pthread-based code (flavour "sched").
// All pthread_* / clock calls of the library and harness are wrapped at link time; threads are
// fibres, exactly one runs, and every switch is an mc::choose().
#pragma once
#include <functional>
#include <cstddef>
#include <vector>
#include <string>

namespace sched {
struct Options {
    int preemptions;     // switches away from a runnable thread
    int spurious;        // spurious condition-variable wakeups the environment may inject
    int timeouts;        // timed waits that may expire although another thread could run
    int maxSteps;
    bool raceAll;        // happens-before race check on every non-stack access (not only watched regions)
    bool randIsShared;   // rand()/srand() count as accesses to one shared location
    bool fixedOrder;     // no choices at all: run threads to completion in creation order (race check only)
    long long startUs;   // virtual clock at the start, microseconds since the epoch
    Options() : preemptions(2), spurious(0), timeouts(0), maxSteps(20000), raceAll(false), randIsShared(true), fixedOrder(false), startUs(1000000000LL * 1000000LL) {}
};
struct Stats { long steps, switches, accesses, conflicts, threads; };

void run(const Options &o, const std::function<void()> &mainBody); // main fibre = thread 0
int self();
void point(const char *what = "point");
// memory region whose accesses are scheduling points; report=true also race-checks it
void watch(const void *p, size_t n, const char *name, bool report);
void unwatch(const void *p);
long long nowUs();                 // virtual clock
int blockedThreads();              // threads blocked on a mutex, condition or join right now
bool waitingOnCond(int tid);
int waitersAnywhere();             // threads blocked in a condition wait
Stats stats();
std::vector<std::string> races();  // race reports collected in raceAll mode (and not failed)
extern bool failOnRace;
}
