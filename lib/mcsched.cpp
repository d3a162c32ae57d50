#include "mcsched.h"
#include "mc.h"
#include <dlfcn.h>
#include <link.h>
#include <cxxabi.h>
#include <errno.h>
#include <execinfo.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <new>
#include <set>
#include <unordered_map>

extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **); int __real_pthread_detach(pthread_t); pthread_t __real_pthread_self(void);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *); int __real_pthread_cond_destroy(pthread_cond_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *); int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *); int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_gettimeofday(struct timeval *, void *); int __real_clock_gettime(clockid_t, struct timespec *);
int __real_usleep(useconds_t); int __real_sched_yield(void); int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_rand(void); void __real_srand(unsigned);
int __real___cxa_guard_acquire(void *); void __real___cxa_guard_release(void *); void __real___cxa_guard_abort(void *);
int __real_pthread_once(pthread_once_t *, void (*)(void));
}
namespace mc { void take_pending(); }

namespace sched {
bool failOnRace = true;
typedef std::vector<int> VC;
enum St { Runnable, BlockedMutex, BlockedCond, BlockedJoin, Done };
static const size_t STK = 512 * 1024;
struct Fiber {
    ucontext_t ctx; char *stack; St st; void *on; void *mutexAfter; bool timed; long long deadline; int wake; // wake: 1 signalled 2 timeout 3 spurious
    void *(*fn)(void *); void *arg; void *ret; bool detached, joined; VC vc; std::function<void()> body; std::vector<char> tls;
};
struct Mx { int owner; int count; int type; bool dead; VC vc; };
struct Cv { bool dead; std::vector<int> waiters; };
struct Access { int tid; int clk; uint8_t mask; bool w; void *pc; };
struct Watch { uintptr_t lo, hi; std::string name; bool report; };

static bool active = false;           // a controlled run is in progress
static int busy = 0;                  // inside the scheduler itself: do not instrument
static Options opt;
static std::vector<Fiber *> fib;
static int cur = -1;
static ucontext_t mainCtx;
static std::vector<char *> stackPool;
static std::map<void *, Mx> mx;
static std::map<void *, Cv> cv;
static std::vector<Watch> watches;
static std::unordered_map<uintptr_t, std::vector<Access>> *shadow;
static int preUsed, spurUsed, toUsed;
static long long clockUs;
static Stats st;
static std::map<void *, VC> *atom;
static VC *atomOf(void *a) { if (!atom) atom = new std::map<void *, VC>(); return &(*atom)[a]; }
static void atomReset() { if (atom) atom->clear(); }
static std::vector<std::string> raceList;
static std::set<std::string> raceSeen;

struct Busy { Busy() { busy++; } ~Busy() { busy--; } };
static inline bool ctl() { return active && !busy && cur >= 0; }

int self() { return cur; }
long long nowUs() { return clockUs; }
Stats stats() { return st; }
std::vector<std::string> races() { return raceList; }
int blockedThreads() { int n = 0; for (auto f : fib) if (f->st == BlockedMutex || f->st == BlockedCond || f->st == BlockedJoin) n++; return n; }
int waitersAnywhere() { int n = 0; for (auto f : fib) if (f->st == BlockedCond) n++; return n; }
bool waitingOnCond(int t) { return t < (int)fib.size() && fib[t]->st == BlockedCond; }

static void join(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
static void tick(int t) { VC &v = fib[t]->vc; if ((int)v.size() <= t) v.resize(t + 1); v[t]++; }

[[noreturn]] static void hookAbort() {
    busy++; // never instrument again in this execution
    setcontext(&mainCtx); abort();
}

static bool enabled(int t, int &kind) { // kind 0 normal 1 timeout(free?) 2 spurious
    Fiber *f = fib[t]; kind = 0;
    switch (f->st) {
    case Runnable: return true;
    case BlockedMutex: { Mx &m = mx[f->on]; return m.owner < 0; }
    case BlockedJoin: { long j = (long)f->on; return fib[j]->st == Done; }
    case BlockedCond: return f->wake != 0 && mx[f->mutexAfter].owner < 0;
    case Done: return false;
    }
    return false;
}
static uint64_t schedHash() {
    mc::Hash h("S"); for (auto f : fib) h.i(f->st).i(f->wake); for (auto &m : mx) h.i(m.second.owner); h.i(cur); return h;
}
// thread-local variables: all fibres share one OS thread, so the program's TLS block is swapped with them
static char *tlsBase; static size_t tlsSize; static std::vector<char> *tlsInit, *tlsMain;
static int tlsFind(struct dl_phdr_info *i, size_t, void *) { // the first entry is the program itself
    for (int k = 0; k < i->dlpi_phnum; ++k) { const ElfW(Phdr) &h = i->dlpi_phdr[k]; if (h.p_type != PT_TLS) continue;
        size_t al = h.p_align ? h.p_align : 1; tlsSize = h.p_memsz;
        tlsBase = (char *)__builtin_thread_pointer() - ((h.p_memsz + al - 1) / al * al);
        tlsInit = new std::vector<char>(h.p_memsz, 0); memcpy(tlsInit->data(), (char *)i->dlpi_addr + h.p_vaddr, h.p_filesz); }
    return 1;
}
static void tlsSetup() { static bool done; if (!done) { done = true; dl_iterate_phdr(tlsFind, 0); if (tlsSize) tlsMain = new std::vector<char>(tlsSize); } if (tlsSize) memcpy(tlsMain->data(), tlsBase, tlsSize); }
static void tlsSwap(Fiber *from, Fiber *to) { if (!tlsSize) return; if (from) from->tls.assign(tlsBase, tlsBase + tlsSize); memcpy(tlsBase, to->tls.data(), tlsSize); }
static void wakeCond(int t, int how) {
    Fiber *f = fib[t]; f->wake = how;
    Cv &c = cv[f->on]; c.waiters.erase(std::remove(c.waiters.begin(), c.waiters.end(), t), c.waiters.end());
    if (how == 2) clockUs = std::max(clockUs, f->deadline);
}
static void switchTo(int t) {
    Fiber *from = cur >= 0 ? fib[cur] : 0; Fiber *to = fib[t];
    if (to->st == BlockedMutex || to->st == BlockedJoin) to->st = Runnable; // the op re-checks and completes
    if (to->st == BlockedCond) to->st = Runnable;
    if (cur == t) return;
    st.switches++; cur = t; tlsSwap(from, to);
    if (from) swapcontext(&from->ctx, &to->ctx); else abort();
}
// pick the next thread to run; called by the running fibre before a visible operation or when blocked
static void reschedule(const char *what) {
    (void)what;
    if (++st.steps > opt.maxSteps) mc::fail("livelock", "no progress: more than %d scheduling steps", opt.maxSteps);
    mc::step(); mc::state(schedHash());
    for (;;) {
        std::vector<std::pair<int, int>> en; // thread, kind
        int k; bool curEn = fib[cur]->st == Runnable;
        if (curEn) en.push_back({cur, 0});
        for (int t = 0; t < (int)fib.size(); ++t) if (t != cur || !curEn) if (enabled(t, k)) en.push_back({t, 0});
        size_t normal = en.size();
        if (opt.fixedOrder) {
            if (normal) { switchTo(en[0].first); return; }
        } else {
            for (int t = 0; t < (int)fib.size(); ++t) { Fiber *f = fib[t];
                if (f->st == BlockedCond && f->wake == 0) {
                    if (f->timed && (toUsed < opt.timeouts || normal == 0)) en.push_back({t, 1});
                    if (spurUsed < opt.spurious) en.push_back({t, 2}); } }
        }
        if (opt.fixedOrder && en.empty()) for (int t = 0; t < (int)fib.size(); ++t) if (fib[t]->st == BlockedCond && fib[t]->wake == 0 && fib[t]->timed) en.push_back({t, 1});
        if (normal == 0) { // only environment wakeups could help: a timeout counts as progress, a spurious wakeup does not
            bool to = false; for (auto &e : en) if (e.second == 1) to = true;
            if (!to) {
                bool alldone = true; for (auto f : fib) if (f->st != Done) alldone = false;
                if (alldone) hookAbort(); // cannot happen: thread 0 ends the run
                std::string s; for (size_t t = 0; t < fib.size(); ++t) { static const char *n[] = {"runnable", "blocked on a mutex", "waiting on a condition", "joining", "finished"}; char b[80]; snprintf(b, sizeof b, "thread %zu %s; ", t, n[fib[t]->st]); s += b; }
                mc::fail("deadlock", "deadlock: %s", s.c_str());
            }
        }
        int n = (int)en.size(), c = 0;
        if (curEn && preUsed >= opt.preemptions) { // may only continue, or take environment wakeups (which do not switch)
            std::vector<std::pair<int, int>> e2; e2.push_back(en[0]); for (auto &e : en) if (e.second) e2.push_back(e); en.swap(e2); n = (int)en.size();
        }
        if (n > 1) c = mc::choose(n, "sched");
        std::pair<int, int> pickd = en[c];
        if (pickd.second == 1) { if (normal) toUsed++; wakeCond(pickd.first, 2); mc::logf("timeout t%d", pickd.first); continue; }
        if (pickd.second == 2) { spurUsed++; wakeCond(pickd.first, 3); mc::logf("spurious-wakeup t%d", pickd.first); continue; }
        if (curEn && pickd.first != cur) { preUsed++; }
        if (pickd.first != cur) mc::logf("[t%d->t%d at %s]", cur, pickd.first, what);
        switchTo(pickd.first);
        return;
    }
}
void point(const char *what) { if (!ctl()) return; Busy b; reschedule(what); }

static void fiberMain(unsigned lo, unsigned hi) {
    Fiber *f = (Fiber *)(((uintptr_t)hi << 32) | lo);
    busy = 0;
    if (f->body) f->body(); else f->ret = f->fn(f->arg);
    busy++;
    f->st = Done; tick(cur);
    mc::logf("t%d done", cur);
    if (cur == 0) { // main body finished: the run is over only when every thread is
        for (;;) {
            bool all = true; for (auto g : fib) if (g->st != Done) all = false;
            if (all) setcontext(&mainCtx);
            // main returned with threads still alive: let them finish
            reschedule("main-done");
            // never resumed (Done)
        }
    }
    bool all = true; for (auto g : fib) if (g->st != Done) all = false;
    if (all) setcontext(&mainCtx);
    reschedule("thread-end");
    abort();
}
static int newFiber() {
    Fiber *f = new Fiber(); f->st = Runnable; f->on = 0; f->timed = false; f->wake = 0; f->fn = 0; f->detached = f->joined = false;
    if (stackPool.empty()) { char *s = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); stackPool.push_back(s); }
    f->stack = stackPool.back(); stackPool.pop_back();
    getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STK; f->ctx.uc_link = 0;
    uintptr_t p = (uintptr_t)f; makecontext(&f->ctx, (void (*)())fiberMain, 2, (unsigned)p, (unsigned)(p >> 32));
    if (tlsSize) f->tls = *tlsInit;
    fib.push_back(f); return (int)fib.size() - 1;
}
void run(const Options &o, const std::function<void()> &mainBody) {
    opt = o; preUsed = spurUsed = toUsed = 0; clockUs = o.startUs; st = Stats(); mx.clear(); cv.clear(); watches.clear(); raceList.clear(); raceSeen.clear();
    atomReset(); if (!shadow) shadow = new std::unordered_map<uintptr_t, std::vector<Access>>(); shadow->clear();
    fib.clear(); cur = -1; busy = 1; tlsSetup();
    int t = newFiber(); fib[0]->body = mainBody; tick(t);
    mc::abort_hook = hookAbort;
    volatile int phase = 0;
    getcontext(&mainCtx);
    if (phase == 0) {
        phase = 1; active = true; mc::in_fiber = true; cur = 0;
        tlsSwap(0, fib[0]);
        setcontext(&fib[0]->ctx);
    }
    active = false; mc::in_fiber = false; busy = 0; cur = -1;
    if (tlsSize) memcpy(tlsBase, tlsMain->data(), tlsSize);
    st.threads = (long)fib.size();
    for (auto f : fib) { stackPool.push_back(f->stack); f->body = std::function<void()>(); delete f; }
    fib.clear();
    mc::take_pending();
}

// ---- memory ------------------------------------------------------------------
void watch(const void *p, size_t n, const char *name, bool report) { Busy b; Watch w; w.lo = (uintptr_t)p; w.hi = w.lo + n; w.name = name; w.report = report; watches.push_back(w); }
void unwatch(const void *p) { Busy b; for (size_t i = 0; i < watches.size(); ++i) if (watches[i].lo == (uintptr_t)p) { watches.erase(watches.begin() + i); return; } }
static bool ownStack(uintptr_t a) { Fiber *f = fib[cur]; return (a >= (uintptr_t)f->stack && a < (uintptr_t)f->stack + STK) || (tlsSize && a >= (uintptr_t)tlsBase && a < (uintptr_t)tlsBase + tlsSize); }
static std::string where(void *pc) {
    Dl_info d; if (dladdr(pc, &d) && d.dli_sname) { int s; char *n = abi::__cxa_demangle(d.dli_sname, 0, 0, &s); std::string r = s == 0 && n ? n : d.dli_sname; if (n) __real_free(n);
        size_t p = r.find('('); if (p != std::string::npos) r.resize(p); return r; }
    return "?";
}
static void recordAccess(uintptr_t a, size_t n, bool w, void *pc, const char *name, bool report) {
    for (uintptr_t g = a & ~(uintptr_t)7; g < a + n; g += 8) {
        uint8_t mask = 0; for (int i = 0; i < 8; ++i) if (g + i >= a && g + i < a + n) mask |= 1 << i;
        std::vector<Access> &c = (*shadow)[g];
        const VC &me = fib[cur]->vc; bool have = false;
        for (auto &x : c) {
            if (x.tid == cur) { if (x.w == w && (mask & ~x.mask) == 0) { x.clk = me[cur]; x.pc = pc; have = true; } continue; }
            if (!(x.mask & mask) || (!x.w && !w)) continue;
            bool hb = (int)me.size() > x.tid && me[x.tid] >= x.clk;
            if (!hb) {
                st.conflicts++;
                std::string s = std::string(name) + ": unordered " + (w ? "write" : "read") + " in " + where(pc) + " against " + (x.w ? "write" : "read") + " in " + where(x.pc);
                if (raceSeen.insert(s).second) raceList.push_back(s);
                if (report && failOnRace) mc::fail("data-race", "%s (threads %d and %d)", s.c_str(), cur, x.tid);
            }
        }
        if (!have) { Access x = {cur, me[cur], mask, w, pc}; c.push_back(x); }
    }
}
static void clearShadow(void *p, size_t n) { if (!shadow) return; uintptr_t a = (uintptr_t)p; for (uintptr_t g = a & ~(uintptr_t)7; g < a + n; g += 8) shadow->erase(g); }
static void access(void *addr, size_t n, bool w, void *pc) {
    if (!ctl()) return;
    uintptr_t a = (uintptr_t)addr;
    for (size_t i = 0; i < watches.size(); ++i) if (a < watches[i].hi && a + n > watches[i].lo) {
        Busy b; bool rep = watches[i].report; std::string nm = watches[i].name;
        reschedule(w ? "store" : "load"); st.accesses++;
        recordAccess(a, n, w, pc, nm.c_str(), rep); return;
    }
    if (opt.raceAll && !ownStack(a)) { Busy b; st.accesses++; recordAccess(a, n, w, pc, "shared memory", false); }
}
// fresh memory holds garbage, and synchronisation objects that lived there before are gone
static void fresh(void *p, size_t n) {
    if (!active || busy || cur < 0 || !p) return;
    Busy b; memset(p, 0xA5, n);
    for (auto i = mx.lower_bound(p); i != mx.end() && (char *)i->first < (char *)p + n; ) i = mx.erase(i);
    for (auto i = cv.lower_bound(p); i != cv.end() && (char *)i->first < (char *)p + n; ) i = cv.erase(i);
}
static void afterAlloc(void *p, size_t n) { if (active && opt.raceAll && p) { Busy b; clearShadow(p, n); } }
static void beforeFree(void *p) { (void)p; }
} // namespace sched

using namespace sched;
namespace {
// an object first seen in use may only be a statically initialised one
static bool garbage(const void *p) { const unsigned char *b = (const unsigned char *)p; for (int i = 0; i < 8; ++i) if (b[i] != 0xA5) return false; return true; }
static int owner(pthread_mutex_t *m) { return mx[m].owner; }
static Mx &mget(pthread_mutex_t *m, const char *op) {
    auto i = mx.find(m);
    if (i == mx.end()) { if (garbage(m)) mc::fail("uninitialised", "%s on a mutex that was never initialised", op); Mx x; x.owner = -1; x.count = 0; x.type = PTHREAD_MUTEX_NORMAL; x.dead = false; i = mx.insert({(void *)m, x}).first; }
    if (i->second.dead) mc::fail("use-after-destroy", "%s on a destroyed mutex", op);
    return i->second;
}
static Cv &cget(pthread_cond_t *c, const char *op) {
    auto i = cv.find(c);
    if (i == cv.end()) { if (garbage(c)) mc::fail("uninitialised", "%s on a condition variable that was never initialised", op); Cv x; x.dead = false; i = cv.insert({(void *)c, x}).first; }
    if (i->second.dead) mc::fail("use-after-destroy", "%s on a destroyed condition variable", op);
    return i->second;
}
static int lockImpl(pthread_mutex_t *m, bool pointFirst) {
    if (pointFirst) reschedule("mutex-lock");
    Mx &x = mget(m, "lock");
    if (x.owner == cur && x.type == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
    if (x.owner == cur && x.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    while (mget(m, "lock").owner >= 0) { fib[cur]->st = BlockedMutex; fib[cur]->on = m; reschedule("mutex-blocked"); }
    Mx &y = mget(m, "lock"); y.owner = cur; y.count = 1; join(fib[cur]->vc, y.vc);
    return 0;
}
static void unlockImpl(pthread_mutex_t *m, const char *op) {
    Mx &x = mget(m, op);
    if (x.owner != cur) mc::fail("unlock-not-owned", "%s: pthread mutex released by a thread that does not hold it (holder %d, caller %d)", op, x.owner, cur);
    if (--x.count > 0) return;
    x.owner = -1; join(x.vc, fib[cur]->vc); tick(cur);
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    reschedule("cond-wait");
    cget(c, "wait"); Mx &x = mget(m, "wait");
    if (x.owner != cur) mc::fail("wait-without-lock", "condition wait by a thread that does not hold the mutex");
    if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L)) return EINVAL;
    long long dl = ts ? (long long)ts->tv_sec * 1000000LL + (ts->tv_nsec + 999) / 1000 : 0;
    unlockImpl(m, "wait");
    Fiber *f = fib[cur]; f->st = BlockedCond; f->on = c; f->mutexAfter = m; f->timed = ts != 0; f->deadline = dl; f->wake = 0;
    cget(c, "wait").waiters.push_back(cur);
    mc::logf("t%d waits", cur);
    if (ts && dl <= clockUs) wakeCond(cur, 2);
    reschedule("cond-blocked");
    int how = fib[cur]->wake; fib[cur]->wake = 0; fib[cur]->timed = false;
    lockImpl(m, false);
    return how == 2 ? ETIMEDOUT : 0;
}
}
extern "C" {
#define W(x) __wrap_##x
pthread_t W(pthread_self)(void) { if (active && cur >= 0) return (pthread_t)(uintptr_t)(cur + 1); return __real_pthread_self(); }
int W(pthread_create)(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!ctl()) return __real_pthread_create(t, a, fn, arg);
    Busy b; int n = newFiber(); fib[n]->fn = fn; fib[n]->arg = arg;
    tick(cur); join(fib[n]->vc, fib[cur]->vc); tick(n); tick(cur);
    // the id is stored by the creating thread, possibly after the new thread has started
    bool early = true; if (early) *t = (pthread_t)(uintptr_t)(n + 1);
    mc::logf("t%d creates t%d", cur, n);
    reschedule("thread-create"); return 0;
}
int W(pthread_join)(pthread_t t, void **r) {
    if (!ctl()) return __real_pthread_join(t, r);
    Busy b; long j = (long)t - 1; reschedule("join");
    if (j < 0 || j >= (long)fib.size()) mc::fail("bad-join", "join of a thread that was never created");
    if (fib[j]->joined || fib[j]->detached) mc::fail("bad-join", "thread %ld joined twice (or after detach)", j);
    if (j == cur) return EDEADLK;
    while (fib[j]->st != Done) { fib[cur]->st = BlockedJoin; fib[cur]->on = (void *)j; reschedule("join-blocked"); }
    fib[j]->joined = true; join(fib[cur]->vc, fib[j]->vc); if (r) *r = fib[j]->ret; return 0;
}
int W(pthread_detach)(pthread_t t) { if (!ctl()) return __real_pthread_detach(t); fib[(long)t - 1]->detached = true; return 0; }
int W(pthread_mutex_init)(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    int r = __real_pthread_mutex_init(m, a);
    if (ctl()) { Busy b; Mx x; x.owner = -1; x.count = 0; x.dead = false; int ty = PTHREAD_MUTEX_NORMAL; if (a) pthread_mutexattr_gettype(a, &ty); x.type = ty; mx[m] = x; }
    return r; }
int W(pthread_mutex_destroy)(pthread_mutex_t *m) {
    if (!ctl()) return __real_pthread_mutex_destroy(m);
    Busy b; reschedule("mutex-destroy"); Mx &x = mget(m, "destroy");
    if (x.owner >= 0) mc::fail("destroy-locked", "mutex destroyed while held by thread %d", x.owner);
    for (size_t t = 0; t < fib.size(); ++t) if (fib[t]->st == BlockedMutex && fib[t]->on == m) mc::fail("destroy-contended", "mutex destroyed while thread %zu is blocked on it", t);
    x.dead = true; return 0; }
int W(pthread_mutex_lock)(pthread_mutex_t *m) { if (!ctl()) return __real_pthread_mutex_lock(m); Busy b; return lockImpl(m, true); }
int W(pthread_mutex_trylock)(pthread_mutex_t *m) {
    if (!ctl()) return __real_pthread_mutex_trylock(m);
    Busy b; reschedule("mutex-trylock"); Mx &x = mget(m, "trylock");
    if (x.owner >= 0) { if (x.owner == cur && x.type == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; } return EBUSY; }
    x.owner = cur; x.count = 1; join(fib[cur]->vc, x.vc); return 0; }
int W(pthread_mutex_unlock)(pthread_mutex_t *m) { if (!ctl()) return __real_pthread_mutex_unlock(m); Busy b; reschedule("mutex-unlock"); unlockImpl(m, "unlock"); return 0; }
int W(pthread_cond_init)(pthread_cond_t *c, const pthread_condattr_t *a) { int r = __real_pthread_cond_init(c, a); if (ctl()) { Busy b; Cv x; x.dead = false; cv[c] = x; } return r; }
int W(pthread_cond_destroy)(pthread_cond_t *c) {
    if (!ctl()) return __real_pthread_cond_destroy(c);
    Busy b; reschedule("cond-destroy"); Cv &x = cget(c, "destroy"); if (!x.waiters.empty()) mc::fail("destroy-waited", "condition variable destroyed while a thread waits on it"); x.dead = true; return 0; }
int W(pthread_cond_wait)(pthread_cond_t *c, pthread_mutex_t *m) { if (!ctl()) return __real_pthread_cond_wait(c, m); Busy b; return condWait(c, m, 0); }
int W(pthread_cond_timedwait)(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (!ctl()) return __real_pthread_cond_timedwait(c, m, ts); Busy b; return condWait(c, m, ts); }
int W(pthread_cond_signal)(pthread_cond_t *c) {
    if (!ctl()) return __real_pthread_cond_signal(c);
    Busy b; reschedule("cond-signal"); Cv &x = cget(c, "signal"); 
    if (!x.waiters.empty()) { int k = opt.fixedOrder ? 0 : mc::choose((int)x.waiters.size(), "wake"); int t = x.waiters[k]; wakeCond(t, 1); mc::logf("t%d signals t%d", cur, t); } else mc::logf("t%d signals nobody", cur);
    return 0; }
int W(pthread_cond_broadcast)(pthread_cond_t *c) {
    if (!ctl()) return __real_pthread_cond_broadcast(c);
    Busy b; reschedule("cond-broadcast"); Cv &x = cget(c, "broadcast"); std::vector<int> w = x.waiters; for (int t : w) wakeCond(t, 1); return 0; }
int W(gettimeofday)(struct timeval *tv, void *tz) { if (!ctl()) return __real_gettimeofday(tv, tz); tv->tv_sec = clockUs / 1000000; tv->tv_usec = clockUs % 1000000; return 0; }
int W(clock_gettime)(clockid_t c, struct timespec *ts) { if (!ctl()) return __real_clock_gettime(c, ts); ts->tv_sec = clockUs / 1000000; ts->tv_nsec = (clockUs % 1000000) * 1000; return 0; }
int W(usleep)(useconds_t u) { if (!ctl()) return __real_usleep(u); Busy b; clockUs += u; reschedule("sleep"); return 0; }
int W(nanosleep)(const struct timespec *r, struct timespec *m) { if (!ctl()) return __real_nanosleep(r, m); Busy b; clockUs += r->tv_sec * 1000000LL + r->tv_nsec / 1000; reschedule("sleep"); return 0; }
int W(sched_yield)(void) { if (!ctl()) return __real_sched_yield(); Busy b; reschedule("yield"); return 0; }
// libc's hidden PRNG state is one shared cell
static long randCell;
int W(rand)(void) { if (opt.randIsShared) access(&randCell, 8, true, __builtin_return_address(0)); return __real_rand(); }
void W(srand)(unsigned s) { if (opt.randIsShared) access(&randCell, 8, true, __builtin_return_address(0)); __real_srand(s); }

// a function's static variable is initialised by one thread under a guard; the fast path is an atomic load of the guard byte
int W(__cxa_guard_acquire)(void *g) {
    if (!ctl()) return __real___cxa_guard_acquire(g);
    Busy b; if (*(volatile char *)g) { join(fib[cur]->vc, (*atomOf(g))); return 0; }
    lockImpl((pthread_mutex_t *)g, false);
    if (*(volatile char *)g) { unlockImpl((pthread_mutex_t *)g, "guard"); return 0; }
    return 1; }
void W(__cxa_guard_release)(void *g) {
    if (!ctl()) { __real___cxa_guard_release(g); return; }
    Busy b; *(volatile char *)g = 1; join(*atomOf(g), fib[cur]->vc); unlockImpl((pthread_mutex_t *)g, "guard"); }
void W(__cxa_guard_abort)(void *g) { if (!ctl()) { __real___cxa_guard_abort(g); return; } Busy b; unlockImpl((pthread_mutex_t *)g, "guard"); }
int W(pthread_once)(pthread_once_t *o, void (*fn)(void)) {
    if (!ctl()) return __real_pthread_once(o, fn);
    { Busy b; lockImpl((pthread_mutex_t *)o, true); }
    if (*(volatile int *)o == 0) { fn(); *(volatile int *)o = 2; }
    Busy b; unlockImpl((pthread_mutex_t *)o, "once"); return 0; }

void *W(malloc)(size_t n) { void *p = __real_malloc(n); fresh(p, n); afterAlloc(p, n); return p; }
void *W(calloc)(size_t a, size_t b) { void *p = __real_calloc(a, b); afterAlloc(p, a * b); return p; }
void *W(realloc)(void *q, size_t n) { void *p = __real_realloc(q, n); afterAlloc(p, n); return p; }
void W(free)(void *p) { beforeFree(p); __real_free(p); }

void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n) void __tsan_read##n(void *a) { access(a, n, false, __builtin_return_address(0)); } void __tsan_write##n(void *a) { access(a, n, true, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void *a) { access(a, n, false, __builtin_return_address(0)); } void __tsan_unaligned_write##n(void *a) { access(a, n, true, __builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void *a) { access(a, n, false, __builtin_return_address(0)); } void __tsan_volatile_write##n(void *a) { access(a, n, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(a, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, true, __builtin_return_address(0)); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { access((void *)s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { access((void *)s, n, false, __builtin_return_address(0)); access(d, n, true, __builtin_return_address(0)); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { access(d, n, true, __builtin_return_address(0)); return memset(d, c, n); }
// atomics: scheduling point + sequentially consistent ordering edge (per-address clock)
static void atomic(void *a) { if (!ctl()) return; Busy b; reschedule("atomic"); VC &v = *atomOf(a); join(fib[cur]->vc, v); join(v, fib[cur]->vc); tick(cur); }
#define AT(n, T) \
 T __tsan_atomic##n##_load(const volatile T *a, int) { atomic((void *)a); return *a; } \
 void __tsan_atomic##n##_store(volatile T *a, T v, int) { atomic((void *)a); *a = v; } \
 T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { atomic((void *)a); T o = *a; *a = v; return o; } \
 T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { atomic((void *)a); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { atomic((void *)a); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { atomic((void *)a); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { atomic((void *)a); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { atomic((void *)a); T o = *a; *a = o ^ v; return o; } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { atomic((void *)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { atomic((void *)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int, int) { atomic((void *)a); T o = *a; if (o == e) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); fresh(p, n); afterAlloc(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { beforeFree(p); __real_free(p); }
void operator delete[](void *p) noexcept { beforeFree(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { beforeFree(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { beforeFree(p); __real_free(p); }
