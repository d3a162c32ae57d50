// Runner for mc.h: DFS over choice vectors, sharded over worker processes that survive
// crashes, hangs and sanitizer aborts of the code under test (each becomes a violation).
#include "mc.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <algorithm>
#include <atomic>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

#ifdef MC_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
#endif

namespace mc {

void (*abort_hook)() = 0;
void (*on_start)() = 0;
bool in_fiber = false;

static const uint32_t MAXC = 1 << 15;
struct Slot {
    std::atomic<int> busy;
    int scen, shard;
    uint32_t len;           // length of path of the execution in progress
    uint16_t pick[MAXC], n[MAXC];
    int64_t ordinal; int prefixFresh;
    uint64_t execs, transitions, evals, maxdepth, leakbytes;
    uint32_t capped, toodeep;
    double deadline;
};
static const uint64_t TBL = 1ULL << 22;
struct Shared {
    std::atomic<uint64_t> states[TBL], outcomes[TBL];
    std::atomic<uint64_t> nstates, noutcomes, nsamples; std::atomic<double> firstViolation;
};
static Shared *sh;
static Slot *slot;

static std::vector<Scenario> &scen() { static std::vector<Scenario> v; return v; }
Scenario::Scenario(const char *n, void (*b)(), const char *bd, int sd, int s, int tm)
    : name(n), body(b), bounds(bd), shardDepth(sd), shards(s), tierMask(tm) { scen().push_back(*this); }

static bool g_thorough = false;
bool thorough() { return g_thorough; }

static uint32_t pos;
static std::vector<int> *g_ext = 0; // choices given on the command line
static bool rec = false;
static std::string logbuf;
static int curShards = 1, curShard = 0, curSD = 0;
static bool mine = true, replaying = false;
static const char *curName = "";
const char *scenario_name() { return curName; }

static double nowd() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string pendingKey, pendingMsg; static int pendingKind; // 1 skip 2 violation
[[noreturn]] static void raise_skip() {
    if (in_fiber && abort_hook) { pendingKind = 1; abort_hook(); abort(); }
    throw SkipExec();
}

void take_pending() {
    if (pendingKind == 1) throw SkipExec();
    if (pendingKind == 2) { Violation v; v.key = pendingKey; v.msg = pendingMsg; pendingKind = 0; throw v; }
}
int choose(int n, const char *label) {
    (void)label;
    if (n <= 1) return 0;
    Slot &s = *slot;
    int r;
    if (g_ext) {
        r = pos < g_ext->size() ? (*g_ext)[pos] : 0;
        if (r >= n) fail("nondeterminism", "replay choice %u is %d but only %d alternatives", pos, r, n);
    } else if (pos < s.len) {
        if (s.n[pos] != n) {
            // The same choices led to a different choice point: the body is not deterministic.
            fail("nondeterminism", "choice point %u had %d alternatives, now %d: execution is not a function of its choices", pos, (int)s.n[pos], n);
        }
        r = s.pick[pos];
    } else {
        if (replaying) { r = 0; if (s.len < MAXC) { s.pick[s.len] = 0; s.n[s.len] = (uint16_t)n; s.len++; } }
        else {
            if (s.len >= MAXC) { s.toodeep++; raise_skip(); }
            s.pick[s.len] = 0; s.n[s.len] = (uint16_t)n; s.len++;
            r = 0;
        }
    }
    ++pos;
    if (rec && label) { char b[128]; snprintf(b, sizeof b, "%s=%d/%d ", label, r, n); logbuf += b; }
    if (!replaying && curShards > 1 && (int)pos == curSD && s.prefixFresh) {
        s.prefixFresh = 0;
        int64_t o = s.ordinal++;
        mine = (o % curShards) == curShard;
        if (!mine) raise_skip();
    }
    return r;
}

void evals(uint64_t n) { if (mine) slot->evals += n; }
void step(uint64_t n) { if (mine) slot->transitions += n; }
static void insert(std::atomic<uint64_t> *t, std::atomic<uint64_t> &cnt, uint64_t h) {
    if (h == 0) h = 1;
    if (cnt.load(std::memory_order_relaxed) > TBL / 2) return;
    uint64_t i = mix(h, 77) & (TBL - 1);
    for (;;) {
        uint64_t v = t[i].load(std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) { uint64_t e = 0; if (t[i].compare_exchange_strong(e, h)) { cnt++; return; } if (e == h) return; }
        i = (i + 1) & (TBL - 1);
    }
}
void state(uint64_t h) { if (mine) insert(sh->states, sh->nstates, mix(h, slot->scen + 1)); }
void outcome(uint64_t h) { if (mine) insert(sh->outcomes, sh->noutcomes, mix(h, slot->scen + 1)); }
bool recording() { return rec; }
void logf(const char *fmt, ...) {
    if (!rec || logbuf.size() > 20000) return;
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    logbuf += b; logbuf += "; ";
}
void fail(const std::string &key, const char *fmt, ...) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (in_fiber && abort_hook) { pendingKind = 2; pendingKey = key; pendingMsg = b; abort_hook(); abort(); }
    Violation v; v.key = key; v.msg = b;
    throw v;
}

static volatile long g_live = 0;
#ifdef MC_ASAN
static void onMalloc(const volatile void *p, size_t n) { (void)p; g_live += (long)n; }
static void onFree(const volatile void *p) { if (p) g_live -= (long)__sanitizer_get_allocated_size(p); }
#endif
long live_bytes() { return g_live; }
void leak_check(const char *key, const std::function<void()> &body) {
    long d[4];
    for (int k = 0; k < 4; ++k) { long a = g_live; body(); d[k] = g_live - a; }
    evals();
    if (d[1] > 0 && d[2] > 0 && d[3] > 0 && d[2] == d[3])
        fail(key, "every use leaves %ld more heap bytes allocated", d[3]);
}

// ---------------------------------------------------------------------------
static std::string outDir;
static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
static void appendFile(const std::string &f, const std::string &line) {
    int fd = open(f.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd < 0) return;
    ssize_t r = write(fd, line.data(), line.size()); (void)r; ::close(fd);
}
static std::string choicesStr(const Slot &s) {
    std::string o;
    uint32_t L = s.len;
    for (uint32_t i = 0; i < L; ++i) { if (i) o += ","; o += std::to_string(s.pick[i]); }
    return o;
}
static std::vector<std::string> knownKeys;
static void writeViol(const Slot &s, const std::string &key, const std::string &msg, const std::string &trace, const std::string &err) {
    std::string l = "{\"scenario\":\"" + jesc(scen()[s.scen].name) + "\",\"key\":\"" + jesc(key) + "\",\"msg\":\"" + jesc(msg) +
        "\",\"choices\":[" + choicesStr(s) + "],\"trace\":\"" + jesc(trace) + "\",\"stderr\":\"" + jesc(err) + "\"}\n";
    appendFile(outDir + "/violations.jsonl", l);
    // an unlisted violation decides the run: finish within a short grace period
    if (std::find(knownKeys.begin(), knownKeys.end(), key) == knownKeys.end()) { double none = 0; sh->firstViolation.compare_exchange_strong(none, nowd()); }
}
static bool late(double deadline) { static const double grace = getenv("MC_GRACE") ? atof(getenv("MC_GRACE")) : 40; double f = sh->firstViolation.load(); double t = nowd(); return t > deadline || (f > 0 && t > f + grace); }

static bool backtrack() {
    Slot &s = *slot;
    while (s.len > 0) {
        uint32_t i = s.len - 1;
        if (s.pick[i] + 1 < s.n[i]) { s.pick[i]++; if ((int)s.len <= curSD) s.prefixFresh = 1; return true; }
        s.len--;
    }
    return false;
}

static int g_hang = 20;
static void armTimer(int secs) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs;
    setitimer(ITIMER_VIRTUAL, &it, 0);
}
static void onVt(int) { static const char m[] = "\nMC-HANG: execution did not finish\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(78); }

// runs the body once; returns 0 ok, 1 skip, 2 violation
static int runOnce(const Scenario &sc, Violation &v) {
    pos = 0; mine = true; pendingKind = 0; in_fiber = false;
    if (rec) logbuf.clear();
    try { sc.body(); }
    catch (SkipExec &) { return 1; }
    catch (Violation &e) { v = e; return 2; }
    catch (std::exception &e) { v.key = "exception"; v.msg = std::string("uncaught C++ exception: ") + e.what(); return 2; }
    if (pendingKind == 1) return 1;
    if (pendingKind == 2) { v.key = pendingKey; v.msg = pendingMsg; return 2; }
    return 0;
}

static void workItem(double deadline) {
    Slot &s = *slot;
    const Scenario &sc = scen()[s.scen];
    curName = sc.name; curShards = sc.shards; curShard = s.shard; curSD = sc.shardDepth;
    if (curShards <= 1) { curShards = 1; curShard = 0; curSD = 0; }
    std::map<std::string, int> seen;
    int total = 0;
    uint64_t local = 0, iters = 0;
    bool done = false;
    do {
        rec = (curShard == 0 || curShards == 1) && (local == 0 || local == 5 || local == 41);
        armTimer(g_hang);
        Violation v;
        uint64_t shardmine = 1;
        int r = runOnce(sc, v);
        if (r != 1 && curShards > 1 && s.prefixFresh) { // body ended before the sharding depth
            s.prefixFresh = 0; int64_t o = s.ordinal++; shardmine = (o % curShards) == curShard;
        }
        if (pos > s.maxdepth) s.maxdepth = pos;
        if (r == 0 && shardmine) {
            s.execs++;
            if (rec && sh->nsamples.load() < 400) { sh->nsamples++;
                appendFile(outDir + "/samples.jsonl", "{\"scenario\":\"" + jesc(sc.name) + "\",\"choices\":[" + choicesStr(s) + "],\"log\":\"" + jesc(logbuf) + "\"}\n"); }
            local++;
        } else if (r == 2 && shardmine) {
            s.execs++; local++;
            s.len = std::min(s.len, std::max(pos, (uint32_t)1));
            if (seen[v.key]++ < 1) {
                // replay with the log on; the same choices must give the same failure
                Slot *save = new Slot(); memcpy((void *)save, (void *)&s, sizeof(Slot));
                rec = true; replaying = true; Violation v2; int r2 = runOnce(sc, v2); replaying = false;
                std::string note = (r2 == 2 && v2.key == v.key) ? "" : " [did not reproduce identically on replay: result " + std::to_string(r2) + " key " + v2.key + "]";
                memcpy((void *)&s, (void *)save, sizeof(Slot)); delete save;
                writeViol(s, v.key, v.msg + note, logbuf, "");
                rec = false;
            }
            if (++total > 400) { s.capped++; break; }
        }
        done = !backtrack();
        if ((++iters & 1023) == 0) { struct stat sb; if (fstat(2, &sb) == 0 && sb.st_size > (8 << 20)) { int e = ftruncate(2, 0); (void)e; } }
        if (!done && late(deadline)) { s.capped++; break; }
    } while (!done);
    armTimer(0);
}

static std::string slurp(const std::string &f, size_t max) {
    std::ifstream i(f.c_str(), std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    size_t k = s.find("ERROR: AddressSanitizer"); size_t u = s.find("runtime error:"); 
    size_t st = std::min(k, u); if (st == std::string::npos) st = s.size() > max ? s.size() - max : 0; else st = st > 200 ? st - 200 : 0;
    return s.substr(st, max);
}

static int mainRun(int jobs, double budget) {
    size_t nsc = scen().size();
    struct Item { int sc, shard; };
    std::vector<Item> items;
    for (size_t i = 0; i < nsc; ++i) {
        if (!(scen()[i].tierMask & (g_thorough ? 2 : 1))) continue;
        for (int k = 0; k < std::max(1, scen()[i].shards); ++k) items.push_back({(int)i, k});
    }
    // fair shares: the next shard is one of the scenario that has had least time so far, so that
    // small scenarios finish and, when the budget runs out, only the largest are left unfinished
    Slot *slots = (Slot *)mmap(0, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Agg { uint64_t execs = 0, tr = 0, ev = 0, md = 0, capped = 0, deep = 0, crashes = 0; double wall = 0; uint64_t st0 = 0; };
    std::vector<Agg> agg(nsc);
    std::vector<pid_t> pid(jobs, 0); std::vector<double> t0(jobs, 0); std::vector<int> itemCrashes(jobs, 0);
    double start = nowd(), deadline = start + budget;
    size_t next = 0; int running = 0;
    auto launch = [&](int j, bool resume) {
        pid_t p = fork();
        if (p == 0) {
            slot = &slots[j];
            std::string ef = outDir + "/stderr." + std::to_string(j);
            int fd = open(ef.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(fd, 2); dup2(fd, 1); ::close(fd);
            std::cerr.rdbuf(0); std::cout.rdbuf(0);
            signal(SIGVTALRM, onVt);
            struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
#ifdef MC_ASAN
            __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
            if (resume && !(slots[j].len > 0 && (curSD = scen()[slot->scen].shards > 1 ? scen()[slot->scen].shardDepth : 0, backtrack()))) _exit(0);
            workItem(deadline);
            _exit(0);
        }
        pid[j] = p; running++;
    };
    auto startItem = [&](int j) {
        std::vector<double> used(nsc);
        for (size_t i = 0; i < nsc; ++i) used[i] = agg[i].wall;
        for (int k = 0; k < jobs; ++k) if (pid[k]) used[slots[k].scen] += nowd() - t0[k] + 1e-3;
        size_t best = next;
        for (size_t i = next + 1; i < items.size(); ++i) if (used[items[i].sc] < used[items[best].sc]) best = i;
        std::rotate(items.begin() + next, items.begin() + best, items.begin() + best + 1);
        Slot &s = slots[j]; memset((void *)&s, 0, offsetof(Slot, pick)); memset((char *)&s + offsetof(Slot, ordinal), 0, sizeof(Slot) - offsetof(Slot, ordinal));
        s.scen = items[next].sc; s.shard = items[next].shard; s.len = 0; s.ordinal = 0; s.prefixFresh = 1;
        next++; t0[j] = nowd(); itemCrashes[j] = 0; launch(j, false);
    };
    for (int j = 0; j < jobs && next < items.size(); ++j) startItem(j);
    while (running > 0) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) break;
        int j = -1; for (int k = 0; k < jobs; ++k) if (pid[k] == p) j = k;
        if (j < 0) continue;
        running--; pid[j] = 0;
        Slot &s = slots[j]; Agg &a = agg[s.scen];
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (!ok) {
            a.crashes++; itemCrashes[j]++;
            s.execs++;
            std::string err = slurp(outDir + "/stderr." + std::to_string(j), 6000);
            std::string key = "crash";
            if (WIFEXITED(st) && WEXITSTATUS(st) == 78) key = "hang";
            else if (err.find("hard rss limit exhausted") != std::string::npos) key = "memory-exhausted";
            else if (WIFSIGNALED(st)) key = std::string("signal-") + std::to_string(WTERMSIG(st));
            char msg[200]; snprintf(msg, sizeof msg, "the process running the real code died (status 0x%x)", st);
            if (itemCrashes[j] <= 12) writeViol(s, key, msg, "", err);
            if (itemCrashes[j] < 40 && !late(deadline)) { launch(j, true); continue; }
            s.capped++;
        }
        a.execs += s.execs; a.tr += s.transitions; a.ev += s.evals; a.md = std::max(a.md, s.maxdepth);
        a.capped += s.capped; a.deep += s.toodeep; a.wall += nowd() - t0[j];
        if (next < items.size()) {
            if (late(deadline)) { while (next < items.size()) { agg[items[next].sc].capped++; next++; } }
            else startItem(j);
        }
    }
    std::ofstream o((outDir + "/result.json").c_str());
    o << "{\"wall\":" << nowd() - start << ",\"states\":" << sh->nstates.load() << ",\"outcomes\":" << sh->noutcomes.load()
      << ",\"state_table_full\":" << (sh->nstates.load() > TBL / 2 ? "true" : "false") << ",\"scenarios\":[";
    bool first = true;
    for (size_t i = 0; i < nsc; ++i) {
        if (!(scen()[i].tierMask & (g_thorough ? 2 : 1))) continue;
        if (!first) o << ","; first = false;
        const Agg &a = agg[i];
        o << "{\"name\":\"" << scen()[i].name << "\",\"bounds\":\"" << jesc(scen()[i].bounds) << "\",\"executions\":" << a.execs << ",\"transitions\":" << a.tr
          << ",\"evaluations\":" << a.ev << ",\"max_choice_depth\":" << a.md << ",\"capped\":" << a.capped << ",\"too_deep\":" << a.deep << ",\"crashes\":" << a.crashes
          << ",\"cpu_s\":" << a.wall << "}";
    }
    o << "]}\n";
    return 0;
}

} // namespace mc

using namespace mc;
int main(int argc, char **argv) {
    int jobs = 8; double budget = 600; std::string replay, only;
    outDir = ".";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") g_thorough = true;
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--out") outDir = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--known") knownKeys.push_back(argv[++i]);
        else if (a == "--hang") g_hang = atoi(argv[++i]);
        else if (a == "--list") { for (auto &s : scen()) printf("%s: %s\n", s.name, s.bounds); return 0; }
    }
    if (!only.empty()) { auto &v = scen(); v.erase(std::remove_if(v.begin(), v.end(), [&](const Scenario &s) { return only != s.name; }), v.end()); }
    if (on_start) on_start();
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!replay.empty()) { // "scenario c0,c1,c2": re-execute one choice vector with the log on
        slot = new Slot(); memset((void *)slot, 0, sizeof *slot);
        std::ifstream f(replay.c_str()); std::string name, line; f >> name; std::getline(f, line); std::getline(f, line);
        std::stringstream ss(line); std::string tok; std::vector<int> c; while (std::getline(ss, tok, ',')) if (!tok.empty()) c.push_back(atoi(tok.c_str()));
        for (size_t i = 0; i < scen().size(); ++i) if (name == scen()[i].name) {
            slot->scen = (int)i; replaying = true; rec = true; curName = scen()[i].name;
#ifdef MC_ASAN
            __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
            g_ext = &c;
            Violation v; int r = runOnce(scen()[i], v);
            printf("log: %s\n", logbuf.c_str());
            if (r == 2) { printf("REPRODUCED key=%s: %s\n", v.key.c_str(), v.msg.c_str()); return 1; }
            printf("no violation on replay\n"); return 0;
        }
        fprintf(stderr, "no such scenario\n"); return 2;
    }
    return mainRun(jobs, budget);
}

// the bundled LAPACK refers to Fortran output routines (for one warning message) that the repository does not contain
extern "C" { __attribute__((weak)) int s_wsfe(void *) { return 0; } __attribute__((weak)) int do_fio(int *, char *, int) { return 0; } __attribute__((weak)) int e_wsfe() { return 0; } }
