#include "vk.h"
#include <atomic>
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <map>
#include <set>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" __attribute__((weak)) void mcrt_new_case();
namespace vk {
namespace {

constexpr size_t DESC = 1 << 16, MSG = 6000;
constexpr int MAXW = 64, MAXCNT = 48, MAXFAIL = 24, MAXSAMP = 48;
constexpr size_t HBITS = 23, HSIZE = 1ull << HBITS;
constexpr int EXIT_ABANDON = 77, EXIT_RECORDED = 78;   // 78: failure recorded, go on with the next case

struct Slot {
    std::atomic<uint64_t> case_no;     // cases announced in the unit
    std::atomic<int> unit;             // unit being run, -1 idle
    std::atomic<double> started;       // start of the running case, 0 if none
    char desc[DESC];
};
struct Fail { int unit; uint64_t case_no; char desc[DESC]; char msg[MSG]; };
struct Shared {
    std::atomic<int> next_unit;
    std::atomic<int> nfail;
    std::atomic<uint64_t> states, transitions, traces, cases, state_overflow;
    std::atomic<int> ncnt; char cname[MAXCNT][48]; std::atomic<uint64_t> cval[MAXCNT]; std::atomic<int> cmax[MAXCNT];
    std::atomic<int> lock;
    std::atomic<int> nsamp; char samp[MAXSAMP][600];
    std::atomic<int> ncaps; char caps[8][200];
    std::atomic<uint64_t> unit_fail[4096];
    Fail fails[MAXFAIL];
    Slot slot[MAXW];
    std::atomic<uint64_t> table[HSIZE];
};

struct Unit { std::string name; std::function<void()> fn; double timeout; };
std::vector<Unit>& units() { static std::vector<Unit> u; return u; }
Shared* sh = nullptr;
Slot* me = nullptr;
// known before main, so that registration may depend on it
bool g_thorough = [] {
    char b[4096]; FILE* f = fopen("/proc/self/cmdline", "r"); size_t n = f ? fread(b, 1, sizeof b - 1, f) : 0; if (f) fclose(f);
    bool t = false, next = false;
    for (size_t i = 0; i < n; i += strlen(b + i) + 1) { b[n] = 0; if (next) t = !strcmp(b + i, "thorough"); next = !strcmp(b + i, "--tier"); }
    return t;
}();
uint64_t g_skip_to = 0;          // skip cases < this
int64_t g_only = -1;             // run this case only
bool g_replay = false;           // failures go to the replay record
int g_cur_unit = -1;
uint64_t g_case = 0;
bool g_case_failed = false, g_done = false;
int g_samples_unit = 0;
bool g_case_open = false;

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

struct Lock { Lock() { int e = 0; while (!sh->lock.compare_exchange_weak(e, 1)) { e = 0; sched_yield(); } } ~Lock() { sh->lock = 0; } };

int counter(const char* name, bool is_max) {
    static std::map<std::string, int> cache;
    auto it = cache.find(name);
    if (it != cache.end()) return it->second;
    Lock l;
    int n = sh->ncnt;
    for (int i = 0; i < n; ++i) if (!strcmp(sh->cname[i], name)) return cache[name] = i;
    if (n == MAXCNT) abort();
    strncpy(sh->cname[n], name, 47); sh->cmax[n] = is_max;
    sh->ncnt = n + 1;
    return cache[name] = n;
}

std::string json(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

void record(int unit, uint64_t cno, const char* desc, const char* msg) {
    Lock l;
    sh->unit_fail[unit]++;
    int k = sh->nfail;
    if (k >= MAXFAIL) return;
    Fail& f = sh->fails[k];
    f.unit = unit; f.case_no = cno;
    strncpy(f.desc, desc, DESC - 1); strncpy(f.msg, msg, MSG - 1);
    sh->nfail = k + 1;
}

void run_unit(int u) {
    g_cur_unit = u; g_case = 0; g_case_failed = false; g_done = false; g_samples_unit = 0; g_case_open = false;
    me->case_no = 0; me->unit = u; me->desc[0] = 0; me->started = now();
    try { units()[u].fn(); }
    catch (const std::exception& e) { fail("exception: %s", e.what()); }
    catch (const char* e) { fail("exception: %s", e); }
    catch (...) { fail("exception of unknown type"); }
    me->started = 0.0;
    me->unit = -1;
}

// child bodies -----------------------------------------------------------------------------------------------------
void pin(int w) {
    cpu_set_t all; CPU_ZERO(&all);
    if (sched_getaffinity(0, sizeof all, &all)) return;
    std::vector<int> cpus;
    for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all)) cpus.push_back(i);
    if (cpus.empty()) return;
    cpu_set_t one; CPU_ZERO(&one); CPU_SET(cpus[w % cpus.size()], &one);
    sched_setaffinity(0, sizeof one, &one);
}

pid_t spawn(int w, bool do_pin, const std::function<int()>& body) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p) return p;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (!getenv("VK_KEEP_STDOUT")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); }
    if (do_pin) pin(w);
    me = &sh->slot[w];
    int rc = body();
    fflush(stdout); fflush(stderr);
    _exit(rc);
}

int worker(int first_unit, uint64_t skip) {
    if (first_unit >= 0) { g_skip_to = skip; run_unit(first_unit); g_skip_to = 0; }
    while (true) {
        int u = sh->next_unit++;
        if (u >= (int)units().size()) return 0;
        run_unit(u);
    }
}

} // namespace

bool thorough() { return g_thorough; }
void unit(const std::string& name, std::function<void()> fn, double t) { units().push_back({name, fn, t}); }

bool begin(const char* f, ...) {
    uint64_t k = g_case++;
    if (g_done) return false;
    if (k < g_skip_to) return false;
    if (g_only >= 0 && k != (uint64_t)g_only) { if (k > (uint64_t)g_only) g_done = true; return false; }
    va_list ap; va_start(ap, f); vsnprintf(me->desc, DESC, f, ap); va_end(ap);
    me->case_no = k; me->started = now();
    g_case_failed = false; g_case_open = true;
    if (!g_replay) sh->cases++;
    if (mcrt_new_case) mcrt_new_case();
    return true;
}
void note(const char* f, ...) { va_list ap; va_start(ap, f); vsnprintf(me->desc, DESC, f, ap); va_end(ap); }
void fail(const char* f, ...) {
    char b[MSG]; va_list ap; va_start(ap, f); vsnprintf(b, MSG, f, ap); va_end(ap);
    g_case_failed = true;
    record(g_cur_unit, me->case_no, me->desc, b);
}
void fatal_fail(const char* f, ...) {
    char b[MSG]; va_list ap; va_start(ap, f); vsnprintf(b, MSG, f, ap); va_end(ap);
    record(g_cur_unit, me->case_no, me->desc, b);
    _exit(EXIT_ABANDON);
}
bool failed() { return g_case_failed; }
bool unit_saturated() { return g_done || (g_cur_unit >= 0 && sh->unit_fail[g_cur_unit] >= 3); }

void state(uint64_t h) {
    if (g_replay) return;
    if (!h) h = 1;
    size_t i = (h * 0x9e3779b97f4a7c15ull) >> (64 - HBITS);
    for (int probes = 0; probes < 64; ++probes, i = (i + 1) & (HSIZE - 1)) {
        uint64_t v = sh->table[i].load(std::memory_order_relaxed);
        if (v == h) return;
        if (!v) { uint64_t e = 0; if (sh->table[i].compare_exchange_strong(e, h)) { sh->states++; return; } if (e == h) return; }
    }
    sh->state_overflow++;
}
void states(uint64_t n) { if (!g_replay) sh->states += n; }
void transitions(uint64_t n) { if (!g_replay) sh->transitions += n; }
void traces(uint64_t n) { if (!g_replay) sh->traces += n; }
void count(const char* name, uint64_t n) { if (!g_replay) sh->cval[counter(name, false)] += n; }
void maxi(const char* name, uint64_t v) {
    if (g_replay) return;
    auto& a = sh->cval[counter(name, true)];
    uint64_t o = a; while (o < v && !a.compare_exchange_weak(o, v)) {}
}
void sample(const std::string& s) {
    if (g_replay || g_samples_unit >= 1) return;
    g_samples_unit++;
    Lock l; int n = sh->nsamp; if (n >= MAXSAMP) return;
    strncpy(sh->samp[n], (units()[g_cur_unit].name + ": " + s).c_str(), 599); sh->nsamp = n + 1;
}
void not_exhaustive(const char* why) {
    if (g_replay) return;
    Lock l; int n = sh->ncaps;
    for (int i = 0; i < n; ++i) if (!strcmp(sh->caps[i], why)) return;
    if (n < 8) { strncpy(sh->caps[n], why, 199); sh->ncaps = n + 1; }
}
std::string fmt(const char* f, ...) {
    char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

// Runs one unit (or one of its cases) in a fresh child; returns the failures it produced (appended after `from`).
static int run_child(int u, int64_t only, double limit, bool do_pin, std::string& what) {
    int w = MAXW - 1;
    int before = sh->nfail;
    sh->slot[w].unit = u; sh->slot[w].desc[0] = 0; sh->slot[w].started = 0.0;
    pid_t p = spawn(w, do_pin, [&] { g_replay = true; g_only = only; g_skip_to = 0; run_unit(u); return 0; });
    double t0 = now(); int st = 0;
    while (true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); what = "no progress"; return 1; }
        usleep(2000);
    }
    if (sh->nfail > before) { what = sh->fails[before].msg; sh->nfail = before; return 1; }
    if (WIFSIGNALED(st)) { what = fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return 1; }
    if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { what = fmt("process exit code %d", WEXITSTATUS(st)); return 1; }
    return 0;
}

int main(int argc, char** argv, const char* harness) {
    int W = 8; bool do_pin = false; std::string only_unit; int64_t only_case = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--tier") ++i;
        else if (a == "--jobs") W = atoi(argv[++i]);
        else if (a == "--pin") do_pin = true;
        else if (a == "--unit") only_unit = argv[++i];
        else if (a == "--case") only_case = atoll(argv[++i]);
        else if (a == "--list") { for (auto& u : units()) printf("%s\n", u.name.c_str()); return 0; }
    }
    if (W > MAXW - 1) W = MAXW - 1;
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    if (units().size() >= 4096) { fprintf(stderr, "too many units\n"); return 3; }
    double t0 = now();

    if (!only_unit.empty()) {
        int u = -1;
        for (size_t i = 0; i < units().size(); ++i) if (units()[i].name == only_unit) u = i;
        if (u < 0) { fprintf(stderr, "no unit %s\n", only_unit.c_str()); return 3; }
        std::string what;
        setenv("VK_KEEP_STDOUT", "1", 1);
        int r = run_child(u, only_case, 600, do_pin, what);
        printf("unit=%s case=%lld -> %s\n%s\n", only_unit.c_str(), (long long)only_case, r ? what.c_str() : "held", sh->slot[MAXW - 1].desc);
        return r;
    }

    struct Job { pid_t pid; int slot; };
    std::vector<Job> jobs;
    int hung_or_crashed = 0;
    std::vector<std::pair<int, uint64_t>> pending;   // resume points
    std::vector<int> free_slots;
    for (int w = W - 1; w >= 0; --w) { free_slots.push_back(w); sh->slot[w].unit = -1; }
    std::vector<bool> abandoned(units().size(), false);
    bool stop = false;
    int last_err_unit = -1;

    while (true) {
        while (!free_slots.empty() && !stop && (!pending.empty() || sh->next_unit < (int)units().size())) {
            int w = free_slots.back(); free_slots.pop_back();
            int fu = -1; uint64_t skip = 0;
            if (!pending.empty()) { fu = pending.back().first; skip = pending.back().second; pending.pop_back(); }
            sh->slot[w].unit = -1; sh->slot[w].started = 0.0;
            jobs.push_back({spawn(w, do_pin, [=] { return worker(fu, skip); }), w});
        }
        if (jobs.empty()) break;
        usleep(1000);
        for (size_t j = 0; j < jobs.size();) {
            int st; Slot& s = sh->slot[jobs[j].slot];
            pid_t r = waitpid(jobs[j].pid, &st, WNOHANG);
            bool gone = r == jobs[j].pid, hang = false;
            if (!gone) {
                int u = s.unit; double b = s.started;
                if (u >= 0 && b > 0 && now() - b > units()[u].timeout) { kill(jobs[j].pid, SIGKILL); waitpid(jobs[j].pid, &st, 0); gone = hang = true; }
            }
            if (!gone) { ++j; continue; }
            int u = s.unit; uint64_t k = s.case_no;
            bool clean = !hang && WIFEXITED(st) && WEXITSTATUS(st) == 0;
            bool abandon = !hang && WIFEXITED(st) && WEXITSTATUS(st) == EXIT_ABANDON;
            if (!clean && u >= 0) {
                ++hung_or_crashed;
                bool recorded = !hang && WIFEXITED(st) && WEXITSTATUS(st) == EXIT_RECORDED;
                if (recorded) { if (hung_or_crashed < 6) pending.push_back({u, k + 1}); }
                else if (!abandon) {
                    std::string d(s.desc), msg;
                    if (hang) msg = "no progress: the call does not return";
                    else if (WIFSIGNALED(st)) msg = fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                    else msg = fmt("process exit code %d", WEXITSTATUS(st));
                    record(u, k, d.c_str(), msg.c_str());
                    if (hung_or_crashed < 6) pending.push_back({u, k + 1});
                }
                if (hung_or_crashed >= 6) stop = true;
            } else if (!clean) { fprintf(stderr, "worker died outside a unit (status %d)\n", st); return 3; }
            free_slots.push_back(jobs[j].slot);
            jobs.erase(jobs.begin() + j);
        }
        if (sh->nfail >= MAXFAIL - 2) stop = true;
        if (stop && jobs.size()) { for (auto& j : jobs) { kill(j.pid, SIGKILL); int st; waitpid(j.pid, &st, 0); } jobs.clear(); break; }
        (void)last_err_unit;
    }

    // replay before report (one failure per unit, at most six)
    struct Rep { int unit; uint64_t k; std::string desc, msg, replay; bool confirmed; };
    std::vector<Rep> reps; std::set<int> seen;
    int nf = sh->nfail;
    std::vector<Fail> fs(sh->fails, sh->fails + nf);
    std::stable_sort(fs.begin(), fs.end(), [](const Fail& a, const Fail& b) { return a.unit != b.unit ? a.unit < b.unit : a.case_no < b.case_no; });
    sh->nfail = 0;
    for (auto& f : fs) {
        if (seen.count(f.unit) || reps.size() >= 6) continue;
        seen.insert(f.unit);
        std::string what; double lim = std::max(30.0, 3 * units()[f.unit].timeout);
        bool ok = run_child(f.unit, f.case_no, lim, do_pin, what);
        if (!ok) ok = run_child(f.unit, -1, 300, do_pin, what);    // depends on the cases before it
        reps.push_back({f.unit, f.case_no, f.desc, f.msg, what, ok});
    }
    printf("{\"harness\":%s,\"wall_s\":%.3f,\"units\":%zu,\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"state_table_overflow\":%llu,",
           json(harness).c_str(), now() - t0, units().size(), (unsigned long long)sh->cases, (unsigned long long)sh->states,
           (unsigned long long)sh->transitions, (unsigned long long)sh->traces, (unsigned long long)sh->state_overflow);
    printf("\"counters\":{");
    for (int i = 0; i < sh->ncnt; ++i) printf("%s%s:%llu", i ? "," : "", json(sh->cname[i]).c_str(), (unsigned long long)sh->cval[i]);
    printf("},\"maxima\":[");
    { bool first = true; for (int i = 0; i < sh->ncnt; ++i) if (sh->cmax[i]) { printf("%s%s", first ? "" : ",", json(sh->cname[i]).c_str()); first = false; } }
    printf("],\"caps\":[");
    for (int i = 0; i < sh->ncaps; ++i) printf("%s%s", i ? "," : "", json(sh->caps[i]).c_str());
    printf("],\"stopped_early\":%s,\"samples\":[", stop ? "true" : "false");
    for (int i = 0; i < sh->nsamp; ++i) printf("%s%s", i ? "," : "", json(sh->samp[i]).c_str());
    printf("],\"failures\":[");
    for (size_t i = 0; i < reps.size(); ++i)
        printf("%s{\"unit\":%s,\"case\":%llu,\"desc\":%s,\"msg\":%s,\"replayed\":%s,\"confirmed\":%s}", i ? "," : "",
               json(units()[reps[i].unit].name).c_str(), (unsigned long long)reps[i].k, json(reps[i].desc).c_str(), json(reps[i].msg).c_str(),
               json(reps[i].replay).c_str(), reps[i].confirmed ? "true" : "false");
    printf("],\"total_failures\":%d}\n", nf);
    return nf ? 1 : 0;
}

} // namespace vk

// a failed assertion of the code under test is a failure of the running case
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* func) {
    fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, func, expr);
    if (!vk::me) abort();
    vk::fail("assertion failed: %s (%s:%u)", expr, file, line);
    _exit(vk::EXIT_RECORDED);
}
