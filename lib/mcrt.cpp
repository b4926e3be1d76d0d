// Controlled runtime, see mcrt.h. Compiled without instrumentation.
#include "mcrt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace mc {
namespace {

constexpr int MAXT = 40;
using u32 = uint32_t; using u64 = uint64_t;

struct VC {
    u32 c[MAXT] = {};
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum Status { IDLE, RUN, BLOCKED, EXITED };

struct WorkShare {            // one work-sharing construct of a team
    bool inited = false; int arrived = 0;
    long next = 0, end = 0, incr = 1, chunk = 1; bool guided = false;
    unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1; bool up = true;
    void* copy = nullptr;
    unsigned sect_next = 1, sect_count = 0;
    int done = 0;
};

struct Team {
    int n = 1; int level = 0; int running = 0;
    int bar_arrived = 0; u64 bar_gen = 0; VC bar_vc, bar_out;
    std::map<u64, WorkShare> ws;
};

struct Ctx { Team* team = nullptr; int tid = 0; u64 ws = 0; WorkShare* cur = nullptr; };

struct Th {
    int gid = 0; pthread_t pt{}; std::atomic<int> go{0};
    Status st = IDLE; const void* on = nullptr; const char* why = "";
    Ctx ctx; VC vc;
    void (*fn)(void*) = nullptr; void* data = nullptr;
    bool foreign = false; void* (*pfn)(void*) = nullptr; void* pret = nullptr; bool joined = false;
    int spins = 0; bool woken = false;
    u32 plain_reads = 0;
};

std::vector<Th*> threads;
thread_local Th* self = nullptr;
Team root_team;
int live = 1;                      // threads that exist in the model (not IDLE/EXITED)
int nthreads_var = 0;
int region_no = -1;
int team_cap = 0, max_team = 1, regions = 0, default_order = 0;
u64 hang_limit = 3000000;

struct Pt { int n, chosen; bool cur_enabled; bool env; };
struct Run {
    bool exploring = false;
    Options opt;
    std::vector<int> prefix; std::vector<Pt> trace;
    u64 points = 0;
    bool diverged = false;
} run;
std::function<void(const std::string&)> problem_handler;
bool in_problem = false;
bool races_on = false;

void futex_wait(std::atomic<int>* a, int v) { syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futex_wake(std::atomic<int>* a) { syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void report(const std::string& s) {
    if (in_problem) return;
    in_problem = true;
    if (problem_handler) problem_handler(s);
    else { fprintf(stderr, "mcrt: %s\n", s.c_str()); abort(); }
    in_problem = false;
}

Th* me() {
    if (!self) {
        if (!threads.empty()) { fprintf(stderr, "mcrt: unknown thread\n"); abort(); }
        self = new Th; self->st = RUN; self->ctx.team = &root_team; self->vc.c[0] = 1;
        threads.push_back(self);
    }
    return self;
}

void switch_to(Th* t) {
    Th* s = self;
    if (t == s) return;
    t->go.store(1); futex_wake(&t->go);
    while (!s->go.load()) futex_wait(&s->go, 0);
    s->go.store(0);
}

std::string describe_threads() {
    std::string o;
    for (auto t : threads) {
        if (t->st == IDLE || t->st == EXITED) continue;
        char b[200]; snprintf(b, sizeof b, "[thread %d: %s%s%s] ", t->ctx.tid, t->st == RUN ? "runnable" : "waiting", t->st == RUN ? "" : " in ", t->st == RUN ? "" : t->why);
        o += b;
    }
    return o;
}

// one decision among n options; option 0 is the default
int decide(int n, bool cur_enabled, bool env = false) {
    if (!run.exploring || n < 2) return 0;
    if (run.opt.region >= 0 && run.opt.region != region_no) return 0;
    size_t i = run.trace.size();
    int c = 0;
    if (i < run.prefix.size()) {
        c = run.prefix[i];
        if (c >= n) { run.diverged = true; c = 0; }
    }
    run.trace.push_back({n, c, cur_enabled, env});
    return c;
}

// Picks the thread to run next and hands over. The caller has updated its own status.
void dispatch(bool yielding = false) {
    Th* s = me();
    Th* opts[MAXT]; int n = 0;
    bool cur = s->st == RUN;
    if (++run.points > hang_limit) { report("no termination within the step bound (livelock): " + describe_threads()); }
    if (live <= 1 && cur) return;
    if (cur && !yielding) opts[n++] = s;
    int T = (int)threads.size();
    if (default_order == 1) { for (int i = T - 1; i >= 0; --i) if (threads[i] != s && threads[i]->st == RUN) opts[n++] = threads[i]; }
    else for (int k = 1; k <= T; ++k) { Th* t = threads[default_order == 2 ? (s->gid + k) % T : k - 1]; if (t != s && t->st == RUN) opts[n++] = t; }
    if (cur && yielding) opts[n++] = s;
    if (n == 0) { report("deadlock: " + describe_threads()); fprintf(stderr, "mcrt: cannot continue after a deadlock\n"); _exit(90); }
    int c;
    if (!run.exploring && default_order == 2 && n > 1 && cur) c = 1;
    else c = decide(n, cur && !yielding);
    if (opts[c] != s) s->spins = 0;
    switch_to(opts[c]);
}

// ordinary scheduling point before a synchronisation operation
void point() { if (live > 1) dispatch(); else if (++run.points > hang_limit) report("no termination within the step bound"); }
// a point in something that may be a spin loop: after a while let the others run
void spin_point() {
    if (live <= 1) { point(); return; }
    Th* s = me();
    if (++s->spins > 30) { s->spins = 0; dispatch(true); } else dispatch();
}

void block(const void* on, const char* why) { Th* s = me(); s->st = BLOCKED; s->on = on; s->why = why; dispatch(); }
void wake_all(const void* on) { for (auto t : threads) if (t->st == BLOCKED && t->on == on) { t->st = RUN; t->woken = true; } }

// ---- happens-before -------------------------------------------------------------------------------------------
std::unordered_map<const void*, VC> sync_vc;
void tick(Th* t) { t->vc.c[t->gid]++; }
void acquire(const void* a) { auto it = sync_vc.find(a); if (it != sync_vc.end()) me()->vc.join(it->second); }
void release(const void* a) { Th* s = me(); sync_vc[a].join(s->vc); tick(s); }

struct Rec { u32 epoch; uint8_t tid, mask, write, atomic; const void* pc; };
struct Cell { uintptr_t key; u32 gen; uint8_t n; Rec r[22]; };
std::vector<Cell> shadow; u32 shadow_gen = 1; size_t shadow_used = 0;
std::set<std::pair<const void*, const void*>> reported;
u64 dropped = 0;

void shadow_clear() { ++shadow_gen; shadow_used = 0; }

Cell* cell(uintptr_t key, bool create) {
    if (shadow.empty()) shadow.resize(1u << 16);
    if (create && shadow_used * 2 > shadow.size()) {
        std::vector<Cell> old; old.swap(shadow); shadow.resize(old.size() * (old.size() > (1u << 20) ? 2 : 4)); shadow_used = 0;
        for (auto& c : old) if (c.gen == shadow_gen) { Cell* d = cell(c.key, true); *d = c; }
    }
    size_t m = shadow.size() - 1, i = (key * 0x9e3779b97f4a7c15ull >> 20) & m;
    while (true) {
        Cell& c = shadow[i];
        if (c.gen != shadow_gen) {
            if (!create) return nullptr;
            c.gen = shadow_gen; c.key = key; c.n = 0; ++shadow_used; return &c;
        }
        if (c.key == key) return &c;
        i = (i + 1) & m;
    }
}

std::string where(const void* pc) {
    char cmd[200], buf[1024]; std::string o;
    snprintf(cmd, sizeof cmd, "addr2line -e /proc/%d/exe -fCi %p 2>/dev/null | head -8", (int)getpid(), (void*)((char*)pc - 1));
    FILE* f = popen(cmd, "r");
    if (!f) return "?";
    int line = 0; std::string fn, first;
    while (fgets(buf, sizeof buf, f)) {
        std::string s(buf); while (!s.empty() && s.back() == '\n') s.pop_back();
        if (line++ % 2 == 0) fn = s.substr(0, 60);
        else { auto p = s.rfind("/source/"); std::string loc = p == std::string::npos ? s.substr(s.rfind('/') + 1) : s.substr(p + 8);
               if (first.empty()) first = loc;
               if (s.find("/source/") != std::string::npos) { o = loc; break; } }
    }
    pclose(f);
    return o.empty() ? first : o;
}

void access1(uintptr_t addr, unsigned size, bool write, bool atomic, const void* pc) {
    Th* s = self;
    uint8_t mask = (uint8_t)(((1u << size) - 1) << (addr & 7));
    Cell* c = cell(addr >> 3, true);
    Rec* mine = nullptr;
    for (int i = 0; i < c->n; ++i) {
        Rec& r = c->r[i];
        if (r.tid == s->gid) {
            if (r.write == write && r.atomic == atomic && (r.epoch == s->vc.c[s->gid] || (r.mask & ~mask) == 0)) mine = &r;
            continue;
        }
        if (!(r.mask & mask) || !(r.write || write) || (r.atomic && atomic)) continue;
        if (r.epoch > s->vc.c[r.tid]) {
            const void* a = std::min(pc, r.pc); const void* b = std::max(pc, r.pc);
            if (reported.insert({a, b}).second && !in_problem) {
                char h[160];
                snprintf(h, sizeof h, "data race: %s%s by thread %d", atomic ? "atomic " : "", write ? "write" : "read", s->ctx.tid);
                std::string m = std::string(h) + " at " + where(pc) + " unordered with " + (r.atomic ? "atomic " : "") + (r.write ? "write" : "read") + " of another thread at " + where(r.pc);
                report(m);
                c = cell(addr >> 3, true);
            }
        }
    }
    if (mine) { mine->epoch = s->vc.c[s->gid]; mine->mask |= mask; mine->pc = pc; return; }
    if (c->n == 22) {   // forget a read that is ordered before the present, else the oldest
        int k = 0;
        for (int i = 0; i < 22; ++i) if (c->r[i].epoch <= s->vc.c[c->r[i].tid] && c->r[i].tid != s->gid) { k = i; break; }
        c->r[k] = c->r[21]; c->n = 21; ++dropped;
    }
    c->r[c->n++] = Rec{s->vc.c[s->gid], (uint8_t)s->gid, mask, write, atomic, pc};
}

inline void access(const void* p, size_t size, bool write, bool atomic, const void* pc) {
    if (live <= 1 || !races_on) return;
    me();
    uintptr_t a = (uintptr_t)p;
    while (size) {
        unsigned in = 8 - (a & 7); if (in > size) in = size;
        access1(a, in, write, atomic, pc);
        a += in; size -= in;
    }
}

// ---- threads ---------------------------------------------------------------------------------------------------
typedef int (*pcreate_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
pcreate_t real_create() { static pcreate_t f = (pcreate_t)dlsym(RTLD_NEXT, "pthread_create"); return f; }

void finish_thread(Status st) { Th* s = self; s->st = st; --live; }

void* pool_main(void* arg) {
    Th* s = (Th*)arg; self = s;
    while (true) {
        while (!s->go.load()) futex_wait(&s->go, 0);
        s->go.store(0);
        s->fn(s->data);
        Team* t = s->ctx.team;
        t->bar_vc.join(s->vc);
        t->running--;
        finish_thread(IDLE);
        if (t->running == 0) wake_all(t);
        // hand over without waiting for our turn: the loop above waits for reuse
        Th* opts[MAXT]; int n = 0, T = threads.size();
        if (default_order == 1) { for (int i = T - 1; i >= 0; --i) if (threads[i]->st == RUN) opts[n++] = threads[i]; }
        else for (int k = 1; k <= T; ++k) { Th* o = threads[default_order == 2 ? (s->gid + k) % T : k - 1]; if (o->st == RUN) opts[n++] = o; }
        ++run.points;
        if (!n) { report("deadlock: " + describe_threads()); fprintf(stderr, "mcrt: cannot continue after a deadlock\n"); _exit(90); }
        Th* nx = opts[decide(n, false)];
        nx->go.store(1); futex_wake(&nx->go);
    }
    return nullptr;
}

Th* new_thread() {
    if (threads.size() >= MAXT) { fprintf(stderr, "mcrt: too many threads\n"); _exit(91); }
    Th* t = new Th; t->gid = threads.size();
    threads.push_back(t);
    return t;
}

Th* pool_thread() {
    for (auto t : threads) if (t->st == IDLE && !t->foreign && t->gid) return t;
    Th* t = new_thread();
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
    if (real_create()(&t->pt, &at, pool_main, t)) { fprintf(stderr, "mcrt: cannot create a thread\n"); _exit(91); }
    pthread_attr_destroy(&at);
    return t;
}

void barrier() {
    Th* s = me(); Team* t = s->ctx.team;
    if (t->n == 1) return;
    if (t->running < t->n) { report("barrier reached after a team member has left the region"); }
    t->bar_vc.join(s->vc); tick(s);
    if (++t->bar_arrived == t->n) {
        t->bar_arrived = 0; t->bar_gen++; t->bar_out = t->bar_vc;
        wake_all(&t->bar_arrived);
    } else {
        u64 g = t->bar_gen;
        while (t->bar_gen == g) block(&t->bar_arrived, "a barrier");
    }
    s->vc.join(t->bar_out);
}

// ---- work sharing -----------------------------------------------------------------------------------------------
WorkShare* ws_enter() {
    Th* s = me(); Team* t = s->ctx.team;
    WorkShare* w = &t->ws[s->ctx.ws++];
    s->ctx.cur = w;
    return w;
}
void ws_leave() {
    Th* s = me(); Team* t = s->ctx.team;
    if (s->ctx.cur && ++s->ctx.cur->done == t->n) t->ws.erase(s->ctx.ws - 1);
    s->ctx.cur = nullptr;
}
bool ws_next(long* a, long* b) {
    Th* s = me(); WorkShare* w = s->ctx.cur; point();
    long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    if (left <= 0) return false;
    long c = w->chunk < 1 ? 1 : w->chunk;
    if (w->guided) { long q = (left + s->ctx.team->n - 1) / s->ctx.team->n; if (q > c) c = q; }
    if (c > left) c = left;
    *a = w->next; w->next += c * w->incr; *b = w->next;
    if (c == left) *b = w->end;
    return true;
}
bool ws_start(long start, long end, long incr, long chunk, bool guided, long* a, long* b) {
    WorkShare* w = ws_enter();
    if (!w->inited) { w->inited = true; w->next = start; w->end = end; w->incr = incr; w->chunk = chunk; w->guided = guided; }
    return ws_next(a, b);
}
using ull = unsigned long long;
bool ws_next_ull(ull* a, ull* b) {
    Th* s = me(); WorkShare* w = s->ctx.cur; point();
    ull left;
    if (w->up) left = w->unext >= w->uend ? 0 : (w->uend - w->unext + w->uincr - 1) / w->uincr;
    else { ull d = -w->uincr; left = w->unext <= w->uend ? 0 : (w->unext - w->uend + d - 1) / d; }
    if (!left) return false;
    ull c = w->uchunk < 1 ? 1 : w->uchunk;
    if (w->guided) { ull q = (left + s->ctx.team->n - 1) / s->ctx.team->n; if (q > c) c = q; }
    if (c > left) c = left;
    *a = w->unext; w->unext += c * w->uincr; *b = w->unext;
    if (c == left) *b = w->uend;
    return true;
}
bool ws_start_ull(bool up, ull start, ull end, ull incr, ull chunk, bool guided, ull* a, ull* b) {
    WorkShare* w = ws_enter();
    if (!w->inited) { w->inited = true; w->up = up; w->unext = start; w->uend = end; w->uincr = incr; w->uchunk = chunk; w->guided = guided; }
    return ws_next_ull(a, b);
}

struct LoopInit { bool set = false; long start, end, incr, chunk; bool guided; };

void parallel(void (*fn)(void*), void* data, unsigned nt, const std::function<void(Team&)>& init = nullptr) {
    Th* s = me();
    ++regions;
    int n = nt ? (int)nt : nthreads_var ? nthreads_var : 8;
    if (s->ctx.team->level >= 1 && s->ctx.team->n > 1) n = 1;   // nested parallelism is off by default
    if (team_cap && n > team_cap) n = team_cap;
    if (n > MAXT - 4) n = MAXT - 4;
    if (n > max_team) max_team = n;
    Team team; team.n = n; team.level = s->ctx.team->level + 1; team.running = n;
    if (init) init(team);
    Ctx saved = s->ctx;
    s->ctx = Ctx(); s->ctx.team = &team; s->ctx.tid = 0;
    if (n == 1) { fn(data); s->ctx = saved; return; }
    if (live == 1) { shadow_clear(); sync_vc.clear(); ++region_no; }
    for (int i = 1; i < n; ++i) {
        Th* t = pool_thread();
        t->fn = fn; t->data = data; t->ctx = Ctx(); t->ctx.team = &team; t->ctx.tid = i; t->st = RUN; t->spins = 0;
        { u32 own = t->vc.c[t->gid]; t->vc = s->vc; t->vc.c[t->gid] = own + 1; }
        ++live;
    }
    tick(s);
    // A scheduling point here would be redundant for exploration: nothing shared happens before the first synchronisation.
    if (default_order) dispatch();
    fn(data);
    team.running--;
    while (team.running) block(&team, "the end of the parallel region");
    s->vc.join(team.bar_vc);
    s->ctx = saved;
}

// ---- mutex model --------------------------------------------------------------------------------------------------
struct Mutex { Th* owner = nullptr; int depth = 0; };
std::unordered_map<const void*, Mutex> mutexes;

void lock(const void* m, const char* why, bool recursive = false) {
    Th* s = me();
    point();
    Mutex* x = &mutexes[m];
    if (x->owner == s && recursive) { x->depth++; return; }
    if (x->owner == s) { report(std::string("self-deadlock on ") + why); _exit(90); }
    while (x->owner) { block(m, why); x = &mutexes[m]; }
    x->owner = s; x->depth = 1;
    acquire(m);
}
bool trylock(const void* m) {
    Th* s = me(); spin_point();
    Mutex& x = mutexes[m];
    if (x.owner) return false;
    x.owner = s; x.depth = 1; acquire(m); return true;
}
void unlock(const void* m) {
    Mutex& x = mutexes[m];
    if (x.owner && x.owner != me()) report("mutex unlocked by a thread that does not hold it");
    if (--x.depth > 0) return;
    x.owner = nullptr; x.depth = 0;
    release(m);
    wake_all(m);
}

const int crit_key = 0, atomic_key = 0;

} // namespace

// ---- public ---------------------------------------------------------------------------------------------------------
void set_default_order(int o) { default_order = o; }
void set_team_cap(int c) { team_cap = c; }
void set_hang_limit(u64 p) { hang_limit = p; }
u64 run_points() { return run.points; }
void reset_points() { run.points = 0; }
extern "C" void mcrt_new_case() { run.points = 0; }
int max_team_seen() { int m = max_team; max_team = 1; return m; }
int parallel_regions() { int r = regions; regions = 0; return r; }
void set_problem_handler(const std::function<void(const std::string&)>& p) { problem_handler = p; }
void set_races(bool on) { races_on = on; reported.clear(); }
void choice_point(const char*) { me(); point(); }
std::string schedule() {
    std::string o; char b[16];
    size_t n = run.trace.size(); while (n && run.trace[n - 1].chosen == 0) --n;
    for (size_t i = 0; i < n; ++i) { snprintf(b, 16, "%s%d", i ? "." : "", run.trace[i].chosen); o += b; if (o.size() > 1500) { o += "..."; break; } }
    return o.empty() ? "default" : o;
}

Stats explore(const Options& o, const std::function<void()>& body, const std::function<bool()>& done, const std::function<void(const std::string&)>& problem) {
    me();
    Stats st; std::vector<int> prefix;
    auto old = problem_handler; problem_handler = problem;
    bool old_races = races_on; races_on = o.races; reported.clear();
    int old_order = default_order; default_order = 0;
    while (true) {
        run.exploring = true; run.opt = o; run.prefix = prefix; run.trace.clear(); run.points = 0; run.diverged = false;
        sync_vc.clear(); mutexes.clear(); shadow_clear(); max_team = 1; region_no = -1;
        body();
        run.exploring = false;
        st.regions = std::max<u64>(st.regions, region_no + 1);
        ++st.schedules; st.points += run.points; st.branches += run.trace.size();
        st.max_points = std::max(st.max_points, run.points); st.max_threads = std::max<u64>(st.max_threads, max_team);
        if (run.diverged || run.trace.size() < prefix.size()) report("execution is not determined by the schedule (diverged while replaying a prefix)");
        if (!done()) break;
        if (o.max_schedules && st.schedules >= o.max_schedules) { st.capped = true; break; }
        // next schedule
        const auto tr = run.trace;
        std::vector<int> pre(tr.size() + 1, 0), del(tr.size() + 1, 0);
        for (size_t i = 0; i < tr.size(); ++i) {
            pre[i + 1] = pre[i] + (tr[i].chosen && tr[i].cur_enabled ? 1 : 0);
            del[i + 1] = del[i] + (tr[i].chosen ? 1 : 0);
        }
        bool found = false;
        for (size_t i = tr.size(); i-- > 0 && !found;) {
            int alt = tr[i].chosen + 1;
            if (alt >= tr[i].n) continue;
            if (o.preemptions >= 0 && pre[i] + (tr[i].cur_enabled ? 1 : 0) > o.preemptions) continue;
            if (o.delays >= 0 && del[i] + 1 > o.delays) continue;
            prefix.clear();
            for (size_t k = 0; k < i; ++k) prefix.push_back(tr[k].chosen);
            prefix.push_back(alt);
            found = true;
        }
        if (!found) break;
    }
    problem_handler = old; races_on = old_races; default_order = old_order;
    return st;
}

} // namespace mc

using namespace mc;

// ======================================================== libgomp =====================================================
extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { parallel(fn, data, nt); }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_single_start() {
    Th* s = me(); if (s->ctx.team->n > 1) point();
    WorkShare* w = ws_enter(); bool first = !w->inited; w->inited = true;
    ws_leave(); return first;
}
void* GOMP_single_copy_start() {
    if (me()->ctx.team->n > 1) point();
    WorkShare* w = ws_enter(); bool first = !w->inited; w->inited = true;
    if (first) return nullptr;
    u64 idx = me()->ctx.ws - 1; Team* t = me()->ctx.team;
    barrier();
    void* r = t->ws[idx].copy; return r;
}
void GOMP_single_copy_end(void* d) { me()->ctx.cur->copy = d; barrier(); }
void GOMP_critical_start() { lock(&crit_key, "a critical section"); }
void GOMP_critical_end() { unlock(&crit_key); }
void GOMP_critical_name_start(void** p) { lock(p, "a critical section"); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_key, "an atomic update"); }
void GOMP_atomic_end() { unlock(&atomic_key); }

void GOMP_loop_end() { ws_leave(); barrier(); }
bool GOMP_loop_end_cancel() { ws_leave(); barrier(); return false; }
void GOMP_loop_end_nowait() { ws_leave(); }

#define LOOP(name, GUIDED) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return ws_start(s, e, i, c, GUIDED, a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return ws_next(a, b); } \
    bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return ws_start_ull(up, s, e, i, c, GUIDED, a, b); } \
    bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return ws_next_ull(a, b); } \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { \
        parallel(fn, d, nt, [&](Team& t) { auto& w = t.ws[0]; w.inited = true; w.next = s; w.end = e; w.incr = i; w.chunk = c; w.guided = GUIDED; }); }
LOOP(dynamic, false) LOOP(guided, true) LOOP(nonmonotonic_dynamic, false) LOOP(nonmonotonic_guided, true) LOOP(static, false)
#define LOOPR(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return ws_start(s, e, i, 1, false, a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return ws_next(a, b); } \
    bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return ws_start_ull(up, s, e, i, 1, false, a, b); } \
    bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return ws_next_ull(a, b); } \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { \
        parallel(fn, d, nt, [&](Team& t) { auto& w = t.ws[0]; w.inited = true; w.next = s; w.end = e; w.incr = i; w.chunk = 1; }); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)

unsigned GOMP_sections_start(unsigned n) {
    WorkShare* w = ws_enter(); if (!w->inited) { w->inited = true; w->sect_count = n; w->sect_next = 1; }
    point(); return w->sect_next <= w->sect_count ? w->sect_next++ : 0;
}
unsigned GOMP_sections_next() { WorkShare* w = me()->ctx.cur; point(); return w->sect_next <= w->sect_count ? w->sect_next++ : 0; }
void GOMP_sections_end() { ws_leave(); barrier(); }
void GOMP_sections_end_nowait() { ws_leave(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) {
    parallel(fn, d, nt, [&](Team& t) { auto& w = t.ws[0]; w.inited = true; w.sect_count = n; w.sect_next = 1; });
}

void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (cpy) {
        std::vector<char> buf(size + align);
        char* arg = (char*)(((uintptr_t)buf.data() + align - 1) & ~(uintptr_t)(align - 1));
        cpy(arg, data); fn(arg);
    } else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

// ---- omp_* ------------------------------------------------------------------------------------------------------------
int omp_get_thread_num() { return me()->ctx.tid; }
int omp_get_num_threads() { return me()->ctx.team->n; }
int omp_get_max_threads() { return nthreads_var ? nthreads_var : 8; }
void omp_set_num_threads(int n) { nthreads_var = n < 1 ? 1 : n; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return me()->ctx.team->n > 1; }
int omp_get_level() { return me()->ctx.team->level; }
int omp_get_active_level() { return me()->ctx.team->n > 1; }
int omp_get_thread_limit() { return INT_MAX; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void* l) { mutexes.erase(l); }
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock(l, "an OpenMP lock"); }
void omp_unset_lock(void* l) { unlock(l); }
int omp_test_lock(void* l) { return trylock(l); }
void omp_init_nest_lock(void* l) { mutexes.erase(l); }
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* l) { lock(l, "an OpenMP lock", true); }
void omp_unset_nest_lock(void* l) { unlock(l); }

// ======================================================== pthread =====================================================
int pthread_mutex_lock(pthread_mutex_t* m) { lock(m, "a mutex", m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return trylock(m) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { unlock(m); return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
    mutexes.erase(m); return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { mutexes.erase(m); return 0; }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    Th* s = me();
    if (live <= 1 && !timed) { report("deadlock: a condition wait with no other thread running"); _exit(90); }
    // A spurious wake-up is one of the answers the environment may give.
    if (run.exploring && run.opt.spurious && decide(2, true, true) == 1) { unlock(m); lock(m, "a mutex"); return 0; }
    if (timed) { unlock(m); spin_point(); lock(m, "a mutex"); return ETIMEDOUT; }
    s->woken = false;
    unlock(m);
    while (!s->woken) block(c, "a condition wait");
    lock(m, "a mutex");
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec*) { return cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) {
    point();
    for (auto t : threads) if (t->st == BLOCKED && t->on == c) { t->st = RUN; t->woken = true; break; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) { point(); wake_all(c); return 0; }

int sched_yield() { if (live > 1) dispatch(true); return 0; }
int nanosleep(const timespec*, timespec*) { if (live > 1) dispatch(true); return 0; }
int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { if (live > 1) dispatch(true); return 0; }
int usleep(useconds_t u) {
    if (live > 1) { dispatch(true); return 0; }
    timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; syscall(SYS_nanosleep, &t, nullptr); return 0;
}

static void* foreign_main(void* arg) {
    Th* s = (Th*)arg; self = s;
    while (!s->go.load()) futex_wait(&s->go, 0);
    s->go.store(0);
    s->pret = s->pfn(s->data);
    release(s);
    s->st = EXITED; --live;
    wake_all(s);
    Th* nx = nullptr;
    Th* opts[MAXT]; int n = 0;
    for (auto t : threads) if (t->st == RUN) opts[n++] = t;
    if (!n) { report("deadlock: " + describe_threads()); _exit(90); }
    nx = opts[decide(n, false)];
    nx->go.store(1); futex_wake(&nx->go);
    return s->pret;
}
int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    Th* s = me();
    if (live == 1) { shadow_clear(); ++region_no; }
    Th* t = new_thread();
    t->foreign = true; t->pfn = fn; t->data = arg; t->st = RUN; t->ctx.team = &root_team;
    t->vc = s->vc; t->vc.c[t->gid] = 1; tick(s);
    int r = real_create()(&t->pt, at, foreign_main, t);
    if (r) return r;
    ++live; *pt = t->pt;
    point();
    return 0;
}
int pthread_join(pthread_t pt, void** ret) {
    Th* x = nullptr;
    for (auto t : threads) if (t->foreign && !t->joined && pthread_equal(t->pt, pt)) x = t;
    if (!x) return ESRCH;
    point();
    while (x->st != EXITED) block(x, "a thread join");
    acquire(x);
    x->joined = true;
    typedef int (*pj)(pthread_t, void**);
    static pj real = (pj)dlsym(RTLD_NEXT, "pthread_join");
    return real(pt, ret);
}

// ==================================================== instrumentation ==================================================
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, false, PC); } \
    void __tsan_write##n(void* p) { access(p, n, true, false, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }

#ifdef MCRT_WRAP
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (live > 1 && n) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (live > 1 && n) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (live > 1 && n) access(d, n, true, false, PC); return memset(d, c, n); }
#endif

static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { if (live > 1) { spin_point(); access((const void*)p, sizeof(T), false, true, PC); if (acq(mo)) acquire((const void*)p); } return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { if (live > 1) { point(); access((const void*)p, sizeof(T), true, true, PC); if (rel(mo)) release((const void*)p); } *p = v; } \
    static inline void rmw##bits(volatile T* p, int mo, const void* pc) { if (live > 1) { point(); access((const void*)p, sizeof(T), true, true, pc); if (acq(mo)) acquire((const void*)p); if (rel(mo)) release((const void*)p); } } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { rmw##bits(p, mo, PC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { rmw##bits(p, mo, PC); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { rmw##bits(p, mo, PC); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { rmw##bits(p, mo, PC); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { rmw##bits(p, mo, PC); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { rmw##bits(p, mo, PC); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { rmw##bits(p, mo, PC); T o = *p; *p = ~(o & v); return o; } \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { rmw##bits(p, mo, PC); if (*p == *e) { *p = v; return true; } *e = *p; me()->spins++; return false; } \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int f) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, f); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int f) { T x = e; __tsan_atomic##bits##_compare_exchange_strong(p, &x, v, mo, f); return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, __uint128_t)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

#ifdef MCRT_NEW
// fresh memory carries no access history
static void* tracked(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    if (live > 1 && races_on) {
        uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + malloc_usable_size(p)) >> 3;
        if (e - a < 4096) { for (; a < e; ++a) if (Cell* c = cell(a, false)) c->n = 0; }
        else for (auto& c : shadow) if (c.gen == shadow_gen && c.key >= a && c.key < e) c.n = 0;
    }
    return p;
}
void* operator new(size_t n) { return tracked(n); }
void* operator new[](size_t n) { return tracked(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
