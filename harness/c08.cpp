// C08: collecting edges from per-thread buffers, at edge counts around multiples of the buffer capacity.
// Graphs are disjoint unions of cliques (all points of a clique at one place), so the number of edges and the cells (hence
// threads) they come from are chosen exactly. PART 0: counts x threads, PART 1: schedules of hand-overs, PART 2: race detection.
#include "vk.h"
#ifdef VERIF_MCRT
#include "mcrt.h"
#endif
#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <omp.h>
#include <girgs/Generator.h>
#include <hypergirgs/Generator.h>
static const double PI2 = 6.283185307179586476925286766559, INF = std::numeric_limits<double>::infinity();
typedef std::vector<std::pair<int, int>> E;
static const long BLOCK = 1l << 20;

// cliques with exactly m edges in total (largest first)
static std::vector<int> cliques(long m, int largest = 1 << 30) {
    std::vector<int> c; while (m > 0) { long k = std::min<long>(largest, (long)((1 + std::sqrt(1 + 8.0 * m)) / 2)); while (k * (k - 1) / 2 > m) --k; while (k < largest && (k + 1) * k / 2 <= m) ++k; c.push_back(k); m -= k * (k - 1) / 2; } return c;
}
enum Model { GIRG1, GIRG2, GIRG_T, HRG, HRG_T };
static const char* model_name[] = {"girg d=1 threshold", "girg d=2 threshold", "girg d=1 alpha=50", "hyperbolic T=0", "hyperbolic T=0.01"};

static std::vector<int> owner;  // clique of every node
static E generate(Model m, const std::vector<int>& size, const std::vector<double>& place) {
    owner.clear(); std::vector<double> x; for (size_t c = 0; c < size.size(); ++c) for (int i = 0; i < size[c]; ++i) { owner.push_back(c); x.push_back(place[c]); }
    const int n = owner.size();
    if (m <= GIRG_T) {
        // W/w^2 = n/w: threshold distance^d = w/n; places are at least 1/2000 apart (1/40 in both coordinates for d=2)
        const int d = m == GIRG2 ? 2 : 1; std::vector<double> w(n, (d == 1 ? 1e-4 : 1e-4) * n);
        std::vector<std::vector<double>> p(n, std::vector<double>(d)); for (int i = 0; i < n; ++i) { if (d == 1) p[i][0] = x[i]; else { p[i][0] = std::fmod(x[i] * 32, 1.0); p[i][1] = std::floor(x[i] * 32) / 32; } }
        return girgs::generateEdges(w, p, m == GIRG_T ? 50.0 : INF, 3);
    }
    std::vector<double> r(n, 15.9), a(n); for (int i = 0; i < n; ++i) a[i] = x[i] * PI2 * 0.9999;
    return hypergirgs::generateEdges(r, a, m == HRG ? 0 : 0.01, 16, 3);
}
static bool verify(const E& e, const std::vector<int>& size) {
    const int n = owner.size(); long m = 0; std::vector<long> base(size.size()), first(size.size()); long f = 0;
    for (size_t c = 0; c < size.size(); ++c) { base[c] = m; first[c] = f; m += (long)size[c] * (size[c] - 1) / 2; f += size[c]; }
    std::vector<bool> seen(m, false); long have = 0;
    for (auto& x : e) {
        int u = std::min(x.first, x.second), v = std::max(x.first, x.second);
        if (u < 0 || v >= n || u == v || owner[u] != owner[v]) { vk::fail("edge (%d,%d) does not exist", x.first, x.second); return false; }
        const int c = owner[u]; long j = u - first[c], i = v - first[c]; size_t at = base[c] + i * (i - 1) / 2 + j;
        if (seen[at]) { vk::fail("edge {%d,%d} is returned twice", u, v); return false; }
        seen[at] = true; ++have;
    }
    if (have != m) { vk::fail("%ld of %ld edges are missing", m - have, m); return false; }
    return true;
}
// places: one clique after the other around the circle
static std::vector<double> spread(size_t k, size_t offset = 0) { std::vector<double> p; const size_t slots = std::max<size_t>(512, k + 1); for (size_t i = 0; i < k; ++i) p.push_back(((i * (k <= 512 ? 512 / std::max<size_t>(1, k) : 1) + offset) % slots + 0.5) / slots); return p; }

static void counts(Model m, long edges, int threads, int order, int largest) {
    if (!vk::begin("%s, %ld edges (2^20*%ld%+ld) in cliques of up to %d nodes, threads=%d order=%d", model_name[m], edges, (edges + BLOCK / 2) / BLOCK, edges - (edges + BLOCK / 2) / BLOCK * BLOCK, largest, threads, order)) return;
    auto c = cliques(edges, largest); omp_set_num_threads(threads);
#ifdef VERIF_MCRT
    mc::set_default_order(order);
#endif
    auto e = generate(m, c, spread(c.size()));
    vk::transitions(); vk::traces(); vk::states(edges);
    verify(e, c);
    vk::maxi("most_edges", edges);
}
#ifdef VERIF_MCRT
static void schedules(Model m, const std::vector<int>& c, int threads, int delays, int preemptions, bool races, uint64_t cap) {
    std::string s; for (int k : c) s += vk::fmt(" %ld", (long)k * (k - 1) / 2);
    if (!vk::begin("%s, cliques with%s edges, threads=%d, %s", model_name[m], s.c_str(), threads, races ? "race detection" : "all hand-over orders within the bound")) return;
    if (races) {   // rotate at every scheduling point, so that all threads get work
        for (double second : {0.3, 0.501, 0.8}) {   // tasks are handed out in turns: one of the places is served by the other thread
            if (m < HRG && second != 0.501) continue;
            const int order = 2; auto place = spread(c.size()); bool ok = true; place[1] = second;
            mc::set_problem_handler([&](const std::string& p) { if (p.find("race") != std::string::npos) { vk::fail("%s", p.c_str()); ok = false; } else vk::fatal_fail("%s", p.c_str()); });
            mc::set_default_order(order); mc::set_races(true); mc::reset_points(); omp_set_num_threads(threads);
            E e = generate(m, c, place);
            mc::set_races(false); mc::set_default_order(0);
            vk::traces(); vk::states(1); vk::transitions(mc::run_points()); if (ok) verify(e, c);
        }
        return;
    }
    mc::Options o; o.delays = delays; o.preemptions = preemptions; o.races = races; o.max_schedules = cap; bool ok = true; E e;
    auto place = spread(c.size());
    auto st = mc::explore(o, [&] { omp_set_num_threads(threads); e = generate(m, c, place); }, [&] { vk::traces(); ok = ok && verify(e, c); if (!ok) vk::note("schedule %s", mc::schedule().c_str()); return ok; },
        [&](const std::string& p) { if (p.find("race") != std::string::npos) { vk::fail("%s", p.c_str()); ok = false; } else vk::fatal_fail("%s", p.c_str()); });
    vk::states(st.schedules); vk::transitions(st.points); vk::count("schedules", st.schedules); vk::maxi("most_schedules_of_one_case", st.schedules); vk::maxi("most_threads", st.max_threads);
    if (st.capped) vk::not_exhaustive("schedule cap");
}
#endif

int main(int argc, char** argv) {
    const bool T = vk::thorough();
#if PART == 0
    for (int m = 0; m < 5; ++m) for (int k = 1; k <= (T ? 6 : 3); ++k) for (int part = 0; part < 2; ++part) vk::unit(vk::fmt("counts:%d:x%d:%d", m, k, part), [=] {
        std::vector<long> off{-2, -1, 0, 1, 2}; if (T) for (long x : {-1000, -3, 3, 1000, 300000}) off.push_back(x);
        for (long o : off) for (int t : T ? std::vector<int>{1, 2, 3, 4, 8, 16} : std::vector<int>{1, 2, 5}) {
            // 1 thread: every edge goes through one buffer. More threads: big cliques in a few cells
            if ((t == 1) == (part == 0)) for (int order : {0, 2}) { if (t == 1 && order) continue; if (!T && order && o) continue;
                counts((Model)m, k * BLOCK + o, t, order, 1 << 30); if (t > 1 && (T || !o)) counts((Model)m, k * BLOCK + o, t, order, 400); }
        }
    }, 200);
    // few edges: every count up to 300, all threads
    for (int m = 0; m < 5; ++m) vk::unit(vk::fmt("few:%d", m), [=] { for (long e = 1; e <= (T ? 600 : 120); ++e) for (int t : {1, 2, 3, 4, 8, 16}) { counts((Model)m, e, t, 0, 1 << 30); counts((Model)m, e, t, 1, 4); } }, 60);
#else
    // hand-overs during the parallel phase by several threads: cliques just above one or two buffers in different cells
    std::vector<std::vector<int>> sets{{1449, 1449}, {1449, 1449, 1449}, {1449, 60, 1449, 60}, {2050, 1449}};
    if (T) { sets.push_back({1449, 1449, 1449, 1449, 1449, 1449, 1449, 1449}); sets.push_back({2509, 2050, 1449}); }
    for (size_t s = 0; s < sets.size(); ++s) for (int m : {(int)GIRG1, (int)HRG, (int)GIRG2}) for (int t : {2, 3, 4}) {
        if ((PART == 2 && T && (t > 2 || s > 0)) || (!T && ((m == GIRG2 && (t != 2 || s)) || (t == 4 && s != 1) || (PART == 2 && (s || t != 2 || m == GIRG2))))) continue;
        vk::unit(vk::fmt("schedules:%zu:%d:t%d", s, m, t), [=] {
            // PART 2: accesses are checked, few schedules are enough (the order of hand-overs does not hide a race)
            if (PART == 2) schedules((Model)m, sets[s], t, 0, -1, true, 0);
            else schedules((Model)m, sets[s], t, t == 2 ? (T ? 5 : 3) : (T ? 3 : 2), -1, false, T ? 40000 : 1500);
        }, T ? 3000 : 300);
    }
#endif
    return vk::main(argc, argv, "c08");
}
