// C05 / C06 / C07: the parallel phases of the samplers, of index construction, weight scaling and edge generation under
// every schedule within the bound. -DPROP=5: same result on every schedule; -DPROP=6: every run ends with all work done,
// whatever team the runtime delivers; -DPROP=7: no data race (vector clocks, all memory accesses).
#include "vk.h"
#include "mcrt.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <string>
#include <vector>
#include <omp.h>
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>

typedef std::vector<std::pair<int, int>> Edges;
static const double INF = std::numeric_limits<double>::infinity();
static const double PI2 = 2 * 3.14159265358979323846;

static uint64_t zero_hook(uint64_t, bool, uint64_t) { return 0; }           // accept every candidate
static vrng::Hook hashed_hook;
// every random draw is a scheduling point, too: an engine shared by threads would be noticed
static bool draws_are_points = false;
static uint64_t hashed_point(uint64_t k, bool q, uint64_t p) { if (draws_are_points) mc::choice_point("draw"); return hashed_hook(k, q, p); }

static Edges normal(Edges e) {
    for (auto& x : e) if (x.first > x.second) std::swap(x.first, x.second);
    std::sort(e.begin(), e.end()); return e;
}

// what a run produced, comparable
struct Result { std::vector<uint64_t> data; };
static Result of_edges(const Edges& e) { Result r; for (auto& x : normal(e)) r.data.push_back((uint64_t(uint32_t(x.first)) << 32) | uint32_t(x.second)); return r; }
static void add(Result& r, const std::vector<double>& v) { for (double x : v) { uint64_t b; memcpy(&b, &x, 8); r.data.push_back(b); } r.data.push_back(0x7e57); }

struct Scenario {
    std::string name;
    bool generator;                                  // accept-all completeness applies
    bool rounding;                                   // results may differ by rounding (reductions)
    std::function<Result()> run;
    size_t all_pairs;                                // expected number of edges if every candidate is accepted (0: not applicable)
};

struct PerThread { Edges e; char pad[64]; };

// ---------------------------------------------------------------------------------------------------------------------
static std::vector<double> ring(int n, double off) { std::vector<double> a; for (int i = 0; i < n; ++i) a.push_back(PI2 * std::fmod(i * 0.6180339887498949 + off, 1.0)); return a; }

static Result run_hrg(const std::vector<double>& r, const std::vector<double>& a, double T, double R, int seed, bool points) {
    std::vector<PerThread> out(64);
    auto cb = [&](int u, int v, int tid) { if (points) mc::choice_point("edge"); out[tid].e.emplace_back(u, v); };
    auto t = hypergirgs::makeHyperbolicTree(r, a, T, R, cb);
    t.generate(seed);
    Edges e; for (auto& o : out) e.insert(e.end(), o.e.begin(), o.e.end());
    return of_edges(e);
}
template <unsigned D> static Result run_girg(const std::vector<double>& w, const std::vector<std::vector<double>>& p, double alpha, int seed, bool points) {
    std::vector<PerThread> out(64);
    auto cb = [&](int u, int v, int tid) { if (points) mc::choice_point("edge"); out[tid].e.emplace_back(u, v); };
    auto t = girgs::makeSpatialTree<D>(w, p, alpha, cb);
    t.generateEdges(seed);
    Edges e; for (auto& o : out) e.insert(e.end(), o.e.begin(), o.e.end());
    return of_edges(e);
}
static std::vector<std::vector<double>> pos(int n, int d) {
    std::vector<std::vector<double>> p; const double g[] = {0.6180339887498949, 0.7548776662466927, 0.8191725133961645, 0.8566748838545029, 0.8812714616335696};
    for (int i = 0; i < n; ++i) { std::vector<double> x; for (int k = 0; k < d; ++k) x.push_back(std::fmod(0.5 + (i + 1) * g[k], 1.0)); p.push_back(x); }
    return p;
}

static std::vector<Scenario> scenarios() {
    std::vector<Scenario> s;
    auto pairs = [](size_t n) { return n * (n - 1) / 2; };
    // hyperbolic: with tasks (levels >= first parallel level), without, with inner points, threshold and not
    struct H { const char* n; int k; double R; double T; double spread; };
    for (H h : {H{"flat", 5, 1.0, 0.0, 0.3}, H{"flat", 5, 1.0, 0.5, 0.3}, H{"deep", 7, 8.0, 0.0, 3.0}, H{"deep", 7, 8.0, 0.6, 3.0}, H{"inner", 6, 5.0, 0.9, 4.5}, H{"outer", 9, 6.0, 0.3, 0.9}}) {
        std::vector<double> r; for (int i = 0; i < h.k; ++i) r.push_back(h.R - h.spread * (i + 0.5) / h.k * 0.98 - 1e-3);
        auto a = ring(h.k, 0.1);
        s.push_back({vk::fmt("hrg-%s-R%g-T%g", h.n, h.R, h.T), true, false, [=] { return run_hrg(r, a, h.T, h.R, 12, false); }, h.T > 0 ? pairs(h.k) : 0});
    }
    // GIRG: one layer / several layers, d = 1, 2, 3, 5; deep and shallow
    s.push_back({"girg-d1-eq-thr", true, false, [=] { return run_girg<1>(std::vector<double>(7, 0.4), pos(7, 1), INF, 3, false); }, 0});
    s.push_back({"girg-d1-eq-1.5", true, false, [=] { return run_girg<1>(std::vector<double>(7, 0.3), pos(7, 1), 1.5, 3, false); }, pairs(7)});
    { std::vector<double> w{0.1, 0.1, 0.15, 0.2, 0.45, 0.9, 2.1, 0.1}; s.push_back({"girg-d2-layers-2.5", true, false, [=] { return run_girg<2>(w, pos(8, 2), 2.5, 3, false); }, pairs(8)}); }
    { std::vector<double> w{0.02, 0.02, 0.03, 0.05, 0.02, 0.02}; s.push_back({"girg-d2-deep-1.2", true, false, [=] { return run_girg<2>(w, pos(6, 2), 1.2, 3, false); }, pairs(6)}); }
    { std::vector<double> w{0.1, 0.1, 0.3, 0.2}; s.push_back({"girg-d3-thr", true, false, [=] { return run_girg<3>(w, pos(4, 3), INF, 3, false); }, 0}); }
    { std::vector<double> w{0.1, 0.12, 0.3, 0.2}; s.push_back({"girg-d5-2", true, false, [=] { return run_girg<5>(w, pos(4, 5), 2.0, 3, false); }, pairs(4)}); }
    // complete public generators
    { auto p = pos(5, 2); std::vector<double> w(5, 0.5); s.push_back({"girgs-generateEdges", true, false, [=] { return of_edges(girgs::generateEdges(w, p, 2.0, 8)); }, pairs(5)}); }
    { std::vector<double> r{4.5, 3.9, 4.7, 2.2, 4.1}; auto a = ring(5, 0.3); s.push_back({"hypergirgs-generateEdges", true, false, [=] { auto rr = r, aa = a; return of_edges(hypergirgs::generateEdges(rr, aa, 0.5, 5.0, 8)); }, pairs(5)}); }
    // samplers: more nodes than the smallest parallel size
    s.push_back({"weights", false, false, [] { Result r; add(r, girgs::generateWeights(10000 * omp_get_max_threads() + 3, 2.5, 5, true)); return r; }, 0});
    s.push_back({"positions", false, false, [] { Result r; for (auto& x : girgs::generatePositions(10000 * omp_get_max_threads() + 3, 2, 5, true)) add(r, x); return r; }, 0});
    s.push_back({"radii", false, false, [] { Result r; add(r, hypergirgs::sampleRadii(10000 * omp_get_max_threads(), 0.75, 10, 5, true)); return r; }, 0});
    s.push_back({"angles", false, false, [] { Result r; add(r, hypergirgs::sampleAngles(10000 * omp_get_max_threads() - 1, 5, true)); return r; }, 0});
    s.push_back({"radii-angles", false, false, [] { Result r; auto x = hypergirgs::sampleRadiiAndAngles(10000 * omp_get_max_threads(), 0.75, 10, 5, true); add(r, x.first); add(r, x.second); return r; }, 0});
    // weight scaling
    for (double alpha : {2.0, INF}) s.push_back({vk::fmt("scale-%g", alpha), false, true, [=] { Result r; std::vector<double> w; for (int i = 0; i < 24; ++i) w.push_back(1 + (i * 7 % 24) * 0.5); double c = girgs::scaleWeights(w, 4, 2, alpha); w.push_back(c); add(r, w); return r; }, 0});
    return s;
}

static std::string differ(const Result& a, const Result& b, bool rounding) {
    if (a.data.size() != b.data.size()) return vk::fmt("%zu results instead of %zu", b.data.size(), a.data.size());
    for (size_t i = 0; i < a.data.size(); ++i) if (a.data[i] != b.data[i]) {
        if (rounding) { double x, y; memcpy(&x, &a.data[i], 8); memcpy(&y, &b.data[i], 8); if (std::abs(x - y) <= 1e-9 * std::abs(x)) continue; }
        return vk::fmt("result %zu is %016llx instead of %016llx", i, (unsigned long long)b.data[i], (unsigned long long)a.data[i]);
    }
    return "";
}

static void explore(const Scenario& s, int threads, int cap, mc::Options o, const char* bound, const Result& want) {
    omp_set_num_threads(threads);
    mc::set_team_cap(cap);
    o.races = PROP == 7;
    Result got;
    auto st = mc::explore(o, [&] { got = s.run(); }, [&] {
        vk::traces();
        uint64_t h = vk::hash_vec(got.data); vk::state(vk::mix(h, std::hash<std::string>()(s.name)));
        if (PROP != 7) { auto d = differ(want, got, s.rounding); if (!d.empty()) { vk::fail("%s (schedule %s)", d.c_str(), mc::schedule().c_str()); return false; } }
        return !vk::failed();
    }, [&](const std::string& p) {
        if (p.compare(0, 9, "data race") == 0) vk::fail("%s (schedule %s)", p.c_str(), mc::schedule().c_str());
        else vk::fatal_fail("%s (schedule %s)", p.c_str(), mc::schedule().c_str());
    });
    vk::transitions(st.points); vk::count("schedules", st.schedules);
    vk::maxi("scheduling_points_per_execution", st.max_points); vk::maxi("threads", st.max_threads);
    if (st.capped) { vk::count("capped_explorations"); vk::not_exhaustive(vk::fmt("%s: %s stopped after %llu schedules", s.name.c_str(), bound, (unsigned long long)st.schedules).c_str()); }
    mc::set_team_cap(0);
}

int main(int argc, char** argv) {
    hashed_hook = vrng::hook;
    static auto sc = scenarios();
    for (auto& s : sc) {
        struct B { int threads, cap; int preempt, delays; bool per_region; uint64_t max; bool draws = false; };
        std::vector<B> bs;
        const bool th = vk::thorough();
        const bool gen = s.name.compare(0, 3, "hrg") == 0 || s.name.compare(0, 5, "hyper") == 0;
        if (PROP == 6) {
            // the runtime may deliver any smaller team
            for (int t : {2, 3, 4, 5, 8}) for (int cap = 1; cap <= t; ++cap) {
                if (t == 8 && cap != 1 && cap != 2 && cap != 5 && cap != 8) continue;
                bs.push_back({t, cap, -1, cap <= 3 ? (th ? 4 : 2) : (th ? 2 : 1), false, 0});
            }
            bs.push_back({16, 16, -1, 1, false, 0}); bs.push_back({16, 7, -1, 1, false, 0});
        }
        bs.push_back({2, 2, th ? -1 : 3, -1, true, th ? 3000000ull : 0});
        bs.push_back({2, 2, th ? 4 : 2, -1, false, 0});
        bs.push_back({3, 3, th ? 3 : 2, -1, true, th ? 3000000ull : 0});
        bs.push_back({3, 3, th ? 2 : 1, -1, false, 0});
        if (PROP != 6) { for (int t : {4, 5, 8}) bs.push_back({t, t, -1, th ? 3 : t == 4 ? 2 : 1, false, th ? 2000000ull : 0}); bs.push_back({16, 16, -1, 1, false, 0}); }
        if (PROP == 5 && s.generator) { bs.push_back({2, 2, 2, -1, false, 0, true}); bs.push_back({3, 3, th ? 2 : 1, -1, false, th ? 2000000ull : 0, true}); bs.push_back({4, 4, -1, th ? 2 : 1, false, 0, true}); }
#ifndef NDEBUG
        // every check counter of the assertion build is an atomic, i.e. a scheduling point: one deviation only
        std::vector<B> few; for (auto b : bs) if (b.threads <= 4 && !b.per_region && !b.draws) { b.preempt = -1; b.delays = 1; if (few.empty() || few.back().threads != b.threads || few.back().cap != b.cap) few.push_back(b); }
        bs = few;
#endif
        for (auto b : bs) {
            // regions are known only when running; a unit per bound, regions inside
            vk::unit(vk::fmt("%s-t%d-team%d%s%s%s", s.name.c_str(), b.threads, b.cap, b.preempt >= 0 ? vk::fmt("-p%d", b.preempt).c_str() : "", b.delays >= 0 ? vk::fmt("-d%d", b.delays).c_str() : "", b.per_region ? "-regions" : b.draws ? "-draws" : ""), [=] {
                for (int all = 0; all < 2; ++all) {
                    if (all && !(s.all_pairs && PROP != 7 && b.delays >= 0 && !b.draws) && !(PROP == 6 && s.all_pairs)) continue;
                    if (all && (b.draws || (b.per_region && PROP != 6))) continue;
                    vrng::hook = all ? zero_hook : hashed_point; draws_are_points = b.draws;
                    omp_set_num_threads(b.threads);
                    // reference: an uncontrolled deterministic run; with smaller teams samplers legitimately differ per team size
                    mc::set_team_cap(b.cap); mc::set_default_order(0);
                    Result want; int regions = 0;
                    bool ok = vk::begin("%s threads=%d team<=%d %s", s.name.c_str(), b.threads, b.cap, all ? "every candidate accepted" : "reference run");
                    mc::parallel_regions();
                    // the reference is needed by the following cases, too
                    mc::set_problem_handler([&](const std::string& p) { vk::fatal_fail("%s", p.c_str()); });
                    want = s.run();
                    regions = mc::parallel_regions();
                    if (ok && all && want.data.size() != s.all_pairs) { vk::fail("%zu of %zu pairs reported although every candidate is accepted", want.data.size(), s.all_pairs); }
                    if (ok && all) { auto d = want.data; if (std::unique(d.begin(), d.end()) != d.end()) vk::fail("a pair is reported twice"); }
                    // edges do not depend on the delivered team for the threshold model
                    if (b.per_region) {
                        for (int r = 0; r < regions; ++r) {
                            if (!vk::begin("%s threads=%d region %d of %d preemptions<=%d%s", s.name.c_str(), b.threads, r, regions, b.preempt, all ? " accept all" : "")) continue;
                            mc::Options o; o.preemptions = b.preempt; o.region = r; o.max_schedules = b.max;
                            explore(s, b.threads, b.cap, o, "region", want);
                        }
                    } else {
                        if (!vk::begin("%s threads=%d team<=%d preemptions<=%d delays<=%d%s", s.name.c_str(), b.threads, b.cap, b.preempt, b.delays, all ? " accept all" : "")) continue;
                        mc::Options o; o.preemptions = b.preempt; o.delays = b.delays; o.max_schedules = b.max;
                        explore(s, b.threads, b.cap, o, "whole run", want);
                    }
                }
            }, 600);
        }
    }
    return vk::main(argc, argv, "conc");
}
