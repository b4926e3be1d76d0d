// C22: the result of a call depends on its arguments and the thread count only. All sequences of calls up to a bound are
// executed; every result is compared with the one the call gives as the first call of a fresh process.
#include "vk.h"
#ifdef VERIF_MCRT
#include "mcrt.h"
#endif
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <omp.h>
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
static const double INF = std::numeric_limits<double>::infinity();
typedef std::vector<double> V; typedef std::vector<std::vector<double>> VV; typedef std::vector<std::pair<int, int>> E;

static uint64_t hash_edges(E e) { for (auto& x : e) if (x.first > x.second) std::swap(x.first, x.second); std::sort(e.begin(), e.end()); return vk::hash_vec(e, e.size()); }
static uint64_t hash_vv(const VV& p) { uint64_t h = p.size(); for (auto& x : p) h = vk::hash_vec(x, h); return h; }
// inputs: fixed pseudo-random, independent of the library
static uint64_t rnd(uint64_t& s) { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static double uni(uint64_t& s) { return (rnd(s) >> 11) * 0x1p-53; }
static V weights(int n, double scale, uint64_t s) { V w(n); for (auto& x : w) x = scale * std::pow(1 - 0.999 * uni(s), -0.6); return w; }
static VV points(int n, int d, uint64_t s) { VV p(n, V(d)); for (auto& x : p) for (auto& y : x) y = uni(s); return p; }

// result of a call: exact hash and/or values compared up to rounding
struct Result { uint64_t exact = 0; double approx[4] = {0, 0, 0, 0}; int na = 0; char thrown[64] = {0}; };
static bool same(const Result& a, const Result& b) {
    if (a.exact != b.exact || a.na != b.na || strcmp(a.thrown, b.thrown)) return false;
    for (int i = 0; i < a.na; ++i) if (!(std::abs(a.approx[i] - b.approx[i]) <= 1e-9 * std::abs(a.approx[i]))) return false;
    return true;
}
static void approx_vec(Result& r, const V& v) { double a = 0, b = 0; for (size_t i = 0; i < v.size(); ++i) { a += v[i]; b += v[i] * (i + 1); } r.approx[0] = a; r.approx[1] = b; r.na = 2; r.exact = v.size(); }

static std::string inputs_changed;
static uint64_t girg_edges(int n, int d, double scale, double alpha, int seed, uint64_t s) {
    auto w = weights(n, scale, s); auto p = points(n, d, s + 1); auto w2 = w; auto p2 = p;
    auto e = girgs::generateEdges(w, p, alpha, seed);
    if (w != w2 || p != p2) inputs_changed = "girgs::generateEdges changes its inputs";
    return hash_edges(e);
}
static uint64_t hyper_edges(int n, double R, double T, int seed, uint64_t s) {
    V r(n), a(n); for (auto& x : r) x = std::acosh(1 + (std::cosh(0.75 * R) - 1) * uni(s) * 0.999) / 0.75; for (auto& x : a) x = 6.283185307179586 * uni(s);
    auto r2 = r, a2 = a; auto e = hypergirgs::generateEdges(r, a, T, R, seed);
    if (r != r2 || a != a2) inputs_changed = "hypergirgs::generateEdges changes its inputs";
    return hash_edges(e);
}

// generator objects that live during one sequence
struct GirgObject {
    E edges; std::vector<E> local; std::function<void(int, int, int)> cb; V w; VV p;
    std::unique_ptr<girgs::SpatialTree<2, std::function<void(int, int, int)>>> tree;
    GirgObject(double alpha) : local(64), w(weights(40, 0.3, 5)), p(points(40, 2, 6)) { cb = [this](int u, int v, int t) { local.at(t).push_back({u, v}); }; tree.reset(new girgs::SpatialTree<2, std::function<void(int, int, int)>>(w, p, alpha, cb)); }
    uint64_t run(int seed) { for (auto& l : local) l.clear(); tree->generateEdges(seed); edges.clear(); for (auto& l : local) edges.insert(edges.end(), l.begin(), l.end()); return hash_edges(edges); }
};
struct HyperObject {
    E edges; std::vector<E> local; std::function<void(int, int, int)> cb; V r, a;
    std::unique_ptr<hypergirgs::HyperbolicTree<std::function<void(int, int, int)>>> tree;
    HyperObject(double T) : local(64) { uint64_t s = 9; for (int i = 0; i < 60; ++i) { r.push_back(0.5 + 7.4 * std::pow(uni(s), 0.3)); a.push_back(6.283185307179586 * uni(s)); }
        cb = [this](int u, int v, int t) { local.at(t).push_back({u, v}); }; tree.reset(new hypergirgs::HyperbolicTree<std::function<void(int, int, int)>>(r, a, T, 8.0, cb)); }
    uint64_t run(int seed) { for (auto& l : local) l.clear(); tree->generate(seed); edges.clear(); for (auto& l : local) edges.insert(edges.end(), l.begin(), l.end()); return hash_edges(edges); }
};
static std::unique_ptr<GirgObject> go, goT; static std::unique_ptr<HyperObject> ho, hoT;
static GirgObject& get(std::unique_ptr<GirgObject>& o, double a) { if (!o) o.reset(new GirgObject(a)); return *o; }
static HyperObject& get(std::unique_ptr<HyperObject>& o, double T) { if (!o) o.reset(new HyperObject(T)); return *o; }
static std::string scratch;

struct Call { std::string name; std::function<Result()> run; };
template <class F> static Result exact(F f) { Result r; r.exact = f(); return r; }
static std::vector<Call> calls;
static void setup() {
    auto add = [](const std::string& n, std::function<Result()> f) {
        calls.push_back({n, [f] { try { return f(); } catch (const std::exception& e) { Result r; snprintf(r.thrown, sizeof r.thrown, "%s", e.what()); return r; } catch (const char* e) { Result r; snprintf(r.thrown, sizeof r.thrown, "%s", e); return r; } }});
    };
    add("generateWeights(50)", [] { return exact([] { return vk::hash_vec(girgs::generateWeights(50, 2.5, 7)); }); });
    add("generateWeights(31000)", [] { return exact([] { return vk::hash_vec(girgs::generateWeights(31000, 2.9, 7)); }); });
    add("generatePositions(20001,3)", [] { return exact([] { return hash_vv(girgs::generatePositions(20001, 3, 5)); }); });
    add("scaleWeights(alpha=2)", [] { Result r; auto w = weights(60, 1, 3); double c = girgs::scaleWeights(w, 8, 2, 2.0); approx_vec(r, w); r.approx[2] = c; r.na = 3; return r; });
    add("scaleWeights(threshold)", [] { Result r; auto w = weights(80, 1, 4); double c = girgs::scaleWeights(w, 5, 1, INF); approx_vec(r, w); r.approx[2] = c; r.na = 3; return r; });
    add("scaleWeights(alpha=1) fails", [] { Result r; auto w = weights(8, 1, 4); girgs::scaleWeights(w, 5, 1, 1.0); return r; });
    add("girgs::generateEdges(60,d=1,alpha=2.5)", [] { return exact([] { return girg_edges(60, 1, 0.1, 2.5, 12, 21); }); });
    add("girgs::generateEdges(60,d=1,alpha=2.5) other seed", [] { return exact([] { return girg_edges(60, 1, 0.1, 2.5, 13, 21); }); });
    add("girgs::generateEdges(90,d=2,inf)", [] { return exact([] { return girg_edges(90, 2, 0.4, INF, 12, 22); }); });
    add("girgs::generateEdges(70,d=3,alpha=1.2)", [] { return exact([] { return girg_edges(70, 3, 0.4, 1.2, 12, 23); }); });
    add("girgs::generateEdges(40,d=5,alpha=4)", [] { return exact([] { return girg_edges(40, 5, 0.4, 4, 1, 24); }); });
    add("girgs::generateEdges(1,d=4)", [] { return exact([] { return girg_edges(1, 4, 0.4, INF, 1, 24); }); });
    add("girgs::saveDot", [] { return exact([] { auto w = weights(5, 1, 3); auto p = points(5, 2, 3); std::string file = scratch + vk::fmt("/%d.dot", (int)getpid()); girgs::saveDot(w, p, {{0, 1}, {3, 2}}, file);
        int fd = open(file.c_str(), O_RDONLY); char b[4096]; ssize_t k = read(fd, b, sizeof b); close(fd); unlink(file.c_str()); return vk::hash_bytes(b, k > 0 ? k : 0); }); });
    add("girgs::saveDot fails", [] { girgs::saveDot({1}, {{0.5}}, {}, "/nonexistent-dir/x.dot"); return Result(); });
    add("calculateRadius", [] { return exact([] { V v{hypergirgs::calculateRadius(1000, 0.75, 0.3, 10), hypergirgs::calculateRadiusLikeNetworKit(500, 0.7, 0, 8), hypergirgs::calculateRadiusLikeNetworKit(500, 0.9, 0.5, 8)}; return vk::hash_vec(v); }); });
    add("sampleRadiiAndAngles(300)", [] { return exact([] { auto x = hypergirgs::sampleRadiiAndAngles(300, 0.8, 9, 3); return vk::hash_vec(x.first, vk::hash_vec(x.second)); }); });
    add("sampleRadii(20000)", [] { return exact([] { return vk::hash_vec(hypergirgs::sampleRadii(20000, 0.8, 9, 3)); }); });
    add("sampleAngles(20001)", [] { return exact([] { return vk::hash_vec(hypergirgs::sampleAngles(20001, 3)); }); });
    add("hypergirgs::generateEdges(80,R=8,T=0)", [] { return exact([] { return hyper_edges(80, 8, 0, 1, 31); }); });
    add("hypergirgs::generateEdges(70,R=7,T=0.6)", [] { return exact([] { return hyper_edges(70, 7, 0.6, 1, 32); }); });
    add("hypergirgs::generateEdges(70,R=7,T=0.6) other seed", [] { return exact([] { return hyper_edges(70, 7, 0.6, 2, 32); }); });
    add("hypergirgs::generateEdges(30,R=2,T=0.1)", [] { return exact([] { return hyper_edges(30, 2, 0.1, 1, 33); }); });
    add("SpatialTree object, alpha=1.5, seed 4", [] { return exact([] { return get(goT, 1.5).run(4); }); });
    add("SpatialTree object, alpha=1.5, seed 5", [] { return exact([] { return get(goT, 1.5).run(5); }); });
    add("SpatialTree object, threshold", [] { return exact([] { return get(go, INF).run(4); }); });
    add("HyperbolicTree object, T=0.5, seed 4", [] { return exact([] { return get(hoT, 0.5).run(4); }); });
    add("HyperbolicTree object, T=0.5, seed 5", [] { return exact([] { return get(hoT, 0.5).run(5); }); });
    add("HyperbolicTree object, T=0", [] { return exact([] { return get(ho, 0).run(4); }); });
    add("random seeds", [] { // nothing to compare: results are random
        auto w = weights(30, 0.3, 3); auto p = girgs::generatePositions(30, 2, -1); girgs::generateWeights(30, 2.5, -1); girgs::generateEdges(w, p, 1.7, -1);
        auto x = hypergirgs::sampleRadiiAndAngles(30, 0.8, 9, -1); hypergirgs::generateEdges(x.first, x.second, 0.5, 9, -1); return Result(); });
}
static const std::vector<int> TEAMS{1, 2, 3, 8};

// reference: first call of a fresh process
static std::map<std::pair<size_t, int>, Result> reference;
static void compute_reference() {
    for (size_t c = 0; c < calls.size(); ++c) for (int t : TEAMS) {
        int fd[2]; if (pipe(fd)) abort();
        pid_t p = fork();
        if (!p) { close(fd[0]); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); omp_set_num_threads(t); Result r = calls[c].run(); ssize_t k = write(fd[1], &r, sizeof r); _exit(k == (ssize_t)sizeof r ? 0 : 1); }
        close(fd[1]); Result r; size_t got = 0; ssize_t k; while (got < sizeof r && (k = read(fd[0], (char*)&r + got, sizeof r - got)) > 0) got += k; close(fd[0]);
        int st; waitpid(p, &st, 0);
        if (got != sizeof r) snprintf(r.thrown, sizeof r.thrown, "first call crashed (status %d)", st);
        reference[{c, t}] = r;
    }
}

// one letter: call with a thread count
struct Letter { size_t call; int team; };
static void sequence(const std::vector<Letter>& s) {
    std::string name; for (auto& l : s) name += vk::fmt("%s%s with %d threads", name.empty() ? "" : "; then ", calls[l.call].name.c_str(), l.team);
    if (!vk::begin("%s", name.c_str())) return;
    go.reset(); goT.reset(); ho.reset(); hoT.reset(); inputs_changed.clear();
    uint64_t h = 0; size_t k = 0;
    for (auto& l : s) {
        omp_set_num_threads(l.team);
#ifdef VERIF_MCRT
        mc::reset_points();
#endif
        Result r = calls[l.call].run(); vk::transitions(); ++k;
        const Result& want = reference[{l.call, l.team}];
        if (strstr(want.thrown, "first call crashed")) return vk::fail("%s: %s", calls[l.call].name.c_str(), want.thrown);
        if (!same(r, want)) return vk::fail("call %zu (%s, %d threads) gives another result than as first call%s%s", k, calls[l.call].name.c_str(), l.team, r.thrown[0] ? ": " : "", r.thrown);
        if (!inputs_changed.empty()) return vk::fail("%s", inputs_changed.c_str());
        h = vk::mix(h, vk::mix(l.call * 100 + l.team, r.exact));
    }
    vk::traces(); vk::states(1);
}

int main(int argc, char** argv) {
    char tmp[] = "/tmp/c22-XXXXXX"; if (!mkdtemp(tmp)) return 2; scratch = tmp;
    setup();
    bool list = false; for (int i = 1; i < argc; ++i) list |= !strcmp(argv[i], "--list");
    if (!list) compute_reference();
    for (size_t c = 0; c < calls.size(); ++c) if (strncmp(calls[c].name.c_str(), "random", 6)) { auto a = reference[{c, 1}]; if (a.exact == 0 && !a.thrown[0] && a.na == 0 && !list) fprintf(stderr, "empty result: %s\n", calls[c].name.c_str()); }
    const size_t C = calls.size();
    // thread counts: the last call with 1, 2, 3, 8; the calls before it with 1 or 3 (quick) / all
    std::vector<int> before = vk::thorough() ? TEAMS : std::vector<int>{1, 3};
    for (size_t a = 0; a < C; ++a) vk::unit(vk::fmt("first:%zu", a), [=] {
        for (int ta : TEAMS) sequence({{a, ta}});
        for (size_t b = 0; b < C; ++b) for (int ta : TEAMS) for (int tb : TEAMS) sequence({{a, ta}, {b, tb}});
        for (size_t b = 0; b < C; ++b) for (size_t c = 0; c < C; ++c) {
            for (int ta : before) for (int tb : before) for (int tc : vk::thorough() ? TEAMS : before) {
                if (!vk::thorough() && ta != tb && tb != tc) continue;   // quick: at most one change of the thread count
                sequence({{a, ta}, {b, tb}, {c, tc}});
            }
        }
    }, 120);
    // the same call many times, alternating thread counts; and all calls in a row, forwards and backwards
    for (size_t a = 0; a < C; ++a) vk::unit(vk::fmt("repeat:%zu", a), [=] {
        std::vector<Letter> s; for (int i = 0; i < 12; ++i) s.push_back({a, TEAMS[i % 4]}); sequence(s);
        s.clear(); for (int i = 0; i < 12; ++i) s.push_back({a, 2}); sequence(s);
        for (size_t step = 1; step < C; ++step) { s.clear(); for (size_t i = 0; i < C; ++i) s.push_back({(a + i * step) % C, TEAMS[(i * step + i / 4) % 4]}); sequence(s); }
    }, 120);
    int r = vk::main(argc, argv, "c22");
    rmdir(tmp);
    return r;
}
