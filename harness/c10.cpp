// C10: lookups in the spatial index return exactly the points of a cell. PART 1: RadiusLayer, 2: WeightLayer of SpatialTree,
// 3: the same point sets through the public edge generators (no access to the index).
#include "vk.h"
#include "mcrt.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <string>
#include <vector>
#include <omp.h>
#if PART == 1
#include <hypergirgs/RadiusLayer.h>
#elif PART == 2
#include <girgs/SpatialTree.h>
#else
#include <girgs/Generator.h>
#include <hypergirgs/Generator.h>
#endif
static const double PI2 = 6.283185307179586476925286766559;

struct P { int layer; unsigned cell; };                   // cell on the target level of the layer
typedef std::vector<P> Config;
struct Shape { int d; std::vector<unsigned> level; double par; }; // target level of each layer; par: R, or c of W/w0^2 = 2^(c+0.5)
static std::vector<int> TEAMS;

static std::string show(const Config& c) {
    std::string s; size_t k = 0; for (auto& p : c) { if (++k > 14) { s += vk::fmt("...(%zu points)", c.size()); break; } s += vk::fmt("%s%d:%u", k > 1 ? " " : "", p.layer, p.cell); }
    return s;
}

// Morton index -> coordinates, independent of the library
static std::vector<double> centre(int d, unsigned cell, unsigned level, double at) {
    std::vector<unsigned> c(d, 0); for (unsigned b = 0; b < 32; ++b) if ((int)(b / d) < 32 && (cell >> b & 1)) c[b % d] |= 1u << (b / d);
    std::vector<double> x(d); for (int i = 0; i < d; ++i) x[i] = std::ldexp(c[i] + at, -(int)level); return x;
}

// compares an index with the expected contents; lookups by functions
struct Index {
    int layers;
    std::function<unsigned(int)> target;
    std::function<int(int, unsigned, unsigned)> count;                       // layer, global cell, level
    std::function<int(int, unsigned, unsigned, int)> kth;                    // index of the k-th point
    std::function<void(int, unsigned, unsigned, std::vector<int>&)> iterate; // indices
};
static void compare(const Index& ix, const Shape& sh, const Config& c) {
    std::vector<int> stamp(c.size(), -1), now; int round = 0; uint64_t looked = 0;
    int deepest = 0; for (auto& p : c) deepest = std::max(deepest, p.layer);
    if (ix.layers <= deepest) return vk::fail("%d layers, but there are points in layer %d", ix.layers, deepest);
    for (int l = 0; l < ix.layers; ++l) {
        const unsigned T = ix.target(l);
        if (T != sh.level[l]) return vk::fail("layer %d has its cells on level %u, expected %u", l, T, sh.level[l]);
        for (unsigned lev = 0; lev <= T; ++lev) {
            ++round;
            const uint64_t first = ((1ull << (sh.d * lev)) - 1) / ((1ull << sh.d) - 1), num = 1ull << (sh.d * lev);
            std::vector<int> want(num, 0);
            for (auto& p : c) if (p.layer == l) want[p.cell >> (sh.d * (T - lev))]++;
            for (unsigned k = 0; k < num; ++k) {
                const unsigned cell = first + k; ++looked;
                const int n = ix.count(l, cell, lev);
                if (n != want[k]) return vk::fail("layer %d level %u cell %u: %d points counted, there are %d", l, lev, k, n, want[k]);
                now.clear(); ix.iterate(l, cell, lev, now);
                if ((int)now.size() != want[k]) return vk::fail("layer %d level %u cell %u: iteration over %zu points, there are %d", l, lev, k, now.size(), want[k]);
                for (int i = 0; i < want[k]; ++i) {
                    const int id = now[i];
                    if (id < 0 || id >= (int)c.size()) return vk::fail("layer %d level %u cell %u: point with index %d", l, lev, k, id);
                    if (c[id].layer != l || (c[id].cell >> (sh.d * (T - lev))) != k) return vk::fail("layer %d level %u cell %u contains point %d, which lies in layer %d cell %u", l, lev, k, id, c[id].layer, c[id].cell >> (sh.d * (T - lev)));
                    if (stamp[id] == round) return vk::fail("layer %d level %u: point %d is found twice", l, lev, id);
                    stamp[id] = round;
                    if (ix.kth(l, cell, lev, i) != id) return vk::fail("layer %d level %u cell %u: point %d of the iteration is %d, the k-th point is %d", l, lev, k, i, id, ix.kth(l, cell, lev, i));
                }
            }
        }
    }
    vk::states(looked);
}

#if PART == 1
static Shape shape(double R) {
    Shape s; s.d = 1; s.par = R; const int L = (int)std::ceil(R);
    // the levels of the layers, as the library chooses them when the innermost layer is occupied (all layers exist then)
    std::vector<hypergirgs::Point> pts; std::vector<unsigned> first;
    omp_set_num_threads(1); // no threads before the workers are forked
    auto layers = hypergirgs::RadiusLayer::buildPartition({0.01}, {0.0}, R, 1.0, pts, first, false);
    for (int l = 0; l < L && l < (int)layers.size(); ++l) s.level.push_back(layers[l].m_target_level);
    return s;
}
static void run(const Shape& sh, const Config& c, int variant, int teams) {
    if (!vk::begin("RadiusLayer R=%g variant=%d threads=%d: %s", sh.par, variant, teams, show(c).c_str())) return;
    std::vector<double> r, a; const double R = sh.par;
    for (auto& p : c) {
        // inside the layer (R-l-1, R-l] and inside the cell
        const double in[3] = {0.5, 0.25, 0.9990234375}; const double at[3] = {0.5, 0.0009765625, 0.998046875};
        r.push_back(std::max(R - p.layer - in[variant], 0.01)); a.push_back(PI2 * std::ldexp(p.cell + at[variant], -(int)sh.level[p.layer]));
    }
    omp_set_num_threads(teams);
    std::vector<hypergirgs::Point> pts; std::vector<unsigned> first;
    auto layers = hypergirgs::RadiusLayer::buildPartition(r, a, R, 1.0, pts, first, false);
    vk::transitions(); vk::traces();
    for (auto& l : layers) for (auto it = l.cellIterators(0, 0); it.first != it.second; ++it.first) if (!(r.at(it.first->id) >= l.m_r_min && r.at(it.first->id) <= l.m_r_max)) return vk::fail("point of radius %.17g in the layer [%.17g,%.17g]", r.at(it.first->id), l.m_r_min, l.m_r_max);
    Index ix{(int)layers.size(), [&](int l) { return layers[l].m_target_level; }, [&](int l, unsigned c, unsigned v) { return layers[l].pointsInCell(c, v); },
             [&](int l, unsigned c, unsigned v, int k) { return layers[l].kthPoint(c, v, k).id; },
             [&](int l, unsigned c, unsigned v, std::vector<int>& o) { auto it = layers[l].cellIterators(c, v); if (it.first > it.second) return; for (auto p = it.first; p != it.second; ++p) o.push_back(p->id); }};
    compare(ix, sh, c);
}
#else
static void make(const Shape& sh, const Config& c, int variant, std::vector<double>& w, std::vector<std::vector<double>>& pos) {
    const double f[3] = {1, 1.5, 1.9990234375}; const double at[3] = {0, 0.5, 0.9990234375};
    double M = 0; for (auto& p : c) { w.push_back(std::ldexp(p.layer ? f[variant] : 1.0, p.layer)); M += w.back(); }
    const double w0 = M / std::exp2(sh.par + 0.5); for (auto& x : w) x *= w0;
    for (auto& p : c) pos.push_back(centre(sh.d, p.cell, sh.level[p.layer], at[variant]));
}
static Shape shape(int d, int c, int layers) {
    Shape s; s.d = d; s.par = c;
    for (int l = 0; l < layers; ++l) s.level.push_back(std::max((c - l - 1) / d, 0));
    return s;
}
#endif
#if PART == 2
template <unsigned D> static void run_d(const Shape& sh, const Config& c, int teams, int variant) {
    auto none = [](int, int, int) {};
    typedef girgs::SpatialTree<D, decltype(none)> Tree;
    struct Probe : Tree { using Tree::Tree; using Tree::buildPartition; using Tree::weightLayerTargetLevel; };
    std::vector<double> w; std::vector<std::vector<double>> pos; make(sh, c, variant, w, pos);
    omp_set_num_threads(teams);
    Probe t(w, pos, std::numeric_limits<double>::infinity(), none);
    auto layers = t.buildPartition(w, pos);
    vk::transitions(); vk::traces();
    Index ix{(int)layers.size(), [&](int l) { return t.weightLayerTargetLevel(l); }, [&](int l, unsigned c, unsigned v) { return layers[l].pointsInCell(c, v); },
             [&](int l, unsigned c, unsigned v, int k) { return layers[l].kthPoint(c, v, k).index; },
             [&](int l, unsigned c, unsigned v, std::vector<int>& o) { auto it = layers[l].cellIterators(c, v); if (it.first > it.second) return; for (auto p = it.first; p != it.second; ++p) o.push_back(p->index); }};
    compare(ix, sh, c);
}
static void run(const Shape& sh, const Config& c, int variant, int teams) {
    if (!vk::begin("WeightLayer d=%d c=%g variant=%d threads=%d: %s", sh.d, sh.par, variant, teams, show(c).c_str())) return;
    switch (sh.d) { case 1: return run_d<1>(sh, c, teams, variant); case 2: return run_d<2>(sh, c, teams, variant); case 3: return run_d<3>(sh, c, teams, variant);
                    case 4: return run_d<4>(sh, c, teams, variant); default: return run_d<5>(sh, c, teams, variant); }
}
#endif
#if PART == 3
static void run(const Shape& sh, const Config& c, int variant, int teams) {
    if (!vk::begin("edges d=%d c=%g variant=%d threads=%d: %s", sh.d, sh.par, variant, teams, show(c).c_str())) return;
    std::vector<double> w; std::vector<std::vector<double>> pos; make(sh, c, variant, w, pos);
    omp_set_num_threads(teams);
    auto e = girgs::generateEdges(w, pos, std::numeric_limits<double>::infinity(), 1);
    vk::transitions(); vk::traces(); vk::states(c.size() * (c.size() - 1) / 2);
    for (auto& x : e) if (x.first > x.second) std::swap(x.first, x.second);
    std::sort(e.begin(), e.end());
    double W = 0; for (double x : w) W += x;
    size_t k = 0; const int n = c.size();
    for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) {
        double dist = 0; for (int i = 0; i < sh.d; ++i) { double x = std::abs(pos[u][i] - pos[v][i]); dist = std::max(dist, std::min(x, 1 - x)); }
        const double l = std::pow(dist, sh.d), r = w[u] * w[v] / W;
        int times = 0; while (k < e.size() && e[k] == std::make_pair(u, v)) { ++k; ++times; }
        if (std::abs(l - r) <= 1e-12 * r) continue;
        if (times != (l < r)) return vk::fail("pair {%d,%d}: %d edges, dist^d = %.17g, w_u*w_v/W = %.17g", u, v, times, l, r);
    }
    if (k != e.size()) return vk::fail("unexpected edge (%d,%d)", e[k].first, e[k].second);
}
#endif

static void enumerate(const Shape& sh, const std::string& name, size_t subsets_up_to, bool deep) {
    struct Letter { P p; }; std::vector<P> all;
    for (size_t l = 0; l < sh.level.size(); ++l) for (unsigned c = 0; c < 1u << (sh.d * sh.level[l]); ++c) all.push_back({(int)l, c});
    const size_t N = all.size();
#if PART == 1
    auto base = [=](Config& c) { if (c.empty()) c.push_back({0, 0}); };
#else
    auto base = [=](Config& c) { for (auto& p : c) if (!p.layer) return; c.push_back({0, (unsigned)(c.size() % (1u << (sh.d * sh.level[0])))}); };   // the lightest node defines layer 0
#endif
    auto go = [=](Config c, int variant) { base(c); for (int t : TEAMS) run(sh, c, variant, t); };
    // every subset of cells occupied
    if (N <= subsets_up_to) for (int part = 0; part < 8; ++part) vk::unit(vk::fmt("%s:subsets:%d", name.c_str(), part), [=] {
        for (uint64_t m = 1 + part; m < 1ull << N; m += 8) { Config c; for (size_t i = 0; i < N; ++i) if (m >> i & 1) c.push_back(all[i]); go(c, (int)(m % 3)); }
    });
    // single cells, pairs, (triples), with one or two points in each
    const size_t step = std::max<size_t>(1, N / (deep ? 4000 : 160));
    vk::unit(name + ":singles", [=] { for (size_t i = 0; i < N; i += std::max<size_t>(1, N / 4000)) { for (int v = 0; v < 3; ++v) go({all[i]}, v); go({all[i], all[i]}, 0); go({all[i], all[N - 1 - i], all[i]}, 1); } });
    for (int part = 0; part < 4; ++part) vk::unit(vk::fmt("%s:pairs:%d", name.c_str(), part), [=] {
        const size_t s2 = std::max<size_t>(1, N / (deep ? 300 : 90));
        for (size_t i = part; i < N; i += 4 * s2) for (size_t j = i; j < N; j += s2) go({all[j], all[i]}, (int)((i + j) % 3));
    });
    if (N <= (deep ? 60 : 30)) vk::unit(name + ":triples", [=] { for (size_t i = 0; i < N; ++i) for (size_t j = i; j < N; ++j) for (size_t k = j; k < N; ++k) go({all[j], all[k], all[i]}, (int)((i + j + k) % 3)); });
    // runs of occupied cells and runs of empty cells, a in b in steps that include all residues next to the chunk borders of teams
    vk::unit(name + ":runs", [=] {
        std::vector<size_t> cut; for (size_t i = 0; i <= N; i += step) cut.push_back(i);
        for (int t : TEAMS) { size_t ch = (N + t - 1) / t; if (N <= 600) for (size_t x = 0; x <= N; x += ch) for (long o : {-1, 0, 1}) if ((long)x + o >= 0 && x + o <= N) cut.push_back(x + o); }
        std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
        if (cut.size() > (deep ? 200 : 40)) { std::vector<size_t> c2; for (size_t i = 0; i < cut.size(); i += cut.size() / (deep ? 200 : 40) + 1) c2.push_back(cut[i]); c2.push_back(N); cut = c2; vk::count("cuts_thinned"); }
        for (size_t x = 0; x < cut.size(); ++x) for (size_t y = x + 1; y < cut.size(); ++y) {
            Config in, out; for (size_t i = 0; i < N; ++i) (i >= cut[x] && i < cut[y] ? in : out).push_back(all[i]);
            if (!in.empty()) go(in, (int)(x + y) % 3); if (!out.empty()) go(out, (int)(x + y + 1) % 3);
        }
    }, 120);
    vk::unit(name + ":full", [=] { for (int m = 1; m <= 3; ++m) { Config c; for (int k = 0; k < m; ++k) for (size_t i = 0; i < N; ++i) c.push_back(all[(i * 7919 + k) % N]); for (int v = 0; v < 3; ++v) go(c, v); } }, 120);
}

int main(int argc, char** argv) {
    TEAMS = {1, 2, 3, 4, 5, 7, 8, 16}; if (vk::thorough()) TEAMS = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 32};
    const bool T = vk::thorough();
#if PART == 1
    for (double R : {1.0, 1.5, 2.0, 2.5, 3.0, 3.7, 4.0, 5.0, 6.0, 7.25, 8.0, 9.0, 10.0}) if (T || R < 10) enumerate(shape(R), vk::fmt("R%g", R), T ? 16 : 13, T);
    for (int part = 0; part < 4; ++part) vk::unit(vk::fmt("large:%d", part), [=] {   // several threads in the sort
        auto sh = shape(10); Config c; size_t n = 300000 + part; for (size_t i = 0; i < n; ++i) { int l = (i * 31 % 101) < 90 ? (part & 1) : (int)(i % sh.level.size()); c.push_back({l, (unsigned)(i * 2654435761u >> 7) & ((1u << sh.level[l]) - 1)}); }
        for (int t : TEAMS) run(sh, c, part % 3, t);
    }, 200);
#else
    const int dmax = 5;
    for (int d = 1; d <= dmax; ++d) for (int layers = 1; layers <= 3; ++layers)
        for (int c : {1, d, d + 1, 2 * d, 2 * d + 1, 2 * d + 3, 3 * d + 1, 4 * d + 1}) {
            if (c < 1 || (d > 2 && c > (T ? 3 * d + 1 : 2 * d + 1) + layers) || (layers == 2 && !T)) continue;
#if PART == 3
            if (c > 2 * d + 3) continue;
#endif
            auto sh = shape(d, c, layers); size_t N = 0; for (auto l : sh.level) N += 1u << (d * l);
            if (N > (PART == 3 ? (T ? 600 : 130) : (T ? 40000 : 5000))) continue;
            bool dup = false; for (int cc : {1, d, d + 1, 2 * d, 2 * d + 1, 2 * d + 3, 3 * d + 1, 4 * d + 1}) { if (cc == c) break; if (cc > 0 && shape(d, cc, layers).level == sh.level) dup = true; }
            if (dup) continue;
            enumerate(sh, vk::fmt("d%d:layers%d:c%d", d, layers, c), PART == 3 ? (T ? 12 : 9) : (T ? 15 : 12), T);
        }
#if PART == 2
    for (int part = 0; part < 5; ++part) vk::unit(vk::fmt("large:%d", part), [=] {
        auto sh = shape(part + 1, 8, 3); Config c; size_t n = 300000 + part; for (size_t i = 0; i < n; ++i) { int l = (i * 31 % 101) < 90 ? (part & 1) : (int)(i % 3); c.push_back({l, (unsigned)(i * 2654435761u >> 7) & ((1u << (sh.d * sh.level[l])) - 1)}); }
        c.push_back({0, 0});
        for (int t : TEAMS) run(sh, c, part % 3, t);
    }, 200);
#endif
#endif
    return vk::main(argc, argv, "c10");
}
