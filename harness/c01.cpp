// C01: threshold GIRGs against the defining inequality in long double.
// -DSUB=1, 2: shallower and thinner enumerations for the slow (assertion, sanitizer) builds.
#include "vk.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <omp.h>
#include <girgs/Generator.h>
#ifdef VERIF_MCRT
#include "mcrt.h"
#endif
typedef long double ld;
typedef std::vector<std::vector<double>> Pos;
static const double INF = std::numeric_limits<double>::infinity();
#ifndef SUB
#define SUB 0
#endif
static const bool sub = SUB > 0;

static double below(double x) { return std::nextafter(x, 0.0); }
static double above(double x) { return std::nextafter(x, 10.0); }

// -1: no edge, 1: edge, 0: equal up to rounding
struct Oracle {
    std::vector<ld> w; std::vector<std::vector<ld>> p; ld W; int d;
    Oracle(const std::vector<double>& ww, const Pos& pp) : w(ww.begin(), ww.end()), W(0), d(pp[0].size()) {
        for (auto x : w) W += x;
        for (auto& x : pp) p.emplace_back(x.begin(), x.end());
    }
    int edge(int u, int v) const {
        ld m = 0;
        for (int k = 0; k < d; ++k) { ld x = fabsl(p[u][k] - p[v][k]); x = std::min(x, 1 - x); m = std::max(m, x); }
        ld a = 1; for (int k = 0; k < d; ++k) a *= m;
        ld b = w[u] * w[v] / W;
        // the torus distance is a difference of doubles near 1: absolute error 2^-53, relative error d*2^-52/m of its d-th power
        ld band = 1e-13L * (a + b) + d * a / std::max(m, 1e-300L) * 2.3e-16L;
        if (fabsl(a - b) <= band) return 0;
        return a < b ? 1 : -1;
    }
};

static void check(const std::vector<double>& w, const Pos& p, int seed = 1) {
    const int n = w.size();
#ifdef VERIF_MCRT
    mc::reset_points();
#endif
    auto w0 = w; auto p0 = p;
    auto e = girgs::generateEdges(w, p, INF, seed);
    vk::transitions(); vk::traces();
    if (w != w0 || p != p0) return vk::fail("the input was modified");
    std::vector<std::pair<int, int>> s; s.reserve(e.size());
    for (auto& x : e) {
        if (x.first < 0 || x.second < 0 || x.first >= n || x.second >= n) return vk::fail("edge (%d,%d) of %d nodes", x.first, x.second, n);
        if (x.first == x.second) return vk::fail("loop at %d", x.first);
        s.emplace_back(std::min(x.first, x.second), std::max(x.first, x.second));
    }
    std::sort(s.begin(), s.end());
    for (size_t i = 1; i < s.size(); ++i) if (s[i] == s[i - 1]) return vk::fail("edge {%d,%d} is returned more than once", s[i].first, s[i].second);
    Oracle o(w, p);
    size_t k = 0; uint64_t yes = 0, tie = 0;
    for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) {
        bool have = k < s.size() && s[k] == std::make_pair(u, v);
        if (have) ++k;
        int want = o.edge(u, v);
        yes += want > 0; tie += want == 0;
        if ((want > 0 && !have) || (want < 0 && have)) {
            std::string t = "(" ; for (double x : p[u]) t += vk::fmt(" %.17g", x); t += " ) ("; for (double x : p[v]) t += vk::fmt(" %.17g", x);
            return vk::fail("pair {%d,%d} %s: weights %.17g %.17g positions %s ), W=%.17Lg", u, v, have ? "is returned but is no edge" : "is an edge but missing", w[u], w[v], t.c_str(), o.W);
        }
    }
    vk::count("pairs_compared", (uint64_t)n * (n - 1) / 2); vk::count("edges_expected", yes); vk::count("pairs_at_the_threshold", tie);
}

static void threads(int t, int order) {
    omp_set_num_threads(t);
#ifdef VERIF_MCRT
    mc::set_default_order(order);
#endif
}

// letters for one coordinate: seam, centre, cell borders of several levels and their neighbours
static std::vector<double> letters(int k) {
    if (k >= 20) return {0, 1e-9, 1.0 / 4096, 1.0 / 64, below(1.0 / 8), 1.0 / 8, 0.2, below(0.25), 0.25, 0.25 + 1.0 / 1024, 0.375, below(0.5), 0.5, above(0.5), 0.5 + 1.0 / 512, 0.6180339887498949, 0.75, 0.875, 1 - 1.0 / 64, 1 - 1.0 / 4096, 1 - 1e-9, below(1.0)};
    if (k == 8) return {0, 1.0 / 64, 0.25, below(0.5), 0.5, 0.61, 1 - 1.0 / 64, below(1.0)};
    if (k == 5) return {0, 0.26, below(0.5), 0.5, below(1.0)};
    if (k == 4) return {0, 0.26, 0.5, below(1.0)};
    if (k == 3) return {0, below(0.5), 0.9375};
    return {0.03, 0.53};
}
static Pos product(const std::vector<double>& l, int d) {
    Pos r; std::vector<size_t> ix(d, 0);
    while (true) {
        std::vector<double> x; for (auto i : ix) x.push_back(l[i]); r.push_back(x);
        int i = 0; while (i < d && ++ix[i] == l.size()) ix[i++] = 0;
        if (i == d) return r;
    }
}
struct WSet { const char* name; std::vector<double> w; };
static std::vector<WSet> wsets() {
    return {{"equal", {1}}, {"1,2-,2,3", {1, below(2), 2, 3}}, {"1..9", {1, 1.99, 2, 4, 4.1, 8, 9}}, {"1,1000", {1, 1, 1000}}, {"gap", {1, 300}}, {"wide", {1, 5, 70, 4000}}, {"close", {1, above(1), 1.5}}};
}
// position and weight letters combined in three ways: every pair of letters meets, orders differ
static void configuration(const Pos& base, const std::vector<double>& wl, double scale, int variant, std::vector<double>& w, Pos& p) {
    w.clear(); p.clear();
    for (size_t i = 0; i < base.size(); ++i) for (size_t j = 0; j < wl.size(); ++j) { p.push_back(base[i]); w.push_back(wl[j] * scale); }
    if (variant == 1) { std::reverse(p.begin(), p.end()); std::reverse(w.begin(), w.end()); }
    if (variant == 2) { // interleave
        size_t n = w.size(), s = n / 2 + 1; while (std::__gcd(s, n) != 1) ++s;
        std::vector<double> w2(n); Pos p2(n); for (size_t i = 0; i < n; ++i) { w2[i] = w[i * s % n]; p2[i] = p[i * s % n]; }
        w = w2; p = p2;
    }
}

int main(int argc, char** argv) {
    const bool th = vk::thorough();
    // ---- two nodes: every pair of letters -------------------------------------------------------------------------
    for (int d = 1; d <= 5; ++d) for (int slice = 0; slice < 4; ++slice) vk::unit(vk::fmt("pairs-d%d-%d", d, slice), [=] {
        auto base = product(letters(d == 1 ? 22 : d == 2 ? (th ? 8 : 5) : d == 3 ? (th ? 4 : 3) : 2), d);
        const std::vector<double> wl{1, below(2), 2, 3.7, 64};
        for (size_t a = 0; a < base.size(); ++a) {
            if ((int)(a % 4) != slice || (sub && a % 8 >= 4)) continue;
            if (!vk::begin("two nodes, d=%d, first position number %zu", d, a)) continue;
            threads(1, 0);
            for (size_t b = 0; b < base.size() && !vk::failed(); ++b) for (double x : wl) for (double y : wl) for (double sc : {1e-3, 0.05, 0.126, 0.24, 0.5, 0.9, 1.5, 4.0}) {
                if ((x + y) / std::min(x, y) / std::min(x, y) / sc > (sub ? 300 : th ? 16000 : 1100)) continue;   // deepest level
                vk::states(1);
                check({x * sc, y * sc}, {base[a], base[b]}); if (vk::failed()) break;
            }
        }
        vk::sample(vk::fmt("d=%d: %zu x %zu positions x 25 weight pairs x 8 scalings", d, base.size(), base.size()));
    }, 120);
    // ---- three nodes, one of them heavy enough to move the levels ------------------------------------------------
    for (int slice = 0; slice < 6; ++slice) vk::unit(vk::fmt("triples-d1-%d", slice), [=] {
        const std::vector<double> ps{0, 1e-3, 0.24, 0.5, 0.51, below(1.0)}, ws{1, 2, 5, 40};
        for (double a : {ps[slice]}) { if (!vk::begin("three nodes, first position %.17g", a)) continue; threads(1, 0);
            for (double b : ps) for (double c : ps) for (double x : ws) for (double y : ws) for (double z : ws) for (double sc : {0.004, 0.03, 0.2, 1.0}) { if (sub && sc == 0.03) continue; vk::states(1); check({x * sc, y * sc, z * sc}, {{a}, {b}, {c}}); if (vk::failed()) return; } }
    }, 120);
    // ---- complete configurations: all letters at once, every scaling = every level structure, every thread count ------
    for (int d = 1; d <= 5; ++d) for (auto& ws : wsets()) vk::unit(vk::fmt("complete-d%d-%s", d, ws.name), [=] {
        auto base = product(letters(d == 1 ? 22 : d == 2 ? 8 : d == 3 ? (th ? 5 : 4) : d == 4 ? 3 : (th ? 3 : 2)), d);
        std::vector<double> wl = ws.w;
        while (base.size() * wl.size() > (th ? 1000 : 450) && wl.size() > 1) wl.erase(wl.begin() + wl.size() / 2);
        std::vector<double> w; Pos p;
        double W = 0; configuration(base, wl, 1.0, 0, w, p); for (double x : w) W += x;
        // W/w0^2 = (W/scale): from less than 1 (one level) to 2^17 cells in the deepest level
        const double deepest = sub ? 12 : th ? 20 : 16;
        int run = 0;
        for (double l = -2.0; l <= deepest; l += th ? 0.25 : 0.5) {
            const double sc = W / std::exp2(l + 0.013);       // not exactly at the border of two level structures
            for (int variant = 0; variant < 3; ++variant) for (int t : {1, 2, 3, 4, 5, 8, 16}) {
                ++run;
                if (!th && t != 1 && (run * 7) % 5 != t % 5) continue;   // quick: every (scaling, thread count) in one of the orders or its neighbour scaling
                if (SUB > 1 && run % 3) continue;
                if (!vk::begin("complete configuration d=%d weights %s log2(W/w0^2)=%g order %d threads=%d", d, ws.name, l, variant, t)) continue;
                configuration(base, wl, sc, variant, w, p);
                threads(t, run % 3); vk::states(1);
                check(w, p, run % 4 == 0 ? 0 : run);
                if (vk::unit_saturated()) return;
            }
        }
        vk::sample(vk::fmt("d=%d: %zu positions x weights %s = %zu nodes, log2(W/w0^2) from -2 to %g", d, base.size(), ws.name, w.size(), deepest));
    }, 120);
    // ---- exact powers of two: borders of the level structures -----------------------------------------------------
    for (int d = 1; d <= 5; ++d) vk::unit(vk::fmt("powers-d%d", d), [=] {
        auto base = product(letters(d == 1 ? 22 : d == 2 ? 5 : 2), d);
        for (int n : {1, 2, 4, 8, 16, 32}) for (int k = -1; k <= (sub ? 8 : 14); ++k) for (int t : {1, 4}) {
            if (n > (int)base.size()) break;
            if (!vk::begin("d=%d n=%d equal weights, W/w0^2 = 2^%d, threads=%d", d, n, k, t)) continue;
            Pos p(base.begin(), base.begin() + n); std::vector<double> w(n, n / std::exp2(k)); threads(t, 0); vk::states(1); check(w, p);
            // and next to it
            for (double f : {above(1.0), 1 + 1e-15, 1 - 1e-9, 1 + 1e-9}) { auto w2 = w; for (auto& x : w2) x *= f; check(w2, p); }
        }
    }, 120);
    // ---- many nodes in few cells, and one node ----------------------------------------------------------------------
    vk::unit("degenerate", [=] {
        for (int d = 1; d <= 5; ++d) for (int n : {1, 2, 3, 50}) for (double w : {1e-6, 0.01, 1.0, 100.0}) for (int t : {1, 2, 7}) {
            if (w * 1e6 * n < 1e2 && n < 50) { } // W/w0^2 = n/w
            if (n / w > (sub ? 1e4 : th ? 3e6 : 6e4)) continue;
            if (!vk::begin("d=%d n=%d all nodes in one point, weight %g threads=%d", d, n, w, t)) continue;
            threads(t, 0); vk::states(1);
            check(std::vector<double>(n, w), Pos(n, std::vector<double>(d, below(1.0))));
        }
    }, 120);
    return vk::main(argc, argv, "c01");
}
