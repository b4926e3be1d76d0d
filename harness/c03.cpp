// C03: threshold hyperbolic graphs against the distance definition in long double.
// -DSUB=1, 2: shallower and thinner enumerations for the slow (assertion, sanitizer) builds.
#include "vk.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <omp.h>
#include <hypergirgs/Generator.h>
#ifdef VERIF_MCRT
#include "mcrt.h"
#endif
typedef long double ld;
#ifndef SUB
#define SUB 0
#endif
static const bool sub = SUB > 0;
static const double TWO_PI = 2 * 3.14159265358979323846;
static double below(double x) { return std::nextafter(x, -10.0); }
static double above(double x) { return std::nextafter(x, 1e9); }

struct Oracle {
    struct P { ld c, s, phi; };
    std::vector<P> p; ld cR;
    Oracle(const std::vector<double>& r, const std::vector<double>& a, double R) : cR(coshl((ld)R)) {
        for (size_t i = 0; i < r.size(); ++i) p.push_back({coshl((ld)r[i]), sinhl((ld)r[i]), (ld)a[i]});
    }
    // -1: no edge, 1: edge, 0: equal up to rounding
    int edge(int u, int v) const {
        ld x = p[u].c * p[v].c, y = p[u].s * p[v].s;
        ld sn = sinl((p[u].phi - p[v].phi) / 2);
        ld cd = (x - y) + y * 2 * sn * sn;
        // x-y = cosh(r1-r2) loses digits in long double only, 2^-64*x; the implementation divides by y: error of a few eps*(x+y), plus eps*cosh R
        ld band = 24 * 2.23e-16L * (x + y) + 8 * 2.23e-16L * cR;
        if (fabsl(cd - cR) <= band) return 0;
        return cd < cR ? 1 : -1;
    }
};

static void check(const std::vector<double>& r, const std::vector<double>& a, double R, int seed = 1) {
    const int n = r.size();
#ifdef VERIF_MCRT
    mc::reset_points();
#endif
    auto r1 = r, a1 = a;
    auto e = hypergirgs::generateEdges(r1, a1, 0.0, R, seed);
    vk::transitions(); vk::traces();
    if (r1 != r || a1 != a) return vk::fail("the input was modified");
    std::vector<std::pair<int, int>> s; s.reserve(e.size());
    for (auto& x : e) {
        if (x.first < 0 || x.second < 0 || x.first >= n || x.second >= n) return vk::fail("edge (%d,%d) of %d nodes", x.first, x.second, n);
        if (x.first == x.second) return vk::fail("loop at %d", x.first);
        s.emplace_back(std::min(x.first, x.second), std::max(x.first, x.second));
    }
    std::sort(s.begin(), s.end());
    for (size_t i = 1; i < s.size(); ++i) if (s[i] == s[i - 1]) return vk::fail("edge {%d,%d} is returned more than once", s[i].first, s[i].second);
    Oracle o(r, a, R);
    size_t k = 0; uint64_t yes = 0, tie = 0;
    for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) {
        bool have = k < s.size() && s[k] == std::make_pair(u, v);
        if (have) ++k;
        int want = o.edge(u, v);
        yes += want > 0; tie += want == 0;
        if ((want > 0 && !have) || (want < 0 && have))
            return vk::fail("pair {%d,%d} %s: radii %.17g %.17g angles %.17g %.17g, R=%.17g", u, v, have ? "is returned but is no edge" : "is an edge but missing", r[u], r[v], a[u], a[v], R);
    }
    vk::count("pairs_compared", (uint64_t)n * (n - 1) / 2); vk::count("edges_expected", yes); vk::count("pairs_at_the_threshold", tie);
}
static void threads(int t, int order) {
    omp_set_num_threads(t);
#ifdef VERIF_MCRT
    mc::set_default_order(order);
#endif
}
// letters: borders of the radial layers (one apart, counted from R) and their floating-point neighbours, tiny radii
static std::vector<double> radius_letters(double R, int k) {
    std::vector<double> v{0.0, 1e-17, 1e-8, 0.3, R / 2, below(R), R - 0.01};
    for (int i = 0; i <= (int)R; ++i) { double b = R - i; if (b > 0.05) { if (i) v.push_back(b); if (i && k > 1) { v.push_back(above(b)); v.push_back(below(b)); } if (b > 0.6) v.push_back(b - 0.5); } }
    if (k == 0) { std::vector<double> w{0.0, 0.3}; for (double x : {R / 2, R - 1, R - 1.5, R - 0.01, below(R)}) if (x > 0) w.push_back(x); v = w; }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    std::vector<double> w; for (double x : v) if (x >= 0 && x < R) w.push_back(x);
    return w;
}
static std::vector<double> angle_letters(int k) {
    if (k == 3) { std::vector<double> v; for (int i = 0; i < 128; ++i) { v.push_back(TWO_PI * i / 128); } for (int i = 1; i < 32; ++i) v.push_back(below(TWO_PI * i / 32)); v.push_back(below(TWO_PI)); for (double x : {1e-9, 1e-5, 1e-3, 0.003, 1e-2}) { v.push_back(x); v.push_back(TWO_PI - x); v.push_back(TWO_PI / 4 + x); } return v; }
    if (k == 2) return {0, 1e-6, 1e-3, 0.04, 0.2, below(TWO_PI / 8), TWO_PI / 8, 1.0, below(TWO_PI / 4), TWO_PI / 4, TWO_PI / 4 + 0.01, TWO_PI * 3 / 8, 3.0, below(TWO_PI / 2), TWO_PI / 2, above(TWO_PI / 2), 4.0, TWO_PI * 3 / 4, TWO_PI * 7 / 8, 6.0, TWO_PI - 1e-3, below(TWO_PI)};
    if (k == 1) return {0, 1e-3, 0.1, TWO_PI / 4, 2.5, below(TWO_PI / 2), TWO_PI / 2, 5.0, below(TWO_PI)};
    return {0, 0.5, 3.1, below(TWO_PI)};
}
static void configuration(const std::vector<double>& rl, const std::vector<double>& al, int variant, std::vector<double>& r, std::vector<double>& a) {
    r.clear(); a.clear();
    for (double x : rl) for (double y : al) { r.push_back(x); a.push_back(y); }
    if (variant == 1) { std::reverse(r.begin(), r.end()); std::reverse(a.begin(), a.end()); }
    if (variant == 2) {
        size_t n = r.size(), s = n / 2 + 1; while (std::__gcd(s, n) != 1) ++s;
        std::vector<double> r2(n), a2(n); for (size_t i = 0; i < n; ++i) { r2[i] = r[i * s % n]; a2[i] = a[i * s % n]; }
        r = r2; a = a2;
    }
}
int main(int argc, char** argv) {
    const bool th = vk::thorough();
    const std::vector<double> Rs{1, 1.5, 2, 3, 5, 6.93, 10, 14.3, 20, 24};
    // ---- two points: every pair of letters; deepest layer alone, so radii near R included ---------------------------
    for (double R : Rs) for (int slice = 0; slice < 2; ++slice) vk::unit(vk::fmt("pairs-R%g-%d", R, slice), [=] {
        auto rl = radius_letters(R, sub || (R > 12 && !th) ? 0 : 1); auto al = angle_letters(th && R < 15 ? 2 : R > 15 ? 0 : 1);
        for (size_t i = 0; i < rl.size(); ++i) {
            if ((int)(i % 2) != slice || (sub && R > 20)) continue;
            if (!vk::begin("two points, R=%g first radius %.17g", R, rl[i])) continue;
            threads(1, 0);
            // cells of the deepest level: about e^(R/2)
            for (double x : rl) for (double p : al) for (double q : al) { if (R > 12 && p != 0 && p != al.back()) continue; vk::states(1); check({rl[i], x}, {p, q}, R); if (vk::failed()) return; }
        }
    }, 120);
    for (double R : {1.0, 2.0, 4.2, 7.0, 10.0}) vk::unit(vk::fmt("triples-R%g", R), [=] {
        auto rl = radius_letters(R, 0); const std::vector<double> al{0, 0.7, TWO_PI / 2, below(TWO_PI)};
        for (double x : rl) { if (!vk::begin("three points R=%g first radius %.17g", R, x)) continue; threads(1, 0);
            for (double y : rl) for (double z : rl) for (double p : al) for (double q : al) for (double s : al) { if (sub && (p == 0.7 || q == 0.7)) continue; if (SUB > 1 && s != p) continue; vk::states(1); check({x, y, z}, {p, q, s}, R); if (vk::failed()) return; } }
    }, 120);
    // ---- thresholds: for every pair of radii the angle at which the distance is R, and angles close to it -------------
    for (double R : {1.0, 1.5, 2.0, 3.0, 5.0, 6.93, 10.0, 14.3, 20.0, 24.0}) for (double base : {0.0, 0.4, 3.0, 6.2}) vk::unit(vk::fmt("threshold-R%g-%g", R, base), [=] {
        auto rl = radius_letters(R, 1);
        for (size_t i = 0; i < rl.size(); ++i) {
            if (sub && i % 3) continue;
            if (!vk::begin("radius %.17g angle %g against points next to the threshold, R=%g", rl[i], base, R)) continue;
            std::vector<double> r{rl[i]}, a{base};
            for (double y : rl) {
                ld c = (coshl(rl[i]) * coshl(y) - coshl((ld)R)) / (sinhl(rl[i]) * sinhl(y));
                if (!(c > -1 && c < 1)) continue;
                ld t = acosl(c);
                for (int dir : {1, -1}) for (double f : {1e-11, 1e-8, 1e-4, 1e-2}) for (int sg : {1, -1}) {
                    ld q = base + dir * t * (1 + sg * f); if (q < 0) q += TWO_PI; if (q >= TWO_PI) q -= TWO_PI; double qq = q; if (qq < 0 || qq >= TWO_PI) continue;
                    r.push_back(y); a.push_back(qq);
                }
            }
            if (r.size() > 700 && !th) { std::vector<double> r2, a2; for (size_t k = 0; k < r.size(); ++k) if (!k || (k + i) % 2) { r2.push_back(r[k]); a2.push_back(a[k]); } r = r2; a = a2; }
            threads(1 + i % 3, i % 3); vk::states(1); check(r, a, R); if (vk::unit_saturated()) return;
        }
    }, 120);
    // ---- complete configurations x threads ----------------------------------------------------------------------------
    for (double R : {1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 6.93, 8.0, 10.0, 12.0, 14.3, 17.0, 20.0, 24.0}) for (int al = 1; al <= 3; ++al) vk::unit(vk::fmt("complete-R%g-a%d", R, al), [=] {
        auto rl = radius_letters(R, al == 1 ? 2 : al == 2 ? 1 : 0); auto an = angle_letters(al);
        const size_t limit = SUB > 1 ? 400 : sub ? 700 : 1300;
        while (rl.size() * an.size() > limit) { if (an.size() > 60) an.erase(an.begin() + an.size() / 3); else if (an.size() > 6 && al > 1) an.erase(an.begin() + an.size() / 2); else rl.erase(rl.begin() + rl.size() / 2); }
        std::vector<double> r, a; int run = 0;
        for (int variant = 0; variant < 3; ++variant) for (int t : {1, 2, 3, 4, 5, 7, 8, 12, 16}) for (int order = 0; order < 3; ++order) {
            ++run;
            if (!th && (run % 3) && (t != 1 || order)) continue;
            if (sub && run % 2) continue;
            if (!vk::begin("complete configuration R=%g angles %d order %d threads=%d schedule %d", R, al, variant, t, order)) continue;
            configuration(rl, an, variant, r, a);
            threads(t, order); vk::states(1);
            check(r, a, R, run % 5);
            if (vk::unit_saturated()) return;
        }
        vk::sample(vk::fmt("R=%g: %zu radii x %zu angles = %zu points, 3 orders, 9 thread counts, 3 schedules", R, rl.size(), an.size(), r.size()));
    }, 120);
    // ---- only outer / only inner points: pruned layers, teams larger than the work ------------------------------------------
    for (double R : {1.0, 2.0, 3.5, 6.0, 9.0, 13.0}) vk::unit(vk::fmt("partial-R%g", R), [=] {
        auto all = radius_letters(R, 1); auto an = angle_letters(sub ? 1 : 2);
        for (size_t lo = 0; lo < all.size(); ++lo) for (size_t len : {1u, 2u, 5u}) for (int t : {1, 2, 3, 8}) {
            if (lo + len > all.size() || ((lo + t) % 2 && !th)) continue;
            if (!vk::begin("R=%g radii number %zu..%zu threads=%d", R, lo, lo + len - 1, t)) continue;
            std::vector<double> r, a; configuration(std::vector<double>(all.begin() + lo, all.begin() + lo + len), an, 2, r, a);
            threads(t, t % 3); vk::states(1); check(r, a, R); if (vk::unit_saturated()) return;
        }
        for (int n : {1, 2, 3, 40}) for (double x : {1e-9, R / 3, below(R)}) for (int t : {1, 2, 5}) {
            if (!vk::begin("R=%g, %d points in one place, radius %.17g threads=%d", R, n, x, t)) continue;
            threads(t, 0); vk::states(1); check(std::vector<double>(n, x), std::vector<double>(n, below(TWO_PI)), R);
        }
    }, 120);
    return vk::main(argc, argv, "c03");
}
