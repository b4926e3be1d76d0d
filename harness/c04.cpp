// C04: hyperbolic graphs at positive temperature: distribution over all random draws against the product law.
#include "law.h"
#include <limits>
#include <omp.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
typedef long double ld;
#ifndef SUB
#define SUB 0
#endif
static const bool sub = SUB > 0;
static const double TWO_PI = 2 * 3.14159265358979323846;
static double below(double x) { return std::nextafter(x, -1.0); }
static double above(double x) { return std::nextafter(x, 1e9); }
typedef std::vector<double> V;

static law::Range probability(const V& r, const V& a, double T, double R, int u, int v) {
    ld c1 = coshl(r[u]), c2 = coshl(r[v]), s1 = sinhl(r[u]), s2 = sinhl(r[v]), sn = sinl(((ld)a[u] - a[v]) / 2);
    ld cd = coshl((ld)r[u] - r[v]) + 2 * s1 * s2 * sn * sn;
    ld band = 30 * 2.23e-16L * (c1 * c2 + s1 * s2) + 8 * 2.23e-16L * cd;
    auto f = [&](ld c, ld eps) -> double { ld d = acoshl(std::max(1.0L, c)) + eps; return (double)(1 / (1 + expl((d - R) / (2 * (ld)T)))); };
    ld e = 1e-14L * (1 + R);
    return {f(cd + band, e), f(cd - band, -e)};
}
static law::Sampler make(const V& r, const V& a, double T, double R, int seed, int threads, bool public_call) {
    auto which = threads == 1 ? law::INT_SEEDED : law::SEQUENCE_SEEDED;
    std::function<law::Edges()> run;
    if (public_call) run = [r, a, T, R, seed] { auto r1 = r, a1 = a; return hypergirgs::generateEdges(r1, a1, T, R, seed); };
    else {
        struct Holder {
            V r, a; law::Edges out; std::mutex m;
            std::function<void(int, int, int)> cb;
            hypergirgs::HyperbolicTree<std::function<void(int, int, int)>> tree;
            Holder(const V& rr, const V& aa, double T, double R) : r(rr), a(aa), cb([this](int u, int v, int) { std::lock_guard<std::mutex> l(m); out.emplace_back(u, v); }), tree(r, a, T, R, cb) {}
        };
        auto h = std::make_shared<Holder>(r, a, T, R);
        run = [h, seed] { h->out.clear(); h->tree.generate(seed); return h->out; };
    }
    law::Sampler s(r.size(), which, run);
    for (int u = 0; u < s.n; ++u) for (int v = u + 1; v < s.n; ++v) s.prob(u, v) = probability(r, a, T, R, u, v);
    return s;
}
static void threads(int t, int order) {
    omp_set_num_threads(t);
#ifdef VERIF_MCRT
    mc::set_default_order(order);
#endif
}
static std::string show(const V& r, const V& a) { std::string t; for (size_t i = 0; i < r.size() && i < 4; ++i) t += vk::fmt(" (r=%.17g phi=%.17g)", r[i], a[i]); return t; }
static V grid(int k) { V g; for (int i = 1; i < k; ++i) g.push_back((double)i / k); g.push_back(1e-3); g.push_back(1e-6); g.push_back(1 - 1e-9); g.push_back(below(1.0)); return g; }
static const V TEMPS{0.01, 0.1, 0.3, 0.5, 0.75, 0.95, 0.999};
static V radii(double R) {
    V v; for (double x : {R - 1e-3, below(R), R - 0.5, R - 1.0, above(R - 1.0), R - 1.7, R - 2.5, R / 2, 0.2, 1e-6, 0.0}) if (x >= 0 && x < R) v.push_back(x);
    return v;
}
static const V ANGLES{0, 1e-7, 0.01, 0.2, below(TWO_PI / 8), TWO_PI / 8, 1.1, below(TWO_PI / 4), TWO_PI / 4, 2.2, below(TWO_PI / 2), TWO_PI / 2, 3.9, TWO_PI * 3 / 4, 5.5, TWO_PI - 0.01, below(TWO_PI)};
int main(int argc, char** argv) {
    const bool th = vk::thorough();
    const V Rs{1.0, 2.0, 3.5, 5.0, 7.0, 9.5};
    // ---- two points ------------------------------------------------------------------------------------------------------
    for (double R : Rs) for (double T : TEMPS) vk::unit(vk::fmt("pairs-R%g-T%g", R, T), [=] {
        auto rs = radii(R); int run = 0;
        for (size_t i = 0; i < rs.size(); ++i) for (size_t j = 0; j < rs.size(); ++j) {
            if (!th && (i * 7 + j * 3 + (int)R) % (R > 6 ? 8 : R > 4 ? 4 : 2)) { continue; }
            if (sub && ((i + j) % 3 || R > 8)) continue;
            if (!vk::begin("two points R=%g T=%g radii number %zu,%zu", R, T, i, j)) continue;
            threads(1, 0);
            for (double p : {0.0, 0.7, below(TWO_PI / 2)}) for (double q : ANGLES) {
                ++run;
                if (!th && (run % (R > 6 ? 5 : 2))) continue;
                V r{rs[i], rs[j]}, a{p, q};
                vk::note("two points R=%g T=%g%s", R, T, show(r, a).c_str());
                auto s = make(r, a, T, R, 1, 1, run % 5 == 0);
                if (run % (R > 6 ? 90 : 23) == 0) s.joint(grid(8)); else s.marginals(grid(th ? 100 : 6));
                if (s.bad || vk::failed()) break;
            }
        }
        vk::sample(vk::fmt("R=%g T=%g: %zu x %zu radii x 3 x %zu angles", R, T, rs.size(), rs.size(), ANGLES.size()));
    }, 300);
    // ---- joint law, three and four points, threads ------------------------------------------------------------------------
    for (double R : {2.0, 4.0, 6.3}) for (double T : {0.1, 0.5, 0.9}) for (int n = 3; n <= 4; ++n) vk::unit(vk::fmt("few%d-R%g-T%g", n, R, T), [=] {
        const std::vector<V> shapes = n == 3 ? std::vector<V>{{0.1, 0.11, 3.3}, {0.1, 3.3, 3.31}, {0.1, 2.0, 4.4}, {1.0, 1.0, 1.0}, {0, 1.6, 6.2}}
                                             : std::vector<V>{{0.1, 0.11, 3.3, 3.31}, {0.1, 3.3, 3.31, 3.32}, {0.1, 1.7, 3.3, 4.9}};
        for (size_t i = 0; i < shapes.size(); ++i) for (int t : {1, 2, 3, 4, 8}) {
            if (sub && (n == 4 || t > 3)) continue;
            if (n == 4 && !th && (t > 2 || (t == 2 && R > 5))) continue;
            if (!vk::begin("%d points R=%g T=%g shape %zu threads=%d", n, R, T, i, t)) continue;
            threads(t, i % 3);
            for (int rk = 0; rk < 3; ++rk) {
                if (!th && t > 1 && (int)(i + t + rk) % 3) continue;
                V r; for (int k = 0; k < n; ++k) r.push_back(rk == 0 ? R - 0.05 - 0.01 * k : rk == 1 ? R - 0.3 - 0.5 * k : (k % 2 ? R - 0.2 : R / 2));
                vk::note("%d points R=%g T=%g threads=%d%s", n, R, T, t, show(r, shapes[i]).c_str());
                auto s = make(r, shapes[i], T, R, 3, t, false); s.joint(grid(4)); if (s.bad || vk::failed()) break;
            }
        }
    }, 300);
    // ---- complete configurations: each pair's probability ---------------------------------------------------------------------
    for (double R : {1.0, 2.0, 3.5, 5.0, 7.0, 9.5, 12.0}) for (double T : TEMPS) vk::unit(vk::fmt("complete-R%g-T%g", R, T), [=] {
        auto rs = radii(R); int run = 0;
        for (int rk = 0; rk < 3; ++rk) for (int t : {1, 2, 3, 4, 8, 16}) {
            ++run;
            if (t != 1 && !th && (run + (int)(T * 10)) % 3) continue;
            if (R > 6 && t > 1 && !th && run % 2) continue;
            if (R > 11 && !th && (t != 1 || rk != 1)) continue;
            if (sub && (R > 8 || run % 2)) continue;
            if (!vk::begin("complete configuration R=%g T=%g radii pattern %d threads=%d", R, T, rk, t)) continue;
            threads(t, run % 3);
            const size_t m = sub ? 7 : t > 1 ? (th ? 14 : R > 6 ? 6 : 9) : R > 11 ? 8 : R > 6 ? (th ? 24 : 11) : th ? 34 : 17;
            V r, a; for (size_t i = 0; i < m; ++i) {
                r.push_back(rk == 0 ? rs[i * 3 % rs.size()] : rk == 1 ? R - 0.02 - 0.07 * (i % 6) : rs[i % 3]);
                a.push_back(rk == 2 ? std::fmod(0.05 + i * 2.399963, TWO_PI) : ANGLES[i * 7 % ANGLES.size()]);
            }
            auto s = make(r, a, T, R, run % 2 ? 7 : 0, t, false); s.marginals(grid(th ? 200 : 100)); if (vk::unit_saturated()) return;
        }
        vk::sample(vk::fmt("R=%g T=%g: 3 patterns of radii and angles, threads 1,2,3,4,8,16", R, T));
    }, 300);
    // ---- points in the corners of their cells: innermost radii of a layer, angles as close as distant cells allow ------------------
    for (double R : {4.0, 5.0, 6.3, 7.0, 8.0, 9.5}) for (double T : {0.05, 0.2, 0.4, 0.8}) vk::unit(vk::fmt("corners-R%g-T%g", R, T), [=] {
        for (int l = 2; l <= 6; ++l) for (int gap = 1; gap <= 2; ++gap) {
            if (!vk::begin("R=%g T=%g level %d, %d cells between", R, T, l, gap)) continue;
            threads(1, 0);
            const double w = TWO_PI / (1 << l);
            for (int i = 1; i <= 4 && i < R; ++i) for (int j = 1; j <= 4 && j < R; ++j) for (unsigned k = 1 + gap; k < (1u << l) && k < 24; k += sub ? 3 : 1) for (double e : {0.0, 1e-15}) {
                double p = k * w + e, q = below((k - gap) * w); if (p >= TWO_PI || q < 0) continue;
                V r{above(R - i), above(R - j)}, a{p, q};
                vk::note("two points R=%g T=%g%s", R, T, show(r, a).c_str());
                auto s = make(r, a, T, R, 1, 1, false); s.marginals({0.5}); if (s.bad || vk::failed()) return;
            }
        }
    }, 300);
    return vk::main(argc, argv, "c04");
}
