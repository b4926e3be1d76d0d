// C02: GIRGs with finite alpha: distribution over all random draws against the product law.
#include "law.h"
#include <limits>
#include <omp.h>
#include <girgs/Generator.h>
#ifdef VERIF_MCRT
#include "mcrt.h"
#endif
typedef long double ld;
typedef std::vector<std::vector<double>> Pos;
#ifndef SUB
#define SUB 0
#endif
static const bool sub = SUB > 0;
static double below(double x) { return std::nextafter(x, 0.0); }

static law::Range probability(const std::vector<double>& w, const Pos& p, double alpha, int u, int v) {
    ld W = 0; for (double x : w) W += x;
    ld m = 0; int d = p[u].size();
    for (int k = 0; k < d; ++k) { ld x = fabsl((ld)p[u][k] - p[v][k]); x = std::min(x, 1 - x); m = std::max(m, x); }
    auto f = [&](ld mm, ld f) -> double {
        if (mm <= 0) return 1.0;
        ld a = 1; for (int k = 0; k < d; ++k) a *= mm;
        ld q = powl((ld)w[u] * w[v] / W * f / a, alpha);
        return q > 1 ? 1.0 : (double)q;
    };
    // rounding: torus distance absolute 2^-53, a few eps relative for the quotient
    return {f(m + (m > 0 ? 2.3e-16L : 0), 1 - 4e-15L), f(m - 2.3e-16L, 1 + 4e-15L)};
}
static law::Sampler make(const std::vector<double>& w, const Pos& p, double alpha, int seed) {
    law::Sampler s(w.size(), law::INT_SEEDED, [w, p, alpha, seed] { return girgs::generateEdges(w, p, alpha, seed); });
    for (int u = 0; u < s.n; ++u) for (int v = u + 1; v < s.n; ++v) s.prob(u, v) = probability(w, p, alpha, u, v);
    return s;
}
static void threads(int t, int order) {
    omp_set_num_threads(t);
#ifdef VERIF_MCRT
    mc::set_default_order(order);
#endif
}
static std::string show(const std::vector<double>& w, const Pos& p) {
    std::string t; for (size_t i = 0; i < w.size() && i < 4; ++i) { t += vk::fmt(" w=%.17g (", w[i]); for (double x : p[i]) t += vk::fmt("%.17g ", x); t += ")"; } return t;
}
static const std::vector<double> ALPHAS{0.0, 0.5, 1.0, 1.3, 2.0, 3.5, 8.0, 25.0, 200.0};
static std::vector<double> grid(int k) { std::vector<double> g; for (int i = 1; i < k; ++i) g.push_back((double)i / k); g.push_back(1e-3); g.push_back(1e-6); g.push_back(1 - 1e-9); g.push_back(below(1.0)); return g; }
static std::vector<double> letters(int d) {
    if (d == 1) return {0, 1e-9, 1.0 / 64, below(1.0 / 8), 0.2, 0.25, 0.3, below(0.5), 0.5, 0.51, 0.625, 0.75, 0.9, 1 - 1.0 / 64, below(1.0)};
    if (d == 2) return {0, 0.2, 0.25, below(0.5), 0.51, 0.9};
    if (d == 3) return {0, 0.26, 0.51, below(1.0)};
    return {0.01, 0.45, below(0.75)};
}
static Pos product(const std::vector<double>& l, int d) {
    Pos r; std::vector<size_t> ix(d, 0);
    while (true) { std::vector<double> x; for (auto i : ix) x.push_back(l[i]); r.push_back(x); int i = 0; while (i < d && ++ix[i] == l.size()) ix[i++] = 0; if (i == d) return r; }
}
static Pos thin(const Pos& p, size_t n) { if (p.size() <= n) return p; Pos r; size_t s = 1 + p.size() * 5 / 8; while (std::__gcd(s, p.size()) != 1) ++s; for (size_t i = 0; i < n; ++i) r.push_back(p[i * s % p.size()]); return r; }

int main(int argc, char** argv) {
    const bool th = vk::thorough();
    // level structures by dimension: log2(W/w0^2); pairs of distant cells exist from 2d+2 on
    static const std::vector<std::vector<double>> L{{}, {-1.0, 2.6, 4.5, 6.3, 8.2, 10.4, 12.7}, {2.6, 4.5, 6.3, 8.2, 10.4}, {4.5, 7.2, 8.3, 11.4}, {6.3, 10.4}, {8.2, 12.4}};
    // ---- two nodes -------------------------------------------------------------------------------------------------------
    for (int d = 1; d <= 5; ++d) for (double alpha : ALPHAS) vk::unit(vk::fmt("pairs-d%d-alpha%g", d, alpha), [=] {
        auto base = product(letters(d), d); Pos A = thin(base, sub ? 2 : th ? 8 : d > 3 ? 2 : 4), B = thin(base, sub || d > 3 ? 6 : th ? 40 : 12);
        int run = 0;
        for (size_t a = 0; a < A.size(); ++a) for (size_t b = 0; b < B.size(); ++b) {
            if (!vk::begin("two nodes d=%d alpha=%g positions %zu,%zu", d, alpha, a, b)) continue;
            threads(1, 0);
            for (auto& ww : std::vector<std::pair<double, double>>{{1, 1}, {1, 1.9}, {3.7, 1}, {1, 40}}) for (double l : L[d]) {
                if (d == 5 && l > 12 && !th && ((a + b) % 4 || ww.first + ww.second > 2 + 0.1 * (b % 3))) continue;
                if (d == 3 && l > 11 && !th && (a + b) % 7) continue;
                if (sub && l > 9) continue;
                ++run;
                double W = ww.first + ww.second, w0 = std::min(ww.first, ww.second), sc = W / w0 / w0 / std::exp2(l);     // W/w0^2 = 2^l
                std::vector<double> w{ww.first * sc, ww.second * sc};
                vk::note("two nodes d=%d alpha=%g%s", d, alpha, show(w, {A[a], B[b]}).c_str());
                auto s = make(w, {A[a], B[b]}, alpha, 1);
                if (run % (th ? 3 : d == 5 ? 23 : 11) == 0) s.joint(grid(8)); else s.marginals(grid(th ? 20 : 6));
                if (s.bad || vk::failed()) break;
            }
        }
        vk::sample(vk::fmt("d=%d alpha=%g: %zu x %zu positions x 4 weight pairs x %zu level structures", d, alpha, A.size(), B.size(), L[d].size()));
    }, 300);
    // ---- joint law, three and four nodes ---------------------------------------------------------------------------------
    for (int d = 1; d <= 3; ++d) for (double alpha : {0.5, 1.3, 2.0, 8.0}) for (int n = 3; n <= 4; ++n) vk::unit(vk::fmt("few%d-d%d-alpha%g", n, d, alpha), [=] {
        // near: clusters, so that several pairs fall into one pair of distant cells
        auto at = [&](double x) { std::vector<double> v(d, x); if (d > 1) v[1] = 0.03; return v; };
        const std::vector<std::vector<double>> shapes = n == 3
            ? std::vector<std::vector<double>>{{0.01, 0.013, 0.52}, {0.01, 0.4, 0.7}, {0.01, 0.51, 0.515}, {0.2, 0.2, 0.2}, {0.0, 0.26, 0.74}}
            : std::vector<std::vector<double>>{{0.01, 0.013, 0.52, 0.522}, {0.01, 0.51, 0.512, 0.515}, {0.01, 0.26, 0.51, 0.76}, {0.01, 0.012, 0.014, 0.4}};
        for (size_t i = 0; i < shapes.size(); ++i) for (int t : {1, 2, 3, 8}) {
            if (sub && (n == 4 || t > 2)) continue;
            if (n == 4 && !th && t == 3) continue;
            if (!vk::begin("%d nodes d=%d alpha=%g shape %zu threads=%d", n, d, alpha, i, t)) continue;
            threads(t, i % 3);
            for (double l : {3.0, 2 * d + 2.3, d == 1 ? 7.2 : 2 * d + 4.2}) for (int wk = 0; wk < 2; ++wk) {
                if (n == 4 && !th && (l == 3.0 || (wk && t > 1) || (t > 1 && l > 2 * d + 3))) continue;
                if (d == 3 && l > 9 && !th) continue;
                if (d > 1 && n == 4 && !th && l > 2 * d + 3 && i) continue;
                if (!th && t > 1 && (i + t + wk) % 2) continue;
                std::vector<double> w; double W = 0; for (int k = 0; k < n; ++k) { w.push_back(wk ? (k == 1 ? 5.0 : 1 + 0.2 * k) : 1 + 0.1 * k); W += w.back(); }
                for (double& x : w) x *= W / std::exp2(l);
                Pos p; for (double x : shapes[i]) p.push_back(at(x));
                vk::note("%d nodes d=%d alpha=%g threads=%d%s", n, d, alpha, t, show(w, p).c_str());
                auto s = make(w, p, alpha, 3); s.joint(grid(4)); if (s.bad || vk::failed()) break;
            }
        }
    }, 300);
    // ---- complete configurations: each pair's probability -----------------------------------------------------------------
    for (int d = 1; d <= 5; ++d) for (size_t ai = 0; ai < ALPHAS.size(); ++ai) for (int part = 0; part < 2; ++part) vk::unit(vk::fmt("complete-d%d-alpha%g-%d", d, ALPHAS[ai], part), [=] {
        const double alpha = ALPHAS[ai];
        Pos base = thin(product(letters(d), d), 40);
        int run = 0;
        for (int wk = 0; wk < 4; ++wk) for (size_t li = d == 1 ? 1 : 0; li < L[d].size(); ++li) for (int t : {1, 2, 4, 5, 16}) {
            const double l = L[d][li];
            ++run;
            if (run % 2 != part) continue;
            if (!th && (wk + li + ai) % 4) continue;                 // quick: every (weights, levels) pair with some of the alphas
            if (t != 1 && !th && (run / 2) % 3) continue;
            if (d == 5 && l > 12 && (t != 1 || wk != 0 || (!th && ai != 4))) continue;
            if (d == 3 && l > 11 && !th && (t != 1 || ai % 3 != 1)) continue;
            if (sub && (l > 9 || run % 2)) continue;
            if (!vk::begin("complete configuration d=%d alpha=%g weights %d log2(W/w0^2)=%g threads=%d", d, alpha, wk, l, t)) continue;
            threads(t, run % 3);
            const size_t m = sub ? 6 : t > 1 ? (th ? 16 : 8) : d == 5 ? (l > 12 ? 6 : 10) : th ? 40 : 14; Pos p = thin(base, m);
            std::vector<double> w; double W = 0;
            for (size_t i = 0; i < m; ++i) { w.push_back(wk == 0 ? 1 : wk == 1 ? 1 + 0.4 * (i % 5) : wk == 2 ? std::exp2((i * 5 % 7) * 0.9) : (i % 6 == 0 ? 30 + i : below(2.0))); W += w.back(); }
            double w0 = *std::min_element(w.begin(), w.end());
            for (double& x : w) x *= W / w0 / w0 / std::exp2(l);
            auto s = make(w, p, alpha, run % 2 ? 7 : 0); s.marginals(grid(th ? 100 : 20)); if (vk::unit_saturated()) return;
        }
        vk::sample(vk::fmt("d=%d alpha=%g: %zu positions, 4 weight patterns, 5 level structures, threads 1,2,4,5,16", d, alpha, base.size()));
    }, 300);
    // ---- weights just below a power of two times the smallest one: many scalings, all pairs accepted ---------------------------
    for (int d = 1; d <= 3; ++d) vk::unit(vk::fmt("rounding-d%d", d), [=] {
        for (int k = 1; k <= (d == 1 ? 4 : d == 2 ? 2 : 1); ++k) for (int part = 0; part < 8; ++part) {
            if (!vk::begin("d=%d weights 1 and 2^%d-ulp, scalings part %d", d, k, part)) continue;
            threads(1, 0);
            const double b = below(std::exp2(k));
            for (int s = 1 + part; s < (th ? 4000 : 1000); s += 8) {
                const double l = 2 * d + 2.1 + 2 * (k - 1) + (s % 9) * 0.1, W = 1 + 3 * b, sc = W / std::exp2(l) * (1 + s * 1e-5);
                std::vector<double> w{sc, b * sc, b * sc, b * sc}; Pos p; for (double x : {0.1, 0.3, 0.55, 0.81}) p.push_back(std::vector<double>(d, x));
                vk::note("d=%d alpha=1.5%s", d, show(w, p).c_str());
                auto m = make(w, p, 1.5, 1); auto e = m.with({}, 0); vk::states(1);
                if (!m.bad && e.size() != 6) vk::fail("%zu of 6 pairs can be edges", e.size());
                if (vk::failed()) break;
            }
        }
    }, 300);
    return vk::main(argc, argv, "c02");
}
