// C14: weight scaling against the exact expected degree, computed pair by pair in closed form.
#include "vk.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <vector>
#include <string>
#include <girgs/Generator.h>
#ifdef VERIF_MCRT
#include "mcrt.h"
#endif
#include <omp.h>
typedef long double ld;
static const double INF = std::numeric_limits<double>::infinity();

// probability that two nodes with q = 2^d w_u w_v / W are connected, positions uniform: (2 dist)^d is uniform in [0,1]
static ld pair_prob(ld q, double alpha) {
    if (q >= 1) return 1;
    if (alpha == INF) return q;
    return q + (powl(q, alpha) - q) / (1 - (ld)alpha);
}
static ld expected_degree(const std::vector<double>& w, int d, double alpha) {
    ld W = 0; for (double x : w) W += x;
    ld s = 0; const int n = w.size();
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) s += pair_prob(ldexpl(1, d) * w[i] * w[j] / W, alpha);
    return 2 * s / n;
}

static void check(const std::string& name, const std::vector<double>& w, int d, double alpha, double deg, int threads = 1) {
    if (!vk::begin("%s d=%d alpha=%.17g deg=%.17g threads=%d", name.c_str(), d, alpha, deg, threads)) return;
    omp_set_num_threads(threads);
    auto v = w;
    const double c = girgs::scaleWeights(v, deg, d, alpha);
    vk::transitions(); vk::traces();
    vk::states(1);
    if (!(c > 0) || !std::isfinite(c)) return vk::fail("scaling factor %g", c);
    if (v.size() != w.size()) return vk::fail("%zu weights became %zu", w.size(), v.size());
    for (size_t i = 0; i < w.size(); ++i) if (std::abs(v[i] - c * w[i]) > 1e-15 * v[i]) return vk::fail("weight %zu is %.17g, expected %.17g * %.17g", i, v[i], c, w[i]);
    const ld e = expected_degree(v, d, alpha > 8 ? INF : alpha);
    if (!(fabsl(e - deg) <= 0.03L)) return vk::fail("scaling %.17g yields expected average degree %.6Lf instead of %.6f", c, e, deg);
    vk::maxi("largest_error_1e6", (uint64_t)(fabsl(e - deg) * 1e6));
}

int main(int argc, char** argv) {
    const std::vector<double> alphas{1.0001, 1.01, 1.1, 1.25, 1.5, 2, 2.5, 3, 4, 5, 6.5, 7.9, 8, 8.0001, 10, 30, 1e6, INF};
    struct Set { std::string name; std::vector<double> w; };
    static std::vector<Set> sets;
    // all weight multisets over an alphabet
    const std::vector<double> al{1, 1.5, 2, 3.999, 16, 1000};
    const size_t maxn = vk::thorough() ? 5 : 4;
    for (size_t n = 2; n <= maxn; ++n) {
        std::vector<size_t> ix(n, 0);
        while (true) {
            std::vector<double> w; std::string s = "w="; for (auto i : ix) { w.push_back(al[i]); s += vk::fmt(s.size() > 2 ? ",%g" : "%g", al[i]); }
            sets.push_back({s, w});
            std::reverse(w.begin(), w.end()); if (n > 2) sets.push_back({s + " reversed", w});
            size_t k = n; while (k && ix[k - 1] == al.size() - 1) --k;
            if (!k) break;
            size_t v = ix[k - 1] + 1; for (size_t j = k - 1; j < n; ++j) ix[j] = v;
        }
    }
    for (int n : {5, 10, 50, 200}) {
        sets.push_back({vk::fmt("%d equal", n), std::vector<double>(n, 1.0)});
        sets.push_back({vk::fmt("%d equal 1e-3", n), std::vector<double>(n, 1e-3)});
        sets.push_back({vk::fmt("%d equal 1e6", n), std::vector<double>(n, 1e6)});
        { std::vector<double> w(n, 1.0); w[n / 2] = n; sets.push_back({vk::fmt("%d with one hub", n), w}); }
        { std::vector<double> w(n, 1.0); w[0] = n; w[1] = n / 2.0; w[n - 1] = n; sets.push_back({vk::fmt("%d with three hubs", n), w}); }
        for (double ple : {2.05, 2.5, 3.0}) {
            std::vector<double> w(n); for (int i = 0; i < n; ++i) w[i] = std::pow((std::pow(0.5 * n, 1 - ple) - 1) * ((i * 7919LL % n + 0.5) / n) + 1, 1 / (1 - ple));
            sets.push_back({vk::fmt("%d power law %g", n, ple), w});
        }
    }
    for (size_t k = 0; k < sets.size(); ++k) vk::unit("set-" + std::to_string(k), [=] {
        const auto& s = sets[k]; const double n = s.w.size();
        std::vector<double> degs;
        for (double x : {1.0, 1.05, 1.5, 2.0, 2.7, 5.0, 10.0, 0.25 * n, 0.5 * n, 0.75 * n, 0.9 * n, n - 1.5, n - 1.2, n - 1.1}) if (x >= 1 && x < n - 1.05) degs.push_back(x);
        std::sort(degs.begin(), degs.end()); degs.erase(std::unique(degs.begin(), degs.end()), degs.end());
        for (int d = 1; d <= 5; ++d) for (double a : alphas) for (double g : degs) check(s.name, s.w, d, a, g);
        vk::sample(vk::fmt("%s x d 1..5 x %zu alphas x %zu degrees", s.name.c_str(), alphas.size(), degs.size()));
    }, 20);
    // heavy tails: q^alpha of two hubs exceeds the degree by many orders of magnitude
    for (int n : vk::thorough() ? std::vector<int>{1000, 4000, 10000} : std::vector<int>{1000}) for (double ple : {2.1, 2.3, 2.9}) for (double a : {1.5, 5.0, 7.5, 8.0, INF})
        vk::unit(vk::fmt("tail-%d-%g-%g", n, ple, a), [=] {
            std::vector<double> w(n);
            for (int i = 0; i < n; ++i) w[i] = std::pow((std::pow(0.5 * n, 1 - ple) - 1) * (i * 7919LL % n + 0.1) / n + 1, 1 / (1 - ple));
            for (int d : {1, 2, 5}) for (double g : {1.0, 10.0, 50.0}) check(vk::fmt("%d power law %g", n, ple), w, d, a, g);
        }, 120);
    // the reductions are parallel: other team sizes, more nodes than threads and fewer
    for (int t : {2, 3, 5, 8, 16}) vk::unit("threads-" + std::to_string(t), [=] {
        for (const auto& s : sets) if (s.w.size() >= 10 || s.w.size() == 3) for (double a : {1.5, 3.0, INF}) if (s.w.size() > 2) check(s.name, s.w, 2, a, 1.5, t);
    }, 20);
    return vk::main(argc, argv, "c14");
}
