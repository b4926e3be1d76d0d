// C18: computed disk radius, complete grid of the documented parameters against independently written formulas.
#include "vk.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <vector>
#include <stdexcept>
#include <string>
#include <hypergirgs/Generator.h>
typedef long double ld;
static const ld PIl = 3.14159265358979323846264338327950288L;

static ld c_of(ld T) { return T == 0 ? 1 / PIl : T / sinl(PIl * T); }
static ld deg_of(ld n, ld a, ld T, ld R) { return n * 2 * a * a * c_of(T) * expl(-R / 2) / ((a - 0.5L) * (a - 0.5L)); }
// NetworKit's expected degree at temperature 0 (HyperbolicSpace::getExpectedDegree)
static ld nk_deg(ld n, ld a, ld R) {
    const ld g = 2 * a + 1, xi = (g - 1) / (g - 2);
    return 2 / PIl * xi * xi * n * (expl(-R / 2) + expl(-a * R) * (a * (R / 2) * (PIl / 4 / (a * a) - (PIl - 1) / a + (PIl - 2)) - 1));
}
// it rises to a single maximum and then falls
static ld nk_max_at(ld a) { ld lo = 0, hi = 60; for (int i = 0; i < 300; ++i) { ld x = lo + (hi - lo) / 3, y = hi - (hi - lo) / 3; if (nk_deg(1, a, x) < nk_deg(1, a, y)) lo = x; else hi = y; } return lo; }

int main(int argc, char** argv) {
    std::vector<int> ns{2, 3, 4, 5, 8, 10, 30, 100, 316, 1000, 10000, 100000, 1000000, 50000000, std::numeric_limits<int>::max()};
    std::vector<double> al{std::nextafter(0.5, 1.0), 0.5 + 1e-9, 0.5 + 1e-6, 0.5001, 0.501, 0.51, 0.53, 0.55, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.95, 0.99, 0.9999, std::nextafter(1.0, 0.0), 1.0};
    std::vector<double> ts{0.0, 1e-300, 1e-18, 1e-12, 1e-6, 0.001, 0.01, 0.1, 0.25, 0.3, 1. / 3, 0.5, 0.6, 0.7, 0.75, 0.8, 0.9, 0.99, 0.999, 1 - 1e-9, std::nextafter(1.0, 0.0)};
    {
        const double st = vk::thorough() ? 0.001 : 0.005, tt = vk::thorough() ? 0.005 : 0.02;
        for (int i = 6; i < 1000; i *= 2) for (int j = -1; j <= 1; ++j) ns.push_back(i + j);
        for (double a = 0.505; a < 1; a += st) al.push_back(a);
        for (double t = 0.02; t < 1; t += tt) ts.push_back(t);
    }
    for (double a : al) vk::unit(vk::fmt("alpha-%.17g", a), [=] {
        const ld peak = nk_max_at(a), best = nk_deg(1, a, peak);
        for (int n : ns) {
            std::vector<double> degs;
            for (double x : {1.0, std::nextafter(1.0, 2.0), 1.25, 1.5, 2.0, 3.0, 5.0, 9.75, 10.0, 16.0, 50.0, 100.0, 1e3, 1e4, 1e6, n * 0.01, n * 0.05, n * 0.1, n * 0.2, n * 0.25, n * 0.3, n * 0.4, n * 0.45, n * 0.49, n * 0.5, (double)(best * n) - 0.005, n * 0.52, n * 0.55, n * 0.6, n * 0.75, n * 0.9, n - 2.0, n - 1.5, n - 1.0})
                if (x >= 1 && x <= n - 1.0) degs.push_back(x);
            std::sort(degs.begin(), degs.end()); degs.erase(std::unique(degs.begin(), degs.end()), degs.end());
            for (double T : ts) {
                double last = std::numeric_limits<double>::infinity(), last_nk = last, last_deg = 0;
                for (double d : degs) {
                    if (!vk::begin("n=%d alpha=%.17g T=%.17g deg=%.17g", n, a, T, d)) continue;
                    const double R = hypergirgs::calculateRadius(n, a, T, d);
                    vk::transitions(); vk::traces(); vk::states(1);
                    const ld got = deg_of(n, a, T, R);
                    // the double computation of sin(pi T) close to T = 1 and of alpha - 1/2 close to 1/2 loses digits that the exact formula has
                    const ld cond = 1e-12L + 1e-15L / (1 - T) ;
                    if (!std::isfinite(R)) vk::fail("radius %g", R);
                    else if (fabsl(got / d - 1) > cond * 50) vk::fail("radius %.17g gives expected degree %.12Lg instead of %.12g", R, got, d);
                    else if (!(R < last) && d > last_deg * (1 + 1e-12)) vk::fail("radius %.17g does not decrease in the degree (radius %.17g for degree %.17g)", R, last, last_deg);
                    last = R;
                    if (n < std::numeric_limits<int>::max()) { double R1 = hypergirgs::calculateRadius(n + std::max(1, n / 7), a, T, d); if (!(R1 > R)) vk::fail("radius does not grow with n: %.17g for n=%d, %.17g for n=%d", R, n, R1, n + std::max(1, n / 7)); }
                    // NetworKit-compatible variant
                    // T = 0: the formula cancels like (alpha-1/2)^2; below 0.501 only termination is asked for
                    const bool degenerate = T == 0 && a < 0.501;
                    double N;
                    try { N = hypergirgs::calculateRadiusLikeNetworKit(n, a, T, d); }
                    catch (const std::exception& e) {
                        if (T > 0) vk::fail("NetworKit radius: %s", e.what());
                        else if (!degenerate && best * n > d * (1 + 1e-9L)) vk::fail("NetworKit radius: %s (but the maximal expected degree is %.12Lg)", e.what(), best * n);
                        vk::count("no_networkit_radius"); last_deg = d; continue;
                    }
                    if (T == 0) {
                        if (degenerate || best * n < d) { last_deg = d; continue; }        // no solution, any answer will do
                        const ld k = nk_deg(n, a, N);
                        const ld tol = 0.01L + 1e-15L * n / ((a - 0.5L) * (a - 0.5L)) + 1e-12L * d;
                        if (!std::isfinite(N) || fabsl(k - d) > tol) vk::fail("NetworKit radius %.17g has NetworKit degree %.12Lg instead of %.12g", N, k, d);
                        else if (N < peak - 1e-6 && fabsl(best * n - d) > 0.1) vk::fail("NetworKit radius %.17g is on the rising branch (maximum at %.6Lg)", N, peak);
                        else if (!(N <= last_nk) && d > last_deg + 0.03) vk::fail("NetworKit radius %.17g does not decrease in the degree", N);
                        if (n < std::numeric_limits<int>::max() / 2) { double N2 = hypergirgs::calculateRadiusLikeNetworKit(2 * n, a, T, d); if (!(N2 > N)) vk::fail("NetworKit radius does not grow with n: %.17g, %.17g for 2n", N, N2); }
                    } else if (a > 0.5 + 1e-10) {      // NetworKit computes with the exponent 2 alpha + 1, which needs some digits of alpha
                        const ld b = 1 / (ld)T, g = 2 * (ld)a + 1, xiInv = (g - 2) / (g - 1), Iinv = b / PIl * sinl(PIl / b);
                        const ld want = 2 * logl(n / (d * Iinv * (PIl / 2) * xiInv * xiInv));
                        // beta = 1/T and sin(pi/beta) in double
                        const ld t2 = 1e-12L + 1e-15L / (1 - T) + 1e-15L / (a - 0.5L);
                        if (!std::isfinite(N) || fabsl(N - want) > 100 * t2) vk::fail("NetworKit radius %.17g, closed form gives %.17Lg", N, want);
                    }
                    last_nk = N; last_deg = d;
                }
            }
        }
        vk::sample(vk::fmt("alpha=%.17g: %zu node counts x degrees x %zu temperatures", a, ns.size(), ts.size()));
    }, 20);
    return vk::main(argc, argv, "c18");
}
