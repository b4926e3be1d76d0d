// C24: precomputed-coordinate distance tests and the probability filter against the definition in long double,
// over the complete product of radius, angle and temperature alphabets.
#include "vk.h"
#include <algorithm>
#include <cmath>
#include <cassert>
#include <limits>
#include <vector>
#include <cstdlib>
#include <hypergirgs/Point.h>
#ifdef FILTER
#include <hypergirgs/DistanceFilter.h>
#endif
using namespace hypergirgs;
typedef long double ld;
static const ld EPS = 2.3e-16L;
static const double TWO_PI = 2 * 3.14159265358979323846;

// cosh of the distance by the definition, without cancellation
static ld ref_cosh(ld r1, ld f1, ld r2, ld f2) { const ld s = sinl((f1 - f2) / 2); return coshl(r1 - r2) + 2 * s * s * sinhl(r1) * sinhl(r2); }

int main(int argc, char** argv) {
    std::vector<double> radii{1e-8, 1e-3, 0.01, 0.1, 0.5, 0.9, 1.0, 1.5, 2, 3, 4.9, 5, 7, 9.99, 10, 12.5, 15, 17, 19.999, 20, 24};
    std::vector<double> diffs, bases{0, 1e-9, 0.1, 1, TWO_PI / 4, 2, TWO_PI / 2, 4, 3 * TWO_PI / 4, 5, std::nextafter(TWO_PI, 0)};
    for (double e = 1e-9; e < 3; e *= vk::thorough() ? 1.3 : 2) { diffs.push_back(e); diffs.push_back(TWO_PI - e); }
    for (double x : {0.0, 0.5, TWO_PI / 8, TWO_PI / 4, 2.0, 3.0, TWO_PI / 2, 4.0, 5.0}) diffs.push_back(x);
    if (vk::thorough()) for (double x = 0.05; x < 24; x += 0.35) radii.push_back(x);
    std::vector<double> Rs{1, 1.5, 2, 3.3, 5, 7.5, 10, 12, 15.5, 20, 24};

#ifndef FILTER
    for (double r1 : radii) vk::unit(vk::fmt("points-r%.9g", r1), [=] {
        for (double r2 : radii) for (double b : bases) {
            if (!vk::begin("r1=%.17g r2=%.17g phi1=%.17g", r1, r2, b)) continue;
            for (double df : diffs) {
                double f2 = b + df; if (f2 >= TWO_PI) f2 -= TWO_PI; if (f2 < 0 || f2 >= TWO_PI) continue;
                vk::states(1); vk::traces();
                const ld c = ref_cosh(r1, b, r2, f2);
                const ld prod = coshl(r1) * coshl(r2) + sinhl(r1) * sinhl(r2);
                // rounding: the numerator is a difference of terms of size coth*coth + 1
                const ld tol = 24 * EPS * prod;
                Point p(0, r1, b, 0), q(1, r2, f2, 0);
                const double c1 = p.hyperbolicDistanceCosh(q), c2 = q.hyperbolicDistanceCosh(p);
                if (!(fabsl(c1 - c) <= tol)) { vk::fail("phi2=%.17g: cosh of the distance is %.17g, expected %.17Lg +- %.3Lg", f2, c1, c, tol); break; }
                if (!(std::abs(c1 - c2) <= 2 * tol)) { vk::fail("phi2=%.17g: not symmetric: %.17g, %.17g", f2, c1, c2); break; }
                if (!(c1 >= 1)) { vk::fail("phi2=%.17g: cosh of the distance below 1: %.17g", f2, c1); break; }
                const double d1 = p.hyperbolicDistance(q);
                if (!(fabsl(coshl(d1) - c) <= tol + 8 * EPS * c)) { vk::fail("phi2=%.17g: distance %.17g, expected %.17Lg", f2, d1, acoshl(c)); break; }
                const double h = hyperbolicDistance(r1, b, r2, f2), h2 = hyperbolicDistance(r2, f2, r1, b);
                // cos(phi1-phi2) is accurate to one ulp of 1; the difference of the angles to one ulp of 2 pi
                const ld dphi = fabsl(sinl((ld)b - f2)) * 1e-15L;
                const ld tolh = 16 * EPS * c + (4 * EPS + dphi) * sinhl(r1) * sinhl(r2);
                if (!(fabsl(coshl(h) - c) <= tolh + 8 * EPS * c * (1 + h))) { vk::fail("phi2=%.17g: hyperbolicDistance %.17g, expected %.17Lg", f2, h, acoshl(c)); break; }
                if (!(fabsl(coshl(h2) - c) <= tolh + 8 * EPS * c * (1 + h2))) { vk::fail("phi2=%.17g: hyperbolicDistance not symmetric: %.17g, %.17g", f2, h, h2); break; }
                vk::transitions(5);
                bool bad = false;
                std::vector<double> RR(Rs); for (int k = -3; k <= 3; ++k) RR.push_back((double)acoshl(c) * (1 + k * 1e-3));
                RR.push_back(std::nextafter(std::max(r1, r2), 100.0));
                for (double R : RR) {
                    if (R <= r1 || R <= r2) continue;      // points of the disk
                    const ld cr = coshl((ld)R), band = tol + 8 * EPS * (1 + R) * cr;
                    if (fabsl(c - cr) <= band) { vk::count("undecided_by_rounding"); continue; }
                    const bool want = c < cr;
                    if (p.isDistanceBelowR(q, std::cosh(R)) != want || q.isDistanceBelowR(p, std::cosh(R)) != want) { vk::fail("phi2=%.17g R=%.17g: distance %.17Lg is reported %s R", f2, R, acoshl(c), want ? "not below" : "below"); bad = true; break; }
                    vk::transitions(2); vk::count("below_R_tests");
                }
                if (bad) break;
            }
        }
        vk::sample(vk::fmt("r1=%.9g with %zu radii x %zu base angles x %zu angle differences x R values", r1, radii.size(), bases.size(), diffs.size()));
    }, 60);

#else
    // the filter
    std::vector<double> FR(Rs), FT{1e-6, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 0.99, 0.999};
    std::vector<double> MP{1.0, std::nextafter(1.0, 0.0), 0.999, 0.9, 0.7, 0.5, 0.4, 0.3, 0.25, 0.2, std::nextafter(0.2, 0.0), 0.19, 0.1, 0.05, 0.03, 0.01, 0.0031, 1e-3, 1e-4, 1e-6, 1e-9, 1e-12, 1e-15};
    FR.push_back(16); FR.push_back(30); FR.push_back(50);
    for (double R : FR) for (double T : FT) vk::unit(vk::fmt("filter-R%.6g-T%.6g", R, T), [=] {
        auto prob = [&](ld x) -> ld { return 1 / (1 + expl((x - R) / (2 * (ld)T))); };
        for (double m : MP) {
            if (!vk::begin("R=%.17g T=%.17g max_prob=%.17g", R, T, m)) continue;
            DistanceFilter<100> f(m, R, T);
            std::vector<double> ps{0.0, std::numeric_limits<double>::denorm_min(), 1e-300, 1e-12 * m};
            const int fine = vk::thorough() ? 2000 : 200;
            for (int i = 1; i <= fine; ++i) { double p = m / fine * i; for (int k = -2; k <= 2; ++k) { double x = p; for (int j = 0; j < std::abs(k); ++j) x = std::nextafter(x, k < 0 ? 0.0 : 2.0); ps.push_back(x); } }
            for (double p : ps) {
                if (!(p < m)) continue;
                const double U = f.coshDistForProb_upperBound(p), L = f.coshDistForProb_lowerBound(p);
                vk::states(1); vk::transitions(2); vk::traces();
                if (std::isnan(U) || std::isnan(L) || U < 1) { vk::fail("p=%.17g: bounds %g, %g", p, U, L); break; }
                const ld slack = 1e-9L + 1e-15L * (R + 1) / T * 50;
                if (std::isfinite(U)) { const ld pu = std::min(prob(acoshl(U)), (ld)m);   // the filter is for pairs of probability up to max_prob
                    if (pu > p * (1 + slack) + 1e-300L) { vk::fail("p=%.17g: a pair beyond cosh distance %.17g may have connection probability %.17Lg > p", p, U, pu); break; } }
                if (L > 1) { const ld pl = prob(acoshl(L)); if (pl < p * (1 - slack)) { vk::fail("p=%.17g: a pair closer than cosh distance %.17g may have connection probability %.17Lg < p", p, L, pl); break; } }
            }
        }
        vk::sample(vk::fmt("filter R=%.6g T=%.6g: %zu ranges x probabilities at all stage borders +-2 ulp", R, T, MP.size()));
    }, 60);
#endif
    return vk::main(argc, argv, "c24");
}
