property = 'C18'
edits = [
    ('source/hypergirgs/source/Generator.cpp', 'double T=0, double epsilon = 0.01)', 'double T=0, double epsilon = 0.1)'),
]
needs = 'a desired degree for which the search stops early'
breaks = 'the NetworKit-compatible radius misses the desired degree by up to 0.1'
libs = 'hypergirgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <hypergirgs/Generator.h>
int main() {
    const double PI_ = 3.14159265358979323846;
    for (double k = 1; k < 100; k += 1.7) {
        const double n = 10000, alpha = 0.75, R = hypergirgs::calculateRadiusLikeNetworKit(10000, alpha, 0, k), xi = 2 * alpha / (2 * alpha - 1);
        const double deg = 2 / PI_ * xi * xi * n * (std::exp(-R / 2) + std::exp(-alpha * R) * (alpha * (R / 2) * (PI_ / 4 / alpha / alpha - (PI_ - 1) / alpha + PI_ - 2) - 1));
        DEMO(std::abs(deg - k) < 0.011, "degree %g instead of %g", deg, k);
    }
}
'''
