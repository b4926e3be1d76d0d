property = 'C24'
edits = [
    ('source/hypergirgs/include/hypergirgs/DistanceFilter.h', 'const auto index = static_cast<int>(std::ceil(stage_width * prob));', 'const auto index = static_cast<int>(std::round(stage_width * prob));'),
]
needs = 'a probability just above a stage of the filter'
breaks = 'a pair may be connected although its probability is below the variate'
libs = ''
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <hypergirgs/DistanceFilter.h>
int main() {
    const double R = 10, T = 0.5;
    hypergirgs::DistanceFilter<100> f(1.0, R, T);
    for (double p = 0.0005; p < 1; p += 0.001) {
        const double exact = std::cosh(std::max(0.0, R + 2 * T * std::log(1 / p - 1)));
        DEMO(f.coshDistForProb_lowerBound(p) <= exact * (1 + 1e-9), "lower bound for %g", p);
        DEMO(f.coshDistForProb_upperBound(p) >= exact * (1 - 1e-9), "upper bound for %g", p);
    }
}
'''
