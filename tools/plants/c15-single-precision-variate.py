property = 'C15'
edits = [
    ('source/girgs/source/Generator.cpp', '        auto dist = std::uniform_real_distribution<>{};\n\n        #pragma omp for schedule(static)\n        for (int i = 0; i < n; ++i) {\n            result[i]', '        auto dist = std::uniform_real_distribution<float>{};\n\n        #pragma omp for schedule(static)\n        for (int i = 0; i < n; ++i) {\n            result[i]'),
]
needs = 'enough samples for 24 bits of randomness to show, e.g. repeated weights among a million'
breaks = 'weights are drawn from only 2^24 values, so many nodes get the same variate'
libs = 'girgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/Generator.h>
int main() {
    auto w = girgs::generateWeights(1000000, 2.5, 5, false);
    std::sort(w.begin(), w.end());
    const int d = std::unique(w.begin(), w.end()) - w.begin();
    DEMO(d > 999990, "only %d different weights", d);
}
'''
