property = 'C17'
edits = [
    ('source/hypergirgs/source/Generator.cpp', 'auto adist = std::uniform_real_distribution<>(0, 2*PI);', 'auto adist = std::uniform_real_distribution<float>(0, 2*PI);'),
]
needs = 'enough samples for 24 bits of randomness to show, or a variate that rounds up to 2*pi'
breaks = 'angles are drawn from only 2^24 values and may reach 2*pi'
libs = 'hypergirgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <hypergirgs/Generator.h>
int main() {
    auto a = hypergirgs::sampleAngles(1000000, 5, false);
    std::sort(a.begin(), a.end());
    const int d = std::unique(a.begin(), a.end()) - a.begin();
    DEMO(d > 999990, "only %d different angles", d);
}
'''
