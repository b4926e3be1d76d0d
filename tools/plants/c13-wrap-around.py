property = 'C13'
edits = [
    ('source/hypergirgs/source/AngleHelper.cpp', 'diff = std::min(diff, numCellsInLevel(level) - diff);', 'diff = std::min(diff, (1u << std::min(level, 20u)) - diff);'),
]
needs = 'a level below 20 of the angular cells'
breaks = 'cells that are close across angle 0 are reported as far apart on deep levels'
libs = 'hypergirgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <hypergirgs/AngleHelper.h>
using H = hypergirgs::AngleHelper;
int main() {
    for (unsigned level = 3; level <= 28; ++level) {
        const auto f = H::firstCellOfLevel(level), n = H::numCellsInLevel(level);
        DEMO(H::cellsBetween(f, f + n - 2, level) == 1, "level %u: %d", level, H::cellsBetween(f, f + n - 2, level));
        DEMO(H::cellsBetween(f + n / 2, f, level) == int(n / 2 - 1), "level %u", level);
        DEMO(H::cellsBetween(f, f + n / 2 + 2, level) == int(n / 2 - 3), "level %u", level);
    }
}
'''
