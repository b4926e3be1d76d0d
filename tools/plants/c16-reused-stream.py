property = 'C16'
edits = [
    ('source/girgs/source/Generator.cpp', 'auto gen = default_random_engine{positionSeed >= 0 ? static_cast<unsigned int>(positionSeed) + tid : std::random_device()()};', 'auto gen = default_random_engine{positionSeed >= 0 ? static_cast<unsigned int>(positionSeed) + tid % 4 : std::random_device()()};'),
]
needs = 'at least five threads and 50000 nodes'
breaks = 'two threads draw the same positions'
libs = 'girgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/Generator.h>
int main() {
    omp_set_num_threads(8); omp_set_dynamic(0);
    auto x = girgs::generatePositions(100000, 2, 5, true);
    std::sort(x.begin(), x.end());
    DEMO(std::unique(x.begin(), x.end()) == x.end(), "two nodes have the same position");
}
'''
