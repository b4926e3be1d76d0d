property = 'C05'
edits = [
    ('source/girgs/include/girgs/SpatialTree.inl', '#pragma omp parallel for schedule(static), num_threads(num_threads) // dynamic scheduling would be better but not reproducible', '#pragma omp parallel for schedule(dynamic), num_threads(num_threads)'),
]
needs = 'finite alpha, at least two threads, and threads that get their cells in different orders in two runs'
breaks = 'the random stream a cell is sampled with depends on the scheduling, so a fixed seed does not fix the graph'
libs = 'girgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/Generator.h>
int main() {
    omp_set_num_threads(8); omp_set_dynamic(0);
    auto w = girgs::generateWeights(5000, 2.5, 1, false);
    auto x = girgs::generatePositions(5000, 2, 2, false);
    auto ref = canon(girgs::generateEdges(w, x, 1.5, 7));
    for (int i = 0; i < 200; ++i) DEMO(canon(girgs::generateEdges(w, x, 1.5, 7)) == ref, "run %d differs", i);
}
'''
