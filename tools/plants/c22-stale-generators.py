property = 'C22'
edits = [
    ('source/girgs/include/girgs/SpatialTree.inl', '    m_gens.resize(num_threads);\n    for (int thread = 0; thread < num_threads; thread++) {\n        m_gens[thread].seed(', '    const auto first_new = static_cast<int>(m_gens.size());\n    m_gens.resize(num_threads);\n    for (int thread = first_new; thread < num_threads; thread++) {\n        m_gens[thread].seed('),
]
needs = 'a generator object that is used a second time'
breaks = 'the second graph of one generator object depends on the first'
libs = 'girgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
int main() {
    omp_set_num_threads(1);
    auto w = girgs::generateWeights(300, 2.5, 1, false);
    auto x = girgs::generatePositions(300, 2, 2, false);
    Edges e;
    auto cb = [&](int u, int v, int) { e.push_back({u, v}); };
    auto tree = girgs::makeSpatialTree<2>(w, x, 1.5, cb);
    tree.generateEdges(3); auto a = e; e.clear();
    tree.generateEdges(3);
    DEMO(e == a, "the same seed gives another graph on the second call");
}
'''
