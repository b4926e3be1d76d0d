property = 'C02'
edits = [
    ('source/girgs/include/girgs/SpatialTree.inl', 'static_cast<unsigned int>(seed) + thread :', 'static_cast<unsigned int>(seed) + thread / 2 :'),
]
needs = 'finite alpha and at least two threads'
breaks = 'two threads use the same random stream, so edges in different parts of the torus are not independent'
libs = 'girgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/Generator.h>
// two congruent clusters handled by different threads must not get congruent edges
int main() {
    omp_set_num_threads(8); omp_set_dynamic(0);
    const int m = 40, copies = 32;
    std::vector<double> w(m * copies, 1.0);
    std::vector<std::vector<double>> x;
    for (int c = 0; c < copies; ++c) for (int i = 0; i < m; ++i) x.push_back({(c + 0.2 + 0.6 * i / m) / copies});
    auto e = canon(girgs::generateEdges(w, x, 1.5, 7));
    std::vector<Edges> per(copies);
    for (auto& y : e) if (y.first / m == y.second / m) per[y.first / m].push_back({y.first % m, y.second % m});
    for (int a = 0; a < copies; ++a) for (int b = 0; b < a; ++b)
        DEMO(per[a].size() < 20 || per[a] != per[b], "clusters %d and %d have the same %d edges", a, b, (int)per[a].size());
}
'''
