property = 'C01'
edits = [
    ('source/girgs/include/girgs/SpatialTree.inl', ', m_W(std::accumulate(weights.begin(), weights.end(), 0.0))', ', m_W(std::accumulate(weights.begin(), weights.end(), 0.0f))'),
]
needs = 'a pair whose distance is within about 1e-7 (relative) of the threshold'
breaks = 'the sum of the weights is accumulated in single precision, so pairs close to the threshold are decided wrongly'
libs = 'girgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/Generator.h>
int main() {
    omp_set_num_threads(1);
    std::vector<double> w(50);
    for (int i = 0; i < 50; ++i) w[i] = 1.1 + 0.013 * i;
    double W = 0; for (auto x : w) W += x;
    for (double rel : {-3e-8, 3e-8, -1e-7, 1e-7, -1e-6, 1e-6}) {
        const double thr = w[0] * w[1] / W;
        std::vector<std::vector<double>> x(50, {0.9});
        x[0] = {0.0}; x[1] = {thr * (1 + rel)};
        bool found = false;
        for (auto& e : girgs::generateEdges(w, x, INFINITY, 1)) found |= e.first + e.second == 1;
        DEMO(found == (rel < 0), "distance %g times the threshold: edge %d", 1 + rel, found);
    }
}
'''
