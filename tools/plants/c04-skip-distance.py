property = 'C04'
edits = [
    ('source/hypergirgs/include/hypergirgs/HyperbolicTree.inl', 'for (auto r = geo(gen); r < num_pairs; r += 1 + geo(gen)) {', 'for (auto r = geo(gen); r < num_pairs; r += std::max<unsigned long long>(1, geo(gen))) {'),
]
needs = 'temperature above 0 and distant cells with several points each'
breaks = 'the distance to the next candidate pair is too small by one, so the pairs after a candidate become an edge too often'
libs = 'hypergirgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
int main() {
    omp_set_num_threads(1);
    const double R = 12, T = 0.9; const int m = 60;
    std::vector<double> r, a;
    const double PI_ = 3.14159265358979323846;
    for (int i = 0; i < 2 * m; ++i) { r.push_back(7.9 - 0.0005 * (i % m)); a.push_back(i < m ? 0.1 + 1e-4 * i : PI_ + 0.1 + 1e-4 * i); }
    double expected = 0;
    for (int i = 0; i < m; ++i) for (int j = m; j < 2 * m; ++j)
        expected += 1 / (1 + std::exp((hypergirgs::hyperbolicDistance(r[i], a[i], r[j], a[j]) - R) / (2 * T)));
    double count = 0; const int reps = 4000;
    for (int s = 0; s < reps; ++s)
        for (auto& e : hypergirgs::generateEdges(r, a, T, R, s)) count += (e.first < m) != (e.second < m);
    std::printf("expected %g got %g\n", expected * reps, count);
    DEMO(std::abs(count - expected * reps) < 8 * std::sqrt(expected * reps), "number of edges");
}
'''
