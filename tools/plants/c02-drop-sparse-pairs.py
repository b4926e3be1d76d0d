property = 'C02'
edits = [
    ('source/girgs/include/girgs/SpatialTree.inl', 'if(expected_samples < 1e-6)', 'if(expected_samples < 1e-2)'),
]
needs = 'finite alpha and many distant pairs of cells that contain few points each'
breaks = 'long-range edges between sparse distant cells are never sampled'
libs = 'girgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/Generator.h>
int main() {
    omp_set_num_threads(1);
    const int n = 128;
    std::vector<double> w(n, 1.0);
    std::vector<std::vector<double>> x;
    for (int i = 0; i < n; ++i) x.push_back({(i + 0.5) / n});
    const double alpha = 2;
    double expected = 0;
    auto far = [](int a, int b) { double d = std::abs(a - b) / 128.0; return std::min(d, 1 - d); };
    for (int a = 0; a < n; ++a) for (int b = 0; b < a; ++b) if (far(a, b) > 0.25) expected += std::pow(1.0 / n / far(a, b), alpha);
    double count = 0; const int reps = 3000;
    for (int s = 0; s < reps; ++s)
        for (auto& e : girgs::generateEdges(w, x, alpha, s)) count += far(e.first, e.second) > 0.25;
    std::printf("expected %g got %g\n", expected * reps, count);
    DEMO(std::abs(count - expected * reps) < 8 * std::sqrt(expected * reps), "number of long edges");
}
'''
