property = 'C23'
edits = [
    ('source/hypergirgs/include/hypergirgs/HyperbolicTree.inl', 'const auto sizeV_i_A = static_cast<long long>(m_radius_layers[i].pointsInCell(cellA, level));', 'const auto sizeV_i_A = m_radius_layers[i].pointsInCell(cellA, level);'),
    ('source/hypergirgs/include/hypergirgs/HyperbolicTree.inl', 'const auto sizeV_j_B = static_cast<long long>(m_radius_layers[j].pointsInCell(cellB, level));', 'const auto sizeV_j_B = m_radius_layers[j].pointsInCell(cellB, level);'),
]
needs = 'positive temperature and two distant cells with more than 2^31 pairs of points'
breaks = 'the number of pairs overflows a signed integer; edges are lost or invented'
libs = 'hypergirgs'
flags = '-DNDEBUG -fsanitize=signed-integer-overflow -fno-sanitize-recover=all'
demo = r'''
#include "demo.h"
#include <hypergirgs/Generator.h>
int main() {
    omp_set_num_threads(1);
    alarm(200);
    const double PI_ = 3.14159265358979323846;
    const int m = 47000; const double R = 24, T = 0.3, rad = 23.999;
    std::vector<double> r(2 * m, rad), a(2 * m);
    for (int i = 0; i < 2 * m; ++i) a[i] = (i < m ? 0.1 : PI_ + 0.1) + 3.0 * (i % m) / m;
    // count the edges of distant pairs with the help of the exact expectation
    double expected = 0;
    for (int i = 0; i < m; i += 97) for (int j = m; j < 2 * m; j += 89) {
        const double d = std::acosh(std::cosh(rad) * std::cosh(rad) - std::sinh(rad) * std::sinh(rad) * std::cos(a[i] - a[j]));
        expected += 97 * 89 / (1 + std::exp((d - R) / (2 * T)));
    }
    double count = 0;
    for (auto& e : hypergirgs::generateEdges(r, a, T, R, 5)) {
        DEMO(e.first >= 0 && e.first < 2 * m && e.second >= 0 && e.second < 2 * m, "no such node");
        count += (e.first < m) != (e.second < m);
    }
    std::printf("expected %g got %g\n", expected, count);
}
'''
