property = 'C10'
edits = [
    ('source/hypergirgs/source/RadiusLayer.cpp', 'for (int r = 0; r < threads; r++) {', 'for (int r = 0; r < std::min(threads, 4); r++) {'),
]
needs = 'more than four threads and an empty cell at the end of the share of a late thread'
breaks = 'cells of late shares report too many points or point behind the array'
libs = 'hypergirgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <hypergirgs/RadiusLayer.h>
#include <hypergirgs/AngleHelper.h>
using namespace hypergirgs;
int main() {
    omp_set_dynamic(0);
    for (int t = 1; t <= 16; ++t) {
        omp_set_num_threads(t);
        const int n = 12; const double R = 10;
        std::vector<double> r, a;
        for (int i = 0; i < n; ++i) { r.push_back(4 + 0.45 * i); a.push_back(0.1 + 0.02 * i + (i % 2) * 3); }
        std::vector<Point> pts; std::vector<unsigned int> first;
        auto layers = RadiusLayer::buildPartition(r, a, R, 1.0, pts, first, false);
        for (size_t l = 0; l < layers.size(); ++l) for (unsigned lev = 0; lev <= layers[l].m_target_level; ++lev)
            for (unsigned c = 0; c < AngleHelper::numCellsInLevel(lev); ++c) {
                int expect = 0;
                for (int i = 0; i < n; ++i) expect += unsigned(R - r[i]) == l && AngleHelper::cellForPoint(a[i], lev) == c;
                const int got = layers[l].pointsInCell(AngleHelper::firstCellOfLevel(lev) + c, lev);
                DEMO(got == expect, "%d threads, layer %zu level %u cell %u: %d points instead of %d", t, l, lev, c, got, expect);
            }
    }
}
'''
