property = 'C08'
edits = [
    ('source/hypergirgs/source/Generator.cpp', 'std::lock_guard<std::mutex> lock(m);', 'std::lock_guard<std::mutex>{m};'),
]
needs = 'more than 2^20 edges per thread, so that two threads hand over full buffers at the same time'
breaks = 'the lock is released at once, so concurrent hand-overs corrupt the result'
libs = 'hypergirgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <hypergirgs/Generator.h>
int main() {
    omp_set_num_threads(4); omp_set_dynamic(0);
    for (int rep = 0; rep < 20; ++rep) {
        const int n = 6000;
        std::vector<double> r(n), a(n);
        for (int i = 0; i < n; ++i) { r[i] = 1.5 + 2.4 * ((i * 37) % n) / n; a[i] = 6.283 * i / n; }
        auto e = hypergirgs::generateEdges(r, a, 0, 8, 1); // radii below R/2: complete graph
        DEMO(e.size() == size_t(n) * (n - 1) / 2, "%zu edges", e.size());
        std::vector<int> deg(n);
        for (auto& x : e) { DEMO(x.first >= 0 && x.first < n && x.second >= 0 && x.second < n, "bad edge"); ++deg[x.first]; ++deg[x.second]; }
        for (int d : deg) DEMO(d == n - 1, "degree %d", d);
    }
}
'''
