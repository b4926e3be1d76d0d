property = 'C07'
edits = [
    ('source/hypergirgs/include/hypergirgs/IntSort.h', '                if (no_threads > 1) {\n                    #pragma omp barrier\n                }\n\n                {\n                    size_t index = 0;', '                if (no_threads > 2) {\n                    #pragma omp barrier\n                }\n\n                {\n                    size_t index = 0;'),
]
needs = 'exactly two threads and more than 2^17 elements'
breaks = 'without the barrier one thread reads the counters of the other before they are complete'
libs = ''
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <hypergirgs/IntSort.h>
int main() {
    omp_set_num_threads(2); omp_set_dynamic(0);
    for (int rep = 0; rep < 200; ++rep) {
        const size_t n = (1 << 17) + 1000;
        std::vector<std::pair<uint32_t, uint32_t>> v(n + 1);
        for (size_t i = 0; i < v.size(); ++i) v[i] = {(static_cast<uint32_t>(i) * 2654435761u) >> 12, static_cast<uint32_t>(i)};
        auto ref = v;
        std::stable_sort(ref.begin(), ref.end(), [](const std::pair<uint32_t, uint32_t>& a, const std::pair<uint32_t, uint32_t>& b) { return a.first < b.first; });
        intsort::intsort(v, [](const std::pair<uint32_t, uint32_t>& p) { return p.first; }, uint32_t(1 << 20));
        DEMO(v == ref, "repetition %d: not sorted", rep);
    }
}
'''
