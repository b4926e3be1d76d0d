property = 'C09'
edits = [
    ('source/girgs/include/girgs/IntSort.h', 'for(int iteration = 1; iteration < no_iters-1; iteration++) {', 'for(int iteration = 1; iteration < std::min(no_iters-1, 3); iteration++) {'),
]
needs = 'keys of more than 40 bits'
breaks = 'for wide keys some digits are not sorted by, and the result may end up in the wrong buffer'
libs = ''
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/IntSort.h>
int main() {
    std::mt19937_64 g(1);
    for (int bits = 1; bits < 64; ++bits) {
        std::vector<uint64_t> v(3000);
        for (auto& x : v) x = g() >> (64 - bits);
        auto ref = v; std::sort(ref.begin(), ref.end());
        intsort::intsort(v, [](uint64_t x) { return x; }, (uint64_t(1) << bits) - 1);
        DEMO(v == ref, "%d bits", bits);
    }
}
'''
