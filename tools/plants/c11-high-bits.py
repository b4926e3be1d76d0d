property = 'C11'
edits = [
    ('source/girgs/include/girgs/BitManipulationGeneric.inl', 'for(auto l = 0u; (l+1)*D <= 32; l++) {', 'for(auto l = 0u; (l+1)*D < 30; l++) {'),
]
needs = 'five dimensions and a coordinate of six bits (the deepest level a cell number can hold)'
breaks = 'the most significant bit of every coordinate is dropped'
libs = ''
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/BitManipulation.h>
#include <string>
int main() {
    for (uint32_t i = 0; i < 5; ++i) for (uint32_t k = 0; k < 6; ++k) {
        std::array<uint32_t, 5> c{}; c[i] = 1u << k;
        DEMO(girgs::BitManipulation<5>::deposit(c) == 1u << (5 * k + i), "coordinate %u bit %u", i, k);
    }
}
'''
