property = 'C12'
edits = [
    ('source/girgs/include/girgs/SpatialTreeCoordinateHelper.inl', 'coords[d] = static_cast<uint32_t>(position[d] * diameter);', 'coords[d] = static_cast<uint32_t>(static_cast<float>(position[d]) * diameter);'),
]
needs = 'a coordinate less than about 6e-8 below a cell border (or below 1)'
breaks = 'the point is assigned to the next cell, possibly one that does not exist'
libs = ''
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/SpatialTreeCoordinateHelper.h>
int main() {
    using H = girgs::SpatialTreeCoordinateHelper<2>;
    for (unsigned level = 0; level <= 12; ++level)
        for (double x : {0.25 - 1e-9, 0.5 - 1e-9, std::nextafter(1.0, 0.0), 0.25, 0.5, 0.75 + 1e-12}) {
            const auto cell = H::cellForPoint({x, 0.3}, level);
            DEMO(cell < H::numCellsInLevel(level), "level %u: cell %u of %u", level, cell, H::numCellsInLevel(level));
            const auto b = H::bounds(H::firstCellOfLevel(level) + cell, level);
            DEMO(b[0].first <= x && x < b[0].second, "level %u: %.17g not in [%.17g,%.17g)", level, x, b[0].first, b[0].second);
        }
}
'''
