// C13: angular cell geometry against integer geometry.
#include "vk.h"
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <vector>
#include <hypergirgs/AngleHelper.h>
using namespace hypergirgs;
static const double TWO_PI = 2 * 3.14159265358979323846;

static uint64_t first(unsigned l) { return (1ull << l) - 1; }
static double step(double x, int k) { for (; k > 0; --k) x = std::nextafter(x, INFINITY); for (; k < 0; ++k) x = std::nextafter(x, -INFINITY); return x; }

static void check_cell(uint32_t k, unsigned l) {
    const uint64_t n = 1ull << l, cell = first(l) + k;
    const double w = std::ldexp(TWO_PI, -(int)l), lo = k * w, hi = (k + 1.0) * w;
    auto b = AngleHelper::bounds(cell, l);
    if (std::abs(b.first - lo) > 1e-15 * hi || std::abs(b.second - hi) > 1e-15 * hi) return vk::fail("cell %llu of level %u: bounds [%.17g,%.17g)", (unsigned long long)cell, l, b.first, b.second);
    // location; within a few ulp of a border either side is accepted, but never outside the circle
    struct P { double a; bool below, above; } ps[] = {
        {lo, k > 0, false}, {step(lo, 4), false, false}, {(lo + hi) / 2, false, false}, {lo + w / 1024, false, false}, {hi - w / 1024, false, false},
        {step(hi, -4), false, false}, {step(hi, -1), false, k + 1 < n}, {step(lo, 1), k > 0, false}};
    for (auto& p : ps) {
        if (p.a < 0 || p.a >= TWO_PI) continue;
        uint64_t c = AngleHelper::cellForPoint(p.a, l);
        if (c == k || (p.below && c + 1 == k) || (p.above && c == k + 1ull)) continue;
        return vk::fail("level %u: angle %.17g is located in cell %llu instead of %u of %llu", l, p.a, (unsigned long long)c, k, (unsigned long long)n);
    }
    if (l < 30) {
        uint64_t a = AngleHelper::firstChild(cell), z = AngleHelper::secondChild(cell);
        if (a != first(l + 1) + 2ull * k || z != a + 1) return vk::fail("cell %llu of level %u has children %llu, %llu", (unsigned long long)cell, l, (unsigned long long)a, (unsigned long long)z);
        if (AngleHelper::parent(a) != cell || AngleHelper::parent(z) != cell) return vk::fail("children of cell %llu name %u and %u as parent", (unsigned long long)cell, AngleHelper::parent(a), AngleHelper::parent(z));
    }
}
static bool check_pair(uint32_t x, uint32_t y, unsigned l) {
    const int64_t n = 1ll << l; int64_t d = std::llabs((int64_t)x - (int64_t)y); d = std::min(d, n - d);
    const bool touch = d <= 1; const int64_t between = touch ? 0 : d - 1;
    const unsigned a = first(l) + x, b = first(l) + y;
    if (AngleHelper::touching(a, b, l) != touch) { vk::fail("level %u cells %u %u: touching = %d", l, x, y, !touch); return false; }
    if (AngleHelper::cellsBetween(a, b, l) != between) { vk::fail("level %u cells %u %u: %d cells between, expected %lld", l, x, y, AngleHelper::cellsBetween(a, b, l), (long long)between); return false; }
    const double want = std::ldexp(between * TWO_PI, -(int)l), got = AngleHelper::dist(a, b, l);
    if (std::abs(got - want) > 1e-15 * want) { vk::fail("level %u cells %u %u: distance %.17g, expected %.17g", l, x, y, got, want); return false; }
    return true;
}

int main(int argc, char** argv) {
    const unsigned cb = vk::thorough() ? 27 : 22, pb = vk::thorough() ? 15 : 12;
    for (unsigned l = 0; l <= 30; ++l) {
        const uint64_t n = 1ull << l;
        const unsigned parts = l >= 16 && l <= cb ? 16 : 1;
        for (unsigned part = 0; part < parts; ++part) vk::unit(vk::fmt("cells-l%u-%u", l, part), [=] {
            if (l <= cb) {
                if (!vk::begin("level %u: all %llu cells (part %u of %u)", l, (unsigned long long)n, part, parts)) return;
                if (AngleHelper::numCellsInLevel(l) != n || AngleHelper::firstCellOfLevel(l) != first(l)) vk::fail("level %u: %u cells starting at %u", l, AngleHelper::numCellsInLevel(l), AngleHelper::firstCellOfLevel(l));
                uint64_t c = 0;
                for (uint64_t k = part; k < n && !vk::failed(); k += parts, ++c) check_cell(k, l);
                vk::states(c); vk::traces(c); vk::transitions(13 * c); vk::count("cells", c);
                vk::sample(vk::fmt("level %u: %llu cells: bounds, location of corner/middle points, children, parents", l, (unsigned long long)c));
            } else {
                if (!vk::begin("level %u: first, middle and last cells", l)) return;
                if (AngleHelper::numCellsInLevel(l) != n || AngleHelper::firstCellOfLevel(l) != first(l)) vk::fail("level %u: %u cells starting at %u", l, AngleHelper::numCellsInLevel(l), AngleHelper::firstCellOfLevel(l));
                const uint64_t S = 4096; uint64_t c = 0;
                for (uint64_t base : {uint64_t(0), n / 4 - S / 2, n / 3, n / 2 - S / 2, 3 * n / 4 - S / 2, n - S}) for (uint64_t k = base; k < base + S && !vk::failed(); ++k, ++c) check_cell(k, l);
                vk::states(c); vk::traces(c); vk::transitions(13 * c); vk::count("cells", c);
            }
        }, 600);
        const unsigned pp = l >= 10 && l <= pb ? 16 : 1;
        for (unsigned part = 0; part < pp; ++part) vk::unit(vk::fmt("pairs-l%u-%u", l, part), [=] {
            uint64_t c = 0;
            if (l <= pb) {
                if (!vk::begin("level %u: all pairs (part %u of %u)", l, part, pp)) return;
                for (uint64_t x = part; x < n; x += pp) for (uint64_t y = 0; y < n; ++y, ++c) if (!check_pair(x, y, l)) return;
            } else {
                if (!vk::begin("level %u: all pairs over {0..63, n/4+-32, n/2+-32, 3n/4+-32, n-64..n-1}", l)) return;
                std::vector<uint32_t> al;
                for (int i = 0; i < 64; ++i) { al.push_back(i); al.push_back(n - 64 + i); al.push_back(n / 2 - 32 + i); al.push_back(n / 4 - 32 + i); al.push_back(3 * (n / 4) - 32 + i); }
                for (auto x : al) for (auto y : al) { ++c; if (!check_pair(x, y, l)) return; }
            }
            vk::states(c); vk::traces(c); vk::transitions(3 * c); vk::count("cell_pairs", c);
            vk::sample(vk::fmt("level %u: %llu ordered pairs of cells", l, (unsigned long long)c));
        }, 600);
    }
    return vk::main(argc, argv, "c13");
}
