// C12: torus cell geometry against integer geometry, all cells / all cell pairs of every level up to a bound, and
// all pairs over a coordinate alphabet (borders, seam, middle) on every deeper level that 32-bit cell numbers allow.
#include "vk.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <vector>
#include <girgs/SpatialTreeCoordinateHelper.h>
using namespace girgs;

template <unsigned D> struct Ref {
    static uint64_t cells(unsigned l) { return 1ull << (D * l); }
    static uint64_t first(unsigned l) { uint64_t s = 0; for (unsigned k = 0; k < l; ++k) s += cells(k); return s; }
    static std::array<uint32_t, D> coords(uint64_t local) { std::array<uint32_t, D> c{}; for (unsigned b = 0; b < 32; ++b) if (local >> b & 1) c[b % D] |= 1u << (b / D); return c; }
    static uint64_t local(const std::array<uint32_t, D>& c) { uint64_t x = 0; for (unsigned d = 0; d < D; ++d) for (unsigned b = 0; b * D + d < 32; ++b) if (c[d] >> b & 1) x |= 1ull << (b * D + d); return x; }
};
template <unsigned D> std::string show(const std::array<uint32_t, D>& c) { std::string s = "("; for (unsigned d = 0; d < D; ++d) s += vk::fmt(d ? ",%u" : "%u", c[d]); return s + ")"; }

template <unsigned D> void check_cell(const std::array<uint32_t, D>& c, unsigned l, bool deeper) {
    using H = SpatialTreeCoordinateHelper<D>; using G = Ref<D>;
    const uint64_t loc = G::local(c), cell = G::first(l) + loc;
    const double scale = std::ldexp(1.0, -(int)l);
    if (H::cellOfLevel(cell) != loc) return vk::fail("cell %llu (level %u %s): number inside the level is %u", (unsigned long long)cell, l, show<D>(c).c_str(), H::cellOfLevel(cell));
    auto b = H::bounds(cell, l);
    for (unsigned d = 0; d < D; ++d)
        if (b[d].first != c[d] * scale || b[d].second != (c[d] + 1.0) * scale)
            return vk::fail("cell %llu (level %u %s): bounds in dimension %u are [%.17g,%.17g)", (unsigned long long)cell, l, show<D>(c).c_str(), d, b[d].first, b[d].second);
    // points: every combination of {lower corner, middle, largest below upper corner}
    unsigned comb = 1; for (unsigned d = 0; d < D; ++d) comb *= 3;
    for (unsigned k = 0; k < comb; ++k) {
        std::array<double, D> p; unsigned r = k;
        for (unsigned d = 0; d < D; ++d, r /= 3) p[d] = r % 3 == 0 ? c[d] * scale : r % 3 == 1 ? (c[d] + 0.5) * scale : std::nextafter((c[d] + 1.0) * scale, 0.0);
        if (H::cellForPoint(p, l) != loc) return vk::fail("level %u: point %u of cell %s is located in cell %u, not %llu", l, k, show<D>(c).c_str(), H::cellForPoint(p, l), (unsigned long long)loc);
    }
    vk::transitions(comb + 3);
    if (deeper && D * (l + 1) <= 30) {      // children: consecutive, the right ones, naming this cell as parent, together the whole cell
        const uint64_t f = H::firstChild(cell), z = H::lastChild(cell);
        if (z - f + 1 != (1u << D)) return vk::fail("cell %llu has children %llu..%llu", (unsigned long long)cell, (unsigned long long)f, (unsigned long long)z);
        uint64_t seen = 0;
        for (uint64_t ch = f; ch <= z; ++ch) {
            if (H::parent(ch) != cell) return vk::fail("child %llu of cell %llu names %u as parent", (unsigned long long)ch, (unsigned long long)cell, H::parent(ch));
            if (ch < G::first(l + 1) || ch >= G::first(l + 2)) return vk::fail("child %llu of cell %llu is not on level %u", (unsigned long long)ch, (unsigned long long)cell, l + 1);
            auto cc = G::coords(ch - G::first(l + 1)); unsigned which = 0;
            for (unsigned d = 0; d < D; ++d) { if (cc[d] >> 1 != c[d]) return vk::fail("child %llu of cell %llu lies outside", (unsigned long long)ch, (unsigned long long)cell); which |= (cc[d] & 1) << d; }
            seen |= 1ull << which;
            auto bb = H::bounds(ch, l + 1);
            for (unsigned d = 0; d < D; ++d) if (bb[d].first < b[d].first || bb[d].second > b[d].second || (bb[d].second - bb[d].first) * 2 != b[d].second - b[d].first)
                return vk::fail("bounds of child %llu exceed those of cell %llu", (unsigned long long)ch, (unsigned long long)cell);
        }
        if (seen != (D == 5 ? 0xffffffffull : (1ull << (1u << D)) - 1)) return vk::fail("children of cell %llu do not cover it", (unsigned long long)cell);
        vk::transitions(2u << D);
    }
}

template <unsigned D> bool check_pair(const std::array<uint32_t, D>& a, const std::array<uint32_t, D>& b, unsigned l, unsigned ca, unsigned cb) {
    using H = SpatialTreeCoordinateHelper<D>;
    const int64_t n = 1ll << l; int64_t m = 0;
    for (unsigned d = 0; d < D; ++d) { int64_t x = std::llabs((int64_t)a[d] - (int64_t)b[d]); m = std::max(m, std::min(x, n - x)); }
    const bool touch = m <= 1; const double dist = touch ? 0.0 : std::ldexp((double)(m - 1), -(int)l);
    if (H::touching(ca, cb, l) != touch) { vk::fail("level %u cells %s %s: touching = %d", l, show<D>(a).c_str(), show<D>(b).c_str(), !touch); return false; }
    if (H::dist(ca, cb, l) != dist) { vk::fail("level %u cells %s %s: distance %.17g, expected %.17g", l, show<D>(a).c_str(), show<D>(b).c_str(), H::dist(ca, cb, l), dist); return false; }
    return true;
}

template <unsigned D> void level_meta(unsigned l) {
    using H = SpatialTreeCoordinateHelper<D>; using G = Ref<D>;
    if (H::numCellsInLevel(l) != G::cells(l)) vk::fail("d=%u level %u has %u cells", D, l, H::numCellsInLevel(l));
    if (H::firstCellOfLevel(l) != G::first(l)) vk::fail("d=%u level %u starts at cell %u", D, l, H::firstCellOfLevel(l));
    if (H::numChildren() != 1u << D) vk::fail("d=%u: %u children", D, H::numChildren());
    vk::transitions(3);
}

template <unsigned D> void reg() {
    using G = Ref<D>;
    for (unsigned l = 0; D * l <= 30; ++l) {
        vk::unit(vk::fmt("cells-d%u-l%u", D, l), [=] {
            const unsigned bits = vk::thorough() ? 24 : 21;
            if (D * l <= bits) {
                if (vk::begin("d=%u level %u: all %llu cells", D, l, (unsigned long long)G::cells(l))) {
                    level_meta<D>(l);
                    for (uint64_t k = 0; k < G::cells(l) && !vk::failed(); ++k) check_cell<D>(G::coords(k), l, true);
                    vk::states(G::cells(l)); vk::traces(G::cells(l)); vk::count("cells", G::cells(l));
                    vk::sample(vk::fmt("d=%u level %u: all %llu cells, their corners, children and parents", D, l, (unsigned long long)G::cells(l)));
                }
            } else if (vk::begin("d=%u level %u: coordinate alphabet", D, l)) {
                level_meta<D>(l);
                const uint32_t n = 1u << l;
                std::vector<uint32_t> al{0, 1, 2, n / 2 - 1, n / 2, n - 2, n - 1};
                if (D <= 3) { al.push_back(3); al.push_back(n / 2 + 1); al.push_back(n - 3); al.push_back(n / 3); }
                std::sort(al.begin(), al.end()); al.erase(std::unique(al.begin(), al.end()), al.end());
                uint64_t tot = 1; for (unsigned d = 0; d < D; ++d) tot *= al.size();
                for (uint64_t k = 0; k < tot && !vk::failed(); ++k) { std::array<uint32_t, D> c; uint64_t r = k; for (unsigned d = 0; d < D; ++d, r /= al.size()) c[d] = al[r % al.size()]; check_cell<D>(c, l, true); }
                vk::states(tot); vk::traces(tot); vk::count("cells", tot);
            }
        }, 300);
        // pairs
        const unsigned pb = vk::thorough() ? 15 : 12;
        if (D * l <= pb + 1) {
            const unsigned parts = D * l >= 10 ? 32 : 1;
            for (unsigned part = 0; part < parts; ++part) vk::unit(vk::fmt("pairs-d%u-l%u-%u", D, l, part), [=] {
                if (!vk::begin("d=%u level %u: all pairs of cells (part %u of %u)", D, l, part, parts)) return;
                const uint64_t n = G::cells(l), f = G::first(l); uint64_t cnt = 0;
                std::vector<std::array<uint32_t, D>> c(n); for (uint64_t k = 0; k < n; ++k) c[k] = G::coords(k);
                for (uint64_t x = part; x < n; x += parts) for (uint64_t y = 0; y < n; ++y, ++cnt) if (!check_pair<D>(c[x], c[y], l, f + x, f + y)) return;
                vk::states(cnt); vk::traces(cnt); vk::transitions(2 * cnt); vk::count("cell_pairs", cnt);
                vk::sample(vk::fmt("d=%u level %u: %llu ordered pairs of cells", D, l, (unsigned long long)cnt));
            }, 600);
        } else {
            vk::unit(vk::fmt("pairs-d%u-l%u-alphabet", D, l), [=] {
                if (!vk::begin("d=%u level %u: all pairs over a coordinate alphabet", D, l)) return;
                const uint32_t n = 1u << l; const uint64_t f = G::first(l);
                std::vector<uint32_t> al{0, 1, n - 1};
                if (D <= 4) { al.push_back(n / 2); }
                if (D <= 3) { al.push_back(2); al.push_back(n - 2); al.push_back(n / 2 - 1); }
                if (D <= 2) { al.push_back(3); al.push_back(n / 2 + 1); al.push_back(n / 4); al.push_back(n - 3); }
                std::sort(al.begin(), al.end()); al.erase(std::unique(al.begin(), al.end()), al.end());
                std::vector<std::array<uint32_t, D>> c; uint64_t tot = 1; for (unsigned d = 0; d < D; ++d) tot *= al.size();
                for (uint64_t k = 0; k < tot; ++k) { std::array<uint32_t, D> v; uint64_t r = k; for (unsigned d = 0; d < D; ++d, r /= al.size()) v[d] = al[r % al.size()]; c.push_back(v); }
                uint64_t cnt = 0;
                for (auto& x : c) for (auto& y : c) { ++cnt; if (!check_pair<D>(x, y, l, f + G::local(x), f + G::local(y))) return; }
                vk::states(cnt); vk::traces(cnt); vk::transitions(2 * cnt); vk::count("cell_pairs", cnt);
            }, 600);
        }
    }
}

int main(int argc, char** argv) {
    reg<1>(); reg<2>(); reg<3>(); reg<4>(); reg<5>();
    return vk::main(argc, argv, "c12");
}
