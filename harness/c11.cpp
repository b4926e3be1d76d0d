// C11: cell numbering = bit interleaving, bijective, on every implementation; all 2^32 cell numbers.
#include "vk.h"
#include <array>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <girgs/BitManipulation.h>
using namespace girgs;

// reference: bit k of coordinate i <-> bit k*D+i of the cell
template <unsigned D> static std::array<uint32_t, D> ref_extract(uint32_t cell) {
    std::array<uint32_t, D> c{};
    for (unsigned b = 0; b < 32; ++b) if (cell >> b & 1) c[b % D] |= 1u << (b / D);
    return c;
}
template <unsigned D> static uint32_t ref_deposit(const std::array<uint32_t, D>& c) {
    uint32_t x = 0;
    for (unsigned b = 0; b < 32; ++b) if (c[b % D] >> (b / D) & 1) x |= 1u << b;
    return x;
}

template <unsigned D, class Impl> static void sweep(const char* name, uint64_t from, uint64_t to) {
    if (!vk::begin("%s d=%u cells [%llu,%llu)", name, D, (unsigned long long)from, (unsigned long long)to)) return;
    uint64_t bad = 0, acc = 0;
    // the low 16 bits and the high 16 bits contribute independently in the reference
    std::array<uint32_t, D> hi{};
    static std::array<uint32_t, D> lowtab[1 << 16]; static bool init = false;
    if (!init) { init = true; for (uint32_t i = 0; i < (1u << 16); ++i) lowtab[i] = ref_extract<D>(i); }
    for (uint64_t c = from; c < to; ++c) {
        uint32_t cell = (uint32_t)c;
        if (c == from || !(cell & 0xffff)) hi = ref_extract<D>(cell & 0xffff0000u);
        const auto& lo = lowtab[cell & 0xffff];
        auto e = Impl::extract(cell);
        bool ok = true;
        for (unsigned d = 0; d < D; ++d) ok &= e[d] == (lo[d] | hi[d]);
        std::array<uint32_t, D> r; for (unsigned d = 0; d < D; ++d) r[d] = lo[d] | hi[d];
        // encoding is defined for coordinates of floor(32/d) bits
        const bool fits = (uint64_t)cell < 1ull << (32 / D * D);
        uint32_t back = fits ? Impl::deposit(r) : cell;
        ok &= back == cell;
        acc += back;
        if (!ok && !bad++) {
            std::string s; for (unsigned d = 0; d < D; ++d) s += vk::fmt("%s%u/%u", d ? "," : "", e[d], r[d]);
            vk::fail("%s d=%u cell %u: extract/expected (%s), deposit gives %u", name, D, cell, s.c_str(), back);
            break;
        }
    }
    vk::states(to - from); vk::transitions(2 * (to - from)); vk::traces(to - from);
    vk::count("cells", to - from);
    vk::sample(vk::fmt("%s d=%u all cells in [%llu,%llu), checksum %llx", name, D, (unsigned long long)from, (unsigned long long)to, (unsigned long long)acc));
}

template <unsigned D, class Impl> static void reg(const std::string& name) {
    const uint64_t N = 1ull << 32, S = 1ull << 26;
#ifdef NDEBUG
    const bool all = true;
#else
    const bool all = vk::thorough();
#endif
    for (uint64_t f = 0; f < N; f += S) {
        // assertion build, quick tier: first, middle and last slices only
        if (!all && !(f == 0 || f == N - S || f == N / 2)) continue;
        vk::unit(vk::fmt("%s-d%u-%llu", name.c_str(), D, (unsigned long long)(f / S)), [=] { sweep<D, Impl>(name.c_str(), f, f + S); }, 300);
    }
}

int main(int argc, char** argv) {
#ifdef USE_BMI2
    const std::string name = "bmi2";
    const bool run = __builtin_cpu_supports("bmi2");
#else
    const std::string name = "generic";
    const bool run = true;
#endif
    if (run) {
        reg<1, BitManipulation<1>>(name); reg<2, BitManipulation<2>>(name); reg<3, BitManipulation<3>>(name);
        reg<4, BitManipulation<4>>(name); reg<5, BitManipulation<5>>(name);
    }
    return vk::main(argc, argv, "c11");
}
