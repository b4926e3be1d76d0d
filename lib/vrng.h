// Force-included in front of everything: std::mt19937_64 becomes an engine whose values are decided by the harness.
// A value is a function of the engine's seed and of its position in the stream, so engines that are seeded alike (or
// copied) produce the same numbers, as the real engine does.
#pragma once
#include <random>
#include <iosfwd>
#include <cstdint>
#include <cstddef>

namespace vrng {
using Hook = uint64_t (*)(uint64_t key, bool from_sequence, uint64_t pos);
extern Hook hook;
inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
}

namespace std {
class verif_mt64 {
public:
    typedef uint_fast64_t result_type;
    static constexpr size_t word_size = 64;
    static constexpr size_t state_size = 3;
    static constexpr result_type default_seed = 5489u;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~result_type(0); }
    verif_mt64() { seed(); }
    explicit verif_mt64(result_type s) { seed(s); }
    template <class Sseq, class = typename enable_if<is_class<Sseq>::value && !is_same<typename remove_cv<Sseq>::type, verif_mt64>::value>::type>
    explicit verif_mt64(Sseq& q) { seed(q); }
    void seed(result_type s = default_seed) { key = s; seq = false; pos = 0; }
    template <class Sseq, class = typename enable_if<is_class<Sseq>::value>::type>
    void seed(Sseq& q) {
        uint32_t a[6]; q.generate(a, a + 6);
        key = 0; for (int i = 0; i < 6; ++i) key = vrng::mix(key ^ a[i]);
        seq = true; pos = 0;
    }
    result_type operator()() { return vrng::hook(key, seq, pos++); }
    void discard(unsigned long long z) { pos += z; }
    friend bool operator==(const verif_mt64& a, const verif_mt64& b) { return a.key == b.key && a.seq == b.seq && a.pos == b.pos; }
    friend bool operator!=(const verif_mt64& a, const verif_mt64& b) { return !(a == b); }
private:
    uint64_t key = 0, pos = 0; bool seq = false;
};
}
#define mt19937_64 verif_mt64
