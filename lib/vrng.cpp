#include "vrng.h"
namespace vrng {
static uint64_t hashed(uint64_t key, bool seq, uint64_t pos) { return mix(mix(key * 2 + seq) ^ mix(pos + 0x51ed2701ull)); }
Hook hook = hashed;
}
constexpr size_t std::verif_mt64::word_size, std::verif_mt64::state_size;
constexpr std::verif_mt64::result_type std::verif_mt64::default_seed;
