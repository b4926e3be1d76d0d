// vk: small kit for exhaustive-enumeration harnesses.
//
// A harness registers units (named, deterministic enumerations). Inside a unit every case is announced with
// vk::begin(...), which returns false if the case is to be skipped (resume after a crash, or replay of another case).
// Worker processes pull units from a shared counter; the parent watches them, turns crashes and hangs into failures of the
// announced case, replays every failure in a fresh process before it is reported, and prints one JSON object.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace vk {

bool thorough();                       // tier
void unit(const std::string& name, std::function<void()> fn, double case_timeout = 60.0);
bool begin(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // refine the description of the running case
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // the running case violates the property
void fatal_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn)); // as fail, and abandon the rest of the unit
bool failed();                         // the running case has failed
bool unit_saturated();                 // enough failures in this unit: stop early

void state(uint64_t hash);             // a visited state / distinct outcome (counted distinct over all workers)
void states(uint64_t n);               // n further states that are distinct by construction of the enumeration
void transitions(uint64_t n = 1);      // steps taken
void traces(uint64_t n = 1);           // executions of the implementation compared with the model
void count(const char* name, uint64_t n = 1);   // further named counters
void maxi(const char* name, uint64_t v);        // named maxima
void sample(const std::string& s);     // a case written out (a few per unit are kept)
void not_exhaustive(const char* why);  // a cap was hit

int main(int argc, char** argv, const char* harness);

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
    return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return mix(h, n);
}
template <class T> uint64_t hash_vec(const std::vector<T>& v, uint64_t h = 0) {
    return v.empty() ? mix(h, 77) : hash_bytes(v.data(), v.size() * sizeof(T), mix(h, v.size()));
}
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

} // namespace vk
