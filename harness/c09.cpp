// C09: the integer sort against std::stable_sort, every short sequence over boundary alphabets, long ones over patterns.
// Compiled twice: the two libraries carry a copy each.
#include "vk.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <limits>
#ifdef COPY_HYPER
#include <hypergirgs/IntSort.h>
#else
#include <girgs/IntSort.h>
#endif
#ifdef VERIF_MCRT
#include "mcrt.h"
#endif
#include <omp.h>

template <class K> struct El { K key; uint32_t id; bool operator==(const El& o) const { return key == o.key && id == o.id; } };
template <class K> struct Ex { K operator()(const El<K>& e) const { return e.key; } };

// copies of the elements through one of the container interfaces
template <class K, size_t W>
static void run_sort(int iface, std::vector<El<K>>& v, K max_key) {
    typedef El<K> T;
    if (iface == 0) intsort::intsort<T, Ex<K>, K, W>(v, Ex<K>(), max_key);
    else if (iface == 1) intsort::intsort<typename std::vector<T>::iterator, Ex<K>, K, W>(v.begin(), v.end(), Ex<K>(), max_key);
    else if (iface == 2) { std::unique_ptr<T[]> p(new T[v.size()]); std::copy(v.begin(), v.end(), p.get()); intsort::intsort<T, Ex<K>, K, W>(p, v.size(), Ex<K>(), max_key); std::copy(p.get(), p.get() + v.size(), v.begin()); }
    else { std::shared_ptr<T[]> p(new T[v.size()]); std::copy(v.begin(), v.end(), p.get()); intsort::intsort<T, Ex<K>, K, W>(p, v.size(), Ex<K>(), max_key); std::copy(p.get(), p.get() + v.size(), v.begin()); }
    vk::transitions();
}
static const char* IF[] = {"vector", "iterators", "unique_ptr", "shared_ptr"};

template <class K> static bool compare(const std::vector<El<K>>& in, const std::vector<El<K>>& out) {
    vk::traces();
    if (in.size() != out.size()) { vk::fail("%zu elements became %zu", in.size(), out.size()); return false; }
    // sorted by (key, input position) and a permutation: the only stable result
    std::vector<bool> seen(in.size(), false);
    for (size_t i = 0; i < out.size(); ++i) {
        const auto& e = out[i];
        if (e.id >= in.size() || !(in[e.id] == e)) { vk::fail("position %zu holds an element (key %llu, id %u) that is not in the input", i, (unsigned long long)e.key, e.id); return false; }
        if (seen[e.id]) { vk::fail("input position %u occurs twice, again at position %zu", e.id, i); return false; }
        seen[e.id] = true;
        if (i && (out[i - 1].key > e.key || (out[i - 1].key == e.key && out[i - 1].id > e.id))) {
            vk::fail("positions %zu and %zu: key %llu of input position %u before key %llu of input position %u", i - 1, i, (unsigned long long)out[i - 1].key, out[i - 1].id, (unsigned long long)e.key, e.id); return false; }
    }
    return true;
}

template <class K> static std::vector<K> boundaries() {
    std::vector<K> m;
    const uint64_t top = std::numeric_limits<K>::max();
    for (uint64_t x = 0; x <= 40; ++x) if (x <= top) m.push_back(x);
    for (int b = 5; b < 64; ++b) for (int64_t o : {-2, -1, 0, 1, 2}) { uint64_t x = (uint64_t(1) << b) + o; if (x <= top) m.push_back(x); }
    for (int b = 6; b < 64; b += 3) { uint64_t x = (uint64_t(3) << (b - 1)) + 1; if (x <= top && x > 40) m.push_back(x); }
    m.push_back(top); m.push_back(top - 1);
    std::sort(m.begin(), m.end()); m.erase(std::unique(m.begin(), m.end()), m.end());
    return m;
}

// every sequence of up to len letters
template <class K, size_t W> static void sequences(K max_key, const std::vector<K>& al, size_t len, int ifaces) {
    for (size_t n = 0; n <= len; ++n) {
        std::vector<size_t> ix(n, 0);
        while (true) {
            std::vector<El<K>> in(n);
            for (size_t i = 0; i < n; ++i) { memset((void*)&in[i], 0, sizeof in[i]); in[i].key = al[ix[i]]; in[i].id = i; }
            for (int f = 0; f < 4; ++f) if (ifaces >> f & 1) {
                auto out = in; run_sort<K, W>(f, out, max_key);
                if (!compare(in, out)) { std::string s; for (auto& e : in) s += vk::fmt(" %llu", (unsigned long long)e.key); vk::note("%s, keys%s", IF[f], s.c_str()); return; }
            }
            vk::states(1);
            size_t i = 0; while (i < n && ++ix[i] == al.size()) ix[i++] = 0;
            if (i == n) break;
        }
    }
}

template <class K, size_t W> static void small_units(const char* kn) {
    for (int slice = 0; slice < 8; ++slice) vk::unit(vk::fmt("small-%s-w%zu-%d", kn, W, slice), [=] {
        const bool wide = W > 11;
        int number = 0;
        for (K m : boundaries<K>()) {
            if (number++ % 8 != slice) continue;
            const uint64_t M = m;
            if (wide && !vk::thorough() && M > 3 && (M < 65534 || M > 131074) && M < 0xfffffffeull) continue;
            if (!vk::begin("%s keys, radix width %zu, max_key %llu", kn, W, (unsigned long long)m)) continue;
            // letters that differ in the low digit, in the high digit, in the very top bit, and equal keys
            std::vector<uint64_t> l{0, M, M ? M - 1 : 0, M / 2, M / 2 + 1};
            if (!wide) for (uint64_t x : {uint64_t(1), uint64_t(1) << W, (uint64_t(1) << W) - 1, M >> W, M ^ 1}) l.push_back(x);
            std::vector<K> al; for (auto x : l) if (x <= M && std::find(al.begin(), al.end(), (K)x) == al.end()) al.push_back((K)x);
            auto few = al; if (few.size() > 4) few.resize(4);
            sequences<K, W>(m, al, wide ? 2 : vk::thorough() ? 4 : 3, wide ? 1 : 15);
            if (vk::failed()) continue;
            sequences<K, W>(m, few, wide ? 3 : vk::thorough() ? 6 : 5, wide ? 1 : 3);
        }
        vk::sample(vk::fmt("%zu values of max_key, all sequences of up to 3 of <=10 boundary keys and up to 5 of 4", boundaries<K>().size()));
    });
    // every key occurs, several times
    vk::unit(vk::fmt("dense-%s-w%zu", kn, W), [=] {
        for (uint64_t M = 0; M <= (vk::thorough() ? 4200 : 600); M += M < 300 ? 1 : 37) {
            if (M > std::numeric_limits<K>::max()) break;
            if (!vk::begin("%s keys, radix width %zu, max_key %llu, all keys", kn, W, (unsigned long long)M)) continue;
            for (uint64_t step : {uint64_t(1), uint64_t(5), M / 2 + 1}) {
                std::vector<El<K>> in; 
                for (uint64_t i = 0; i < 2 * (M + 1); ++i) { El<K> e; memset((void*)&e, 0, sizeof e); e.key = (i * step + step) % (M + 1); e.id = i; in.push_back(e); }
                for (int f : {0, 1}) { auto out = in; run_sort<K, W>(f, out, (K)M); vk::states(1); if (!compare(in, out)) break; }
            }
            if (vk::unit_saturated()) return;
        }
    });
}

// declared maximum larger than any key present, default maximum
template <class K> static void default_max(const char* kn) {
    vk::unit(vk::fmt("default-max-%s", kn), [=] {
        if (!vk::begin("%s keys, max_key left at its default", kn)) return;
        typedef El<K> T;
        for (int n = 0; n < 40; ++n) {
            std::vector<T> in(n); for (int i = 0; i < n; ++i) { memset((void*)&in[i], 0, sizeof in[i]); in[i].key = i % 3 == 0 ? std::numeric_limits<K>::max() - i % 5 : (i * 37) % 11; in[i].id = i; }
            auto out = in; intsort::intsort<T, Ex<K>, K>(out, Ex<K>()); vk::transitions(); vk::states(1);
            if (!compare(in, out)) return;
            out = in; intsort::intsort<typename std::vector<T>::iterator, Ex<K>, K>(out.begin(), out.end(), Ex<K>()); vk::transitions();
            if (!compare(in, out)) return;
        }
    });
}

// lengths that engage several threads
template <size_t W> static void long_units() {
    typedef uint32_t K;
    for (int threads : {1, 2, 3, 4, 5, 7, 8, 16}) vk::unit(vk::fmt("long-t%d-w%zu", threads, W), [=] {
        for (int k : {1, 2, 3, 4, 8}) for (int o : {-1, 0, 1}) for (uint32_t M : {1u, 2u, 255u, 256u, 65537u, 0x00ffffffu, 0x80000000u, 0xffffffffu}) {
            const size_t n = (size_t(k) << 17) + o;
            if (k == 8 && M != 256u && M != 0xffffffffu) continue;
            if (!vk::thorough() && ((M == 2 || M == 255 || M == 0x80000000u || M == 0x00ffffffu) || k == 4 || threads == 4 || threads == 7)) continue;
            const int team = std::min<int>(threads, (n + (1 << 17) - 1) >> 17); const size_t chunk = (n + team - 1) / team;
            for (int pat = 0; pat < 6; ++pat) for (int order = 0; order < (pat == 4 ? 3 : 1); ++order) {
                if (k == 8 && pat < 4 && !vk::thorough()) continue;
                if (!vk::begin("n=%zu threads=%d max_key=%u pattern %d, radix width %zu, thread order %d", n, threads, M, pat, W, order)) continue;
                std::vector<El<K>> in(n);
                for (size_t i = 0; i < n; ++i) {
                    uint32_t x = 0;
                    if (pat == 0) x = M; if (pat == 1) x = (uint32_t)((unsigned __int128)i * M / (n - 1)); if (pat == 2) x = M - (uint32_t)((unsigned __int128)i * M / (n - 1));
                    if (pat == 3) x = i % 2 ? 0 : M;
                    if (pat == 4) { uint32_t h = i * 2654435761u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; x = M == 0xffffffffu ? h : h % (M + 1); }
                    if (pat == 5) x = (i % chunk) < 2 || (i % chunk) + 2 > chunk ? M : M / 2;  // chunk borders
                    in[i] = {x, (uint32_t)i};
                }
#ifdef VERIF_MCRT
                mc::set_default_order(order);
#endif
                omp_set_num_threads(threads);
                auto out = in; run_sort<K, W>(pat % 2, out, M); vk::states(1); compare(in, out);
            }
        }
    });
}
#ifdef VERIF_MCRT
// all interleavings of the team
static void schedule_units() {
    for (int threads : {2, 3}) vk::unit(vk::fmt("schedules-t%d", threads), [=] {
        typedef uint32_t K;
        const size_t n = (size_t(threads - 1) << 17) + 1;
        for (uint32_t M : {1u, 300u, 0xffffffffu}) {
            if (!vk::begin("n=%zu threads=%d max_key=%u, all schedules", n, threads, M)) continue;
            omp_set_num_threads(threads);
            std::vector<El<K>> in(n); for (size_t i = 0; i < n; ++i) { uint32_t h = i * 2654435761u; h ^= h >> 15; in[i] = {M == 0xffffffffu ? h : h % (M + 1), (uint32_t)i}; }
            auto ref = in; std::stable_sort(ref.begin(), ref.end(), [](const El<K>& a, const El<K>& b) { return a.key < b.key; });
            std::vector<El<K>> out;
            mc::Options o; o.preemptions = threads == 2 ? -1 : vk::thorough() ? 3 : 2;
            if (threads == 3 && !vk::thorough()) o.max_schedules = 0;
            auto st = mc::explore(o, [&] { out = in; run_sort<K, 8>(0, out, M); }, [&] {
                vk::traces();
                if (!(out == ref)) { vk::fail("wrong result on schedule %s", mc::schedule().c_str()); return false; }
                return true;
            }, [&](const std::string& p) { vk::fatal_fail("%s", p.c_str()); });
            vk::states(st.schedules); vk::transitions(st.points); vk::count("schedules", st.schedules); vk::maxi("points_per_schedule", st.max_points);
            if (st.capped) vk::not_exhaustive("schedule cap");
        }
    }, 300);
}
#endif

int main(int argc, char** argv) {
    small_units<uint32_t, 1>("uint32"); small_units<uint32_t, 2>("uint32"); small_units<uint32_t, 3>("uint32"); small_units<uint32_t, 5>("uint32"); small_units<uint32_t, 7>("uint32"); small_units<uint32_t, 8>("uint32"); small_units<uint32_t, 11>("uint32"); small_units<uint32_t, 16>("uint32");
    small_units<uint64_t, 1>("uint64"); small_units<uint64_t, 4>("uint64"); small_units<uint64_t, 8>("uint64"); small_units<uint64_t, 11>("uint64");
    small_units<uint16_t, 3>("uint16"); small_units<uint16_t, 8>("uint16");
    small_units<uint8_t, 3>("uint8"); small_units<uint8_t, 8>("uint8");
    default_max<uint8_t>("uint8"); default_max<uint16_t>("uint16"); default_max<uint32_t>("uint32"); default_max<uint64_t>("uint64");
    long_units<8>(); if (vk::thorough()) long_units<5>();
#ifdef VERIF_MCRT
    schedule_units();
#endif
    return vk::main(argc, argv, "c09");
}
