// C15 (weights), C16 (positions), C17 (radii, angles): every output must be the image of a random variate of its own.
// The engines are controlled: (1) all draws return one grid value: the image of every grid value is compared with the
// distribution function in long double; (2) every draw of an engine returns a value of its own (a table over (seed, position)):
// from every output the variate it was made from is recovered, no variate may be used twice.
#include "vk.h"
#include "vrng.h"
#include "mcrt.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <unordered_map>
#include <vector>
#include <omp.h>
#if PROP == 17
#include <hypergirgs/Generator.h>
#else
#include <girgs/Generator.h>
#endif
typedef long double ld;
static const ld TWO64 = 18446744073709551616.0L;
static const double PI2 = 6.283185307179586476925286766559;

static uint64_t constant;
static uint64_t draws;
static uint64_t const_hook(uint64_t, bool, uint64_t) { if (++draws > 50000000) vk::fatal_fail("more than 5e7 draws"); return constant; }

// table of draws: index in order of first use; value = bit-reversed index
struct KeyHash { size_t operator()(const std::pair<uint64_t, uint64_t>& k) const { return vk::mix(k.first, k.second); } };
static std::unordered_map<std::pair<uint64_t, uint64_t>, uint32_t, KeyHash> table;
static int shift_by;
static int BITS = 23;   // set per call: 2^BITS variates in the table
static uint32_t reverse_bits(uint32_t x) { x += (uint32_t)shift_by; uint32_t r = 0; for (int i = 0; i < BITS; ++i) r |= (x >> i & 1u) << (BITS - 1 - i); return r; }
static uint64_t table_hook(uint64_t key, bool seq, uint64_t pos) {
    auto it = table.emplace(std::make_pair(key * 2 + seq, pos), (uint32_t)table.size()).first;
    if (table.size() > (1u << BITS)) vk::fatal_fail("more than %d draws", 1 << BITS);
    return ((uint64_t)reverse_bits(it->second) << (64 - BITS)) + (1ull << (63 - BITS));
}

// one output: u = value of the distribution function, tolerance in u
struct Image { ld u, tol; };
static bool describe_ok(const Image& i, ld u) { return fabsl(i.u - u) <= i.tol || fabsl(i.u - (1 - u)) <= i.tol; }

static std::vector<uint64_t> grid(size_t n) {
    std::vector<uint64_t> g{0, 1, 1ull << 10, 1ull << 11, (1ull << 11) + 1, 1ull << 12, 3ull << 11, ~0ull, ~0ull - 1, ~0ull - 1023, ~0ull - 1024, ~0ull - 2047, ~0ull - 2048, ~0ull - 4096, ~0ull - (1ull << 14)};
    for (int i = 13; i < 64; i += n > 1000 ? 10 : 1) for (long long o : {-2049ll, -1ll, 0ll, 1ll, 2048ll}) { g.push_back((1ull << i) + o); g.push_back(~((1ull << i) + o)); }
    const int k = n > 1000 ? 16 : vk::thorough() ? 4096 : 256;
    for (int i = 0; i < k; ++i) { g.push_back((uint64_t)i * (~0ull / k)); g.push_back((uint64_t)i * (~0ull / k) + 12345); }
    std::sort(g.begin(), g.end()); g.erase(std::unique(g.begin(), g.end()), g.end());
    return g;
}

struct Call {  // one sampling call; values in the order of nodes, flattened
    std::string name;
    std::function<std::vector<double>(int seed, bool parallel, std::string& err)> run;
    std::function<Image(size_t i, double x, std::string& err)> image;
    size_t n;
};

#if PROP == 15
static Call make(int n, double ple) {
    return {vk::fmt("generateWeights n=%d ple=%.17g", n, ple),
        [=](int seed, bool par, std::string& err) { auto w = girgs::generateWeights(n, ple, seed, par); if (w.size() != (size_t)n) err = vk::fmt("%zu weights instead of %d", w.size(), n); return w; },
        [=](size_t, double w, std::string& err) {
            if (!(w >= 1 - 1e-15)) err = vk::fmt("weight %.17g below 1", w);
            if (!(w <= 0.5 * n * (1 + 1e-12))) err = vk::fmt("weight %.17g above n/2", w);
            const ld e = 1 - (ld)ple, top = powl(0.5L * n, e);
            if (n == 2) return Image{0, 1}; // all weights are 1
            return Image{(powl(w, e) - 1) / (top - 1), 4e-16L * (1 + (ld)ple) / (1 - top)};
        }, (size_t)n};
}
#elif PROP == 16
static Call make(int n, int d) {
    return {vk::fmt("generatePositions n=%d d=%d", n, d),
        [=](int seed, bool par, std::string& err) {
            auto p = girgs::generatePositions(n, d, seed, par); std::vector<double> r;
            if (p.size() != (size_t)n) err = vk::fmt("%zu positions instead of %d", p.size(), n);
            for (auto& x : p) { if (x.size() != (size_t)d) err = vk::fmt("a position has %zu coordinates", x.size()); r.insert(r.end(), x.begin(), x.end()); }
            return r; },
        [=](size_t, double x, std::string& err) { if (!(x >= 0 && x < 1)) err = vk::fmt("coordinate %.17g outside [0,1)", x); return Image{(ld)x, 2.3e-16L}; }, (size_t)n * d};
}
#else
static Image radius_image(double r, double alpha, double R, std::string& err) {
    if (!(r > 0 && r < R)) err = vk::fmt("radius %.17g outside (0,%.17g)", r, R);
    const ld a = alpha, c = 2 * sinhl(a * R / 2) * sinhl(a * R / 2);
    return Image{2 * sinhl(a * r / 2) * sinhl(a * r / 2) / c, 1e-13L * (1 + R) + 1e-15L * (1 + 1 / c)};
}
static Image angle_image(double x, std::string& err) {
    if (!(x >= 0 && x < PI2)) err = vk::fmt("angle %.17g outside [0,2*pi)", x);
    return Image{x / 6.283185307179586476925286766559005768L, 1e-15L};
}
static Call make(int what, int n, double alpha, double R) {
    auto size = [=](const std::vector<double>& v, std::string& err) { if (v.size() != (size_t)n) err = vk::fmt("%zu values instead of %d", v.size(), n); };
    if (what == 0) return {vk::fmt("sampleRadii n=%d alpha=%.17g R=%.17g", n, alpha, R),
        [=](int seed, bool par, std::string& err) { auto r = hypergirgs::sampleRadii(n, alpha, R, seed, par); size(r, err); return r; },
        [=](size_t, double r, std::string& err) { return radius_image(r, alpha, R, err); }, (size_t)n};
    if (what == 1) return {vk::fmt("sampleAngles n=%d", n),
        [=](int seed, bool par, std::string& err) { auto r = hypergirgs::sampleAngles(n, seed, par); size(r, err); return r; },
        [=](size_t, double r, std::string& err) { return angle_image(r, err); }, (size_t)n};
    return {vk::fmt("sampleRadiiAndAngles n=%d alpha=%.17g R=%.17g", n, alpha, R),
        [=](int seed, bool par, std::string& err) { auto r = hypergirgs::sampleRadiiAndAngles(n, alpha, R, seed, par); size(r.first, err); size(r.second, err); r.first.insert(r.first.end(), r.second.begin(), r.second.end()); return r.first; },
        [=](size_t i, double r, std::string& err) { return i < (size_t)n ? radius_image(r, alpha, R, err) : angle_image(r, err); }, (size_t)n * 2};
}
#endif

static void constants(const Call& c) {
    if (!vk::begin("%s, all draws equal", c.name.c_str())) return;
    vrng::hook = const_hook; omp_set_num_threads(1);
    std::vector<double> last; std::vector<int> dir(c.n, 0);
    for (uint64_t v : grid(c.n)) {
        constant = v; draws = 0; std::string err;
        auto x = c.run(7, v & 1, err); vk::transitions(); vk::traces(); vk::states(1);
        const ld u = v / TWO64;
        for (size_t i = 0; i < x.size() && err.empty(); ++i) {
            auto im = c.image(i, x[i], err);
            if (err.empty() && !describe_ok(im, u)) err = vk::fmt("value %zu is %.17g, where the distribution function is %.17Lg", i, x[i], im.u);
            if (!last.empty() && err.empty() && x[i] != last[i]) { int d = x[i] > last[i] ? 1 : -1; if (dir[i] == -d) err = vk::fmt("value %zu is not monotone in its variate", i); dir[i] = d; }
        }
        if (!err.empty()) return vk::fail("all draws return %llu / 2^64 = %.17Lg: %s", (unsigned long long)v, u, err.c_str());
        last = x;
    }
    vk::maxi("grid_values", grid(c.n).size());
}

static void own_variates(const Call& c, int threads, int order, int cap, int seed, bool par, int shift) {
    if (!vk::begin("%s, own draws; threads=%d delivered=%d order=%d seed=%d parallel=%d table offset %d", c.name.c_str(), threads, cap ? cap : threads, order, seed, par, shift)) return;
    BITS = c.n > 20000 ? (c.n > 500000 ? 23 : 21) : 17; vrng::hook = table_hook; table.clear(); shift_by = shift; mc::set_default_order(order); mc::set_team_cap(cap); omp_set_num_threads(threads);
    mc::max_team_seen();
    std::string err; auto x = c.run(seed, par, err);
    mc::set_default_order(0); mc::set_team_cap(0); omp_set_num_threads(1);
    vk::transitions(); vk::traces(); vk::states(x.size()); vk::maxi("largest_team", mc::max_team_seen());
    if (!err.empty()) return vk::fail("%s", err.c_str());
    const uint32_t M = 1u << BITS;
    std::vector<uint8_t> used(M, 0);
    std::vector<uint8_t> drawn(M, 0); for (auto& t : table) drawn[reverse_bits(t.second) % M] = 1;
    // the image is increasing or decreasing; both are accepted, but one for all
    for (int flip = 0; flip < 2; ++flip) {
        std::fill(used.begin(), used.end(), 0); err.clear();
        for (size_t i = 0; i < x.size() && err.empty(); ++i) {
            auto im = c.image(i, x[i], err); if (!err.empty()) break;
            if (im.tol >= 1e-8L) continue; // the distribution is too narrow to recover variates
            ld u = flip ? 1 - im.u : im.u; long long k = (long long)floorl(u * M);
            if (k < 0 || k >= M || fabsl(u - (k + 0.5L) / M) > im.tol + 1e-10L) { err = vk::fmt("value %zu = %.17g is not the image of a variate that was drawn", i, x[i]); break; }
            if (!drawn[k]) { err = vk::fmt("value %zu = %.17g is not the image of a variate that was drawn (%.17Lg)", i, x[i], u); break; }
            if (used[k]) { err = vk::fmt("value %zu = %.17g is made from a variate that another value was already made from", i, x[i]); break; }
            used[k] = 1;
        }
        if (err.empty()) return;
    }
    vk::fail("%s", err.c_str());
}

#ifndef SUB
#define SUB 0
#endif
int main(int argc, char** argv) {
    std::vector<int> ns{0, 1, 2, 3, 4, 5, 7, 16, 17, 100, 1000};
    std::vector<int> big{9999, 10000, 10001, 19999, 20000, 20001, 29999, 30001, 40007, 80000, 160000, 165000};
    if (vk::thorough()) for (int k = 3; k < 17; ++k) for (int o : {-1, 0, 1}) big.push_back(k * 10000 + o);
    std::sort(big.begin(), big.end()); big.erase(std::unique(big.begin(), big.end()), big.end());
    if (SUB && !vk::thorough()) big = {9999, 10000, 20000, 30001}; // assertion build: less
    auto many = [&](std::function<Call(int)> mk, const std::string& name, int per_node) {
        for (int n : ns) if (n >= (PROP == 15 ? 2 : 0)) vk::unit("grid:" + name + vk::fmt(":n%d", n), [=] { constants(mk(n)); });
        for (int n : ns) if (n >= (PROP == 15 ? 3 : 0)) vk::unit("own:" + name + vk::fmt(":n%d", n), [=] {
            for (int t : {1, 2, 3, 16}) for (int seed : {0, 1, 12, 2147483647, -1}) for (int par : {0, 1}) for (int o : {0, 1}) own_variates(mk(n), t, o, 0, seed, par, n * 31 + seed % 7);
        });
        for (int n : big) vk::unit("big:" + name + vk::fmt(":n%d", n), [=] {
            std::vector<int> ts{1, 2, 3, 4, 16}; if (vk::thorough()) ts = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 32};
            for (int t : ts) for (int o : {0, 1, 2}) for (int seed : {12, 2147483640}) {
                if (!vk::thorough() && (o && seed != 12)) continue;
                own_variates(mk(n), t, o, 0, seed, true, t);
                if (t > 2 && !o) for (int cap = 1; cap < t && cap < 17; cap += vk::thorough() ? 1 : 2) own_variates(mk(n), t, o, cap, seed, true, t);
                if (!o) own_variates(mk(n), t, o, 0, seed, false, t);
            }
            own_variates(mk(n), 16, 0, 0, -1, true, 5);
        }, 120);
    };
#if PROP == 15
    std::vector<double> ples{2.0001, 2.1, 2.5, 2.9, 3, 3.5, 10};
    if (vk::thorough()) for (double p = 2.05; p < 6; p += 0.05) ples.push_back(p);
    for (double ple : ples) many([=](int n) { return make(n, ple); }, vk::fmt("ple%g", ple), 1);
    for (double ple : {2.1, 2.5, 3.0}) for (int n : {10000, 100000}) vk::unit(vk::fmt("grid:ple%g:n%d", ple, n), [=] { constants(make(n, ple)); }, 300);
#elif PROP == 16
    for (int d = 1; d <= 5; ++d) if (vk::thorough() || d != 3) many([=](int n) { return make(n, d); }, vk::fmt("d%d", d), d);
#else
    many([=](int n) { return make(1, n, 1, 1); }, "angles", 1);
    std::vector<double> Rs{0.1, 1, 2, 5, 10, 12.3456789, 20, 24, 33.3, 40, 100}, alphas{0.5001, 0.6, 0.75, 0.9, 1, 1.5};
    for (double R : Rs) for (double a : alphas) {
        if (!vk::thorough() && a != 0.75 && a != 1 && R != 10 && R != 20) continue;
        for (int n : {1, 2, 5}) for (int w : {0, 2}) vk::unit(vk::fmt("grid:%s:R%g:a%g:n%d", w ? "joint" : "radii", R, a, n), [=] { constants(make(w, n, a, R)); });
    }
    for (double R : {1.0, 10.0, 24.0}) for (int w : {0, 2}) { double a = R == 10 ? 0.6 : 0.9; many([=](int n) { return make(w, n, a, R); }, vk::fmt("%s:R%g", w ? "joint" : "radii", R), w ? 2 : 1); }
#endif
    return vk::main(argc, argv, "c15");
}
