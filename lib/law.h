// Edge distributions of a sampler whose engines are controlled (vrng): every 64-bit draw is a choice.
// Draws are identified by (engine key, position), so engines that are seeded alike share their draws.
#pragma once
#include "vk.h"
#include "vrng.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>
#ifdef VERIF_MCRT
#include "mcrt.h"
#endif

namespace law {
typedef std::pair<uint64_t, uint64_t> Draw;
typedef std::vector<std::pair<int, int>> Edges;
static const uint64_t HIGH = ~uint64_t(0);

enum Which { INT_SEEDED, SEQUENCE_SEEDED };   // whose draws decide about edges; all others get fixed pseudo-random values
struct State {
    std::map<Draw, uint64_t> set; uint64_t rest = 0; Which which = INT_SEEDED; std::vector<Draw>* consumed = nullptr; uint64_t draws = 0;
};
static State g;
static uint64_t hook(uint64_t key, bool seq, uint64_t pos) {
    if (seq != (g.which == SEQUENCE_SEEDED)) return vrng::mix(vrng::mix(key * 2 + seq) ^ vrng::mix(pos + 77));
    ++g.draws;
    if (g.draws > 2000000) vk::fatal_fail("more than 2000000 random draws for a handful of points: sampling does not end");
    if (g.consumed) g.consumed->push_back({key, pos});
    if (g.set.empty()) return g.rest;
    auto it = g.set.find({key, pos});
    return it == g.set.end() ? g.rest : it->second;
}
struct Range { double lo, hi; };              // probability of a pair, known up to rounding

class Sampler {
public:
    std::function<Edges()> run; int n; std::vector<Range> p; Which which; bool bad = false;
    Sampler(int n_, Which w, std::function<Edges()> r) : run(r), n(n_), p((size_t)n_ * n_, Range{0, 0}), which(w) { vrng::hook = hook; g.set.clear(); g.rest = 0; g.which = w; g.consumed = nullptr; }
    Range& prob(int u, int v) { return p[(size_t)std::min(u, v) * n + std::max(u, v)]; }

    // executes the implementation; edges sorted, lower index first
    Edges execute(std::vector<Draw>* consumed = nullptr) {
        g.consumed = consumed; g.draws = 0; g.which = which;
#ifdef VERIF_MCRT
        mc::reset_points();
#endif
        Edges e = run(); g.consumed = nullptr;
        vk::transitions(); vk::traces();
        for (auto& x : e) {
            if (x.first < 0 || x.second < 0 || x.first >= n || x.second >= n) { bad = true; vk::fail("edge (%d,%d) of %d points", x.first, x.second, n); return {}; }
            if (x.first == x.second) { bad = true; vk::fail("loop at %d", x.first); return {}; }
            if (x.first > x.second) std::swap(x.first, x.second);
        }
        std::sort(e.begin(), e.end());
        for (size_t i = 1; i < e.size(); ++i) if (e[i] == e[i - 1]) { bad = true; vk::fail("edge {%d,%d} is returned more than once", e[i].first, e[i].second); return e; }
        return e;
    }
    Edges with(const std::map<Draw, uint64_t>& m, uint64_t rest, std::vector<Draw>* consumed = nullptr) { g.set = m; g.rest = rest; Edges e = execute(consumed); return e; }

    static uint64_t value(double u) { if (u <= 0) return 0; if (u >= 1) return HIGH; return (uint64_t)((long double)u * 18446744073709551616.0L); }
    // smallest value in (a,b] for which pred holds, pred(a) = false, pred(b) = true
    // (up to a relative error of 1e-11)
    template <class F> uint64_t bisect(uint64_t a, uint64_t b, uint64_t grain, F pred) {
        while (b - a > grain + a / 100000000000ull) { uint64_t m = a + (b - a) / 2; if (pred(m)) b = m; else a = m; }
        return b;
    }
    std::string describe(int u, int v) { auto r = prob(u, v); return vk::fmt("pair {%d,%d} of probability %.17g..%.17g", u, v, r.lo, r.hi); }

    // Every pair's probability inside one big configuration: with all draws accepting (0) every pair must be an edge; each
    // draw may decide about one pair only; the product of the thresholds of a pair's draws must be its probability.
    // grid: further values at which all single-pair draws are tried at once.
    void marginals(const std::vector<double>& grid) {
        std::vector<Draw> draws;
        Edges all = with({}, 0, &draws); if (bad) return;
        std::vector<Range> prod((size_t)n * n, Range{1, 1});
        std::set<std::pair<int, int>> have(all.begin(), all.end());
        uint64_t dropped = 0;
        for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) if (!have.count({u, v})) {
            if (prob(u, v).lo >= 1e-6) return vk::fail("%s is never an edge", describe(u, v).c_str());
            ++dropped;
        }
        std::set<Draw> seen(draws.begin(), draws.end());
        if (seen.size() != draws.size()) return vk::fail("%zu random numbers are used, but only %zu different ones (two engines with the same seed)", draws.size(), seen.size());
        struct Coin { Draw d; std::pair<int, int> pair; double b; };
        std::vector<Coin> coins;
        auto lost = [&](const Edges& e, Edges& out) {
            out.clear(); std::set_difference(all.begin(), all.end(), e.begin(), e.end(), std::back_inserter(out));
            Edges add; std::set_difference(e.begin(), e.end(), all.begin(), all.end(), std::back_inserter(add));
            return add.empty();
        };
        Edges L;
        for (auto& d : draws) {
            std::vector<Draw> now; Edges e = with({{d, HIGH}}, 0, &now); if (bad) return;
            if (!lost(e, L)) return vk::fail("pairs appear when a draw is raised");
            if (L.empty()) { vk::count("draws_without_effect"); continue; }
            const bool same_count = now.size() == draws.size();
            if (L.size() == 1) {
                auto r = prob(L[0].first, L[0].second);
                if (r.hi < 1) { // an ordinary coin?
                    double lo = r.lo * (1 - 1e-9), hi = r.hi * (1 + 1e-9);
                    if (with({{d, value(lo)}}, 0) == all && (hi >= 1 || with({{d, value(hi)}}, 0) != all)) {
                        if (bad) return;
                        auto& q = prod[(size_t)L[0].first * n + L[0].second]; q.lo *= lo; q.hi *= std::min(1.0, hi);
                        if (same_count) coins.push_back({d, L[0], (r.lo + r.hi) / 2});
                        vk::count("direct_coins"); continue;
                    }
                }
            }
            uint64_t b = bisect(0, HIGH, 1 << 4, [&](uint64_t v) { return with({{d, v}}, 0) != all; }); if (bad) return;
            e = with({{d, b}}, 0); if (bad) return; lost(e, L);
            if (L.size() != 1) return vk::fail("one draw decides about %zu pairs at once, first %s", L.size(), L.empty() ? "" : describe(L[0].first, L[0].second).c_str());
            double t = (double)((long double)b / 18446744073709551616.0L);
            auto& q = prod[(size_t)L[0].first * n + L[0].second]; q.lo *= t * (1 - 2e-11) - 1e-16; q.hi *= t * (1 + 2e-11) + 1e-16;
            if (same_count) coins.push_back({d, L[0], t});
            vk::count("skip_or_rejection_draws");
        }
        for (auto& e : all) {
            auto& q = prod[(size_t)e.first * n + e.second]; auto r = prob(e.first, e.second);
            if (q.hi < r.lo * (1 - 2e-9) || q.lo > r.hi * (1 + 2e-9)) return vk::fail("%s is an edge with probability %.17g", describe(e.first, e.second).c_str(), q.lo);
            vk::states(1);
        }
        // every coin must be monotone: one threshold, over the whole grid
        auto sweep = [&](const std::function<double(const Coin&)>& f, const char* what, double par) {
            std::map<Draw, uint64_t> m; for (auto& c : coins) m[c.d] = value(f(c));
            Edges e = with(m, 0); if (bad) return;
            for (auto& c : coins) {
                double x = f(c); auto r = prob(c.pair.first, c.pair.second); double w = r.hi > 0 ? (r.hi - r.lo) / r.hi : 0;
                if (std::abs(x - c.b) <= c.b * (1e-9 + 2 * w) + 1e-15) continue;
                bool in = std::binary_search(e.begin(), e.end(), c.pair);
                if (in != (x < c.b)) { bad = true; return vk::fail("%s, threshold of its draw %.17g: %s at the value %.17g (%s %g)", describe(c.pair.first, c.pair.second).c_str(), c.b, in ? "an edge" : "no edge", x, what, par); }
            }
        };
        for (double f : grid) { sweep([f](const Coin&) { return f; }, "all draws equal", f); if (bad) return;
                                sweep([f](const Coin& c) { return f * c.b; }, "fraction of the threshold", f); if (bad) return;
                                sweep([f](const Coin& c) { return c.b + f * (1 - c.b); }, "fraction beyond the threshold", f); if (bad) return; }
        vk::count("pairs_measured", all.size()); vk::count("pairs_dropped_below_1e-6", dropped); vk::count("draws_measured", draws.size());
        vk::maxi("draws_of_one_configuration", draws.size());
    }

    // Joint distribution of a small instance: all classes of all draws, as a decision tree.
    std::map<Edges, double> dist; uint64_t leaves = 0, nodes = 0;
    void joint(const std::vector<double>& grid) {
        std::vector<uint64_t> pts{0, HIGH}; for (double x : grid) pts.push_back(value(x));
        std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
        dist.clear(); leaves = nodes = 0;
        walk({}, 1.0L, pts); if (bad) return;
        // pairs that never occur may have been dropped
        std::vector<std::pair<int, int>> pairs; std::vector<double> q;
        for (int u = 0; u < n; ++u) for (int v = u + 1; v < n; ++v) {
            bool ever = false; for (auto& o : dist) ever |= std::binary_search(o.first.begin(), o.first.end(), std::make_pair(u, v));
            auto r = prob(u, v);
            if (!ever && r.lo >= 1e-6) return vk::fail("%s is never an edge", describe(u, v).c_str());
            if (!ever) continue;
            pairs.push_back({u, v}); q.push_back((r.lo + r.hi) / 2);
        }
        double slack = 1e-9; for (auto& r : p) slack += r.hi - r.lo;
        for (uint64_t s = 0; s < (1ull << pairs.size()); ++s) {
            Edges o; double want = 1, have = 0;
            for (size_t i = 0; i < pairs.size(); ++i) if (s >> i & 1) { o.push_back(pairs[i]); want *= q[i]; } else want *= 1 - q[i];
            auto it = dist.find(o); if (it != dist.end()) have = it->second;
            if (std::abs(have - want) > slack + 1e-8 * want) {
                std::string t; for (auto& e : o) t += vk::fmt("{%d,%d}", e.first, e.second);
                return vk::fail("outcome [%s] has probability %.15g, the product law says %.15g", t.c_str(), have, want);
            }
        }
        vk::states(leaves); vk::count("joint_leaves", leaves); vk::count("joint_inner_nodes", nodes); vk::maxi("joint_leaves_of_one_instance", leaves);
    }
private:
    void walk(std::map<Draw, uint64_t> m, long double w, const std::vector<uint64_t>& pts) {
        if (bad) return;
        std::vector<Draw> c; Edges e = with(m, 0, &c); if (bad) return;
        const Draw* next = nullptr; for (auto& d : c) if (!m.count(d)) { next = &d; break; }
        if (!next) { dist[e] += (double)w; ++leaves; if (leaves > 200000) { bad = true; vk::fail("more than 200000 leaves"); } return; }
        ++nodes;
        const Draw d = *next;
        auto sig = [&](uint64_t v) {
            m[d] = v; uint64_t h = 0;
            for (uint64_t rest : {uint64_t(0), HIGH}) {
                std::vector<Draw> cc; Edges ee = with(m, rest, &cc);
                for (auto& x : ee) h = vk::mix(h, ((uint64_t)x.first << 32) + x.second);
                h = vk::mix(h, cc.size()); for (auto& x : cc) h = vk::mix(h, x.second);
            }
            return h;
        };
        std::vector<std::pair<uint64_t, uint64_t>> start; // (first value of class, signature)
        uint64_t prev = pts[0], sp = sig(prev); start.push_back({0, sp});
        for (size_t i = 1; i < pts.size() && !bad; ++i) {
            uint64_t si = sig(pts[i]);
            while (si != sp && !bad) {
                uint64_t sb = 0, b = bisect(prev, pts[i], 1 << 10, [&](uint64_t v) { uint64_t s = sig(v); if (s != sp) { sb = s; return true; } return false; });
                sp = sig(b); prev = b; start.push_back({b, sp}); (void)sb;
                if (start.size() > 400) { bad = true; return vk::fail("a draw has more than 400 classes"); }
            }
            prev = pts[i];
        }
        for (size_t i = 0; i < start.size() && !bad; ++i) {
            uint64_t a = start[i].first, b = i + 1 < start.size() ? start[i + 1].first : HIGH;
            auto m2 = m; m2[d] = a + (b - a) / 2;
            long double width = i + 1 < start.size() ? (long double)(b - a) : 18446744073709551616.0L - a;
            walk(m2, w * width / 18446744073709551616.0L, pts);
        }
    }
};
} // namespace law
