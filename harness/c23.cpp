// C23: every public function over degenerate and extreme inputs. The sanitizer build with assertions runs each case; its
// result is compared with that of the release build (own process, other fill pattern of fresh memory). A thinner slice
// runs under valgrind (uninitialised values).
#include "vk.h"
#include "cli.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <numeric>
#include <omp.h>
#ifdef VERIF_MCRT
#include "mcrt.h"
#endif
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>
#if !defined(__SANITIZE_ADDRESS__) && defined(VERIF_MCRT)
// fresh memory is filled with a pattern that differs from the one of the sanitizer build
static const int fill_byte = getenv("VERIF_FILL") ? atoi(getenv("VERIF_FILL")) : 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (fill_byte) memset(p, fill_byte, std::min<size_t>(n, 65536)); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
typedef std::vector<double> V; typedef std::vector<V> VV; typedef std::vector<std::pair<int, int>> E;
static uint64_t hd(uint64_t h, double x) { uint64_t u; memcpy(&u, &x, 8); return vk::mix(h, u); }
static uint64_t he(E e, uint64_t h = 0) { for (auto& x : e) if (x.first > x.second) std::swap(x.first, x.second); std::sort(e.begin(), e.end()); for (auto& x : e) h = vk::mix(h, (uint64_t)x.first << 32 | (unsigned)x.second); return vk::mix(h, e.size()); }

typedef std::function<void(const std::string&, const std::function<uint64_t()>&)> Sink;     // takes every case of a unit in turn
static std::vector<std::pair<std::string, std::function<void(const Sink&, int)>>> units;    // level 0: thinnest (valgrind), 1 quick, 2 thorough

// ------------------------------------------------------------------ inputs
static V weights(int kind, int n, bool big = false, int d = 1) {
    V w(n, 1.0);
    for (int i = 0; i < n; ++i) switch (kind) {
        case 1: w[i] = i == n / 2 ? (big ? (d > 1 ? 2e3 : 1e5) : n > 10 || d > 1 ? 300. : 2000.) : 1; break;                       // one hub
        case 2: w[i] = std::pow(2.0, i % (big ? 16 : 8)); break;                       // all layers, borders
        case 3: w[i] = std::nextafter(std::pow(2.0, i % (big ? 12 : 7)), 0.0) * (i % (big ? 12 : 7) ? 1 : 2); break;
        case 4: w[i] = (big ? 1e-3 : 5e-2) * (1 + i % 3); break;
        case 5: w[i] = 1 / std::pow((i + 0.5) / n, 1 / (big ? 1.1 : 1.6)); break;        // heavy tail
        case 6: w[i] = i % 2 ? 1e6 : 1e6 * (1 - 1e-16); break;
        case 7: w[i] = i == 0 ? 1 : std::pow(2.0, big ? (d > 1 ? 11 : 17) : n > 10 ? 4 : d > 1 ? 6 : 8); break;                 // one light node
    }
    return w;
}
static VV points(int kind, int n, int d) {
    VV p(n, V(d, 0.0)); uint64_t s = 88172645463325252ull;
    for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; switch (kind) {
        case 1: p[i][k] = std::nextafter(1.0, 0.0); break;                 // all in the last cell
        case 2: p[i][k] = (s >> 11) * 0x1p-53; break;
        case 3: p[i][k] = (i >> k) & 1 ? std::nextafter(1.0, 0.0) : 0.0; break;        // corners of the torus
        case 4: p[i][k] = ((s >> 40) % 8) / 8.0; break;                    // cell borders
        case 5: p[i][k] = std::nextafter(((s >> 40) % 8 + 1) / 8.0, 0.0); break;
    } }
    return p;
}
static V radii(int kind, int n, double R) {
    V r(n); uint64_t s = 362436069;
    for (int i = 0; i < n; ++i) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; double u = (s >> 11) * 0x1p-53; switch (kind) {
        case 0: r[i] = 0; break; case 1: r[i] = std::nextafter(R, 0.0); break; case 2: r[i] = u * std::nextafter(R, 0.0); break;
        case 3: r[i] = std::max(0.0, R - 1 - i % (int)std::max(1.0, R)); break;                                 // layer borders
        case 4: r[i] = std::max(0.0, std::nextafter(R - i % (int)std::max(1.0, R), 0.0)); break;
        case 5: r[i] = i ? std::max(0.0, R - 0.5 * u) : 0.0; break;                               // outermost layer and the centre
        case 6: r[i] = R / 2; break; case 7: r[i] = i % 2 ? 1e-9 : R * 0.999; break; }
        if (r[i] >= R) r[i] = std::nextafter(R, 0.0); }
    return r;
}
static V angles(int kind, int n) {
    const double P2 = 2 * 3.14159265358979323846; V a(n); uint64_t s = 521288629;
    for (int i = 0; i < n; ++i) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; double u = (s >> 11) * 0x1p-53; switch (kind) {
        case 0: a[i] = 0; break; case 1: a[i] = std::nextafter(P2, 0.0); break; case 2: a[i] = std::min(u * P2, std::nextafter(P2, 0.0)); break;
        case 3: a[i] = i % 2 ? std::nextafter(P2, 0.0) : 0; break; case 4: a[i] = (i % 16) * (P2 / 16); break; case 5: a[i] = std::nextafter((i % 16 + 1) * (P2 / 16), 0.0); break; } }
    return a;
}
// ------------------------------------------------------------------ lattice
static void make_units() {
    auto add = [](const std::string& n, std::function<void(const Sink&, int)> f) { units.push_back({n, f}); };
    for (int d = 1; d <= 5; ++d) for (int wk = 0; wk < 8; ++wk) add(vk::fmt("girg:d%d:w%d", d, wk), [=](const Sink& sink, int lv) {
        for (int n : lv == 0 ? std::vector<int>{1, 2, 7, 40} : lv == 1 ? std::vector<int>{1, 2, 3, 4, 7, 16, 40, 150} : std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 40, 150, 500})
            for (int pk = 0; pk < 6; ++pk) for (double a : {(double)INFINITY, 1.00001, 1.5, 30.0, 0.5}) for (int th : lv == 0 ? std::vector<int>{1, 3} : std::vector<int>{1, 2, 3, 8, 16}) for (int seed : {0, std::numeric_limits<int>::max()}) {
                if (lv == 0 && ((pk + th + (int)a) % 3 || (seed && th == 1))) continue;
                if (lv == 1 && (n > 30 && (seed && th != 3))) continue;
                if (lv == 1 && th == 16 && (pk % 2 || n > 7)) continue;
                if (lv == 1 && d > 2 && n > 16 && (th == 2 || th > 3 || seed || pk % 2)) continue;
                if (lv < 2 && d > 3 && (a == 30 || a == 0.5)) continue;
                sink(vk::fmt("generateEdges n=%d d=%d weights %d positions %d alpha=%g threads=%d seed=%d", n, d, wk, pk, a, th, seed), [=] { omp_set_num_threads(th); auto w = weights(wk, n, false, d); auto p = points(pk, n, d); return he(girgs::generateEdges(w, p, a, seed)); });
            }
        if (lv) for (int n : {2, 7}) for (int th : {1, 3}) for (double a : {(double)INFINITY, 2.5}) sink(vk::fmt("generateEdges n=%d d=%d weights %d (extreme) alpha=%g threads=%d", n, d, wk, a, th), [=] { omp_set_num_threads(th); auto w = weights(wk, n, true, d); auto p = points(2, n, d); return he(girgs::generateEdges(w, p, a, 1)); });
    });
    for (int Ri = 0; Ri < 8; ++Ri) for (int rk = 0; rk < 8; ++rk) add(vk::fmt("hyper:R%d:r%d", Ri, rk), [=](const Sink& sink, int lv) {
        const double R = (const double[]){1.0, 1.5, 2.0, 3.7, 6.0, 12.0, 20.3, 26.0}[Ri];
        for (int n : lv == 0 ? std::vector<int>{1, 2, 7, 40} : lv == 1 ? std::vector<int>{1, 2, 3, 7, 16, 60} : std::vector<int>{1, 2, 3, 4, 5, 7, 16, 17, 60, 400})
            for (int ak = 0; ak < 6; ++ak) for (double T : {0.0, 0.02, 0.5, 0.99}) for (int th : lv == 0 ? std::vector<int>{1, 3} : std::vector<int>{1, 2, 3, 8, 16}) for (int seed : {0, std::numeric_limits<int>::max()}) {
                if (lv == 0 && ((ak + th + rk) % 4 || R > 15 || (seed && th == 1))) continue;
                if (lv == 1 && R > 15 && (n != 7 || th > 3 || th == 2 || seed || T == 0.02)) continue;
                if (lv == 1 && R > 25 && (ak % 3 || th > 1 || rk % 2)) continue;
                if (lv == 1 && th > 3 && (ak % 2 || n > 16 || seed)) continue;
                if (lv == 1 && R > 10 && (th == 16 || th == 2 || n == 16 || n == 3)) continue;
                if (lv == 1 && R > 25 && (ak || T)) continue;
                sink(vk::fmt("generateEdges n=%d R=%g radii %d angles %d T=%g threads=%d seed=%d", n, R, rk, ak, T, th, seed), [=] { omp_set_num_threads(th); auto r = radii(rk, n, R); auto a = angles(ak, n); return he(hypergirgs::generateEdges(r, a, T, R, seed)); });
            }
    });
    add("trees", [](const Sink& sink, int lv) {
        struct CB { E e; void operator()(int u, int v, int) { e.push_back({u, v}); } };
        for (int n : {1, 2, 9, 50}) for (int pk = 0; pk < 6; ++pk) for (double a : {(double)INFINITY, 2.0}) for (int wk = 0; wk < 8; ++wk) {
            if (lv == 0 && (pk + wk) % 4) continue;
            for (int d = 1; d <= 5; ++d) sink(vk::fmt("makeSpatialTree n=%d d=%d weights %d positions %d alpha=%g, generated twice", n, d, wk, pk, a), [=] { omp_set_num_threads(1); auto w = weights(wk, n); auto p = points(pk, n, d); CB cb; uint64_t h = 0;
                auto go = [&](auto t) { t.generateEdges(5); t.generateEdges(6); h = he(cb.e); };
                if (d == 1) go(girgs::makeSpatialTree<1>(w, p, a, cb)); if (d == 2) go(girgs::makeSpatialTree<2>(w, p, a, cb)); if (d == 3) go(girgs::makeSpatialTree<3>(w, p, a, cb)); if (d == 4) go(girgs::makeSpatialTree<4>(w, p, a, cb)); if (d == 5) go(girgs::makeSpatialTree<5>(w, p, a, cb)); return h; });
        }
        for (int n : {1, 2, 9, 50}) for (int rk = 0; rk < 8; ++rk) for (int ak = 0; ak < 6; ++ak) for (double R : {1.0, 5.5, 11.0}) for (double T : {0.0, 0.6}) {
            if (lv == 0 && (rk + ak) % 4) continue;
            sink(vk::fmt("makeHyperbolicTree n=%d R=%g radii %d angles %d T=%g, generated twice", n, R, rk, ak, T), [=] { omp_set_num_threads(1); auto r = radii(rk, n, R); auto a = angles(ak, n); CB cb; auto t = hypergirgs::makeHyperbolicTree(r, a, T, R, cb); t.generate(5); t.generate(6); return he(cb.e); });
        }
    });
    for (int part = 0; part < 8; ++part) add(vk::fmt("sampling:%d", part), [=](const Sink& sink, int lv) {
        int k = 0; auto mine = [&] { return k++ % 8 == part; };
        for (int n : lv == 0 ? std::vector<int>{1, 2, 33} : std::vector<int>{1, 2, 3, 33, 9999, 10000, 10001, 30000}) for (int th : {1, 2, 5, 16}) for (int seed : {0, 7, std::numeric_limits<int>::max()}) for (int par = 0; par < 2; ++par) {
            if (lv == 0 && th > 2) continue;
            for (double ple : {2.0001, 2.5, 10.0}) if (mine()) sink(vk::fmt("generateWeights n=%d ple=%g seed=%d threads=%d parallel=%d", n, ple, seed, th, par), [=] { omp_set_num_threads(th); return vk::hash_vec(girgs::generateWeights(n, ple, seed, par)); });
            for (int d = 1; d <= 5; ++d) if (mine()) sink(vk::fmt("generatePositions n=%d d=%d seed=%d threads=%d parallel=%d", n, d, seed, th, par), [=] { omp_set_num_threads(th); uint64_t h = 0; for (auto& x : girgs::generatePositions(n, d, seed, par)) h = vk::hash_vec(x, h); return h; });
            for (double R : {0.1, 1.0, 30.0, 100.0}) for (double a : {0.5001, 0.75, 1.5}) if (mine()) sink(vk::fmt("sampleRadii, sampleAngles, sampleRadiiAndAngles n=%d R=%g alpha=%g seed=%d threads=%d parallel=%d", n, R, a, seed, th, par), [=] { omp_set_num_threads(th); auto r = hypergirgs::sampleRadii(n, a, R, seed, par); auto b = hypergirgs::sampleAngles(n, seed, par); auto c = hypergirgs::sampleRadiiAndAngles(n, a, R, seed, par); return vk::hash_vec(c.second, vk::hash_vec(c.first, vk::hash_vec(b, vk::hash_vec(r)))); });
        }
    });
    add("scaling", [](const Sink& sink, int lv) {
        for (int n : {2, 3, 10, 200}) for (int wk = 0; wk < 8; ++wk) for (double a : {(double)INFINITY, 1.0001, 1.5, 2.0, 10.0, 10.5, 1000.0}) for (int d = 1; d <= 5; ++d) for (double deg : {1.0, 0.01, (n - 1) * 0.5, n - 1.1}) for (int th : {1, 4}) {
            if (!(deg > 0 && deg < n - 1)) continue; if (lv < 2 && ((d + wk) % 2 || (th == 4 && n == 200))) continue; if (lv == 0 && (d + wk) % 6) continue;
            sink(vk::fmt("scaleWeights n=%d weights %d d=%d alpha=%g degree=%g threads=%d", n, wk, d, a, deg, th), [=] { omp_set_num_threads(th); auto w = weights(wk, n); double s; try { s = girgs::scaleWeights(w, deg, d, a); } catch (const std::exception&) { return (uint64_t)1; } if (th > 1) return (uint64_t)2; return hd(vk::hash_vec(w), s); });
        }
    });
    add("radius", [](const Sink& sink, int lv) {
        for (int n : {2, 3, 10, 1000, 1000000, std::numeric_limits<int>::max()}) for (double a : {0.5000001, 0.51, 0.75, 0.9999, 1.0}) for (double T : {0.0, 1e-9, 0.1, 0.5, 0.999999}) for (double deg : {1.0, 5.0, n / 3.0, n - 1.0}) for (int nk = 0; nk < 2; ++nk) {
            if (deg < 1 || deg > n - 1.0) continue;
            sink(vk::fmt("calculateRadius%s n=%d alpha=%.9g T=%g degree=%g", nk ? "LikeNetworKit" : "", n, a, T, deg), [=] { try { return hd(0, nk ? hypergirgs::calculateRadiusLikeNetworKit(n, a, T, deg) : hypergirgs::calculateRadius(n, a, T, deg)); } catch (const std::exception&) { return (uint64_t)1; } });
        }
    });
    for (int d = 1; d <= 5; ++d) add(vk::fmt("chain:d%d", d), [=](const Sink& sink, int lv) {    // the documented sequence of calls
        for (int n : lv == 0 ? std::vector<int>{2, 30} : std::vector<int>{2, 3, 30, 300, 2000}) for (double ple : {2.05, 2.5, 3.0}) for (double a : {(double)INFINITY, 1.1, 2.5}) for (double deg : {1.0, 8.0, n - 1.1}) for (int th : {1, 4}) {
            if (deg >= n - 1 || deg <= 0 || (deg > 500)) continue; if (lv == 1 && ((d > 2 && n > 30) || (d == 2 && n > 300) || (d > 3 && deg > 8))) continue; if (lv == 1 && n == 2000 && (th == 1 || ple == 2.5)) continue; if (lv == 0 && (th > 1 || ple == 2.5)) continue;
            sink(vk::fmt("weights, positions, scaling, edges, dot: n=%d d=%d ple=%g alpha=%g degree=%g threads=%d", n, d, ple, a, deg, th), [=] { omp_set_num_threads(th); auto w = girgs::generateWeights(n, ple, 3); auto p = girgs::generatePositions(n, d, 4); omp_set_num_threads(1); girgs::scaleWeights(w, deg, d, a); omp_set_num_threads(th); auto e = girgs::generateEdges(w, p, a, 5); if (n < 100 && !cli::base.empty()) { auto f = cli::base + "/" + std::to_string(getpid()) + ".dot"; girgs::saveDot(w, p, e, f); unlink(f.c_str()); } return he(e); });
        }
        if (d == 1) for (int n : lv == 0 ? std::vector<int>{2, 30} : std::vector<int>{2, 3, 30, 300, 2000}) for (double alpha : {0.55, 0.75, 1.0}) for (double T : {0.0, 0.3, 0.9}) for (double deg : {1.0, 8.0}) for (int nk = 0; nk < 2; ++nk) for (int th : {1, 4}) {
            if (deg >= n - 1 || (lv == 0 && th > 1)) continue; if (lv == 1 && n == 2000 && (T == 0.9 || th == 1)) continue;
            sink(vk::fmt("radius, radii, angles, edges: n=%d alpha=%g T=%g degree=%g networkit=%d threads=%d", n, alpha, T, deg, nk, th), [=] { omp_set_num_threads(th); double R; try { R = nk ? hypergirgs::calculateRadiusLikeNetworKit(n, alpha, T, deg) : hypergirgs::calculateRadius(n, alpha, T, deg); } catch (const std::exception&) { return (uint64_t)1; } if (!(R >= 1)) return (uint64_t)2; auto r = hypergirgs::sampleRadii(n, alpha, R, 3); auto a = hypergirgs::sampleAngles(n, 4); return he(hypergirgs::generateEdges(r, a, T, R, 5)); });
        }
    });
}
int main(int argc, char** argv) {
    omp_set_num_threads(1); make_units();
    if (const char* mc = getenv("VERIF_MEMCHECK")) {           // under valgrind: one slice, no kit
        int part, of; sscanf(mc, "%d/%d", &part, &of); long k = 0, done = 0; std::string last;
        FILE* log = fopen(getenv("VERIF_DUMP"), "w");
        for (auto& u : units) u.second([&](const std::string& what, const std::function<uint64_t()>& f) { if (k++ % of != part) return; rewind(log); fprintf(log, "%-300s\n%ld\n", what.c_str(), ++done); fflush(log); volatile uint64_t h = f(); if (h == 12345) puts("?"); }, 0);
        return 0;
    }
    const char* dump = getenv("VERIF_DUMP"); const char* rel = getenv("VERIF_REL");
    cli::init("c23"); std::string self; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "thorough")) self = "thorough"; if (self.empty()) self = "quick"; const int lv = self == "thorough" ? 2 : 1; const std::string tier = self;
    for (auto& u : units) vk::unit(u.first, [=] {
        long idx = 0; std::vector<uint64_t> ref; bool have = false;
        if (dump) { FILE* f = fopen(dump, "w"); u.second([&](const std::string& what, const std::function<uint64_t()>& fn) { if (!vk::begin("%s", what.c_str())) return; uint64_t h = fn(); fwrite(&h, 8, 1, f); fflush(f); }, lv); fclose(f); return; }
        if (rel) {
            auto d = cli::fresh(); auto r = cli::run(rel, {"--tier", tier, "--unit", u.first, "--jobs", "1"}, {"PATH=/usr/bin:/bin", "LC_ALL=C", "OMP_WAIT_POLICY=passive", "VERIF_FILL=165", "VERIF_DUMP=" + d + "/dump"}, d, 600, 0);
            auto t = cli::slurp(d + "/dump"); ref.resize(t.size() / 8); if (!ref.empty()) memcpy(ref.data(), t.data(), ref.size() * 8); have = true;
        }
        u.second([&](const std::string& what, const std::function<uint64_t()>& fn) {
            long i = idx++; if (!vk::begin("%s", what.c_str())) return;
            uint64_t h = fn(); vk::transitions(); vk::traces(); vk::state(vk::mix(h, vk::hash_bytes(what.data(), what.size())));
            if (have && i >= (long)ref.size()) vk::fail("the build without assertions gave no result (crash or hang in this case or an earlier one)"); else if (have && ref[i] != h) vk::fail("the build without assertions gives another result");
            else if (have) vk::count("compared_with_release_build");
        }, lv);
    }, 200);
    if (rel && !dump) for (int part = 0; part < 16; ++part) vk::unit(vk::fmt("valgrind:%d", part), [=] {
        if (!vk::begin("slice %d of 16 of the thin lattice under valgrind", part)) return;
        auto d = cli::fresh(); const int of = lv == 2 ? 16 : 160;
        auto r = cli::run("/usr/bin/valgrind", {"-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=no", getenv("VERIF_GOMP")}, {"PATH=/usr/bin:/bin", "LC_ALL=C", "OMP_WAIT_POLICY=passive", "GOMP_SPINCOUNT=0", vk::fmt("VERIF_MEMCHECK=%d/%d", part, of), "VERIF_DUMP=" + d + "/dump"}, d, 600, 0);
        std::string log = cli::slurp(d + "/dump"); auto nl = log.find('\n'); std::string what = log.substr(0, nl); while (!what.empty() && what.back() == ' ') what.pop_back(); long n = nl == std::string::npos ? 0 : atol(log.c_str() + nl + 1);
        vk::count("cases_under_valgrind", n); vk::transitions(n); vk::traces(n);
        if (r.signalled || r.code) { vk::note("%s", what.c_str()); vk::fail("valgrind: %s %d: %.500s", r.signalled ? "signal" : "exit code", r.code, r.err.c_str()); }
    }, 700);
    int r = vk::main(argc, argv, "c23"); cli::done(); return r;
}
