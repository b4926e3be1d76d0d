// C25: the dot file is parsed back with a grammar of its own and compared with the graph.
#include "vk.h"
#include "dot.h"
#include <algorithm>
#include <clocale>
#include <cmath>
#include <fstream>
#include <limits>
#include <locale>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include <girgs/Generator.h>
typedef std::vector<double> V; typedef std::vector<V> VV; typedef std::vector<std::pair<int, int>> E;


static std::string dir, file;
static void check(const std::string& what, const V& w, const VV& p, const E& e, bool existing = false) {
    if (!vk::begin("%s", what.c_str())) return;
    if (existing) { std::ofstream f(file); for (int i = 0; i < 100000; ++i) f << "old contents\n"; } else unlink(file.c_str());
    auto w2 = w; auto p2 = p; auto e2 = e;
    girgs::saveDot(w, p, e, file); vk::transitions(); vk::traces(); vk::states(1);
    if (w2 != w || p2 != p || e2 != e) return vk::fail("the graph was modified");
    std::ifstream f(file, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); Parse q; q.s = ss.str();
    if (!q.run()) return vk::fail("not a dot file: %s at byte %zu", q.err.c_str(), q.i);
    if (q.nodes.size() != w.size()) return vk::fail("%zu node statements for %zu nodes", q.nodes.size(), w.size());
    if (q.edges.size() != e.size()) return vk::fail("%zu edge statements for %zu edges", q.edges.size(), e.size());
    for (size_t i = 1; i < q.order.size(); ++i) if (q.order[i] < q.order[i - 1]) return vk::fail("a node statement follows an edge statement");
    char b[400];
    for (size_t i = 0; i < w.size(); ++i) {
        snprintf(b, sizeof b, "%zu", i); if (q.nodes[i].id != b) return vk::fail("node statement %zu is for node %s", i, q.nodes[i].id.c_str());
        snprintf(b, sizeof b, "%.2f", w[i]); if (q.nodes[i].attr["label"] != b) return vk::fail("node %zu has the label \"%s\" instead of \"%s\"", i, q.nodes[i].attr["label"].c_str(), b);
        std::string pos; for (size_t d = 0; d < p[i].size(); ++d) { snprintf(b, sizeof b, "%s%.6f", d ? "," : "", p[i][d]); pos += b; }
        if (q.nodes[i].attr["pos"] != pos) return vk::fail("node %zu has the position \"%s\" instead of \"%s\"", i, q.nodes[i].attr["pos"].c_str(), pos.c_str());
    }
    for (size_t i = 0; i < e.size(); ++i) if (q.edges[i] != std::make_pair(std::to_string(e[i].first), std::to_string(e[i].second))) return vk::fail("edge statement %zu is %s -- %s instead of %d -- %d", i, q.edges[i].first.c_str(), q.edges[i].second.c_str(), e[i].first, e[i].second);
}
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };

int main(int argc, char** argv) {
    char tmp[] = "/tmp/c25-XXXXXX"; if (!mkdtemp(tmp)) return 2; dir = tmp;
    const V W{1, 0.004999, 0.005, 0.0050001, 0.995, 0.994999, 1.005, 2.675, 2.665, 999.995, 9999.999, 123456.789, 1e6, 1e15, 1e17, 1.5e300, 4.9e-324, 1e-300, std::nextafter(1.0, 2.0), std::numeric_limits<double>::max(), 0};
    const V P{0, 0.5, 1e-9, 4.9e-7, 5e-7, 5.1e-7, 0.1234564, 0.1234565, 0.9999994, 0.9999995, std::nextafter(1.0, 0.0), 1.0 / 3, 0.000001, -0.25, 12345678.9, 1e20, 1e-310};
    auto fresh = [] { file = dir + vk::fmt("/%d.dot", (int)getpid()); };
    for (int d = 1; d <= 5; ++d) for (int existing = 0; existing < 2; ++existing) vk::unit(vk::fmt("values:d%d:%d", d, existing), [=] {
        fresh();
        for (double w : W) for (double p : P) for (int at = 0; at < d; ++at) { VV pos{V(d, 0.25), V(d, 0.75)}; pos[0][at] = p; check(vk::fmt("d=%d weight %.17g coordinate %d is %.17g%s", d, w, at, p, existing ? ", file exists" : ""), {w, 3.5}, pos, {{0, 1}}, existing); }
        check(vk::fmt("d=%d no nodes", d), {}, {}, {}, existing);
        check(vk::fmt("d=%d one node", d), {7.125}, {V(d, 0.1)}, {}, existing);
        unlink(file.c_str());
    });
    vk::unit("weight-pairs", [=] { fresh(); for (double a : W) for (double b : W) for (double p : P) check(vk::fmt("weights %.17g,%.17g", a, b), {a, b, a}, {{p, 0.1}, {0.3, p}, {0.2, 0.3}}, {{2, 1}, {0, 2}}); unlink(file.c_str()); });
    // all edge lists of length up to 3 over 4 nodes, both orientations, repetitions, loops
    vk::unit("edges", [=] {
        fresh(); VV pos{{0.1, 0.2}, {0.3, 0.4}, {0.5, 0.6}, {0.7, 0.8}}; V w{1, 2, 3, 4}; const int maxlen = vk::thorough() ? 4 : 3;
        for (int len = 0; len <= maxlen; ++len) for (long m = 0; m < std::lround(std::pow(16, len)); ++m) { E e; long x = m; std::string s = "edges"; for (int i = 0; i < len; ++i, x /= 16) { e.push_back({(int)(x % 4), (int)(x / 4 % 4)}); s += vk::fmt(" %d-%d", e.back().first, e.back().second); } check(s, w, pos, e, false); }
        unlink(file.c_str());
    });
    // sizes around the buffers of streams
    for (int part = 0; part < 8; ++part) vk::unit(vk::fmt("sizes:%d", part), [=] {
        fresh(); const int top = vk::thorough() ? 3000 : 700;
        for (int n = part; n < top; n += 8) for (int m : {0, n / 2, n * 3}) { if (!n && m) continue; V w(n); VV p(n, V(2)); E e; for (int i = 0; i < n; ++i) { w[i] = 1 + i * 1.37; p[i][0] = i / (double)n; p[i][1] = 1 - p[i][0]; } for (int i = 0; i < m; ++i) e.push_back({i % n, (i * 7 + 1) % n}); check(vk::fmt("%d nodes, %d edges", n, m), w, p, e, n & 1); }
        unlink(file.c_str());
    });
    vk::unit("large", [=] { fresh(); const int n = 1 << 17; V w(n, 1.25); VV p(n, V(1, 0.5)); E e; for (int i = 0; i + 1 < n; ++i) { e.push_back({i, i + 1}); e.push_back({n - 1 - i, i / 2}); } check("131072 nodes, 262142 edges", w, p, e, true);
        e = {{2147483646, 0}, {1234567, 2147483647}}; check("large node numbers", {1}, {{0.5}}, e); unlink(file.c_str()); }, 200);
    // a process-wide locale with other decimal points and digit groups
    vk::unit("locale", [=] {
        fresh(); std::locale old = std::locale::global(std::locale(std::locale::classic(), new Comma));
        for (double w : W) for (double p : P) check(vk::fmt("global locale with decimal comma, weight %.17g coordinate %.17g", w, p), {w, 1234.5}, {{p, 0.5}, {0.25, p}}, {{0, 1}});
        V w(1500, 1); VV p(1500, V(1, 0.5)); check("global locale with digit groups, 1500 nodes", w, p, {{1499, 1200}});
        std::locale::global(old); unlink(file.c_str());
    });
    // paths that cannot be opened must be reported (see C21 for faults while writing)
    vk::unit("unopenable", [=] { fresh(); for (std::string f : {dir + "/no/such/dir.dot", dir, std::string("")}) { if (!vk::begin("file \"%s\"", f.c_str())) continue; bool thrown = false; try { girgs::saveDot({1}, {{0.5}}, {}, f); } catch (const std::exception&) { thrown = true; } vk::traces(); if (!thrown) vk::fail("no exception for a file that cannot be opened"); } });
    int r = vk::main(argc, argv, "c25"); rmdir(tmp); return r;
}
