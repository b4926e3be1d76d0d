// C19/C20: the command line tools over a lattice of options. -DTOOL=19 gengirg, -DTOOL=20 genhrg.
// The reference calls the library itself, in this process, with the same parameters, seeds and thread count.
#include "vk.h"
#include "cli.h"
#include "dot.h"
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <set>
#include <omp.h>
#if TOOL == 19
#include <girgs/Generator.h>
#define EXE "VERIF_GENGIRG"
#else
#include <hypergirgs/Generator.h>
#define EXE "VERIF_GENHRG"
#endif
typedef std::vector<std::pair<int, int>> E; typedef std::vector<double> V;
typedef std::map<std::string, std::string> Opt;                // option -> text; absent = not given
static std::string exe; static const int MAXT = 4;

static double D(const Opt& o, const char* k, double def) { auto i = o.find(k); return i == o.end() ? def : strtod(i->second.c_str(), nullptr); }
static int I(const Opt& o, const char* k, int def) { auto i = o.find(k); return i == o.end() ? def : (int)strtol(i->second.c_str(), nullptr, 10); }
static std::string S(const Opt& o, const char* k, const char* def) { auto i = o.find(k); return i == o.end() ? def : i->second; }

// options that are out of their documented range
static std::vector<std::string> invalid(const Opt& o) {
    std::vector<std::string> r; double n = D(o, "n", 10000), deg = D(o, "deg", 10);
    auto t = D(o, "threads", 1); if (!(t >= 1 && t <= MAXT)) r.push_back("threads");
#if TOOL == 19
    auto d = D(o, "d", 1); if (!(d >= 1 && d <= 5)) r.push_back("d");
    auto p = D(o, "ple", 2.5); if (!(p > 2 && p <= 3)) r.push_back("ple");
    auto a = D(o, "alpha", INFINITY); if (!(a > 1)) r.push_back("alpha");
#else
    auto a = D(o, "alpha", 0.75); if (!(a > 0.5 && a <= 1)) r.push_back("alpha");
    auto T = D(o, "t", 0); if (!(T >= 0 && T < 1)) r.push_back("t");
#endif
    if (!(deg >= 1 && deg <= n - 1)) { r.push_back("deg"); }
    return r;
}
static bool word(const std::string& text, const std::string& w) {
    for (size_t i = 0; (i = text.find(w, i)) != std::string::npos; ++i) { auto alnum = [](char c) { return isalnum((unsigned char)c) || c == '_'; }; if ((i == 0 || !alnum(text[i - 1])) && (i + w.size() >= text.size() || !alnum(text[i + w.size()]))) return true; }
    return false;
}
struct Expect { bool thrown = false; int n = 0; E edges; double R = 0; V a, b; std::vector<V> pos; };
static E norm(E e) { for (auto& x : e) if (x.first > x.second) std::swap(x.first, x.second); std::sort(e.begin(), e.end()); return e; }
static bool is_random(const Opt& o) { for (auto k : {"wseed", "pseed", "sseed", "rseed", "aseed"}) if (I(o, k, 1) < 0) return true; return false; }
static const Expect& expect(const Opt& o) {
    static std::string last; static Expect x; std::string key; for (auto& k : o) if (k.first != "file" && k.first != "dot" && k.first != "edge" && k.first != "coord") key += k.first + "=" + k.second + " ";
    if (key == last) return x;
    last = key; x = Expect(); int n = I(o, "n", 10000), th = I(o, "threads", 1); double deg = D(o, "deg", 10); x.n = n;
    omp_set_num_threads(th);
    try {
#if TOOL == 19
        int d = I(o, "d", 1); double alpha = D(o, "alpha", INFINITY);
        x.a = girgs::generateWeights(n, D(o, "ple", 2.5), I(o, "wseed", 12), th > 1);
        x.pos = girgs::generatePositions(n, d, I(o, "pseed", 130), th > 1);
        girgs::scaleWeights(x.a, deg, d, alpha);
        x.edges = norm(girgs::generateEdges(x.a, x.pos, alpha, I(o, "sseed", 1400)));
#else
        double alpha = D(o, "alpha", 0.75), T = D(o, "t", 0);
        x.R = I(o, "nkr", 0) == 1 ? hypergirgs::calculateRadiusLikeNetworKit(n, alpha, T, deg) : hypergirgs::calculateRadius(n, alpha, T, deg);
        x.a = hypergirgs::sampleRadii(n, alpha, x.R, I(o, "rseed", 12), th > 1);
        x.b = hypergirgs::sampleAngles(n, I(o, "aseed", 130), th > 1);
        x.edges = norm(hypergirgs::generateEdges(x.a, x.b, T, x.R, I(o, "sseed", 1400)));
#endif
    } catch (const std::exception&) { x.thrown = true; }
    vk::transitions();
    return x;
}
static std::vector<std::string> environment() { return {"PATH=/usr/bin:/bin", "LC_ALL=C", vk::fmt("OMP_NUM_THREADS=%d", MAXT), "OMP_DYNAMIC=false", "OMP_WAIT_POLICY=passive"}; }

static void verify(const cli::Args& args, const Opt& o) {
    if (!vk::begin("%s", cli::join(args).c_str())) return;
    auto bad = invalid(o); std::string dir = cli::fresh();
    std::string sub = S(o, "file", "graph"); if (auto p = sub.rfind('/'); p != std::string::npos && p > 0) std::filesystem::create_directories(dir + "/cwd/" + sub.substr(0, p));
    auto r = cli::run(exe, args, environment(), dir); vk::traces(); vk::transitions();
    std::string names; for (auto& f : r.files) names += " " + f.first;
    uint64_t h = vk::hash_bytes(names.data(), names.size(), r.code); for (auto& f : r.files) h = vk::hash_bytes(f.second.data(), f.second.size(), h); h = vk::hash_bytes(r.err.data(), r.err.size(), h); vk::state(h);
    if (!bad.empty()) {
        vk::count("rejected");
        if (r.ok()) return vk::fail("accepted although %s is out of range", bad[0].c_str());
        if (r.signalled) return vk::fail("ended by signal %d for an out-of-range %s", r.code, bad[0].c_str());
        if (!r.files.empty()) return vk::fail("left the files%s although %s is out of range", names.c_str(), bad[0].c_str());
        bool named = false; for (auto& b : bad) named |= word(r.err, b) || (b == "deg" && word(r.err, "n"));
        if (!named) return vk::fail("the error does not name %s: \"%.200s\"", bad[0].c_str(), r.err.c_str());
        return;
    }
    std::set<std::string> wanted; std::string base = S(o, "file", "graph"); bool edge = S(o, "edge", "") == "1", dot = S(o, "dot", "") == "1", coord = S(o, "coord", "") == "1";
    if (edge) wanted.insert(base + ".txt"); if (TOOL == 19 && dot) wanted.insert(base + ".dot"); if (TOOL == 20 && coord) wanted.insert(base + ".hyp");
    const bool rnd = is_random(o); Expect none; none.n = I(o, "n", 10000); const Expect& x = rnd ? none : expect(o);
    if (x.thrown) { vk::count("library_refuses"); if (r.ok() || !r.files.empty()) vk::fail("exit %d, files%s although the library refuses these parameters", r.code, names.c_str()); return; }
    vk::count("accepted");
    if (!r.ok()) return vk::fail("%s %d on valid parameters: %.200s", r.signalled ? "signal" : "exit code", r.code, r.err.c_str());
    std::set<std::string> got; for (auto& f : r.files) got.insert(f.first);
    if (got != wanted) { std::string w; for (auto& f : wanted) w += " " + f; return vk::fail("wrote the files%s instead of%s", names.c_str(), w.c_str()); }
    E e; bool have = false; long n;
    if (edge) {
        auto err = cli::parse_edges(r.files[base + ".txt"], n, e); if (!err.empty()) return vk::fail("edge list: %s", err.c_str());
        if (n != x.n) return vk::fail("edge list is for %ld nodes instead of %d", n, x.n);
        std::sort(e.begin(), e.end()); have = true;
        if (!rnd && e != x.edges) return vk::fail("the edge list has %zu edges, the library %zu; they differ", e.size(), x.edges.size());
    }
    if (TOOL == 19 && dot) {
        Parse q; q.s = r.files[base + ".dot"]; if (!q.run()) return vk::fail("dot file: %s", q.err.c_str());
        if ((int)q.nodes.size() != x.n) return vk::fail("dot file has %zu nodes instead of %d", q.nodes.size(), x.n);
        E f; for (auto& y : q.edges) { int a = atoi(y.first.c_str()), b = atoi(y.second.c_str()); f.push_back({a, b}); } f = norm(f);
        if (!rnd && f != x.edges) return vk::fail("the dot file has %zu edges, the library %zu; they differ", f.size(), x.edges.size());
        if (rnd && have && f != e) return vk::fail("dot file and edge list of one run differ");
        if (!rnd) for (int i = 0; i < x.n; ++i) {
            if (q.nodes[i].id != std::to_string(i)) return vk::fail("dot node %d is %s", i, q.nodes[i].id.c_str());
            if (q.nodes[i].attr["label"] != vk::fmt("%.2f", x.a[i])) { double y = atof(q.nodes[i].attr["label"].c_str()); if (!(std::abs(y - x.a[i]) <= 0.0051)) return vk::fail("dot node %d has the weight %s instead of %.17g", i, q.nodes[i].attr["label"].c_str(), x.a[i]); }
            std::string pos; for (auto c : x.pos[i]) pos += (pos.empty() ? "" : ",") + vk::fmt("%.6f", c); if (q.nodes[i].attr["pos"] != pos) return vk::fail("dot node %d is at %s instead of %s", i, q.nodes[i].attr["pos"].c_str(), pos.c_str());
        }
    }
    if (TOOL == 20 && coord) {
        auto& t = r.files[base + ".hyp"]; const char* s = t.c_str(); int i = 0;
        for (; *s; ++i) {
            char* q; double a = strtod(s, &q); if (q == s || *q != ' ') return vk::fail("coordinate line %d", i); s = q + 1; double b = strtod(s, &q); if (q == s || *q != '\n') return vk::fail("coordinate line %d", i); s = q + 1;
            if (i >= x.n) return vk::fail("more coordinate lines than nodes");
            if (!rnd && (a != x.a[i] || b != x.b[i])) return vk::fail("node %d is written as %.17g %.17g, sampled were %.17g %.17g", i, a, b, x.a[i], x.b[i]);
        }
        if (i != x.n) return vk::fail("%d coordinate lines for %d nodes", i, x.n);
    }
    if (vk::failed()) return;
    vk::count("edges_compared", x.edges.size());
}
static cli::Args args_of(const Opt& o, const std::vector<std::string>& order) { cli::Args a; for (auto& k : order) if (o.count(k)) { a.push_back("-" + k); a.push_back(o.at(k)); } return a; }

#if TOOL == 19
static const std::vector<std::string> OPTS{"n", "d", "ple", "alpha", "deg", "wseed", "pseed", "sseed", "threads", "file", "dot", "edge"};
static std::vector<std::string> values(const std::string& k, bool full) {
    if (k == "n") return full ? std::vector<std::string>{"2", "3", "40", "41", "1000", "1", "0", "-7"} : std::vector<std::string>{"2", "40", "300", "1"};
    if (k == "d") return full ? std::vector<std::string>{"1", "2", "3", "4", "5", "0", "6", "-1", "2147483647"} : std::vector<std::string>{"1", "5", "0", "6"};
    if (k == "ple") return full ? std::vector<std::string>{"2.0001", "2.1", "2.5", "2.9", "3", "2", "1.99", "3.0000001", "3.5", "nan", "inf", "-2.5", "0"} : std::vector<std::string>{"2.1", "3", "2", "3.01"};
    if (k == "alpha") return full ? std::vector<std::string>{"1.0001", "1.5", "2", "4.5", "50", "1000", "inf", "infinity", "1", "0.999", "0", "-3", "nan", "-inf"} : std::vector<std::string>{"1.3", "inf", "1", "nan"};
    if (k == "deg") return full ? std::vector<std::string>{"1", "1.5", "5", "10", "38.5", "39", "39.001", "0.999", "0", "-4", "nan", "inf", "1000000"} : std::vector<std::string>{"1", "6.5", "0.99", "nan"};
    if (k == "threads") return full ? std::vector<std::string>{"1", "2", "3", "4", "5", "0", "-1", "1000"} : std::vector<std::string>{"1", "2", "4", "0", "5"};
    if (k == "file") return full ? std::vector<std::string>{"g", "sub/dir/g", "a.b", "with space", "1", "x.txt"} : std::vector<std::string>{"g"};
    if (k == "dot" || k == "edge") return {"1", "0"};
    return full ? std::vector<std::string>{"0", "1", "2147483647", "12345", "-1", "-2147483648"} : std::vector<std::string>{"0", "77", "2147483647", "-1"};
}
#else
static const std::vector<std::string> OPTS{"n", "alpha", "t", "deg", "rseed", "aseed", "sseed", "threads", "nkr", "file", "edge", "coord"};
static std::vector<std::string> values(const std::string& k, bool full) {
    if (k == "n") return full ? std::vector<std::string>{"2", "3", "40", "41", "1000", "1", "0", "-7"} : std::vector<std::string>{"2", "40", "300", "1"};
    if (k == "alpha") return full ? std::vector<std::string>{"0.51", "0.55", "0.6", "0.75", "0.99", "1", "0.5", "0.499", "0", "1.0001", "-0.75", "2", "nan", "inf"} : std::vector<std::string>{"0.55", "1", "0.5", "1.01"};
    if (k == "t") return full ? std::vector<std::string>{"0", "0.01", "0.1", "0.5", "0.9", "0.99", "1", "1.5", "-0.01", "-1", "nan", "inf"} : std::vector<std::string>{"0", "0.6", "1", "-0.1"};
    if (k == "deg") return full ? std::vector<std::string>{"1", "1.5", "5", "10", "25", "39.001", "0.999", "0", "-4", "nan", "inf", "1000000"} : std::vector<std::string>{"1", "6.5", "0.99", "nan"};
    if (k == "threads") return full ? std::vector<std::string>{"1", "2", "3", "4", "5", "0", "-1", "1000"} : std::vector<std::string>{"1", "2", "4", "0", "5"};
    if (k == "file") return full ? std::vector<std::string>{"g", "sub/dir/g", "a.b", "with space", "1", "x.txt"} : std::vector<std::string>{"g"};
    if (k == "nkr" || k == "edge" || k == "coord") return {"1", "0"};
    return full ? std::vector<std::string>{"0", "1", "2147483647", "12345", "-1", "-2147483648"} : std::vector<std::string>{"0", "77", "2147483647", "-1"};
}
#endif
static const char* SECOND = TOOL == 19 ? "dot" : "coord";
static Opt small() { return {{"n", "40"}, {"deg", "5"}, {"edge", "1"}, {SECOND, "1"}, {"file", "o"}}; }

int main(int argc, char** argv) {
    omp_set_num_threads(1); exe = getenv(EXE) ? getenv(EXE) : ""; if (exe.empty()) { fprintf(stderr, EXE " is not set\n"); return 2; }
    cli::init("cli");
    const bool T = [&] { for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "thorough")) return true; return false; }();
    // every value of every option, in a small and in the default setting
    for (auto& k : OPTS) vk::unit("single:" + k, [=] { for (auto& v : values(k, true)) { Opt o = small(); if (k == "n" && atoi(v.c_str()) < 7) o["deg"] = "1"; o[k] = v; verify(args_of(o, OPTS), o); Opt p{{k, v}, {"edge", "1"}, {SECOND, "1"}}; if (k == "d") p["n"] = "1500"; if (k == "n" && atoi(v.c_str()) < 20) p["deg"] = "1"; verify(args_of(p, OPTS), p); } }, 120);
    // all pairs of options, all pairs of values
    for (size_t i = 0; i < OPTS.size(); ++i) for (size_t j = i + 1; j < OPTS.size(); ++j) vk::unit("pair:" + OPTS[i] + "," + OPTS[j], [=] { for (auto& a : values(OPTS[i], T)) for (auto& b : values(OPTS[j], T)) { Opt o = small(); if ((OPTS[i] == "n" && atoi(a.c_str()) < 7)) o["deg"] = "1"; o[OPTS[i]] = a; o[OPTS[j]] = b; verify(args_of(o, OPTS), o); } }, 120);
    if (T) for (size_t i = 0; i < OPTS.size(); ++i) for (size_t j = i + 1; j < OPTS.size(); ++j) for (size_t l = j + 1; l < OPTS.size(); ++l) vk::unit("triple:" + OPTS[i] + "," + OPTS[j] + "," + OPTS[l], [=] { for (auto& a : values(OPTS[i], false)) for (auto& b : values(OPTS[j], false)) for (auto& c : values(OPTS[l], false)) { Opt o = small(); if ((OPTS[i] == "n" && atoi(a.c_str()) < 7)) o["deg"] = "1"; o[OPTS[i]] = a; o[OPTS[j]] = b; o[OPTS[l]] = c; verify(args_of(o, OPTS), o); } }, 120);
    // every subset of the options given, the others left to their documented defaults
#if TOOL == 19
    const Opt full{{"n", "150"}, {"d", "2"}, {"ple", "2.8"}, {"alpha", "3.5"}, {"deg", "12.5"}, {"wseed", "5"}, {"pseed", "6"}, {"sseed", "7"}, {"threads", "2"}, {"file", "o"}, {"dot", "1"}, {"edge", "1"}};
#else
    const Opt full{{"n", "150"}, {"alpha", "0.85"}, {"t", "0.4"}, {"deg", "12.5"}, {"rseed", "5"}, {"aseed", "6"}, {"sseed", "7"}, {"threads", "2"}, {"nkr", "1"}, {"file", "o"}, {"edge", "1"}, {"coord", "1"}};
#endif
    for (int part = 0; part < 64; ++part) vk::unit(vk::fmt("subset:%d", part), [=] {
        for (int m = part * 64; m < part * 64 + 64; ++m) {
            if (!T && !(m & 1) && (m >> 1) % 7 != 3 && __builtin_popcount(m) > 2 && __builtin_popcount(m) < 11) continue;       // n left to its default: part of them
            Opt o; for (int i = 0; i < 12; ++i) if (m >> i & 1) o[OPTS[i]] = full.at(OPTS[i]);
            if (m == 0) continue;                                  // no arguments: help
            verify(args_of(o, OPTS), o);
        }
    }, 120);
    // order of options: rotations, reversals, all adjacent and distant swaps, all orders of five of them
    vk::unit("order", [=] {
        auto base = OPTS; for (int rev = 0; rev < 2; ++rev) { for (size_t r = 0; r < base.size(); ++r) { verify(args_of(full, base), full); std::rotate(base.begin(), base.begin() + 1, base.end()); } std::reverse(base.begin(), base.end()); }
        for (size_t i = 0; i < base.size(); ++i) for (size_t j = i + 1; j < base.size(); ++j) { auto b = base; std::swap(b[i], b[j]); verify(args_of(full, b), full); }
    });
    for (int first = 0; first < 12; ++first) vk::unit(vk::fmt("order5:%d", first), [=] { std::vector<std::string> five; for (int i = 0; i < 5; ++i) five.push_back(OPTS[(first + i * (first % 2 ? 5 : 1)) % 12]); Opt o; for (auto& k : five) o[k] = full.at(k); if (!o.count("n") && !T) o["n"] = "200", five.push_back("n"); o["edge"] = "1"; if (std::find(five.begin(), five.end(), "edge") == five.end()) five.push_back("edge"); std::sort(five.begin(), five.begin() + 5); do { verify(args_of(o, five), o); } while (std::next_permutation(five.begin(), five.begin() + 5)); }, 120);
    // an invalid value at every place in the order is still named
    vk::unit("order-invalid", [=] { for (auto& k : OPTS) for (auto& v : values(k, true)) { Opt o = full; o[k] = v; if (invalid(o).empty()) continue; auto b = OPTS; for (size_t r = 0; r < b.size(); ++r) { verify(args_of(o, b), o); std::rotate(b.begin(), b.begin() + 1, b.end()); } } });
    // text that is no number
    vk::unit("malformed", [=] {
        for (auto& k : OPTS) { if (k == "file" || k == "dot" || k == "edge" || k == "coord" || k == "nkr") continue; bool integer = values(k, true)[0].find('.') == std::string::npos && k != "deg" && k != "t" && k != "alpha" && k != "ple";
            for (std::string v : {std::string("abc"), std::string("-"), std::string("+-3"), std::string("x1"), integer ? std::string("99999999999999999999") : std::string("1e99999"), integer ? std::string("-99999999999999999999") : std::string("e5")}) {
                Opt o = small(); o[k] = v; auto a = args_of(o, OPTS); if (!vk::begin("%s", cli::join(a).c_str())) continue;
                auto r = cli::run(exe, a, environment(), cli::fresh()); vk::traces(); vk::transitions(); vk::states(1); if (r.ok()) vk::fail("accepted the text \"%s\" for %s", v.c_str(), k.c_str()); else if (!r.files.empty()) vk::fail("left files");
            } }
    });
    vk::unit("help", [=] { for (cli::Args a : std::vector<cli::Args>{{}, {"--help"}, {"-help"}, {"--version"}, {"--help", "-edge", "1"}, {"--version", "-edge", "1", "-n", "20"}}) { if (!vk::begin("arguments: %s", cli::join(a).c_str())) continue; auto r = cli::run(exe, a, environment(), cli::fresh()); vk::traces(); vk::transitions(); vk::states(1);
        if (!r.ok()) vk::fail("exit code %d", r.code); else if (!r.files.empty()) vk::fail("wrote a file"); else if ((r.out + r.err).empty()) vk::fail("no text");
        else if (a.empty() || a[0].find("help") != std::string::npos) for (auto& k : OPTS) if ((r.out + r.err).find("-" + k + " ") == std::string::npos) vk::fail("the help does not mention -%s", k.c_str()); } });
    // larger graphs and several threads: every edge of the library reaches the file
    vk::unit("large", [=] { for (std::string n : {"20000", "100001"}) for (std::string th : {"1", "3", "4"}) for (int v = 0; v < 3; ++v) {
        if (n == "100001" && !T && (v != 1 || th == "1")) continue; if (n == "20000" && !T && v == 2 && th != "3") continue;
        Opt o{{"n", n}, {"threads", th}, {"edge", "1"}, {SECOND, "1"}, {"deg", "15"}};
#if TOOL == 19
        o["d"] = v == 0 ? "1" : v == 1 ? "2" : "3"; if (v) o["alpha"] = v == 1 ? "2.5" : "inf";
#else
        if (v) o["t"] = v == 1 ? "0.5" : "0"; if (v == 2) o["alpha"] = "0.6", o["nkr"] = "1";
#endif
        verify(args_of(o, OPTS), o); } }, 200);
#if TOOL == 20
    // alpha next to 0.5 makes the disk so large that the cells of the innermost layers outnumber 2^32 (see known_findings.txt)
    vk::unit("extreme-alpha", [=] { Opt o{{"n", "1000"}, {"alpha", "0.5001"}, {"deg", "10"}, {"edge", "1"}}; auto a = args_of(o, OPTS); if (!vk::begin("%s", cli::join(a).c_str())) return; auto r = cli::run(exe, a, environment(), cli::fresh()); vk::traces(); vk::transitions(); if (!r.ok()) vk::fail("%s %d on valid parameters", r.signalled ? "signal" : "exit code", r.code); });
#endif
    int r = vk::main(argc, argv, "c19"); cli::done(); return r;
}
