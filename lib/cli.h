// running a command line tool in a scratch directory and reading back what it left there
#pragma once
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include "vk.h"

namespace cli {
typedef std::vector<std::string> Args;
struct Result { int code = -1; bool signalled = false; std::string out, err; std::map<std::string, std::string> files; bool ok() const { return !signalled && code == 0; } };
inline std::string base;                           // made by main before any worker exists
inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline std::string join(const Args& a) { std::string s; for (auto& x : a) s += (s.empty() ? "" : " ") + (x.empty() ? "''" : x); return s; }
inline void init(const char* name) { std::string t = std::string("/tmp/") + name + "-XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0); if (!mkdtemp(b.data())) _exit(2); base = b.data(); }
inline void done() { if (base.compare(0, 5, "/tmp/") == 0 && base.size() > 10) { std::error_code e; std::filesystem::remove_all(base, e); } }
// the scratch directory of this process, empty
inline std::string fresh() {
    std::string d = base + "/" + std::to_string(getpid()); std::error_code e; std::filesystem::remove_all(d, e);
    std::filesystem::create_directories(d + "/cwd", e); return d;
}
inline Result run(const std::string& exe, const Args& args, const std::vector<std::string>& env, const std::string& d, int cpu = 60, int mem = 4) {
    std::vector<char*> av, ev; av.push_back((char*)exe.c_str()); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
    for (auto& e : env) ev.push_back((char*)e.c_str()); ev.push_back(nullptr);
    std::string cwd = d + "/cwd", o = d + "/out", r = d + "/err";
    pid_t p = fork();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); if (chdir(cwd.c_str())) _exit(125);
        int fo = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), fe = open(r.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), in = open("/dev/null", O_RDONLY);
        dup2(in, 0); dup2(fo, 1); dup2(fe, 2); for (int i = 3; i < 64; ++i) close(i);
        rlimit l{(rlim_t)cpu, (rlim_t)cpu + 1}; setrlimit(RLIMIT_CPU, &l); l = {0, 0}; setrlimit(RLIMIT_CORE, &l); if (mem) { l = {(rlim_t)mem << 30, (rlim_t)mem << 30}; setrlimit(RLIMIT_AS, &l); }
        execve(exe.c_str(), av.data(), ev.data()); _exit(126);
    }
    Result q; int st = 0; if (p < 0 || waitpid(p, &st, 0) < 0) return q;
    q.signalled = WIFSIGNALED(st); q.code = q.signalled ? WTERMSIG(st) : WEXITSTATUS(st); q.out = slurp(o); q.err = slurp(r);
    std::error_code e; for (auto it = std::filesystem::recursive_directory_iterator(cwd, e); !e && it != std::filesystem::recursive_directory_iterator(); ++it) if (it->is_regular_file()) q.files[it->path().string().substr(cwd.size() + 1)] = slurp(it->path().string());
    return q;
}
// "n m", empty line, m lines "u v"; returns an error text
inline std::string parse_edges(const std::string& t, long& n, std::vector<std::pair<int, int>>& e) {
    const char* s = t.c_str(); char* q; e.clear();
    auto num = [&](long& v) { if (!isdigit((unsigned char)*s)) return false; v = strtol(s, &q, 10); s = q; return true; };
    long m; if (!num(n) || *s++ != ' ' || !num(m) || *s++ != '\n' || *s++ != '\n') return "header";
    while (*s) { long a, b; if (!num(a) || *s++ != ' ' || !num(b) || *s++ != '\n') return vk::fmt("edge line %zu", e.size()); if (a >= n || b >= n) return vk::fmt("node number in edge line %zu", e.size()); e.push_back({(int)std::min(a, b), (int)std::max(a, b)}); }
    if ((long)e.size() != m) return vk::fmt("%zu edges follow a header for %ld", e.size(), m);
    if ((size_t)(s - t.c_str()) != t.size()) return "zero byte";
    return "";
}
}
