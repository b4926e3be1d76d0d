// C21: every system call by which gengirg, genhrg and saveDot open, write or close an output file is made to fail, to be
// interrupted or to transfer less than asked for (injected by tracing our own child), and the disk is made full at every byte.
#include "vk.h"
#include "cli.h"
#include <cmath>
#include <functional>
#include <set>
#include <signal.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <errno.h>
#include <girgs/Generator.h>
using cli::Args;

enum Kind { OPEN, WRITE, CLOSE, SYNC, OTHER };
static const char* KIND[] = {"open", "write", "close", "sync", "rename/truncate"};
struct Fault { int at = -1, err = 0; int shorten = 0; bool persistent = false; };     // err: fails with it; shorten: 1 first byte only, 2 half, 3 all but one byte
struct Event { Kind k; long n; };
struct Run { int code = -1; bool signalled = false, injected = false; std::vector<Event> events; std::map<std::string, std::string> files; std::string err; bool ok() const { return !signalled && code == 0; } };

static std::string peek(pid_t p, unsigned long a) { std::string s; for (;; a += 8) { errno = 0; long w = ptrace(PTRACE_PEEKDATA, p, a, 0); if (errno) return s; for (int i = 0; i < 8; ++i) { char c = w >> (8 * i); if (!c || s.size() > 4000) return s; s += c; } } }

static Run traced(const std::string& exe, const Args& args, const std::vector<Fault>& faults, const std::function<void(const std::string&)>& prepare = nullptr, long fsize = -1) {
    std::string d = cli::fresh(), cwd = d + "/cwd", errf = d + "/err"; if (prepare) prepare(cwd);
    std::vector<char*> av; av.push_back((char*)exe.c_str()); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
    const char* ev[] = {"PATH=/usr/bin:/bin", "LC_ALL=C", "OMP_NUM_THREADS=1", nullptr};
    const bool trace = fsize < 0;
    pid_t p = fork(); Run r;
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); if (chdir(cwd.c_str())) _exit(125);
        int nul = open("/dev/null", O_RDWR), fe = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(nul, 0); dup2(nul, 1); dup2(trace ? fe : nul, 2); for (int i = 3; i < 64; ++i) close(i);
        rlimit l{60, 61}; setrlimit(RLIMIT_CPU, &l); l = {0, 0}; setrlimit(RLIMIT_CORE, &l);
        if (fsize >= 0) { signal(SIGXFSZ, SIG_IGN); l = {(rlim_t)fsize, (rlim_t)fsize}; setrlimit(RLIMIT_FSIZE, &l); }
        if (trace) { if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(124); raise(SIGSTOP); }
        execve(exe.c_str(), av.data(), (char**)ev); _exit(126);
    }
    int st = 0;
    if (p > 0 && !trace) { waitpid(p, &st, 0); }
    else if (p > 0) {
        if (waitpid(p, &st, 0) < 0 || !WIFSTOPPED(st)) { fprintf(stderr, "cannot trace a child\n"); _exit(3); }
        ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
        std::set<int> fds; bool entry = true, exec_done = false; long deliver = 0; int active = 0; bool opening = false; user_regs_struct saved; bool changed = false, closing = false; int last = 0;
        while (true) {
            if (ptrace(PTRACE_SYSCALL, p, 0, deliver)) { waitpid(p, &st, 0); break; }
            deliver = 0; if (waitpid(p, &st, 0) < 0 || WIFEXITED(st) || WIFSIGNALED(st)) break;
            int sig = WSTOPSIG(st); if (sig == SIGTRAP) { exec_done = true; continue; } if (sig != (SIGTRAP | 0x80)) { deliver = sig; continue; }
            user_regs_struct g; ptrace(PTRACE_GETREGS, p, 0, &g);
            if (entry) {
                entry = false; active = 0; opening = changed = closing = false; if (!exec_done && g.orig_rax != SYS_execve) continue;
                long nr = g.orig_rax; int k = -1; long fl = 0; unsigned long path = 0;
                if (nr == SYS_openat) { fl = g.rdx; path = g.rsi; } else if (nr == SYS_open) { fl = g.rsi; path = g.rdi; } else if (nr == SYS_creat) { fl = O_WRONLY; path = g.rdi; }
                if (path && (fl & O_ACCMODE) != O_RDONLY) { auto s = peek(p, path); if (s.compare(0, 5, "/dev/") && s.compare(0, 6, "/proc/")) { k = OPEN; opening = true; } }
                bool mine = fds.count((int)g.rdi);
                if (mine && (nr == SYS_write || nr == SYS_pwrite64 || nr == SYS_writev)) k = WRITE;
                if (mine && nr == SYS_close) { k = CLOSE; closing = true; }
                if (mine && (nr == SYS_fsync || nr == SYS_fdatasync)) k = SYNC;
                if ((mine && (nr == SYS_ftruncate || nr == SYS_fallocate)) || nr == SYS_rename || nr == SYS_renameat || nr == SYS_renameat2) k = OTHER;
                if (k < 0) continue;
                long len = 0; if (k == WRITE) { if (nr == SYS_writev) { for (unsigned long i = 0; i < g.rdx; ++i) len += ptrace(PTRACE_PEEKDATA, p, g.rsi + 16 * i + 8, 0); } else len = g.rdx; }
                int id = r.events.size(); r.events.push_back({(Kind)k, len});
                for (auto& f : faults) if (f.at == id || (f.persistent && id > f.at && k == WRITE && f.at >= 0)) {
                    saved = g; r.injected = true; changed = true;
                    if (f.err) {
                        active = f.err;
                        if (k == CLOSE) { /* the descriptor is released all the same */ } else { g.orig_rax = (unsigned long)-1; ptrace(PTRACE_SETREGS, p, 0, &g); }
                    } else if (f.shorten && k == WRITE && len > 1) {
                        long want = f.shorten == 1 ? 1 : f.shorten == 2 ? (len + 1) / 2 : len - 1;
                        if (nr == SYS_writev) {            // carried out as a plain write of (part of) the first non-empty piece
                            unsigned long base = 0, l0 = 0; for (unsigned long i = 0; i < g.rdx && !l0; ++i) { base = ptrace(PTRACE_PEEKDATA, p, g.rsi + 16 * i, 0); l0 = ptrace(PTRACE_PEEKDATA, p, g.rsi + 16 * i + 8, 0); }
                            g.orig_rax = SYS_write; g.rsi = base; g.rdx = std::min<unsigned long>(l0, want);
                        } else g.rdx = want;
                        ptrace(PTRACE_SETREGS, p, 0, &g);
                    } else { r.injected = false; changed = false; }
                    break;
                }
                last = k;
            } else {
                entry = true;
                if (opening && !active && (long)g.rax >= 0) fds.insert((int)g.rax);
                if (closing) fds.erase((int)g.rdi);
                if (changed) { auto rax = g.rax; g = saved; g.rax = active ? (unsigned long)-(long)active : rax; g.orig_rax = saved.orig_rax; ptrace(PTRACE_SETREGS, p, 0, &g); }
            }
        }
        (void)last;
    }
    r.signalled = WIFSIGNALED(st); r.code = r.signalled ? WTERMSIG(st) : WEXITSTATUS(st); if (trace) r.err = cli::slurp(errf);
    std::error_code e; for (auto& it : std::filesystem::recursive_directory_iterator(cwd, e)) if (it.is_regular_file(e) && !it.is_symlink(e)) r.files[it.path().string().substr(cwd.size() + 1)] = cli::slurp(it.path().string());
    return r;
}

struct Target { std::string name, exe; Args args; };
static std::vector<Target> targets(bool T) {
    std::string gi = getenv("VERIF_GENGIRG") ? getenv("VERIF_GENGIRG") : "", hy = getenv("VERIF_GENHRG") ? getenv("VERIF_GENHRG") : ""; char self[4000]; ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1); self[l < 0 ? 0 : l] = 0;
    std::vector<Target> t;
    for (std::string n : T ? std::vector<std::string>{"5", "60", "700", "2500", "9000"} : std::vector<std::string>{"5", "60", "1500"}) {
        auto deg = n == "5" ? "1" : "10";
        for (int m = 1; m < 4; ++m) {
            t.push_back({"gengirg:n" + n + (m & 1 ? ":edge" : "") + (m & 2 ? ":dot" : ""), gi, {"-n", n, "-deg", deg, "-file", "o", "-edge", m & 1 ? "1" : "0", "-dot", m & 2 ? "1" : "0"}});
            t.push_back({"genhrg:n" + n + (m & 1 ? ":edge" : "") + (m & 2 ? ":coord" : ""), hy, {"-n", n, "-deg", deg, "-file", "o", "-edge", m & 1 ? "1" : "0", "-coord", m & 2 ? "1" : "0"}});
        }
        t.push_back({"saveDot:n" + n, self, {"--savedot", n, "o.dot"}});
    }
    t.push_back({"saveDot:n0", self, {"--savedot", "0", "o.dot"}});
    return t;
}
static int savedot(int n, const std::string& file) {
    std::vector<double> w(n); std::vector<std::vector<double>> p(n, std::vector<double>(2)); std::vector<std::pair<int, int>> e;
    for (int i = 0; i < n; ++i) { w[i] = 1 + i / 3.0; p[i][0] = i / (n + 1.0); p[i][1] = 1 - p[i][0]; for (int k = 1; k < 6; ++k) if (i >= k) e.push_back({i, i - k}); }
    try { girgs::saveDot(w, p, e, file); } catch (const std::exception& x) { fprintf(stderr, "%s\n", x.what()); return 3; }
    return 0;
}
// the verdict about one run; must: the fault is an error that may not be passed over in silence even if the data arrived
static void judge(const Run& r, const std::map<std::string, std::string>& want, bool harmless, bool must) {
    std::string bad; for (auto& f : want) { auto i = r.files.find(f.first); if (i == r.files.end()) bad = f.first + " is missing"; else if (i->second != f.second) bad = vk::fmt("%s differs: %zu bytes instead of %zu", f.first.c_str(), i->second.size(), f.second.size()); }
    uint64_t h = r.code * 2 + r.signalled; for (auto& f : r.files) h = vk::hash_bytes(f.second.data(), f.second.size(), h); vk::state(h);
    if (r.ok() && !bad.empty()) return vk::fail("success is reported but %s", bad.c_str());
    if (r.ok() && must) return vk::fail("success is reported although the system call failed");
    if (harmless && !r.ok()) return vk::fail("%s %d because of a write that was merely interrupted or partial: %.120s", r.signalled ? "signal" : "exit code", r.code, r.err.c_str());
    if (harmless && !bad.empty()) return vk::fail("%s", bad.c_str());
    vk::count(r.ok() ? "completed" : "reported");
}
static const int ERRS[] = {ENOSPC, EIO, EDQUOT, EFBIG, EAGAIN}; static const char* ERRN(int e) { return strerror(e); }

int main(int argc, char** argv) {
    if (argc > 3 && !strcmp(argv[1], "--savedot")) return savedot(atoi(argv[2]), argv[3]);
    for (auto e : {"VERIF_GENGIRG", "VERIF_GENHRG"}) if (!getenv(e)) { fprintf(stderr, "%s is not set\n", e); return 2; }
    const bool T = [&] { for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "thorough")) return true; return false; }();
    cli::init("c21");
    for (auto& t : targets(T)) {
        // the fault-free run, then one fault at every event
        for (int part = 0; part < 4; ++part) vk::unit("faults:" + t.name + ":" + std::to_string(part), [=] {
            Run ref = traced(t.exe, t.args, {});
            if (part == 0 && vk::begin("%s without faults", cli::join(t.args).c_str())) { vk::traces(); vk::transitions(); if (!ref.ok()) vk::fail("exit code %d without any fault", ref.code); if (ref.files.empty()) vk::fail("no file"); vk::maxi("system_calls_on_files", ref.events.size()); size_t w = 0; for (auto& e : ref.events) w += e.k == WRITE; if (!w && t.name != "saveDot:n0" ) vk::fail("no write was seen"); }
            auto one = [&](const std::vector<Fault>& f, const std::string& what, bool harmless, bool must) { if (!vk::begin("%s | %s", cli::join(t.args).c_str(), what.c_str())) return; Run r = traced(t.exe, t.args, f); vk::traces(); vk::transitions(); if (!r.injected) { vk::count("not_reached"); return; } judge(r, ref.files, harmless, must); };
            for (size_t i = part; i < ref.events.size(); i += 4) {
                auto k = ref.events[i].k; std::string at = vk::fmt("call %zu of %zu (%s%s)", i, ref.events.size(), KIND[k], k == WRITE ? vk::fmt(" of %ld bytes", ref.events[i].n).c_str() : "");
                if (k == WRITE) {
                    for (int e : ERRS) for (int pers = 0; pers < 2; ++pers) { if (pers && e != ENOSPC && !T) continue; Fault f; f.at = i; f.err = e; f.persistent = pers; one({f}, at + (pers ? ", as all later writes," : "") + " fails: " + ERRN(e), false, false); }
                    { Fault f; f.at = i; f.err = EINTR; one({f}, at + " is interrupted", true, false); }
                    for (int s = 1; s <= 3; ++s) { Fault f; f.at = i; f.shorten = s; one({f}, at + vk::fmt(" is partial (%d)", s), true, false); f.persistent = true; one({f}, at + vk::fmt(" and all later ones are partial (%d)", s), true, false); Fault g; g.at = i + 1; g.err = ENOSPC; f.persistent = false; one({f, g}, at + vk::fmt(" is partial (%d) and the next write finds no space", s), false, false); Fault h = g; h.err = EINTR; one({f, h}, at + vk::fmt(" is partial (%d) and the next one is interrupted", s), false, false); }
                } else if (k == OPEN) { for (int e : {ENOSPC, EACCES, EMFILE, EROFS, ENOENT, EINTR}) { Fault f; f.at = i; f.err = e; one({f}, at + " fails: " + ERRN(e), false, false); } }
                else if (k == CLOSE) { for (int e : {EIO, ENOSPC, EDQUOT}) { Fault f; f.at = i; f.err = e; one({f}, at + " fails: " + ERRN(e), false, true); } }
                else for (int e : {EIO, ENOSPC}) { Fault f; f.at = i; f.err = e; one({f}, at + " fails: " + ERRN(e), false, false); }
                // two independent faults
                if (T || ref.events.size() < 12) for (size_t j = i + 1; j < ref.events.size(); ++j) if (ref.events[j].k == WRITE && k == WRITE) { Fault a, b; a.at = i; a.err = EINTR; b.at = j; b.err = ENOSPC; one({a, b}, at + vk::fmt(" is interrupted, call %zu finds no space", j), false, false); a.err = 0; a.shorten = 2; b.at = j + 1; one({a, b}, at + vk::fmt(" is partial, call %zu finds no space", j + 1), false, false); }
            }
        }, 100);
        // the disk is full after every number of bytes (all of them for small files, else around the buffers of the streams)
        vk::unit("full:" + t.name, [=] {
            Run ref = traced(t.exe, t.args, {}); long top = 0; for (auto& f : ref.files) top = std::max<long>(top, f.second.size());
            std::set<long> at; for (long k = 0; k <= top; ++k) if (top <= (T ? 60000 : 1500) || k % 4096 < 2 || k % 4096 == 4095 || k % 8191 < 2 || k % 8191 == 8190 || k < 20 || k + 20 > top) at.insert(k); for (auto& f : ref.files) for (long x = -2; x < 3; ++x) if ((long)f.second.size() + x >= 0) at.insert(f.second.size() + x);
            for (long k : at) { if (!vk::begin("%s | files are limited to %ld bytes", cli::join(t.args).c_str(), k)) continue; Run r = traced(t.exe, t.args, {}, nullptr, k); vk::traces(); vk::transitions(); judge(r, ref.files, false, false); if (!vk::failed() && k >= top && !r.ok()) vk::fail("exit code %d although everything fits", r.code); }
        }, 100);
        // names that cannot be opened or written
        vk::unit("names:" + t.name, [=] {
            auto name = [&](Args a, const std::string& v) { for (size_t i = 0; i < a.size(); ++i) if (a[i] == "-file") a[i + 1] = v; if (a[0] == "--savedot") a[2] = v + ".dot"; return a; };
            auto must_fail = [&](const std::string& what, const Args& a, std::function<void(const std::string&)> prep) { if (!vk::begin("%s | %s", cli::join(a).c_str(), what.c_str())) return; Run r = traced(t.exe, a, {}, prep); vk::traces(); vk::transitions(); vk::states(1); if (r.ok()) vk::fail("success is reported"); };
            must_fail("no such directory", name(t.args, "no/such/o"), nullptr); must_fail("name too long", name(t.args, std::string(300, 'x')), nullptr); must_fail("a file where a directory is needed", name(t.args, "f/o"), [](const std::string& c) { std::ofstream(c + "/f") << 1; });
            for (std::string ext : {".txt", ".dot", ".hyp"}) {
                Run ref = traced(t.exe, t.args, {}); if (!ref.files.count("o" + ext)) continue;
                must_fail("o" + ext + " is a directory", t.args, [=](const std::string& c) { std::filesystem::create_directory(c + "/o" + ext); });
                if (!ref.files["o" + ext].empty()) must_fail("o" + ext + " is /dev/full", t.args, [=](const std::string& c) { std::filesystem::create_symlink("/dev/full", c + "/o" + ext); });
                must_fail("o" + ext + " points to nowhere", t.args, [=](const std::string& c) { std::filesystem::create_symlink("no/such", c + "/o" + ext); });
                // an existing longer file is replaced
                if (vk::begin("%s | o%s exists and is longer", cli::join(t.args).c_str(), ext.c_str())) { Run r = traced(t.exe, t.args, {}, [=](const std::string& c) { std::ofstream f(c + "/o" + ext); for (int i = 0; i < 200000; ++i) f << "old data\n"; }); vk::traces(); vk::transitions(); judge(r, ref.files, true, false); }
            }
        }, 100);
    }
    int r = vk::main(argc, argv, "c21"); cli::done(); return r;
}
