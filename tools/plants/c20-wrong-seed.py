property = 'C20'
edits = [
    ('source/cli/genhrg/main.cpp', 'hypergirgs::generateEdges(radii, angles, T, R, sseed)', 'hypergirgs::generateEdges(radii, angles, T, R, rseed)'),
]
needs = 'positive temperature and two runs that differ in the sampling seed (or radius seed) only'
breaks = 'the sampling seed option has no effect'
libs = ''
flags = '-DNDEBUG'
cli = 'genhrg'
demo = r'''
#include "demo.h"
static std::string slurp(const char* f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
int main() {
    DEMO(std::system("./tool -n 300 -deg 8 -t 0.5 -sseed 1 -edge 1 -file a >/dev/null 2>&1") == 0, "exit code");
    DEMO(std::system("./tool -n 300 -deg 8 -t 0.5 -sseed 2 -edge 1 -file b >/dev/null 2>&1") == 0, "exit code");
    DEMO(slurp("a.txt") != slurp("b.txt"), "same graph for different sampling seeds");
}
'''
