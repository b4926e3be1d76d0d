property = 'C19'
edits = [
    ('source/cli/gengirg/main.cpp', '    if (edge) {\n        cout << "writing edge list', '    if (edge && !dot) {\n        cout << "writing edge list'),
]
needs = 'both output formats requested at once'
breaks = 'the edge list is not written if the dot file is requested, too'
libs = ''
flags = '-DNDEBUG'
cli = 'gengirg'
demo = r'''
#include "demo.h"
int main() {
    DEMO(std::system("./tool -n 50 -deg 4 -dot 1 -edge 1 -file g >/dev/null 2>&1") == 0, "exit code");
    DEMO(std::ifstream("g.dot").good() && std::ifstream("g.txt").good(), "a requested file is missing");
}
'''
