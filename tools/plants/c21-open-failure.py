property = 'C21'
edits = [
    ('source/cli/genhrg/main.cpp', 'if(!f.is_open()) throw std::runtime_error{"Error: failed to open file \\"" + file + ".hyp\\""};', 'if(!f.is_open()) { cerr << "Error: failed to open file \\"" << file << ".hyp\\"" << endl; return 0; }'),
]
needs = 'a coordinate file that cannot be opened'
breaks = 'the tool exits successfully without the requested file'
libs = ''
flags = '-DNDEBUG'
cli = 'genhrg'
demo = r'''
#include "demo.h"
int main() {
    DEMO(std::system("./tool -n 300 -deg 8 -coord 1 -file no/such/folder/a >/dev/null 2>&1") != 0, "success without a coordinate file");
}
'''
