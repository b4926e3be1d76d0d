property = 'C25'
edits = [
    ('source/girgs/source/Generator.cpp', 'f << (d == 0 ? "" : ",") << positions[i][d];', 'f << (d == 0 ? "" : ",") << static_cast<float>(positions[i][d]);'),
]
needs = 'a coordinate whose sixth decimal changes when it is rounded to single precision'
breaks = 'positions in the dot file are off in the sixth decimal'
libs = 'girgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/Generator.h>
int main() {
    std::vector<std::vector<double>> x;
    std::string all;
    for (int i = 0; i < 300; ++i) x.push_back({(i * 3331 + 0.49) / 1e6, 0.5});
    girgs::saveDot(std::vector<double>(300, 1.0), x, {}, "g.dot");
    std::ifstream f("g.dot"); std::stringstream s; s << f.rdbuf();
    for (int i = 0; i < 300; ++i) {
        char want[100]; std::snprintf(want, sizeof want, "\t%d [label=\"1.00\", pos=\"%.6f,0.500000\"]", i, x[i][0]);
        DEMO(s.str().find(want) != std::string::npos, "missing: %s", want);
    }
}
'''
