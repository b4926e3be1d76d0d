property = 'C06'
edits = [
    ('source/hypergirgs/include/hypergirgs/HyperbolicTree.inl', 'cv.notify_all();', 'cv.notify_one();'),
]
needs = 'at least three threads, two of which wait before the task list is complete'
breaks = 'all but one of the waiting threads sleep forever'
libs = 'hypergirgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <hypergirgs/Generator.h>
int main() {
    omp_set_num_threads(8); omp_set_dynamic(0);
    alarm(100); // a hang ends the process
    for (int i = 0; i < 20000; ++i) {
        auto r = hypergirgs::sampleRadii(40, 0.75, 7, i, false);
        auto a = hypergirgs::sampleAngles(40, i, false);
        hypergirgs::generateEdges(r, a, 0, 7, i);
    }
}
'''
