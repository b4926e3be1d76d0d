property = 'C14'
edits = [
    ('source/girgs/source/Generator.cpp', 'if(alpha > 8.0)', 'if(alpha > 5.0)'),
]
needs = 'alpha between 5 and 8'
breaks = 'the threshold estimate is used where it is not accurate, so the average degree is missed'
libs = 'girgs'
flags = '-DNDEBUG'
demo = r'''
#include "demo.h"
#include <girgs/Generator.h>
int main() {
    for (double alpha : {1.5, 3.0, 5.0, 5.5, 6.0, 7.0, 8.0}) {
        const int n = 1000;
        std::vector<double> w(n);
        for (int i = 0; i < n; ++i) w[i] = std::pow((i + 1.0) / n, -1 / 1.5);
        girgs::scaleWeights(w, 50.0, 1, alpha);
        double W = 0, sum = 0; for (double x : w) W += x;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) {
            const double q = 2 * w[i] * w[j] / W;
            sum += q >= 1 ? 1 : (alpha * q - std::pow(q, alpha)) / (alpha - 1);
        }
        DEMO(std::abs(sum / n - 50.0) < 0.03, "alpha %g: average degree %g", alpha, sum / n);
    }
}
'''
