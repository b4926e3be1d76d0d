// helpers shared by the demonstrations
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <atomic>
#include <condition_variable>
#include <cassert>
#include <omp.h>
#include <unistd.h>

using Edges = std::vector<std::pair<int, int>>;
static Edges canon(Edges e) {
    for (auto& x : e) if (x.first > x.second) std::swap(x.first, x.second);
    std::sort(e.begin(), e.end());
    return e;
}
#define DEMO(c, ...) do { if (!(c)) { std::printf("BROKEN: " __VA_ARGS__); std::printf("\n"); std::exit(1); } } while (0)
