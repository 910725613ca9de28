// Material laws behind plain data (C16)
#pragma once
#include <vector>
#include <utility>
#include <cstddef>
namespace qp {
struct Data { double E = 1000, nu = 0.3, H = 100, K = 0, sy = 1; int type = 1; std::vector<std::pair<double, double>> curve; };
struct Beh {
    virtual ~Beh() {}
    virtual size_t cells() = 0, points(size_t c) = 0, all_points() = 0;
    // evaluation: F is 3x3 row by row, of which the law's dimension is used; may throw
    virtual void eval(size_t c, size_t q, const double* F, bool tangent, double* stress, double* tan, size_t& ntan) = 0;
    virtual void stress3(size_t c, size_t q, double* s) = 0;
    virtual bool plastic(size_t c, size_t q) = 0;
    virtual double p(size_t c, size_t q) = 0;
    virtual void update() = 0;
    virtual Beh* clone() = 0;
};
struct Kind { int dim; Beh* (*make)(int level, size_t degree, int def, int law, const Data& d); };
const Kind& kind2(); const Kind& kind3();
}
