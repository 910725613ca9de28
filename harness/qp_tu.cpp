// QDIM: 2 or 3
#include <iostream>
#include <fstream>
#include <sstream>
#include <memory>
#include <algorithm>
#include <numeric>
#include <cmath>
#include <map>
#include <list>
#include "qp_api.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
namespace qp {
namespace {
#if QDIM == 2
typedef disk::cartesian_mesh<double, 2> M;
#else
typedef disk::simplicial_mesh<double, 3> M;
#endif
typedef disk::static_matrix<double, QDIM, QDIM> SM;
struct BehI : Beh {
    std::shared_ptr<M> m; disk::Behavior<M> b;
    BehI(std::shared_ptr<M> m_, size_t degree, int def, int law) : m(m_), b(*m_, degree, (size_t)def, (size_t)law) {}
    BehI(const BehI&) = default;
    size_t cells() override { return m->cells_size(); } size_t points(size_t c) override { return b.numberOfQP(c); } size_t all_points() override { return b.numberOfQP(); }
    void eval(size_t c, size_t q, const double* F, bool tangent, double* stress, double* tan, size_t& ntan) override {
        SM f; for (int i = 0; i < QDIM; i++) for (int j = 0; j < QDIM; j++) f(i, j) = F[3 * i + j];
        auto r = b.compute_whole(c, q, f, tangent);
        for (int i = 0; i < QDIM; i++) for (int j = 0; j < QDIM; j++) stress[QDIM * i + j] = r.first(i, j);
        ntan = (size_t)r.second.size(); std::copy(r.second.data(), r.second.data() + ntan, tan);
    }
    void stress3(size_t c, size_t q, double* s) override { auto r = b.compute_stress3D(c, q); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s[3 * i + j] = r(i, j); }
    bool plastic(size_t c, size_t q) override { return b.is_plastic(c, q); }
    double p(size_t c, size_t q) override { return b.equivalentPlasticStrain(c, q); }
    void update() override { b.update(); }
    Beh* clone() override { return new BehI(*this); }
};
Beh* make(int level, size_t degree, int def, int law, const Data& d) {
    auto m = std::make_shared<M>(); { auto g = disk::make_simple_mesher(*m); for (int k = 0; k < level; k++) g.refine(); }
    auto b = std::make_unique<BehI>(m, degree, def, law);
    disk::MaterialData<double> md; md.setMu(d.E, d.nu); md.setLambda(d.E, d.nu); md.setH(d.H); md.setK(d.K); md.setSigma_y0(d.sy); md.setType((size_t)d.type); for (auto& c : d.curve) md.addCurvePoint(c.first, c.second); md.checkRpCurve();
    b->b.addMaterialData(md); return b.release();
}
}
#if QDIM == 2
const Kind& kind2() { static Kind k{2, make}; return k; }
#else
const Kind& kind3() { static Kind k{3, make}; return k; }
#endif
}
