// MESH: 0 simplicial 2D, 1 cartesian 2D, 2 polygonal 2D, 3 simplicial 3D
#include <iostream>
#include <fstream>
#include <sstream>
#include <memory>
#include <algorithm>
#include <numeric>
#include <cmath>
#include <map>
#include <list>
#include "newton_api.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/mechanics/NewtonSolver/NewtonSolver.hpp"
#include "diskpp/mechanics/behaviors/laws/behaviorlaws.hpp"
namespace nw {
extern std::vector<Vec>* collect;
#if MESH == 0
typedef disk::simplicial_mesh<double, 2> M;
#define NAME newton_tri
#elif MESH == 1
typedef disk::cartesian_mesh<double, 2> M;
#define NAME newton_quad
#elif MESH == 2
typedef disk::generic_mesh<double, 2> M;
#define NAME newton_poly
#else
typedef disk::simplicial_mesh<double, 3> M;
#define NAME newton_tet
#endif
namespace {
constexpr int D = M::dimension;
typedef disk::point<double, M::dimension> P; typedef disk::static_vector<double, D> SV;
std::unique_ptr<M> mesh(int level) {
    auto m = std::make_unique<M>();
#if MESH == 2
    { auto g = disk::make_fvca5_hex_mesher(*m); g.make_level((size_t)level); }
#else
    auto g = disk::make_simple_mesher(*m); for (int k = 0; k < level; k++) g.refine();
#endif
    return m;
}
Result run(const Problem& p, const Callbacks& cb, double t_final) {
    Result r; cb.sut(true);
    try {
        auto msh = mesh(p.level); r.cells = msh->cells_size();
        typedef disk::vector_boundary_conditions<M> B; typedef disk::mechanics::NewtonSolver<M> S;
        B bnd(*msh);
        auto lin = [&p](const P& x) { SV v; for (int i = 0; i < D; i++) { v(i) = 0; for (int j = 0; j < D; j++) v(i) += p.A[3 * i + j] * x.at(j); } return v; };
        auto zero = [](const P&) { SV v = SV::Zero(); return v; };
        // sides of the unit box, found from the coordinates: each boundary face gets its own traction S n
        if (p.bc == 0) bnd.addDirichletEverywhere(lin);
        else {
            std::map<size_t, SV> side; // boundary id -> outward normal, as far as it is one plane
            std::map<size_t, bool> flat; std::vector<size_t> order;
            for (auto& cl : *msh) for (auto& f : disk::faces(*msh, cl)) if (msh->is_boundary(f)) { size_t id = msh->boundary_id(f); SV n = disk::normal(*msh, cl, f); if (!side.count(id)) { side[id] = n; flat[id] = true; order.push_back(id); } else if ((side[id] - n).norm() > 1e-9) flat[id] = false; }
            std::sort(order.begin(), order.end()); size_t k = 0;
            for (size_t id : order) {
                SV n = side[id]; SV t; for (int i = 0; i < D; i++) { t(i) = 0; for (int j = 0; j < D; j++) t(i) += p.S[3 * i + j] * n(j); }
                auto trac = [t](const P&) { return t; };
                if (k == 0 || !flat[id]) { if (p.bc == 1) bnd.addDirichletBC(disk::DIRICHLET, id, lin); else bnd.addDirichletBC(p.bc == 2 ? disk::CLAMPED : disk::DIRICHLET, id, zero); }
                else if (p.bc == 3 && k == 1) bnd.addDirichletBC(disk::DX, id, lin);
                else if (p.bc == 3 && k == 2) bnd.addDirichletBC(disk::DY, id, lin);
                else bnd.addNeumannBC(disk::NEUMANN, id, trac);
                k++;
            }
        }
        NewtonSolverParameter<double> rp;
        rp.m_face_degree = p.fd; rp.m_cell_degree = p.cd; rp.m_grad_degree = p.gd; rp.m_stab = p.stab; rp.m_stab_type = p.stab_type; rp.m_beta = p.beta; rp.m_adapt_stab = p.adapt; rp.m_precomputation = p.precomp; rp.m_dynamic = p.dynamic; if (p.dynamic) rp.setUnsteadyParameters({{"beta", 0.25}, {"gamma", 0.5}, {"rho", 1.0}});
        rp.m_time_step = p.steps; rp.m_has_user_end_time = p.has_end; rp.m_user_end_time = p.end; rp.m_sublevel = p.sublevel; rp.m_iter_max = p.iter_max; rp.m_epsilon = p.eps; rp.m_n_time_save = p.n_save; for (double t : p.saves) rp.m_time_save.push_back(t);
        S solver(*msh, bnd, rp); solver.addBehavior((size_t)p.def, (size_t)p.law);
        disk::MaterialData<double> md; md.setMu(p.E, p.nu); md.setLambda(p.E, p.nu); md.setH(p.H); md.setK(p.K); md.setSigma_y0(p.sy); for (auto& c : p.curve) md.addCurvePoint(c.first, c.second);
        solver.addMaterialData(md);
        auto load = [&cb](const P& x, const double& t) { double c[3] = {}, f[3] = {}; for (int i = 0; i < D; i++) c[i] = x.at(i); cb.load(c, t, f); SV v; for (int i = 0; i < D; i++) v(i) = f[i]; return v; };
        cb.begin(0); SolverInfo si = solver.compute(load); r.converged1 = solver.convergence(); if (p.recompute) { cb.begin(1); si = solver.compute(load); }
        r.converged = solver.convergence(); r.iter = si.m_iter; r.time_step = si.m_time_step; r.dofs = solver.numberOfDofs();
        auto& ni = si.m_newton_info; auto& a = ni.m_assembly_info; r.t_solver = si.m_time_solver; r.t_newton = ni.m_time_newton; r.t_solve = ni.m_solve_info.m_time_solve;
        r.t_assembly = a.m_time_assembly; r.t_grad = a.m_time_gradrec; r.t_elem = a.m_time_elem; r.t_law = a.m_time_law; r.t_stab = a.m_time_stab; r.t_cond = a.m_time_statcond; r.t_post = a.m_time_postpro;
        cb.sut(false); // faults end here: what follows only shows the state
        r.l2 = solver.compute_l2_displacement_error([&](const P& x) { SV v = lin(x); return SV(t_final * v); });
        collect = &r.out;
        solver.output_discontinuous_displacement("depl"); solver.output_continuous_displacement("deplc"); solver.output_CauchyStress_GP("stress"); solver.output_CauchyStress_GP("stressd", true); solver.output_discontinuous_deformed("deformed"); solver.output_is_plastic_GP("plastic"); solver.output_stabCoeff("stab"); solver.output_equivalentPlasticStrain_GP("eps");
        collect = nullptr; cb.sut(true);
    } catch (const std::bad_alloc&) { r.how = "bad_alloc"; } catch (const std::exception& e) { r.how = std::string("exception ") + e.what(); } catch (...) { r.how = "unknown exception"; }
    collect = nullptr; cb.sut(false); return r;
}
}
#define STR2(x) #x
#define STR(x) STR2(x)
const Kind& NAME() { static Kind k{STR(NAME), D, run}; return k; }
#if MESH == 0
typedef disk::mechanics::ListOfTimeStep<double> L;
struct StepsI : Steps {
    L l; explicit StepsI(const L& x) : l(x) {}
    bool empty() override { return l.empty(); } size_t total() override { return l.numberOfTimeStep(); } size_t remaining() override { return l.numberOfRemainingTimeStep(); } size_t done() override { return l.numberOfTimeStepRealized(); } size_t index() override { return l.indexOfCurrentTimeStep(); }
    void current(double& a, double& b, size_t& lv) override { auto s = l.getCurrentTimeStep(); a = s.start_time(); b = s.end_time(); lv = s.level(); }
    void split() override { l.splitCurrentTimeStep(); } void accept() override { l.removeCurrentTimeStep(); }
};
Steps* make_steps(const std::vector<std::pair<double, int>>& l, bool has_end, double end, int ctor) {
    if (ctor == 1) return new StepsI(L(l[0].first, (size_t)l[0].second));
    if (ctor == 2) return new StepsI(L());
    return new StepsI(has_end ? L(l, end) : L(l));
}
struct TimerI : Timer { timecounter t; void tic() override { t.tic(); } double toc() override { return t.toc(); } double elapsed() override { return t.elapsed(); } };
Timer* make_timer() { return new TimerI; }
#endif
}
