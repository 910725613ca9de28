// The code under test of the solver harness: compiled with the shipped flags
#include "solver_api.hpp"
#include <complex>
#include <iostream>
#include <fstream>
#include "diskpp/solvers/solver.hpp"
#include "diskpp/solvers/feast.hpp"
typedef Eigen::SparseMatrix<double> SM; typedef Eigen::Matrix<double, Eigen::Dynamic, 1> EV;
struct Sparse { SM m; };
Sparse* make_sparse(const Mat& m) { auto* s = new Sparse; s->m.resize(m.rows, m.cols); std::vector<Eigen::Triplet<double>> t; for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) { double v = m.at(i, j); if (v != 0 || v != v) t.push_back({i, j, v}); } s->m.setFromTriplets(t.begin(), t.end()); return s; }
void drop(Sparse* s) { delete s; }
Mat image(const Sparse* s) {
    Mat m; m.rows = (int)s->m.rows(); m.cols = (int)s->m.cols(); m.a.assign((size_t)m.rows * m.cols, 0);
    auto* o = s->m.outerIndexPtr(); auto* in = s->m.innerIndexPtr(); auto* v = s->m.valuePtr(); if (!s->m.isCompressed()) return Mat();
    for (int j = 0; j < m.cols; j++) for (int k = o[j]; k < o[j + 1]; k++) { if (o[j] < 0 || o[j + 1] > (int)s->m.nonZeros() || in[k] < 0 || in[k] >= m.rows) return Mat(); m.a[(size_t)in[k] * m.cols + j] = v[k]; }
    return m;
}
static EV ev(const Vec& v) { EV e((Eigen::Index)v.size()); for (size_t i = 0; i < v.size(); i++) e((Eigen::Index)i) = v[i]; return e; }
static Vec vv(const EV& e) { return Vec(e.data(), e.data() + e.size()); }
bool run_cg(const CgOpts& o, Sparse* A, const Vec& b, Vec& x) {
    disk::solvers::conjugated_gradient_params<double> p; p.rr_tol = o.tol; p.rr_max = o.rr_max; p.max_iter = o.max_iter; p.verbose = o.verbose; p.save_iteration_history = o.hist; p.use_initial_guess = o.guess; p.history_filename = o.file;
    EV eb = ev(b), ex = ev(x); bool ok = disk::solvers::conjugated_gradient(p, A->m, eb, ex); x = vv(ex); return ok;
}
bool run_pardiso(bool ldlt, int ooc, bool mflops, Sparse* A, const Vec& b, Vec& x) {
    disk::solvers::pardiso_params<double> p; p.out_of_core = ooc; p.report_factorization_Mflops = mflops;
    EV eb = ev(b), ex = ev(x); bool ok = ldlt ? disk::solvers::mkl_pardiso_ldlt(p, A->m, eb, ex) : disk::solvers::mkl_pardiso(p, A->m, eb, ex); x = vv(ex); return ok;
}
bool run_linear(const LuaOpts& o, Sparse* A, Vec& b, Vec& x) {
    sol::state lua; disk::solvers::init_lua(lua); if (!o.type.empty()) lua["solver"]["solver_type"] = o.type;
    for (auto& [k, v] : o.num) { auto d = k.find('.'); lua["solver"][k.substr(0, d)][k.substr(d + 1)] = v; }
    for (auto& [k, v] : o.flag) { auto d = k.find('.'); lua["solver"][k.substr(0, d)][k.substr(d + 1)] = v; }
    if (!o.hist.empty()) lua["solver"]["cg"]["hist_file"] = o.hist;
    EV eb = ev(b), ex = ev(x); bool ok = disk::solvers::linear_solver(lua, A->m, eb, ex); x = vv(ex); b = vv(eb); return ok;
}
struct Agmg { disk::solvers::agmg_solver<double> s; };
Agmg* make_agmg(int max_iters, double tol) { disk::solvers::agmg_solver_config<double> c; c.max_iters = max_iters; c.tolerance = tol; return new Agmg{disk::solvers::agmg_solver<double>(c)}; }
void drop(Agmg* a) { delete a; }
Vec run_agmg(Agmg* a, Sparse* A, Vec& b, bool& conv) { EV eb = ev(b); EV x = a->s.solve(A->m, eb); b = vv(eb); conv = a->s.converged(); return vv(x); }
static disk::feast_eigensolver_params<double> fp(const FeastOpts& o) { disk::feast_eigensolver_params<double> p; p.verbose = false; p.tolerance = o.tol; p.min_eigval = o.emin; p.max_eigval = o.emax; p.subspace_size = o.m0; p.max_iter = o.max_iter; p.fis = disk::feast_inner_solver::eigen_sparselu; p.eigvals_found = -1; p.feast_info = -77; return p; }
static void out(const Eigen::MatrixXd& X, const EV& e, Mat& vecs, Vec& vals) { vecs.rows = (int)X.rows(); vecs.cols = (int)X.cols(); vecs.a.assign((size_t)X.size(), 0); for (int i = 0; i < vecs.rows; i++) for (int j = 0; j < vecs.cols; j++) vecs.at(i, j) = X(i, j); vals = vv(e); }
int run_feast(const FeastOpts& o, Sparse* A, Sparse* B, Mat& vecs, Vec& vals) {
    Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> X; EV e; auto st = disk::feast(fp(o), A->m, B->m, X, e); out(X, e, vecs, vals);
    switch (st) { case disk::feast_status::success: return 0; case disk::feast_status::did_not_converge: return 1; case disk::feast_status::invalid_input: return 2; case disk::feast_status::inner_solver_problem: return 3; default: return 4; }
}
int run_geneig(const FeastOpts& o, bool verbose, Sparse* A, Sparse* B, Mat& vecs, Vec& vals, int& found, int& info) {
    Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> X; EV e; auto p = fp(o); p.verbose = verbose; int r = disk::generalized_eigenvalue_solver(p, A->m, B->m, X, e); out(X, e, vecs, vals); found = p.eigvals_found; info = p.feast_info; return r;
}
