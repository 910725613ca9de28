// The nonlinear solver behind plain data: problems go in, results come out.  Each kind of mesh is compiled from
// newton_mesh.cpp with the shipped flags (-O3 -ffast-math); everything that judges is compiled without them.
#pragma once
#include <string>
#include <vector>
#include <utility>
#include <functional>
#include <cstddef>
namespace nw {
typedef std::vector<double> Vec;
struct Problem {
    int level = 0;                                        // of the mesh
    int def = 0, law = 0;                                 // DeformationMeasure, LawType
    double E = 1000, nu = 0.3, H = 100, K = 0, sy = 1e9;  // material
    std::vector<std::pair<double, double>> curve;         // Rp(p) for the nonlinear hardening
    int fd = 1, cd = 1, gd = 1;                           // degrees
    bool stab = true, adapt = false, precomp = true, dynamic = false; int stab_type = 0; double beta = 1;
    std::vector<std::pair<double, int>> steps; bool has_end = false; double end = 0;
    int sublevel = 2, iter_max = 10; double eps = 1e-8;
    std::vector<double> saves; int n_save = 0;
    int bc = 0;                                           // 0 displacement A x everywhere; 1 the same on one side, traction S n elsewhere; 2 clamped side, traction; 3 partly free (DX/DY sides)
    double A[9] = {}, S[9] = {};
    bool recompute = false;                               // call compute() a second time on the same solver
};
struct Result {
    std::string how = "ok"; bool converged = false, converged1 = false; size_t iter = 0, time_step = 0, cells = 0, dofs = 0;
    double t_solver = 0, t_newton = 0, t_assembly = 0, t_solve = 0, t_grad = 0, t_elem = 0, t_law = 0, t_stab = 0, t_cond = 0, t_post = 0;
    double l2 = 0;                                        // distance of the cell displacements to tA x
    std::vector<Vec> out;                                 // what the output functions show, in the order of output_names
};
struct Callbacks {
    std::function<void(const double* x, double t, double* f)> load; // may throw
    std::function<void(bool)> sut;                        // the code under test is entered/left
    std::function<void(int)> begin;                       // compute() is called for the n-th time
};
struct Kind { const char* name; int dim; Result (*run)(const Problem&, const Callbacks&, double t_final); };
extern const Kind& newton_tri(); extern const Kind& newton_quad(); extern const Kind& newton_poly(); extern const Kind& newton_tet();
// time manager and timers (compiled once, in newton_mesh.cpp with MESH=0)
struct Steps { virtual ~Steps() {} virtual bool empty() = 0; virtual size_t total() = 0, remaining() = 0, done() = 0, index() = 0; virtual void current(double& a, double& b, size_t& level) = 0; virtual void split() = 0; virtual void accept() = 0; };
Steps* make_steps(const std::vector<std::pair<double, int>>& l, bool has_end, double end, int ctor);
struct Timer { virtual ~Timer() {} virtual void tic() = 0; virtual double toc() = 0; virtual double elapsed() = 0; };
Timer* make_timer();
}
