// What the solver harness judges, behind plain types: the implementation is compiled with the shipped flags
#pragma once
#include <string>
#include <vector>
#include <map>
struct Mat { int rows = 0, cols = 0; std::vector<double> a; double& at(int i, int j) { return a[(size_t)i * cols + j]; } double at(int i, int j) const { return a[(size_t)i * cols + j]; } };   // dense, row by row
typedef std::vector<double> Vec;
struct Sparse; // the matrix as the caller of the library holds it
Sparse* make_sparse(const Mat& m); void drop(Sparse*); Mat image(const Sparse*); bool same_structure(const Sparse*, const Sparse*);
struct CgOpts { double tol = 1e-8, rr_max = 20; size_t max_iter = 100; bool verbose = false, hist = false, guess = false; std::string file; };
bool run_cg(const CgOpts&, Sparse*, const Vec& b, Vec& x);
bool run_pardiso(bool ldlt, int ooc, bool mflops, Sparse*, const Vec& b, Vec& x);
// linear_solver with named options: type, and "cg.*" / "pardiso.*" values
struct LuaOpts { std::string type; std::map<std::string, double> num; std::map<std::string, bool> flag; std::string hist; };
bool run_linear(const LuaOpts&, Sparse*, Vec& b, Vec& x);
struct Agmg; Agmg* make_agmg(int max_iters, double tol); void drop(Agmg*);
Vec run_agmg(Agmg*, Sparse*, Vec& b, bool& converged);
// FEAST written in the library (status as int: 0 success, 1 not converged, 2 invalid, 3 inner solver, 4 subspace too small)
struct FeastOpts { int tol = 9; double emin = 0, emax = 1; int m0 = 4; size_t max_iter = 20; };
int run_feast(const FeastOpts&, Sparse* A, Sparse* B, Mat& vecs, Vec& vals);
// wrapper of the external FEAST
int run_geneig(const FeastOpts&, bool verbose, Sparse* A, Sparse* B, Mat& vecs, Vec& vals, int& found, int& info);
