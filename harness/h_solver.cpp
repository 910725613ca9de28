// Linear and eigenvalue solver front ends with failing back ends: C18, C23
#include "../sim/rt.hpp"
#include "solver_api.hpp"
#include <complex>
#include <memory>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <limits>
#include <new>
using namespace sim;
namespace pardiso_sim {   // as declared by the Pardiso stand-in
struct Hook { virtual ~Hook() {} virtual int phase(int kind, int phase, long rows) = 0; virtual void solved(const double* rhs, double* x, long n) = 0; };
extern Hook* hook; double nan_value(); double inf_value(); void damage(int verdict, double* x, long n);
Hook* hook = nullptr; void work(bool in) { pause_faults(in); }
extern void (*inside)(bool); void (*inside)(bool) = work;
double nan_value() { return std::numeric_limits<double>::quiet_NaN(); }
double inf_value() { return std::numeric_limits<double>::infinity(); }
void damage(int, double* x, long n) { for (long i = 0; i < n; i++) x[i] = 1e3 * (((i * 7919) % 13) - 6) + 1; }
}
static int fatal(const char* w) { violation("backend", w); }
// ------------------------------------------------------------------ dense helpers of the judge
static bool gauss(Mat A, Vec b, Vec& x) {
    int n = A.rows; for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (std::fabs(A.at(i, k)) > std::fabs(A.at(p, k))) p = i; if (A.at(p, k) == 0) return false; if (p != k) { for (int j = 0; j < n; j++) std::swap(A.at(p, j), A.at(k, j)); std::swap(b[p], b[k]); } for (int i = k + 1; i < n; i++) { double f = A.at(i, k) / A.at(k, k); if (f != 0) { for (int j = k; j < n; j++) A.at(i, j) -= f * A.at(k, j); b[i] -= f * b[k]; } } }
    x.assign(n, 0); for (int i = n - 1; i >= 0; i--) { double s = b[i]; for (int j = i + 1; j < n; j++) s -= A.at(i, j) * x[j]; x[i] = s / A.at(i, i); } return true;
}
static bool fin(double v) { uint64_t u; memcpy(&u, &v, 8); return (u & 0x7ff0000000000000ull) != 0x7ff0000000000000ull; }
static bool fin(const Vec& v) { for (double x : v) if (!fin(x)) return false; return true; }
static double norm(const Vec& v) { double s = 0; for (double x : v) s += x * x; return std::sqrt(s); }
static double fro(const Mat& m) { return norm(m.a); }
static Vec residual(const Mat& A, const Vec& x, const Vec& b) { Vec r = b; for (int i = 0; i < A.rows; i++) for (int j = 0; j < A.cols; j++) r[i] -= A.at(i, j) * x[j]; return r; }
static bool equal(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
static bool equal(const Mat& a, const Mat& b) { return a.rows == b.rows && a.cols == b.cols && equal(a.a, b.a); }
// ------------------------------------------------------------------ systems
enum { LAPLACE, SPD, SCALED, INDEF, ZEROROW, NONSYM, ZEROMAT, BADNUM, RECT, NKIND };
static Mat system_of(int kind, int n, uint64_t seed) {
    Rng r(seed); Mat m; m.rows = n; m.cols = kind == RECT ? n + 1 : n; m.a.assign((size_t)m.rows * m.cols, 0); auto S = [&](int i, int j, double v) { m.at(i, j) = v; m.at(j, i) = v; };
    if (kind == ZEROMAT) return m;
    if (kind == LAPLACE) { for (int i = 0; i < n; i++) { S(i, i, 2); if (i) S(i, i - 1, -1); } return m; }
    if (kind == RECT) { for (auto& v : m.a) v = r.unit(); return m; }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (r.chance(0.4)) { double v = r.unit() * 2 - 1; S(i, j, v); if (kind == NONSYM) m.at(j, i) = r.unit() * 2 - 1; }
    for (int i = 0; i < n; i++) { double s = 0.5 + r.unit(); for (int j = 0; j < n; j++) if (j != i) s += std::max(std::fabs(m.at(i, j)), std::fabs(m.at(j, i))); m.at(i, i) = s; if (kind == INDEF && r.chance(0.4)) m.at(i, i) = -s; }
    if (kind == SCALED) { Vec d(n); for (auto& x : d) x = std::pow(10., r.range(-3, 3)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m.at(i, j) *= d[i] * d[j]; }
    if (kind == ZEROROW) { int k = (int)r.below(n); for (int i = 0; i < n; i++) m.at(i, k) = m.at(k, i) = 0; }
    if (kind == BADNUM) m.at((int)r.below(n), (int)r.below(n)) = r.chance(0.5) ? pardiso_sim::nan_value() : pardiso_sim::inf_value();
    return m;
}
static Vec rhs_of(int kind, int n, uint64_t seed) {
    Rng r(seed); Vec b(n, 0.); switch (kind) { case 0: break; case 1: for (auto& x : b) x = r.unit() * 2 - 1; break; case 2: b[r.below(n)] = 1; break; case 3: for (auto& x : b) x = (r.unit() * 2 - 1) * 1e150; break; case 4: for (auto& x : b) x = (r.unit() * 2 - 1) * 1e-150; break; case 5: b[r.below(n)] = pardiso_sim::nan_value(); break; default: for (auto& x : b) x = (double)r.range(-3, 3); } return b;
}
// ------------------------------------------------------------------ the stand-ins
struct PHook : pardiso_sim::Hook {
    int last = -1; bool failed = false;
    int phase(int, int ph, long) override { Harness h; static const char* k[] = {"pardiso0", "pardiso1", "pardiso2"}; auto a = fault_point(k[ph]); log("pardiso phase %d %s", ph, a.c_str()); if (a == "fail") { failed = true; return 1; } return 0; }
    void solved(const double*, double*, long) override {}
};
static PHook phook;
static int agmg_limit = 0, agmg_need = 0, agmg_calls = 0; static bool agmg_conv = false;
extern "C" {
void sagmg_(int&, float*, int*, int*, float*, float*, int&, int&, int&, int&, double&) { fatal("sagmg"); }
void cagmg_(int&, std::complex<float>*, int*, int*, std::complex<float>*, std::complex<float>*, int&, int&, int&, int&, double&) { fatal("cagmg"); }
void zagmg_(int&, std::complex<double>*, int*, int*, std::complex<double>*, std::complex<double>*, int&, int&, int&, int&, double&) { fatal("zagmg"); }
// AGMG: rows by rows with one-based indices, transposed if ijob >= 100; iter: limit on entry, iterations done on exit, negative without convergence
void dagmg_(int& N, double* a, int* ja, int* ia, double* f, double* x, int& ijob, int&, int&, int& iter, double& tol) {
    Harness h; auto act = fault_point("agmg"); agmg_calls++;
    if (ia[0] != 1) fatal("AGMG was given indices that are not one-based"); Mat A; A.rows = A.cols = N; A.a.assign((size_t)N * N, 0);
    for (int i = 0; i < N; i++) { if (ia[i + 1] < ia[i]) fatal("AGMG was given row pointers that decrease"); for (int k = ia[i]; k < ia[i + 1]; k++) { int j = ja[k - 1]; if (j < 1 || j > N) fatal("AGMG was given a column index that does not exist"); if (ijob >= 100) A.at(j - 1, i) = a[k - 1]; else A.at(i, j - 1) = a[k - 1]; } }
    if (ijob != 0 && ijob != 100) fatal("AGMG was given an unknown job"); if (!(tol > 0)) fatal("AGMG was given a tolerance that is not positive");
    agmg_limit = iter; Vec b(f, f + N), y; bool ok = act != "noconv" && agmg_need <= iter && fin(A.a) && fin(b) && gauss(A, b, y) && fin(y);
    log("agmg limit %d need %d %s -> %d", iter, agmg_need, act.c_str(), (int)ok);
    for (int i = 0; i < N; i++) { x[i] = ok ? y[i] : 1e3 + i; f[i] = 0; } iter = ok ? agmg_need : -iter; agmg_conv = ok; if (act == "slow") clock_advance(1000000000ull);
}
}
// ------------------------------------------------------------------ C18
static Plan gen18(Rng& r, int tier) {
    Plan p; p.cfg("sched_seed", r.below(1u << 30)); p.cfg("heap_mb", 128); int n = (int)r.range(1, tier ? 8 : 5);
    for (int i = 0; i < n; i++) {
        int kind = r.chance(0.55) ? (int)r.below(3) : (int)r.below(NKIND), sz = (int)r.range(1, r.chance(0.2) ? 40 : 10), rk = r.chance(0.7) ? 1 + (int)r.below(2) : (int)r.below(7); uint64_t seed = r.below(1u << 30);
        double tol = std::pow(10., -(double)r.range(2, 11)), rr = r.chance(0.8) ? 20 : r.chance(0.5) ? 1e6 : 1.5; int64_t mi = r.chance(0.3) ? r.range(0, 5) : r.chance(0.5) ? 100 : 1000;
        int op = (int)r.below(10);
        if (op < 4) p.put("cg", kind, sz, seed, rk, tol, rr, mi, (int)r.chance(0.6), (int)r.chance(0.3), (int)r.chance(0.2), (int)r.below(40));
        else if (op < 6) p.put("pardiso", kind == BADNUM || kind == RECT || rk == 5 ? (int)SPD : kind, sz, seed, rk == 5 ? 1 : rk, (int)r.chance(0.5), (int)r.below(4), (int)r.chance(0.3));
        else if (op < 8) p.put("linear", kind == RECT ? (int)SPD : kind, sz, seed, rk, r.below(4), tol, rr, mi, (int)r.chance(0.5), r.below(8));
        else p.put("agmg", kind == BADNUM || kind == RECT || rk == 5 ? (int)SPD : kind, sz, seed, rk == 5 ? 1 : rk, r.below(2), r.range(1, 60), r.range(1, 50));
    }
    return p;
}
static void place18(Rng& r, Plan& p, const Counts& c) {
    int n = (int)r.below(4); auto at = [&](const char* k) { return r.range(1, std::max<int64_t>(1, (int64_t)c.of(k))); };
    for (int i = 0; i < n; i++) switch (r.below(8)) {
        case 0: p.put("fault", "pardiso0", at("pardiso0"), "fail", 0); break; case 1: p.put("fault", "pardiso1", at("pardiso1"), "fail", 0); break; case 2: p.put("fault", "pardiso2", at("pardiso2"), "fail", 0); break;
        case 3: p.put("fault", "agmg", at("agmg"), r.chance(0.9) ? "noconv" : "slow", 0); break;
        case 4: p.put("fault", "open", at("open"), r.chance(0.5) ? "eacces" : "emfile", 0); break;
        case 5: case 6: p.put("fault", "write", at("write"), r.chance(0.5) ? "enospc" : "eio", r.below(2)); break;
        default: if (r.chance(0.4)) p.put("fault", "alloc", at("alloc"), "enomem", 0); else p.put("fault", "close", at("close"), "eio", 0);
    }
}
struct Held { Sparse* s; Mat m; explicit Held(const Mat& x) : m(x) { pause_faults(true); { Sut q; s = make_sparse(m); } m = image(s); pause_faults(false); } ~Held() { Sut q; drop(s); } };
static bool judged_kind(int k) { return k == LAPLACE || k == SPD || k == SCALED || k == INDEF || k == NONSYM; }
static std::string g_how;
template<class F> static bool call(F f, bool* r) { g_how = "ok"; uint64_t d0 = destructive_fired(); try { Sut s; *r = f(); return true; } catch (const std::bad_alloc&) { g_how = "bad_alloc"; } catch (const std::exception& e) { g_how = std::string("exception ") + e.what(); } catch (...) { g_how = "unknown exception"; } if (g_how == "bad_alloc" && destructive_fired() > d0) { probe("out_of_memory"); return false; } violation("exception", "a solver ended with " + g_how); return false; }
static void check_cg(const Mat& A, const Vec& b, const Vec& x0, const Vec& x, bool ok, int kind, double tol, double rr, size_t mi, bool guess, const char* who) {
    if (!ok) {
        if (fin(b) && norm(b) == 0 && (!guess || norm(x0) == 0) && kind != BADNUM && kind != RECT) violation("refused", std::string(who) + ": false although the first vector has no residual");
        if (kind == SPD && rr >= 20 && mi >= 200 && fin(b) && norm(b) < 1e100 && norm(b) > 1e-100 && !guess && tol >= 1e-9) violation("refused", std::string(who) + ": false for a well-conditioned system that converges");
        if (kind == SPD || kind == LAPLACE) probe("no_convergence_reported"); return;
    }
    if (kind == RECT) violation("false-success", std::string(who) + ": true for a matrix that is not square");
    if (!fin(x)) violation("false-success", std::string(who) + ": true with a solution that is not finite");
    if (!fin(b) || !fin(A.a)) violation("false-success", std::string(who) + ": true for a system with numbers that are not finite");
    double nb = norm(b); if (nb > 1e100 || (nb != 0 && nb < 1e-100)) { probe("extreme_rhs"); return; }   // squares overflow or vanish
    Vec r0 = residual(A, x0, b), r = residual(A, x, b); double n0 = norm(r0), nr = norm(r), slack = (kind <= SCALED ? 1e-12 : 1e-9) * (rr * n0 + fro(A) * (norm(x) + norm(x0)));
    if (kind == SCALED) slack *= 1e4;
    if (nr > tol * n0 * 1.0001 + slack) violation("false-success", std::string(who) + ": true with a residual of " + Plan::str(nr / n0) + " instead of " + Plan::str(tol));
    probe("solutions_checked"); if (n0 == 0) probe("zero_residual");
}
static void check_direct(const Mat& A, const Vec& b, const Vec& x, bool ok, int kind, bool failed, const char* who) {
    if (ok && failed) violation("false-success", std::string(who) + ": true although a phase of the solver failed");
    if (!ok && !failed && judged_kind(kind)) violation("refused", std::string(who) + ": false although every phase succeeded");
    if (ok && (kind == ZEROROW || kind == ZEROMAT)) violation("false-success", std::string(who) + ": true for a singular matrix");
    if (ok) { Vec r = residual(A, x, b); double s = fro(A) * norm(x) + norm(b); if (!fin(x) || !(norm(r) <= 1e-9 * s)) if (norm(b) < 1e100 && (norm(b) == 0 || norm(b) > 1e-100)) violation("false-success", std::string(who) + ": true with a residual of " + Plan::str(norm(r) / s)); probe("direct_solutions_checked"); }
    else probe("failures_reported");
}
static void exec18(const Plan& p) {
    set_step_limit(2000000000ull); pardiso_sim::hook = &phook; std::map<int, Agmg*> ag; std::map<int, int> aglim; int no = 0;
    for (auto& l : p.lines) {
        if (l[0] != "cg" && l[0] != "pardiso" && l[0] != "linear" && l[0] != "agmg") continue; no++;
        int kind = (int)toi(l[1]), n = (int)toi(l[2]); uint64_t seed = (uint64_t)toi(l[3]); int rk = (int)toi(l[4]); Held A(system_of(kind, n, seed)); Vec b = rhs_of(rk, n, seed + 1), x0(A.m.cols, 0.); phook.failed = false; agmg_need = 3; agmg_conv = false;
        std::string file = "/sim/h" + std::to_string(no); int fds = open_fds();
        auto history = [&](bool ok, double tol, size_t maxit) {
            std::string t = fs_read(file); std::vector<double> v; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); if (e > i) v.push_back(strtod(t.substr(i, e - i).c_str(), nullptr)); i = e + 1; }
            if (v.size() > maxit + 1) violation("iterations", "more iterations than allowed: " + std::to_string(v.size() - 1)); if (v.empty()) violation("history", "the iteration history is empty");
            if (fin(v.back()) && norm(b) < 1e100 && norm(b) > 1e-100) { if (ok && v.back() > tol * 1.001) violation("false-success", "true although the iteration history ends above the tolerance"); if (!ok && v.back() < tol * 0.999) violation("refused", "false although the iteration history ends below the tolerance"); } probe("histories_checked");
        };
        if (l[0] == "cg") {
            double tol = tod(l[5]), rr = tod(l[6]); size_t mi = (size_t)toi(l[7]); bool hist = toi(l[8]), guess = toi(l[9]), verb = toi(l[10]); int mis = (int)toi(l[11]);
            CgOpts o; o.tol = tol; o.rr_max = rr; o.max_iter = mi; o.hist = hist; o.guess = guess; o.verbose = verb; o.file = file;
            x0.assign(A.m.cols, 0.); Vec x = x0; Rng r(seed + 2); for (auto& v : x) v = r.unit() * 4 - 2; if (guess) x0 = x; if (guess && rk == 3) for (auto& v : x) v *= 1e150, x0 = x;
            bool wrong = false; Vec bb = b; if (mis == 0) { bb.push_back(1); wrong = true; } if (mis == 1) { x.push_back(1); wrong = true; } Vec xin = x;
            bool ok = false; uint64_t f0 = faults_fired(); bool done = call([&] { return run_cg(o, A.s, bb, x); }, &ok); bool faulty = faults_fired() > f0; if (open_fds() != fds && !fault_fired("close:eio")) violation("resource", "the history file was left open");
            log("cg kind %d n %d -> %s %d faulty %d", kind, n, g_how.c_str(), (int)ok, (int)faulty); note("cg:" + std::to_string(kind) + ":" + std::to_string(rk) + (done ? ok ? ":ok" : ":false" : ":oom"));
            if (!equal(image(A.s), A.m)) violation("matrix", "conjugated_gradient changed the matrix"); if (!done) continue;
            if (wrong) { if (ok) violation("false-success", "conjugated_gradient: true for vectors of the wrong size"); continue; }
            check_cg(A.m, b, x0, x, ok, kind, tol, rr, mi ? mi : 2 * (size_t)n, guess, "conjugated_gradient");
            if (hist && !faulty && kind != RECT) history(ok, tol, mi ? mi : 2 * (size_t)n);
            // without a history: the same result
            pause_faults(true); Vec y = xin; bool ok2 = false; o.hist = false; call([&] { return run_cg(o, A.s, b, y); }, &ok2); pause_faults(false);
            if (ok2 != ok || !equal(x, y)) violation("history", "writing the iteration history changes the result"); if (hist && faulty) probe("history_faults_without_effect");
        } else if (l[0] == "pardiso") {
            bool ldlt = toi(l[5]); if (ldlt && kind == NONSYM) continue; Vec x; bool ok = false; bool done = call([&] { return run_pardiso(ldlt, (int)toi(l[6]) - 1, toi(l[7]), A.s, b, x); }, &ok);
            log("pardiso %d kind %d n %d -> %s %d", (int)ldlt, kind, n, g_how.c_str(), (int)ok); note(std::string("pardiso") + l[5] + ":" + std::to_string(kind) + (done ? ok ? ":ok" : ":false" : ":oom") + (phook.failed ? ":fault" : ""));
            if (!equal(image(A.s), A.m)) violation("matrix", "mkl_pardiso changed the matrix"); if (done) check_direct(A.m, b, x, ok, kind, phook.failed, ldlt ? "mkl_pardiso_ldlt" : "mkl_pardiso");
        } else if (l[0] == "linear") {
            static const char* ty[] = {"cg", "pardiso", "agmg", ""}; LuaOpts o; o.type = ty[toi(l[5]) & 3]; double tol = tod(l[6]), rr = tod(l[7]); size_t mi = (size_t)toi(l[8]); bool hist = toi(l[9]); int mask = (int)toi(l[10]); bool isdir = o.type == "pardiso" || o.type == "agmg";
            if (isdir && (kind == BADNUM || rk == 5)) continue; if (mask & 1) o.num["cg.rr_tol"] = tol; else tol = 1e-8; if (mask & 2) o.num["cg.rr_max"] = rr; else rr = 20; if (mask & 4) o.num["cg.max_iter"] = (double)mi; else mi = 1000; if (hist) o.hist = file; if (seed & 1) { o.num["pardiso.out_of_core"] = (double)(seed % 3); o.flag["pardiso.print_mflops"] = seed & 2; }
            if (seed % 31 == 0) o.type = "none"; Vec x(A.m.cols, 0.), bb = b; bool ok = false; uint64_t f0 = faults_fired(); bool done = call([&] { return run_linear(o, A.s, bb, x); }, &ok); bool faulty = faults_fired() > f0;
            log("linear %s kind %d n %d -> %s %d", o.type.c_str(), kind, n, g_how.c_str(), (int)ok); note("linear" + o.type + ":" + std::to_string(kind) + (done ? ok ? ":ok" : ":false" : ":oom"));
            if (!equal(image(A.s), A.m)) violation("matrix", "linear_solver changed the matrix"); if (!done) continue;
            if (o.type == "none") { if (ok) violation("false-success", "linear_solver: true for an unknown solver"); continue; }
            if (o.type == "pardiso") check_direct(A.m, b, x, ok, kind, phook.failed, "linear_solver (pardiso)"); else if (o.type == "agmg") check_direct(A.m, b, x, ok, kind, !agmg_conv, "linear_solver (agmg)");
            else { check_cg(A.m, b, x0, x, ok, kind, tol, rr, mi ? mi : 2 * (size_t)n, false, "linear_solver (cg)"); if (hist && !faulty) history(ok, tol, mi ? mi : 2 * (size_t)n); }
        } else {
            int slot = (int)toi(l[5]); if (!ag.count(slot)) { pause_faults(true); { Sut q; ag[slot] = make_agmg((int)toi(l[6]), 1e-8); } pause_faults(false); aglim[slot] = (int)toi(l[6]); } agmg_need = (int)toi(l[7]); agmg_calls = 0;
            Vec x, bb = b; bool conv = false, dummy; bool done = call([&] { x = run_agmg(ag[slot], A.s, bb, conv); return true; }, &dummy);
            log("agmg kind %d n %d -> %s %d", kind, n, g_how.c_str(), (int)conv); note("agmg:" + std::to_string(kind) + (done ? conv ? ":ok" : ":false" : ":oom"));
            if (!equal(image(A.s), A.m)) violation("matrix", "agmg_solver changed the matrix"); if (!done) continue;
            if (agmg_calls && agmg_limit != aglim[slot]) violation("iterations", "AGMG was asked for at most " + std::to_string(agmg_limit) + " iterations instead of " + std::to_string(aglim[slot]));
            check_direct(A.m, b, x, conv, kind, !agmg_conv, "agmg_solver");
        }
    }
    for (auto& a : ag) { Sut q; drop(a.second); } std::string what; if (ledger_errors(&what)) violation("resource", what);
}
// ------------------------------------------------------------------ C23: eigenvalue solvers
struct Eig { Mat A, B; Vec lam; };
static Eig eig_of(int n, int bkind, uint64_t seed, double lo, double hi, int inside) {
    Rng r(seed); Eig e; double mid = (lo + hi) / 2, rad = (hi - lo) / 2; if (inside > n) inside = n;
    for (int i = 0; i < n; i++) e.lam.push_back(i < inside ? mid + rad * 0.8 * (r.unit() * 2 - 1) : mid + rad * (1.8 + 3 * r.unit()) * (r.chance(0.5) ? 1 : -1));
    if (inside > 1 && r.chance(0.25)) e.lam[1] = e.lam[0];
    Mat Q; Q.rows = Q.cols = n; Q.a.assign((size_t)n * n, 0); for (int i = 0; i < n; i++) Q.at(i, i) = 1;
    for (int k = 0; k < 2 * n; k++) { int i = (int)r.below(n), j = (int)r.below(n); double t = r.unit() * 6.28; if (i == j) continue; double c = std::cos(t), s = std::sin(t); for (int q = 0; q < n; q++) { double u = Q.at(i, q), v = Q.at(j, q); Q.at(i, q) = c * u - s * v; Q.at(j, q) = s * u + c * v; } }
    Mat L = Q; if (bkind) { Mat C; C.rows = C.cols = n; C.a.assign((size_t)n * n, 0); for (int i = 0; i < n; i++) { C.at(i, i) = 0.7 + r.unit(); if (bkind == 2) for (int j = 0; j < i; j++) if (r.chance(0.4)) C.at(i, j) = 0.6 * (r.unit() - 0.5); } L.a.assign((size_t)n * n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) L.at(i, j) += C.at(i, k) * Q.at(k, j); e.B.rows = e.B.cols = n; e.B.a.assign((size_t)n * n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) e.B.at(i, j) += C.at(i, k) * C.at(j, k); }
    else { e.B.rows = e.B.cols = n; e.B.a.assign((size_t)n * n, 0); for (int i = 0; i < n; i++) e.B.at(i, i) = 1; }
    e.A.rows = e.A.cols = n; e.A.a.assign((size_t)n * n, 0); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double v = 0; for (int k = 0; k < n; k++) v += L.at(i, k) * e.lam[k] * L.at(j, k); e.A.at(i, j) = e.A.at(j, i) = v; }
    return e;
}
static Plan gen23(Rng& r, int tier) {
    Plan p; p.cfg("sched_seed", r.below(1u << 30)); p.cfg("heap_mb", 128); p.put("rand", r.below(1u << 30)); int k = (int)r.range(1, tier ? 4 : 2);
    for (int i = 0; i < k; i++) {
        int n = (int)r.range(1, r.chance(0.3) ? 20 : 9); double lo, hi; switch (r.below(5)) { case 0: lo = 1; hi = 2 + r.unit() * 10; break; case 1: hi = 0; lo = -1 - r.unit() * 5; break; case 2: lo = -1 - r.unit(); hi = 1 + r.unit(); break; case 3: hi = -1 - r.unit(); lo = hi - 1 - r.unit() * 9; break; default: lo = 0; hi = 1 + r.unit() * 5; }
        int in = (int)r.below(std::min(n, 5) + 1), m0 = r.chance(0.7) ? std::min(n, in + (int)r.range(1, 4)) : (int)r.range(1, n);
        if (r.chance(0.65)) p.put("feast", n, r.below(3), r.below(1u << 30), lo, hi, in, m0, r.range(3, 11), r.chance(0.2) ? (int64_t)r.below(3) : (int64_t)30, r.chance(0.04) ? 1 : 0);
        else p.put("geneig", n, r.below(3), r.below(1u << 30), lo, hi, in, r.chance(0.1) ? r.range(-1, n + 3) : (int64_t)m0, r.chance(0.1) ? r.range(-2, 20) : r.range(3, 11), r.chance(0.1) ? 1 : 0, (int)r.chance(0.2));
    }
    return p;
}
static void place23(Rng& r, Plan& p, const Counts& c) {
    auto at = [&](const char* k) { return r.range(1, std::max<int64_t>(1, (int64_t)c.of(k))); }; int n = (int)r.below(3);
    for (int i = 0; i < n; i++) switch (r.below(3)) { case 0: p.put("fault", "alloc", at("alloc"), "enomem", 0); break; default: { static const char* a[] = {"fail1", "fail2", "fail3", "fail-2", "fail-3", "fail202"}; p.put("fault", "feast", at("feast"), a[r.below(6)], 0); } }
}
static const Eig* g_eig = nullptr; static int g_info = 0, g_found = 0; static bool g_called = false; static const FeastOpts* g_fo = nullptr;
extern "C" {
void feastinit(int* fpm) { for (int i = 0; i < 128; i++) fpm[i] = 0; fpm[1] = 8; fpm[2] = 12; fpm[3] = 20; }
void dfeast_scsrgv(const char&, const int& n, const double* a, const int* ia, const int* ja, const double* b, const int* ib, const int* jb, int* fpm, double& eps, int& loop, const double& emin, const double& emax, int& m0, double* e, double* x, int& m, double* res, int& info) {
    Harness h; g_called = true; auto act = fault_point("feast"); const Eig& E = *g_eig;
    auto cmp = [&](const Mat& M, const double* v, const int* o, const int* in, const char* w) { Mat Z; Z.rows = Z.cols = n; Z.a.assign((size_t)n * n, 0); if (o[0] != 1) fatal("FEAST was given indices that are not one-based"); for (int j = 0; j < n; j++) for (int k = o[j]; k < o[j + 1]; k++) { if (in[k - 1] < 1 || in[k - 1] > n) fatal("FEAST was given an index that does not exist"); Z.at(in[k - 1] - 1, j) = v[k - 1]; } if (!equal(Z, M)) fatal(w); };
    cmp(E.A, a, ia, ja, "FEAST was given another first matrix"); cmp(E.B, b, ib, jb, "FEAST was given another second matrix");
    if (emin != g_fo->emin || emax != g_fo->emax || m0 != g_fo->m0 || fpm[2] != g_fo->tol) fatal("FEAST was given other parameters");
    info = 0; m = 0; eps = 0; loop = 1; if (act.rfind("fail", 0) == 0) { info = atoi(act.c_str() + 4); log("feast info %d", info); g_info = info; return; }
    for (int i = 0; i < n; i++) if (E.lam[i] >= emin && E.lam[i] <= emax && m < m0) { e[m] = E.lam[i]; x[(size_t)m * n] = 1; res[m] = 0; m++; } g_info = info; g_found = m; log("feast found %d", m);
}
}
static void exec23(const Plan& p) {
    set_step_limit(40000000000ull); srand((unsigned)(p.all("rand").empty() ? 1 : toi((*p.all("rand")[0])[1])));
    for (auto& l : p.lines) {
        if (l[0] != "feast" && l[0] != "geneig") continue; int n = (int)toi(l[1]); double lo = tod(l[4]), hi = tod(l[5]); int in = (int)toi(l[6]); Eig e = eig_of(n, (int)toi(l[2]), (uint64_t)toi(l[3]), lo, hi, in);
        FeastOpts o; o.emin = lo; o.emax = hi; o.m0 = (int)toi(l[7]); o.tol = (int)toi(l[8]); Mat Bm = e.B; bool mism = false;
        if (l[0] == "feast") { o.max_iter = (size_t)toi(l[9]); mism = toi(l[10]) == 1; } else mism = toi(l[9]) == 1;
        if (mism) { Bm = system_of(SPD, n + 1, 7); }
        Held A(e.A), B(Bm); e.A = A.m; if (!mism) e.B = B.m; Mat X; Vec v; int st = -1; bool dummy;
        if (l[0] == "feast") {
            if (o.m0 < 1 || o.m0 > n) continue; pause_faults(true); bool done = call([&] { st = run_feast(o, A.s, B.s, X, v); return true; }, &dummy); pause_faults(false);   // Eigen's SparseLU does not survive failing allocations
            log("feast n %d m0 %d -> %s %d found %zu", n, o.m0, g_how.c_str(), st, v.size()); note("feast:" + std::to_string(st) + ":" + std::to_string(v.size()) + ":" + g_how); if (!equal(image(A.s), A.m) || !equal(image(B.s), B.m)) violation("matrix", "feast changed a matrix"); if (!done) continue;
            if (mism) { if (st != 2) violation("invalid", "feast: matrices of different sizes are not reported as invalid"); continue; } if (st == 2) violation("invalid", "feast: valid input is reported as invalid");
            size_t inside = 0; for (double x : e.lam) if (x >= lo && x <= hi) inside++;
            if (st == 0) {
                if ((int)v.size() != X.cols || X.rows != n) violation("result", "feast: as many vectors as values are expected"); double rmax = std::max(std::fabs(lo), std::fabs(hi));
                for (size_t k = 0; k < v.size(); k++) { if (!fin(v[k]) || v[k] < lo || v[k] > hi) violation("interval", "feast: success with an eigenvalue outside the interval"); double nr = 0, nb = 0; for (int i = 0; i < n; i++) { double a = 0, b = 0; for (int j = 0; j < n; j++) { a += A.m.at(i, j) * X.at(j, (int)k); b += B.m.at(i, j) * X.at(j, (int)k); } nr += (a - v[k] * b) * (a - v[k] * b); nb += b * b; } nr = std::sqrt(nr); nb = std::sqrt(nb);
                    if (!fin(nr) || !(nb > 0) || nr > std::pow(10., -o.tol) * rmax * nb * 1.0001 + 1e-13 * fro(A.m) * nb) violation("residual", "feast: success with a residual of " + Plan::str(nr / (rmax * nb)) + " for tolerance " + std::to_string(o.tol));
                    double d = 1e300; for (double x : e.lam) d = std::min(d, std::fabs(x - v[k])); if (!(d <= 1e-2 * rmax)) violation("residual", "feast: success with a value that is not an eigenvalue"); probe("eigenpairs_checked"); }
                if (v.size() != inside && o.m0 > (int)inside) violation("missed", "feast: success with " + std::to_string(v.size()) + " of " + std::to_string(inside) + " eigenvalues in the interval, subspace " + std::to_string(o.m0)); probe("success_checked"); if (inside == 0) probe("empty_interval");
            } else { probe(st == 1 ? "not_converged" : st == 3 ? "inner_failure" : "subspace_too_small");
                // (no claim that it converges: a spurious vector can stay in the subspace for ever)
                if (st == 4 && o.m0 > (int)inside) violation("refused", "feast: the subspace is reported to be too small"); if (st == 3) violation("refused", "feast: inner solver failure without a reason"); }
        } else {
            g_eig = &e; g_fo = &o; g_called = false; g_info = 0; g_found = -1; int found = -1, info = -77; bool done = call([&] { st = run_geneig(o, toi(l[10]), A.s, B.s, X, v, found, info); return true; }, &dummy);
            log("geneig n %d -> %s %d", n, g_how.c_str(), st); note("geneig:" + g_how + ":" + std::to_string(st)); if (!equal(image(A.s), A.m) || !equal(image(B.s), B.m)) violation("matrix", "generalized_eigenvalue_solver changed a matrix"); if (!done) continue;
            bool bad = mism || o.tol <= 0 || o.tol >= 16 || o.m0 < 1 || o.m0 > n;
            if (bad) { if (g_called) violation("invalid", "generalized_eigenvalue_solver: invalid input was handed to FEAST"); if (st == 0) violation("false-success", "generalized_eigenvalue_solver: 0, which means success, for invalid input"); probe("invalid_input_reported"); continue; }
            if (!g_called) violation("refused", "generalized_eigenvalue_solver: FEAST was not called"); if (st != g_info || info != g_info) violation("false-success", "generalized_eigenvalue_solver: the status of FEAST was not passed on");
            if (st == 0) { if (found != g_found || (int)v.size() != o.m0 || X.rows != n || X.cols != o.m0) violation("result", "generalized_eigenvalue_solver: wrong number of results"); for (int k = 0; k < found; k++) if (v[k] < lo || v[k] > hi) violation("result", "generalized_eigenvalue_solver: wrong value"); probe("results_passed_on"); } else probe("failures_passed_on");
        }
    }
}
static struct Reg { Reg() { register_prop({"C18", gen18, place18, exec18}); register_prop({"C23", gen23, place23, exec23}); } } reg;
