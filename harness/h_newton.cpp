// The nonlinear solver under failing laws, loads, linear solvers, disks and clocks: C11-C15, C19, C21
#include "../sim/rt.hpp"
#include "newton_api.hpp"
#include "gmsh_tools/gmshElement.hpp"
#include "Eigen/PardisoSupport"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <limits>
#include <memory>
#include <stdexcept>
using namespace sim;
using nw::Vec; using nw::Problem; using nw::Result;

// ------------------------------------------------------------------ what the stubs need
namespace nw { std::vector<Vec>* collect = nullptr; }
namespace pardiso_sim {
Hook* hook = nullptr; void (*inside)(bool) = nullptr;
double nan_value() { return std::numeric_limits<double>::quiet_NaN(); }
double inf_value() { return std::numeric_limits<double>::infinity(); }
void damage(int v, double* x, long n) {
    double big = 0; for (long i = 0; i < n; i++) if (std::isfinite(x[i])) big = std::max(big, std::fabs(x[i]));
    for (long i = 0; i < n; i++) switch (v) { case NANS: x[i] = nan_value(); break; case INFS: x[i] = inf_value(); break; case GARBAGE: x[i] = (big > 0 ? big : 1) * (((i * 7919) % 13) - 6) / 6.; break; case ZERO: x[i] = 0; break; default: break; }
    if (v == ONE_NAN && n) x[(n * 5) / 7 % n] = nan_value();
}
}

// ------------------------------------------------------------------ what a run does, as seen from outside
struct Attempt { double t = 0; int run = 0; size_t loads = 0, solves = 0, solved = 0; bool bad = false, soft = false, nonfinite = false, window = false; uint64_t slow_load = 0, slow_solve = 0; Vec last, sum; };
struct SavedFile { size_t attempt; std::string file; Vec values; };
struct Window { double a, b; std::string action; int left; };
struct LoadFn { int kind = 0; double c[3] = {}, C[9] = {}, a0 = 0, a1 = 1, a2 = 0; };
struct Recorder { bool on = false, fresh = true; int run = 0; std::vector<Attempt> at; std::vector<SavedFile> saved; std::vector<Window> win; uint64_t t_first = 0; };
static Recorder rec; static LoadFn lf; static uint64_t slow_total;
static uint64_t delay_of(uint64_t k) { return 3000000ull + (k * 2654435761ull) % 90000000ull; }

struct PHook : pardiso_sim::Hook {
    int phase(int, int ph, long) override {
        Harness h; if (!rec.on || rec.at.empty()) return 0;
        Attempt& a = rec.at.back(); if (ph == 0) a.solves++;
        static const char* nm[3] = {"pardiso0", "pardiso1", "pardiso2"}; std::string act = fault_point(nm[ph]);
        if (act.empty()) return 0;
        if (act == "slow") { uint64_t d = delay_of(a.solves + 17 * rec.at.size()); clock_advance(d); slow_total += d; a.slow_solve += d; return 0; }
        if (act == "jump") { clock_wall_jump(-(int64_t)delay_of(a.solves) * 1000); return 0; }
        if (act == "nan" || act == "inf" || act == "onenan") { a.nonfinite = a.bad = true; return act == "nan" ? pardiso_sim::NANS : act == "inf" ? pardiso_sim::INFS : pardiso_sim::ONE_NAN; }
        if (act == "garbage") { a.soft = true; return pardiso_sim::GARBAGE; }
        if (act == "zero") { a.soft = true; return pardiso_sim::ZERO; }
        a.bad = true; return pardiso_sim::FAIL;
    }
    void solved(const double*, double* x, long n) override {
        Harness h; if (!rec.on || rec.at.empty()) return; Attempt& a = rec.at.back(); a.solved++; a.last.assign(x, x + n); if (a.sum.size() != (size_t)n) a.sum.assign(n, 0); for (long i = 0; i < n; i++) a.sum[i] += x[i];
    }
};
static PHook phook;
static void sink(const gmsh::Saved& s) {
    Harness h; if (nw::collect) { nw::collect->push_back(s.values); return; }
    if (rec.on) { rec.saved.push_back({rec.at.size() - 1, s.file, s.values}); log("saved %s after attempt %zu%s", s.file.c_str(), rec.at.size() - 1, s.ok ? "" : " (failed)"); }
}
static void load_value(const double* x, double t, double* f) {
    double g = lf.a0 + lf.a1 * t + lf.a2 * t * t;
    for (int i = 0; i < 3; i++) { f[i] = 0; if (lf.kind) { f[i] = lf.c[i]; if (lf.kind > 1) for (int j = 0; j < 3; j++) f[i] += lf.C[3 * i + j] * x[j]; f[i] *= g; } }
}
static void on_load(const double* x, double t, double* f) {
    bool thr = false, nonf = false, infi = false;
    { Harness h; load_value(x, t, f);
      if (rec.on) {
        bool fresh = rec.fresh || rec.at.empty() || rec.at.back().t != t; rec.fresh = false; // the load is evaluated in every attempt, and successive attempts end at different times
        if (fresh) { if (rec.at.size() > 3000) violation("hang", "more than 3000 attempts"); Attempt a; a.t = t; a.run = rec.run; rec.at.push_back(a); log("attempt %zu ends at %.17g", rec.at.size() - 1, t); if (rec.at.size() == 1) rec.t_first = sim_now();
            for (auto& w : rec.win) if (w.left && t >= w.a && t <= w.b) { if (w.left > 0) w.left--; rec.at.back().window = true; fault_mark("window", w.action.c_str()); if (w.action == "nan") rec.at.back().nonfinite = true; rec.at.back().bad = true; rec.at.back().slow_load += 0; } }
        Attempt& a = rec.at.back(); a.loads++;
        if (a.window) { if (a.nonfinite) nonf = true; else if (a.loads % 5 == 0) thr = true; }
        std::string act = fault_point("load");
        if (act == "throw") { a.bad = true; thr = true; } else if (act == "nan") { a.bad = a.nonfinite = true; nonf = true; } else if (act == "inf") { a.bad = a.nonfinite = true; infi = true; }
        else if (act == "slow") { uint64_t d = delay_of(a.loads); clock_advance(d); slow_total += d; a.slow_load += d; } else if (act == "jump") clock_wall_jump((int64_t)delay_of(a.loads) * (a.loads % 2 ? 1000 : -1000));
      } }
    if (thr) throw std::invalid_argument("simulated failure of a material law");
    if (nonf) f[0] = pardiso_sim::nan_value(); if (infi) f[1] = pardiso_sim::inf_value();
}

// ------------------------------------------------------------------ plans
static const nw::Kind& kind(int k) { switch (k) { case 0: return nw::newton_tri(); case 1: return nw::newton_quad(); case 2: return nw::newton_poly(); default: return nw::newton_tet(); } }
struct Case { int kind = 0; Problem p; LoadFn lf; std::vector<Window> win; bool ok = false; };
static Case parse(const Plan& pl) {
    Case c; bool mesh = false;
    for (auto& l : pl.lines) {
        auto I = [&](size_t k) { return k < l.size() ? (int)toi(l[k]) : 0; }; auto D = [&](size_t k) { return k < l.size() ? tod(l[k]) : 0.; }; Problem& p = c.p;
        if (l[0] == "mesh") { c.kind = I(1); p.level = I(2); mesh = true; }
        if (l[0] == "law") { p.def = I(1); p.law = I(2); p.E = D(3); p.nu = D(4); p.H = D(5); p.K = D(6); p.sy = D(7); }
        if (l[0] == "curve") p.curve.push_back({D(1), D(2)});
        if (l[0] == "degree") { p.fd = I(1); p.cd = I(2); p.gd = I(3); }
        if (l[0] == "stab") { p.stab = I(1); p.stab_type = I(2); p.beta = D(3); p.adapt = I(4); }
        if (l[0] == "opt") { p.precomp = I(1); p.dynamic = I(2); p.recompute = I(3); }
        if (l[0] == "newton") { p.sublevel = I(1); p.iter_max = I(2); p.eps = D(3); }
        if (l[0] == "step" && p.steps.size() < 64) p.steps.push_back({D(1), std::clamp(I(2), 1, 64)});
        if (l[0] == "end") { p.has_end = true; p.end = D(1); }
        if (l[0] == "save") p.saves.push_back(D(1));
        if (l[0] == "nsave") p.n_save = I(1);
        if (l[0] == "bc") { p.bc = I(1); for (int k = 0; k < 9; k++) { p.A[k] = D(2 + k); p.S[k] = D(11 + k); } }
        if (l[0] == "loadf") { c.lf.kind = I(1); c.lf.a0 = D(2); c.lf.a1 = D(3); c.lf.a2 = D(4); for (int k = 0; k < 3; k++) c.lf.c[k] = D(5 + k); for (int k = 0; k < 9; k++) c.lf.C[k] = D(8 + k); }
        if (l[0] == "window") c.win.push_back({D(1), D(2), l.size() > 3 ? l[3] : "throw", I(4)});
    }
    double last = 0; c.ok = mesh && !c.p.steps.empty(); for (auto& s : c.p.steps) { if (!(s.first > last)) c.ok = false; last = s.first; }
    return c;
}
static double sgn(Rng& r, double m) { return (r.unit() * 2 - 1) * m; }
// tame: small elastic problems, whose clean attempts always converge
static void gen_problem(Rng& r, Plan& p, int tier, bool tame, bool elastic_exact) {
    int k = r.chance(0.4) ? 0 : r.chance(0.5) ? 1 : r.chance(0.6) ? 2 : 3; int lvl = k <= 1 ? (int)r.below(tier ? 3 : 2) : 0; p.put("mesh", k, lvl); int d = k == 3 ? 3 : 2;
    int def = 0, law = 0; double amp = 0.01, E = 1000, nu = 0.1 + 0.35 * r.unit(), H = 50 + 200 * r.unit(), K = r.chance(0.5) ? 0 : 50 * r.unit(), sy = 1e9;
    if (!tame) switch (r.below(8)) {
        case 0: case 1: def = 0; law = 1; sy = 1 + 9 * r.unit(); amp = 0.02; break;
        case 2: def = 0; law = 2; sy = 1 + 5 * r.unit(); amp = 0.015; break;
        case 3: def = 0; law = 3; amp = 0.1; break;
        case 4: def = 1; law = 0; amp = 0.08; break;
        case 5: def = 1; law = r.chance(0.6) ? 1 : 2; sy = 2 + 9 * r.unit(); amp = 0.04; break;
        case 6: def = 2; law = 4; amp = 0.15; break;
        default: def = 2; law = 5; amp = 0.1; }
    else amp = r.chance(0.3) ? 0.5 : 0.01;
    p.put("law", def, law, E, nu, H, K, sy);
    if (law == 2) { double pp = 0, R = sy; int n = (int)r.range(2, 5); for (int i = 0; i < n; i++) { p.put("curve", pp, R); pp += 0.002 + 0.02 * r.unit(); R += 0.5 + 3 * r.unit(); } }
    int fd = (int)r.range(1, k == 3 ? 1 : 2), cd = (int)r.range(elastic_exact ? std::max(1, fd - 1) : fd - 1, fd + 1), gd = fd + (int)r.below(2); if (k == 3 && cd > 1) cd = 1; p.put("degree", fd, cd, gd);
    bool adapt = !tame && r.chance(0.2); p.put("stab", 1, r.chance(0.6) ? 1 : 0, def || law == 3 ? 300. : 2 * E / (2 * (1 + nu)), (int)adapt);
    bool dyn = !elastic_exact && def == 0 && r.chance(0.12); p.put("opt", (int)r.chance(0.7), (int)dyn, 0);
    int bc = (int)r.below(4); if (elastic_exact) bc = (int)r.below(2); if (def == 2 && bc > 1 && r.chance(0.5)) bc = 0;
    double A[9] = {}, S[9] = {}; for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) A[3 * i + j] = sgn(r, amp);
    if (bc == 1) { double la = E * nu / ((1 + nu) * (1 - 2 * nu)), mu = E / (2 * (1 + nu)), tr = 0; for (int i = 0; i < d; i++) tr += A[4 * i]; for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) S[3 * i + j] = mu * (A[3 * i + j] + A[3 * j + i]) + (i == j ? la * tr : 0); }
    else if (bc >= 2) { double s = law == 0 && def == 0 ? 5 : law == 1 || law == 2 ? 0.8 * sy : 15; for (int i = 0; i < d; i++) for (int j = 0; j <= i; j++) S[3 * i + j] = S[3 * j + i] = sgn(r, s); }
    { Line l{"bc", Plan::str(bc)}; for (double x : A) l.push_back(Plan::str(x)); for (double x : S) l.push_back(Plan::str(x)); p.add(l); }
    if (!elastic_exact) { Line l{"loadf", Plan::str((int)r.below(3)), Plan::str(r.chance(0.5) ? 0. : 0.3), Plan::str(1.), Plan::str(r.chance(0.5) ? 0. : 0.5)}; double m = law == 0 && def == 0 ? 5 : 0.3; for (int i = 0; i < 3; i++) l.push_back(Plan::str(sgn(r, m))); for (int i = 0; i < 9; i++) l.push_back(Plan::str(sgn(r, m))); p.add(l); }
    else p.put("loadf", 0, 0., 1., 0., 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
}
static void gen_steps(Rng& r, Plan& p, bool tame, int smin = 0) {
    int n = (int)r.range(1, 3); double t = 0; for (int i = 0; i < n; i++) { t += (double)r.range(1, 6) / 8; static const int N[] = {1, 1, 2, 4}; p.put("step", t, N[r.below(4)]); }
    if (r.chance(0.25)) p.put("end", r.chance(0.4) ? t * 2 : (double)r.range(1, (int64_t)(t * 8)) / 8);
    int imax = tame ? (int)r.range(4, 10) : r.chance(0.3) ? (int)r.range(3, 5) : (int)r.range(8, 20);
    static const double EPS[] = {1e-6, 1e-7, 1e-8, 1e-9}; p.put("newton", r.range(smin, 4), imax, EPS[r.below(4)]);
}
static double tfinal(const Plan& p) { double t = 1; for (auto* l : p.all("step")) t = std::max(t, tod((*l)[1])); return t; }
static void gen_windows(Rng& r, Plan& p, double prob) { double T = tfinal(p); while (r.chance(prob)) { double a = T * r.unit(), b = a + T * r.unit() * 0.6; if (r.chance(0.5)) b = a + T / 16; p.put("window", a, b, r.chance(0.7) ? "throw" : "nan", r.chance(0.25) ? -1 : r.range(1, 6)); prob *= 0.5; } }
static void one_fault(Rng& r, Plan& p, const Counts& c, const char* kind, std::initializer_list<const char*> acts) { uint64_t n = c.of(kind); if (!n) return; std::vector<const char*> v(acts); p.put("fault", kind, r.below(n + n / 4) + 1, r.pick(v), r.below(1000)); }
static void base(Rng& r, Plan& p) { p.cfg("sched_seed", r.below(1u << 30)); p.cfg("heap_mb", 768); p.cfg("heapcheck", 0); }
static void failing_faults(Rng& r, Plan& p, const Counts& c, int lo, int hi) {
    int n = (int)r.range(lo, hi); for (int i = 0; i < n; i++) switch (r.below(5)) {
        case 0: one_fault(r, p, c, "load", {"throw", "throw", "nan", "inf"}); break;
        case 1: one_fault(r, p, c, "pardiso0", {"fail"}); break; case 2: one_fault(r, p, c, "pardiso1", {"fail"}); break;
        default: one_fault(r, p, c, "pardiso2", {"fail", "nan", "inf", "onenan", "garbage", "zero"}); }
}

// ------------------------------------------------------------------ running and understanding a run
struct Stp { double s, e; int level; };
struct Outcome { Result r; std::vector<Attempt> at; std::vector<SavedFile> saved; std::vector<Stp> step; std::vector<int> accepted; std::string trouble, trouble_cls; std::vector<double> times; bool understood = false; size_t left = 0; uint64_t ns = 0; };
static std::vector<Stp> user_steps(const Problem& p) { // in order; the times of the plans are dyadic, so nothing is rounded
    std::vector<Stp> v; double s = 0, user_end = p.has_end ? p.end : p.steps.back().first; double start = 0;
    for (auto& st : p.steps) { start = v.empty() ? 0 : v.back().e; s = start; double dt = (st.first - start) / st.second; for (int i = 0; i < st.second; i++) { double e = i + 1 == st.second ? st.first : start + (i + 1) * dt; if (e <= user_end) { v.push_back({s, e, 0}); s = e; } } }
    return v;
}
static void understand(const Problem& p, Outcome& o) {
    auto us = user_steps(p); auto fail = [&](const char* cls, const std::string& s) { o.trouble_cls = cls; o.trouble = s; };
    o.step.clear(); o.accepted.assign(o.at.size(), 0); char b[256]; size_t i = 0;
    for (int run = 0; run <= (p.recompute ? 1 : 0); run++) { // each call of compute() goes through the whole list
        std::vector<Stp> st(us.rbegin(), us.rend()); bool converged = run || !p.recompute ? o.r.converged : o.r.converged1; o.left = 0; bool any = false;
        for (; i < o.at.size() && o.at[i].run == run; i++) {
            any = true; if (st.empty()) { snprintf(b, sizeof b, "attempt %zu (end time %.17g) comes after the last time step", i, o.at[i].t); return fail("steps", b); }
            Stp cur = st.back(); o.step.push_back(cur); double t = o.at[i].t;
            if (t != cur.e) { snprintf(b, sizeof b, "attempt %zu evaluates the load at %.17g, but the time step is [%.17g, %.17g]", i, t, cur.s, cur.e); return fail("time", b); }
            double mid = cur.s + (cur.e - cur.s) / 2; bool last = i + 1 == o.at.size() || o.at[i + 1].run != run; int outcome = -1;
            if (last) outcome = converged; else { double nx = o.at[i + 1].t; if (nx == mid) outcome = 0; else if (st.size() > 1 && nx == st[st.size() - 2].e) outcome = 1; else { snprintf(b, sizeof b, "after the attempt on [%.17g, %.17g] the next attempt ends at %.17g: neither its middle nor the end of the next step", cur.s, cur.e, nx); return fail("time", b); } }
            if (outcome) { st.pop_back(); o.accepted[i] = 1; o.times.push_back(t); if (last && !st.empty()) { snprintf(b, sizeof b, "convergence reported at time %.17g, but %zu time steps are left", t, st.size()); o.left = st.size(); return fail("cover", b); } }
            else if (last) { o.left = st.size(); if (cur.level + 1 <= p.sublevel) { snprintf(b, sizeof b, "gave up on [%.17g, %.17g] at level %d of %d", cur.s, cur.e, cur.level, p.sublevel); return fail("gave-up", b); } }
            else { if (cur.level + 1 > p.sublevel) { snprintf(b, sizeof b, "[%.17g, %.17g] was split to level %d, %d allowed", cur.s, cur.e, cur.level + 1, p.sublevel); return fail("level", b); } st.pop_back(); st.push_back({mid, cur.e, cur.level + 1}); st.push_back({cur.s, mid, cur.level + 1}); }
        }
        if (!any) { o.left = st.size(); if (!st.empty()) return fail("steps", "no time step was attempted"); if (converged && !run) return fail("cover", "convergence reported without any time step"); }
    }
    o.understood = true;
}
static Outcome run_case(const Case& c, bool record) {
    Outcome o; lf = c.lf; rec = Recorder(); rec.on = record; rec.win = c.win; slow_total = 0; pause_faults(!record); pardiso_sim::hook = &phook; gmsh::sink = sink;
    double tf = 0; { auto us = user_steps(c.p); if (!us.empty()) tf = us.back().e; }
    nw::Callbacks cb; cb.load = on_load; cb.begin = [](int n) { Harness h; rec.run = n; rec.fresh = true; }; cb.sut = [](bool on) { static Sut* s = nullptr; if (on && !s) s = new Sut; else if (!on && s) { delete s; s = nullptr; } };
    uint64_t t0 = sim_now(); o.r = kind(c.kind).run(c.p, cb, tf); o.ns = sim_now() - t0; pause_faults(true); rec.on = false;
    o.at = std::move(rec.at); o.saved = std::move(rec.saved); rec = Recorder();
    if (record) { understand(c.p, o); std::string s; for (size_t i = 0; i < o.at.size(); i++) s += o.at[i].bad ? 'b' : o.at[i].soft ? 's' : o.accepted[i] ? 'a' : 'r'; note(std::to_string(c.kind) + ":" + std::to_string(c.p.def) + std::to_string(c.p.law) + ":" + o.r.how + ":" + s + (o.r.converged ? "C" : "N")); probe("attempts", o.at.size()); probe("attempts_accepted", o.times.size()); if (o.at.size() > o.times.size()) probe("runs_with_rejections"); if (!o.r.converged) probe("runs_without_convergence"); probe("solves", o.r.iter); }
    return o;
}
// the same problem without faults, taking the given steps directly
static Outcome direct(const Case& c, const std::vector<double>& times, double eps = 0, int iter = 0) {
    Case d = c; d.win.clear(); d.p.steps.clear(); d.p.saves.clear(); d.p.n_save = 0; d.p.recompute = false; for (double t : times) d.p.steps.push_back({t, 1}); d.p.has_end = true; d.p.end = 1e9; d.p.sublevel = 0;
    if (times.empty()) { d.p.steps = {{1., 1}}; d.p.end = 0.5; } if (eps > 0) d.p.eps = eps; if (iter) d.p.iter_max = iter;
    return run_case(d, false);
}
static const char* OUT[] = {"displacement (discontinuous)", "displacement (continuous)", "stress", "stress (deformed)", "deformed mesh", "plastic points", "stabilization coefficients", "equivalent plastic strain"};
static double vmax(const Vec& v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
static std::string differ(const Vec& a, const Vec& b, double tol, double floor, size_t which) {
    if (a.size() != b.size()) return std::string(OUT[which]) + ": sizes differ";
    double s = std::max({vmax(b), floor, 1e-300}); for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol * s)) { char t[200]; snprintf(t, sizeof t, "%s: value %zu is %.17g instead of %.17g (scale %.3g)", OUT[which], i, a[i], b[i], s); return t; }
    return "";
}
static double floor_of(const Case& c, size_t k) { double A = 0; for (double x : c.p.A) A = std::max(A, std::fabs(x)); double S = 0; for (double x : c.p.S) S = std::max(S, std::fabs(x)); double u = c.p.bc < 2 ? A : S / c.p.E; return k < 2 ? 1e-3 * u : k < 4 ? 1e-3 * u * c.p.E : k == 4 ? 1 : k == 5 ? 1 : k == 6 ? 1 : 1e-6; }
static std::string compare(const Case& c, const std::vector<Vec>& a, const std::vector<Vec>& b, double tol, bool smooth_only) {
    if (a.size() != b.size()) return "number of outputs"; for (size_t k = 0; k < a.size(); k++) { if (smooth_only && k >= 5) continue; auto d = differ(a[k], b[k], tol, floor_of(c, k), k); if (!d.empty()) return d; } return "";
}
static bool is_tame(const Case& c) { return c.p.def == 0 && c.p.law == 0 && !c.p.adapt; }
static bool clean_accepts(const Outcome& o) { for (size_t i = 0; i < o.at.size(); i++) if (o.accepted[i] && (o.at[i].soft || o.at[i].bad)) return false; return true; }
static void usable(const Case& c, const Outcome& o, const char* what) { if (o.r.how != "ok") violation("stopped", std::string(what) + ": compute() did not return: " + o.r.how); }
static const uint64_t LIMIT = 60000000000ull;

// ------------------------------------------------------------------ C12
static void exec12(const Plan& pl) {
    Case c = parse(pl); if (!c.ok) return; set_step_limit(LIMIT); Outcome o = run_case(c, true); usable(c, o, "run with faults");
    if (!o.understood) { probe("sequence_not_understood"); return; }
    bool clean = clean_accepts(o); if (!clean && !is_tame(c)) { probe("not_comparable"); return; }
    if (!clean && c.p.eps > 1e-6) return;
    Outcome d = direct(c, o.times); usable(c, d, "direct run");
    if (!o.times.empty() && !d.r.converged) violation("direct", "the sequence of accepted steps does not converge when it is taken directly");
    auto s = compare(c, o.r.out, d.r.out, clean ? 1e-11 : 1e-4, !clean); if (!s.empty()) violation("state", "final state differs from that of the run that takes the accepted steps directly: " + s);
    probe("final_state_compared"); size_t rej = o.at.size() - o.times.size(); if (rej) probe("rejections_without_trace", rej);
}
static Plan gen12(Rng& r, int tier) { Plan p; base(r, p); gen_problem(r, p, tier, r.chance(0.2), false); gen_steps(r, p, false, 1); gen_windows(r, p, 0.35); return p; }
static void place12(Rng& r, Plan& p, const Counts& c) { failing_faults(r, p, c, 1, 4); }
// ------------------------------------------------------------------ C13
static double norm(const Vec& v) { double s = 0; for (double x : v) s += x * x; return std::sqrt(s); }
static void exec13(const Plan& pl) {
    Case c = parse(pl); if (!c.ok) return; set_step_limit(LIMIT); Outcome o = run_case(c, true); usable(c, o, "run with faults");
    for (size_t k = 0; k < o.r.out.size(); k++) for (double x : o.r.out[k]) if (!std::isfinite(x)) violation("non-finite", std::string("a result is not finite: ") + OUT[k]);
    if (!o.understood) { if (o.trouble_cls == "cover") violation("cover", o.trouble); probe("sequence_not_understood"); return; }
    Vec free; double eps = c.p.eps;
    for (size_t i = 0; i < o.at.size(); i++) { auto& a = o.at[i]; if (!o.accepted[i]) continue;
        if (a.nonfinite) violation("non-finite", "an attempt that saw non-finite numbers was accepted");
        if (a.solved == 0) violation("criterion", "a time step was accepted without solving a linear system");
        if (c.p.bc == 2 && !a.sum.empty()) { // all imposed values vanish: the norm of the solution is that of the unknowns
            if (free.size() != a.sum.size()) free.assign(a.sum.size(), 0); for (size_t k = 0; k < free.size(); k++) free[k] += a.sum[k];
            double n = norm(free); if (n > 1e-13 && norm(a.last) > eps * n * (1 + 1e-9)) violation("criterion", "accepted with a last increment of " + Plan::str(norm(a.last)) + " relative to " + Plan::str(n) + ", tolerance " + Plan::str(eps)); if (n > 1e-13) probe("increment_criterion_checked"); }
    }
    if (!o.times.empty() && c.kind != 3) {
        bool clean = clean_accepts(o); Outcome d = direct(c, o.times, std::min(eps, 1e-10), 60);
        if (d.r.how == "ok" && d.r.converged && (clean || is_tame(c))) { auto s = compare(c, {o.r.out[0], o.r.out[2]}, {d.r.out[0], d.r.out[2]}, std::max(1e3 * eps, 1e-7), true); if (!s.empty()) violation("criterion", "accepted, but far from the converged solution: " + s); probe("compared_with_converged_solution"); } else probe("no_reference");
    }
    if (is_tame(c) && o.r.converged && c.lf.kind == 0 && (c.p.bc == 0 || c.p.bc == 1) && !c.p.dynamic && c.p.cd >= 1 && c.p.fd >= 1 && c.kind != 2) { // quadratures of odd degree are not exact on general quadrilaterals
        double A = 0; for (double x : c.p.A) A = std::max(A, std::fabs(x)); if (!(o.r.l2 <= 1e-6 * A * o.times.back() + 1e-13)) violation("solution", "converged, but the displacement is not the exact one (distance " + Plan::str(o.r.l2) + ")"); probe("compared_with_exact_solution");
    }
    if (!o.r.converged) { bool clean = clean_accepts(o); if (clean) { Outcome d = direct(c, o.times); if (d.r.how == "ok" && (d.r.converged || o.times.empty())) { auto s = compare(c, o.r.out, d.r.out, 1e-11, false); if (!s.empty()) violation("state", "stopped without convergence, but the returned state is not the last accepted one: " + s); probe("last_accepted_state_compared"); } } }
}
static Plan gen13(Rng& r, int tier) { Plan p; base(r, p); bool t = r.chance(0.4); gen_problem(r, p, tier, t, t && r.chance(0.6)); gen_steps(r, p, t && r.chance(0.5)); gen_windows(r, p, 0.2); return p; }
static void place13(Rng& r, Plan& p, const Counts& c) {
    int n = (int)r.range(0, 3); for (int i = 0; i < n; i++) { if (r.chance(0.3)) one_fault(r, p, c, "load", {"nan", "inf"}); else if (r.chance(0.8)) one_fault(r, p, c, "pardiso2", {"nan", "inf", "onenan", "garbage", "zero", "fail"}); else one_fault(r, p, c, r.chance(0.5) ? "pardiso0" : "pardiso1", {"fail"}); }
    if (r.chance(0.15)) { uint64_t m = c.of("pardiso2"); for (uint64_t k = r.below(m + 1) + 1; k <= m + 200; k++) p.put("fault", "pardiso2", k, r.chance(0.5) ? "nan" : "zero", 0); } // the linear solver never recovers
}
// ------------------------------------------------------------------ C14
static void exec14(const Plan& pl) {
    Case c = parse(pl); if (!c.ok) return; set_step_limit(LIMIT); Outcome o = run_case(c, true); usable(c, o, "run with faults");
    size_t us = user_steps(c.p).size(), bound = us * ((2ull << c.p.sublevel) - 1);
    if (o.at.size() > bound) violation("attempts", std::to_string(o.at.size()) + " attempts, at most " + std::to_string(bound) + " possible");
    for (auto& a : o.at) if (a.solves > (size_t)c.p.iter_max) violation("iterations", std::to_string(a.solves) + " iterations in one attempt, " + std::to_string(c.p.iter_max) + " allowed");
    if (!o.understood) { if (o.trouble_cls == "gave-up" || o.trouble_cls == "level") violation(o.trouble_cls, o.trouble); probe("sequence_not_understood"); return; }
    probe("bounds_checked"); bool clean = true; std::vector<double> before; int checked = 0;
    for (size_t i = 0; i < o.at.size(); i++) { auto& a = o.at[i];
        if (o.accepted[i]) { if (a.bad || a.soft) clean = false; before.push_back(a.t); continue; }
        if (a.bad || a.soft || !(clean || is_tame(c)) || checked >= 2) continue;
        checked++; auto v = before; v.push_back(a.t); Outcome d = direct(c, v); bool prefix = true; if (!before.empty() && !clean) { Outcome q = direct(c, before); prefix = q.r.converged; }
        if (d.r.how == "ok" && d.r.converged && prefix) violation("progress", "the attempt on [" + Plan::str(o.step[i].s) + ", " + Plan::str(a.t) + "] met no fault and converges without faults, but was rejected"); probe("clean_rejection_confirmed"); }
    size_t n = 0; for (size_t i = 0; i < o.at.size(); i++) if (!o.at[i].bad && !o.at[i].soft && o.accepted[i]) n++; probe("clean_attempt_accepted", n);
}
static Plan gen14(Rng& r, int tier) { Plan p; base(r, p); bool t = r.chance(0.6); gen_problem(r, p, tier, t, false); gen_steps(r, p, t); gen_windows(r, p, 0.6); return p; }
static void place14(Rng& r, Plan& p, const Counts& c) {
    failing_faults(r, p, c, 0, 4);
    if (r.chance(0.2)) { const char* K[] = {"pardiso0", "pardiso1", "pardiso2"}; const char* k = K[r.below(3)]; uint64_t m = c.of(k), f = r.below(m + 1) + 1; std::vector<const char*> act = std::string(k) == "pardiso2" ? std::vector<const char*>{"zero", "fail", "nan", "garbage"} : std::vector<const char*>{"fail"}; const char* a = r.pick(act); for (uint64_t n = f; n < f + (r.chance(0.5) ? 10 : 400); n++) p.put("fault", k, n, a, 0); }
}
// ------------------------------------------------------------------ C15
static void exec15(const Plan& pl) {
    Case c = parse(pl); if (!c.ok) return; set_step_limit(LIMIT); Outcome o = run_case(c, true); usable(c, o, "run with faults");
    if (!o.understood) { if (o.trouble_cls == "time") violation("time", o.trouble); probe("sequence_not_understood"); return; }
    probe("load_times_checked", o.at.size());
    if (is_tame(c) && !c.p.dynamic && !o.times.empty()) { // elastic: the state at a time does not depend on the way there
        Outcome d = direct(c, {o.times.back()}); if (d.r.how != "ok" || !d.r.converged) { probe("no_reference"); return; }
        auto s = compare(c, o.r.out, d.r.out, 1e-6, true); if (!s.empty()) violation("scaling", "the state at time " + Plan::str(o.times.back()) + " is not the one for the loads and boundary values of that time: " + s); probe("elastic_state_compared"); if (o.at.size() > o.times.size()) probe("elastic_state_compared_after_rejections");
        if ((c.p.bc == 0 || c.p.bc == 1) && c.lf.kind == 0 && c.p.cd >= 1 && c.kind != 2 && o.r.converged && !c.p.recompute) { double A = 0; for (double x : c.p.A) A = std::max(A, std::fabs(x)); if (!(o.r.l2 <= 1e-6 * A * o.times.back() + 1e-13)) violation("scaling", "the displacement is not the boundary values scaled by the final time (distance " + Plan::str(o.r.l2) + ")"); probe("compared_with_exact_solution"); }
    } else if (clean_accepts(o) && !o.times.empty() && !c.p.recompute) { Outcome d = direct(c, o.times); if (d.r.how == "ok" && d.r.converged) { auto s = compare(c, o.r.out, d.r.out, 1e-11, false); if (!s.empty()) violation("scaling", "state after rejections differs from the one without: " + s); probe("path_state_compared"); } }
}
static Plan gen15(Rng& r, int tier) { Plan p; base(r, p); bool t = r.chance(0.75); gen_problem(r, p, tier, t, t && r.chance(0.4)); gen_steps(r, p, t, 1); gen_windows(r, p, 0.4); if (t && r.chance(0.3)) for (auto& l : p.lines) if (l[0] == "opt") { l[2] = "0"; l[3] = "1"; } return p; }
static void place15(Rng& r, Plan& p, const Counts& c) { failing_faults(r, p, c, 1, 4); }
// ------------------------------------------------------------------ C19
static const char* SUFFIX[] = {"depl_disc.msh", "depl_cont.msh", "CauchyStress_GP.msh", "CauchyStress_GP_def.msh", "deformed_disc.msh", "plastic_GP.msh", "stabCoeff.msh", "equivalentPlasticStrain_GP.msh"};
static void exec19(const Plan& pl) {
    Case c = parse(pl); if (!c.ok) return; set_step_limit(LIMIT); Outcome o = run_case(c, true); usable(c, o, "run with disk faults");
    if (!o.understood) { probe("sequence_not_understood"); return; }
    std::vector<double> want = c.p.saves; std::sort(want.begin(), want.end()); bool on = c.p.n_save > 0; size_t w = 0, f = 0; std::vector<double> acc; std::vector<std::pair<size_t, size_t>> sets; // (first file, accepted steps)
    for (size_t i = 0; i < o.at.size(); i++) {
        bool hit = false; if (o.accepted[i]) { acc.push_back(o.at[i].t); if (on) while (w < want.size() && want[w] < o.at[i].t + 1e-5) { hit = true; w++; } }
        size_t n = 0; while (f + n < o.saved.size() && o.saved[f + n].attempt == i) n++;
        std::string at = "attempt " + std::to_string(i) + " (end " + Plan::str(o.at[i].t) + (o.accepted[i] ? ", accepted)" : ", rejected)");
        if (!hit && n) violation("saved", "files were saved after " + at + ", where no requested time is reached: " + o.saved[f].file);
        if (hit && n != 8) violation("saved", std::to_string(n) + " files instead of one set of 8 after " + at);
        if (hit) { std::string pre = "result" + std::to_string(c.kind == 3 ? 3 : 2) + "D_t" + std::to_string(o.at[i].t) + "_"; for (size_t k = 0; k < 8; k++) if (o.saved[f + k].file != pre + SUFFIX[k]) violation("saved", "file " + o.saved[f + k].file + " instead of " + pre + SUFFIX[k]); sets.push_back({f, acc.size()}); probe("sets_saved"); }
        f += n;
    }
    if (f != o.saved.size()) violation("saved", "files were saved that belong to no attempt");
    probe("schedule_checked"); bool clean = clean_accepts(o); if (!clean) { probe("not_comparable"); return; }
    int done = 0; for (size_t k = 0; k < sets.size() && done < 2; k++) { size_t q = k == 0 && sets.size() > 2 ? sets.size() / 2 : k; std::vector<double> ts(o.times.begin(), o.times.begin() + sets[q].second); Outcome d = direct(c, ts); done++;
        if (d.r.how != "ok" || !d.r.converged) violation("direct", "the accepted steps do not converge when they are taken directly");
        for (size_t j = 0; j < 8; j++) { auto s = differ(o.saved[sets[q].first + j].values, d.r.out[j], 1e-11, floor_of(c, j), j); if (!s.empty()) violation("contents", "the files of time " + Plan::str(ts.back()) + " do not hold the state accepted at that time: " + s); } probe("contents_compared"); }
    Outcome d = direct(c, o.times); if (d.r.how == "ok" && (d.r.converged || o.times.empty())) { auto s = compare(c, o.r.out, d.r.out, 1e-11, false); if (!s.empty()) violation("state", "saving (or failing to) changed the computed solution: " + s); probe("final_state_compared"); }
}
static Plan gen19(Rng& r, int tier) {
    Plan p; base(r, p); gen_problem(r, p, tier, r.chance(0.4), false); gen_steps(r, p, false, 1); double T = tfinal(p); int n = (int)r.range(0, 5); for (int i = 0; i < n; i++) p.put("save", r.chance(0.3) ? T * r.unit() : (double)r.range(0, (int64_t)(T * 16) + 3) / 16); p.put("nsave", r.chance(0.9) ? std::max(n, 1) : 0); gen_windows(r, p, 0.35); return p;
}
static void place19(Rng& r, Plan& p, const Counts& c) {
    if (r.chance(0.6)) { int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) { if (r.chance(0.4)) one_fault(r, p, c, "open", {"enoent", "eacces", "emfile", "enospc"}); else if (r.chance(0.8)) one_fault(r, p, c, "write", {"enospc", "eio", "short"}); else one_fault(r, p, c, "close", {"eio", "enospc"}); } }
    if (r.chance(0.6)) failing_faults(r, p, c, 1, 3);
}
// ------------------------------------------------------------------ C11
static void exec_list(const Plan& pl) {
    auto h = pl.all("tlist"); if (h.empty()) return; const Line& L = *h[0]; int ctor = (int)toi(L[1]); bool has = toi(L[2]); double end = tod(L[3]); std::vector<std::pair<double, int>> us;
    for (auto* l : pl.all("tstep")) us.push_back({tod((*l)[1]), std::clamp((int)toi((*l)[2]), 1, 1000)});
    double last = 0; for (auto& u : us) { if (!(u.first > last)) return; last = u.first; }
    if (us.empty() && ctor != 2) return; if (ctor == 1) { us.resize(1); has = false; } last = us.empty() ? 0 : us.back().first; if (!has) end = last;
    std::unique_ptr<nw::Steps> l; { Sut s; l.reset(nw::make_steps(us, has, end, ctor)); }
    if (ctor == 2) { if (!l->empty() || l->total() || l->remaining() || l->done() || l->index() != 1) violation("counters", "an empty list of time steps does not look empty"); probe("empty_list"); return; }
    // nominal ends of the user steps
    std::vector<long double> nom; std::vector<bool> exact; long double s0 = 0; for (auto& u : us) { for (int i = 0; i < u.second; i++) { nom.push_back(i + 1 == u.second ? (long double)u.first : s0 + (i + 1) * ((long double)u.first - s0) / u.second); exact.push_back(i + 1 == u.second); } s0 = u.first; }
    size_t keep = nom.size(); bool ambiguous = false; for (size_t i = 0; i < nom.size(); i++) { if (!exact[i] && fabsl(nom[i] - end) < 1e-9L * last) ambiguous = true; if (nom[i] > end) { keep = i; break; } }
    if (has && end < last && us.size() > 1) ambiguous = ambiguous || keep < nom.size(); // what is left out of the middle of the list also moves the later starts
    if (!ambiguous && l->total() != keep) violation("counters", std::to_string(l->total()) + " time steps instead of " + std::to_string(keep));
    std::vector<Stp> st; size_t done = 0; double prev = 0; int splits = 0; size_t nominal = 0; // st: steps known from splits
    auto look = [&](double& a, double& b, size_t& lv) { Sut s; l->current(a, b, lv); };
    auto counters = [&](const char* w) { if (l->done() != done || l->index() != done + 1 || l->total() != done + l->remaining() || l->empty() != (l->remaining() == 0)) violation("counters", std::string("after ") + w + ": " + std::to_string(l->done()) + " done, " + std::to_string(l->remaining()) + " left, " + std::to_string(l->total()) + " in total, " + std::to_string(done) + " accepted"); };
    counters("construction"); char m[256];
    auto check_front = [&] { double a, b; size_t lv; look(a, b, lv);
        if (a != prev) { snprintf(m, sizeof m, "step [%.17g, %.17g] does not start at %.17g, where the previous one ended", a, b, prev); violation("contiguous", m); }
        if (!(b > a)) { snprintf(m, sizeof m, "step [%.17g, %.17g] does not go forward", a, b); violation("contiguous", m); }
        if (!(b <= end)) { snprintf(m, sizeof m, "step [%.17g, %.17g] exceeds the final time %.17g", a, b, end); violation("contiguous", m); }
        if (!st.empty()) { auto& e = st.back(); if (a != e.s || b != e.e || (int)lv != e.level) { snprintf(m, sizeof m, "current step is [%.17g, %.17g] at level %zu, not [%.17g, %.17g] at level %d", a, b, lv, e.s, e.e, e.level); violation("split", m); } }
        else { if (lv) violation("split", "a user step has a level"); if (!ambiguous && nominal < nom.size() && !(fabsl(b - nom[nominal]) <= 1e-12L * last) ) { snprintf(m, sizeof m, "step ends at %.17g instead of %.17Lg", b, nom[nominal]); violation("contiguous", m); } if (!ambiguous && nominal < nom.size() && exact[nominal] && b != (double)nom[nominal]) { snprintf(m, sizeof m, "user step ends at %.17g instead of exactly %.17Lg", b, nom[nominal]); violation("end", m); } } };
    auto accept = [&] { double a, b; size_t lv; look(a, b, lv); { Sut s; l->accept(); } prev = b; done++; if (!st.empty()) st.pop_back(); else nominal++; if (!st.empty() && false) {} counters("an accepted step"); };
    for (auto* op : pl.all("top")) { if (l->empty()) break; check_front();
        if ((*op)[1] == "split") { double a, b; size_t lv; look(a, b, lv); if (lv >= 20) continue; double mid = a + (b - a) / 2; if (!(mid > a && mid < b)) continue; size_t n = l->remaining(); { Sut s; l->split(); } splits++;
            if (st.empty()) { nominal++; st.push_back({a, b, 0}); } st.pop_back();
            double a2, b2; size_t l2; look(a2, b2, l2); if (a2 != a || !(b2 > a && b2 < b) || l2 != lv + 1) { snprintf(m, sizeof m, "first half of [%.17g, %.17g] at level %zu is [%.17g, %.17g] at level %zu", a, b, lv, a2, b2, l2); violation("split", m); }
            if (fabsl((long double)b2 - ((long double)a + b) / 2) > 1e-15L * (std::fabs(a) + std::fabs(b))) { snprintf(m, sizeof m, "[%.17g, %.17g] is split at %.17g", a, b, b2); violation("split", m); }
            st.push_back({b2, b, (int)lv + 1}); st.push_back({a2, b2, (int)lv + 1}); if (l->remaining() != n + 1) violation("counters", "a split replaced one step by " + std::to_string(l->remaining() + 1 - n)); counters("a split"); probe("splits");
        } else accept(); }
    size_t guard = l->remaining() + 5; while (!l->empty()) { if (!guard--) violation("counters", "the list never becomes empty"); check_front(); accept(); }
    if (keep == nom.size() && prev != last) { snprintf(m, sizeof m, "the last accepted step ends at %.17g instead of exactly %.17g", prev, last); violation("end", m); }
    if (splits > 0) probe("lists_with_splits"); probe("lists_checked"); note("list:" + std::to_string(std::min<size_t>(nom.size(), 20)) + ":" + std::to_string(std::min(splits, 20)));
}
static void exec11(const Plan& pl) {
    exec_list(pl); Case c = parse(pl); if (!c.ok) return; set_step_limit(LIMIT); Outcome o = run_case(c, true); usable(c, o, "run with faults");
    if (!o.understood) { if (o.trouble_cls == "time" || o.trouble_cls == "steps" || o.trouble_cls == "cover") violation("tiling", o.trouble); probe("sequence_not_understood"); return; }
    if (o.r.time_step != o.times.size() + o.left) violation("counters", "the solver counts " + std::to_string(o.r.time_step) + " time steps; " + std::to_string(o.times.size()) + " were accepted and " + std::to_string(o.left) + " are left");
    probe("tilings_checked");
    if (c.p.dynamic && !o.times.empty() && clean_accepts(o)) { Outcome d = direct(c, o.times); if (d.r.how == "ok" && d.r.converged) { auto s = compare(c, o.r.out, d.r.out, 1e-11, false); if (!s.empty()) violation("tiling", "a dynamic run used other time increments than the accepted steps: " + s); probe("increments_compared"); } }
}
static Plan gen11(Rng& r, int tier) {
    Plan p; base(r, p);
    { static const int C[] = {0, 0, 0, 1, 2}; int ctor = C[r.below(5)]; int n = (int)r.range(1, 5); double t = 0, sc = std::pow(10., (double)r.range(-6, 6)); std::vector<double> T; for (int i = 0; i < n; i++) { t += sc * (r.chance(0.3) ? (double)r.range(1, 9) / 10 : std::exp(6 * r.unit() - 3)); p.put("tstep", t, r.chance(0.1) ? r.range(100, 1000) : r.range(1, 30)); T.push_back(t); }
      bool has = r.chance(0.4); p.put("tlist", ctor, (int)has, r.chance(0.4) ? t : r.chance(0.5) ? t * (1 + r.unit()) : r.chance(0.5) ? T[r.below(T.size())] : t * r.unit());
      int m = (int)r.range(0, tier ? 80 : 30); double ps = r.unit(); for (int i = 0; i < m; i++) p.put("top", r.chance(ps) ? "split" : "accept"); }
    if (r.chance(0.6)) { gen_problem(r, p, 0, true, false); if (r.chance(0.4)) for (auto& l : p.lines) if (l[0] == "opt") l[2] = "1"; gen_steps(r, p, true, 1); gen_windows(r, p, 0.6); }
    return p;
}
static void place11(Rng& r, Plan& p, const Counts& c) { failing_faults(r, p, c, 0, 4); }
// ------------------------------------------------------------------ C21
static void exec_timer(const Plan& pl) {
    auto ops = pl.all("timer"); if (ops.empty()) return; std::unique_ptr<nw::Timer> t; { Sut s; t.reset(nw::make_timer()); }
    bool started = false, running = false; uint64_t b0 = 0, b1 = 0, e0 = 0, e1 = 0; double lastv = -1; // begin and end lie between these readings of the simulated monotonic clock
    auto check = [&](double v, uint64_t lo, uint64_t hi, const char* w) { double l = lo * 1e-9 - 1e-12, h = hi * 1e-9 + 1e-12; if (!(v >= l && v <= h)) { char m[200]; snprintf(m, sizeof m, "%s: %.12g s, but between %.12g and %.12g s have passed", w, v, l, h); violation("timer", m); } };
    for (auto* o : ops) { const std::string& k = (*o)[1];
        if (k == "advance") clock_advance((uint64_t)toi((*o)[2])); else if (k == "jump") clock_wall_jump(toi((*o)[2]));
        else if (k == "tic") { uint64_t x = sim_now(); { Sut s; t->tic(); } b0 = x; b1 = sim_now(); started = running = true; lastv = -1; }
        else if (!started) continue;
        else if (k == "toc") { uint64_t x = sim_now(); double v; { Sut s; v = t->toc(); } e0 = x; e1 = sim_now(); running = false; check(v, e0 > b1 ? e0 - b1 : 0, e1 - b0, "toc()"); lastv = v; probe("timer_stopped"); }
        else if (k == "elapsed") { uint64_t x = sim_now(); double v; { Sut s; v = t->elapsed(); } uint64_t y = sim_now();
            if (running) { check(v, x > b1 ? x - b1 : 0, y - b0, "elapsed() while running"); if (v < lastv) violation("timer", "the elapsed time of a running timer decreased"); lastv = v; probe("timer_read_running"); }
            else { check(v, e0 > b1 ? e0 - b1 : 0, e1 - b0, "elapsed() after stopping"); if (v != lastv) violation("timer", "the elapsed time of a stopped timer changed"); probe("timer_read_stopped"); } }
    }
    note("timer:" + std::to_string(ops.size() / 4));
}
static void exec21(const Plan& pl) {
    exec_timer(pl); Case c = parse(pl); if (!c.ok) return; c.p.recompute = false; set_step_limit(LIMIT); Outcome o = run_case(c, true); usable(c, o, "run with faults"); auto& r = o.r;
    double slow = 0, total = o.ns * 1e-9; for (auto& a : o.at) slow += (a.slow_load + a.slow_solve) * 1e-9; char m[300]; double tiny = 1e-9;
    auto le = [&](double a, double b, const char* x, const char* y) { if (!(a <= b + tiny)) { snprintf(m, sizeof m, "%s (%.9g s) exceeds %s (%.9g s)", x, a, y, b); violation("timing", m); } };
    for (double v : {r.t_solver, r.t_newton, r.t_assembly, r.t_solve, r.t_grad, r.t_elem, r.t_law, r.t_stab, r.t_cond, r.t_post}) if (!(v >= 0)) violation("timing", "a negative time was reported: " + Plan::str(v));
    le(r.t_solver, total, "the reported solver time", "the time the run took"); le(r.t_newton, r.t_solver, "the Newton time", "the solver time"); le(r.t_assembly + r.t_solve + r.t_post, r.t_newton, "assembly, solve and postprocessing", "the Newton time");
    le(r.t_grad + r.t_elem + r.t_stab + r.t_cond, r.t_assembly, "the parts of the assembly", "the assembly time"); le(r.t_law, r.t_elem, "the time of the law", "the element time"); le(slow, r.t_newton, "the time lost in loads and linear solves", "the reported Newton time");
    bool anybad = false; double sl = 0, ss = 0; size_t solved = 0; for (auto& a : o.at) { anybad = anybad || a.bad; sl += a.slow_load * 1e-9; ss += a.slow_solve * 1e-9; solved += a.solved; }
    if (!anybad) { // every assembly and every solve was completed
        bool law_failed = false; for (size_t i = 0; i < o.at.size(); i++) if (o.accepted.size() > i && !o.accepted[i]) law_failed = true;
        if (!law_failed) { le(sl, r.t_elem, "the time lost in loads", "the element time"); le(ss, r.t_solve, "the time lost in linear solves", "the solve time"); if (r.iter != solved) violation("counter", std::to_string(r.iter) + " iterations reported, " + std::to_string(solved) + " linear systems solved"); probe("counters_checked"); } }
    if (o.understood) { if (r.time_step != o.times.size() + o.left) violation("counter", std::to_string(r.time_step) + " time steps reported, " + std::to_string(o.times.size()) + " accepted and " + std::to_string(o.left) + " left"); }
    probe("timings_checked"); if (slow > 0) probe("timings_checked_with_delays");
}
static Plan gen21(Rng& r, int tier) {
    Plan p; base(r, p); int n = (int)r.range(4, 30); for (int i = 0; i < n; i++) switch (r.below(6)) { case 0: p.put("timer", "tic"); break; case 1: p.put("timer", "toc"); break; case 2: case 3: p.put("timer", "elapsed"); break; case 4: p.put("timer", "advance", r.chance(0.2) ? r.below(1ull << 50) : r.below(1u << 30)); break; default: p.put("timer", "jump", (r.chance(0.5) ? 1 : -1) * (int64_t)r.below(1ull << 50)); }
    if (r.chance(0.6)) { gen_problem(r, p, 0, r.chance(0.7), false); gen_steps(r, p, true, 1); gen_windows(r, p, 0.2); }
    return p;
}
static void place21(Rng& r, Plan& p, const Counts& c) { int n = (int)r.range(0, 5); for (int i = 0; i < n; i++) { if (r.chance(0.5)) one_fault(r, p, c, "load", {"slow", "slow", "jump"}); else { static const char* K[] = {"pardiso0", "pardiso1", "pardiso2"}; one_fault(r, p, c, K[r.below(3)], {"slow", "jump"}); } } if (r.chance(0.3)) failing_faults(r, p, c, 1, 2); }
static struct Reg { Reg() {
    register_prop({"C11", gen11, place11, exec11}); register_prop({"C12", gen12, place12, exec12}); register_prop({"C13", gen13, place13, exec13}); register_prop({"C14", gen14, place14, exec14});
    register_prop({"C15", gen15, place15, exec15}); register_prop({"C19", gen19, place19, exec19}); register_prop({"C21", gen21, place21, exec21});
} } reg;
// the simulated disk of the result writer
namespace gmsh { void (*sink)(const Saved&) = nullptr; }
