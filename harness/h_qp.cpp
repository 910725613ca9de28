// Material laws under histories of evaluations, refused evaluations, commits and copies, from several tasks: C16
#include "../sim/rt.hpp"
#include "qp_api.hpp"
#include <thread>
#include <memory>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <set>
using namespace sim;
namespace {
typedef std::vector<double> V;
struct M3 { double a[3][3]; M3() { memset(a, 0, sizeof a); } };
M3 add(const M3& x, const M3& y, double f) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.a[i][j] = x.a[i][j] + f * y.a[i][j]; return r; }
double tr(const M3& x) { return x.a[0][0] + x.a[1][1] + x.a[2][2]; }
double nrm(const M3& x) { double s = 0; for (auto& r : x.a) for (double v : r) s += v * v; return std::sqrt(s); }
M3 dev(const M3& x, int d) { M3 r = x; double t = tr(x) / d; for (int i = 0; i < d; i++) r.a[i][i] -= t; return r; }
M3 iso(const M3& e, double l, double m2) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.a[i][j] = m2 * e.a[i][j] + (i == j ? l * tr(e) : 0); return r; }
double det(const M3& f) { auto& a = f.a; return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); }
M3 cof(const M3& f) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a = (i + 1) % 3, b = (i + 2) % 3, c = (j + 1) % 3, d = (j + 2) % 3; r.a[i][j] = f.a[a][c] * f.a[b][d] - f.a[a][d] * f.a[b][c]; } return r; }
void jacobi(M3 s, double l[3], M3& v) { // eigenvalues and vectors of a symmetric matrix
    v = M3(); for (int i = 0; i < 3; i++) v.a[i][i] = 1;
    for (int it = 0; it < 60; it++) {
        int p = 0, q = 1; if (std::fabs(s.a[0][2]) > std::fabs(s.a[p][q])) { p = 0; q = 2; } if (std::fabs(s.a[1][2]) > std::fabs(s.a[p][q])) { p = 1; q = 2; }
        if (s.a[p][q] == 0) break;
        double th = 0.5 * std::atan2(2 * s.a[p][q], s.a[q][q] - s.a[p][p]), c = std::cos(th), t = std::sin(th);
        for (int k = 0; k < 3; k++) { double x = s.a[k][p], y = s.a[k][q]; s.a[k][p] = c * x - t * y; s.a[k][q] = t * x + c * y; }
        for (int k = 0; k < 3; k++) { double x = s.a[p][k], y = s.a[q][k]; s.a[p][k] = c * x - t * y; s.a[q][k] = t * x + c * y; }
        for (int k = 0; k < 3; k++) { double x = v.a[k][p], y = v.a[k][q]; v.a[k][p] = c * x - t * y; v.a[k][q] = t * x + c * y; }
    }
    for (int i = 0; i < 3; i++) l[i] = s.a[i][i];
}
M3 elog(const M3& F, double* l = nullptr) {
    M3 C; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) C.a[i][j] += F.a[k][i] * F.a[k][j];
    double w[3]; M3 v, r; jacobi(C, w, v); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) r.a[i][j] += 0.5 * std::log(w[k]) * v.a[i][k] * v.a[j][k];
    if (l) for (int i = 0; i < 3; i++) l[i] = w[i];
    return r;
}
// ---- reference model of the laws, from their documentation
struct State { M3 ep; double p = 0; };
enum Verdict { FINE, REFUSED, EITHER };
struct Model {
    int dim, def, law; qp::Data d; double lam, mu;
    void init() { mu = d.E / (2 * (1 + d.nu)); lam = d.E * d.nu / ((1 + d.nu) * (1 - 2 * d.nu)); std::sort(d.curve.begin(), d.curve.end()); }
    bool plastic_law() const { return law == 1 || (law == 2 && d.curve.size() >= 2); }
    M3 embed(const double* F) const { M3 r; for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) r.a[i][j] = F[3 * i + j]; if (def && dim == 2) r.a[2][2] = 1; return r; }
    // small strain part: from the committed state and the strain to stress and new state; slack: the plastic flag may be either
    M3 small(const M3& e, const State& s0, State& s1, bool& pl, bool& slack, double& scale) const {
        s1 = s0; pl = false; slack = false; M3 et = add(e, s0.ep, -1); scale = (2 * mu + 3 * std::fabs(lam)) * (nrm(e) + nrm(s0.ep)) + d.K * nrm(s0.ep) + 1e-300;
        if (law == 3) { M3 g = e; double n = nrm(dev(g, dim)); double q = 1 / std::sqrt(1 + n * n), tm = mu * (1 + q), tl = lam + mu / 2 - mu / 2 * q; scale = (2 * tm + 3 * std::fabs(tl)) * nrm(e); M3 r = iso(g, tl, tm); if (dim == 2) r.a[2][2] = 0; return r; }
        if (plastic_law()) {
            M3 s = dev(et, 3); for (auto& r : s.a) for (double& v : r) v *= 2 * mu; if (law == 1) s = add(s, s0.ep, -d.K);
            double q = std::sqrt(1.5) * nrm(s), dp = 0, phi;
            if (law == 1) { phi = q - d.sy - d.H * s0.p; dp = phi / (3 * mu + d.H + 1.5 * d.K); }
            else {
                auto seg = [&](double p) { size_t i = 0; while (i + 2 < d.curve.size() && p >= d.curve[i + 1].first) i++; return i; };
                auto H = [&](size_t i) { return (d.curve[i + 1].second - d.curve[i].second) / (d.curve[i + 1].first - d.curve[i].first); };
                auto R = [&](double p) { size_t i = seg(p); return d.curve[i].second + H(i) * (p - d.curve[i].first); };
                phi = q - R(s0.p);
                if (phi >= 0) for (size_t i = seg(s0.p); i + 1 < d.curve.size(); i++) { dp = (q - d.curve[i].second - H(i) * (s0.p - d.curve[i].first)) / (3 * mu + H(i)); if (i + 2 == d.curve.size() || s0.p + dp < d.curve[i + 1].first) break; }
            }
            slack = std::fabs(phi) <= 1e-9 * (scale + d.sy);
            if (phi >= 0) { pl = true; s1.p += dp; s1.ep = add(s1.ep, s, dp * 1.5 / q); et = add(e, s1.ep, -1); }
        }
        return iso(et, lam, 2 * mu);
    }
    Verdict eval(const double* Fv, const State& s0, State& s1, bool& pl, bool& slack, M3& stress, bool& comparable, double& scale, double& rel) const {
        M3 F = embed(Fv); pl = slack = false; comparable = true; s1 = s0; rel = 1e-8;
        if (def == 0) { double n = nrm(F); stress = small(F, s0, s1, pl, slack, scale); bool wild = nrm(dev(F, 3)) * 1e5 < n && plastic_law() && pl; return (n > 10 || wild) && (law == 1 || law == 2) ? EITHER : FINE; }
        double J = det(F);
        if (def == 1) {
            if (J <= 0.0099) return REFUSED;
            double l[3]; M3 E = elog(F, l); M3 T = small(E, s0, s1, pl, slack, scale);
            for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (std::fabs(l[i] - l[j]) < 1e-6 * (l[i] + l[j])) comparable = false; // dE/dF is computed from differences there
            const double h = 1e-5; stress = M3(); double sens = 0;
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { M3 a = F, b = F; a.a[i][j] += h; b.a[i][j] -= h; M3 dE = add(elog(a), elog(b), -1); for (int k = 0; k < 3; k++) for (int m = 0; m < 3; m++) { stress.a[i][j] += T.a[k][m] * dE.a[k][m] / (2 * h); sens += std::fabs(dE.a[k][m]) / (2 * h); } }
            scale *= 1 + sens; rel = 1e-4; if (*std::min_element(l, l + 3) < 0.01) comparable = false;
            return J <= 0.0101 || nrm(E) > 20 ? EITHER : FINE;
        }
        if (J <= -1e-12 * (1 + nrm(F) * nrm(F) * nrm(F))) return REFUSED;
        if (d.type < 1 || d.type > 6) return REFUSED;
        double T1; switch (d.type) { case 1: T1 = std::log(J); break; case 2: T1 = J * (J - 1); break; case 3: T1 = std::log(J) / (std::log(10.) * std::log(10.)); break; case 4: T1 = (J - 1) / (J * J); break; case 5: T1 = 2 * J * J * (J * J - 1); break; default: T1 = (J * J - 1) / 2; }
        M3 c = cof(F); double f = mu, trC = nrm(F) * nrm(F); if (law == 5) f = mu * std::pow(3 * trC, -0.25);
        M3 zero; stress = add(add(zero, F, f), c, (lam * T1 - mu) / J); scale = f * nrm(F) + (std::fabs(lam * T1) + mu) * nrm(c) / std::fabs(J); rel = 1e-7;
        return J <= 1e-12 * (1 + nrm(F) * nrm(F) * nrm(F)) ? EITHER : FINE;
    }
};
struct Ev { std::string how; double stress[9] = {}, tan[81] = {}; size_t ntan = 0; };
void evaluate(qp::Beh& b, size_t c, size_t q, const double* F, bool tan, Ev& e) {
    try { b.eval(c, q, F, tan, e.stress, e.tan, e.ntan); e.how = "ok"; } catch (const std::bad_alloc&) { e.how = "bad_alloc"; } catch (const std::invalid_argument&) { e.how = "refused"; } catch (const std::exception& x) { e.how = std::string("exception ") + x.what(); } catch (...) { e.how = "unknown exception"; }
}
bool same(double a, double b, double s) { return a == b || std::fabs(a - b) <= 1e-11 * s || (std::isnan(a) && std::isnan(b)); }
bool same(const V& a, const V& b) { if (a.size() != b.size()) return false; double s = 0; for (double x : a) if (std::isfinite(x)) s = std::max(s, std::fabs(x)); for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i], s)) return false; return true; }
struct Op { std::string kind; size_t c = 0, q = 0; bool tan = true; double F[9] = {}; Ev ev; };
const int LAWS[][2] = {{0, 0}, {0, 1}, {0, 2}, {0, 3}, {1, 0}, {1, 1}, {1, 2}, {2, 4}, {2, 5}};
Plan gen(Rng& r, int tier) {
    Plan p; p.cfg("sched_seed", r.below(1u << 30)); p.cfg("heap_mb", 128);
    int dim = r.chance(0.5) ? 2 : 3; const int* L = LAWS[r.below(9)]; if (r.chance(0.5)) L = LAWS[r.chance(0.5) ? 1 + r.below(2) : 5 + r.below(2)];
    double E = r.chance(0.5) ? 1000 : 2.0e5, sy = E * (r.chance(0.5) ? 1e-3 : 1e-2), ys = sy / E; p.put("mesh", dim, (int)(dim == 2 && r.chance(0.3)), r.range(dim == 2 ? 1 : 1, dim == 2 ? 4 : 2));
    p.put("law", L[0], L[1], E, r.chance(0.3) ? 0.0 : 0.05 * (double)r.range(1, 9), r.chance(0.3) ? 0.0 : E * 0.05 * (double)r.range(1, 8), r.chance(0.5) ? 0.0 : E * 0.03 * (double)r.range(1, 8), sy, (int)(r.chance(0.05) ? (r.chance(0.5) ? 0 : 7) : r.range(1, 6)));
    if (L[1] == 2 && !r.chance(0.1)) { int n = (int)r.range(2, 6); double pp = 0, R = sy; for (int i = 0; i < n; i++) { p.put("curve", pp, R); pp += ys * (0.2 + 3 * r.unit()); R += sy * (r.chance(0.2) ? 0 : r.unit()); } }
    int tasks = r.chance(0.6) ? 1 : (int)r.range(2, 4); p.cfg("tasks", tasks); p.cfg("oom", (int)r.chance(0.3));
    size_t np = r.range(1, 6); std::vector<std::pair<size_t, size_t>> pts; for (size_t i = 0; i < np; i++) pts.push_back({r.below(64), r.below(64)});
    double cur[6][9] = {}; bool fd = L[0] != 0; int n = (int)r.range(3, tier ? 60 : 30);
    for (int k = 0; k < n; k++) {
        double u = r.unit();
        if (u < 0.24) { p.put("op", "commit"); continue; } if (u < 0.29) { p.put("op", "copy"); continue; }
        if (u < 0.36) { p.put("op", "show"); continue; }
        size_t i = r.below(np); double F[9]; double* G = cur[i]; double sc = fd ? (L[0] == 1 ? (r.chance(0.5) ? 3 * ys : 0.15) : 0.2) : 3 * ys;
        double w = r.unit();
        for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) F[3 * a + b] = sc * (2 * r.unit() - 1);
        if (w < 0.35) for (int a = 0; a < 9; a++) F[a] = G[a] + 0.5 * F[a];               // small change
        else if (w < 0.45) for (int a = 0; a < 9; a++) F[a] = -G[a];                       // reversal
        else if (w < 0.55) { double z = r.chance(0.5) ? 1 : 1.5 + r.unit(); for (int a = 0; a < 9; a++) F[a] = G[a] * z; } // the same, proportional
        else if (w < 0.62) for (int a = 0; a < 9; a++) F[a] = 0;
        else if (w < 0.70) { double z = F[0], t = r.chance(0.5) ? 0 : std::pow(10, -6 - (double)r.below(12)); for (int a = 0; a < 9; a++) F[a] = (a % 4 == 0 ? z : 0) + t * F[a]; } // (nearly) hydrostatic
        else if (w < 0.74) { double z = std::pow(10, (double)r.range(1, 12)); for (int a = 0; a < 9; a++) F[a] *= z; } // diverging iteration
        if (!fd) for (int a = 0; a < 3; a++) for (int b = 0; b < a; b++) F[3 * a + b] = F[3 * b + a];
        if (w < 0.70 && r.chance(0.8)) memcpy(G, F, sizeof F);
        if (fd) { for (int a = 0; a < 3; a++) F[4 * a] += 1; if (w > 0.86) { if (r.chance(0.5)) for (int a = 0; a < 3; a++) F[a] = -F[a]; else if (r.chance(0.5)) for (int a = 0; a < 3; a++) F[a] = 0; else for (int a = 0; a < 9; a++) F[a] *= 0.05; } }
        Line l{"op", "eval", std::to_string(pts[i].first), std::to_string(pts[i].second), r.chance(0.7) ? "1" : "0"}; for (double x : F) l.push_back(Plan::str(x)); p.add(l);
    }
    p.put("op", "commit"); p.put("op", "show");
    return p;
}
void place(Rng& r, Plan& p, const Counts& c) {
    uint64_t mt = c.of("mtsteps"); if (mt) { int n = (int)r.range(1, 10); for (int i = 0; i < n; i++) p.put("preempt", r.below(mt) + 1, r.below(8)); }
    if (p.geti("oom") && c.of("alloc")) { int n = (int)r.range(1, 3); for (int i = 0; i < n; i++) p.put("fault", "alloc", r.range(1, (int64_t)c.of("alloc")), "enomem", 0); }
}
void exec(const Plan& p) {
    auto ml = p.all("mesh"), ll = p.all("law"); if (ml.empty() || ll.empty()) return; set_step_limit(4000000000ull);
    const Line &m = *ml[0], &l = *ll[0]; Model mod; mod.dim = (int)toi(m[1]); mod.def = (int)toi(l[1]); mod.law = (int)toi(l[2]); mod.d.E = tod(l[3]); mod.d.nu = tod(l[4]); mod.d.H = tod(l[5]); mod.d.K = tod(l[6]); mod.d.sy = tod(l[7]); mod.d.type = (int)toi(l[8]);
    for (auto* c : p.all("curve")) mod.d.curve.push_back({tod((*c)[1]), tod((*c)[2])});
    if (mod.d.curve.size() == 1) mod.d.curve.clear();
    auto data = mod.d; mod.init(); const auto& K = mod.dim == 2 ? qp::kind2() : qp::kind3();
    auto fresh = [&] { pause_faults(true); std::unique_ptr<qp::Beh> b; { Sut s; b.reset(K.make((int)toi(m[2]), (size_t)toi(m[3]), mod.def, mod.law, data)); } pause_faults(false); return b; };
    auto sut = fresh(), clean = fresh(); size_t nc = sut->cells(); std::vector<size_t> first{0}; for (size_t c = 0; c < nc; c++) first.push_back(first.back() + sut->points(c)); size_t N = first.back();
    if (N != sut->all_points()) violation("count", "numberOfQP() is not the sum over the cells");
    // what the sequence so far means: per point the last successful evaluation since the commit, and the model's state
    std::vector<std::vector<double>> pending(N); std::vector<State> com(N), cur(N); std::vector<char> flag(N, 0), fslack(N, 0), lost(N, 0); std::vector<V> last(N);
    std::vector<std::vector<std::pair<size_t, V>>> commits; // for the final replay
    std::vector<Op> batch; int tasks = std::max(1, std::min(8, (int)p.geti("tasks", 1)));
    auto paused = [&](auto f) { pause_faults(true); { Sut s; f(); } pause_faults(false); };
    auto current = [&](const char* when) { // the state shown is that of the last successful evaluation
        std::unique_ptr<qp::Beh> q; paused([&] { q.reset(clean->clone()); Ev e; for (size_t c = 0; c < nc; c++) for (size_t i = 0; i < sut->points(c); i++) { auto& pe = pending[first[c] + i]; if (!pe.empty()) evaluate(*q, c, i, pe.data(), true, e); } });
        for (size_t c = 0; c < nc; c++) for (size_t i = 0; i < sut->points(c); i++) {
            size_t k = first[c] + i; double a[9], b[9]; std::string ha = "ok", hb = "ok"; bool pa = false, pb = false; double qa = 0, qb = 0;
            paused([&] { try { sut->stress3(c, i, a); } catch (const std::exception& x) { ha = x.what(); } try { q->stress3(c, i, b); } catch (const std::exception& x) { hb = x.what(); } pa = sut->plastic(c, i); pb = q->plastic(c, i); qa = sut->p(c, i); qb = q->p(c, i); });
            auto where = [&] { return std::string(when) + ", cell " + std::to_string(c) + " point " + std::to_string(i); };
            if (ha != hb) violation("state", where() + ": the stress cannot be shown: " + ha + " / " + hb);
            if (ha == "ok" && !same(V(a, a + 9), V(b, b + 9))) violation("state", where() + ": the stress shown is not that of the last successful evaluation");
            if (pa != pb || !same(qa, qb, std::fabs(qa))) violation("state", where() + ": the plastic state shown is not that of the last successful evaluation");
            if (!lost[k] && !fslack[k] && pa != (bool)flag[k]) violation("model", where() + ": plastic " + std::to_string(pa) + ", the law says " + std::to_string((int)flag[k]));
            if (!lost[k] && std::fabs(qa - cur[k].p) > 1e-8 * (std::fabs(cur[k].p) + data.sy / data.E)) violation("model", where() + ": cumulated plastic strain " + std::to_string(qa) + ", the law says " + std::to_string(cur[k].p));
        }
        probe("state_compared");
    };
    auto flush = [&] {
        if (batch.empty()) return;
        if (tasks == 1 || batch.size() < 2 || spawned_threads() + (uint64_t)tasks > 28) { Sut s; for (auto& o : batch) evaluate(*sut, o.c, o.q, o.F, o.tan, o.ev); }
        else {
            auto mine = [&](const Op& o) { return (int)((first[o.c] + o.q) % (size_t)tasks); }; probe("parallel_batch");
            for (auto& o : batch) o.ev.how = "bad_alloc";
            std::vector<std::thread> th; th.reserve((size_t)tasks); Sut s; for (int t = 0; t < tasks; t++) try { th.emplace_back([&, t] { for (auto& o : batch) if (mine(o) == t) evaluate(*sut, o.c, o.q, o.F, o.tan, o.ev); }); } catch (const std::bad_alloc&) {} for (auto& x : th) x.join();
        }
        for (auto& o : batch) {
            size_t k = first[o.c] + o.q; std::unique_ptr<qp::Beh> q; Ev e; paused([&] { q.reset(clean->clone()); evaluate(*q, o.c, o.q, o.F, o.tan, e); });
            std::string where = "evaluation at cell " + std::to_string(o.c) + " point " + std::to_string(o.q);
            log("eval %zu %zu -> %s", o.c, o.q, o.ev.how.c_str()); note(std::to_string(mod.def) + std::to_string(mod.law) + o.ev.how + std::to_string(commits.size() > 3));
            if (o.ev.how != "bad_alloc" || !destructive_fired()) {
                if (o.ev.how != e.how) violation("result", where + ": " + o.ev.how + ", from the committed state alone: " + e.how);
                if (e.how == "ok" && (!same(V(o.ev.stress, o.ev.stress + mod.dim * mod.dim), V(e.stress, e.stress + mod.dim * mod.dim)) || !same(V(o.ev.tan, o.ev.tan + o.ev.ntan), V(e.tan, e.tan + e.ntan)))) violation("result", where + ": the result is not the one from the committed state");
                probe("result_compared"); if (!commits.empty()) probe("result_after_commit");
            }
            if (o.ev.how == "bad_alloc") { if (!destructive_fired()) violation("result", where + ": out of memory without a fault"); probe("evaluation_out_of_memory"); continue; }
            // the model
            State s1; bool pl, sl, comparable; M3 st; double scale = 0, rel; Verdict v = mod.eval(o.F, com[k], s1, pl, sl, st, comparable, scale, rel);
            if (v == REFUSED && o.ev.how == "ok") violation("model", where + ": an inadmissible deformation was accepted");
            if (v == FINE && lost[k] != 1 && o.ev.how != "ok") violation("model", where + ": an admissible strain was refused (" + o.ev.how + ")");
            if (o.ev.how != "ok" && o.ev.how != "refused") violation("model", where + ": " + o.ev.how);
            if (o.ev.how == "refused") { probe("evaluation_refused"); continue; }
            if (lost[k] == 1) ; else if (v == EITHER) lost[k] = 2; // not judged by the model until another evaluation, or for good once committed
            else if (lost[k] == 2) lost[k] = 0;
            if (!lost[k] && comparable) { for (int i = 0; i < mod.dim; i++) for (int j = 0; j < mod.dim; j++) if (!(std::fabs(o.ev.stress[mod.dim * i + j] - st.a[i][j]) <= rel * scale)) violation("model", where + ": stress " + std::to_string(o.ev.stress[mod.dim * i + j]) + ", the law says " + std::to_string(st.a[i][j])); probe("stress_compared_with_model"); }
            pending[k].assign(o.F, o.F + 9); cur[k] = s1; flag[k] = pl; fslack[k] = sl; if (pl) probe("plastic_evaluation");
        }
        batch.clear();
    };
    for (auto* lp : p.all("op")) {
        const Line& o = *lp;
        if (o[1] == "eval") { Op x; x.kind = "eval"; x.c = (size_t)toi(o[2]) % nc; x.q = (size_t)toi(o[3]) % sut->points(x.c); x.tan = o[4] == "1"; for (int i = 0; i < 9; i++) x.F[i] = tod(o[5 + i]); batch.push_back(x); if (tasks == 1) flush(); continue; }
        flush(); current("before an operation");
        if (o[1] == "commit") {
            { Sut s; sut->update(); } std::vector<std::pair<size_t, V>> c;
            paused([&] { Ev e; for (size_t ce = 0; ce < nc; ce++) for (size_t i = 0; i < sut->points(ce); i++) { size_t k = first[ce] + i; if (pending[k].empty()) continue; evaluate(*clean, ce, i, pending[k].data(), true, e); c.push_back({k, pending[k]}); } clean->update(); });
            for (size_t k = 0; k < N; k++) { if (!pending[k].empty()) { com[k] = cur[k]; pending[k].clear(); } if (lost[k] == 2 || (fslack[k] && !mod.d.curve.empty())) lost[k] = 1; }
            commits.push_back(c); probe("commit"); current("after a commit");
        } else if (o[1] == "copy") {
            std::unique_ptr<qp::Beh> n; { Sut s; try { n.reset(sut->clone()); } catch (const std::bad_alloc&) {} }
            if (n) { std::swap(n, sut); { Sut s; n.reset(); } probe("copied"); } else if (!destructive_fired()) violation("result", "copying: out of memory without a fault");
        }
        current("after an operation");
    }
    flush(); current("at the end");
    auto re = fresh(); paused([&] { Ev e; for (auto& c : commits) { for (auto& x : c) { size_t ce = 0; while (first[ce + 1] <= x.first) ce++; evaluate(*re, ce, x.first - first[ce], x.second.data(), true, e); } re->update(); } }); clean.swap(re); current("replayed from the start");
    if (live_threads() || unjoined_threads()) violation("thread", "an evaluation left a thread behind");
}
struct Reg { Reg() { register_prop({"C16", gen, place, exec}); } } reg;
}
