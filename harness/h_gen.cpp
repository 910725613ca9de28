// Mesh generation, refinement and hierarchies over any history, schedule and lack of memory: C33, C24
#include "../sim/rt.hpp"
#include "load_ops.hpp"
#include <thread>
#include <set>
#include <cmath>
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
#include "diskpp/loaders/loader_uniform.hpp"
typedef std::array<double, 3> P3;
typedef disk::simplicial_mesh<R, 2> Tri; typedef disk::simplicial_mesh<R, 3> Tet; typedef disk::cartesian_mesh<R, 2> Quad; typedef disk::cartesian_mesh<R, 3> Hex; typedef disk::generic_mesh<R, 2> Poly; typedef disk::generic_mesh<R, 1> Line1;
// ------------------------------------------------------------------ what a mesh is, as the public API shows it
struct Shown { Model m; std::vector<VI> cells; std::string bad; };
template<class M> static Shown show(M& msh, bool sub) {
    Harness h; pause_faults(true); Shown s; g_defer = &s.bad;
    s.m = extract(msh, false, sub, false); g_defer = nullptr;
    for (auto it = msh.cells_begin(); it != msh.cells_end(); it++) s.cells.push_back(ids(*it));
    pause_faults(false); return s;
}
static std::string text(const Shown& s) {
    std::string t; char b[128]; for (auto& p : s.m.pts) { snprintf(b, sizeof b, "%.17g %.17g %.17g\n", p[0], p[1], p[2]); t += b; }
    for (auto& c : s.m.cells) t += c + "\n"; for (auto& [k, f] : s.m.faces) { snprintf(b, sizeof b, ": %d %zu\n", f.bnd, f.bnd ? (size_t)f.id : 0); t += mm::vs(k) + b; } for (auto& e : s.m.edges) { snprintf(b, sizeof b, "e %zu %zu\n", e.first, e.second); t += b; } return t;
}
// ------------------------------------------------------------------ geometry of the judge
static P3 sub3(const P3& a, const P3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static double det3(const P3& a, const P3& b, const P3& c) { return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
static double area(const std::vector<P3>& q) { double a = 0; for (size_t i = 1; i + 1 < q.size(); i++) { auto u = sub3(q[i], q[0]), v = sub3(q[i + 1], q[0]); a += u[0] * v[1] - u[1] * v[0]; } return a / 2; }
enum Shape { SEG, TRI, TET, QUAD, HEX, POLY };
struct Affine { double a[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, b[3] = {0, 0, 0};
    double det() const { return det3({a[0][0], a[0][1], a[0][2]}, {a[1][0], a[1][1], a[1][2]}, {a[2][0], a[2][1], a[2][2]}); }
    P3 inverse(const P3& x) const { double d = det(); P3 y = {x[0] - b[0], x[1] - b[1], x[2] - b[2]}, r; for (int k = 0; k < 3; k++) { double m[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = j == k ? y[i] : a[i][j]; r[k] = det3({m[0][0], m[0][1], m[0][2]}, {m[1][0], m[1][1], m[1][2]}, {m[2][0], m[2][1], m[2][2]}) / d; } return r; }
    void then(const double c[3][3], const double d[3]) { double n[3][3], e[3]; for (int i = 0; i < 3; i++) { e[i] = d[i]; for (int k = 0; k < 3; k++) e[i] += c[i][k] * b[k]; for (int j = 0; j < 3; j++) { n[i][j] = 0; for (int k = 0; k < 3; k++) n[i][j] += c[i][k] * a[k][j]; } } memcpy(a, n, sizeof a); memcpy(b, e, sizeof b); } };
static void random_affine(Rng& g, int dim, double c[3][3], double d[3]) {
    for (int i = 0; i < 3; i++) { d[i] = i < dim ? (g.unit() - 0.5) * 4 : 0; for (int j = 0; j < 3; j++) c[i][j] = i == j ? 1 : 0; }
    if (g.chance(0.3)) { double s = std::pow(2.0, (double)g.range(-6, 6)); for (int i = 0; i < dim; i++) c[i][i] = s; return; }
    for (int i = 0; i < dim; i++) { c[i][i] = 0.4 + g.unit() * 2; for (int j = 0; j < dim; j++) if (j != i) c[i][j] = (g.unit() - 0.5) * 0.35; }
}
// a conforming partition: every cell a proper cell, faces shared by two cells or on the boundary, everything used, nothing twice
struct Want { Shape shape; int dim; double measure = 1; size_t cells = 0; bool equal = false, sides = false, subs = true; Affine map; };
static std::string judge(const Shown& s, const Want& w) {
    char b[256]; if (!s.bad.empty()) return s.bad;
    if (w.cells && s.cells.size() != w.cells) { snprintf(b, sizeof b, "%zu cells instead of %zu", s.cells.size(), w.cells); return b; }
    auto& P = s.m.pts; std::vector<char> used(P.size(), 0); std::map<VI, int> seen; double total = 0, scale = 0;
    for (auto& p : P) for (double v : p) scale = std::max(scale, std::fabs(v)); double len = std::pow(w.measure, 1.0 / w.dim); scale = std::max(scale, len);
    double noise = 1e-13 * scale * std::pow(len, w.dim - 1) + 1e-14 * std::pow(scale, w.dim);
    auto add = [&](VI f) { seen[mm::sorted(f)]++; };
    for (size_t c = 0; c < s.cells.size(); c++) {
        auto& v = s.cells[c]; std::vector<P3> q; for (auto i : v) { if (i >= P.size()) return "a cell has a vertex that is not a point of the mesh"; used[i] = 1; q.push_back(P[i]); }
        { auto u = mm::sorted(v); if (std::unique(u.begin(), u.end()) != u.end()) return "a cell has a vertex twice"; }
        size_t nv = w.shape == SEG ? 2 : w.shape == TRI ? 3 : w.shape == TET || w.shape == QUAD ? 4 : w.shape == HEX ? 8 : v.size(); if (v.size() != nv || nv < 2) return "a cell has a wrong number of vertices";
        double a = 0;
        switch (w.shape) {
            case SEG: a = std::fabs(q[1][0] - q[0][0]); add({v[0]}); add({v[1]}); break;
            case TRI: a = std::fabs(area(q)); for (int i = 0; i < 3; i++) add({v[i], v[(i + 1) % 3]}); break;
            case QUAD: { std::vector<P3> r = {q[0], q[1], q[3], q[2]}; VI o = {v[0], v[1], v[3], v[2]}; a = std::fabs(area(r)); for (int i = 0; i < 4; i++) { if (std::fabs(area({r[i], r[(i + 1) % 4], r[(i + 2) % 4]})) < 0.1 * a) return "the corners of a quadrangle are not in order"; add({o[i], o[(i + 1) % 4]}); } break; }
            case POLY: { double sgn = area(q); a = std::fabs(sgn); for (size_t i = 0; i < q.size(); i++) add({v[i], v[(i + 1) % v.size()]}); break; }
            case TET: a = std::fabs(det3(sub3(q[1], q[0]), sub3(q[2], q[0]), sub3(q[3], q[0]))) / 6; add({v[0], v[1], v[2]}); add({v[0], v[1], v[3]}); add({v[0], v[2], v[3]}); add({v[1], v[2], v[3]}); break;
            case HEX: a = std::fabs(det3(sub3(q[1], q[0]), sub3(q[2], q[0]), sub3(q[4], q[0]))); add({v[0], v[1], v[3], v[2]}); add({v[4], v[5], v[7], v[6]}); add({v[0], v[2], v[6], v[4]}); add({v[1], v[3], v[7], v[5]}); add({v[0], v[1], v[5], v[4]}); add({v[2], v[3], v[7], v[6]}); break;
        }
        total += a; double want = w.measure / (double)s.cells.size();
        if (!(a > noise)) return "a cell without interior";
        if (w.equal && std::fabs(a - want) > 1e-9 * want + noise) { snprintf(b, sizeof b, "a cell of measure %g in a mesh of equal cells of measure %g", a, want); return b; }
    }
    if (std::fabs(total - w.measure) > 1e-9 * w.measure + noise * (double)s.cells.size()) { snprintf(b, sizeof b, "the cells measure %.12g together, the domain %.12g", total, w.measure); return b; }
    for (size_t i = 0; i < P.size(); i++) if (!used[i]) return "a point belongs to no cell";
    { auto q = P; std::sort(q.begin(), q.end()); for (size_t i = 1; i < q.size(); i++) if (q[i] == q[i - 1]) return "two points at the same place"; }
    if (seen.size() != s.m.faces.size()) { snprintf(b, sizeof b, "%zu faces, but the cells have %zu", s.m.faces.size(), seen.size()); return b; }
    for (auto& [f, n] : seen) {
        auto it = s.m.faces.find(f); if (it == s.m.faces.end()) return "a face of a cell is not a face of the mesh";
        if (n > 2) return "a face shared by more than two cells"; if (it->second.bnd != (n == 1)) return n == 1 ? "a face of one cell is not marked as boundary" : "a face between two cells is marked as boundary";
        if (n == 1 && w.sides) {
            static const int s2[4][2] = {{1, 0}, {0, 1}, {1, 1}, {0, 0}}, s3[6][2] = {{2, 0}, {1, 0}, {0, 0}, {2, 1}, {1, 1}, {0, 1}}; size_t id = (size_t)it->second.id; if (id >= (w.dim == 2 ? 4u : 6u)) return "a boundary number out of range"; auto& sd = w.dim == 2 ? s2[id] : s3[id];
            for (auto i : f) { auto u = w.map.inverse(P[i]); if (std::fabs(u[sd[0]] - sd[1]) > 1e-9) return "a boundary face is not on the side its number says"; }
        }
    }
    if (w.sides) for (auto& p : P) { auto u = w.map.inverse(p); for (int d = 0; d < w.dim; d++) if (u[d] < -1e-9 || u[d] > 1 + 1e-9) return "a point outside the domain"; }
    if (w.dim == 3) { std::set<std::pair<size_t, size_t>> e; for (auto& v : s.cells) { if (w.shape == TET) for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) e.insert({std::min(v[i], v[j]), std::max(v[i], v[j])}); else for (int i = 0; i < 8; i++) for (int k : {1, 2, 4}) if (!(i & k)) e.insert({std::min(v[i], v[i | k]), std::max(v[i], v[i | k])}); } if (e != s.m.edges) return "the edges are not those of the cells"; }
    return "";
}
// ------------------------------------------------------------------ generation (C33)
static std::string csv(uint64_t seed, int n, std::vector<P3>& pts) {
    Rng g(seed); std::string t = g.chance(0.5) ? "x;y\n" : "\n"; double r0 = 0.3 + g.unit(); char b[96]; pts.clear();
    for (int i = 0; i < n; i++) { double a = 2 * M_PI * (i + 0.3 * g.unit()) / n, r = r0 * (0.7 + 0.3 * g.unit()); double x = r * std::cos(a), y = r * std::sin(a); snprintf(b, sizeof b, g.chance(0.2) ? "%.17g;%.17g;7\n" : "%.17g;%.17g\n", x, y); if (i + 1 == n && g.chance(0.3)) b[strlen(b) - 1] = 0; t += b; pts.push_back({x, y, 0}); }
    if (g.chance(0.2)) t += "\n"; return t;
}
struct Slot {   // one mesh and what makes it; the operations of a slot happen in one thread
    int thread = 0; std::vector<const Line*> ops; std::vector<Shown> shown; std::vector<Want> want; std::vector<std::string> where; std::string how = "ok"; bool oom = false;
    void clear() { shown.clear(); want.clear(); where.clear(); how = "ok"; oom = false; }
    template<class M> void keep(M& m, const Want& w, const std::string& what) { auto s = show(m, w.subs); Harness h; shown.push_back(std::move(s)); want.push_back(w); where.push_back(what); }
    template<class M> void affine(M& m, Want& w, const Line& l) { Rng g((uint64_t)toi(l[3])); double c[3][3], d[3]; random_affine(g, w.dim, c, d);
        typedef typename M::point_type P; m.transform([&](const P& p) { P q; for (int i = 0; i < w.dim; i++) { double s = d[i]; for (int j = 0; j < w.dim; j++) s += c[i][j] * p.at(j); if constexpr (M::dimension >= 1) q.at(i) = s; } return q; });
        w.map.then(c, d); w.measure = std::fabs(w.map.det()); }
    template<class M> void simple(size_t first, Want w, const char* name) {
        M m; disk::simple_mesher<M> g(m); { Harness h; w.cells = w.shape == TET ? 6 : 4; } keep(m, w, std::string(name) + " mesher");
        for (size_t i = first; i < ops.size(); i++) { auto& l = *ops[i]; if (l[2] == "refine") { g.refine(); w.cells *= w.dim == 3 ? 8 : 4; } else if (l[2] == "affine") affine(m, w, l); else continue; keep(m, w, std::string(name) + " mesher after " + l[2]); }
    }
    void body();
    void run() { try { body(); } catch (const std::bad_alloc&) { oom = true; } catch (const std::exception& e) { Harness h; how = std::string("exception ") + e.what(); } catch (...) { Harness h; how = "unknown exception"; } }
};
void Slot::body() {
    if (ops.empty()) return; auto& l = *ops[0]; const std::string& k = l[2]; uint64_t seed = (uint64_t)toi(l[3]); Want w; w.equal = w.sides = true;
    if (k == "tri") { w.shape = TRI; w.dim = 2; simple<Tri>(1, w, "triangle"); }
    else if (k == "tet") { w.shape = TET; w.dim = 3; simple<Tet>(1, w, "tetrahedron"); }
    else if (k == "quad") { w.shape = QUAD; w.dim = 2; simple<Quad>(1, w, "quadrangle"); }
    else if (k == "hexa") {
        w.shape = POLY; w.dim = 2; w.equal = false; Poly m; disk::fvca5_hex_mesher<Poly> g(m);
        for (size_t i = 0; i < ops.size(); i++) { auto& o = *ops[i]; if (i == 0 || o[2] == "level") { g.make_level((size_t)toi(o[3]) % 4); w.map = Affine(); w.measure = 1; } else if (o[2] == "affine") affine(m, w, o); else continue; keep(m, w, "hexagon mesher after " + o[2]); }
    } else if (k == "uni") {
        w.shape = SEG; w.dim = 1; w.sides = w.subs = false; Line1 m;
        for (auto* o : ops) if ((*o)[2] == "uni") { Rng g((uint64_t)toi((*o)[3])); double a = (g.unit() - 0.5) * 6, b = a + 0.1 + 3 * g.unit(); size_t n = (size_t)g.range(1, 12); disk::uniform_mesh_loader<R, 1> ld(a, b, n); ld.verbose(false); if (!ld.populate_mesh(m)) violation("refused", "the uniform 1D mesh is refused"); w.measure = b - a; w.cells = n; keep(m, w, "uniform 1D mesh"); }
    } else {
        Rng g(seed); w.sides = false; w.cells = 1; auto c = [&] { return (g.unit() - 0.5) * 4; }; auto len = [&] { return 0.2 + g.unit() * 3; };
        if (k == "seg1") { Line1 m; double a = c(), h = len(); w.shape = SEG; w.dim = 1; w.measure = h; w.subs = false; disk::make_single_element_mesh(m, a, a + h); keep(m, w, "single segment"); }
        else if (k == "tri1") { typedef disk::point<R, 2> P; double x = c(), y = c(), h = len(), v = len(), s = g.unit(); Tri m; w.shape = TRI; w.dim = 2; w.measure = h * v / 2; disk::make_single_element_mesh(m, P{x, y}, P{x + h, y}, P{x + s, y + v}); keep(m, w, "single triangle"); }
        else if (k == "tet1") { typedef disk::point<R, 3> P; double x = c(), y = c(), z = c(), a = len(), b = len(), d = len(), s = g.unit(); Tet m; w.shape = TET; w.dim = 3; w.measure = a * b * d / 6; disk::make_single_element_mesh(m, P{x, y, z}, P{x + a, y, z}, P{x + s, y + b, z}, P{x + s, y - s, z + d}); keep(m, w, "single tetrahedron"); }
        else if (k == "quad1") { double x = c(), y = c(), a = len(), b = len(); Quad m; w.shape = QUAD; w.dim = 2; w.measure = a * b; disk::make_single_element_mesh(m, disk::point<R, 2>{x, y}, a, b); keep(m, w, "single quadrangle"); }
        else if (k == "hex1") { double x = c(), y = c(), z = c(), a = len(), b = len(), d = len(); Hex m; w.shape = HEX; w.dim = 3; w.measure = a * b * d; disk::make_single_element_mesh(m, disk::point<R, 3>{x, y, z}, a, b, d); keep(m, w, "single hexahedron"); }
        else if (k == "poly1") { double r = len(); size_t n = (size_t)g.range(3, 12); Poly m; w.shape = POLY; w.dim = 2; w.measure = r * r * n / 2 * std::sin(2 * M_PI / n); disk::make_single_element_mesh(m, r, n); keep(m, w, "single polygon"); }
        else if (k == "csv") {
            std::string path; std::vector<P3> pts; bool faulty; std::string file; { Harness h; int n = (int)g.range(3, 9); file = csv(seed, n, pts); path = "/sim/csv" + std::to_string(seed % 1000) + ".csv"; pause_faults(true); fs_write(path, file); pause_faults(false); w.measure = std::fabs(area(pts)); }
            uint64_t d0 = destructive_fired(); Poly m; w.shape = POLY; w.dim = 2; bool ok = disk::load_single_element_csv(m, path); faulty = destructive_fired() > d0;
            if (!ok && !faulty) violation("refused", "a complete CSV file is refused");
            if (ok && faulty && fault_fired("read:eof")) probe("csv_cut");      // the format has no end mark: what is left may be a polygon
            else if (ok) { keep(m, w, "polygon from a CSV file"); Harness h; auto& s = shown.back(); if (s.bad.empty() && s.m.pts != pts) { bool fewer = s.m.pts.size() < pts.size(); violation("csv", fewer ? "success, but the polygon of the CSV file is not complete" : "the polygon is not the one in the CSV file"); } } else probe("csv_refused");
        }
    }
}
static const char* MAKERS[] = {"tri", "tri", "tet", "quad", "quad", "hexa", "uni", "seg1", "tri1", "tet1", "quad1", "hex1", "poly1", "csv"};
static Plan gen33(Rng& r, int tier) {
    Plan p; p.cfg("sched_seed", r.below(1u << 30)); p.cfg("heap_mb", 192); int ns = (int)r.range(1, 4);
    for (int s = 0; s < ns; s++) {
        std::string k = MAKERS[r.below(14)]; int t = (int)r.below(3); p.put("op", s, t, k, r.below(1000000)); int n = (int)r.below(tier ? 6 : 5), ref = k == "tet" ? 2 : 3;
        if (ns > 2) ref--;
        for (int i = 0; i < n; i++) { if (k == "hexa") { if (r.chance(0.6)) p.put("op", s, t, "level", r.below(ns > 2 ? 3 : 4)); else p.put("op", s, t, "affine", r.below(1000000)); } else if (k == "uni") p.put("op", s, t, "uni", r.below(1000000)); else if (r.chance(0.55) && ref > 0) { ref--; p.put("op", s, t, "refine", 0); } else p.put("op", s, t, "affine", r.below(1000000)); }
    }
    p.cfg("oom", (int)r.chance(0.3)); return p;
}
static void place33(Rng& r, Plan& p, const Counts& c) {
    uint64_t mt = c.of("mtsteps"); if (mt) { int n = (int)r.range(1, 10); for (int i = 0; i < n; i++) p.put("preempt", r.below(mt) + 1, r.below(8)); }
    if (p.geti("oom") && c.of("alloc")) { int n = (int)r.range(1, 3); for (int i = 0; i < n; i++) p.put("fault", "alloc", r.range(1, (int64_t)c.of("alloc")), "enomem", 0); }
    if (c.of("read") && r.chance(0.6)) { static const char* a[] = {"eio", "eof", "short", "eintr"}; p.put("fault", "read", r.range(1, (int64_t)c.of("read")), a[r.below(4)], r.below(60)); }
    if (c.of("open") && r.chance(0.1)) p.put("fault", "open", 1, "eacces", 0);
}
static void exec33(const Plan& p) {
    std::map<int, Slot> slots; set_step_limit(3000000000ull); int nt = 0;
    for (auto* l : p.all("op")) { if (l->size() < 5) continue; auto& s = slots[(int)toi((*l)[1]) & 7]; if (s.ops.empty()) { bool known = false; for (auto* m : MAKERS) known |= (*l)[3] == m; if (!known) continue; s.thread = (*l)[3] == "csv" ? 0 : (int)toi((*l)[2]) & 3; /* std::regex: libstdc++ fills the cache of ctype::narrow without synchronization */ } nt = std::max(nt, s.thread + 1); s.ops.push_back(l); }
    // the operations are kept as "op slot thread what seed"; the slots read "what seed" at 2 and 3
    std::vector<std::unique_ptr<Line>> held; for (auto& [i, s] : slots) for (auto& l : s.ops) { held.push_back(std::make_unique<Line>(Line{(*l)[0], (*l)[1], (*l)[3], (*l)[4]})); l = held.back().get(); }
    bool clean0; uint64_t d0 = destructive_fired();
    { std::vector<std::thread> th; th.reserve(nt); Sut sut; int started = 0; for (int t = 0; t < nt; t++) try { th.emplace_back([&, t] { for (auto& [i, s] : slots) if (s.thread == t) s.run(); }); started = t + 1; } catch (const std::bad_alloc&) { break; } for (auto& x : th) x.join(); for (auto& [i, s] : slots) if (s.thread >= started) s.oom = true; }
    clean0 = destructive_fired() == d0; clear_faults(); if (live_threads() || unjoined_threads()) violation("thread", "making a mesh left a thread behind");
    auto judged = [&](Slot& s, bool clean, const char* when) {
        if (s.oom && clean) violation("exception", "out of memory without a fault");
        if (s.how != "ok") violation("exception", std::string("making a mesh ended with ") + s.how + when);
        for (size_t i = 0; i < s.shown.size(); i++) { auto w = judge(s.shown[i], s.want[i]); if (!w.empty()) violation("mesh", s.where[i] + ": " + w + when); log("mesh %s %zu cells", s.where[i].c_str(), s.shown[i].cells.size()); note(s.where[i] + ":" + std::to_string(s.shown[i].cells.size())); probe("meshes_judged"); probe(("made_" + (*s.ops[0])[2]).c_str()); }
        if (s.oom) probe("generator_out_of_memory");
    };
    for (auto& [i, s] : slots) judged(s, clean0, "");
    // alone, in order and with memory: the same meshes
    for (auto& [i, s] : slots) { if (s.ops.empty()) continue; Slot t; t.ops = s.ops; fs_reset_visible(); { Sut sut; t.run(); } judged(t, true, " (alone)"); for (size_t k = 0; k < s.shown.size(); k++) if (k >= t.shown.size() || text(s.shown[k]) != text(t.shown[k])) violation("result", s.where[k] + ": not the mesh it makes alone"); probe("compared_with_alone", s.shown.size()); }
    if (open_fds()) violation("resource", "a file was left open"); std::string what; if (ledger_errors(&what)) violation("resource", what);
}
// ------------------------------------------------------------------ hierarchies (C24)
struct Tm { std::vector<P3> pts; std::vector<std::array<size_t, 3>> tri; };
static Tm tm(const Shown& s) { Tm t; t.pts = s.m.pts; for (auto& c : s.cells) if (c.size() == 3) t.tri.push_back({c[0], c[1], c[2]}); return t; }
static bool in_tri(const Tm& t, size_t c, const P3& x, double tol) {
    auto &a = t.pts[t.tri[c][0]], &b = t.pts[t.tri[c][1]], &d = t.pts[t.tri[c][2]]; double A = area({a, b, d}); double u = area({x, b, d}) / A, v = area({a, x, d}) / A, w = area({a, b, x}) / A; return u >= -tol && v >= -tol && w >= -tol;
}
typedef std::array<double, 2> P2; typedef std::array<P2, 3> T2; typedef std::pair<P2, P2> E2;
static std::multiset<T2> tri_set(const Shown& s) { std::multiset<T2> r; for (auto& c : s.cells) { T2 t; for (int i = 0; i < 3; i++) t[i] = {s.m.pts[c[i]][0], s.m.pts[c[i]][1]}; std::sort(t.begin(), t.end()); r.insert(t); } return r; }
static std::map<E2, std::pair<bool, size_t>> edge_set(const Shown& s) { std::map<E2, std::pair<bool, size_t>> r; for (auto& [k, f] : s.m.faces) { P2 a = {s.m.pts[k[0]][0], s.m.pts[k[0]][1]}, b = {s.m.pts[k[1]][0], s.m.pts[k[1]][1]}; if (b < a) std::swap(a, b); r[{a, b}] = {f.bnd, f.bnd ? (size_t)f.id : 0}; } return r; }
// the next level, made independently
static std::string next_level(const Shown& c, const Shown& f) {
    auto mid = [](const P2& a, const P2& b) { return P2{(a[0] + b[0]) / 2, (a[1] + b[1]) / 2}; };
    // a midpoint does not depend on the order of its ends
    std::multiset<T2> want; for (auto& t : tri_set(c)) { P2 ab = mid(t[0], t[1]), bc = mid(t[1], t[2]), ac = mid(t[0], t[2]); for (T2 q : {T2{t[0], ab, ac}, T2{t[1], ab, bc}, T2{t[2], ac, bc}, T2{ab, bc, ac}}) { std::sort(q.begin(), q.end()); want.insert(q); } }
    if (want != tri_set(f)) return "the triangles are not those of the next refinement";
    auto ce = edge_set(c), fe = edge_set(f); size_t n = 0; for (auto& [e, b] : ce) { P2 m = mid(e.first, e.second); for (E2 h : {E2{e.first, m}, E2{m, e.second}}) { if (h.second < h.first) std::swap(h.first, h.second); auto it = fe.find(h); if (it == fe.end()) return "half an edge is missing"; if (it->second != b) return b.first ? "half a boundary edge has lost its boundary number" : "half an interior edge is marked as boundary"; n++; } }
    size_t nb = 0; for (auto& [e, b] : fe) nb += b.first; size_t cb = 0; for (auto& [e, b] : ce) cb += b.first; if (nb != 2 * cb) return "a new boundary edge"; return "";
}
static Plan gen24(Rng& r, int tier) {
    Plan p; p.cfg("sched_seed", r.below(1u << 30)); p.cfg("heap_mb", 192); int n = (int)r.range(1, 3);
    for (int i = 0; i < n; i++) {
        if (r.chance(0.5)) p.put("base", i, "tri", r.below(3), r.below(1000000), 0); else p.put("base", i, "file", r.range(1, 4), r.below(1000000), r.range(1, 3));
    }
    int m = (int)r.range(1, tier ? 8 : 5); for (int i = 0; i < m; i++) { if (i == 0 || r.chance(0.35)) p.put("build", i && r.chance(0.15) ? -1 : (int)r.below(n), r.below(4), r.chance(0.2)); else p.put("locate", r.below(5), r.below(1000000), r.range(1, 25)); } p.put("locate", r.below(4), r.below(1000000), 20);
    p.cfg("oom", (int)r.chance(0.35)); return p;
}
static void place24(Rng& r, Plan& p, const Counts& c) { if (p.geti("oom") && c.of("alloc")) { int n = (int)r.range(1, 3); for (int i = 0; i < n; i++) p.put("fault", "alloc", r.range(1, (int64_t)c.of("alloc")), "enomem", 0); } }
static void exec24(const Plan& p) {
    typedef disk::mesh_hierarchy<R> H; typedef disk::point<R, 2> P; set_step_limit(3000000000ull); std::vector<std::unique_ptr<Tri>> base; pause_faults(true);
    for (auto* l : p.all("base")) { auto m = std::make_unique<Tri>(); Rng g((uint64_t)toi((*l)[4])); { Sut s; if ((*l)[2] == "tri") { disk::simple_mesher<Tri> k(*m); for (int i = 0; i < toi((*l)[3]) % 3; i++) k.refine(); double c[3][3], d[3]; random_affine(g, 2, c, d); if (g.chance(0.7)) m->transform([&](const P& q) { return P{c[0][0] * q.x() + c[0][1] * q.y() + d[0], c[1][0] * q.x() + c[1][1] * q.y() + d[1]}; }); }
        else { { Harness h; fs_write("/sim/base.mesh2d", mm::make_file(mm::NETGEN2, g.next(), (int)toi((*l)[3]), (int)toi((*l)[5]), 1, 0)); } if (!disk::load_mesh_netgen<R>("/sim/base.mesh2d", *m)) violation("harness:load", ""); } } base.push_back(std::move(m)); }
    pause_faults(false); if (base.empty()) return;
    auto h = std::make_unique<H>(); bool built = false; std::vector<Shown> lev; bool unknown = false; size_t nbuild = 0, nloc = 0;
    for (auto& l : p.lines) {
        if (l[0] == "build") {
            bool self = built && !unknown && toi(l[1]) < 0; Shown own; if (self) own = lev.back();
            const Tri& b = self ? *std::prev(h->meshes_end()) : *base[(size_t)std::abs(toi(l[1])) % base.size()]; size_t levels = (size_t)toi(l[2]) % 4; if (b.cells_size() > 40 && levels > 2) levels = 2; if (b.cells_size() > 300) levels = std::min<size_t>(levels, 1); if (b.cells_size() > 1200) levels = 0; bool fresh = toi(l[3]); uint64_t d0 = destructive_fired(); std::string how = "ok";
            auto before = self ? own : show(const_cast<Tri&>(b), false);
            try { Sut s; if (fresh) { auto n = std::make_unique<H>(b, levels); h = std::move(n); } else h->build_hierarchy(b, levels); } catch (const std::bad_alloc&) { how = "bad_alloc"; } catch (const std::exception& e) { how = std::string("exception ") + e.what(); }
            bool faulty = destructive_fired() > d0; log("build %zu -> %s", levels, how.c_str()); note("build:" + std::to_string(levels) + how);
            if (!self && text(show(const_cast<Tri&>(b), false)) != text(before)) violation("mesh", "building a hierarchy changed the mesh it starts from");
            if (how == "bad_alloc" && faulty) { if (!fresh) unknown = true; probe("hierarchy_out_of_memory"); continue; }
            if (how != "ok") violation("exception", "building a hierarchy ended with " + how);
            built = true; unknown = false; lev.clear(); nbuild++;
            if (h->meshes_size() != levels + 1) violation("levels", "a hierarchy of " + std::to_string(h->meshes_size()) + " meshes instead of " + std::to_string(levels + 1));
            for (auto it = h->meshes_begin(); it != h->meshes_end(); ++it) lev.push_back(show(const_cast<Tri&>(*it), false));
            if (text(lev[0]) != text(before)) violation("mesh", "the coarsest mesh is not the given one");
            { pause_faults(true); auto a = h->coarsest_mesh(); auto z = h->finest_mesh(); pause_faults(false); if (text(show(a, false)) != text(lev[0]) || text(show(z, false)) != text(lev.back())) violation("mesh", "coarsest_mesh() or finest_mesh() is another mesh"); }
            for (auto& s : lev) if (!s.bad.empty()) violation("mesh", "hierarchy: " + s.bad);
            for (size_t i = 1; i < lev.size(); i++) { auto w = next_level(lev[i - 1], lev[i]); if (!w.empty()) violation("mesh", "level " + std::to_string(i) + ": " + w); probe("levels_judged"); }
        } else if (l[0] == "locate") {
            if (unknown) continue; size_t L = (size_t)toi(l[1]); Rng g((uint64_t)toi(l[2])); int n = (int)toi(l[3]); size_t top = built ? lev.size() - 1 : 0; std::vector<Tm> T; for (auto& s : lev) T.push_back(tm(s));
            for (int q = 0; q < n; q++) {
                P3 x{0, 0, 0}; bool inside = built, edge = false; int how = (int)g.below(6);
                if (built) {
                    size_t at = g.below(lev.size()); auto& F = T[at]; size_t c = g.below(F.tri.size()); double w[3] = {g.unit() + 1e-3, g.unit() + 1e-3, g.unit() + 1e-3};
                    if (how == 1) w[g.below(3)] = 0; else if (how == 2) { w[g.below(3)] = 1e-14 * g.unit(); } else if (how == 3) { size_t z = g.below(3); w[z] = 0; w[(z + 1) % 3] = w[(z + 2) % 3] = 1; } else if (how == 4) { for (auto& v : w) v = 0; w[g.below(3)] = 1; }
                    double sum = w[0] + w[1] + w[2]; for (int i = 0; i < 3; i++) for (int d = 0; d < 2; d++) x[d] += w[i] / sum * F.pts[F.tri[c][i]][d];
                    // a point on the boundary of the domain may be just outside
                    for (auto& [k, f] : lev[at].m.faces) if (f.bnd) { auto &a = lev[at].m.pts[k[0]], &b = lev[at].m.pts[k[1]]; double len = std::hypot(b[0] - a[0], b[1] - a[1]); double dist = std::fabs(2 * area({a, b, x})) / len, along = ((x[0] - a[0]) * (b[0] - a[0]) + (x[1] - a[1]) * (b[1] - a[1])) / len; if (dist < 1e-9 * len && along > -1e-9 * len && along < len * (1 + 1e-9)) edge = true; }
                    if (how == 5) { x[0] += 1e4; inside = false; }
                }
                size_t r = 0; std::string out = "ok"; bool invalid = false, logic = false; uint64_t d0 = destructive_fired();
                try { Sut s; r = h->locate_point(P{x[0], x[1]}, L); } catch (const std::bad_alloc&) { out = "bad_alloc"; } catch (const std::invalid_argument& e) { out = e.what(); invalid = true; } catch (const std::logic_error& e) { out = e.what(); logic = true; } catch (const std::exception& e) { out = std::string("exception ") + e.what(); }
                bool faulty = destructive_fired() > d0; log("locate %zu %.17g %.17g -> %s %zu", L, x[0], x[1], out.c_str(), r); nloc++;
                if (out == "bad_alloc" && faulty) { probe("location_out_of_memory"); continue; }
                if (!built) { if (!logic) violation("locate", "a point is located in a hierarchy that was not built"); continue; }
                if (L > top) { if (!invalid) violation("locate", "a level that does not exist: " + out); probe("refused_level"); continue; }
                if (!inside) { if (!invalid) violation("locate", "a point outside the mesh: " + out); probe("refused_point"); continue; }
                if (out != "ok") { if (edge && invalid) { probe("boundary_point_refused"); continue; } char b[160]; snprintf(b, sizeof b, "a point of the mesh is not found: %s (kind %d, level %zu)", out.c_str(), how, L); violation("locate", b); }
                if (r >= T[L].tri.size()) violation("locate", "no such triangle"); if (!in_tri(T[L], r, x, 1e-9)) { auto& t = T[L].tri[r]; auto &a = T[L].pts[t[0]], &b = T[L].pts[t[1]], &d = T[L].pts[t[2]]; double A = area({a, b, d}); char o[200]; snprintf(o, sizeof o, "the triangle returned does not contain the point (level %zu, kind %d, barycentric %g %g %g)", L, how, area({x, b, d}) / A, area({a, x, d}) / A, area({a, b, x}) / A); violation("locate", o); }
                probe("points_located"); if (how == 1 || how == 3) probe("located_on_an_edge"); if (how == 4) probe("located_on_a_vertex"); note("locate:" + std::to_string(how) + ":" + std::to_string(L));
            }
        }
    }
    h.reset(); for (auto& b : base) b.reset(); clear_faults(); if (!nbuild) probe("never_built");
}
static struct Reg { Reg() { register_prop({"C33", gen33, place33, exec33}); register_prop({"C24", gen24, place24, exec24}); } } reg;
