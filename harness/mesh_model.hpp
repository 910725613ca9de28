// Reference model of the mesh file formats: generators that write well-formed files, and an independent strict
// reader that says what mesh a sequence of bytes describes (or that it is not a complete file).
// Runs outside the code under test; shares no code with it.
#pragma once
#include "../sim/rt.hpp"
#include <array>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mm {
using sim::Rng;
typedef std::vector<size_t> VI;

enum Fmt { FVCA5, NETGEN2, QUAD, MEDIT2, POLY2, FVCA6, NETGEN3, HEX, MEDIT3, POLY3, NFMT };
static const char* fmt_name[] = {"fvca5", "netgen2", "quad", "medit2", "poly2", "fvca6", "netgen3", "hex", "medit3", "poly3"};
static const char* fmt_ext[]  = {"typ1", "mesh2d", "quad", "medit2d", "poly2d", "msh", "mesh", "hex", "medit3d", "poly3d"};
inline int fmt_of(const std::string& s) { for (int i = 0; i < NFMT; i++) if (s == fmt_name[i]) return i; return 0; }
inline bool mapped(int f) { return f == NETGEN2 || f == NETGEN3 || f == QUAD || f == HEX; }
inline bool is3d(int f) { return f >= FVCA6; }

// ---------------------------------------------------------------- canonical mesh
struct Face { bool bnd = false; size_t id = 0; bool internal = false; };
struct Model {
    int dim = 2;
    std::vector<std::array<double, 3>> pts;
    std::vector<std::string> cells;                 // canonical text of each cell, sorted
    std::map<VI, Face> faces;                       // by sorted vertex set
    std::set<std::pair<size_t, size_t>> edges;      // 3D only
    bool has_sub = false, has_int = false;
};
inline VI sorted(VI v) { std::sort(v.begin(), v.end()); return v; }
inline std::string vs(const VI& v) { std::string s; for (auto i : v) { s += std::to_string(i); s += ' '; } return s; }
inline std::string cell_text(const VI& verts, std::vector<VI> faces, long sub) {
    std::sort(faces.begin(), faces.end());
    std::string s = "v " + vs(verts) + "| "; for (auto& f : faces) s += vs(f) + "; "; s += "sub " + std::to_string(sub); return s;
}
inline std::string diff(const Model& want, const Model& got) {
    char b[256];
    if (want.pts.size() != got.pts.size()) { snprintf(b, sizeof b, "%zu points instead of %zu", got.pts.size(), want.pts.size()); return b; }
    for (size_t i = 0; i < want.pts.size(); i++) for (int d = 0; d < want.dim; d++)
        if (memcmp(&want.pts[i][d], &got.pts[i][d], 8)) { snprintf(b, sizeof b, "point %zu coordinate %d is %.17g instead of %.17g", i, d, got.pts[i][d], want.pts[i][d]); return b; }
    if (want.cells.size() != got.cells.size()) { snprintf(b, sizeof b, "%zu cells instead of %zu", got.cells.size(), want.cells.size()); return b; }
    for (size_t i = 0; i < want.cells.size(); i++) if (want.cells[i] != got.cells[i]) { return "cell '" + got.cells[i] + "' instead of '" + want.cells[i] + "'"; }
    if (want.faces.size() != got.faces.size()) { snprintf(b, sizeof b, "%zu faces instead of %zu", got.faces.size(), want.faces.size()); return b; }
    for (auto& [k, f] : want.faces) {
        auto i = got.faces.find(k); if (i == got.faces.end()) return "face '" + vs(k) + "' is missing";
        auto& g = i->second;
        if (f.bnd != g.bnd) return "face '" + vs(k) + "' is " + (g.bnd ? "" : "not ") + "marked as boundary";
        if (f.bnd && f.id != g.id) { snprintf(b, sizeof b, "' has boundary number %zu instead of %zu", g.id, f.id); return "face '" + vs(k) + b; }
        if (want.has_int && f.bnd && f.internal != g.internal) return "face '" + vs(k) + "' has a wrong internal flag";
    }
    if (want.dim == 3 && want.edges != got.edges) { snprintf(b, sizeof b, "edge set differs (%zu edges instead of %zu)", got.edges.size(), want.edges.size()); return b; }
    return "";
}

// ---------------------------------------------------------------- geometry generators
struct Geo2 { std::vector<std::array<double, 2>> p; std::vector<VI> loops; std::vector<size_t> sub; int nx, ny; bool axis = true; };
struct Geo3 { std::vector<std::array<double, 3>> p; std::vector<VI> faces; std::vector<VI> cell_faces; std::vector<VI> cell_verts; bool axis = true; };

inline void permute_points(Rng& r, size_t n, VI& perm) { perm.resize(n); for (size_t i = 0; i < n; i++) perm[i] = i; for (size_t i = n; i > 1; i--) std::swap(perm[i - 1], perm[r.below(i)]); }
inline double cross(const std::array<double, 2>& a, const std::array<double, 2>& b, const std::array<double, 2>& c) { return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]); }

// mode: 0 triangles only, 1 quads only, 2 mixed polygons
inline Geo2 gen2(Rng& r, int nx, int ny, int mode, size_t maxv, bool rotate) {
    Geo2 g; g.nx = nx; g.ny = ny; g.axis = !rotate;
    VI perm; permute_points(r, (size_t)(nx + 1) * (ny + 1), perm); g.p.resize(perm.size());
    double sx = rotate || mode == 1 ? 1.0 + r.below(3) : 1.0;
    std::vector<double> xs(nx + 1), ys(ny + 1);
    for (int i = 0; i <= nx; i++) xs[i] = sx * (double)i / nx; for (int j = 0; j <= ny; j++) ys[j] = (double)j / ny;
    for (int i = 1; i < nx; i++) xs[i] += sx * (r.unit() - 0.5) * 0.4 / nx; for (int j = 1; j < ny; j++) ys[j] += (r.unit() - 0.5) * 0.4 / ny;
    auto id = [&](int i, int j) { return perm[(size_t)j * (nx + 1) + i]; };
    double c = std::cos(0.6), s = std::sin(0.6);
    for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) {
        double x = xs[i], y = ys[j]; if (rotate) { double a = c * x - s * y, b = s * x + c * y; x = a; y = b; }
        g.p[id(i, j)] = {x, y};
    }
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        VI q{id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)};
        bool split = mode == 0 || (mode == 2 && r.chance(0.4));
        if (!split) g.loops.push_back(q);
        else if (r.chance(0.5)) { g.loops.push_back({q[0], q[1], q[2]}); g.loops.push_back({q[0], q[2], q[3]}); }
        else { g.loops.push_back({q[0], q[1], q[3]}); g.loops.push_back({q[1], q[2], q[3]}); }
    }
    if (mode == 2) {    // merge some neighbouring pairs into larger convex polygons
        int tries = (int)g.loops.size() / 2;
        while (tries-- > 0 && g.loops.size() > 1) {
            size_t a = r.below(g.loops.size()), b = r.below(g.loops.size()); if (a == b) continue;
            VI A = g.loops[a], B = g.loops[b]; if (A.size() + B.size() - 2 > maxv) continue;
            bool done = false; VI M;
            for (size_t i = 0; i < A.size() && !done; i++) for (size_t j = 0; j < B.size() && !done; j++)
                if (A[i] == B[(j + 1) % B.size()] && A[(i + 1) % A.size()] == B[j]) {
                    M.clear(); for (size_t k = 1; k <= A.size(); k++) M.push_back(A[(i + k) % A.size()]);        // A[i+1] .. A[i]
                    for (size_t k = 2; k < B.size(); k++) M.push_back(B[(j + k) % B.size()]);
                    done = true;
                }
            if (!done) continue;
            size_t shared = 0; for (auto v : A) shared += std::count(B.begin(), B.end(), v); if (shared != 2) continue;
            bool convex = true; for (size_t k = 0; k < M.size(); k++) if (cross(g.p[M[k]], g.p[M[(k + 1) % M.size()]], g.p[M[(k + 2) % M.size()]]) < -1e-12) convex = false;
            if (!convex) continue;
            g.loops[a] = M; g.loops.erase(g.loops.begin() + b);
        }
    }
    for (auto& l : g.loops) { std::rotate(l.begin(), l.begin() + r.below(l.size()), l.end()); }
    for (size_t i = g.loops.size(); i > 1; i--) std::swap(g.loops[i - 1], g.loops[r.below(i)]);
    g.sub.resize(g.loops.size()); for (auto& x : g.sub) x = 1 + r.below(3);
    return g;
}
struct Edge2 { size_t a, b; long c0, c1; };
inline std::vector<Edge2> edges2(const Geo2& g) {
    std::map<std::pair<size_t, size_t>, Edge2> m; std::vector<std::pair<size_t, size_t>> order;
    for (size_t c = 0; c < g.loops.size(); c++) { auto& l = g.loops[c]; for (size_t k = 0; k < l.size(); k++) {
        size_t a = l[k], b = l[(k + 1) % l.size()]; auto key = std::minmax(a, b); std::pair<size_t, size_t> kk(key.first, key.second);
        auto i = m.find(kk); if (i == m.end()) { m[kk] = Edge2{a, b, (long)c, -1}; order.push_back(kk); } else i->second.c1 = (long)c; } }
    std::vector<Edge2> r; for (auto& k : order) r.push_back(m[k]); return r;
}
// mode: 0 hexes, 1 hexes and prisms, 2 also merged polyhedra
inline Geo3 gen3(Rng& r, int nx, int ny, int nz, int mode, bool rotate) {
    Geo3 g; g.axis = !rotate; VI perm; size_t N = (size_t)(nx + 1) * (ny + 1) * (nz + 1); permute_points(r, N, perm); g.p.resize(N);
    auto id = [&](int i, int j, int k) { return perm[((size_t)k * (ny + 1) + j) * (nx + 1) + i]; };
    double c = std::cos(0.6), s = std::sin(0.6);
    for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) {
        double x = (double)i / nx, y = (double)j / ny, z = (double)k / nz;
        if (rotate) { double a = c * x - s * y, b = s * x + c * y; x = a; y = b; a = c * y - s * z; b = s * y + c * z; y = a; z = b; a = c * x - s * z; b = s * x + c * z; x = a; z = b; }
        g.p[id(i, j, k)] = {x, y, z};
    }
    std::vector<std::vector<VI>> cells; // face loops
    for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
        bool split = mode >= 1 && r.chance(0.4); bool dg = r.chance(0.5);
        for (int k = 0; k < nz; k++) {
            size_t a = id(i, j, k), b = id(i + 1, j, k), d = id(i + 1, j + 1, k), e = id(i, j + 1, k), A = id(i, j, k + 1), B = id(i + 1, j, k + 1), D = id(i + 1, j + 1, k + 1), E = id(i, j + 1, k + 1);
            if (!split) cells.push_back({{a, e, d, b}, {A, B, D, E}, {a, b, B, A}, {b, d, D, B}, {d, e, E, D}, {e, a, A, E}});
            else if (dg) { cells.push_back({{a, d, b}, {A, B, D}, {a, b, B, A}, {b, d, D, B}, {d, a, A, D}}); cells.push_back({{a, e, d}, {A, D, E}, {a, d, D, A}, {d, e, E, D}, {e, a, A, E}}); }
            else { cells.push_back({{a, e, b}, {A, B, E}, {a, b, B, A}, {b, e, E, B}, {e, a, A, E}}); cells.push_back({{b, e, d}, {B, D, E}, {b, d, D, B}, {d, e, E, D}, {e, b, B, E}}); }
        }
    }
    std::map<VI, size_t> fid; 
    auto build = [&]() {
        fid.clear(); g.faces.clear(); g.cell_faces.clear(); g.cell_verts.clear();
        for (auto& cl : cells) { VI cf; VI cv; for (auto& f : cl) { auto k = sorted(f); auto it = fid.find(k); if (it == fid.end()) { it = fid.emplace(k, g.faces.size()).first; g.faces.push_back(f); } cf.push_back(it->second); for (auto v : f) if (!std::count(cv.begin(), cv.end(), v)) cv.push_back(v); } g.cell_faces.push_back(cf); g.cell_verts.push_back(cv); }
    };
    if (mode == 2 && cells.size() > 1) {
        int tries = (int)cells.size() / 2;
        while (tries-- > 0 && cells.size() > 1) {
            size_t a = r.below(cells.size()), b = r.below(cells.size()); if (a == b) continue;
            if (cells[a].size() != 6 || cells[b].size() != 6) continue;
            int ia = -1, ib = -1, n = 0; for (size_t i = 0; i < 6; i++) for (size_t j = 0; j < 6; j++) if (sorted(cells[a][i]) == sorted(cells[b][j])) { ia = (int)i; ib = (int)j; n++; }
            if (n != 1) continue;
            auto B = cells[b]; B.erase(B.begin() + ib); cells[a].erase(cells[a].begin() + ia); for (auto& f : B) cells[a].push_back(f); cells.erase(cells.begin() + b);
        }
    }
    for (size_t i = cells.size(); i > 1; i--) std::swap(cells[i - 1], cells[r.below(i)]);
    build();
    // shuffle the numbering of the faces
    VI fp; permute_points(r, g.faces.size(), fp); std::vector<VI> nf(g.faces.size()); for (size_t i = 0; i < nf.size(); i++) { nf[fp[i]] = g.faces[i]; std::rotate(nf[fp[i]].begin(), nf[fp[i]].begin() + r.below(nf[fp[i]].size()), nf[fp[i]].end()); }
    g.faces = nf; for (auto& cf : g.cell_faces) { for (auto& f : cf) f = fp[f]; for (size_t i = cf.size(); i > 1; i--) std::swap(cf[i - 1], cf[r.below(i)]); }
    return g;
}

// ---------------------------------------------------------------- writers
struct Wr {
    std::string s; Rng r; int sep, nf; bool line_exact; size_t col = 0;
    Wr(uint64_t seed, int style, bool le) : r(seed ^ 0x5EED), sep(style & 3), nf((style >> 2) & 3), line_exact(le) {}
    void gap() { if (col++) { if (sep == 0) s += ' '; else if (sep == 1) s += "  "; else if (sep == 2) s += '\t'; else s += r.chance(0.5) ? " " : "   "; } else if (sep == 3 && r.chance(0.3)) s += "  "; }
    Wr& i(size_t v) { gap(); s += std::to_string(v); return *this; }
    Wr& w(const std::string& v) { gap(); s += v; return *this; }
    Wr& d(double v) { gap(); char b[64]; const char* f = nf == 0 ? "%.17g" : nf == 1 ? "%.6f" : nf == 2 ? "%.10e" : "%.17g"; snprintf(b, sizeof b, f, v); s += b; return *this; }
    void nl() { if (!line_exact && sep == 3 && r.chance(0.1)) s += '\n'; s += '\n'; col = 0; }
};
static const char* poly_kw2[] = {"triangles", "quadrangles", "pentagons", "hexagons", "ennagons", "ettagons"};

// style bits: 0-1 separators, 2-3 number format, 4 rotated domain, 5 no final newline, 6 extra blocks/options, 8.. page padding
inline std::string make_file(int fmt, uint64_t gseed, int nx, int ny, int nz, int style) {
    Rng r(gseed); bool rot = style & 16, opt = style & 64; Wr w(gseed, style, fmt == FVCA5);
    if (fmt == FVCA5 || fmt == MEDIT2 || fmt == POLY2 || fmt == NETGEN2) {
        auto g = gen2(r, nx, ny, fmt == NETGEN2 ? 0 : 2, fmt == FVCA5 ? 8 : 6, rot); auto es = edges2(g);
        auto side = [&](const Edge2& e) { return (size_t)(((e.a * 7 + e.b * 3) % 4) + 1); };
        if (fmt == FVCA5) {
            std::vector<size_t> order; // polygons are written by kind
            w.w("vertices"); w.nl(); w.i(g.p.size()); w.nl(); for (auto& p : g.p) { w.d(p[0]).d(p[1]); w.nl(); }
            std::vector<long> newid(g.loops.size()); long n = 0;
            for (size_t k = 3; k <= 8; k++) { size_t cnt = 0; for (auto& l : g.loops) if (l.size() == k) cnt++; if (!cnt && !(opt && k == 4)) continue;
                w.w(poly_kw2[k - 3]); w.nl(); w.i(cnt); w.nl(); for (size_t c = 0; c < g.loops.size(); c++) if (g.loops[c].size() == k) { for (auto v : g.loops[c]) w.i(v + 1); if (opt) w.i(g.sub[c]); w.nl(); newid[c] = n++; } }
            size_t nb = 0; for (auto& e : es) if (e.c1 < 0) nb++;
            w.w("edges of the boundary"); w.nl(); w.i(nb); w.nl(); for (auto& e : es) if (e.c1 < 0) { w.i(e.a + 1).i(e.b + 1); w.nl(); }
            if (opt) { size_t nt = 0; for (auto& e : es) if (e.c1 >= 0 && g.sub[e.c0] != g.sub[e.c1]) nt++; w.w("edges of transmission"); w.nl(); w.i(nt); w.nl(); for (auto& e : es) if (e.c1 >= 0 && g.sub[e.c0] != g.sub[e.c1]) { w.i(e.a + 1).i(e.b + 1); w.nl(); } }
            w.w("all edges"); w.nl(); w.i(es.size()); w.nl(); for (auto& e : es) { w.i(e.a + 1).i(e.b + 1).i((size_t)newid[e.c0] + 1).i(e.c1 < 0 ? 0 : (size_t)newid[e.c1] + 1); w.nl(); }
        } else if (fmt == NETGEN2) {
            w.i(g.p.size()); w.nl(); for (auto& p : g.p) { w.d(p[0]).d(p[1]); w.nl(); }
            w.i(g.loops.size()); w.nl(); for (size_t c = 0; c < g.loops.size(); c++) { w.i(g.sub[c]); for (auto v : g.loops[c]) w.i(v + 1); w.nl(); }
            std::vector<Edge2> b; for (auto& e : es) if (e.c1 < 0 || (opt && g.sub[e.c0] != g.sub[e.c1])) b.push_back(e);
            w.i(b.size()); w.nl(); for (auto& e : b) { w.i(side(e)); if (r.chance(0.5)) w.i(e.a + 1).i(e.b + 1); else w.i(e.b + 1).i(e.a + 1); w.nl(); }
        } else if (fmt == MEDIT2) {
            w.w("MeshVersionFormatted").i(2); w.nl(); w.w("Dimension").i(3); w.nl();
            w.w("Vertices"); w.nl(); w.i(g.p.size()); w.nl(); for (auto& p : g.p) { w.d(p[0]).d(p[1]).d(0).i(0); w.nl(); }
            static const char* kw[] = {"Triangles", "Quadrilaterals", "Pentagons", "Hexagons"};
            for (size_t k = 3; k <= 6; k++) { size_t cnt = 0; for (auto& l : g.loops) if (l.size() == k) cnt++; if (!cnt) continue; w.w(kw[k - 3]); w.nl(); w.i(cnt); w.nl(); for (size_t c = 0; c < g.loops.size(); c++) if (g.loops[c].size() == k) { for (auto v : g.loops[c]) w.i(v + 1); w.i(g.sub[c]); w.nl(); } }
            std::vector<Edge2> b; for (auto& e : es) if (e.c1 < 0) b.push_back(e);
            w.w("Edges"); w.nl(); w.i(b.size()); w.nl(); for (auto& e : b) { w.i(e.a + 1).i(e.b + 1).i(side(e)); w.nl(); }
            w.w("End"); w.nl();
        } else {
            w.w("**BeginMesh"); w.nl(); w.w("*Dimension"); w.nl(); w.i(2); w.nl(); w.w("*Version"); w.nl(); w.i(1); w.nl();
            w.w("*Nodes"); w.nl(); w.i(g.p.size()); w.nl(); for (size_t k = 0; k < g.p.size(); k++) { w.i(k).d(g.p[k][0]).d(g.p[k][1]).d(0); w.nl(); }
            if (opt) { w.w("*Nodes->Groups"); w.nl(); w.i(1); w.nl(); w.w("corner").i(1).i(1).i(0); w.nl(); }
            std::map<std::pair<size_t, size_t>, size_t> eid; for (size_t k = 0; k < es.size(); k++) eid[std::minmax(es[k].a, es[k].b)] = k;
            w.w("*Edges->Nodes"); w.nl(); w.i(es.size()); w.nl(); for (size_t k = 0; k < es.size(); k++) { w.i(k).i(2).i(es[k].a).i(es[k].b); w.nl(); }
            std::map<size_t, VI> grp; for (size_t k = 0; k < es.size(); k++) if (es[k].c1 < 0) grp[side(es[k])].push_back(k);
            w.w("*Edges->Groups"); w.nl(); w.i(grp.size()); w.nl(); for (auto& [k, v] : grp) { w.w("bnd" + std::to_string(k)).i(k).i(v.size()); for (auto e : v) w.i(e); w.nl(); }
            w.w("*Faces->Nodes"); w.nl(); w.i(g.loops.size()); w.nl(); for (size_t c = 0; c < g.loops.size(); c++) { w.i(c).i(g.loops[c].size()); for (auto v : g.loops[c]) w.i(v); w.nl(); }
            w.w("*Faces->Edges"); w.nl(); w.i(g.loops.size()); w.nl(); for (size_t c = 0; c < g.loops.size(); c++) { auto& l = g.loops[c]; w.i(c).i(l.size()); for (size_t k = 0; k < l.size(); k++) w.i(eid[std::minmax(l[k], l[(k + 1) % l.size()])]); w.nl(); }
            if (opt) { w.w("*Faces->Groups"); w.nl(); w.i(1); w.nl(); w.w("dom").i(1).i(1).i(0); w.nl(); }
            w.w("**EndMesh"); w.nl();
        }
    } else if (fmt == QUAD) {
        size_t NX = nx + 1; double h = 1.0 / nx, k = 1.0 / ny;
        w.i(NX * (ny + 1)); w.nl(); for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { w.d(i * h).d(j * k); w.nl(); }
        auto id = [&](int i, int j) { return (size_t)j * NX + i; };
        w.i((size_t)nx * ny); w.nl(); for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { w.i(id(i, j)).i(id(i + 1, j)).i(id(i, j + 1)).i(id(i + 1, j + 1)); w.nl(); }
        w.i(2 * (size_t)(nx + ny)); w.nl();
        for (int i = 0; i < nx; i++) { w.i(id(i, 0)).i(id(i + 1, 0)); w.nl(); w.i(id(i, ny)).i(id(i + 1, ny)); w.nl(); }
        for (int j = 0; j < ny; j++) { w.i(id(0, j)).i(id(0, j + 1)); w.nl(); w.i(id(nx, j)).i(id(nx, j + 1)); w.nl(); }
    } else if (fmt == HEX) {
        size_t NX = nx + 1, NY = ny + 1; auto id = [&](int i, int j, int k) { return ((size_t)k * NY + j) * NX + i; };
        w.i(NX * NY * (nz + 1)); w.nl(); for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) { w.d((double)i / nx).d((double)j / ny).d((double)k / nz); w.nl(); }
        w.i((size_t)nx * ny * nz); w.nl(); std::vector<VI> bf;
        for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
            VI p{id(i, j, k), id(i + 1, j, k), id(i, j + 1, k), id(i + 1, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i, j + 1, k + 1), id(i + 1, j + 1, k + 1)};
            for (auto v : p) w.i(v); w.nl();
            if (i == 0) bf.push_back({p[0], p[2], p[6], p[4]}); if (i == nx - 1) bf.push_back({p[1], p[3], p[7], p[5]});
            if (k == 0) bf.push_back({p[0], p[1], p[3], p[2]}); if (k == nz - 1) bf.push_back({p[4], p[5], p[7], p[6]});
            if (j == 0) bf.push_back({p[0], p[4], p[5], p[1]}); if (j == ny - 1) bf.push_back({p[2], p[6], p[7], p[3]});
        }
        w.i(bf.size()); w.nl(); for (auto& f : bf) { for (auto v : f) w.i(v); w.nl(); }
    } else if (fmt == NETGEN3) {
        auto g = gen3(r, nx, ny, nz, 0, rot);
        std::vector<VI> tets; std::vector<size_t> sub;
        // Kuhn subdivision needs the lattice: rebuild from coordinates order
        VI perm; { Rng q(gseed); permute_points(q, (size_t)(nx + 1) * (ny + 1) * (nz + 1), perm); }
        auto id = [&](int i, int j, int k) { return perm[((size_t)k * (ny + 1) + j) * (nx + 1) + i]; };
        static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { size_t sd = 1 + r.below(2); for (auto& pp : P) { int o[3] = {0, 0, 0}; VI t{id(i, j, k)}; for (int q = 0; q < 3; q++) { o[pp[q]]++; t.push_back(id(i + o[0], j + o[1], k + o[2])); } for (size_t q = 4; q > 1; q--) std::swap(t[q - 1], t[r.below(q)]); tets.push_back(t); sub.push_back(sd); } }
        w.i(g.p.size()); w.nl(); for (auto& p : g.p) { w.d(p[0]).d(p[1]).d(p[2]); w.nl(); }
        w.i(tets.size()); w.nl(); for (size_t c = 0; c < tets.size(); c++) { w.i(sub[c]); for (auto v : tets[c]) w.i(v + 1); w.nl(); }
        std::map<VI, std::pair<int, std::set<size_t>>> fo; for (size_t c = 0; c < tets.size(); c++) for (int q = 0; q < 4; q++) { VI f; for (int z = 0; z < 4; z++) if (z != q) f.push_back(tets[c][z]); auto& x = fo[sorted(f)]; x.first++; x.second.insert(sub[c]); }
        std::vector<VI> bf; for (auto& [f, o] : fo) if (o.first == 1 || (opt && o.second.size() == 2)) bf.push_back(f);
        w.i(bf.size()); w.nl(); for (auto& f : bf) { w.i(1 + (f[0] + f[1] + f[2]) % 5); VI q = f; for (size_t z = 3; z > 1; z--) std::swap(q[z - 1], q[r.below(z)]); for (auto v : q) w.i(v + 1); w.nl(); }
    } else {
        auto g = gen3(r, nx, ny, nz, 2, rot); std::vector<std::pair<size_t, size_t>> es; std::map<std::pair<size_t, size_t>, size_t> eid; std::vector<VI> fe;
        for (auto& f : g.faces) { VI l; for (size_t k = 0; k < f.size(); k++) { std::pair<size_t, size_t> key = std::minmax(f[k], f[(k + 1) % f.size()]); if (!eid.count(key)) { eid[key] = es.size(); es.push_back(key); } l.push_back(eid[key]); } fe.push_back(l); }
        VI ep; permute_points(r, es.size(), ep); std::vector<std::pair<size_t, size_t>> ne(es.size()); for (size_t i = 0; i < es.size(); i++) ne[ep[i]] = es[i]; es = ne; for (auto& l : fe) for (auto& e : l) e = ep[e];
        std::vector<std::vector<size_t>> own(g.faces.size()); for (size_t c = 0; c < g.cell_faces.size(); c++) for (auto f : g.cell_faces[c]) own[f].push_back(c);
        if (fmt == FVCA6) {
            for (int k = 0; k < 16; k++) { w.s += "# header line " + std::to_string(k) + "\n"; }
            w.col = 0; auto list = [&](const VI& v) { w.i(v.size()); for (auto x : v) w.i(x + 1); w.nl(); };
            w.w("Vertices"); w.nl(); w.i(g.p.size()); w.nl(); for (auto& p : g.p) { w.d(p[0]).d(p[1]).d(p[2]); w.nl(); }
            w.w("Volumes->faces"); w.nl(); w.i(g.cell_faces.size()); w.nl(); for (auto& v : g.cell_faces) list(v);
            w.w("Volumes->Verticess"); w.nl(); w.i(g.cell_verts.size()); w.nl(); for (auto& v : g.cell_verts) list(v);
            w.w("Faces->Edgess"); w.nl(); w.i(fe.size()); w.nl(); for (auto& v : fe) list(v);
            w.w("Faces->Vertices"); w.nl(); w.i(g.faces.size()); w.nl(); for (auto& v : g.faces) list(v);
            w.w("Faces->Control volumes"); w.nl(); w.i(own.size()); w.nl(); for (auto& o : own) { w.i(o[0] + 1); if (o.size() > 1) w.i(o[1] + 1); else w.w("-1"); w.nl(); }
            w.w("Edges"); w.nl(); w.i(es.size()); w.nl(); for (auto& e : es) { w.i(e.first + 1).i(e.second + 1); w.nl(); }
        } else if (fmt == MEDIT3) {
            auto list = [&](const VI& v) { w.i(v.size()); for (auto x : v) w.i(x); w.nl(); };
            w.w("MeshVersionFormatted").i(2); w.nl(); w.w("Dimension").i(3); w.nl();
            w.w("Vertices"); w.nl(); w.i(g.p.size()); w.nl(); for (auto& p : g.p) { w.d(p[0]).d(p[1]).d(p[2]); w.nl(); }
            w.w("Volumes->Faces"); w.nl(); w.i(g.cell_faces.size()); w.nl(); for (auto& v : g.cell_faces) list(v);
            w.w("Volumes->Vertices"); w.nl(); w.i(g.cell_verts.size()); w.nl(); for (auto& v : g.cell_verts) list(v);
            w.w("Faces->Edges"); w.nl(); w.i(fe.size()); w.nl(); for (auto& v : fe) list(v);
            w.w("Faces->Vertices"); w.nl(); w.i(g.faces.size()); w.nl(); for (auto& v : g.faces) list(v);
            size_t nb = 0; for (auto& o : own) nb += o.size() == 1;
            w.w("Faces->Control volumes"); w.nl(); w.i(nb); w.nl(); for (size_t f = 0; f < own.size(); f++) if (own[f].size() == 1) { w.i(f).i(1 + f % 4); w.nl(); }
            w.w("Edges"); w.nl(); w.i(es.size()); w.nl(); for (auto& e : es) { if (r.chance(0.5)) w.i(e.first).i(e.second); else w.i(e.second).i(e.first); w.nl(); }
        } else {
            auto list = [&](size_t id, const VI& v) { w.i(id).i(v.size()); for (auto x : v) w.i(x); w.nl(); };
            w.w("**BeginMesh"); w.nl(); w.w("*Dimension"); w.nl(); w.i(3); w.nl(); w.w("*Version"); w.nl(); w.i(1); w.nl();
            w.w("*Nodes"); w.nl(); w.i(g.p.size()); w.nl(); for (size_t k = 0; k < g.p.size(); k++) { w.i(k).d(g.p[k][0]).d(g.p[k][1]).d(g.p[k][2]); w.nl(); }
            w.w("*Edges->Nodes"); w.nl(); w.i(es.size()); w.nl(); for (size_t k = 0; k < es.size(); k++) list(k, {es[k].first, es[k].second});
            w.w("*Faces->Nodes"); w.nl(); w.i(g.faces.size()); w.nl(); for (size_t k = 0; k < g.faces.size(); k++) list(k, g.faces[k]);
            w.w("*Faces->Edges"); w.nl(); w.i(fe.size()); w.nl(); for (size_t k = 0; k < fe.size(); k++) list(k, fe[k]);
            std::map<size_t, VI> grp; for (size_t f = 0; f < own.size(); f++) if (own[f].size() == 1) grp[1 + f % 4].push_back(f);
            w.w("*Faces->Groups"); w.nl(); w.i(grp.size()); w.nl(); for (auto& [k, v] : grp) { w.w("b" + std::to_string(k)).i(k).i(v.size()); for (auto x : v) w.i(x); w.nl(); }
            w.w("*Volumes->Nodes"); w.nl(); w.i(g.cell_verts.size()); w.nl(); for (size_t k = 0; k < g.cell_verts.size(); k++) list(k, g.cell_verts[k]);
            w.w("*Volumes->Faces"); w.nl(); w.i(g.cell_faces.size()); w.nl(); for (size_t k = 0; k < g.cell_faces.size(); k++) list(k, g.cell_faces[k]);
            if (opt) { w.w("*Volumes->Groups"); w.nl(); w.i(1); w.nl(); w.w("dom").i(1).i(1).i(0); w.nl(); }
            w.w("**EndMesh"); w.nl();
        }
    }
    if (style & 32) while (!w.s.empty() && (w.s.back() == '\n')) w.s.pop_back();
    int pad = (style >> 8) & 3;    // 1: size is a multiple of the page size, 2: one byte less, 3: one byte more
    if (pad && fmt != FVCA5) {     // insert blanks after the first number
        size_t at = fmt == FVCA6 ? w.s.find("Vertices") + 8 : w.s.find_first_of(" \t\n"); 
        size_t tgt = (w.s.size() + 8 + 4095) / 4096 * 4096 + (pad == 2 ? -1 : pad == 3 ? 1 : 0);
        if (tgt > w.s.size()) w.s.insert(at, std::string(tgt - w.s.size(), ' '));
    }
    return w.s;
}

// ---------------------------------------------------------------- the strict reference reader
struct Reject { std::string why; bool ambig = false; };
struct Sc {
    const std::string& s; size_t i = 0; bool ambig = false;
    explicit Sc(const std::string& t) : s(t) {}
    static bool ws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
    void skip() { while (i < s.size() && ws(s[i])) i++; }
    bool eof() { skip(); return i >= s.size(); }
    std::string word() { skip(); size_t b = i; while (i < s.size() && !ws(s[i])) i++; if (b == i) throw Reject{"unexpected end of file"}; return s.substr(b, i - b); }
    void sep() { if (i < s.size() && !ws(s[i])) ambig = true; }
    size_t u() {
        skip(); if (i >= s.size()) throw Reject{"unexpected end of file"};
        if (s[i] == '+' || s[i] == '-') { ambig = true; i++; }
        size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++;
        if (b == i) throw Reject{"integer expected"};
        if (i - b > 18) { ambig = true; throw Reject{"integer too large", true}; }
        sep(); return strtoull(s.substr(b, i - b).c_str(), nullptr, 10);
    }
    double d() {
        skip(); if (i >= s.size()) throw Reject{"unexpected end of file"};
        size_t b = i; if (s[i] == '-' || s[i] == '+') i++;
        size_t dg = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; size_t nd = i - dg;
        if (i < s.size() && s[i] == '.') { i++; size_t q = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; nd += i - q; }
        if (!nd) { bool am = i < s.size() && isalpha((unsigned char)s[i]); if (am) ambig = true; throw Reject{"number expected", am}; }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { size_t sv = i; i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t q = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (q == i) { i = sv; ambig = true; i = std::min(s.size(), sv + 1); } }
        sep(); double r = strtod(s.substr(b, i - b).c_str(), nullptr); if (!std::isfinite(r) || (r != 0 && std::fabs(r) < 1e-300)) ambig = true; return r;
    }
    size_t count(size_t per) { size_t n = u(); if (per && n > (s.size() - i) / per + 1) throw Reject{"count larger than the file"}; return n; }
    size_t idx(size_t n, size_t base = 0) { size_t v = u(); if (v < base || v - base >= n) throw Reject{"index out of range"}; return v - base; }
    void word_is(const char* k) { if (word() != k) throw Reject{std::string("keyword ") + k + " expected"}; }
};
struct Ref { bool accept = false, ambig = false; std::string why; Model m; };

inline bool number_side(const std::array<double, 3>& n, int dim, size_t& id) {
    double x = n[0], y = n[1], z = n[2]; double t = 0.01;
    if (dim == 2) { if (std::fabs(x + 1) < t) id = 3; else if (std::fabs(x - 1) < t) id = 1; else if (std::fabs(y + 1) < t) id = 0; else if (std::fabs(y - 1) < t) id = 2; else return false; return true; }
    if (std::fabs(x + 1) < t) id = 2; else if (std::fabs(x - 1) < t) id = 5; else if (std::fabs(y + 1) < t) id = 1; else if (std::fabs(y - 1) < t) id = 4; else if (std::fabs(z + 1) < t) id = 0; else if (std::fabs(z - 1) < t) id = 3; else return false;
    return true;
}
struct RawCell { VI v; std::vector<VI> f; long sub = 0; };
struct Build {   // assembles a Model and looks for degeneracies
    Model m; std::vector<RawCell> cells; std::map<VI, std::vector<size_t>> own; bool degenerate = false;
    void finish() {
        for (size_t c = 0; c < cells.size(); c++) { auto& rc = cells[c]; auto sv = sorted(rc.v); if (std::adjacent_find(sv.begin(), sv.end()) != sv.end()) degenerate = true;
            std::set<VI> u(rc.f.begin(), rc.f.end()); if (u.size() != rc.f.size()) degenerate = true;
            for (auto& f : u) { own[f].push_back(c); if (std::adjacent_find(f.begin(), f.end()) != f.end()) degenerate = true; m.faces[f]; }
            m.cells.push_back(cell_text(rc.v, std::vector<VI>(u.begin(), u.end()), m.has_sub ? rc.sub : 0)); }
        for (auto& [f, o] : own) if (o.size() > 2) degenerate = true;
        std::set<VI> cs; for (auto& c : cells) if (!cs.insert(sorted(c.v)).second) degenerate = true;
        std::sort(m.cells.begin(), m.cells.end()); if (cells.empty() || m.pts.empty()) degenerate = true;
    }
    void mark(const VI& f, size_t id) { auto k = sorted(f); auto i = m.faces.find(k); if (i == m.faces.end()) throw Reject{"boundary face is not a face of the mesh"}; if (i->second.bnd && i->second.id != id) degenerate = true; i->second.bnd = true; i->second.id = id; i->second.internal = own[k].size() == 2; }
    // unit-square / unit-cube convention of the FVCA formats
    void hypercube(bool override_all_zero_keep_listed) {
        std::vector<std::pair<VI, size_t>> ids; bool ok = true;
        for (auto& q : m.pts) for (int d = 0; d < m.dim; d++) if (std::fabs(q[d]) > 1e6) degenerate = true;   // normals lose their digits
        for (auto& [f, o] : own) { if (o.size() != 1) continue; auto& rc = cells[o[0]]; std::array<double, 3> n{0, 0, 0};
            if (m.dim == 2) { auto& a = m.pts[f[0]]; auto& b = m.pts[f[1]]; double dx = b[0] - a[0], dy = b[1] - a[1], l = std::sqrt(dx * dx + dy * dy); n = {dy / l, -dx / l, 0}; }
            else { const VI* loop = nullptr; for (auto& [k, v] : loops) if (k == f) loop = &v; if (!loop) { degenerate = true; continue; } auto& a = m.pts[(*loop)[0]]; auto& b = m.pts[(*loop)[1]]; auto& c = m.pts[(*loop)[2]]; double u[3], v[3]; for (int d = 0; d < 3; d++) { u[d] = b[d] - a[d]; v[d] = c[d] - b[d]; } n = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]}; double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]); for (auto& q : n) q /= l; }
            std::array<double, 3> bc{0, 0, 0}, bf{0, 0, 0}; for (auto v : rc.v) for (int d = 0; d < 3; d++) bc[d] += m.pts[v][d] / rc.v.size(); for (auto v : f) for (int d = 0; d < 3; d++) bf[d] += m.pts[v][d] / f.size();
            double dot = 0; for (int d = 0; d < 3; d++) dot += n[d] * (bf[d] - bc[d]); if (dot < 0) for (auto& q : n) q = -q; if (!(std::fabs(dot) > 1e-9)) degenerate = true;
            // a cell that is not convex has no certain inside
            if (m.dim == 2) { auto& l = rc.v; bool pos = false, neg = false; for (size_t k = 0; k < l.size(); k++) { auto &a = m.pts[l[k]], &e = m.pts[l[(k + 1) % l.size()]], &g = m.pts[l[(k + 2) % l.size()]]; double q = (e[0] - a[0]) * (g[1] - e[1]) - (e[1] - a[1]) * (g[0] - e[0]); if (q > 0) pos = true; if (q < 0) neg = true; } if (pos && neg) degenerate = true; }
            // which side is out is only clear if the cell lies on one side of the face
            { double dm = 0, mx = 0; for (auto v : rc.v) { double q = 0, d2 = 0; for (int d = 0; d < 3; d++) { q += n[d] * (m.pts[v][d] - bf[d]); d2 += (m.pts[v][d] - bf[d]) * (m.pts[v][d] - bf[d]); } mx = std::max(mx, q); dm = std::max(dm, d2); } if (mx > 0.05 * std::sqrt(dm)) degenerate = true; }
            for (int d = 0; d < m.dim; d++) { double q = std::fabs(std::fabs(n[d]) - 1); if (q > 0.005 && q < 0.02) degenerate = true; }  // too close to the tolerance
            size_t id; if (!number_side(n, m.dim, id)) { ok = false; break; } ids.push_back({f, id}); }
        if (ok) for (auto& [f, id] : ids) { auto& x = m.faces[f]; x.bnd = true; x.id = id; x.internal = false; }
        else if (!override_all_zero_keep_listed) for (auto& [f, o] : own) if (o.size() == 1) { auto& x = m.faces[f]; x.bnd = true; x.id = 0; x.internal = false; }
    }
    std::map<VI, VI> loops;
};

inline Ref reference(int fmt, const std::string& s) {
    Ref out; Sc c(s); Build b; Model& m = b.m; m.dim = is3d(fmt) ? 3 : 2;
    auto pt2 = [&]() { double x = c.d(), y = c.d(); m.pts.push_back({x, y, 0}); };
    auto pt3 = [&]() { double x = c.d(), y = c.d(), z = c.d(); m.pts.push_back({x, y, z}); };
    auto loop_edges = [&](const VI& v) { std::vector<VI> f; for (size_t k = 0; k < v.size(); k++) f.push_back(sorted({v[k], v[(k + 1) % v.size()]})); return f; };
    try {
        switch (fmt) {
        case NETGEN2: {
            size_t n = c.count(4); for (size_t k = 0; k < n; k++) pt2();
            size_t t = c.count(8); for (size_t k = 0; k < t; k++) { RawCell r; c.u(); for (int q = 0; q < 3; q++) r.v.push_back(c.idx(n, 1)); r.v = sorted(r.v); r.f = loop_edges(r.v); b.cells.push_back(r); }
            b.finish(); size_t e = c.count(4); for (size_t k = 0; k < e; k++) { size_t id = c.u(); size_t p = c.idx(n, 1), q = c.idx(n, 1); b.mark({p, q}, id); }
            if (!c.eof()) c.ambig = true; break; }
        case NETGEN3: {
            m.has_sub = m.has_int = true;
            size_t n = c.count(6); for (size_t k = 0; k < n; k++) pt3();
            size_t t = c.count(10); for (size_t k = 0; k < t; k++) { RawCell r; r.sub = (long)c.u(); for (int q = 0; q < 4; q++) r.v.push_back(c.idx(n, 1)); r.v = sorted(r.v); for (int q = 0; q < 4; q++) { VI f; for (int z = 0; z < 4; z++) if (z != q) f.push_back(r.v[z]); r.f.push_back(f); } for (int q = 0; q < 4; q++) for (int z = q + 1; z < 4; z++) m.edges.insert({r.v[q], r.v[z]}); b.cells.push_back(r); }
            b.finish(); size_t e = c.count(6); for (size_t k = 0; k < e; k++) { size_t id = c.u(); VI f; for (int q = 0; q < 3; q++) f.push_back(c.idx(n, 1)); b.mark(f, id); }
            if (!c.eof()) c.ambig = true; break; }
        case QUAD: {
            size_t n = c.count(4); for (size_t k = 0; k < n; k++) pt2();
            size_t t = c.count(8); std::set<VI> oriented; for (size_t k = 0; k < t; k++) { RawCell r; for (int q = 0; q < 4; q++) r.v.push_back(c.idx(n)); auto& p = r.v; for (auto f : {VI{p[0], p[1]}, VI{p[0], p[2]}, VI{p[1], p[3]}, VI{p[2], p[3]}}) { oriented.insert(f); r.f.push_back(sorted(f)); } b.cells.push_back(r); }
            b.finish(); if (oriented.size() != m.faces.size()) b.degenerate = true;
            size_t e = c.count(4); for (size_t k = 0; k < e; k++) { size_t p = c.idx(n), q = c.idx(n); if (!oriented.count({p, q})) { if (m.faces.count(sorted({p, q}))) c.ambig = true; } b.mark({p, q}, 0); }
            if (!c.eof()) c.ambig = true; break; }
        case HEX: {
            size_t n = c.count(6); for (size_t k = 0; k < n; k++) pt3();
            size_t t = c.count(16); std::set<VI> oriented; for (size_t k = 0; k < t; k++) { RawCell r; for (int q = 0; q < 8; q++) r.v.push_back(c.idx(n)); auto& p = r.v;
                for (auto f : {VI{p[0], p[2], p[6], p[4]}, VI{p[1], p[3], p[7], p[5]}, VI{p[0], p[1], p[3], p[2]}, VI{p[4], p[5], p[7], p[6]}, VI{p[0], p[4], p[5], p[1]}, VI{p[2], p[6], p[7], p[3]}}) { oriented.insert(f); r.f.push_back(sorted(f)); }
                static const int E[12][2] = {{0, 1}, {0, 2}, {0, 4}, {1, 3}, {1, 5}, {2, 3}, {2, 6}, {3, 7}, {4, 5}, {4, 6}, {5, 7}, {6, 7}}; for (auto& e : E) m.edges.insert(std::minmax(p[e[0]], p[e[1]]));
                b.cells.push_back(r); }
            b.finish(); if (oriented.size() != m.faces.size()) b.degenerate = true;
            size_t e = c.count(8); for (size_t k = 0; k < e; k++) { VI f; for (int q = 0; q < 4; q++) f.push_back(c.idx(n)); if (!oriented.count(f) && m.faces.count(sorted(f))) c.ambig = true; b.mark(f, 0); }
            if (!c.eof()) c.ambig = true; break; }
        case MEDIT2: {
            c.word_is("MeshVersionFormatted"); if (c.u() != 2) throw Reject{"format"}; c.word_is("Dimension"); if (c.u() != 3) throw Reject{"dimension"};
            bool hv = false; std::vector<std::pair<VI, size_t>> be; bool he = false;
            for (;;) { auto k = c.word(); if (k == "End") break;
                if (k == "Vertices") { if (hv) c.ambig = true; hv = true; size_t n = c.count(8); for (size_t q = 0; q < n; q++) { double x = c.d(), y = c.d(); c.d(); c.d(); m.pts.push_back({x, y, 0}); } }
                else if (k == "Triangles" || k == "Quadrilaterals" || k == "Pentagons" || k == "Hexagons") { size_t pn = k == "Triangles" ? 3 : k == "Quadrilaterals" ? 4 : k == "Pentagons" ? 5 : 6; size_t n = c.count(8); for (size_t q = 0; q < n; q++) { RawCell r; for (size_t z = 0; z < pn; z++) { size_t v = c.u(); if (v < 1) throw Reject{"index"}; r.v.push_back(v - 1); } c.u(); b.cells.push_back(r); } }
                else if (k == "Edges") { if (he) c.ambig = true; he = true; size_t n = c.count(6); be.clear(); for (size_t q = 0; q < n; q++) { size_t x = c.u(), y = c.u(), id = c.u(); if (x < 1 || y < 1) throw Reject{"index"}; be.push_back({{x - 1, y - 1}, id}); } }
                else throw Reject{"unknown keyword"}; }
            for (auto& r : b.cells) { for (auto v : r.v) if (v >= m.pts.size()) throw Reject{"index out of range"}; r.f = loop_edges(r.v); }
            b.finish(); for (auto& [f, id] : be) b.mark(f, id); if (!he || b.cells.empty()) c.ambig = true; if (!c.eof()) c.ambig = true; break; }
        case FVCA5: {
            std::vector<std::string> L; { size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { L.push_back(s.substr(p)); break; } L.push_back(s.substr(p, e - p)); p = e + 1; } }
            size_t ln = 0; auto norm = [](const std::string& x) { std::string r; bool sp = false; for (char ch : x) { if (Sc::ws(ch)) { sp = !r.empty(); } else { if (sp) r += ' '; sp = false; r += ch; } } return r; };
            auto next = [&]() -> const std::string& { if (ln >= L.size()) throw Reject{"unexpected end of file"}; return L[ln++]; };
            std::vector<VI> be, tr; struct AE { size_t a, b, x, y; }; std::vector<AE> ae; bool hv = false, hb = false, ha = false;
            while (ln < L.size()) { auto k = norm(L[ln++]); if (k.empty()) continue; 
                auto cnt = [&]() { Sc q(next()); size_t n = q.count(0); if (!q.eof() || q.ambig) c.ambig = true; return n; };
                if (k == "vertices") { if (hv) c.ambig = true; hv = true; size_t n = cnt(); for (size_t i = 0; i < n; i++) { Sc q(next()); double x = q.d(), y = q.d(); if (q.ambig || !q.eof()) c.ambig = true; m.pts.push_back({x, y, 0}); } }
                else if (k == "edges of the boundary" || k == "edges of transmission") { hb = true; size_t n = cnt(); for (size_t i = 0; i < n; i++) { Sc q(next()); size_t x = q.u(), y = q.u(); if (q.ambig || !q.eof()) c.ambig = true; if (x < 1 || y < 1 || x == y) throw Reject{"bad edge"}; be.push_back({x - 1, y - 1}); } }
                else if (k == "all edges") { if (ha) c.ambig = true; ha = true; size_t n = cnt(); for (size_t i = 0; i < n; i++) { Sc q(next()); AE e; e.a = q.u(); e.b = q.u(); e.x = q.u(); e.y = q.u(); if (q.ambig) c.ambig = true; if (e.a < 1 || e.b < 1 || e.a == e.b) throw Reject{"bad edge"}; e.a--; e.b--; ae.push_back(e); } }
                else { size_t pn = 0; for (size_t q = 0; q < 6; q++) if (k == poly_kw2[q]) pn = q + 3; if (!pn) throw Reject{"unknown block"}; size_t n = cnt(); if (ha) c.ambig = true; for (size_t i = 0; i < n; i++) { Sc q(next()); RawCell r; for (size_t z = 0; z < pn; z++) { size_t v = q.u(); if (v < 1) throw Reject{"index"}; r.v.push_back(v - 1); } r.sub = 0; if (!q.eof()) { if (isdigit((unsigned char)q.s[q.i])) r.sub = (long)q.u(); else c.ambig = true; } if (!q.eof() || q.ambig) c.ambig = true; b.cells.push_back(r); } } }
            if (!hv || m.pts.empty()) throw Reject{"no vertices"}; if (b.cells.empty()) throw Reject{"no polygons"}; if (!ha || ae.empty()) throw Reject{"no edges"}; if (!hb) c.ambig = true;
            m.has_sub = true; m.has_int = true;
            for (auto& r : b.cells) for (auto v : r.v) if (v >= m.pts.size()) throw Reject{"index out of range"};
            std::vector<std::set<VI>> at(b.cells.size()); std::set<VI> all;
            for (auto& e : ae) { if (e.a >= m.pts.size() || e.b >= m.pts.size() || e.x > b.cells.size() || e.y > b.cells.size()) throw Reject{"index out of range"}; VI f = sorted({e.a, e.b}); if (!all.insert(f).second) b.degenerate = true; if (e.x) at[e.x - 1].insert(f); if (e.y) at[e.y - 1].insert(f); }
            for (size_t i = 0; i < b.cells.size(); i++) { b.cells[i].f.assign(at[i].begin(), at[i].end()); auto le = loop_edges(b.cells[i].v); std::set<VI> ls(le.begin(), le.end()); if (at[i] != ls) { b.degenerate = true; if (at[i].size() < ls.size()) throw Reject{"polygon without all its edges"}; } }
            b.finish(); for (auto& f : all) m.faces[f]; 
            for (auto& f : be) b.mark(f, 0);
            for (auto& [f, o] : b.own) (void)f;
            if (!b.degenerate) b.hypercube(true); break; }
        case POLY2: case POLY3: {
            c.word_is("**BeginMesh"); size_t dim = is3d(fmt) ? 3 : 2; typedef std::vector<VI> LV; std::map<std::string, LV> sec; std::map<std::string, std::vector<std::pair<size_t, VI>>> grp; bool hd = false;
            for (;;) { auto k = c.word(); if (k == "**EndMesh") break; if (sec.count(k) || grp.count(k)) c.ambig = true;
                if (k == "*Dimension") { hd = true; if (c.u() != dim) throw Reject{"dimension"}; } else if (k == "*Version") c.u();
                else if (k == "*Nodes") { size_t n = c.count(8); sec[k]; for (size_t q = 0; q < n; q++) { if (c.u() != q) c.ambig = true; double x = c.d(), y = c.d(), z = c.d(); m.pts.push_back({x, y, dim == 3 ? z : 0}); } }
                else if (k == "*Nodes->Groups" || k == "*Edges->Groups" || k == "*Faces->Groups" || (dim == 3 && k == "*Volumes->Groups")) { size_t n = c.count(6); grp[k]; for (size_t q = 0; q < n; q++) { c.word(); size_t id = c.u(); size_t ne = c.count(2); VI v; for (size_t z = 0; z < ne; z++) v.push_back(c.u()); grp[k].push_back({id, v}); } }
                else if (k == "*Edges->Nodes" || k == "*Faces->Nodes" || k == "*Faces->Edges" || (dim == 3 && (k == "*Volumes->Nodes" || k == "*Volumes->Edges" || k == "*Volumes->Faces"))) { size_t n = c.count(4); auto& l = sec[k]; for (size_t q = 0; q < n; q++) { if (c.u() != q) c.ambig = true; size_t ne = c.count(2); VI v; for (size_t z = 0; z < ne; z++) v.push_back(c.u()); l.push_back(v); } }
                else throw Reject{"unknown keyword"}; }
            if (!hd || !c.eof()) c.ambig = true;
            size_t np = m.pts.size(); auto& en = sec["*Edges->Nodes"]; auto& fn = sec["*Faces->Nodes"]; auto& fe = sec["*Faces->Edges"];
            for (auto& e : en) { if (e.size() != 2) { c.ambig = true; if (e.size() < 2) throw Reject{"edge with fewer than two nodes"}; e.resize(2); } for (auto v : e) if (v >= np) throw Reject{"index out of range"}; if (e[0] == e[1]) b.degenerate = true; }
            { std::set<VI> u; for (auto& e : en) if (!u.insert(sorted(e)).second) b.degenerate = true; }
            if (fn.size() != fe.size()) throw Reject{"section sizes differ"};
            std::vector<VI> fv; for (size_t q = 0; q < fn.size(); q++) { for (auto v : fn[q]) if (v >= np) throw Reject{"index out of range"}; for (auto e : fe[q]) if (e >= en.size()) throw Reject{"index out of range"}; if (fn[q].size() < 3) { c.ambig = true; b.degenerate = true; }
                if (fn[q].size() >= 3) { std::set<VI> a, z; for (auto e : fe[q]) a.insert(sorted(en[e])); for (auto& x : loop_edges(fn[q])) z.insert(x); if (a != z || fe[q].size() != z.size()) b.degenerate = true; } }
            if (dim == 2) {
                for (size_t q = 0; q < fn.size(); q++) { RawCell r; r.v = fn[q]; for (auto e : fe[q]) r.f.push_back(sorted(en[e])); b.cells.push_back(r); }
                b.finish(); for (auto& e : en) m.faces[sorted(e)];
                for (auto& [id, l] : grp["*Edges->Groups"]) for (auto e : l) { if (e >= en.size()) throw Reject{"index out of range"}; b.mark(en[e], id); }
            } else {
                auto& vn = sec["*Volumes->Nodes"]; auto& vf = sec["*Volumes->Faces"]; if (vn.size() != vf.size()) throw Reject{"section sizes differ"};
                for (size_t q = 0; q < vn.size(); q++) { RawCell r; r.v = vn[q]; for (auto v : r.v) if (v >= np) throw Reject{"index out of range"}; for (auto f : vf[q]) { if (f >= fn.size()) throw Reject{"index out of range"}; r.f.push_back(sorted(fn[f])); } b.cells.push_back(r); }
                b.finish(); { std::set<VI> u; for (auto& f : fn) { m.faces[sorted(f)]; if (!u.insert(sorted(f)).second) b.degenerate = true; } } for (auto& e : en) m.edges.insert(std::minmax(e[0], e[1]));
                for (auto& [id, l] : grp["*Faces->Groups"]) for (auto f : l) { if (f >= fn.size()) throw Reject{"index out of range"}; b.mark(fn[f], id); }
            }
            break; }
        case FVCA6: case MEDIT3: {
            size_t base = fmt == FVCA6 ? 1 : 0; bool six = fmt == FVCA6;
            if (six) { for (int k = 0; k < 16; k++) { size_t e = s.find('\n', c.i); if (e == std::string::npos) throw Reject{"unexpected end of file"}; c.i = e + 1; } }
            else { c.word_is("MeshVersionFormatted"); if (c.u() != 2) throw Reject{"format"}; c.word_is("Dimension"); if (c.u() != 3) throw Reject{"dimension"}; }
            auto table = [&](std::vector<VI>& t) { size_t n = c.count(2); for (size_t q = 0; q < n; q++) { size_t ne = c.count(2); VI v; for (size_t z = 0; z < ne; z++) { size_t x = c.u(); if (x < base) throw Reject{"index"}; v.push_back(x - base); } t.push_back(v); } };
            std::vector<VI> vf, vv, fe, fv, en;
            c.word_is("Vertices"); size_t np = c.count(6); for (size_t q = 0; q < np; q++) pt3();
            c.word_is(six ? "Volumes->faces" : "Volumes->Faces"); table(vf); c.word_is(six ? "Volumes->Verticess" : "Volumes->Vertices"); table(vv); c.word_is(six ? "Faces->Edgess" : "Faces->Edges"); table(fe); c.word_is("Faces->Vertices"); table(fv);
            c.word_is("Faces->Control"); c.word_is("volumes"); std::vector<std::pair<size_t, size_t>> fc; { size_t n = c.count(4); for (size_t q = 0; q < n; q++) { if (six) { for (int z = 0; z < 2; z++) { c.skip(); if (c.i < s.size() && s[c.i] == '-') c.i++; if (c.u() > 2147483647) c.ambig = true; } } else { size_t f = c.u(), id = c.u(); fc.push_back({f, id}); } } }
            c.word_is("Edges"); size_t ne = c.count(4); for (size_t q = 0; q < ne; q++) { size_t x = c.u(), y = c.u(); if (x < base || y < base || x - base >= np || y - base >= np) throw Reject{"index out of range"}; en.push_back({x - base, y - base}); if (x == y) b.degenerate = true; }
            if (!c.eof()) c.ambig = true;
            if (vf.size() != vv.size() || fe.size() != fv.size()) throw Reject{"section sizes differ"};
            { std::set<VI> u; for (auto& e : en) if (!u.insert(sorted(e)).second) b.degenerate = true; }
            { std::set<VI> u; for (size_t q = 0; q < fv.size(); q++) { for (auto v : fv[q]) if (v >= np) throw Reject{"index out of range"}; for (auto e : fe[q]) if (e >= en.size()) throw Reject{"index out of range"}; if (fv[q].size() < 3) { b.degenerate = true; continue; } std::set<VI> a, z; for (auto e : fe[q]) a.insert(sorted(en[e])); for (auto& x : loop_edges(fv[q])) z.insert(x); if (a != z || fe[q].size() != z.size()) b.degenerate = true; if (!u.insert(sorted(fv[q])).second) b.degenerate = true; b.loops[sorted(fv[q])] = fv[q]; } }
            for (size_t q = 0; q < vf.size(); q++) { RawCell r; r.v = vv[q]; for (auto v : r.v) if (v >= np) throw Reject{"index out of range"}; for (auto f : vf[q]) { if (f >= fv.size()) throw Reject{"index out of range"}; r.f.push_back(sorted(fv[f])); } if (r.v.size() < 4 || r.f.size() < 4) b.degenerate = true; b.cells.push_back(r); }
            b.finish(); for (auto& f : fv) m.faces[sorted(f)]; for (auto& e : en) m.edges.insert(std::minmax(e[0], e[1]));
            if (six) { if (!b.degenerate) b.hypercube(false); }
            else for (auto& [f, id] : fc) { if (f >= fv.size()) throw Reject{"index out of range"}; b.mark(fv[f], id); }
            break; }
        }
        out.accept = true; out.ambig = c.ambig || b.degenerate; out.m = std::move(b.m);
    } catch (const Reject& r) { out.accept = false; out.why = r.why; out.ambig = c.ambig || r.ambig; }
    return out;
}
} // namespace mm
