// Silo databases on the real Silo library, whose entry points fail on demand: C20
#include "../sim/rt.hpp"
#include "mesh_model.hpp"
#include <dlfcn.h>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <vector>
#include <array>
#include <cstring>
#include <cmath>
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <numeric>
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/loaders/loader.hpp"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
#include "diskpp/output/silo.hpp"
using namespace sim;

// ------------------------------------------------------------------ seam: every entry point of the Silo library the wrapper uses
static std::set<void*> g_handles, g_optlists; static std::vector<std::string> g_misuse; static uint64_t g_failed = 0; static bool g_reading = false;
static uint64_t memory_faults() { return destructive_fired() - g_failed; }   // every refusal by the library is also counted as a destructive fault
template<class F> static F real(const char* n) { F f = (F)dlsym(RTLD_NEXT, n); if (!f) { fprintf(stderr, "no %s\n", n); abort(); } return f; }
// "refuse": the call does nothing and reports failure; "late": it does its work and reports failure
template<class R, class C> static R api(const char* n, R bad, C call) {
    Harness h; if (g_reading) return call();
    auto a = fault_point("silo"); pause_faults(true); R r = a == "refuse" ? bad : call(); pause_faults(false); if (a != "") { g_failed++; r = bad; } log("%s %s %d", n, a.c_str(), r != bad); return r;
}
static void chk(DBfile* f, const char* n) { if (g_reading) return; Harness h; if (!g_handles.count(f)) { if (g_misuse.empty()) g_misuse.push_back(std::string(n) + (f ? " on a database that is not open" : " on a null database")); throw std::domain_error("misuse"); } }
extern "C" {
#define REAL(n) real<decltype(&n)>(#n)
DBfile* DBCreateReal(char const* a, int b, int c, char const* d, int e) { DBfile* late = nullptr; auto f = api("DBCreate", (DBfile*)nullptr, [&] { return late = REAL(DBCreateReal)(a, b, c, d, e); }); Harness h; if (f) g_handles.insert(f); else if (late) { g_reading = true; REAL(DBClose)(late); g_reading = false; } return f; }
DBfile* DBOpenReal(char const* a, int b, int c) { DBfile* late = nullptr; auto f = api("DBOpen", (DBfile*)nullptr, [&] { return late = REAL(DBOpenReal)(a, b, c); }); Harness h; if (f && !g_reading) g_handles.insert(f); else if (!f && late) { g_reading = true; REAL(DBClose)(late); g_reading = false; } return f; }
int DBClose(DBfile* f) { if (g_reading) return REAL(DBClose)(f); chk(f, "DBClose"); { Harness h; g_handles.erase(f); auto a = fault_point("silo"); pause_faults(true); int r = REAL(DBClose)(f); pause_faults(false); if (a != "") { g_failed++; r = -1; } log("DBClose %s %d", a.c_str(), r); return r; } }
int DBPutZonelist(DBfile* f, char const* a, int b, int c, int const* d, int e, int g, int const* h, int const* i, int j) { chk(f, "DBPutZonelist"); return api("DBPutZonelist", -1, [&] { return REAL(DBPutZonelist)(f, a, b, c, d, e, g, h, i, j); }); }
int DBPutZonelist2(DBfile* f, char const* a, int b, int c, int const* d, int e, int g, int h, int i, int const* j, int const* k, int const* l, int m, DBoptlist const* o) { chk(f, "DBPutZonelist2"); return api("DBPutZonelist2", -1, [&] { return REAL(DBPutZonelist2)(f, a, b, c, d, e, g, h, i, j, k, l, m, o); }); }
int DBPutPHZonelist(DBfile* f, char const* a, int b, int const* c, int d, int const* e, char const* g, int h, int const* i, int j, int const* k, int l, int m, int n, DBoptlist const* o) { chk(f, "DBPutPHZonelist"); return api("DBPutPHZonelist", -1, [&] { return REAL(DBPutPHZonelist)(f, a, b, c, d, e, g, h, i, j, k, l, m, n, o); }); }
int DBPutUcdmesh(DBfile* f, char const* a, int b, char const* const* c, DBVCP2_t d, int e, int g, char const* h, char const* i, int j, DBoptlist const* o) { chk(f, "DBPutUcdmesh"); return api("DBPutUcdmesh", -1, [&] { return REAL(DBPutUcdmesh)(f, a, b, c, d, e, g, h, i, j, o); }); }
int DBPutPointmesh(DBfile* f, char const* a, int b, DBVCP2_t c, int d, int e, DBoptlist const* o) { chk(f, "DBPutPointmesh"); return api("DBPutPointmesh", -1, [&] { return REAL(DBPutPointmesh)(f, a, b, c, d, e, o); }); }
int DBPutUcdvar1(DBfile* f, char const* a, char const* b, DBVCP1_t c, int d, DBVCP1_t e, int g, int h, int i, DBoptlist const* o) { chk(f, "DBPutUcdvar1"); return api("DBPutUcdvar1", -1, [&] { return REAL(DBPutUcdvar1)(f, a, b, c, d, e, g, h, i, o); }); }
int DBPutPointvar(DBfile* f, char const* a, char const* b, int c, DBVCP2_t d, int e, int g, DBoptlist const* o) { chk(f, "DBPutPointvar"); return api("DBPutPointvar", -1, [&] { return REAL(DBPutPointvar)(f, a, b, c, d, e, g, o); }); }
int DBPutPointvar1(DBfile* f, char const* a, char const* b, DBVCP1_t c, int d, int e, DBoptlist const* o) { chk(f, "DBPutPointvar1"); return api("DBPutPointvar1", -1, [&] { return REAL(DBPutPointvar1)(f, a, b, c, d, e, o); }); }
int DBPutDefvars(DBfile* f, char const* a, int b, char const* const* c, int const* d, char const* const* e, DBoptlist const* const* o) { chk(f, "DBPutDefvars"); return api("DBPutDefvars", -1, [&] { return REAL(DBPutDefvars)(f, a, b, c, d, e, o); }); }
DBoptlist* DBMakeOptlist(int n) { if (g_reading) return REAL(DBMakeOptlist)(n); Harness h; auto o = REAL(DBMakeOptlist)(n); g_optlists.insert(o); return o; }
int DBAddOption(DBoptlist* o, int k, void* v) { return api("DBAddOption", -1, [&] { return REAL(DBAddOption)(o, k, v); }); }
int DBFreeOptlist(DBoptlist* o) { if (!g_reading && o) { Harness h; if (!g_optlists.erase(o)) g_misuse.push_back("an option list freed twice"); } Harness h; return REAL(DBFreeOptlist)(o); }
}

// ------------------------------------------------------------------ what an acknowledged call put there
struct Rec { std::string kind; std::string mesh; int dims = 0; bool isfloat = false; std::vector<std::vector<double>> vals; int centering = 0; std::string expr; int etype = 0;
    std::vector<std::vector<int>> cells; std::vector<std::vector<int>> faces; std::vector<std::vector<int>> cell_faces; int shape = 0; size_t nodes = 0; };
typedef std::map<std::string, Rec> Contents;
struct FileState { bool exists = false, known = true; Contents c; };
template<class M> static Rec describe(const M& m, int shape) {
    constexpr int D = M::dimension; Rec r; r.kind = "mesh"; r.dims = D; r.shape = shape; r.isfloat = std::is_same<typename M::coordinate_type, float>::value; r.nodes = m.points_size(); r.vals.assign(D, {});
    for (auto it = m.points_begin(); it != m.points_end(); it++) for (int d = 0; d < D; d++) r.vals[d].push_back((double)(*it).at(d));
    for (auto it = m.faces_begin(); it != m.faces_end(); it++) { std::vector<int> v; auto f = *it; auto ids = f.point_ids(); for (auto& x : ids) v.push_back((int)(size_t)x); r.faces.push_back(v); }
    for (auto& cl : m) { std::vector<int> v; auto ids = cl.point_ids(); for (auto& x : ids) v.push_back((int)(size_t)x); r.cells.push_back(v); std::vector<int> w; auto fi = disk::faces_id(m, cl); for (auto& x : fi) w.push_back((int)(size_t)x); r.cell_faces.push_back(w); }
    return r;
}
// ------------------------------------------------------------------ reading back through the Silo library
struct Reading { Reading() { g_reading = true; pause_faults(true); } ~Reading() { pause_faults(false); g_reading = false; } };
static double at(const void* p, int type, size_t i) { return type == DB_FLOAT ? (double)((const float*)p)[i] : ((const double*)p)[i]; }
static std::set<int> as_set(const std::vector<int>& v) { return std::set<int>(v.begin(), v.end()); }
static std::set<std::set<int>> facets(const Rec& r, size_t c) { std::set<std::set<int>> s; for (int f : r.cell_faces[c]) s.insert(as_set(r.faces[f])); return s; }
static std::string compare_mesh(DBfile* db, const std::string& name, const Rec& r) {
    if (r.kind == "points") {
        DBpointmesh* m = DBGetPointmesh(db, name.c_str()); if (!m) return "is not there"; std::string bad;
        if (m->ndims != r.dims || (size_t)m->nels != r.vals[0].size() || m->datatype != (r.isfloat ? DB_FLOAT : DB_DOUBLE)) bad = "has other dimensions";
        else for (int d = 0; d < r.dims; d++) for (int i = 0; i < m->nels; i++) if (at(m->coords[d], m->datatype, i) != r.vals[d][i]) bad = "has other coordinates";
        DBFreePointmesh(m); return bad;
    }
    DBucdmesh* m = DBGetUcdmesh(db, name.c_str()); if (!m) return "is not there"; std::string bad;
    size_t nc = r.cells.size();
    if (m->ndims != r.dims || (size_t)m->nnodes != r.nodes || m->datatype != (r.isfloat ? DB_FLOAT : DB_DOUBLE)) bad = "has other dimensions";
    if (bad.empty()) for (int d = 0; d < r.dims; d++) for (size_t i = 0; i < r.nodes; i++) if (at(m->coords[d], m->datatype, i) != r.vals[d][i]) bad = "has other coordinates";
    if (bad.empty() && r.shape != DB_ZONETYPE_POLYHEDRON) {
        DBzonelist* z = m->zones; std::vector<std::vector<int>> zones;
        if (!z) bad = "has no zones";
        else { size_t k = 0; for (int s = 0; s < z->nshapes; s++) for (int j = 0; j < z->shapecnt[s]; j++) { std::vector<int> v; for (int q = 0; q < z->shapesize[s] && k < (size_t)z->lnodelist; q++) v.push_back(z->nodelist[k++] - z->origin); zones.push_back(v); }
            if (z->nzones != (int)nc || zones.size() != nc || z->ndims != r.dims) bad = "has another number of zones"; }
        for (size_t c = 0; c < nc && bad.empty(); c++) {
            auto& v = zones[c]; if (v.size() != r.cells[c].size() || as_set(v) != as_set(r.cells[c])) { bad = "has a zone with other nodes than its cell"; break; }
            std::set<std::set<int>> fs; auto add = [&](std::vector<int> ix) { std::set<int> s; for (int i : ix) s.insert(v[i]); fs.insert(s); };
            if (r.dims == 2) for (size_t i = 0; i < v.size(); i++) add({(int)i, (int)((i + 1) % v.size())});
            else if (r.shape == DB_ZONETYPE_HEX) { add({0, 1, 2, 3}); add({4, 5, 6, 7}); add({0, 1, 5, 4}); add({1, 2, 6, 5}); add({2, 3, 7, 6}); add({3, 0, 4, 7}); }
            else { add({0, 1, 2}); add({0, 1, 3}); add({0, 2, 3}); add({1, 2, 3}); }
            if (fs != facets(r, c)) bad = "has a zone whose facets are not those of its cell";
        }
        if (z && bad.empty()) for (int s = 0; s < z->nshapes; s++) if (z->shapetype && r.shape && z->shapetype[s] != r.shape) bad = "has zones of another type";
    } else if (bad.empty()) {
        DBphzonelist* z = m->phzones; 
        if (!z || z->nzones != (int)nc || z->nfaces != (int)r.faces.size() || z->lo_offset != 0 || z->hi_offset != (int)nc - 1) bad = "has other polyhedral zones";
        else {
            size_t k = 0; for (int f = 0; f < z->nfaces && bad.empty(); f++) { std::vector<int> v; for (int q = 0; q < z->nodecnt[f] && k < (size_t)z->lnodelist; q++) v.push_back(z->nodelist[k++]); if (v != r.faces[f]) bad = "has other faces"; }
            k = 0; for (size_t c = 0; c < nc && bad.empty(); c++) {
                if (z->facecnt[c] != (int)r.cell_faces[c].size()) { bad = "has a zone with another number of faces"; break; }
                std::array<double, 3> cb{}; std::set<int> cp; for (int f : r.cell_faces[c]) for (int n : r.faces[f]) cp.insert(n); for (int n : cp) for (int d = 0; d < 3; d++) cb[d] += r.vals[d][n] / cp.size();
                std::set<int> got; for (int q = 0; q < z->facecnt[c]; q++) {
                    int e = z->facelist[k++], f = e < 0 ? ~e : e; got.insert(f); if (f < 0 || f >= (int)r.faces.size()) break;
                    std::array<double, 3> n{}, fb{}; auto& F = r.faces[f]; for (int x : F) for (int d = 0; d < 3; d++) fb[d] += r.vals[d][x] / F.size();
                    for (size_t i = 0; i < F.size(); i++) { int a = F[i], b = F[(i + 1) % F.size()]; for (int d = 0; d < 3; d++) { int p = (d + 1) % 3, s = (d + 2) % 3; n[d] += r.vals[p][a] * r.vals[s][b] - r.vals[s][a] * r.vals[p][b]; } }
                    double dot = 0, nn = 0, ll = 0; for (int d = 0; d < 3; d++) { dot += n[d] * (fb[d] - cb[d]); nn += n[d] * n[d]; ll += (fb[d] - cb[d]) * (fb[d] - cb[d]); }
                    if (std::fabs(dot) > 1e-6 * std::sqrt(nn * ll) && (dot < 0) != (e < 0)) bad = "has a face with the wrong orientation";
                }
                if (bad.empty() && got != as_set(r.cell_faces[c])) bad = "has a zone with other faces than its cell";
            }
        }
    }
    DBFreeUcdmesh(m); return bad;
}
static std::string compare(DBfile* db, const std::string& name, const Rec& r) {
    if (r.kind == "mesh" || r.kind == "points") return compare_mesh(db, name, r);
    if (r.kind == "var") {
        DBucdvar* v = DBGetUcdvar(db, name.c_str()); if (!v) return "is not there"; std::string bad;
        if ((size_t)v->nels != r.vals[0].size() || v->nvals != 1) bad = "has another size"; else if (v->datatype != (r.isfloat ? DB_FLOAT : DB_DOUBLE)) bad = "has another type"; else if (v->centering != r.centering) bad = "has another centering"; else if (!v->meshname || r.mesh != v->meshname) bad = "belongs to another mesh";
        else for (int i = 0; i < v->nels; i++) { double a = at(((void**)v->vals)[0], v->datatype, i), b = r.vals[0][i]; if (memcmp(&a, &b, sizeof a)) bad = "has other values"; }
        DBFreeUcdvar(v); return bad;
    }
    if (r.kind == "pvar") {
        DBmeshvar* v = DBGetPointvar(db, name.c_str()); if (!v) return "is not there"; std::string bad;
        if ((size_t)v->nvals != r.vals.size() || (size_t)v->nels != r.vals[0].size() || v->datatype != DB_DOUBLE) bad = "has another size"; else if (!v->meshname || r.mesh != v->meshname) bad = "belongs to another mesh";
        else for (size_t k = 0; k < r.vals.size(); k++) for (int i = 0; i < v->nels; i++) if (at(((void**)v->vals)[k], v->datatype, i) != r.vals[k][i]) bad = "has other values";
        DBFreeMeshvar(v); return bad;
    }
    DBdefvars* d = DBGetDefvars(db, ("def_" + name).c_str()); if (!d) return "is not there"; std::string bad;
    if (d->ndefs != 1 || name != d->names[0] || d->types[0] != r.etype || r.expr != d->defns[0]) bad = "has another definition";
    DBFreeDefvars(d); return bad;
}
static void check_file(const std::string& f, const FileState& fs, const std::string& when) {
    if (!fs.exists || !fs.known || fs.c.empty()) return; Reading rd;
    DBfile* db = DBOpen(("/sim/" + f).c_str(), DB_PDB, DB_READ);
    if (!db) violation("contents", "a database closed successfully cannot be opened " + when);
    for (auto& [n, r] : fs.c) { if (r.kind == "pvar" && (!fs.c.count(r.mesh) || fs.c.at(r.mesh).kind != "points")) continue; auto bad = compare(db, n, r); if (!bad.empty()) violation("contents", r.kind + " " + (r.kind == "mesh" ? std::to_string(r.dims) + "D shape " + std::to_string(r.shape) : "") + " acknowledged, but " + bad + " after " + when); probe(("read_back_" + r.kind).c_str()); }
    DBClose(db);
}
// ------------------------------------------------------------------ meshes
template<class R> struct Pool { disk::simplicial_mesh<R, 2> tri; disk::simplicial_mesh<R, 3> tet; disk::cartesian_mesh<R, 2> quad; disk::cartesian_mesh<R, 3> hex; disk::generic_mesh<R, 2> poly2; disk::generic_mesh<R, 3> poly3; std::vector<disk::point<R, 2>> pts; };
template<class R> static bool build(Pool<R>& p, int k, int lvl, uint64_t seed, Rec& r) {
    // moved points: coordinates with all digits
    auto shake = [&](auto& m) { Rng g(seed); for (auto& q : m.backend_storage()->points) for (size_t d = 0; d < std::decay_t<decltype(m)>::dimension; d++) q[d] = q[d] * (R)(1 + 0.01 * g.unit() / 100); };
    try {
        switch (k) {
            case 0: { auto g = disk::make_simple_mesher(p.tri); for (int i = 0; i < lvl; i++) g.refine(); shake(p.tri); r = describe(p.tri, DB_ZONETYPE_TRIANGLE); break; }
            case 1: { fs_write("/sim/.m", mm::make_file(mm::NETGEN3, seed, 1 + lvl, 1, 1, 0)); if (!disk::load_mesh_netgen<R>("/sim/.m", p.tet)) return false; r = describe(p.tet, DB_ZONETYPE_TET); break; }
            case 2: { auto g = disk::make_simple_mesher(p.quad); for (int i = 0; i < lvl; i++) g.refine(); shake(p.quad); r = describe(p.quad, 0); break; }
            case 3: { fs_write("/sim/.m", mm::make_file(mm::HEX, seed, 1 + lvl, 2, 1 + lvl, 0)); if (!disk::load_mesh_diskpp_cartesian<R>("/sim/.m", p.hex)) return false; shake(p.hex); r = describe(p.hex, DB_ZONETYPE_HEX); break; }
            case 4: { auto g = disk::make_fvca5_hex_mesher(p.poly2); g.make_level((size_t)lvl); r = describe(p.poly2, 0); break; }
            case 5: { fs_write("/sim/.m", mm::make_file(mm::FVCA6, seed, 1 + lvl, 1 + lvl, 1, 0)); if (!disk::load_mesh_fvca6_3d<R>("/sim/.m", p.poly3)) return false; r = describe(p.poly3, DB_ZONETYPE_POLYHEDRON); break; }
            default: { Rng g(seed); p.pts.clear(); int n = 1 + (int)g.below(40); for (int i = 0; i < n; i++) p.pts.push_back(disk::point<R, 2>((R)(g.unit() * 3), (R)(g.unit() - 1))); r = Rec(); r.kind = "points"; r.dims = 2; r.isfloat = std::is_same<R, float>::value; r.vals.assign(2, {}); for (auto& q : p.pts) { r.vals[0].push_back(q.x()); r.vals[1].push_back(q.y()); } r.nodes = p.pts.size(); }
        }
    } catch (const std::exception&) { return false; }
    fs_remove("/sim/.m"); return true;
}
template<class R> static bool add(disk::silo_database& db, Pool<R>& p, int k, const std::string& n) { switch (k) { case 0: return db.add_mesh(p.tri, n); case 1: return db.add_mesh(p.tet, n); case 2: return db.add_mesh(p.quad, n); case 3: return db.add_mesh(p.hex, n); case 4: return db.add_mesh(p.poly2, n); case 5: return db.add_mesh(p.poly3, n); default: return db.add_mesh(p.pts, n); } }

// ------------------------------------------------------------------ plans
// op <db> create|open <file> | close | destroy | mesh <name> <kind> <level> <seed> <float> | var <name> <mesh> <overload> <nodal> <seed> <sizemode> | expr <name> <seed>
static Plan gen(Rng& r, int tier) {
    Plan p; p.cfg("sched_seed", r.below(1u << 30)); p.cfg("heap_mb", 64); int n = (int)r.range(3, tier ? 24 : 12), ndb = r.chance(0.8) ? 1 : 2; std::vector<std::string> meshes[2]; std::set<std::string> pts[2]; int serial = 0;
    if (r.chance(0.9)) p.put("op", 0, "create", "a");
    for (int i = 0; i < n; i++) {
        int d = (int)r.below(ndb); auto file = [&] { return d ? (r.chance(0.7) ? "c" : "d") : (r.chance(0.7) ? "a" : "b"); };
        switch (r.below(24)) {
            case 0: p.put("op", d, "create", file()); break;
            case 1: case 2: p.put("op", d, "open", file()); break;
            case 3: case 4: p.put("op", d, "close"); break;
            case 5: p.put("op", d, "destroy"); break;
            case 6: p.put("op", d, "expr", "e" + std::to_string(serial++), r.below(1000)); break;
            case 7: case 8: case 9: case 10: case 11: case 12: case 13: { std::string m = "m" + std::to_string(serial++); int k = (int)r.below(7); meshes[d].push_back(m); if (k == 6) pts[d].insert(m); p.put("op", d, "mesh", m.empty() ? "-" : m, k, k == 1 ? 0 : k == 4 ? 1 : (int)r.below(k == 3 || k == 5 ? 2 : 3), r.below(1000000), r.chance(0.15)); break; }
            default: { std::string m = meshes[d].empty() || r.chance(0.05) ? "m0" : r.pick(meshes[d]); p.put("op", d, "var", "v" + std::to_string(serial++), m.empty() ? "-" : m, pts[d].count(m) && r.chance(0.7) ? 8 + r.below(2) : r.below(10), r.below(2), r.below(1000000), r.chance(0.06) ? 1 : r.chance(0.04) ? 2 : 0); }
        }
    }
    if (r.chance(0.8)) for (int d = 0; d < ndb; d++) p.put("op", d, "close");
    return p;
}
static void place(Rng& r, Plan& p, const Counts& c) {
    int n = (int)r.below(4); auto at = [&](const char* k) { return r.range(1, std::max<int64_t>(1, (int64_t)c.of(k))); };
    for (int i = 0; i < n; i++) { if (r.chance(0.12)) p.put("fault", "alloc", at("alloc"), "enomem", 0); else p.put("fault", "silo", at("silo"), r.chance(0.6) ? "refuse" : "late", 0); }
    if (n && r.chance(0.15)) { int64_t k = at("silo"); for (int64_t j = k; j < k + 6; j++) p.put("fault", "silo", j, "refuse", 0); }   // the disk stays full
}
// ------------------------------------------------------------------ execution
struct Db { std::unique_ptr<disk::silo_database> d; bool open = false, doubt = false; std::string file; Contents session; std::set<std::string> unknown; };
static void exec(const Plan& p) {
    g_handles.clear(); g_optlists.clear(); g_misuse.clear(); g_failed = 0; g_reading = false; DBShowErrors(DB_NONE, nullptr); DBSetAllowOverwrites(1);
    Db dbs[2]; std::map<std::string, FileState> files; int fds0 = open_fds(); std::map<std::string, std::pair<size_t, size_t>> sizes;
    for (auto& d : dbs) { Sut s; pause_faults(true); d.d.reset(new disk::silo_database()); pause_faults(false); }
    int line = 0; std::map<std::string, std::string> pending;   // the library does not survive a second open database while one is written
    auto settle = [&] { if (dbs[0].open || dbs[1].open) return; for (auto& [f, w] : pending) check_file(f, files[f], w); pending.clear(); };
    for (auto* l : p.all("op")) {
        line++; int di = (int)toi((*l)[1]) & 1; Db& d = dbs[di]; const std::string& op = (*l)[2]; auto arg = [&](size_t i) { std::string s = i < l->size() ? (*l)[i] : "0"; return s == "-" ? std::string() : s; };
        uint64_t bad0 = destructive_fired() + g_failed, dbad0 = memory_faults(); bool ok = false; std::string how = "returned"; size_t h0 = g_handles.size();
        auto call = [&](auto f) { set_step_limit(200000000ull); try { Sut s; ok = f(); } catch (const std::bad_alloc&) { how = "bad_alloc"; } catch (const std::domain_error&) { how = "misuse"; } catch (const std::exception& e) { how = std::string("exception ") + e.what(); } set_step_limit(1ull << 60); };
        // the implicit or explicit end of a session: what was acknowledged is in the file if nothing failed
        auto ended = [&](bool good, const char* what) { if (!d.open) return; auto& f = files[d.file]; if (good && !d.doubt) { for (auto& n : d.unknown) f.c.erase(n); for (auto& [n, r] : d.session) f.c[n] = r; pending[d.file] = what; probe("sessions_checked"); } else f.known = false; d.open = false; d.session.clear(); d.unknown.clear(); };
        std::vector<std::pair<std::string, Rec>> put;
        if (op == "create" || op == "open") {
            if (dbs[1 - di].open) { probe("skipped_second_database"); continue; }
            std::string f = arg(3), path = "/sim/" + f; bool was = d.open; 
            call([&] { return op == "create" ? d.d->create(path) : d.d->open(path); });
            bool faulty = destructive_fired() + g_failed > bad0;
            if (how == "returned") {
                // the previous session ended here; a failing close must not be hidden behind a success
                if (was) ended(!faulty, "a close by create() or open()");
                if (ok && faulty) violation("false-success", op + "() is true although the library reported a failure");
                if (ok) { if (op == "create") { files[f] = FileState(); files[f].exists = true; } else if (!files[f].exists) violation("false-success", "open() is true for a file that does not exist"); d.open = true; d.doubt = false; d.file = f; if (!files[f].known) { files[f].c.clear(); d.doubt = true; } }
                else { if (!faulty && (op == "create" || (files[f].exists && files[f].known && !files[f].c.empty()))) violation("refused", op + "() is false without a failure"); if (op == "create") { files[f].exists = true; files[f].known = false; } d.open = false; }
            }
        } else if (op == "close") {
            call([&] { return d.d->close(); }); bool faulty = destructive_fired() + g_failed > bad0;
            if (how == "returned") { if (ok && faulty) violation("false-success", "close() is true although the library reported a failure"); if (!ok && !faulty) violation("refused", "close() is false without a failure"); ended(ok, "close()"); }
        } else if (op == "destroy") {
            call([&] { d.d.reset(); d.d.reset(new disk::silo_database()); return true; }); bool faulty = destructive_fired() + g_failed > bad0; if (how == "bad_alloc") { pause_faults(true); Sut s; d.d.reset(new disk::silo_database()); pause_faults(false); } ended(!faulty, "destruction"); if (how == "bad_alloc") how = "returned";
        } else if (op == "mesh") {
            std::string n = arg(3); int k = (int)toi(arg(4)), lvl = (int)toi(arg(5)); uint64_t seed = (uint64_t)toi(arg(6)); bool fl = toi(arg(7)); Rec r; auto pd = std::make_unique<Pool<double>>(); auto pf = std::make_unique<Pool<float>>();
            pause_faults(true); bool have; { Sut s; have = fl ? build(*pf, k, lvl, seed, r) : build(*pd, k, lvl, seed, r); } pause_faults(false); if (!have) { probe("mesh_not_built"); continue; }
            sizes[n] = {r.nodes, r.kind == "points" ? r.nodes : r.cells.size()};
            call([&] { return fl ? add(*d.d, *pf, k, n) : add(*d.d, *pd, k, n); }); put.push_back({n, r});
        } else if (op == "var") {
            std::string n = arg(3), m = arg(4); int ov = (int)toi(arg(5)); bool nodal = toi(arg(6)); Rng g((uint64_t)toi(arg(7))); int mode = (int)toi(arg(8)); auto it = sizes.find(m); size_t N = it == sizes.end() ? 5 : nodal ? it->second.first : it->second.second; if (mode == 2) N = 0;
            auto num = [&] { return g.chance(0.05) ? 0.0 : (g.unit() - 0.5) * std::pow(10.0, (double)g.range(-5, 5)); }; auto cen = nodal ? disk::nodal_variable_t : disk::zonal_variable_t; int dc = nodal ? DB_NODECENT : DB_ZONECENT;
            std::vector<double> a(N), b(N), c(N); for (auto* v : {&a, &b, &c}) for (auto& x : *v) x = num();
            auto rec = [&](const std::string& name, std::vector<double> v, bool fl = false) { Rec r; r.kind = "var"; r.mesh = m; r.isfloat = fl; r.centering = dc; if (fl) for (auto& x : v) x = (double)(float)x; r.vals = {v}; put.push_back({name, r}); };
            auto expr = [&](const std::string& def) { Rec r; r.kind = "expr"; r.expr = def; r.etype = DB_VARTYPE_VECTOR; put.push_back({n, r}); };
            auto col = [&](auto& M, int j, const std::vector<double>& v) { for (size_t i = 0; i < N; i++) M(i, j) = v[i]; };
            switch (ov) {
                case 0: case 1: { Eigen::Matrix<double, Eigen::Dynamic, 1> v(N); for (size_t i = 0; i < N; i++) v(i) = a[i]; rec(n, a); call([&] { return d.d->add_variable(m, n, v, cen); }); break; }
                case 2: { Eigen::Matrix<float, Eigen::Dynamic, 1> v(N); for (size_t i = 0; i < N; i++) v(i) = (float)a[i]; rec(n, a, true); call([&] { return d.d->add_variable(m, n, v, cen); }); break; }
                case 3: { Eigen::Matrix<double, Eigen::Dynamic, 2> v(N, 2); col(v, 0, a); col(v, 1, b); rec(n + "_x", a); rec(n + "_y", b); expr("{" + n + "_x, " + n + "_y}"); call([&] { return d.d->add_variable(m, n, v, cen); }); break; }
                case 4: { Eigen::Matrix<double, Eigen::Dynamic, 3> v(N, 3); col(v, 0, a); col(v, 1, b); col(v, 2, c); rec(n + "_x", a); rec(n + "_y", b); rec(n + "_z", c); expr("{" + n + "_x, " + n + "_y, " + n + "_z}"); call([&] { return d.d->add_variable(m, n, v, cen); }); break; }
                case 5: { const auto& v = a; rec(n, a); call([&] { return d.d->add_variable(m, n, v, cen); }); break; }
                case 6: { if (nodal) { disk::silo_nodal_variable<double> v(n, a); rec(n, a); call([&] { return d.d->add_variable(m, v); }); } else { auto q = a; disk::silo_zonal_variable<double> v(n, std::move(q)); rec(n, a); call([&] { return d.d->add_variable(m, v); }); } break; }
                case 7: { std::vector<std::complex<double>> z(N); for (size_t i = 0; i < N; i++) z[i] = {a[i], b[i]}; rec(n + "_real", a); rec(n + "_imag", b); if (nodal) { disk::silo_nodal_variable<std::complex<double>> v(n, z); call([&] { return d.d->add_variable(m, v); }); } else { disk::silo_zonal_variable<std::complex<double>> v(n, z); call([&] { return d.d->add_variable(m, v); }); } break; }
                case 8: { std::vector<std::vector<double>> v; int nv = (int)g.below(4); if (mode == 0 && !nv) nv = 1; if (nv > 0) v.push_back(a); if (nv > 1) v.push_back(b); if (nv > 2) v.push_back(c); if (mode == 1 && nv > 1 && N) v[1].pop_back(); Rec r; r.kind = "pvar"; r.mesh = m; r.vals = v; bool ragged = mode == 1 && nv > 1 && N; put.push_back({n, r});
                    call([&] { return d.d->add_variable(m, n, v); }); if (how == "returned" && ok && (nv == 0 || ragged)) violation("false-success", "point variables without values or of different sizes are acknowledged"); break; }
                default: { Rec r; r.kind = "pvar"; r.mesh = m; r.vals = {a}; put.push_back({n, r}); call([&] { return d.d->add_variable(m, n, a); }); }
            }
        } else if (op == "expr") {
            std::string n = arg(3), def = "<v" + arg(4) + "> + 1"; Rec r; r.kind = "expr"; r.expr = def; r.etype = DB_VARTYPE_SCALAR; put.push_back({n, r}); call([&] { return d.d->add_expression(n, def, DB_VARTYPE_SCALAR); });
        } else continue;
        bool faulty = destructive_fired() + g_failed > bad0;
        log("op %d %s -> %s %d faulty %d open %d", line, op.c_str(), how.c_str(), (int)ok, (int)faulty, (int)d.open); note(op + (put.empty() ? "" : put[0].second.kind) + (ok ? "+" : "-") + (faulty ? "!" : "") + (d.open ? "o" : ""));
        if (!g_misuse.empty()) violation("handle", g_misuse[0]);
        if (how != "returned" && !(how == "bad_alloc" && faulty)) violation("exception", op + " ended with " + how);
        if (how == "bad_alloc" && (op == "create" || op == "open" || op == "close")) { if (g_handles.size() < h0 || !d.open) { if (d.open) files[d.file].known = false; d.open = false; } d.doubt = true; }
        if (!put.empty()) {
            if (ok && !d.open) violation("false-success", "an addition to a database that is not open is acknowledged");
            bool nomem = memory_faults() > dbad0; if (ok && faulty && !nomem) violation("false-success", put[0].second.kind + " acknowledged although the library reported a failure");
            bool strange = false; for (auto& [n, r] : put) { if (n.empty() || n.find(' ') != std::string::npos) strange = true; if (r.kind != "expr" && r.kind != "mesh") for (auto& v : r.vals) if (v.empty()) strange = true; if (r.kind == "pvar" && r.vals.empty()) strange = true; if (r.mesh.empty() && r.kind != "mesh" && r.kind != "points" && r.kind != "expr") strange = true; if (r.kind == "pvar") for (auto& v : r.vals) if (v.size() != r.vals[0].size()) strange = true; if (r.mesh.find(' ') != std::string::npos) strange = true; }
            if (!ok && d.open && !faulty && !strange && how == "returned") violation("refused", put[0].second.kind + " refused without a failure");
            if (d.open) for (auto& [n, r] : put) { if (ok && !nomem) { d.session[n] = r; d.unknown.erase(n); } else { d.session.erase(n); d.unknown.insert(n); } if (ok) probe(("acked_" + r.kind).c_str()); }
        }
        settle(); size_t want = dbs[0].open + dbs[1].open; if (g_handles.size() != want) violation("handle", std::to_string(g_handles.size()) + " databases are open instead of " + std::to_string(want) + " after " + op);
        if (!g_optlists.empty() && how == "returned") violation("handle", "an option list is left over after " + op); g_optlists.clear();
    }
    for (auto& d : dbs) { pause_faults(true); { Sut s; d.d.reset(); } pause_faults(false); if (d.open) { auto& f = files[d.file]; if (!d.doubt) { for (auto& n : d.unknown) f.c.erase(n); for (auto& [n, r] : d.session) f.c[n] = r; pending[d.file] = "destruction"; } d.open = false; } }
    settle(); if (!g_misuse.empty()) violation("handle", g_misuse[0]);
    if (!g_handles.empty()) violation("handle", "a database is never closed");
    if (open_fds() != fds0) violation("resource", "a file was left open");
    for (auto& [n, f] : files) check_file(n, f, "the end");
    std::string what; if (ledger_errors(&what)) violation("resource", what);
}
static struct Reg { Reg() { register_prop({"C20", gen, place, exec}); } } reg;
