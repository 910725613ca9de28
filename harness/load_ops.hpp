// Loading meshes from simulated files: shared by the load and thread harnesses
#pragma once
#include "mesh_model.hpp"
#include <iostream>
#include <fstream>
#include <memory>
#include <optional>
#include <algorithm>
#include <numeric>
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/common/mapped_file.h"
using namespace sim;
using mm::Model; using mm::VI;
typedef double R;

// ------------------------------------------------------------------ extraction through the public API
template<class M> static VI ids(const M& e) { VI v; auto p = e.point_ids(); for (auto& x : p) v.push_back((size_t)x); return v; }
// a mesh that contradicts itself: a violation, unless the file is one whose meaning is not defined (then the caller decides)
static std::string* g_defer = nullptr;
static void bad(const char* what) { if (!g_defer) violation("mesh", what); if (g_defer->empty()) *g_defer = what; }
template<class Msh> static Model extract(Msh& msh, bool sortv, bool sub, bool intl) {
    Model m; m.dim = (int)Msh::dimension; m.has_sub = sub; m.has_int = intl;
    for (auto it = msh.points_begin(); it != msh.points_end(); it++) { std::array<double, 3> p{0, 0, 0}; for (size_t d = 0; d < Msh::dimension; d++) p[d] = (*it).at(d); m.pts.push_back(p); }
    size_t nb = 0, fi = 0;
    if (msh.backend_storage()->boundary_info.size() != msh.faces_size()) bad("boundary table does not match the number of faces");
    for (auto it = msh.faces_begin(); it != msh.faces_end(); it++, fi++) {
        auto fc = *it; auto k = mm::sorted(ids(fc)); if (m.faces.count(k)) bad("a face is listed twice"); if (msh.lookup(fc) != fi) bad("faces are not in search order");
        auto bi = msh.boundary_info(fc); mm::Face f; f.bnd = bi.is_boundary(); f.id = bi.id(); f.internal = bi.is_internal(); if (f.bnd != msh.is_boundary(fc)) bad("is_boundary disagrees with boundary_info"); nb += f.bnd; m.faces[k] = f;
    }
    if (nb != msh.boundary_faces_size()) bad("boundary_faces_size is wrong");
    size_t ci = 0;
    for (auto it = msh.cells_begin(); it != msh.cells_end(); it++, ci++) {
        auto cl = *it; auto v = ids(cl); if (sortv) v = mm::sorted(v);
        std::vector<VI> fs; auto fcs = disk::faces(msh, cl); for (auto& f : fcs) { auto k = mm::sorted(ids(f)); if (!m.faces.count(k)) bad("a cell has a face that is not a face of the mesh"); fs.push_back(k); }
        if (msh.lookup(cl) != ci) bad("cells are not in search order");
        long s = 0; if (sub) s = (long)msh.domain_info(cl).id();
        m.cells.push_back(mm::cell_text(v, fs, s));
    }
    std::sort(m.cells.begin(), m.cells.end());
    if constexpr (Msh::dimension == 3) for (auto& e : msh.backend_storage()->edges) { auto k = mm::sorted(ids(e)); if (k.size() == 2) m.edges.insert({k[0], k[1]}); }
    return m;
}

// ------------------------------------------------------------------ one holder per format
struct IHolder { virtual ~IHolder() {} virtual bool load(const std::string& path, int ls, int ms) = 0; virtual Model get(int ms) = 0; };
template<class L, class M, int F> struct Holder : IHolder {
    std::unique_ptr<L> l[3]; std::unique_ptr<M> m[3];
    bool load(const std::string& path, int ls, int ms) override {
        if (ms == 0 || !m[ms]) { Harness h; m[ms] = std::make_unique<M>(); }
        M& msh = *m[ms];
        if (ls == 0) {
            const char* p = path.c_str();
            if constexpr (F == mm::FVCA5) return disk::load_mesh_fvca5_2d<R>(p, msh);
            else if constexpr (F == mm::NETGEN2 || F == mm::NETGEN3) return disk::load_mesh_netgen<R>(p, msh);
            else if constexpr (F == mm::QUAD || F == mm::HEX) return disk::load_mesh_diskpp_cartesian<R>(p, msh);
            else if constexpr (F == mm::MEDIT2 || F == mm::MEDIT3) return disk::load_mesh_medit<R>(p, msh);
            else if constexpr (F == mm::POLY2 || F == mm::POLY3) return disk::load_mesh_poly<R>(p, msh);
            else return disk::load_mesh_fvca6_3d<R>(p, msh);
        }
        if (!l[ls]) { Harness h; l[ls] = std::make_unique<L>(); }
        if (!l[ls]->read_mesh(path)) return false;
        return l[ls]->populate_mesh(msh);
    }
    Model get(int ms) override { return extract(*m[ms], F == mm::NETGEN2 || F == mm::NETGEN3, F == mm::FVCA5 || F == mm::NETGEN3, F == mm::FVCA5 || F == mm::NETGEN3); }
};
template<int F> struct T_; 
template<> struct T_<mm::FVCA5>   { typedef disk::fvca5_mesh_loader<R, 2> L; typedef disk::generic_mesh<R, 2> M; };
template<> struct T_<mm::NETGEN2> { typedef disk::netgen_mesh_loader<R, 2> L; typedef disk::simplicial_mesh<R, 2> M; };
template<> struct T_<mm::QUAD>    { typedef disk::cartesian_mesh_loader<R, 2> L; typedef disk::cartesian_mesh<R, 2> M; };
template<> struct T_<mm::MEDIT2>  { typedef disk::medit_mesh_loader<R, 2> L; typedef disk::generic_mesh<R, 2> M; };
template<> struct T_<mm::POLY2>   { typedef disk::poly_mesh_loader<R, 2> L; typedef disk::generic_mesh<R, 2> M; };
template<> struct T_<mm::FVCA6>   { typedef disk::fvca6_mesh_loader<R, 3> L; typedef disk::generic_mesh<R, 3> M; };
template<> struct T_<mm::NETGEN3> { typedef disk::netgen_mesh_loader<R, 3> L; typedef disk::simplicial_mesh<R, 3> M; };
template<> struct T_<mm::HEX>     { typedef disk::cartesian_mesh_loader<R, 3> L; typedef disk::cartesian_mesh<R, 3> M; };
template<> struct T_<mm::MEDIT3>  { typedef disk::medit_mesh_loader<R, 3> L; typedef disk::generic_mesh<R, 3> M; };
template<> struct T_<mm::POLY3>   { typedef disk::poly_mesh_loader<R, 3> L; typedef disk::generic_mesh<R, 3> M; };
template<int F> static IHolder* mk() { return new Holder<typename T_<F>::L, typename T_<F>::M, F>; }
static IHolder* make_holder(int f) {
    switch (f) { case 0: return mk<0>(); case 1: return mk<1>(); case 2: return mk<2>(); case 3: return mk<3>(); case 4: return mk<4>(); case 5: return mk<5>(); case 6: return mk<6>(); case 7: return mk<7>(); case 8: return mk<8>(); default: return mk<9>(); }
}

// ------------------------------------------------------------------ file operations
static std::string path_of(const std::string& name, int fmt) { return "/sim/" + name + "." + mm::fmt_ext[fmt]; }
static std::string mutate(std::string s, const std::string& kind, uint64_t a, uint64_t b, const std::string& old) {
    auto tokens = [&]() { std::vector<std::pair<size_t, size_t>> t; size_t i = 0; while (i < s.size()) { while (i < s.size() && isspace((unsigned char)s[i])) i++; size_t k = i; while (i < s.size() && !isspace((unsigned char)s[i])) i++; if (i > k) t.push_back({k, i - k}); } return t; };
    if (kind == "trunc") { if (!s.empty()) s.resize(a % s.size()); }
    else if (kind == "chop") { if (!s.empty()) s.resize(s.size() - std::min<size_t>(s.size(), 1 + a % 64)); }
    else if (kind == "zero") { for (size_t i = 0; i < b && !s.empty(); i++) s[(a + i) % s.size()] = 0; }
    else if (kind == "blank") { for (size_t i = 0; i < b && !s.empty(); i++) s[(a + i) % s.size()] = ' '; }
    else if (kind == "digit") { std::vector<size_t> d; for (size_t i = 0; i < s.size(); i++) if (isdigit((unsigned char)s[i])) d.push_back(i); if (!d.empty()) s[d[a % d.size()]] = (char)('0' + b % 10); }
    else if (kind == "token") { auto t = tokens(); if (!t.empty()) { auto [p, n] = t[a % t.size()]; static const char* v[] = {"0", "1", "4", "999", "4000000000", "18446744073709551615", "99999999999999999999999", "-1", "x", "", "1e3", "7.5"}; s.replace(p, n, v[b % 12]); } }
    else if (kind == "dropline" || kind == "dupline") { std::vector<std::string> L; size_t p = 0; while (p <= s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { L.push_back(s.substr(p)); break; } L.push_back(s.substr(p, e - p)); p = e + 1; } size_t k = a % L.size(); if (kind == "dropline") L.erase(L.begin() + k); else L.insert(L.begin() + k, L[k]); s.clear(); for (size_t i = 0; i < L.size(); i++) { s += L[i]; if (i + 1 < L.size()) s += '\n'; } }
    else if (kind == "tail") { if (old.size() > s.size()) s += old.substr(s.size()); }
    else if (kind == "tornhead") { size_t k = s.empty() ? 0 : a % s.size(); s = s.substr(0, k) + (old.size() > k ? old.substr(k) : std::string()); }
    else if (kind == "byte") { if (!s.empty()) s[a % s.size()] = (char)b; }
    else if (kind == "crlf") { std::string r; for (char c : s) { if (c == '\n') r += '\r'; r += c; } s = r; }
    return s;
}
static std::map<std::string, std::string> g_prev;   // previous contents of a file (for stale tails)
static void op_file(const Line& l) { // file name fmt gseed nx ny nz style
    int f = mm::fmt_of(l[2]); auto p = path_of(l[1], f); g_prev[p] = fs_read(p);
    fs_write(p, mm::make_file(f, (uint64_t)toi(l[3]), (int)toi(l[4]), (int)toi(l[5]), (int)toi(l[6]), (int)toi(l[7])));
}
static void op_mut(const Line& l) { // mut name fmt kind a b
    int f = mm::fmt_of(l[2]); auto p = path_of(l[1], f); fs_write(p, mutate(fs_read(p), l[3], (uint64_t)toi(l[4]), (uint64_t)toi(l[5]), g_prev[p]));
}
static uint64_t budget(const std::string& s) { return 5000000ull + 1500ull * s.size(); }

// ------------------------------------------------------------------ load and judge
static std::map<int, std::unique_ptr<IHolder>> g_hold;
static IHolder& holder(int f) { auto& h = g_hold[f]; if (!h) h.reset(make_holder(f)); return *h; }
enum { CHECK = 1, REF = 2 };
static bool g_last_ok = false;
// mode: "any" = success only with the exact mesh, and clean complete files must load
static void op_load(const Line& l, bool must_succeed_if_clean, bool judge) { // load name fmt lslot mslot
    int f = mm::fmt_of(l[2]); auto p = path_of(l[1], f); int ls = (int)toi(l[3]), ms = (int)toi(l[4]);
    std::string bytes = fs_read(p); bool exists = fs_exists(p); fs_reset_visible();
    if (getenv("SIM_DUMP")) { fwrite(bytes.data(), 1, bytes.size(), stderr); fputs("<<<\n", stderr); }
    auto& h = holder(f); uint64_t d0 = destructive_fired(); bool ok = false; std::string how = "false";
    set_step_limit(budget(bytes));
    try { Sut s; ok = h.load(p, ls, ms); } catch (const std::bad_alloc&) { how = "bad_alloc"; } catch (const std::exception& e) { how = "exception"; }
    set_step_limit(1ull << 60);
    if (live_threads() || unjoined_threads()) violation("thread", "worker threads are still running or unjoined after the load returned");
    bool clean = destructive_fired() == d0; if (ok) how = "true";
    auto vis = fs_visible(p); if (vis < bytes.size()) bytes.resize(vis);
    mm::Ref ref; if (exists) ref = mm::reference(f, bytes); else ref.why = "no such file";
    log("load %s %s -> %s clean=%d ref=%d/%d %s", l[1].c_str(), l[2].c_str(), how.c_str(), clean, ref.accept, ref.ambig, ref.why.c_str());
    note(l[2] + ":" + how + (clean ? ":clean" : ":faulty") + (ref.accept ? ":complete" : ":" + ref.why) + (ref.ambig ? ":ambig" : ""));
    probe(ok ? "load_ok" : "load_refused"); if (!ref.accept && !ref.ambig) probe("file_incomplete"); if (ref.ambig) probe("file_ambiguous"); 
    if (!judge) return;
    if (ok && !ref.accept && !ref.ambig) violation("false-success", l[2] + ": success on an incomplete file (" + ref.why + ")");
    if (ok && ref.accept && !ref.ambig) { Model got = h.get(ms); auto d = mm::diff(ref.m, got); if (!d.empty()) violation("mesh", l[2] + ": " + d); probe("mesh_compared"); }
    g_last_ok = ok && ref.accept && !ref.ambig;
    if (!ok && must_succeed_if_clean && clean && ref.accept && !ref.ambig) violation("refused", l[2] + ": a complete file was refused (" + how + ")");
}
static void finish_load() { g_hold.clear(); g_prev.clear(); }

// ------------------------------------------------------------------ generation helpers
static void gen_file(Rng& r, Plan& p, const std::string& name, int fmt, int tier, bool big = false) {
    int m = mm::is3d(fmt) ? (tier ? 4 : 3) : (tier ? 7 : 5); if (big) m = mm::is3d(fmt) ? 5 : 12;
    int nx = (int)r.range(1, m), ny = (int)r.range(1, m), nz = (int)r.range(1, std::max(1, m - 1));
    int style = (int)r.below(4) | (int)(r.below(4) << 2) | (r.chance(0.25) ? 16 : 0) | (r.chance(0.4) ? 32 : 0) | (r.chance(0.5) ? 64 : 0) | (r.chance(mm::mapped(fmt) ? 0.45 : 0.1) ? (int)(r.range(1, 3) << 8) : 0);
    p.put("file", name, mm::fmt_name[fmt], r.below(1000000), nx, ny, nz, style);
}
static int pick_fmt(Rng& r) { return (int)r.below(mm::NFMT); }
static void gen_mut(Rng& r, Plan& p, const std::string& name, int fmt) {
    static const char* k[] = {"trunc", "trunc", "trunc", "chop", "chop", "zero", "blank", "digit", "digit", "digit", "token", "token", "token", "dropline", "dupline", "tail", "tornhead", "byte", "crlf"};
    std::string kind = k[r.below(19)]; uint64_t b = r.below(12); if (kind == "zero" || kind == "blank") b = 1 + r.below(600); if (kind == "byte") b = r.below(256);
    p.put("mut", name, mm::fmt_name[fmt], kind, r.below(1u << 20), b);
}
static void add_fault(Rng& r, Plan& p, const Counts& c, const char* kind, std::vector<std::pair<const char*, int>> acts) {
    uint64_t n = c.of(kind); if (!n) return; auto& a = acts[r.below(acts.size())];
    int64_t arg = 0; if (a.second == 1) arg = r.chance(0.5) ? r.range(1, 16) : r.range(1, 9000); if (a.second == 2) arg = r.range(1, 5000);
    p.put("fault", kind, r.range(1, (int64_t)n), a.first, arg);
}
static void add_preempts(Rng& r, Plan& p, const Counts& c, int maxn) { uint64_t mt = c.of("mtsteps"); if (!mt) return; int n = (int)r.range(0, maxn); for (int i = 0; i < n; i++) p.put("preempt", r.below(mt) + 1, r.below(8)); }
static const std::vector<std::pair<const char*, int>> RD_BENIGN{{"short", 1}, {"eintr", 0}, {"slow", 2}}, RD_BAD{{"eio", 0}, {"eof", 0}, {"eio", 0}, {"short", 1}, {"eof", 0}},
    OPEN_BAD{{"enoent", 0}, {"eacces", 0}, {"emfile", 0}, {"eio", 0}}, EIO_{{"eio", 0}}, ENOMEM_{{"enomem", 0}, {"eagain", 0}}, EAGAIN_{{"eagain", 0}};
static void base(Rng& r, Plan& p) { p.cfg("sched_seed", r.below(1u << 30)); p.cfg("heap_mb", 64); }
static void place_bad(Rng& r, Plan& p, const Counts& c, bool allocs) {
    int n = (int)r.below(4);
    for (int i = 0; i < n; i++) switch (r.below(allocs ? 9 : 6)) {
        case 0: case 1: add_fault(r, p, c, "read", RD_BAD); break;
        case 2: add_fault(r, p, c, "open", OPEN_BAD); break;
        case 3: add_fault(r, p, c, "fstat", EIO_); break;
        case 4: add_fault(r, p, c, "mmap", ENOMEM_); break;
        case 5: add_fault(r, p, c, "read", RD_BENIGN); break;
        case 6: add_fault(r, p, c, "close", EIO_); break;
        default: add_fault(r, p, c, "alloc", {{"enomem", 0}}); break; }
    add_preempts(r, p, c, 3);
}

