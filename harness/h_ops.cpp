// A constant mesh used from several threads at once: C09
#include "../sim/rt.hpp"
#include "ops_api.hpp"
#include "mesh_model.hpp"
#include <thread>
#include <memory>
#include <cstring>
#include <cmath>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <numeric>
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/loaders/loader.hpp"
using namespace sim;
bool load_hex_file(int level, unsigned long seed, disk::cartesian_mesh<double, 3>& m) { fs_write("/sim/h.hex", mm::make_file(mm::HEX, seed, 1 + level, 2, 1 + level, 0)); return disk::load_mesh_diskpp_cartesian<double>("/sim/h.hex", m); }
bool load_poly3_file(int level, unsigned long seed, disk::generic_mesh<double, 3>& m) { fs_write("/sim/p.msh", mm::make_file(mm::FVCA6, seed, 1 + level, 1 + level, 1, 0)); return disk::load_mesh_fvca6_3d<double>("/sim/p.msh", m); }
static const MeshKind& kind(int k) { switch (k) { case 0: return kind_tri(); case 1: return kind_tet(); case 2: return kind_quad(); case 3: return kind_hex(); case 4: return kind_poly2(); default: return kind_poly3(); } }
struct Task { int thread; size_t op, cell, degree; Out out; std::string how; };
static void run_task(MeshOps& m, Task& t) {
    t.out.clear(); t.how = "ok";
    try { m.run(t.op, t.cell % m.cells(), t.degree, t.out); } catch (const std::bad_alloc&) { t.how = "bad_alloc"; } catch (const std::exception& e) { t.how = std::string("exception ") + e.what(); } catch (...) { t.how = "unknown exception"; }
}
static bool same(const Out& a, const Out& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
static Plan gen(Rng& r, int tier) {
    Plan p; p.cfg("sched_seed", r.below(1u << 30)); p.cfg("heap_mb", 128);
    int k = (int)r.below(6); if (r.chance(0.15)) k = 4; int var = r.chance(0.5);
    int lvl = k == 1 ? 0 : k == 4 ? 1 : (int)r.below(2); if (tier && k != 1 && k != 4 && r.chance(0.3)) lvl++;
    p.put("mesh", k, lvl, var, r.below(1000000));
    const auto& K = kind(k); int nt = (int)r.range(2, tier ? 5 : 3); bool sameop = r.chance(0.45), samecell = r.chance(0.4); size_t op0 = r.below(K.ops.size()), c0 = r.below(64);
    for (int t = 0; t < nt; t++) { int n = (int)r.range(1, 2); for (int i = 0; i < n; i++) { size_t op = sameop ? op0 : r.below(K.ops.size()); size_t d = r.below(tier ? 4 : 3); if (k == 3 || k == 5 || k == 1) d = std::min<size_t>(d, tier ? 2 : 1); p.put("task", t, K.ops[op], samecell ? c0 : r.below(64), d); } }
    p.cfg("oom", (int)(r.chance(0.2) && !(k == 4 && var)));
    return p;
}
static void place(Rng& r, Plan& p, const Counts& c) {
    uint64_t mt = c.of("mtsteps"); if (mt) { int n = (int)r.range(1, 12); for (int i = 0; i < n; i++) p.put("preempt", r.below(mt) + 1, r.below(8)); }
    if (p.geti("oom") && c.of("alloc")) { int n = (int)r.range(1, 2); for (int i = 0; i < n; i++) p.put("fault", "alloc", r.range(1, (int64_t)c.of("alloc")), "enomem", 0); }
}
static void exec(const Plan& p) {
    auto ml = p.all("mesh"); if (ml.empty()) return; const Line& l = *ml[0]; int k = (int)toi(l[1]); const auto& K = kind(k); set_step_limit(4000000000ull);
    auto make = [&] { pause_faults(true); std::unique_ptr<MeshOps> m; { Sut s; m.reset(K.make((int)toi(l[2]), (int)toi(l[3]), (unsigned long)toi(l[4]))); } pause_faults(false); if (!m) violation("harness", "the mesh could not be made"); return m; };
    std::vector<Task> ts; int nt = 0;
    for (auto* x : p.all("task")) { auto it = std::find(K.ops.begin(), K.ops.end(), (*x)[2]); if (it == K.ops.end()) continue; Task t; t.thread = (int)toi((*x)[1]); t.op = (size_t)(it - K.ops.begin()); t.cell = (size_t)toi((*x)[3]); t.degree = (size_t)toi((*x)[4]); ts.push_back(t); nt = std::max(nt, t.thread + 1); }
    if (nt > 8) nt = 8;
    auto a = make(); Out before = a->image();
    for (auto& x : ts) x.how = "bad_alloc";
    { std::vector<std::thread> th; th.reserve(nt); Sut s; for (int t = 0; t < nt; t++) try { th.emplace_back([&, t] { for (auto& x : ts) if (x.thread == t) run_task(*a, x); }); } catch (const std::bad_alloc&) {} for (auto& x : th) x.join(); }
    clear_faults();
    if (live_threads() || unjoined_threads()) violation("thread", "an operation left a thread behind");
    if (!same(before, a->image())) violation("mesh", "an operation on a constant mesh changed the mesh");
    auto b = make(); if (!same(before, b->image())) violation("harness", "the mesh is not reproducible");
    for (auto it = ts.rbegin(); it != ts.rend(); it++) {
        Task alone = *it; { Sut s; run_task(*b, alone); }
        log("task %s cell %zu degree %zu -> %s %zu values", K.ops[it->op].c_str(), it->cell, it->degree, it->how.c_str(), it->out.size());
        note(std::string(K.name) + ":" + K.ops[it->op] + ":" + std::to_string(it->degree) + ":" + it->how);
        if (alone.how == "bad_alloc") violation("harness", "out of memory without a fault");
        if (it->how == "bad_alloc" && destructive_fired()) { probe("task_out_of_memory"); continue; }
        if (it->how != alone.how) violation("result", K.ops[it->op] + ": concurrent call: " + it->how + ", alone: " + alone.how);
        if (!same(it->out, alone.out)) violation("result", K.ops[it->op] + ": the concurrent call returned something else than the call alone");
        probe("result_compared"); if (it->how == "ok") probe("operation_succeeded");
    }
    if (!same(before, b->image())) violation("mesh", "an operation on a constant mesh changed the mesh");
    probe("mesh_unchanged");
    for (size_t i = 0; i < ts.size(); i++) for (size_t j = 0; j < i; j++) if (ts[i].thread != ts[j].thread && ts[i].op == ts[j].op) { probe("same_operation_at_once"); if (ts[i].cell == ts[j].cell) probe("same_cell_at_once"); }
}
static struct Reg { Reg() { register_prop({"C09", gen, place, exec}); } } reg;
