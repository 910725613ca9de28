// Mesh construction with worker threads: C07 (schedules) and C08 (refused threads and allocations)
#include "load_ops.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
#include <thread>

// ------------------------------------------------------------------ meshes made without a file
typedef disk::simplicial_mesh<R, 2> Tri; typedef disk::simplicial_mesh<R, 3> Tet; typedef disk::cartesian_mesh<R, 2> Qua; typedef disk::generic_mesh<R, 2> Gen;
struct Made { std::string how; Model m; bool ok = false; };
template<class M> static void keep(Made& o, M& m) { Harness h; o.m = extract(m, true, false, false); o.ok = true; o.how = "ok"; }
static void make_mesh(int kind, int level, Made& o) {
    try { switch (kind) {
        case 0: { Tri m; auto g = disk::make_simple_mesher(m); for (int i = 0; i < level; i++) g.refine(); keep(o, m); break; }
        case 1: { Tet m; auto g = disk::make_simple_mesher(m); for (int i = 0; i < level; i++) g.refine(); keep(o, m); break; }
        case 2: { Qua m; auto g = disk::make_simple_mesher(m); for (int i = 0; i < level; i++) g.refine(); keep(o, m); break; }
        case 3: { Gen m; auto g = disk::make_fvca5_hex_mesher(m); g.make_level((size_t)level); keep(o, m); break; }
        default: { Tri m; auto g = disk::make_simple_mesher(m); disk::mesh_hierarchy<R> h; h.build_hierarchy(m, (size_t)level); Tri f = h.finest_mesh(); keep(o, f); } }
    } catch (const std::bad_alloc&) { o.how = "bad_alloc"; } catch (const std::exception&) { o.how = "exception"; }
}
static void threads_gone(const char* what) { if (live_threads() || unjoined_threads()) violation("thread", std::string("worker threads are still running or unjoined after ") + what); }

// make kind level n: n callers at once make the same mesh
static void op_make(const Line& l, bool strict) {
    int kind = (int)toi(l[1]) % 5, level = (int)toi(l[2]) % (kind == 1 ? 2 : 3), n = (int)toi(l[3]); Made want; want.ok = false; std::vector<Made> o(n);
    pause_faults(true); { Sut s; make_mesh(kind, level, want); } if (!want.ok) violation("refused", "a mesh generator failed: " + want.how);
    uint64_t d0 = destructive_fired(); set_step_limit(2000000000);
    if (n == 1) { pause_faults(false); Sut s; make_mesh(kind, level, o[0]); }
    else { Sut s; std::vector<std::thread> t; for (int i = 0; i < n; i++) t.emplace_back([&, i] { make_mesh(kind, level, o[i]); }); for (auto& x : t) x.join(); }
    pause_faults(false); set_step_limit(1ull << 60); bool clean = destructive_fired() == d0; threads_gone("making a mesh");
    for (int i = 0; i < n; i++) { log("make %d %d -> %s", kind, level, o[i].how.c_str()); note("make:" + l[1] + ":" + o[i].how + (clean ? "" : ":f"));
        if (o[i].ok) { auto d = mm::diff(want.m, o[i].m); if (!d.empty()) violation("mesh", "generated mesh: " + d); probe("generated_mesh_compared"); } else if (clean || strict) violation("refused", "mesh generator: no fault, but " + o[i].how); }
}
static void load_op(const Line& l, bool strict) { op_load(l, strict || destructive_fired() == 0, true); }
// two callers load two files at the same time
static void op_pload(const Line& l) { // pload nameA fmtA nameB fmtB
    int fa = mm::fmt_of(l[2]), fb = mm::fmt_of(l[4]); auto pa = path_of(l[1], fa), pb = path_of(l[3], fb); std::unique_ptr<IHolder> ha(make_holder(fa)), hb(make_holder(fb)); bool oa = false, ob = false;
    if (!fs_exists(pa) || !fs_exists(pb)) return;
    set_step_limit(budget(fs_read(pa)) + budget(fs_read(pb)));
    { Sut s; std::thread a([&] { try { oa = ha->load(pa, 1, 0); } catch (const std::exception&) {} }), b([&] { try { ob = hb->load(pb, 0, 0); } catch (const std::exception&) {} }); a.join(); b.join(); }
    set_step_limit(1ull << 60); threads_gone("two loads");
    for (int k = 0; k < 2; k++) { bool ok = k ? ob : oa; auto& h = k ? *hb : *ha; auto ref = mm::reference(k ? fb : fa, fs_read(k ? pb : pa)); if (!ok) violation("refused", "concurrent load of a complete file failed"); Model got = h.get(0); auto d = mm::diff(ref.m, got); if (!d.empty()) violation("mesh", "concurrent load: " + d); probe("concurrent_load_compared"); }
    note("pload:" + l[2] + ":" + l[4]);
}
static const int THR[] = {mm::NETGEN2, mm::NETGEN3, mm::QUAD, mm::HEX};
static void gen_ops(Rng& r, Plan& p, int tier, bool conc) {
    switch (r.below(8)) {
    case 0: case 1: case 2: case 3: { int f = THR[r.below(4)]; gen_file(r, p, "t", f, tier, r.chance(0.1)); p.put("load", "t", mm::fmt_name[f], r.below(2), r.below(2)); break; }
    case 4: { int f = pick_fmt(r); gen_file(r, p, "t", f, tier); p.put("load", "t", mm::fmt_name[f], r.below(2), r.below(2)); break; }
    case 5: p.put("make", r.below(5), r.below(3), conc ? r.range(1, 2) : 1); break;
    default: if (conc) { int a = THR[r.below(4)], b = THR[r.below(4)]; gen_file(r, p, "a", a, 0); gen_file(r, p, "b", b, 0); p.put("pload", "a", mm::fmt_name[a], "b", mm::fmt_name[b]); } else gen_ops(r, p, tier, conc); }
}
static Plan gen07(Rng& r, int tier) { Plan p; base(r, p); int n = (int)r.range(1, 2); for (int i = 0; i < n; i++) gen_ops(r, p, tier, true); return p; }
static void place07(Rng& r, Plan& p, const Counts& c) { add_preempts(r, p, c, 9); if (r.chance(0.2)) add_fault(r, p, c, "read", RD_BENIGN); }
static void exec07(const Plan& p) {
    for (auto& l : p.lines) { if (l[0] == "file") op_file(l); if (l[0] == "load") load_op(l, true); if (l[0] == "make") op_make(l, true); if (l[0] == "pload") op_pload(l); }
    finish_load();
}
static Plan gen08(Rng& r, int tier) { Plan p; base(r, p); int n = (int)r.range(1, 2); for (int i = 0; i < n; i++) gen_ops(r, p, tier, false); return p; }
static void place08(Rng& r, Plan& p, const Counts& c) {
    int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) { if (r.chance(0.6)) add_fault(r, p, c, "thread", EAGAIN_); else add_fault(r, p, c, "alloc", {{"enomem", 0}}); }
    add_preempts(r, p, c, 4);
}
static void exec08(const Plan& p) {
    for (auto& l : p.lines) { if (l[0] == "file") op_file(l); if (l[0] == "load") load_op(l, false); if (l[0] == "make") op_make(l, false); }
    clear_faults();
    for (auto& l : p.lines) { if (l[0] == "file") op_file(l); if (l[0] == "load") load_op(l, true); if (l[0] == "make") op_make(l, true); }
    probe("repeated_without_faults"); finish_load();
}
static struct Reg { Reg() { register_prop({"C07", gen07, place07, exec07}); register_prop({"C08", gen08, place08, exec08}); } } reg;
