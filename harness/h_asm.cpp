// Global assembly by worker tasks in any order, with aborted and repeated rounds: C10
#include "../sim/rt.hpp"
#include "mesh_model.hpp"
#include "asm_api.hpp"
#include <cmath>
#include <memory>
#include <mutex>
#include <thread>
#include <set>
#include <algorithm>
#include <stdexcept>
#include <new>
using namespace sim; using namespace as;
static const char* kind_name[] = {"diffusion", "diffusion_bnd", "stokes", "stokes_alg", "stokes_split", "mechanics", "mechanics_nl", "scalar", "vector", "vector_degrees", "vector_nl", "vmech", "vmech_degrees", "basic", "basic_list", "dg", "dg_eig"};
static const MeshKind& mesh_kind(int k) { switch (k) { case 0: return tri(); case 1: return poly2(); case 2: return tet(); case 3: return hex(); default: return quad(); } }
static bool is_vec(int k) { return (k >= STOKES && k <= MECH_NL) || (k >= VECTOR && k <= MECHANICS_DEG); }
static bool is_stokes(int k) { return k == STOKES || k == STOKES_ALG || k == STOKES_SPLIT; }
static bool is_nl(int k) { return k == MECH_NL || k == VECTOR_NL || k == MECHANICS || k == MECHANICS_DEG; }
static bool is_mech(int k) { return k == MECH || k == MECH_NL || (k >= VECTOR && k <= MECHANICS_DEG); }
static bool is_deg(int k) { return k == VECTOR_DEG || k == MECHANICS_DEG; }
static bool is_fbnd(int k) { return k == DIFF_BND || k == SCALAR || is_mech(k); }   // boundary conditions that may change between rounds
struct Boom {};
static uint64_t g_funs = 0;

// ------------------------------------------------------------------ the model: dense bookkeeping, nothing compressed
typedef std::map<std::pair<size_t, size_t>, double> Sparse;
struct Cond { bool dir = false, neu = false, rob = false, contact = false; int type = 0, dfn = 0, nfn = 0, rfn = 0; };
struct Model {
    const Setup* s; Asm* a; double fac = 1; std::vector<Cond> cond; std::vector<int> deg; std::vector<size_t> nd, first, off; size_t N = 0, cb = 0, pb = 0, pres = 0, mult = 0; std::vector<Vec> g, solF, phi;
    std::vector<std::vector<char>> free_; int dim;
    bool full(const Cond& c) const { return c.dir && (c.type == 0 || c.type == 1); }
    bool imposed(const Cond& c, size_t comp) const {   // DirichletType: 0 all, 1 clamped, 2 x, 3 y, 4 z, 5 xy, 6 xz, 7 yz
        if (!c.dir || c.contact) return false; static const int m[] = {7, 7, 1, 2, 4, 3, 5, 6}; return m[c.type] >> comp & 1;
    }
    void conditions() {
        int k = s->kind; cond.assign(a->faces, Cond());
        for (size_t f = 0; f < a->faces; f++) { Cond& c = cond[f];
            if (k == BASIC) c.dir = a->bnd[f] && !a->internal[f]; else if (k == BASIC_LIST) c.dir = s->dirichlet[f]; else if (k == DIFF_FUN) { c.dir = a->bnd[f]; c.dfn = 0; }
            else if (a->bnd[f]) for (auto& b : s->bcs) { if (b.what == EVERYWHERE) { c.dir = true; c.type = 0; c.dfn = b.fn; } else if (b.id == a->bid[f]) switch (b.what) { case DIRICHLET: c.dir = true; c.type = b.type; c.dfn = b.fn; break; case NEUMANN: c.neu = true; c.nfn = b.fn; break; case ROBIN: c.rob = true; c.rfn = b.fn; break; case CONTACT: c.contact = true; break; } } }
    }
    void number() {
        int k = s->kind; dim = (int)a->dim; bool v = is_vec(k); nd.clear(); first.clear(); off.clear(); free_.clear(); deg.clear(); size_t n = 0, o = 0;
        if (k == DG || k == DG_EIG) { N = a->cells * s->cbs; return; }
        if (is_stokes(k)) { cb = a->cell_size(s->cd, true); pb = a->cell_size(s->fd, false); n = cb * a->cells; }
        for (size_t f = 0; f < a->faces; f++) {
            int d = is_deg(k) ? s->fdeg[f] : s->fd + (is_mech(k) && k >= VECTOR && cond[f].contact); deg.push_back(d); nd.push_back(d < 0 ? 0 : a->face_size(d, v)); first.push_back(n); off.push_back(o); o += nd[f];
            std::vector<char> fr; for (size_t i = 0; i < nd[f]; i++) { bool im = v ? imposed(cond[f], i % dim) : cond[f].dir; fr.push_back(!im); n += !im; } free_.push_back(fr);
        }
        if (is_stokes(k)) { pres = n; n += pb * a->cells; mult = n; n += 1; phi.clear(); for (size_t c = 0; c < a->cells; c++) phi.push_back(a->integrals(c, s->fd)); }
        N = n;
    }
    // prescribed values of every face, where something is prescribed
    void values() {
        int k = s->kind; g.assign(a->faces, {}); if (k == DG || k == DG_EIG) return; bool v = is_vec(k);
        for (size_t f = 0; f < a->faces; f++) { Vec x(nd[f], 0.0); auto& c = cond[f]; if (c.dir && nd[f] && k != BASIC && k != BASIC_LIST && c.type != 1) { x = a->project(f, c.dfn, deg[f], s->di, v); for (auto& y : x) y *= fac; } if (is_nl(k)) for (size_t i = 0; i < nd[f]; i++) x[i] -= solF[f][i]; g[f] = x; }
    }
    struct Loc { std::vector<long> id; Vec d; };
    Loc local(size_t c) const {
        Loc l; if (s->kind == DG || s->kind == DG_EIG) { for (int i = 0; i < s->cbs; i++) { l.id.push_back((long)(c * s->cbs + i)); l.d.push_back(0); } return l; }
        if (is_stokes(s->kind)) for (size_t i = 0; i < cb; i++) { l.id.push_back((long)(c * cb + i)); l.d.push_back(0); }
        for (size_t f : a->cell_faces[c]) { size_t q = first[f]; for (size_t i = 0; i < nd[f]; i++) { l.id.push_back(free_[f][i] ? (long)q++ : -1); l.d.push_back(free_[f][i] ? 0 : g[f][i]); } }
        return l;
    }
};
struct State { Sparse trip, lhs; Sparse gm_trip, gm; Vec rhs, rd; };
static void add(const Model& m, State& st, const Piece& p) {
    int k = m.s->kind; auto l = m.local(p.c1);
    if (p.pair) { auto r = m.local(p.c2); for (size_t i = 0; i < p.n; i++) for (size_t j = 0; j < p.n; j++) st.trip[{(size_t)l.id[i], (size_t)r.id[j]}] += p.L[i * p.n + j]; return; }
    auto& T = k == DG_EIG ? st.gm_trip : st.trip; Vec& R = k == STOKES_SPLIT ? st.rd : st.rhs;
    if (!p.L.empty()) for (size_t i = 0; i < p.n; i++) if (l.id[i] >= 0) for (size_t j = 0; j < p.n; j++) { double v = p.L[i * p.n + j]; if (l.id[j] >= 0) T[{(size_t)l.id[i], (size_t)l.id[j]}] += v; else R[l.id[i]] -= v * l.d[j]; }
    if (!p.r.empty()) for (size_t i = 0; i < (k == STOKES ? m.cb : p.n); i++) if (l.id[i] >= 0) st.rhs[l.id[i]] += p.r[i];
    if (is_stokes(k) && !p.L.empty()) {
        for (size_t i = 0; i < p.nb; i++) { size_t gi = m.pres + m.pb * p.c1 + i; for (size_t j = 0; j < p.n; j++) { double v = p.B[i * p.n + j]; if (l.id[j] >= 0) { T[{gi, (size_t)l.id[j]}] += v; T[{(size_t)l.id[j], gi}] += v; } else R[gi] -= v * l.d[j]; } T[{gi, m.mult}] += m.phi[p.c1][i]; T[{m.mult, gi}] += m.phi[p.c1][i]; }
    }
}
static void add_neumann(const Model& m, State& st) { for (size_t f = 0; f < m.a->faces; f++) if (m.cond[f].neu && m.nd[f]) { auto v = m.a->neumann(f, m.cond[f].nfn, m.deg[f], m.s->di, is_vec(m.s->kind)); size_t q = m.first[f]; for (size_t i = 0; i < m.nd[f]; i++) if (m.free_[f][i]) st.rhs[q++] += m.fac * v[i]; } }
static void add_robin(const Model& m, State& st) { for (size_t f = 0; f < m.a->faces; f++) if (m.cond[f].rob) { auto v = m.a->neumann(f, m.cond[f].rfn, m.deg[f], m.s->di, false), M = m.a->mass(f, m.deg[f]); size_t n = m.nd[f]; for (size_t i = 0; i < n; i++) { st.rhs[m.first[f] + i] += m.fac * v[i]; for (size_t j = 0; j < n; j++) st.trip[{m.first[f] + i, m.first[f] + j}] += M[i * n + j]; } } }

// ------------------------------------------------------------------ plans
// mesh kind seed nx ny nz | asm kind fd cd di cbs seed | bc what type slot fn | round init content order workers upto neumann robin factor how
static Plan gen(Rng& r, int tier) {
    Plan p; p.cfg("sched_seed", r.below(1u << 30)); p.cfg("heap_mb", 96); int mk = (int)r.below(5), k = (int)r.below(KINDS); bool d3 = mk == 2 || mk == 3, st = is_stokes(k);
    int fd = (int)r.below(d3 ? (st ? 1 : 2) : (st ? 2 : 3)), cd = fd + (int)r.below(2); int big = tier && !d3 && fd < 2 ? 1 : 0;
    p.put("mesh", mk, r.below(1000000), mk == 1 && r.chance(0.5) ? 0 : r.range(1, (d3 ? 1 : 2) + big), r.range(1, d3 ? 1 : 2), d3 && mk == 3 ? r.range(1, 2) : 1);
    p.put("asm", k, fd, cd, r.range(1, 2), r.range(1, 3), r.below(1000000));
    if (is_fbnd(k) || st) { int n = (int)r.range(0, 6); if (n && r.chance(0.25)) p.put("bc", EVERYWHERE, 0, 0, r.below(9));
        for (int i = 0; i < n; i++) { int what = st ? DIRICHLET : is_mech(k) ? (r.chance(0.5) ? DIRICHLET : r.chance(0.7) ? NEUMANN : CONTACT) : (int)r.below(3); static const int t2[] = {0, 1, 2, 3, 5}; int type = !is_mech(k) ? 0 : d3 ? (int)r.below(8) : t2[r.below(5)]; p.put("bc", what, type, r.below(6), r.below(9)); } }
    int n = (int)r.range(1, tier ? 5 : 3);
    for (int i = 0; i < n; i++) p.put("round", r.chance(0.45) ? 0 : r.below(4), r.below(1u << 30), r.below(1u << 30), r.range(1, 4), r.chance(0.25) ? r.below(1000) : 1000, r.chance(0.7), r.chance(0.7), r.chance(0.3) ? r.range(1, 4) : 0, r.below(3));
    return p;
}
static void place(Rng& r, Plan& p, const Counts& c) {
    int n = r.chance(0.55) ? (int)r.range(1, 3) : 0; auto at = [&](const char* k) { return r.range(1, std::max<int64_t>(1, (int64_t)c.of(k))); };
    for (int i = 0; i < n; i++) { if (c.of("fun") && r.chance(0.5)) p.put("fault", "fun", at("fun"), "throw", 0); else p.put("fault", "alloc", at("alloc"), "enomem", 0); }
    if (c.of("mtstep")) { int m = (int)r.below(5); for (int i = 0; i < m; i++) p.put("preempt", at("mtstep"), r.below(1000)); }
}
// ------------------------------------------------------------------ execution
static void near(double got, double want, double scale, const char* cls, const std::string& what) { if (!(std::fabs(got - want) <= 1e-10 * (1 + scale))) violation(cls, what + ": " + std::to_string(got) + " instead of " + std::to_string(want)); }
static double top(const Vec& v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
static void compare(const Sparse& got, const Sparse& want, size_t N, const std::string& what) {
    double sc = 0; for (auto& [k, v] : want) sc = std::max(sc, std::fabs(v)); for (auto& [k, v] : got) if (k.first >= N || k.second >= N) violation("matrix", what + " has an entry outside");
    for (auto& [k, v] : want) { auto i = got.find(k); near(i == got.end() ? 0 : i->second, v, sc, "matrix", what); } for (auto& [k, v] : got) if (!want.count(k)) near(v, 0, sc, "matrix", what + " (nothing belongs there)");
}
static void exec(const Plan& p) {
    const Line* ml = nullptr; const Line* al = nullptr; for (auto& l : p.lines) { if (l[0] == "mesh") ml = &l; if (l[0] == "asm") al = &l; } if (!ml || !al) return;
    auto num = [](const Line& l, size_t i) { return i < l.size() ? toi(l[i]) : 0; };
    int mk = (int)num(*ml, 1); static const int fmt[] = {mm::NETGEN2, mm::FVCA5, mm::NETGEN3, mm::HEX, mm::QUAD}; std::unique_ptr<Asm> a; pause_faults(true);
    { bool hexm = mk == 1 && num(*ml, 3) == 0; if (!hexm) fs_write("/sim/m", mm::make_file(fmt[mk], (uint64_t)num(*ml, 2), (int)num(*ml, 3), (int)num(*ml, 4), (int)num(*ml, 5), 0)); Sut s; try { a.reset(mesh_kind(mk).make("/sim/m", hexm ? 0 : -1)); } catch (const std::exception&) {} }
    if (!a) { probe("mesh_not_built"); return; }
    Setup s; s.kind = (int)num(*al, 1); s.fd = (int)num(*al, 2); s.cd = (int)num(*al, 3); s.di = (int)num(*al, 4); s.cbs = (int)num(*al, 5); Rng ar((uint64_t)num(*al, 6)); int k = s.kind;
    std::set<size_t> idset; for (size_t f = 0; f < a->faces; f++) if (a->bnd[f]) idset.insert(a->bid[f]); std::vector<size_t> ids(idset.begin(), idset.end());
    // conditions that contradict each other are left out
    if (is_fbnd(k) || is_stokes(k)) { std::map<size_t, std::set<int>> on; bool all = false; for (int pass = 0; pass < 2; pass++) for (auto* l : p.all("bc")) { BC b{(int)num(*l, 1), (int)num(*l, 2), ids.empty() ? 0 : ids[num(*l, 3) % ids.size()], (int)num(*l, 4)};
        if (ids.empty()) continue; bool dir = b.what == DIRICHLET || b.what == EVERYWHERE; if (dir != (pass == 0)) continue; if (a->dim == 2 && (b.type == 4 || b.type > 5)) continue; auto& o = on[b.id];
        if (b.what == EVERYWHERE) { all = true; o.clear(); } else if (b.what == DIRICHLET) { o.erase(0); o.erase(1); o.insert(b.type > 1 ? 1 : 0); }
        else { bool fully = o.count(0) || (all && !o.count(1)); bool part = o.count(1); if (b.what == NEUMANN && (fully || o.count(12))) continue; if (b.what == ROBIN && (fully || part || o.count(11) || is_mech(k))) continue; if (b.what == CONTACT && (fully || part || !is_mech(k) || k < VECTOR || is_deg(k))) continue; o.insert(b.what == NEUMANN ? 11 : 12); }
        s.bcs.push_back(b); } }
    bool hasN = false, hasR = false; for (auto& b : s.bcs) { hasN |= b.what == NEUMANN; hasR |= b.what == ROBIN; }
    Model m; m.s = &s; m.a = a.get(); if (k == BASIC_LIST) for (size_t f = 0; f < a->faces; f++) s.dirichlet.push_back(ar.chance(0.3));
    m.conditions(); if (is_deg(k)) for (size_t f = 0; f < a->faces; f++) s.fdeg.push_back(!m.cond[f].dir && !m.cond[f].neu && ar.chance(0.1) ? -1 : std::max(0, s.fd - (int)ar.below(2)));
    { Sut q; m.number(); }
    a->on_fun = [] { g_funs++; if (fault_point("fun") == "throw") throw Boom(); }; g_funs = 0;
    pause_faults(false);
    // what was thrown: "" nothing, otherwise only after a fault
    auto call = [&](const char* what, auto f) -> bool { uint64_t d0 = faults_fired(); std::string how; set_step_limit(400000000ull); try { Sut q; f(); } catch (const std::bad_alloc&) { how = "bad_alloc"; } catch (const Boom&) { how = "boundary function"; } catch (const std::exception& e) { how = e.what(); } set_step_limit(1ull << 60);
        if (how.empty()) return true; if (faults_fired() == d0) violation("exception", std::string(kind_name[k]) + " " + what + " threw: " + how); note(std::string(what) + "!"); log("%s: %s", what, how.c_str()); return false; };
    State st; bool have = false, dirty = true; int rounds = 0; auto lines = p.all("round"); Line last{"round", "0", "777", "778", "2", "1000", "1", "1", "0", "0"}; lines.push_back(&last);
    auto reset = [&] { st = State(); st.rhs.assign(m.N, 0.0); st.rd.assign(m.N, 0.0); };
    auto bcs = [&] { return call("boundary", [&] { a->boundary(s); if (m.fac != 1) a->factor(m.fac); }); };
    bool havebc = false;
    for (auto* l : lines) {
        bool end = l == &last; if (end) clear_faults(); rounds++; int init = (int)num(*l, 1); Rng cr((uint64_t)num(*l, 2)), orr((uint64_t)num(*l, 3)); int workers = (int)std::max<int64_t>(1, num(*l, 4)); int64_t upto = num(*l, 5); bool neu = num(*l, 6) && hasN, rob = num(*l, 7) && hasR; int fac = (int)num(*l, 8), how = (int)num(*l, 9);
        if (!havebc) { if (!(havebc = bcs())) continue; }
        if (fac && is_fbnd(k)) { m.fac = fac * 0.5; a->factor(m.fac); }
        // start of the round: re-initialize or construct anew
        bool fresh = !have || init == 3; bool done = false;
        if (!fresh) { if (dirty && init != 0) init = 0; bool inited = false; if (!call("initialize", [&] { inited = a->init(init); })) { dirty = true; have = false; continue; }
            if (!inited && !dirty) { init = 2; if (!call("initialize", [&] { inited = a->init(2); })) { have = false; continue; } }
            if (inited) { done = true; dirty = false; if (init != 2) { st.trip.clear(); st.lhs.clear(); st.rd.assign(m.N, 0.0); } if (init != 1) st.rhs.assign(m.N, 0.0); probe(init == 0 ? "round_after_initialize" : init == 1 ? "round_after_initialize_lhs" : "round_after_initialize_rhs"); if (init == 0 && rounds > 1) probe("full_reinitialization"); } }
        if (!done) { reset(); init = 0; if (!call("construct", [&] { a->construct(s); })) { have = false; continue; } have = true; dirty = false; }
        if (a->size() != m.N) violation("size", std::string(kind_name[k]) + " has a system of size " + std::to_string((long)a->size()) + " instead of " + std::to_string(m.N));
        // contributions
        if (is_nl(k)) { m.solF.clear(); for (size_t f = 0; f < a->faces; f++) { Vec v(m.nd[f]); for (auto& x : v) x = (double)cr.range(-3, 3); m.solF.push_back(v); } pause_faults(true); a->solF(m.solF); pause_faults(false); }
        pause_faults(true); { Sut q; m.values(); } std::vector<Piece> pieces; bool dolhs = k != STOKES_SPLIT || init != 2, dorhs = k != STOKES_SPLIT || init != 1;
        for (size_t c = 0; c < a->cells; c++) { Piece q; q.c1 = c; if (k == DG || k == DG_EIG) q.n = s.cbs; else { if (is_stokes(k)) { q.n = m.cb; q.nb = m.pb; } for (size_t f : a->cell_faces[c]) q.n += m.nd[f]; } auto rnd = [&](size_t n) { Vec v(n); for (auto& x : v) x = (double)cr.range(-4, 4); return v; };
            if (dolhs) { q.L = rnd(q.n * q.n); q.B = rnd(q.nb * q.n); } if (dorhs) q.r = rnd(q.n); if (q.n) pieces.push_back(q);
            if (k == DG || k == DG_EIG) { std::set<size_t> mine(a->cell_faces[c].begin(), a->cell_faces[c].end()); for (size_t e = 0; e < a->cells; e++) { bool nb = e == c && k == DG_EIG; if (e != c) for (size_t f : a->cell_faces[e]) nb |= mine.count(f); if (nb) { Piece w; w.c1 = c; w.c2 = e; w.pair = true; w.n = s.cbs; w.L = rnd(w.n * w.n); w.r = {}; pieces.push_back(w); } } } }
        pause_faults(false);
        std::vector<int> order; for (size_t i = 0; i < pieces.size(); i++) order.push_back((int)i); if (neu) order.push_back(-1); if (rob) order.push_back(-2);
        if (how != 2) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[orr.below(i)]); else std::reverse(order.begin(), order.end());
        if (end) upto = 1000; size_t take = upto >= 1000 ? order.size() : order.size() * (size_t)std::max<int64_t>(0, upto) / 1000; bool part = take < order.size(); order.resize(take);
        // worker tasks hand them in, one at a time, in the order the scheduler decides
        std::mutex mx; bool failed = false; std::string odd; uint64_t d0 = faults_fired(); std::vector<int> seq; seq.reserve(order.size() + 1); if (spawned_threads() + (uint64_t)workers > 26) workers = 1;
        auto work = [&](int w) { for (size_t i = (size_t)w; i < order.size(); i += (size_t)workers) { std::lock_guard<std::mutex> g(mx); if (failed) return; int o = order[i]; seq.push_back(o); try { if (o == -1) a->neumann(); else if (o == -2) a->robin(); else a->assemble(pieces[(size_t)o]); } catch (const std::bad_alloc&) { failed = true; } catch (const Boom&) { failed = true; } catch (const std::exception& e) { Harness h; failed = true; odd = e.what(); } } };
        set_step_limit(1500000000ull);
        if (workers == 1) { Sut q; work(0); } else { std::vector<std::thread> th; std::vector<int> left; th.reserve((size_t)workers); left.reserve((size_t)workers); Sut q; for (int w = 0; w < workers; w++) try { th.emplace_back(work, w); } catch (const std::bad_alloc&) { left.push_back(w); } for (auto& t : th) t.join(); for (int w : left) work(w); }
        set_step_limit(1ull << 60); uint64_t h = 0; for (int o : seq) h = h * 1000003 + (uint64_t)(o + 7); log("round %d kind %s init %d workers %d pieces %zu of %zu order %llx failed %d", rounds, kind_name[k], init, workers, seq.size(), order.size(), (unsigned long long)h, (int)failed); note(std::string(kind_name[k]) + mesh_kind(mk).name + std::to_string(init) + (failed ? "F" : "") + (part ? "P" : "") + (neu ? "n" : "") + (rob ? "r" : ""));
        if (failed && (!odd.empty() || faults_fired() == d0)) violation("exception", std::string(kind_name[k]) + " refused a contribution: " + odd);
        if (failed) { dirty = true; probe("round_failed"); continue; }
        if (part) { dirty = true; probe("round_aborted"); continue; }
        if (!call("finalize", [&] { a->finalize(dolhs && dorhs ? 0 : dolhs ? 1 : 2); })) { dirty = true; continue; }
        // the model takes the same contributions in the order of the cells
        pause_faults(true); for (auto& q : pieces) add(m, st, q); { Sut q; if (neu) add_neumann(m, st); if (rob) add_robin(m, st); }
        if (dolhs) { st.lhs = st.trip; st.trip.clear(); st.gm = st.gm_trip; st.gm_trip.clear(); } if (k == STOKES_SPLIT && dorhs) for (size_t i = 0; i < m.N; i++) st.rhs[i] += st.rd[i];
        Sparse got, gm; Vec R; { Sut q; a->lhs(got, 0); if (k == DG_EIG) a->lhs(gm, 1); R = a->rhs(); } pause_faults(false);
        std::string nm = std::string(kind_name[k]) + " on " + mesh_kind(mk).name + ": ";
        compare(got, st.lhs, m.N, nm + "an entry of the matrix"); if (k == DG_EIG) compare(gm, st.gm, m.N, nm + "an entry of the second matrix");
        if (k != DG_EIG) { if (R.size() != m.N) violation("size", nm + "right-hand side"); double sc = top(st.rhs); for (size_t i = 0; i < m.N; i++) near(R[i], st.rhs[i], sc, "rhs", nm + "an entry of the right-hand side"); }
        probe("systems_compared"); if (seq.size() > 1) probe("rounds_with_several_contributions");
        // local solutions
        if (k == DG || k == DG_EIG) continue; Vec x(m.N); for (auto& y : x) y = (double)cr.range(-9, 9);
        if (k != MECH_NL) for (size_t c = 0; c < a->cells; c++) {
            Vec v, w; auto ll = m.local(c); int face = (int)cr.below(2) * 2; if (!call("take_local", [&] { v = a->take(c, x, face); if (is_stokes(k)) w = a->take(c, x, 1); })) continue;
            if (v.size() != ll.id.size()) violation("local", nm + "a local solution of size " + std::to_string(v.size())); double sc = top(ll.d) + 9;
            for (size_t i = 0; i < v.size(); i++) near(v[i], ll.id[i] >= 0 ? x[(size_t)ll.id[i]] : ll.d[i], sc, "local", nm + "a local solution");
            if (is_stokes(k)) for (size_t i = 0; i < m.pb; i++) if (w.size() != m.pb || w[i] != x[m.pres + c * m.pb + i]) violation("local", nm + "a local pressure"); }
        Vec e; bool ex = false; if (call("expand", [&] { ex = a->expand(x, e); }) && ex) { size_t tot = 0; for (size_t f = 0; f < a->faces; f++) tot += m.nd[f]; if (e.size() != tot) violation("local", nm + "the expanded solution has another size");
            for (size_t f = 0; f < a->faces; f++) { size_t q = m.first[f]; for (size_t i = 0; i < m.nd[f]; i++) near(e[m.off[f] + i], m.free_[f][i] ? x[q++] : m.g[f][i], top(m.g[f]) + 9, "local", nm + "the expanded solution"); } }
        probe("solutions_extracted");
    }
    { Sut q; pause_faults(true); a.reset(); pause_faults(false); }
    if (live_threads() || unjoined_threads()) violation("thread", "a task is left");
    std::string what; if (ledger_errors(&what)) violation("resource", what);
}
static struct Reg { Reg() { register_prop({"C10", gen, place, exec}); } } reg;
