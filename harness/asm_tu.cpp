// MESH: 0 simplicial 2D, 1 polygonal 2D, 2 simplicial 3D, 3 cartesian 3D, 4 cartesian 2D
#include <iostream>
#include <fstream>
#include <memory>
#include <numeric>
#include <algorithm>
#include "asm_api.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/loaders/loader.hpp"
#include "diskpp/methods/hho"
#include "diskpp/methods/hho_assemblers.hpp"
#include "diskpp/methods/hho_slapl.hpp"
#include "diskpp/methods/implementation_dg/assembler.hpp"
namespace as {
#if MESH == 0
typedef disk::simplicial_mesh<double, 2> M;
#define NAME tri
#elif MESH == 1
typedef disk::generic_mesh<double, 2> M;
#define NAME poly2
#elif MESH == 2
typedef disk::simplicial_mesh<double, 3> M;
#define NAME tet
#elif MESH == 3
typedef disk::cartesian_mesh<double, 3> M;
#define NAME hex
#else
typedef disk::cartesian_mesh<double, 2> M;
#define NAME quad
#endif
namespace {
using namespace disk;
constexpr int D = M::dimension;
typedef M::cell_type C; typedef M::face_type F; typedef M::point_type P; typedef dynamic_matrix<double> Mat; typedef dynamic_vector<double> Vd; typedef static_vector<double, D> SV;
typedef scalar_boundary_conditions<M> SB; typedef vector_boundary_conditions<M> VB;
typedef hho::slapl::hho_space<M>::face_basis_type FBT;
Vd in(const Vec& v) { Vd r(v.size()); for (size_t i = 0; i < v.size(); i++) r(i) = v[i]; return r; }
Mat in(const Vec& v, size_t n, size_t m) { if (v.size() != n * m) return Mat(); Mat r(n, m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) r(i, j) = v[i * m + j]; return r; }
template<class V> Vec out(const V& v) { Vec r(v.size()); for (Eigen::Index i = 0; i < v.size(); i++) r[i] = v(i); return r; }
struct Impl : Asm {
    M msh; Setup s; std::unique_ptr<SB> sb; std::unique_ptr<VB> vb; std::vector<Vd> sF;
    std::unique_ptr<diffusion_condensed_assembler<M>> diff; std::unique_ptr<stokes_assembler<M>> st; std::unique_ptr<stokes_assembler_alg<M>> sa; std::unique_ptr<assembler_mechanics<M>> me; std::unique_ptr<scalar_primal_hho_assembler<M>> sc;
    std::unique_ptr<vector_primal_hho_assembler<M>> ve; std::unique_ptr<vector_mechanics_hho_assembler<M>> vm; std::unique_ptr<hho::basic_condensed_assembler<M, FBT>> ba; std::unique_ptr<discontinuous_galerkin_assembler<M, double>> dg; std::unique_ptr<discontinuous_galerkin_eigenvalue_assembler<M>> eg;
    C cell(size_t i) { return *std::next(msh.cells_begin(), i); } F face(size_t i) { return *std::next(msh.faces_begin(), i); }
    double sval(int fn, const P& p) { if (on_fun) on_fun(); double x[3], f; for (int d = 0; d < D; d++) x[d] = p.at(d); as::fun(fn, x, D, &f, 1); return f; }
    SV vval(int fn, const P& p) { if (on_fun) on_fun(); double x[3], f[3]; for (int d = 0; d < D; d++) x[d] = p.at(d); as::fun(fn, x, D, f, D); SV v; for (int d = 0; d < D; d++) v(d) = f[d]; return v; }
    bool vec() const { return s.kind != DIFF_FUN && s.kind != DIFF_BND && s.kind != SCALAR && s.kind < BASIC; }
    void geometry() {
        cells = msh.cells_size(); faces = msh.faces_size(); dim = D; for (auto& cl : msh) { std::vector<size_t> v; for (auto& f : disk::faces(msh, cl)) v.push_back(msh.lookup(f)); cell_faces.push_back(v); }
        for (size_t i = 0; i < faces; i++) { auto b = msh.boundary_info(face(i)); bnd.push_back(b.is_boundary()); internal.push_back(b.is_internal()); bid.push_back(b.is_boundary() ? msh.boundary_id(face(i)) : 0); }
    }
    size_t face_size(int d, bool v) override { return v ? vector_basis_size(d, D - 1, D) : scalar_basis_size(d, D - 1); }
    size_t cell_size(int d, bool v) override { return v ? vector_basis_size(d, D, D) : scalar_basis_size(d, D); }
    Vec project(size_t f, int fn, int deg, int di, bool v) override { F fc = face(f); if (v) return out(Vd(project_function(msh, fc, (size_t)deg, [&](const P& p) { return vval(fn, p); }, (size_t)di))); return out(Vd(project_function(msh, fc, (size_t)deg, [&](const P& p) { return sval(fn, p); }, (size_t)di))); }
    Vec neumann(size_t f, int fn, int deg, int di, bool v) override { F fc = face(f); if (v) { auto b = make_vector_monomial_basis(msh, fc, deg); return out(Vd(make_rhs(msh, fc, b, [&](const P& p) { return vval(fn, p); }, di))); } auto b = make_scalar_monomial_basis(msh, fc, deg); return out(Vd(make_rhs(msh, fc, b, [&](const P& p) { return sval(fn, p); }, di))); }
    Vec mass(size_t f, int deg) override { F fc = face(f); auto b = make_scalar_monomial_basis(msh, fc, deg); Mat m = make_mass_matrix(msh, fc, b); Vec r; for (Eigen::Index i = 0; i < m.rows(); i++) for (Eigen::Index j = 0; j < m.cols(); j++) r.push_back(m(i, j)); return r; }
    Vec integrals(size_t c, int deg) override { C cl = cell(c); auto b = make_scalar_monomial_basis(msh, cl, deg); Vd m = Vd::Zero(b.size()); for (auto& q : integrate(msh, cl, deg)) m += q.weight() * b.eval_functions(q.point()); return out(m); }
    bool fails() override { return false; }
    void boundary(const Setup& q) override {
        s = q; sb.reset(new SB(msh)); vb.reset(new VB(msh));
        for (auto& b : s.bcs) { int fn = b.fn; auto fs = [this, fn](const P& p) { return sval(fn, p); }; auto fv = [this, fn](const P& p) { return vval(fn, p); };
            if (vec()) switch (b.what) { case DIRICHLET: vb->addDirichletBC((size_t)b.type, b.id, fv); break; case NEUMANN: vb->addNeumannBC(disk::NEUMANN, b.id, fv); break; case CONTACT: vb->addContactBC(SIGNORINI_FACE, b.id); break; case EVERYWHERE: vb->addDirichletEverywhere(fv); break; }
            else switch (b.what) { case DIRICHLET: sb->addDirichletBC(disk::DIRICHLET, b.id, fs); break; case NEUMANN: sb->addNeumannBC(disk::NEUMANN, b.id, fs); break; case ROBIN: sb->addRobinBC(disk::ROBIN, b.id, fs); break; case EVERYWHERE: sb->addDirichletEverywhere(fs); break; } }
    }
    void factor(double f) override { sb->multiplyAllFunctionsByAFactor(f); vb->multiplyAllFunctionsByAFactor(f); }
    MeshDegreeInfo<M> degrees() { MeshDegreeInfo<M> d(msh, s.cd, s.fd); for (size_t f = 0; f < s.fdeg.size() && f < faces; f++) { auto fc = face(f); if (s.fdeg[f] < 0) d.hasUnknowns(msh, fc, false); else d.degree(msh, fc, s.fdeg[f]); } return d; }
    void construct(const Setup& q) override {
        hho_degree_info h(s.cd, s.fd);
        switch (s.kind) {
            case DIFF_FUN: diff.reset(new auto(make_diffusion_assembler(msh, h))); break; case DIFF_BND: diff.reset(new auto(make_diffusion_assembler(msh, h, *sb))); break;
            case STOKES: case STOKES_ALG: st.reset(new auto(make_stokes_assembler(msh, h, *vb))); break; case STOKES_SPLIT: sa.reset(new auto(make_stokes_assembler_alg(msh, h, *vb))); break;
            case MECH: case MECH_NL: me.reset(new auto(make_mechanics_assembler(msh, h, *vb))); break; case SCALAR: sc.reset(new auto(make_scalar_primal_hho_assembler(msh, h, *sb))); break;
            case VECTOR: case VECTOR_NL: ve.reset(new auto(make_vector_primal_hho_assembler(msh, h, *vb))); break; case VECTOR_DEG: ve.reset(new auto(make_vector_primal_hho_assembler(msh, degrees(), *vb))); break;
            case MECHANICS: vm.reset(new vector_mechanics_hho_assembler<M>(msh, h, *vb)); break; case MECHANICS_DEG: vm.reset(new vector_mechanics_hho_assembler<M>(msh, degrees(), *vb)); break;
            case BASIC: ba.reset(new hho::basic_condensed_assembler<M, FBT>(msh, s.fd)); break; case BASIC_LIST: { std::vector<bool> d(s.dirichlet.begin(), s.dirichlet.end()); ba.reset(new hho::basic_condensed_assembler<M, FBT>(msh, s.fd, d)); break; }
            case DG: dg.reset(new auto(make_discontinuous_galerkin_assembler<double>(msh, s.cbs))); break; case DG_EIG: eg.reset(new auto(make_discontinuous_galerkin_eigenvalue_assembler(msh, s.cbs))); break;
        }
    }
    template<class A> bool ini(A& a, int which) { if (which == 1) a.initialize_lhs(); else if (which == 2) a.initialize_rhs(); else a.initialize(); return true; }
    bool init(int which) override {
        switch (s.kind) {
            case STOKES: case STOKES_ALG: if (which) return false; st->initialize(); return true;
            case STOKES_SPLIT: if (which != 2) sa->initialize_lhs(); if (which != 1) sa->initialize_rhs(); return true;
            case MECH: case MECH_NL: if (which != 2) return false; me->setZeroRhs(); return true;
            case SCALAR: return ini(*sc, which); case VECTOR: case VECTOR_DEG: case VECTOR_NL: return ini(*ve, which); case MECHANICS: case MECHANICS_DEG: return ini(*vm, which);
            case DIFF_FUN: case DIFF_BND: if (which != 2) return false; diff->RHS.setZero(); return true; case BASIC: case BASIC_LIST: if (which != 2) return false; ba->RHS.setZero(); return true; case DG: if (which != 2) return false; dg->RHS.setZero(); return true;
        }
        return false;
    }
    void solF(const std::vector<Vec>& v) override { sF.clear(); for (auto& x : v) sF.push_back(in(x)); }
    void assemble(const Piece& p) override {
        C cl = cell(p.c1); Mat L = in(p.L, p.n, p.n); Vd r = in(p.r); size_t di = s.di;
        switch (s.kind) {
            case DIFF_FUN: diff->assemble(msh, cl, L, r, [this](const P& x) { return sval(0, x); }, di); break; case DIFF_BND: diff->assemble(msh, cl, *sb, L, r, di); break;
            case STOKES: st->assemble(msh, cl, L, in(p.B, p.nb, p.n), r); break; case STOKES_ALG: st->assemble_alg(msh, cl, L, in(p.B, p.nb, p.n), r); break;
            case STOKES_SPLIT: if (!p.L.empty()) sa->assemble_lhs(msh, cl, L, in(p.B, p.nb, p.n)); if (!p.r.empty()) sa->assemble_rhs(msh, cl, r); break;
            case MECH: me->assemble(msh, cl, *vb, std::make_pair(L, r), (int)di); break; case MECH_NL: me->assemble_nl(msh, cl, *vb, std::make_pair(L, r), sF, (int)di); break;
            case SCALAR: sc->assemble(msh, cl, *sb, L, r, di); break; case VECTOR: case VECTOR_DEG: ve->assemble(msh, cl, *vb, L, r, (int)di); break; case VECTOR_NL: ve->assemble_nonlinear(msh, cl, *vb, L, r, sF, (int)di); break;
            case MECHANICS: case MECHANICS_DEG: vm->assemble_nonlinear(msh, cl, *vb, L, r, sF, (int)di); break; case BASIC: case BASIC_LIST: ba->assemble(msh, cl, L, r); break;
            case DG: if (p.pair) dg->assemble(msh, cl, cell(p.c2), L); else dg->assemble(msh, cl, L, r); break; case DG_EIG: if (p.pair) eg->assemble(msh, cl, cell(p.c2), L); else eg->assemble(msh, cl, L); break;
        }
    }
    void neumann() override { switch (s.kind) { case DIFF_BND: diff->impose_neumann_boundary_conditions(msh, *sb, s.di); break; case SCALAR: sc->impose_neumann_boundary_conditions(msh, *sb, s.di); break; case MECH: case MECH_NL: me->impose_neumann_boundary_conditions(msh, *vb, s.di); break;
        case VECTOR: case VECTOR_DEG: case VECTOR_NL: ve->impose_neumann_boundary_conditions(msh, *vb, s.di); break; case MECHANICS: case MECHANICS_DEG: vm->impose_neumann_boundary_conditions(msh, *vb, s.di); break; } }
    void robin() override { if (s.kind == DIFF_BND) diff->impose_robin_boundary_conditions(msh, *sb, s.di); if (s.kind == SCALAR) sc->impose_robin_boundary_conditions(msh, *sb, s.di); }
    void finalize(int which) override { if (diff) diff->finalize(); if (st) st->finalize(); if (sa) { if (which != 2) sa->finalize_lhs(); if (which != 1) sa->finalize_rhs(); } if (me) me->finalize(); if (sc) sc->finalize(); if (ve) ve->finalize(); if (vm) vm->finalize(); if (ba) ba->finalize(); if (dg) dg->finalize(); if (eg) eg->finalize(); }
    template<class S> void sparse(const S& a, std::map<std::pair<size_t, size_t>, double>& m) { for (Eigen::Index k = 0; k < a.outerSize(); k++) for (typename S::InnerIterator it(a, k); it; ++it) m[{(size_t)it.row(), (size_t)it.col()}] += it.value(); }
    template<class FN> void with(FN f) { if (diff) f(*diff); if (st) f(*st); if (sa) f(*sa); if (me) f(*me); if (sc) f(*sc); if (ve) f(*ve); if (vm) f(*vm); if (ba) f(*ba); if (dg) f(*dg); }
    size_t size() override { size_t n = 0; with([&](auto& a) { n = a.RHS.size(); if ((size_t)a.LHS.rows() != n || (size_t)a.LHS.cols() != n) n = ~0ul; }); if (eg) n = eg->syssz; if (st && st->global_system_size() != n) n = ~0ul; if (sa && sa->global_system_size() != n) n = ~0ul; if (sc && sc->global_system_size() != n) n = ~0ul; if (ve && ve->global_system_size() != n) n = ~0ul; if (vm && vm->global_system_size() != n) n = ~0ul; if (ba && ba->dofs() != n) n = ~0ul; if (dg && dg->syssz != n) n = ~0ul; return n; }
    void lhs(std::map<std::pair<size_t, size_t>, double>& m, int which) override { if (eg) sparse(which ? eg->gM : eg->gK, m); else with([&](auto& a) { sparse(a.LHS, m); }); }
    Vec rhs() override { Vec r; with([&](auto& a) { r = out(a.RHS); }); return r; }
    Vec take(size_t c, const Vec& x, int how) override {
        C cl = cell(c); Vd v = in(x); size_t di = s.di;
        switch (s.kind) {
            case DIFF_FUN: { auto f = [this](const P& p) { return sval(0, p); }; return out(how == 2 ? diff->take_local_solution(msh, cl, v, f, di) : diff->take_local_data(msh, cl, v, f, di)); } case DIFF_BND: return out(diff->take_local_data(msh, cl, *sb, v, di));
            case STOKES: case STOKES_ALG: return out(how == 1 ? st->take_pressure(msh, cl, v) : st->take_velocity(msh, cl, v)); case STOKES_SPLIT: return out(how == 1 ? sa->take_pressure(msh, cl, v) : sa->take_velocity(msh, cl, v));
            case MECH: return out(me->take_local_data(msh, cl, *vb, v, di)); case SCALAR: return out(sc->take_local_solution(msh, cl, *sb, v, di));
            case VECTOR: case VECTOR_DEG: { if (how != 2) return out(ve->take_local_solution(msh, cl, *vb, v, di)); Vec r; for (auto& f : disk::faces(msh, cl)) { auto q = out(ve->take_local_solution(msh, f, *vb, v, di)); r.insert(r.end(), q.begin(), q.end()); } return r; }
            case VECTOR_NL: { if (how != 2) return out(ve->take_local_solution_nonlinear(msh, cl, *vb, v, sF, di)); Vec r; for (auto& f : disk::faces(msh, cl)) { auto q = out(ve->take_local_solution_nonlinear(msh, f, *vb, v, sF, di)); r.insert(r.end(), q.begin(), q.end()); } return r; }
            case MECHANICS: case MECHANICS_DEG: { if (how != 2) return out(vm->take_local_solution_nonlinear(msh, cl, *vb, v, sF, di)); Vec r; for (auto& f : disk::faces(msh, cl)) { auto q = out(vm->take_local_solution_nonlinear(msh, f, *vb, v, sF, di)); r.insert(r.end(), q.begin(), q.end()); } return r; }
            case BASIC: case BASIC_LIST: return out(ba->take_local_solution(msh, cl, v));
        }
        return {};
    }
    bool expand(const Vec& x, Vec& o) override {
        Vd v = in(x); int di = s.di;
        switch (s.kind) { case MECH: o = out(me->expand_solution(msh, *vb, v, di)); return true; case MECH_NL: o = out(me->expand_solution_nl(msh, *vb, v, sF, di)); return true; case SCALAR: o = out(sc->expand_solution(msh, *sb, v, di)); return true;
            case VECTOR: case VECTOR_DEG: o = out(ve->expand_solution(msh, *vb, v, di)); return true; case VECTOR_NL: o = out(ve->expand_solution_nonlinear(msh, *vb, v, sF, di)); return true; case MECHANICS: case MECHANICS_DEG: o = out(vm->expand_solution_nonlinear(msh, *vb, v, sF, di)); return true; }
        return false;
    }
};
Asm* make(const std::string& path, int level) {
    auto i = std::make_unique<Impl>();
#if MESH == 0 || MESH == 2
    if (!load_mesh_netgen<double>(path.c_str(), i->msh)) return nullptr;
#elif MESH == 1
    if (level < 0) { if (!load_mesh_fvca5_2d<double>(path.c_str(), i->msh)) return nullptr; } else { auto g = make_fvca5_hex_mesher(i->msh); g.make_level((size_t)level); }
#else
    if (!load_mesh_diskpp_cartesian<double>(path.c_str(), i->msh)) return nullptr;
#endif
    i->geometry(); return i.release();
}
}
const MeshKind& NAME() { static MeshKind k{
#if MESH == 0
"tri"
#elif MESH == 1
"poly2"
#elif MESH == 2
"tet"
#elif MESH == 3
"hex"
#else
"quad"
#endif
, make}; return k; }
}
