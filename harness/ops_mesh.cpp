// MESH: 0 simplicial 2D, 1 simplicial 3D, 2 cartesian 2D, 3 cartesian 3D, 4 polygonal 2D, 5 polyhedral 3D
#include "ops_api.hpp"
#include <iostream>
#include <fstream>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <cmath>
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/mesh/meshgen.hpp"
#include "diskpp/geometry/geometry.hpp"
#include "diskpp/quadratures/quadratures.hpp"
#include "diskpp/bases/bases.hpp"
#include "diskpp/bases/bases_new.hpp"
#include "diskpp/methods/hho"
#include "diskpp/methods/hho_slapl.hpp"
#include "diskpp/methods/hho_assemblers.hpp"
#if MESH != 0 && MESH != 2
#include "diskpp/methods/implementation_hho/curl.hpp"
#endif
typedef double R;
#if MESH == 0
#include "diskpp/cfem/cfem.hpp"
typedef disk::simplicial_mesh<R, 2> M;
#elif MESH == 1
#include "diskpp/methods/dga"
typedef disk::simplicial_mesh<R, 3> M;
#elif MESH == 2
typedef disk::cartesian_mesh<R, 2> M;
#elif MESH == 3
typedef disk::cartesian_mesh<R, 3> M;
#elif MESH == 4
#include "diskpp/methods/vem"
typedef disk::generic_mesh<R, 2> M;
#else
typedef disk::generic_mesh<R, 3> M;
#endif
extern bool load_hex_file(int level, unsigned long seed, disk::cartesian_mesh<R, 3>& m);
extern bool load_poly3_file(int level, unsigned long seed, disk::generic_mesh<R, 3>& m);
namespace {
using namespace disk;
typedef M::cell_type C; typedef M::face_type F; typedef M::point_type P; constexpr size_t D = M::dimension;
typedef dynamic_matrix<R> Mat; typedef dynamic_vector<R> Vec; typedef static_vector<R, (int)D> SV;
template<class X> void put(Out& o, const Eigen::MatrixBase<X>& m) { auto e = m.eval(); o.push_back((double)e.rows()); for (Eigen::Index j = 0; j < e.cols(); j++) for (Eigen::Index i = 0; i < e.rows(); i++) o.push_back(e(i, j)); }
void put(Out& o, const P& p) { for (size_t d = 0; d < D; d++) o.push_back(p.at(d)); }
void put(Out& o, double x) { o.push_back(x); }
template<class A, class B> void put(Out& o, const std::pair<A, B>& p) { put(o, p.first); put(o, p.second); }
template<class E> void put(Out& o, const std::vector<E>& v) { o.push_back((double)v.size()); for (auto& x : v) put(o, x); }
template<class V> void ten(Out& o, const V& v) { for (auto& m : v) put(o, m); }
template<class Q> void quad(Out& o, const Q& qps) { o.push_back((double)qps.size()); for (auto& q : qps) { put(o, q.point()); o.push_back(q.weight()); } }
R sf(const P& p) { R s = 1; for (size_t d = 0; d < D; d++) s = s * 0.7 + std::sin(1.3 * p.at(d) + d); return s; }
SV vf(const P& p) { SV v; for (size_t d = 0; d < D; d++) v(d) = std::cos(p.at(d) + d) + p.at((d + 1) % D); return v; }
const std::function<R(const P&)> sfun = sf; const std::function<SV(const P&)> vfun = vf;
double sub(const M& m, const C& c) { try { auto d = m.domain_info(c); return (double)d.id(); } catch (const std::out_of_range&) { return -7; } } // not every loader fills the subdomains
Mat spd(size_t n) { Mat m = Mat::Zero(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) m(i, j) = 1.0 / (1.0 + (i > j ? i - j : j - i)) + (i == j ? n : 0); return m; }
Vec vec(size_t n) { Vec v(n); for (size_t i = 0; i < n; i++) v(i) = 1.0 + 0.1 * i; return v; }
struct Op { const char* name; void (*f)(const M&, const C&, size_t, Out&); };
const Op ops[] = {
    {"geometry", [](const M& m, const C& c, size_t, Out& o) { put(o, measure(m, c)); put(o, diameter(m, c)); put(o, barycenter(m, c)); auto ps = points(m, c); for (auto& p : ps) put(o, p);
        put(o, (double)m.lookup(c)); put(o, (double)howmany_faces(m, c)); put(o, (double)offset(m, c)); put(o, average_diameter(m)); put(o, bb_barycenter(m, c)); put(o, (double)has_faces_on_boundary(m, c));
        auto dd = diameters(m, c); for (auto x : dd) put(o, x); for (auto x : diameter_boundingbox(m, c)) put(o, x); put(o, sub(m, c)); }},
    {"faces", [](const M& m, const C& c, size_t, Out& o) { auto fi = faces_id(m, c); auto fs = faces(m, c); for (size_t i = 0; i < fs.size(); i++) { auto& f = fs[i]; put(o, (double)fi[i]); put(o, (double)m.lookup(f)); put(o, measure(m, f)); put(o, barycenter(m, f)); put(o, diameter(m, f)); put(o, normal(m, c, f));
        put(o, (double)m.is_boundary(f)); auto b = m.boundary_info(f); put(o, (double)b.id()); put(o, (double)b.is_internal()); auto ps = points(m, f); for (auto& p : ps) put(o, p); } }},
    {"sweep", [](const M& m, const C&, size_t, Out& o) { double s = 0; size_t n = 0; for (auto& c : m) { s += measure(m, c); n += howmany_faces(m, c); } put(o, s); put(o, (double)n); size_t b = 0; for (auto it = m.boundary_faces_begin(); it != m.boundary_faces_end(); it++) b += m.lookup(*it); put(o, (double)b); for (auto& f : disk::faces(m)) b += m.is_boundary(f); put(o, (double)b); }},
    {"connectivity", [](const M& m, const C& c, size_t, Out& o) { auto cv = connectivity_via_faces(m); auto fs = faces(m, c); for (auto& f : fs) { auto nb = cv.neighbour_via(m, c, f); put(o, nb.second ? (double)offset(m, nb.first) : -1.0); } }},
    {"axes", [](const M& m, const C& c, size_t, Out& o) { put(o, inertia_axes(m, c)); put(o, scaled_inertia_axes(m, c)); }},
    {"quad_cell", [](const M& m, const C& c, size_t d, Out& o) { quad(o, integrate(m, c, d)); quad(o, integrate(m, c, 2 * d)); }},
    {"quad_face", [](const M& m, const C& c, size_t d, Out& o) { auto fs = faces(m, c); for (auto& f : fs) quad(o, integrate(m, f, 2 * d)); }},
    {"basis_scalar", [](const M& m, const C& c, size_t d, Out& o) { auto b = make_scalar_monomial_basis(m, c, d); auto p = barycenter(m, c); put(o, b.eval_functions(p)); put(o, b.eval_gradients(p)); auto fs = faces(m, c); for (auto& f : fs) { auto q = barycenter(m, f); auto fb = make_scalar_monomial_basis(m, f, d); put(o, fb.eval_functions(q)); put(o, b.eval_functions(q)); } }},
    {"basis_inertial", [](const M& m, const C& c, size_t d, Out& o) { auto b = make_scalar_monomial_basis(m, c, d, true); auto p = points(m, c)[0]; put(o, b.eval_functions(p)); put(o, b.eval_gradients(p)); }},
    {"basis_vector", [](const M& m, const C& c, size_t d, Out& o) { auto b = make_vector_monomial_basis(m, c, d); auto p = barycenter(m, c); put(o, b.eval_functions(p)); ten(o, b.eval_gradients(p)); ten(o, b.eval_sgradients(p)); put(o, b.eval_divergences(p)); auto fs = faces(m, c); for (auto& f : fs) put(o, make_vector_monomial_basis(m, f, d).eval_functions(barycenter(m, f))); }},
    {"basis_matrix", [](const M& m, const C& c, size_t d, Out& o) { auto p = points(m, c)[1]; ten(o, make_matrix_monomial_basis(m, c, d).eval_functions(p)); ten(o, make_sym_matrix_monomial_basis(m, c, d).eval_functions(p)); }},
    {"basis_new", [](const M& m, const C& c, size_t d, Out& o) { auto b = basis::scalar_monomial<M, C, R>(m, c, d); auto p = points(m, c)[0]; put(o, b(p)); put(o, b.grad(p)); auto fs = faces(m, c); for (auto& f : fs) { auto fb = basis::scalar_monomial<M, F, R>(m, f, d); put(o, fb(barycenter(m, f))); } }},
    {"mass", [](const M& m, const C& c, size_t d, Out& o) { auto b = make_scalar_monomial_basis(m, c, d); put(o, make_mass_matrix(m, c, b)); put(o, make_stiffness_matrix(m, c, b)); auto vb = make_vector_monomial_basis(m, c, d); put(o, make_mass_matrix(m, c, vb)); }},
    {"rhs", [](const M& m, const C& c, size_t d, Out& o) { auto b = make_scalar_monomial_basis(m, c, d); put(o, make_rhs(m, c, b, sf, 1)); auto vb = make_vector_monomial_basis(m, c, d); put(o, make_rhs(m, c, vb, vf, 1)); auto fs = faces(m, c); for (auto& f : fs) { auto fb = make_scalar_monomial_basis(m, f, d); put(o, make_rhs(m, f, fb, sf)); } }},
    {"project", [](const M& m, const C& c, size_t d, Out& o) { hho_degree_info h(d); put(o, project_function(m, c, h, sfun, 1)); put(o, project_function(m, c, h, vfun)); MeshDegreeInfo<M> mi(m, d); put(o, project_function(m, c, mi, vfun)); }},
    {"scalar_hho", [](const M& m, const C& c, size_t d, Out& o) { hho_degree_info h(d + 1, d); auto g = make_scalar_hho_laplacian(m, c, h); put(o, g); put(o, make_scalar_hho_stabilization(m, c, g.first, h)); put(o, make_scalar_hdg_stabilization(m, c, h)); put(o, make_scalar_dg_stabilization(m, c, h)); }},
    {"condense", [](const M& m, const C& c, size_t d, Out& o) { hho_degree_info h(d); auto g = make_scalar_hho_laplacian(m, c, h); Mat L = g.second + make_scalar_hho_stabilization(m, c, g.first, h); auto b = make_scalar_monomial_basis(m, c, d); Vec r = make_rhs(m, c, b, sf);
        put(o, make_scalar_static_condensation(m, c, h, L, r)); Vec u = vec(L.rows() - r.rows()); put(o, make_scalar_static_decondensation(m, c, h, L, r, u)); }},
    {"scalar_adaptive", [](const M& m, const C& c, size_t d, Out& o) { MeshDegreeInfo<M> mi(m, d, d); auto g = make_scalar_hho_laplacian(m, c, mi); put(o, g); put(o, make_scalar_hho_stabilization(m, c, g.first, mi)); put(o, make_hho_divergence_reconstruction(m, c, mi)); }},
    {"vector_grad", [](const M& m, const C& c, size_t d, Out& o) { hho_degree_info h(d); put(o, make_vector_hho_gradrec(m, c, h)); put(o, make_hho_divergence_reconstruction(m, c, h)); put(o, make_hho_divergence_reconstruction_rhs(m, c, h)); }},
    {"symmetric", [](const M& m, const C& c, size_t d, Out& o) { hho_degree_info h(std::max<size_t>(d, 1)); auto g = make_vector_hho_symmetric_laplacian(m, c, h); put(o, g); put(o, make_vector_hho_stabilization(m, c, g.first, h)); put(o, make_vector_hdg_stabilization(m, c, h)); }},
    {"matrix_grad", [](const M& m, const C& c, size_t d, Out& o) { hho_degree_info h(std::max<size_t>(d, 1)); put(o, make_matrix_hho_symmetric_gradrec(m, c, h)); put(o, make_matrix_hho_gradrec(m, c, h)); put(o, make_vector_hho_laplacian(m, c, h)); }},
    {"vector_condense", [](const M& m, const C& c, size_t d, Out& o) { hho_degree_info h(std::max<size_t>(d, 1)); size_t cb = vector_basis_size(h.cell_degree(), D, D), fb = vector_basis_size(h.face_degree(), D - 1, D), n = cb + fb * howmany_faces(m, c); Mat L = spd(n); Vec r = vec(n); auto s = make_vector_static_condensation_withMatrix(m, c, h, L, r); put(o, std::get<0>(s)); put(o, std::get<1>(s)); put(o, std::get<2>(s)); put(o, make_vector_static_decondensation_withMatrix(std::get<1>(s), std::get<2>(s), Vec(vec(n - cb)))); }},
    {"slapl", [](const M& m, const C& c, size_t d, Out& o) { hho::slapl::degree_info di(d); auto r = hho::slapl::local_operator(m, c, di); put(o, r.first); put(o, r.second); Mat S = hho::slapl::local_stabilization(m, c, di, r.first); put(o, S); Vec u = hho::slapl::local_reduction(m, c, di, sf); put(o, u);
        Mat L = r.second + S; auto b = hho::slapl::hho_space<M>::cell_basis_type(m, c, di.cell); Vec rhs = Vec::Zero(L.rows()); rhs.head(b.size()) = integrate(m, c, sf, b); auto k = hho::schur(L, rhs, b); put(o, k.first); put(o, k.second); put(o, hho::deschur(L, rhs, Vec(k.second), b)); }},
#if MESH == 1 || MESH == 3 || MESH == 5
    {"curl", [](const M& m, const C& c, size_t d, Out& o) { hho_degree_info h(priv::hdi_named_args{.rd = std::max<size_t>(d, 1), .cd = std::max<size_t>(d, 1), .fd = std::max<size_t>(d, 1)}); auto g = curl_reconstruction(m, c, h); put(o, g.first); put(o, g.second); put(o, curl_hdg_stabilization(m, c, h)); }},
#endif
#if MESH == 4
    {"curl", [](const M& m, const C& c, size_t d, Out& o) { hho_degree_info h(d); auto g = curl_reconstruction(m, c, h); put(o, g.first); put(o, g.second); put(o, curl_hdg_stabilization(m, c, h)); }},
    {"vem", [](const M& m, const C& c, size_t d, Out& o) { auto g = vem_2d::compute_local(m, c, d + 1, sf); put(o, g.first); put(o, g.second); }},
    {"triangulate", [](const M& m, const C& c, size_t, Out& o) { for (auto& t : triangulate_polygon(m, c)) { put(o, t.p0); put(o, t.p1); put(o, t.p2); } put(o, (double)is_convex(m, c)); }},
#endif
#if MESH == 0
    {"cfem", [](const M& m, const C& c, size_t, Out& o) { put(o, cfem::mass_matrix(m, c)); put(o, cfem::stiffness_matrix(m, c)); put(o, cfem::make_rhs(m, c, sf)); put(o, cfem::eval_basis(m, c, barycenter(m, c))); }},
#endif
#if MESH == 0 || MESH == 1
    {"raviart", [](const M& m, const C& c, size_t d, Out& o) { hho_degree_info h(d, d, d + 1); put(o, make_vector_hho_gradrec_RT(m, c, h)); auto b = make_vector_monomial_basis_RT(m, c, d + 1); put(o, b.eval_functions(barycenter(m, c))); }},
#endif
#if MESH == 1
    {"dga", [](const M& m, const C& c, size_t, Out& o) { put(o, disk::edge_matrix(m, c, 2.0)); put(o, disk::face_matrix(m, c, 3.0)); auto e = disk::edge_ids(m, c); for (auto x : e) put(o, (double)x); }},
#endif
};
constexpr size_t N = sizeof ops / sizeof *ops;
struct Impl : MeshOps {
    M m;
    size_t cells() override { return m.cells_size(); }
    Out image() override {
        Out o; const auto& c = m; for (auto it = c.points_begin(); it != c.points_end(); it++) put(o, *it);
        for (auto& cl : c) { auto ids = cl.point_ids(); for (auto& x : ids) o.push_back((double)(size_t)x); o.push_back(sub(c, cl)); auto f = faces_id(c, cl); for (auto x : f) o.push_back((double)x); }
        for (auto it = c.faces_begin(); it != c.faces_end(); it++) { auto f = *it; auto ids = f.point_ids(); for (auto& x : ids) o.push_back((double)(size_t)x); auto b = c.boundary_info(f); o.push_back(b.is_boundary()); o.push_back((double)b.id()); }
        return o;
    }
    void run(size_t op, size_t cell, size_t degree, Out& o) override { auto it = m.cells_begin(); std::advance(it, cell); const M& cm = m; C cl = *it; ops[op].f(cm, cl, degree, o); }
};
MeshOps* make(int level, int variant, unsigned long seed) {
    auto i = std::make_unique<Impl>();
#if MESH == 0 || MESH == 1 || MESH == 2
    auto g = make_simple_mesher(i->m); for (int k = 0; k < level; k++) g.refine();
#elif MESH == 3
    if (!load_hex_file(level, seed, i->m)) return nullptr;
#elif MESH == 4
    { auto g = make_fvca5_hex_mesher(i->m); g.make_level((size_t)level); }
    if (variant) { // pull one interior vertex of some cells towards the cell: that cell is no longer convex
        auto& pts = i->m.backend_storage()->points; std::vector<char> bnd(pts.size()), used(pts.size());
        for (auto it = i->m.boundary_faces_begin(); it != i->m.boundary_faces_end(); it++) { auto ids = (*it).point_ids(); for (auto& x : ids) bnd[(size_t)x] = 1; }
        for (auto& cl : i->m) { auto ids = cl.point_ids(); if (ids.size() < 5) continue; size_t best = ~0ul; bool touched = false; for (auto& x : ids) { if (used[(size_t)x]) touched = true; if (!bnd[(size_t)x]) best = (size_t)x; } if (best == ~0ul || touched) continue; auto b = barycenter(i->m, cl); pts[best] = pts[best] + (b - pts[best]) * 0.8; for (auto& x : ids) used[(size_t)x] = 1; }
    }
#else
    if (!load_poly3_file(level, seed, i->m)) return nullptr;
#endif
    return i.release();
}
}
#if MESH == 0
#define NAME kind_tri
#elif MESH == 1
#define NAME kind_tet
#elif MESH == 2
#define NAME kind_quad
#elif MESH == 3
#define NAME kind_hex
#elif MESH == 4
#define NAME kind_poly2
#else
#define NAME kind_poly3
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
const MeshKind& NAME() { static MeshKind k = [] { MeshKind k; k.name = STR(NAME); for (auto& o : ops) k.ops.push_back(o.name); k.make = make; return k; }(); return k; }
