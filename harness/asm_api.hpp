// Assemblers behind plain data, one translation unit per kind of mesh
#pragma once
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <cstddef>
namespace as {
typedef std::vector<double> Vec;
enum Kind { DIFF_FUN, DIFF_BND, STOKES, STOKES_ALG, STOKES_SPLIT, MECH, MECH_NL, SCALAR, VECTOR, VECTOR_DEG, VECTOR_NL, MECHANICS, MECHANICS_DEG, BASIC, BASIC_LIST, DG, DG_EIG, KINDS };
enum { DIRICHLET, NEUMANN, ROBIN, CONTACT, EVERYWHERE };
struct BC { int what, type; size_t id; int fn; };             // id: boundary id
struct Setup { int kind = 0; int fd = 0, cd = 0, di = 1, cbs = 1; std::vector<BC> bcs; std::vector<int> fdeg; std::vector<char> dirichlet; };   // fdeg per face: -1 no unknowns; dirichlet: of BASIC_LIST
struct Piece { size_t c1 = 0, c2 = 0; bool pair = false; size_t n = 0, nb = 0; Vec L, B, r; };   // a contribution: n x n (row by row), nb x n, n
struct Asm {
    size_t cells = 0, faces = 0, dim = 0; std::vector<std::vector<size_t>> cell_faces; std::vector<char> bnd, internal; std::vector<size_t> bid;
    std::function<void()> on_fun;                              // a boundary function is evaluated
    virtual ~Asm() {}
    // what the model needs to know about faces, from parts of the library that are not judged here
    virtual size_t face_size(int degree, bool vec) = 0; virtual size_t cell_size(int degree, bool vec) = 0;
    virtual Vec project(size_t face, int fn, int degree, int di, bool vec) = 0; virtual Vec neumann(size_t face, int fn, int degree, int di, bool vec) = 0; virtual Vec mass(size_t face, int degree) = 0; virtual Vec integrals(size_t cell, int degree) = 0;
    // the assembler
    virtual bool fails() = 0;                                  // some kinds do not exist for some meshes
    virtual void boundary(const Setup&) = 0; virtual void factor(double f) = 0;
    virtual void construct(const Setup&) = 0;
    virtual bool init(int which) = 0;                          // 0 all, 1 matrix, 2 right-hand side; false: there is no such operation
    virtual void solF(const std::vector<Vec>&) = 0;
    virtual void assemble(const Piece&) = 0; virtual void neumann() = 0; virtual void robin() = 0; virtual void finalize(int which) = 0;
    virtual size_t size() = 0; virtual void lhs(std::map<std::pair<size_t, size_t>, double>& a, int which) = 0; virtual Vec rhs() = 0;
    virtual Vec take(size_t cell, const Vec& x, int how) = 0;  // how: 0 faces of the cell, 1 pressure, 2 face by face
    virtual bool expand(const Vec& x, Vec& out) = 0;
};
struct MeshKind { const char* name; Asm* (*make)(const std::string& path, int level); };
extern const MeshKind& tri(); extern const MeshKind& poly2(); extern const MeshKind& tet(); extern const MeshKind& hex(); extern const MeshKind& quad();
// boundary functions: linear, the same on both sides of the judge
inline void fun(int fn, const double* x, int dim, double* f, int n) { for (int i = 0; i < n; i++) { f[i] = ((fn * 7 + i * 3) % 5) - 1; for (int j = 0; j < dim; j++) f[i] += (((fn + 2) * (i + 3) * (j + 1)) % 7 - 3) * x[j]; } }
}
