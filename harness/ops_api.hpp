// Read-only operations on a mesh, one table per kind of mesh (compiled from ops_mesh.cpp with -DMESH=k)
#pragma once
#include <vector>
#include <string>
#include <cstddef>
typedef std::vector<double> Out;
struct MeshOps {
    virtual ~MeshOps() {}
    virtual size_t cells() = 0;
    virtual Out image() = 0;                                                  // everything the mesh holds
    virtual void run(size_t op, size_t cell, size_t degree, Out& o) = 0;      // throws what the operation throws
};
struct MeshKind { const char* name; std::vector<std::string> ops; MeshOps* (*make)(int level, int variant, unsigned long seed); };
extern const MeshKind& kind_tri(); extern const MeshKind& kind_tet(); extern const MeshKind& kind_quad(); extern const MeshKind& kind_hex(); extern const MeshKind& kind_poly2(); extern const MeshKind& kind_poly3();
