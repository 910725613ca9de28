// Stand-in for gmsh_tools (not installed here), as much as DiSk++ uses: keeps what it is given and writes it as text.
#pragma once
#include <array>
#include <cstddef>
#include <string>
#include <vector>
namespace gmsh {
class Node { std::array<double, 3> c; size_t i; public: Node(const std::array<double, 3>& x = {}, size_t k = 0, int = 0) : c(x), i(k) {} std::array<double, 3> getCoordinate() const { return c; } size_t getIndex() const { return i; } };
struct Element { std::vector<size_t> n; size_t i; Element(const std::vector<size_t>& x, size_t k, int, int) : n(x), i(k) {} };
struct Vertice { size_t n, i; Vertice(size_t x, size_t k, int, int) : n(x), i(k) {} };
struct Edge : Element { using Element::Element; std::vector<size_t> getNodes() const { return n; } };
struct Triangle : Element { using Element::Element; };
struct Quadrangle : Element { using Element::Element; };
struct Tetrahedron : Element { using Element::Element; };
struct Hexahedron : Element { using Element::Element; };
// what is saved, as seen by whoever listens
struct Saved { std::string file, name; int components; std::vector<double> values; bool ok; };
extern void (*sink)(const Saved&);
}
