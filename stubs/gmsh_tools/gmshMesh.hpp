#pragma once
#include "gmshElement.hpp"
#include <fstream>
namespace gmsh {
class Gmesh {
    int dim = 0; std::vector<Node> nodes; std::vector<Edge> edges; std::vector<std::vector<size_t>> el;
  public:
    Gmesh(int d = 0) : dim(d) {}
    int getDim() const { return dim; }
    size_t getNumberofNodes() const { return nodes.size(); }
    size_t getNumberofElements() const { return el.size(); }
    Node getNode(size_t i) const { return nodes.at(i); }
    std::vector<Node> getNodes() const { return nodes; }
    std::vector<Edge> getEdges() const { return edges; }
    void addNode(const Node& n) { nodes.push_back(n); }
    void addVertice(const Vertice& v) { el.push_back({v.n}); }
    void addEdge(const Edge& e) { edges.push_back(e); el.push_back(e.n); }
    void addTriangle(const Triangle& e) { el.push_back(e.n); }
    void addQuadrangle(const Quadrangle& e) { el.push_back(e.n); }
    void addTetrahedron(const Tetrahedron& e) { el.push_back(e.n); }
    void addHexahedron(const Hexahedron& e) { el.push_back(e.n); }
    void write(std::ofstream& o) const { o << "$Nodes\n" << nodes.size() << "\n"; for (auto& n : nodes) { auto c = n.getCoordinate(); o << n.getIndex() << " " << c[0] << " " << c[1] << " " << c[2] << "\n"; } o << "$Elements\n" << el.size() << "\n"; for (auto& e : el) { for (auto x : e) o << x << " "; o << "\n"; } }
    void writeGmesh(const std::string& file, int) const {
        std::ofstream o("/sim/" + file); write(o); o.close();
        Saved s{file, "mesh", 3, {}, (bool)o}; for (auto& n : nodes) for (double x : n.getCoordinate()) s.values.push_back(x);
        if (sink) sink(s);
    }
};
}
