#pragma once
#include "gmshMesh.hpp"
namespace gmsh {
class Data { public: size_t i; std::vector<double> v; Data(size_t k, const std::vector<double>& x) : i(k), v(x) {} };
class SubData { public: std::vector<double> v; Node n; SubData(const std::vector<double>& x, const Node& k) : v(x), n(k) {} };
class NodeData {
    int nc; double t; std::string name; std::vector<Data> d; std::vector<SubData> s;
  public:
    NodeData(int c, double time, const std::string& n, const std::vector<Data>& data, const std::vector<SubData>& sub) : nc(c), t(time), name(n), d(data), s(sub) {}
    void saveNodeData(const std::string& file, const Gmesh& m) const {
        std::ofstream o("/sim/" + file); m.write(o); o << "$NodeData\n" << name << "\n" << t << "\n" << nc << " " << d.size() + s.size() << "\n";
        Saved r{file, name, nc, {}, true};
        for (auto& x : d) { o << x.i; for (double y : x.v) { o << " " << y; r.values.push_back(y); } o << "\n"; }
        for (auto& x : s) { o << x.n.getIndex(); for (double y : x.v) { o << " " << y; r.values.push_back(y); } o << "\n"; }
        o.close(); r.ok = (bool)o;
        if (sink) sink(r);
    }
};
}
