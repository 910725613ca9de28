// Stand-in for sol2 (not installed here): a tree of named values, as much as DiSk++'s solver front end uses.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <type_traits>
namespace sol {
struct node { std::map<std::string, std::shared_ptr<node>> sub; bool table = false; int kind = 0; double num = 0; bool b = false; std::string s; };
struct table { std::shared_ptr<node> n; };
class proxy {
    std::shared_ptr<node> n;
  public:
    explicit proxy(std::shared_ptr<node> x) : n(std::move(x)) {}
    proxy operator[](const std::string& k) const { auto& c = n->sub[k]; if (!c) c = std::make_shared<node>(); return proxy(c); }
    proxy& operator=(const table& t) { *n = *t.n; n->table = true; return *this; }
    proxy& operator=(bool v) { n->kind = 2; n->b = v; return *this; }
    proxy& operator=(const std::string& v) { n->kind = 3; n->s = v; return *this; }
    proxy& operator=(const char* v) { n->kind = 3; n->s = v; return *this; }
    template<class N, class = std::enable_if_t<std::is_arithmetic_v<N> && !std::is_same_v<N, bool>>> proxy& operator=(N v) { n->kind = 1; n->num = (double)v; return *this; }
    bool valid() const { return n->kind != 0 || n->table; }
    template<class T> T get_or(T d) const {
        if constexpr (std::is_same_v<T, bool>) return n->kind == 2 ? n->b : d;
        else if constexpr (std::is_arithmetic_v<T>) return n->kind == 1 ? (T)n->num : d;
        else return n->kind == 3 ? T(n->s) : d;
    }
    operator std::string() const { return n->s; }
};
class state {
    std::shared_ptr<node> root = std::make_shared<node>();
  public:
    proxy operator[](const std::string& k) { return proxy(root)[k]; }
    table create_table() { return table{std::make_shared<node>()}; }
};
}
