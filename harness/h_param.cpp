// Solver parameter files over simulated files: C17
#include "../sim/rt.hpp"
#include <map>
#include <string>
#include <vector>
#include <list>
#include <memory>
#include <sstream>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <climits>
#include <iostream>
#include "diskpp/mechanics/NewtonSolver/NewtonSolverParameters.hpp"
using namespace sim;
typedef NewtonSolverParameter<double> Par;

// ------------------------------------------------------------------ the model of a parameter object
// every value with its name; a value is unknown after a file that was refused or leaves a choice open
struct Val { double v = 0; bool known = true; };
struct State { std::map<std::string, Val> one; std::vector<std::pair<double, int>> steps; bool steps_known = true; std::vector<double> saves; bool saves_known = true; };
static State observe(const Par& p) {
    State s; auto put = [&](const char* k, double v) { s.one[k].v = v; };
    put("FaceDegree", p.getFaceDegree()); put("CellDegree", p.getCellDegree()); put("GradDegree", p.getGradDegree()); put("Sublevel", p.m_sublevel); put("FinalTime", p.m_user_end_time); put("has_end", p.m_has_user_end_time);
    put("Stabilization", p.m_stab); put("AdaptativeStabilization", p.m_adapt_stab); put("StabType", p.m_stab_type); put("Beta", p.getStabilizationParameter()); put("Verbose", p.getVerbose()); put("IterMax", p.m_iter_max); put("Epsilon", p.m_epsilon);
    put("Precomputation", p.getPrecomputation()); put("Theta", p.m_theta); put("Gamma0", p.m_gamma_0); put("Friction", p.m_frot_type); put("Threshold", p.m_threshold); put("Dynamic", p.isUnsteady()); put("n_save", p.m_n_time_save);
    s.steps = p.m_time_step; s.saves.assign(p.m_time_save.begin(), p.m_time_save.end()); return s;
}
enum Kind { INT, REAL, LOGICAL, STAB, FRICTION, STEPS, SAVES };
static const std::vector<std::pair<std::string, Kind>> KEYS = {{"FaceDegree", INT}, {"CellDegree", INT}, {"GradDegree", INT}, {"Sublevel", INT}, {"TimeStep", STEPS}, {"FinalTime", REAL}, {"TimeSave", SAVES}, {"Stabilization", LOGICAL}, {"AdaptativeStabilization", LOGICAL},
    {"StabType", STAB}, {"Beta", REAL}, {"Verbose", LOGICAL}, {"IterMax", INT}, {"Epsilon", REAL}, {"Precomputation", LOGICAL}, {"Theta", REAL}, {"Gamma0", REAL}, {"Friction", FRICTION}, {"Threshold", REAL}, {"Dynamic", LOGICAL}};
// ------------------------------------------------------------------ two reference readers
// strict: blank-separated words, every word a complete value; lenient: as far as a stream extraction goes.
// What only the lenient one reads (values glued together) may be refused or accepted.
struct Bad {};
struct Words {
    bool strict; std::istringstream is; bool open_choice = false;
    Words(const std::string& t, bool s) : strict(s), is(t) {}
    std::string word() { std::string w; if (!(is >> w)) throw Bad(); return w; }
    int integer() {
        if (!strict) { int v; if (!(is >> v)) throw Bad(); return v; }
        auto w = word(); size_t i = w[0] == '+' || w[0] == '-'; if (i == w.size()) throw Bad(); for (size_t k = i; k < w.size(); k++) if (w[k] < '0' || w[k] > '9') throw Bad();
        errno = 0; long v = strtol(w.c_str(), nullptr, 10); if (errno || v < INT_MIN || v > INT_MAX) throw Bad(); return (int)v;
    }
    double real() {
        if (!strict) { double v; if (!(is >> v)) throw Bad(); return v; }
        auto w = word(); size_t i = w[0] == '+' || w[0] == '-', nd = 0; auto dig = [&] { while (i < w.size() && w[i] >= '0' && w[i] <= '9') { i++; nd++; } };
        dig(); if (i < w.size() && w[i] == '.') { i++; dig(); } if (!nd) throw Bad();
        if (i < w.size() && (w[i] == 'e' || w[i] == 'E')) { i++; if (i < w.size() && (w[i] == '+' || w[i] == '-')) i++; nd = 0; dig(); if (!nd) throw Bad(); }
        if (i != w.size()) throw Bad();
        double v = strtod(w.c_str(), nullptr); if (v > 1.7e308 || v < -1.7e308) throw Bad(); return v;
    }
};
static bool reference(const std::string& text, bool strict, State& s, bool& open_choice) {
    Words w(text, strict);
    try {
        if (w.word() != "BeginParameters") return false;
        for (;;) {
            auto k = w.word(); if (k == "EndParameters") break;
            const std::pair<std::string, Kind>* e = nullptr; for (auto& x : KEYS) if (x.first == k) e = &x; if (!e) return false;
            auto set = [&](const char* n, double v, bool known = true) { s.one[n] = {v, known}; if (!known) open_choice = true; };
            switch (e->second) {
                case INT: set(k.c_str(), w.integer()); break;
                case REAL: set(k.c_str(), w.real()); if (k == "FinalTime") set("has_end", 1); break;
                case LOGICAL: { auto v = w.word(); bool t = v == "true" || v == "True", f = v == "false" || v == "False"; set(k.c_str(), t, t || f); if (k == "Stabilization" && !t) set("StabType", NO, f); break; }
                case STAB: { auto v = w.word(); if (v == "HDG") set("StabType", HDG); else if (v == "HHO") set("StabType", HHO); else if (v == "DG") set("StabType", DG); else if (v == "NO") set("StabType", NO); else open_choice = true; break; }
                case FRICTION: { auto v = w.word(); if (v == "NO") set("Friction", NO_FRICTION); else if (v == "TRESCA") set("Friction", TRESCA); else if (v == "COULOMB") set("Friction", COULOMB); else open_choice = true; break; }
                case STEPS: { int n = w.integer(); if (n < 0) return false; s.steps.clear(); s.steps_known = true; for (int i = 0; i < n; i++) { double t = w.real(); int m = w.integer(); s.steps.push_back({t, m}); } break; }
                case SAVES: { int n = w.integer(); if (n < 0) return false; s.saves.clear(); s.saves_known = true; set("n_save", n); for (int i = 0; i < n; i++) s.saves.push_back(w.real()); break; }
            }
        }
    } catch (Bad&) { return false; }
    return true;
}
// ------------------------------------------------------------------ files
static const char* REALS[] = {"1", "0.5", "1.0E-6", "100", "-2.5", "1e-300", ".25", "3.", "+7.125", "0.1", "12345678.9", "1E5", "0", "1e10", "2.2250738585072014e-308", "0.30000000000000004"};
static void gen_key(Rng& r, Plan& p, const std::string& f) {
    auto& k = KEYS[r.below(KEYS.size())]; Line l{"key", f, k.first};
    auto real = [&] { l.push_back(r.chance(0.5) ? REALS[r.below(16)] : Plan::str(r.unit() * (r.chance(0.5) ? 1 : 1000))); };
    switch (k.second) {
        case INT: l.push_back(Plan::str(r.chance(0.2) ? r.range(-3, 100000) : (int64_t)r.below(10))); break;
        case REAL: real(); break;
        case LOGICAL: { static const char* v[] = {"true", "True", "false", "False", "TRUE", "1", "yes"}; l.push_back(v[r.chance(0.95) ? r.below(4) : r.below(7)]); break; }
        case STAB: { static const char* v[] = {"HDG", "HHO", "DG", "NO", "HH0", "none"}; l.push_back(v[r.chance(0.95) ? r.below(4) : r.below(6)]); break; }
        case FRICTION: { static const char* v[] = {"NO", "TRESCA", "COULOMB", "Tresca", "-"}; l.push_back(v[r.chance(0.95) ? r.below(3) : r.below(5)]); break; }
        case STEPS: { int n = (int)r.below(r.chance(0.1) ? 400 : 5); l.push_back(Plan::str(n)); for (int i = 0; i < n; i++) { real(); l.push_back(Plan::str(r.range(1, 20))); } break; }
        case SAVES: { int n = (int)r.below(r.chance(0.1) ? 600 : 6); l.push_back(Plan::str(n)); for (int i = 0; i < n; i++) real(); break; }
    }
    p.add(l);
}
static std::string build(const Plan& p, const std::string& f) {
    uint64_t style = 0; bool tail = false; std::string after; for (auto* l : p.all("style")) if ((*l)[1] == f) { style = (uint64_t)toi((*l)[2]); }
    Rng r(style); std::string s; static const char* seps[] = {"\n", " ", "\t", "\r\n", "\n\n", "   \n", " \t "}; int mode = (int)r.below(4);
    auto sep = [&] { s += mode == 0 ? "\n" : mode == 1 ? seps[r.below(7)] : mode == 2 ? "\r\n" : " "; };
    if (r.chance(0.05)) s += " \n"; s += "BeginParameters"; sep();
    for (auto* l : p.all("key")) if ((*l)[1] == f) for (size_t i = 2; i < l->size(); i++) { s += (*l)[i]; sep(); }
    s += "EndParameters"; if (r.chance(0.7)) s += "\n"; if (r.chance(0.1)) s += "\nFaceDegree 77\n"; (void)tail;
    for (auto* l : p.all("mut")) if ((*l)[1] == f) {
        const auto& k = (*l)[2]; uint64_t a = (uint64_t)toi((*l)[3]), b = (uint64_t)toi((*l)[4]);
        std::vector<std::pair<size_t, size_t>> t; { size_t i = 0; while (i < s.size()) { while (i < s.size() && isspace((unsigned char)s[i])) i++; size_t j = i; while (i < s.size() && !isspace((unsigned char)s[i])) i++; if (i > j) t.push_back({j, i - j}); } }
        if (k == "trunc") { if (!s.empty()) s.resize(a % s.size()); }
        else if (k == "chop") s.resize(s.size() - std::min<size_t>(s.size(), 1 + a % 30));
        else if (k == "byte") { if (!s.empty()) s[a % s.size()] = (char)b; }
        else if (k == "zero") { for (size_t i = 0; i < b % 600 && !s.empty(); i++) s[(a + i) % s.size()] = 0; }
        else if (k == "cutblank") { std::vector<size_t> w; for (size_t i = 0; i < s.size(); i++) if (isspace((unsigned char)s[i])) w.push_back(i); if (!w.empty()) s.erase(w[a % w.size()], 1); }
        else if (t.empty()) continue;
        else if (k == "drop") { auto [q, n] = t[a % t.size()]; s.erase(q, n); }
        else if (k == "dup") { auto [q, n] = t[a % t.size()]; s.insert(q, s.substr(q, n) + " "); }
        else if (k == "word") { auto [q, n] = t[a % t.size()]; static const char* v[] = {"0", "-1", "2147483648", "2000000000", "1e400", "nan", "inf", "1.5", "x", "0x10", "1e", "--1", "1,5", "EndParameters", "BeginParameters", "TimeSave", "99999999999999999999", "1-2", "-2000000000", "1000000"}; s.replace(q, n, v[b % 20]); }
        else if (k == "grow") { auto [q, n] = t[a % t.size()]; s.insert(q + n, std::string(1 + b % 20000, "7x e"[b % 4])); }
    }
    return s;
}
static void gen_file(Rng& r, Plan& p, const std::string& f, bool damage) {
    p.put("style", f, r.below(1u << 30)); int n = (int)r.below(r.chance(0.05) ? 120 : 14); for (int i = 0; i < n; i++) gen_key(r, p, f);
    if (damage) { int m = r.chance(0.8) ? 1 : (int)r.range(2, 3); for (int i = 0; i < m; i++) { static const char* k[] = {"trunc", "trunc", "chop", "byte", "zero", "cutblank", "drop", "dup", "word", "word", "word", "grow"}; p.put("mut", f, k[r.below(12)], r.below(1000000), r.below(1000000)); } }
}
static Plan gen(Rng& r, int tier) {
    Plan p; p.cfg("sched_seed", r.below(1u << 30)); p.cfg("heap_mb", 64); int n = r.chance(0.6) ? 1 : (int)r.range(2, tier ? 6 : 4);
    for (int i = 0; i < n; i++) { std::string f = "f" + std::to_string(i); gen_file(r, p, f, r.chance(0.5)); p.put("read", f, r.below(2)); }
    if (r.chance(0.03)) p.put("read", "missing", 0);
    return p;
}
static void place(Rng& r, Plan& p, const Counts& c) {
    int n = (int)r.below(4); auto at = [&](const char* k) { return r.range(1, std::max<int64_t>(1, (int64_t)c.of(k))); };
    for (int i = 0; i < n; i++) switch (r.below(8)) {
        case 0: p.put("fault", "open", at("open"), r.chance(0.5) ? "eio" : r.chance(0.5) ? "enoent" : "emfile", 0); break;
        case 1: case 2: p.put("fault", "read", at("read"), "eio", 0); break;
        case 3: p.put("fault", "read", at("read"), "eof", 0); break;
        case 4: p.put("fault", "read", at("read"), "short", r.range(1, 60)); break;
        case 5: p.put("fault", "read", at("read"), r.chance(0.5) ? "eintr" : "slow", 1); break;
        case 6: { int64_t m = r.range(2, 30); for (int64_t k = 0; k < m; k++) p.put("fault", "read", k + 1, "short", r.range(1, 9)); break; }   // chunks
        default: if (r.chance(0.5)) p.put("fault", "alloc", at("alloc"), "enomem", 0); else p.put("fault", "close", at("close"), "eio", 0);
    }
}
static void exec(const Plan& p) {
    std::unique_ptr<Par> obj[2]; State st[2];
    for (auto* l : p.all("read")) {
        int o = (int)toi((*l)[2]) & 1; if (!obj[o]) { pause_faults(true); { Sut s; obj[o].reset(new Par()); } pause_faults(false); st[o] = observe(*obj[o]); st[o].one["FaceDegree"].known = true; }
        std::string text = (*l)[1] == "missing" ? "" : build(p, (*l)[1]), path = "/sim/" + (*l)[1]; bool exists = (*l)[1] != "missing"; if (exists) fs_write(path, text);
        fs_reset_visible(); int fds = open_fds(); set_step_limit(3000000ull + 3000ull * text.size()); uint64_t bad0 = destructive_fired();
        bool ok = false; std::string how = "returned";
        if (getenv("SIM_DUMP")) { fwrite(text.data(), 1, text.size(), stderr); fputs("<<<\n", stderr); }
        try { Sut s; ok = obj[o]->readParameters(path); } catch (const std::bad_alloc&) { how = "bad_alloc"; } catch (const std::exception& e) { how = std::string("exception ") + e.what(); } catch (...) { how = "unknown exception"; }
        set_step_limit(1ull << 60); bool faulty = destructive_fired() > bad0;
        std::string seen = text; uint64_t vis = fs_visible(path); if (vis < seen.size()) seen.resize(vis);
        State s = st[o], q = st[o]; bool open_s = false, open_q = false; bool strict = exists && reference(seen, true, s, open_s), lenient = exists && reference(seen, false, q, open_q);
        log("read %s obj %d -> %s %d strict %d lenient %d faulty %d", (*l)[1].c_str(), o, how.c_str(), (int)ok, (int)strict, (int)lenient, (int)faulty);
        note(how + (ok ? ":true" : ":false") + (strict ? ":complete" : "") + (lenient ? ":readable" : "") + (faulty ? ":fault" : "") + (open_s || open_q ? ":open" : ""));
        if (how != "returned" && !(how == "bad_alloc" && faulty)) violation("exception", "reading parameters ended with " + how);
        if (open_fds() != fds) violation("resource", "a file was left open");
        bool read_fault = faulty;
        if (ok && !strict && !lenient) violation("false-success", "true for a file that is not complete and well-formed");
        if (!ok && strict && !open_s && !read_fault && how == "returned") violation("refused", "false for a complete file");
        if (ok) {
            const State& want = strict ? s : q; State got = observe(*obj[o]);
            for (auto& [k, v] : want.one) if (v.known && memcmp(&v.v, &got.one[k].v, sizeof(double)) != 0) violation("value", k + " is not what the file says (" + Plan::str(got.one[k].v) + " instead of " + Plan::str(v.v) + ")");
            if (want.steps_known && got.steps != want.steps) violation("value", "the time steps are not those of the file");
            if (want.saves_known && got.saves != want.saves) violation("value", "the save times are not those of the file");
            probe("values_compared"); if (open_s || open_q) probe("open_choice"); if (!strict) probe("glued_values_accepted");
            State next = want; for (auto& [k, v] : next.one) if (!v.known) { v.v = got.one[k].v; } st[o] = next;
        } else {
            if (strict) probe("refused_complete_after_fault"); else probe("refused_incomplete");
            // what a refused file leaves behind is not specified for the keys it names
            for (auto& [k, v] : st[o].one) if (seen.find(k) != std::string::npos || text.find(k) != std::string::npos) v.known = false;
            if (text.find("FinalTime") != std::string::npos) st[o].one["has_end"].known = false;
            if (text.find("TimeSave") != std::string::npos) { st[o].one["n_save"].known = false; st[o].saves_known = false; }
            if (text.find("TimeStep") != std::string::npos) st[o].steps_known = false;
            if (text.find("Stab") != std::string::npos) st[o].one["StabType"].known = false;
        }
        if (vis != ~0ull) probe("ended_early");
    }
    std::string what; if (ledger_errors(&what)) violation("resource", what);
}
static struct Reg { Reg() { register_prop({"C17", gen, place, exec}); } } reg;
