// Deterministic simulation runtime: plan, PRNG, event log, fault engine, cooperative scheduler,
// checked heap, simulated files and clock.  Everything the code under test can observe that is not a
// function of its arguments goes through here.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- PRNG (splitmix/xoshiro-like)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }              // [0,n)
    int64_t  range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); } // [a,b]
    double   unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool     chance(double p) { return unit() < p; }
    template<class V> auto& pick(V& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plan = the complete run description
using Line = std::vector<std::string>;
struct Plan {
    std::vector<Line> lines;
    void add(Line l) { lines.push_back(std::move(l)); }
    template<class... A> void put(const std::string& k, A... a) { Line l{k}; (l.push_back(str(a)), ...); lines.push_back(l); }
    static std::string str(const std::string& s) { return s; }
    static std::string str(const char* s) { return s; }
    static std::string str(double d);
    template<class I> static std::string str(I i) { return std::to_string(i); }
    void cfg(const std::string& k, const std::string& v) { lines.push_back({"cfg", k, v}); }
    template<class I> void cfg(const std::string& k, I v) { cfg(k, str(v)); }
    std::string get(const std::string& k, const std::string& dflt = "") const;
    int64_t     geti(const std::string& k, int64_t dflt = 0) const;
    double      getd(const std::string& k, double dflt = 0) const;
    std::vector<const Line*> all(const std::string& kind) const;
    std::string text() const;
    static Plan parse(const std::string& t);
};

int64_t toi(const std::string& s);
double  tod(const std::string& s);

// ---------------------------------------------------------------- counts of faultable events of a run
struct Counts { std::map<std::string, uint64_t> n; uint64_t of(const std::string& k) const { auto i = n.find(k); return i == n.end() ? 0 : i->second; } };

// ---------------------------------------------------------------- properties register here
struct Prop {
    const char* id;
    std::function<Plan(Rng&, int tier)>                 gen;    // base plan (no faults)
    std::function<void(Rng&, Plan&, const Counts&)>     place;  // optional: place faults/preemptions given a dry run
    std::function<void(const Plan&)>                    exec;   // run; reports via sim::violation()
};
void register_prop(const Prop& p);

// ---------------------------------------------------------------- inside a run
[[noreturn]] void violation(const std::string& cls, const std::string& detail); // ends the run
void    log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));        // enters the event hash
void    note(const std::string& s);            // coarse signature of the run (distinct-behaviour measure)
void    probe(const char* name, uint64_t n = 1); // reach counter, aggregated
void    configure(const Plan& p);              // installs faults/preemptions/limits of a plan
uint64_t steps();
uint64_t sim_now();
void    clock_advance(uint64_t ns);
void    clock_wall_jump(int64_t ns);
Counts  counts();
bool    fault_fired(const char* kind);          // any fault of this kind fired in this run
uint64_t faults_fired();                        // number of faults fired so far
uint64_t destructive_fired();                   // faults that may legally make an operation fail
int     live_threads();                         // spawned and not yet finished
int     unjoined_threads();
uint64_t spawned_threads();
uint64_t heap_live();                           // bytes live in the checked heap
uint64_t max_request();
void    set_step_limit(uint64_t extra);         // step budget from here on
void    event(const char* kind);                // user-defined faultable event: counted; throws nothing
// user-defined fault point: returns the action configured for this occurrence of `kind` or ""
std::string fault_point(const char* kind);
void    fault_mark(const char* kind, const char* action); // a fault the harness injected by itself
void    pause_faults(bool on);                   // while on: no faults, and events are not counted
void    clear_faults();                         // faults stop (recovery phase)

struct Sut {                                    // code under test is running (instrumentation active)
    bool prev; Sut(); ~Sut();
};
struct Harness {                                // temporarily leave the code under test (callbacks)
    bool prev; Harness(); ~Harness();
};

// ---------------------------------------------------------------- simulated files (paths /sim/...)
void        fs_write(const std::string& path, const std::string& data); // harness: create with contents
std::string fs_read(const std::string& path);                           // harness: current contents
bool        fs_exists(const std::string& path);
std::vector<std::string> fs_list();
void        fs_remove(const std::string& path);
std::string fs_crash_image(const std::string& path, uint64_t bytes);    // what is on disk if the writer died there
uint64_t    fs_visible(const std::string& path);   // bytes an injected early end of file left visible (~0: all)
void        fs_reset_visible();
void        fs_disk_cap(uint64_t bytes);           // the simulated disk is full after so many more bytes (~0: never)
// resource ledger of the simulated kernel
int  open_fds();
int  live_maps();
int  ledger_errors(std::string* what); // foreign close/munmap etc. seen so far
uint64_t fd_serial();                  // number of successful opens so far
int  decoy_fd();                       // a descriptor owned by the harness; closing it is a ledger error
uint64_t hash_now();
bool muted();
}
