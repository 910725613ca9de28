// Runtime of the deterministic simulator.  NOT instrumented.  See rt.hpp.
#include "rt.hpp"
#include <atomic>
#include <cerrno>
#include <cxxabi.h>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" {
void* __libc_malloc(size_t);
void  __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

// raw system calls (the libc wrappers are interposed below)
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static inline long raw3(long n, long a, long b, long c) { return raw6(n, a, b, c, 0, 0, 0); }
static inline long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

namespace sim {

// ================================================================= plan
std::string Plan::str(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
int64_t toi(const std::string& s) { return strtoll(s.c_str(), nullptr, 10); }
double  tod(const std::string& s) { return strtod(s.c_str(), nullptr); }
std::string Plan::get(const std::string& k, const std::string& d) const {
    for (auto& l : lines) if (l.size() >= 3 && l[0] == "cfg" && l[1] == k) return l[2];
    return d;
}
int64_t Plan::geti(const std::string& k, int64_t d) const { auto s = get(k); return s.empty() ? d : toi(s); }
double  Plan::getd(const std::string& k, double d) const { auto s = get(k); return s.empty() ? d : tod(s); }
std::vector<const Line*> Plan::all(const std::string& kind) const {
    std::vector<const Line*> r; for (auto& l : lines) if (!l.empty() && l[0] == kind) r.push_back(&l); return r;
}
std::string Plan::text() const {
    std::string r; for (auto& l : lines) { for (size_t i = 0; i < l.size(); i++) { if (i) r += ' '; r += l[i]; } r += '\n'; } return r;
}
Plan Plan::parse(const std::string& t) {
    Plan p; std::istringstream is(t); std::string ln;
    while (std::getline(is, ln)) { if (ln.empty() || ln[0] == '#') continue;
        std::istringstream ls(ln); Line l; std::string w; while (ls >> w) l.push_back(w); if (!l.empty()) p.lines.push_back(l); }
    return p;
}

// ================================================================= global run state
static bool     g_child = false;      // inside a run
static bool     g_on = false;         // code under test active
static bool     g_arena = false;      // checked heap active
static int      g_out = -1;           // verdict pipe
static bool     g_trace = false;
static uint64_t g_hash = 1469598103934665603ull, g_sig = 1469598103934665603ull;
static uint64_t g_steps = 0, g_step_limit = ~0ull, g_mtsteps = 0;
static uint64_t g_now = 0; static int64_t g_walloff = 0;
static bool     g_mt = false;
static bool     g_heapcheck = true;
static bool     g_no_faults = false, g_paused = false;
static uint64_t g_heap_live = 0, g_heap_budget = ~0ull, g_maxreq = 0;
static uint64_t g_fired = 0, g_destr = 0;
bool muted() { return !g_on; }

struct FaultSpec { std::string action; int64_t arg; };
// run-time containers live in static storage, allocated with the C library heap
static std::map<std::string, std::map<uint64_t, FaultSpec>>* g_faults;
static std::map<std::string, uint64_t>* g_counts;
static std::map<std::string, uint64_t>* g_probes;
static std::map<std::string, uint64_t>* g_firedk;

struct NoArena { bool p, q; NoArena() : p(g_arena), q(g_on) { g_arena = false; g_on = false; } ~NoArena() { g_arena = p; g_on = q; } };

static void hmix(const char* s, size_t n) { for (size_t i = 0; i < n; i++) { g_hash ^= (unsigned char)s[i]; g_hash *= 1099511628211ull; } g_hash ^= '\n'; g_hash *= 1099511628211ull; }
static void smix(const char* s) { for (; *s; s++) { g_sig ^= (unsigned char)*s; g_sig *= 1099511628211ull; } g_sig ^= '|'; g_sig *= 1099511628211ull; }
void log(const char* fmt, ...) {
    NoArena na; char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    hmix(b, n); g_steps += 200;
    if (g_trace) { b[n] = '\n'; raw3(SYS_write, 2, (long)b, n + 1); }
}
void note(const std::string& s) { NoArena na; smix(s.c_str()); log("note %s", s.c_str()); }
void probe(const char* n, uint64_t k) { NoArena na; (*g_probes)[n] += k; }
uint64_t steps() { return g_steps; }
uint64_t sim_now() { return g_now; }
void clock_advance(uint64_t ns) { g_now += ns; }
void clock_wall_jump(int64_t ns) { g_walloff += ns; }
uint64_t hash_now() { return g_hash; }
uint64_t heap_live() { return g_heap_live; }
uint64_t max_request() { return g_maxreq; }
bool fault_fired(const char* k) { NoArena na; auto i = g_firedk->find(k); return i != g_firedk->end(); }
uint64_t faults_fired() { return g_fired; }
uint64_t destructive_fired() { return g_destr; }
void set_step_limit(uint64_t e) { g_step_limit = g_steps + e; }
void clear_faults() { g_no_faults = true; log("faults stop"); }
Counts counts() { NoArena na; Counts c; c.n = *g_counts; return c; }

Sut::Sut() { prev = g_on; g_on = true; }
Sut::~Sut() { g_on = prev; }
Harness::Harness() { prev = g_on; g_on = false; }
Harness::~Harness() { g_on = prev; }

static void raw_out(const std::string& s) { size_t o = 0; while (o < s.size()) { long r = raw3(SYS_write, g_out, (long)(s.data() + o), s.size() - o); if (r <= 0) break; o += r; } }
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '\t' || c == '\n' || c == '\r') r += ' '; else r += c; } return r; }
static void emit(const char* status, const std::string& cls, const std::string& detail) {
    g_arena = false; g_on = false; g_mt = false;
    std::ostringstream o;
    o << status << '\t' << esc(cls) << '\t' << esc(detail) << '\t' << std::hex << g_hash << '\t' << g_sig << std::dec << '\t' << g_steps << '\t' << g_now << '\t';
    bool first = true;
    for (auto& [k, v] : *g_firedk) { o << (first ? "" : ",") << "fault:" << k << '=' << v; first = false; }
    for (auto& [k, v] : *g_probes) { o << (first ? "" : ",") << "probe:" << k << '=' << v; first = false; }
    o << (first ? "" : ",") << "mtsteps=" << g_mtsteps;
    o << '\t';
    first = true;
    for (auto& [k, v] : *g_counts) { o << (first ? "" : ",") << k << '=' << v; first = false; }
    o << '\n';
    raw_out(o.str());
}
[[noreturn]] void violation(const std::string& cls, const std::string& detail) {
    g_arena = false; g_on = false;
    log("violation %s", cls.c_str());
    emit("V", cls, detail);
    raw3(SYS_exit_group, 0, 0, 0); __builtin_unreachable();
}
[[noreturn]] static void die(const char* cls, const char* detail) { violation(cls, detail); }

// ================================================================= faults
static bool is_benign(const std::string& a) { return a == "short" || a == "eintr" || a == "slow"; }
// returns spec if a fault is configured for this occurrence
static const FaultSpec* hit(const char* kind) {
    if (g_paused) return nullptr;
    uint64_t n = ++(*g_counts)[kind];
    if (g_no_faults) return nullptr;
    auto f = g_faults->find(kind); if (f == g_faults->end()) return nullptr;
    auto i = f->second.find(n); if (i == f->second.end()) return nullptr;
    g_fired++; if (!is_benign(i->second.action)) g_destr++;
    (*g_firedk)[std::string(kind) + ":" + i->second.action]++;
    char b[128]; snprintf(b, sizeof b, "F:%s:%s", kind, i->second.action.c_str()); smix(b);
    log("fault %s %llu %s %lld", kind, (unsigned long long)n, i->second.action.c_str(), (long long)i->second.arg);
    return &i->second;
}
std::string fault_point(const char* kind) { NoArena na; auto f = hit(kind); return f ? f->action : std::string(); }
void fault_mark(const char* kind, const char* action) { NoArena na; g_fired++; g_destr++; (*g_firedk)[std::string(kind) + ":" + action]++; log("fault %s %s", kind, action); }
void pause_faults(bool p) { g_paused = p; }
void event(const char* kind) { NoArena na; ++(*g_counts)[kind]; }

struct Preempt { uint64_t at; uint64_t choice; };
static std::vector<Preempt>* g_pre; static size_t g_prei = 0; static uint64_t g_next_pre = ~0ull;
static Rng g_srng(0);

void configure(const Plan& p) {
    NoArena na;
    g_faults->clear(); g_pre->clear(); g_prei = 0;
    for (auto& l : p.lines) {
        if (l[0] == "fault" && l.size() >= 4) (*g_faults)[l[1]][(uint64_t)toi(l[2])] = FaultSpec{l[3], l.size() > 4 ? toi(l[4]) : 0};
        if (l[0] == "preempt" && l.size() >= 3) g_pre->push_back({(uint64_t)toi(l[1]), (uint64_t)toi(l[2])});
    }
    for (size_t i = 1; i < g_pre->size(); i++) for (size_t j = i; j > 0 && (*g_pre)[j].at < (*g_pre)[j - 1].at; j--) std::swap((*g_pre)[j], (*g_pre)[j - 1]);
    g_next_pre = g_pre->empty() ? ~0ull : (*g_pre)[0].at;
    g_srng = Rng((uint64_t)p.geti("sched_seed", 1));
    g_heap_budget = (uint64_t)p.geti("heap_mb", 512) << 20;
    g_step_limit = (uint64_t)p.geti("step_limit", 4000000000ll);
    g_heapcheck = p.geti("heapcheck", 1);
}

// ================================================================= checked heap
static char* A_base = nullptr; static const uint64_t A_size = 64ull << 30; static char* A_top; static unsigned char* A_shadow;
struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; };    // 16 bytes just before the block
static const uint32_t MAGIC = 0x51A110C8;
static std::atomic_flag A_lock = ATOMIC_FLAG_INIT;
struct AL { AL() { while (A_lock.test_and_set(std::memory_order_acquire)) ; } ~AL() { A_lock.clear(std::memory_order_release); } };
static const int NCLS = 96;
struct Q { char** v; size_t head, n, cap; uint64_t bytes; };
static Q A_q[NCLS];
static inline int cls_of(uint64_t sz, uint64_t* rounded) {
    if (sz <= 1024) { int c = (int)((sz + 31) / 32); if (c == 0) c = 1; *rounded = (uint64_t)c * 32; return c; }
    int c = 33; uint64_t r = 2048; while (r < sz) { r <<= 1; c++; }
    *rounded = r; return c;
}
static inline bool in_arena(const void* p) { return (const char*)p >= A_base && (const char*)p < A_base + A_size; }
static void arena_init() {
    A_base = (char*)raw6(SYS_mmap, 0x100000000000, A_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    A_shadow = (unsigned char*)raw6(SYS_mmap, 0x200000000000, A_size / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    A_top = A_base + 4096;
}
// shadow byte per 8 bytes: 0 = never allocated (poison), 1..8 = first k bytes ok, 0xfd freed, 0xfa redzone
static inline void sh_set(char* p, uint64_t size) {
    uint64_t i = (uint64_t)(p - A_base) >> 3; uint64_t full = size >> 3; memset(A_shadow + i, 8, full); if (size & 7) A_shadow[i + full] = (unsigned char)(size & 7);
}
static inline void sh_free(char* p, uint64_t size) { uint64_t i = (uint64_t)(p - A_base) >> 3; memset(A_shadow + i, 0xfd, (size + 7) >> 3); }
static void race_forget(const void* p, uint64_t n);
static void* arena_alloc(uint64_t size, uint64_t align) {
    if (g_on) {
        if (size > g_maxreq) g_maxreq = size;
        bool p = g_on, q = g_arena; g_on = false; g_arena = false;
        auto f = hit("alloc"); g_on = p; g_arena = q;
        if (f) { errno = ENOMEM; return nullptr; }
    }
    if (size > g_heap_budget || g_heap_live + size > g_heap_budget) {
        if (g_child) { bool p = g_on, q = g_arena; g_on = false; g_arena = false; (*g_probes)["heap_budget_hit"]++; g_on = p; g_arena = q; }
        errno = ENOMEM; return nullptr;
    }
    AL l;
    uint64_t want = size ? size : 1; if (align > 32) want += align;
    uint64_t r; int c = cls_of(want, &r); Q& q = A_q[c]; char* blk;
    if (q.n > 512 || (q.n > 8 && q.bytes > (16ull << 20))) {
        blk = q.v[q.head]; q.head = (q.head + 1) % q.cap; q.n--; q.bytes -= r;
        race_forget(blk, r);
    } else { blk = A_top + 64; A_top += 64 + r; if (A_top > A_base + A_size) { errno = ENOMEM; return nullptr; } }
    char* p = blk; if (align > 32) { p = (char*)(((uint64_t)blk + align - 1) / align * align); }
    Hdr* h = (Hdr*)(p - 16); h->size = size; h->cls = (uint32_t)c; h->magic = MAGIC; ((char**)(p - 32))[0] = blk; 
    if (g_heapcheck) { sh_free(blk, r); sh_set(p, size); }
    memset(p, 0xA5, size < 4096 ? size : 4096);
    g_heap_live += size; return p;
}
static void arena_free(void* v) {
    char* p = (char*)v; Hdr* h = (Hdr*)(p - 16);
    if (h->magic != MAGIC) { if (h->magic == 0xDEADF4EE) die("heap", "double free"); die("heap", "free of a pointer that is not a heap block"); }
    AL l;
    char* blk = ((char**)(p - 32))[0]; uint64_t r; uint64_t want = h->size ? h->size : 1; int c = (int)h->cls;
    if (c <= 32) r = (uint64_t)c * 32; else r = 2048ull << (c - 33); (void)want;
    h->magic = 0xDEADF4EE; g_heap_live -= h->size;
    if (g_heapcheck) sh_free(blk, r);
    if (c > 32 && r >= (1u << 20)) { madvise(blk, r, MADV_DONTNEED); ((Hdr*)(p - 16))->magic = 0xDEADF4EE; ((Hdr*)(p-16))->cls = c; }
    Q& q = A_q[c];
    if (q.n == q.cap) { size_t nc = q.cap ? q.cap * 2 : 1024; char** nv = (char**)__libc_malloc(nc * sizeof(char*)); for (size_t i = 0; i < q.n; i++) nv[i] = q.v[(q.head + i) % q.cap]; __libc_free(q.v); q.v = nv; q.cap = nc; q.head = 0; }
    q.v[(q.head + q.n) % q.cap] = blk; q.n++; q.bytes += r;
}
static inline void heap_check(const void* a, uint64_t n, bool w) {
    const char* p = (const char*)a;
    uint64_t o = (uint64_t)(p - A_base); uint64_t last = o + n - 1;
    for (uint64_t i = o >> 3; i <= last >> 3; i++) {
        unsigned char s = A_shadow[i];
        uint64_t hi = (i == (last >> 3)) ? (last & 7) + 1 : 8;
        if (s >= 1 && s <= 8 && hi <= s) continue;
        if (s == 0xfd) die("heap", w ? "write to freed or unowned heap memory" : "read of freed or unowned heap memory");
        die("heap", w ? "heap write out of bounds" : "heap read out of bounds");
    }
}

// ================================================================= scheduler + races
static const int MAXT = 32;
struct Thr { int id; int go; bool used, done, joined, detached, reaped; pthread_t real; void* (*fn)(void*); void* arg; void* retval; uint32_t vc[MAXT]; bool on; bool blocked; };
static Thr T[MAXT]; static int nT = 1; static int cur = 0; static int g_alive = 1; static uint64_t g_spawned = 0;
static thread_local int tl_id = 0;
static int  (*real_pcreate)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int  (*real_pjoin)(pthread_t, void**);
static int pending_reap = -1;

static void fwait(int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, (long)a, FUTEX_WAIT, 0, 0, 0, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
static void fwake(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); raw6(SYS_futex, (long)a, FUTEX_WAKE, 1, 0, 0, 0); }
static void reap() { if (pending_reap >= 0) { int r = pending_reap; pending_reap = -1; bool a = g_arena, o = g_on; g_arena = false; g_on = false; real_pjoin(T[r].real, nullptr); g_arena = a; g_on = o; T[r].reaped = true; } }
static void resume(int me) { fwait(&T[me].go); cur = me; reap(); g_on = T[me].on; }
static void switch_to(int t) {
    int me = cur; if (t == me) return;
    bool p = g_arena; T[me].on = g_on;
    log("switch %d->%d", me, t); { NoArena na; (*g_probes)["thread_switches"]++; }
    cur = t; fwake(&T[t].go); resume(me); g_arena = p;
}
static int runnable(int* v) { int n = 0; for (int i = 0; i < nT; i++) if (T[i].used && !T[i].done && !T[i].blocked) v[n++] = i; return n; }
static void choose_any(uint64_t c) { int v[MAXT]; int n = runnable(v); if (n == 0) return; switch_to(v[c % n]); }
static void choose_other(uint64_t c) { int v[MAXT]; int n = runnable(v), m = 0, w[MAXT]; for (int i = 0; i < n; i++) if (v[i] != cur) w[m++] = v[i]; if (m) switch_to(w[c % m]); }
int live_threads() { return g_alive - 1; }
int unjoined_threads() { int n = 0; for (int i = 1; i < nT; i++) if (T[i].used && !T[i].joined && !T[i].detached) n++; return n; }
uint64_t spawned_threads() { return g_spawned; }

struct Rec { uint32_t clk; uint8_t tid, mask, w, live; };
struct Cell { uint64_t key; Rec r[4]; };
static Cell* R_tab; static const uint64_t R_n = 1ull << 21; static uint64_t R_used = 0; static uint32_t R_gen = 1;
static void race_init() { R_tab = (Cell*)raw6(SYS_mmap, 0, R_n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static inline Cell* race_cell(uint64_t k8, bool create) {
    uint64_t key = (k8 << 12) | (R_gen & 0xfff); uint64_t h = (k8 * 0x9E3779B97F4A7C15ull) >> 43;
    for (;;) { Cell* c = &R_tab[h & (R_n - 1)]; if (c->key == key) return c; if ((c->key & 0xfff) != (R_gen & 0xfff) || c->key == 0) { if (!create) return nullptr; memset(c, 0, sizeof *c); c->key = key; if (++R_used > R_n * 3 / 4) die("harness:race-table-full", ""); return c; } h++; }
}
static void race_forget(const void* p, uint64_t n) { if (!g_mt) return; for (uint64_t k = (uint64_t)p >> 3; k <= ((uint64_t)p + n - 1) >> 3; k++) { Cell* c = race_cell(k, false); if (c) memset(c->r, 0, sizeof c->r); } }
static void race_access(const void* a, uint64_t n, bool w) {
    uint64_t p = (uint64_t)a, e = p + n; int me = cur;
    for (uint64_t k = p >> 3; k <= (e - 1) >> 3; k++) {
        uint64_t lo = k << 3; uint8_t mask = 0; for (int b = 0; b < 8; b++) if (lo + b >= p && lo + b < e) mask |= 1u << b;
        Cell* c = race_cell(k, true); int slot = -1;
        for (int i = 0; i < 4; i++) { Rec& r = c->r[i]; if (!r.live) { if (slot < 0) slot = i; continue; }
            if (!(r.mask & mask)) continue;
            if (r.tid == me) { if ((r.w || !w) && r.mask == mask && r.clk == T[me].vc[me] && r.w == w) { slot = i; } continue; }
            if ((r.w || w) && T[me].vc[r.tid] < r.clk) {
                char b[160]; snprintf(b, sizeof b, "%s by thread %d conflicts with unordered %s by thread %d (%s memory)", w ? "write" : "read", me, r.w ? "write" : "read", r.tid, in_arena(a) ? "heap" : "static/stack");
                die("race", b);
            }
        }
        if (slot < 0) { for (int i = 0; i < 4; i++) if (c->r[i].tid == me && (!c->r[i].w || w) && (c->r[i].mask & ~mask) == 0) slot = i; }
        if (slot < 0) { for (int i = 0; i < 4; i++) if (!c->r[i].w || T[me].vc[c->r[i].tid] >= c->r[i].clk) { slot = i; break; } }
        if (slot < 0) slot = (int)(g_mtsteps & 3);
        c->r[slot] = Rec{T[me].vc[me], (uint8_t)me, mask, (uint8_t)w, 1};
    }
}
static std::map<const void*, std::vector<uint32_t>>* g_sync;
static void hb_release(const void* a) { if (!g_mt) return; NoArena na; auto& v = (*g_sync)[a]; v.resize(MAXT); for (int i = 0; i < MAXT; i++) if (T[cur].vc[i] > v[i]) v[i] = T[cur].vc[i]; T[cur].vc[cur]++; }
static void hb_acquire(const void* a) { if (!g_mt) return; NoArena na; auto i = g_sync->find(a); if (i == g_sync->end()) return; for (int k = 0; k < MAXT; k++) if (i->second[k] > T[cur].vc[k]) T[cur].vc[k] = i->second[k]; }

static void slow_point() {   // step budget or preemption reached
    if (g_steps >= g_step_limit) { char b[96]; snprintf(b, sizeof b, "no termination within %llu instrumented steps", (unsigned long long)g_step_limit); die("hang", b); }
}
static inline void sched_point() {
    if (++g_mtsteps >= g_next_pre) {
        uint64_t c = (*g_pre)[g_prei].choice; g_prei++; g_next_pre = g_prei < g_pre->size() ? (*g_pre)[g_prei].at : ~0ull;
        { NoArena na; (*g_firedk)["preempt"]++; g_fired++; }
        choose_other(c);
    }
}
static inline void acc(const void* a, uint64_t n, bool w) {
    if (!g_on) return;
    if (++g_steps >= g_step_limit) slow_point();
    if (in_arena(a)) { if (g_heapcheck && n) heap_check(a, n, w); }
    if (g_mt && n) { race_access(a, n, w); sched_point(); }
}
static inline void tick() { if (!g_on) return; if (++g_steps >= g_step_limit) slow_point(); if (g_mt) sched_point(); }

static void* tramp(void* v) {
    Thr* t = (Thr*)v; tl_id = t->id; fwait(&t->go); cur = t->id; 
    // signal stack for crash reports
    reap(); g_on = true; g_arena = true;
    t->retval = t->fn(t->arg);
    g_on = false; t->done = true; g_alive--;
    log("thread %d done", t->id);
    // wake joiners
    for (int i = 0; i < nT; i++) if (T[i].blocked) T[i].blocked = false;
    int r[MAXT]; int n = runnable(r); if (n == 0) die("deadlock", "no runnable thread");
    int nx = r[g_srng.below(n)];
    log("switch %d->%d (exit)", t->id, nx);
    pending_reap = t->id; cur = nx; g_arena = true; fwake(&T[nx].go);
    return nullptr;
}
static int sim_create(pthread_t* th, void* (*fn)(void*), void* arg) {
    { NoArena na; auto f = hit("thread"); if (f) { return EAGAIN; } }
    if (nT >= MAXT) die("harness:too-many-threads", "");
    if (!g_mt) { g_mt = true; R_gen++; R_used = 0; }
    int id = nT++; Thr& t = T[id]; memset(&t, 0, sizeof t); t.id = id; t.used = true; t.fn = fn; t.arg = arg; g_alive++; g_spawned++;
    for (int i = 0; i < MAXT; i++) t.vc[i] = T[cur].vc[i];
    t.vc[id] = 1; T[cur].vc[cur]++;
    bool a = g_arena, o = g_on; g_arena = false; g_on = false;
    // a fresh stack per thread, never reused: reuse would look like unordered accesses to the same memory
    const size_t SZ = 8u << 20; void* stk = (void*)raw6(SYS_mmap, 0, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk, SZ);
    int r = real_pcreate(&t.real, &at, tramp, &t); pthread_attr_destroy(&at); g_arena = a; g_on = o;
    if (r) die("harness:pthread_create", strerror(r));
    *th = t.real; log("spawn %d", id);
    uint64_t c = g_srng.next(); if (c & 1) choose_any(c >> 1);
    return 0;
}
static int find_thr(pthread_t p) { for (int i = nT - 1; i >= 1; i--) if (T[i].used && pthread_equal(T[i].real, p) && !T[i].joined) return i; return -1; }
static int sim_join(pthread_t p, void** rv) {
    int i = find_thr(p); if (i < 0) return ESRCH;
    while (!T[i].done) { T[cur].blocked = true; int v[MAXT]; int n = runnable(v); if (n == 0) die("deadlock", "join with no runnable thread"); switch_to(v[g_srng.below(n)]); T[cur].blocked = false; }
    for (int k = 0; k < MAXT; k++) if (T[i].vc[k] > T[cur].vc[k]) T[cur].vc[k] = T[i].vc[k];
    T[i].joined = true; if (rv) *rv = T[i].retval; log("join %d", i);
    if (g_alive == 1 && unjoined_threads() == 0) g_mt = false;
    return 0;
}
// run every remaining thread to completion (end of run / detached workers)
static void drain() { int guard = 0; while (g_alive > 1 && guard++ < 100000) choose_other(g_srng.next()); }

// ================================================================= simulated files
static uint64_t g_disk_cap = ~0ull, g_disk_used = 0;
struct FdInfo { std::string path; bool stream; FILE* fp; bool eof = false; };
static std::map<std::string, uint64_t>* g_trunc;     // where an injected end of file hid the rest of a file
static std::map<std::string, int>* g_files;          // path -> memfd
static std::map<int, FdInfo>* g_fds;                 // descriptors handed to the code under test
static std::map<char*, uint64_t>* g_maps;            // live mappings
static std::map<FILE*, int>* g_streams;
static std::vector<std::string>* g_lerr; static uint64_t g_fdserial = 0; static int g_decoy = -1;
static bool issim(const char* p) { return p && strncmp(p, "/sim/", 5) == 0; }
static int memfile(const std::string& p, bool create) { auto i = g_files->find(p); if (i != g_files->end()) return i->second; if (!create) return -1;
    int fd = (int)raw3(SYS_memfd_create, (long)"sim", 0, 0); if (fd < 900) { int hi = (int)raw3(SYS_fcntl, fd, F_DUPFD, 900); raw3(SYS_close, fd, 0, 0); fd = hi; } (*g_files)[p] = fd; return fd; }
void fs_write(const std::string& p, const std::string& d) { NoArena na; int fd = memfile(p, true); raw3(SYS_ftruncate, fd, 0, 0); size_t o = 0; while (o < d.size()) { long r = raw6(SYS_pwrite64, fd, (long)(d.data() + o), d.size() - o, o, 0, 0); if (r <= 0) die("harness:fs_write", ""); o += r; } }
std::string fs_read(const std::string& p) { NoArena na; int fd = memfile(p, false); std::string s; if (fd < 0) return s; char b[65536]; uint64_t o = 0; for (;;) { long r = raw6(SYS_pread64, fd, (long)b, sizeof b, o, 0, 0); if (r <= 0) break; s.append(b, r); o += r; } return s; }
bool fs_exists(const std::string& p) { NoArena na; return memfile(p, false) >= 0; }
void fs_remove(const std::string& p) { NoArena na; g_files->erase(p); }
std::vector<std::string> fs_list() { NoArena na; std::vector<std::string> r; for (auto& [k, v] : *g_files) r.push_back(k); return r; }
uint64_t fs_visible(const std::string& p) { NoArena na; auto i = g_trunc->find(p); return i == g_trunc->end() ? ~0ull : i->second; }
void fs_reset_visible() { NoArena na; g_trunc->clear(); }
void fs_disk_cap(uint64_t bytes) { g_disk_cap = bytes == ~0ull ? bytes : g_disk_used + bytes; }
std::string fs_crash_image(const std::string& p, uint64_t bytes) { auto s = fs_read(p); if (s.size() > bytes) s.resize(bytes); return s; }
int open_fds() { return (int)g_fds->size(); }
int live_maps() { return (int)g_maps->size(); }
uint64_t fd_serial() { return g_fdserial; }
int ledger_errors(std::string* w) { NoArena na; if (w && !g_lerr->empty()) *w = g_lerr->front(); return (int)g_lerr->size(); }
int decoy_fd() { return g_decoy; }
static void lerr(const char* s) { NoArena na; log("ledger: %s", s); g_lerr->push_back(s); }

static int errno_of(const std::string& a) {
    if (a == "eio") return EIO; if (a == "enoent") return ENOENT; if (a == "eacces") return EACCES; if (a == "emfile") return EMFILE;
    if (a == "enomem") return ENOMEM; if (a == "enospc") return ENOSPC; if (a == "eintr") return EINTR; if (a == "eagain") return EAGAIN; if (a == "edquot") return EDQUOT;
    return EIO;
}
static int sim_open(const char* path, int flags, const char* how) {
    NoArena na; g_now += 20000;
    auto f = hit("open"); log("open %s %s", how, path);
    if (f) { errno = errno_of(f->action); return -1; }
    int mf = memfile(path, flags & O_CREAT); if (mf < 0) { errno = ENOENT; return -1; }
    char pp[64]; snprintf(pp, sizeof pp, "/proc/self/fd/%d", mf);
    int fd = (int)ret(raw6(SYS_openat, AT_FDCWD, (long)pp, flags & ~(O_CREAT | O_EXCL), 0, 0, 0));
    if (fd < 0) die("harness:open", strerror(errno));
    (*g_fds)[fd] = FdInfo{path, false, nullptr}; g_fdserial++;
    return fd;
}
static bool tracked(int fd) { return g_child && g_fds && g_fds->count(fd); }

// ================================================================= crash handling
static char g_altstack[1 << 16];
static void on_sig(int s, siginfo_t* si, void*) {
    const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : "SIGILL";
    char b[64]; snprintf(b, sizeof b, "crash:%s", n);
    const char* d = s == SIGABRT ? "process aborted (std::terminate, assertion or abort)" : "invalid memory access";
    (void)si; violation(b, d);
}
static void child_signals() {
    stack_t ss{}; ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
}

// ================================================================= real functions
static FILE* (*real_fopen)(const char*, const char*); static int (*real_fclose)(FILE*); static size_t (*real_fread)(void*, size_t, size_t, FILE*);
static size_t (*real_fwrite)(const void*, size_t, size_t, FILE*); static int (*real_fflush)(FILE*); static int (*real_fseek)(FILE*, long, int);
static int (*real_stat)(const char*, struct stat*); static int (*real_access)(const char*, int); static int (*real_mlock)(pthread_mutex_t*); static int (*real_mtry)(pthread_mutex_t*); static int (*real_munlock)(pthread_mutex_t*);
static int (*real_once)(pthread_once_t*, void (*)(void)); static int (*real_detach)(pthread_t); static int (*real_remove)(const char*); static int (*real_unlink)(const char*); static int (*real_rename)(const char*, const char*);
static int (*real_cwait)(pthread_cond_t*, pthread_mutex_t*); static int (*real_csig)(pthread_cond_t*); static int (*real_cbc)(pthread_cond_t*);
static char* (*real_fgets)(char*, int, FILE*); static int (*real_fgetc)(FILE*); static int (*real_fputs)(const char*, FILE*); static int (*real_fputc)(int, FILE*);
static int (*real_lstat)(const char*, struct stat*);
template<class F> static void res(F& f, const char* n) { f = (F)dlsym(RTLD_NEXT, n); }
static bool g_inited = false;
static bool g_resolved = false;
static void resolve_all() {
    if (g_resolved) return; g_resolved = true;
    res(real_fopen, "fopen"); res(real_fclose, "fclose"); res(real_fread, "fread"); res(real_fwrite, "fwrite"); res(real_fflush, "fflush"); res(real_fseek, "fseek");
    res(real_stat, "stat"); res(real_lstat, "lstat"); res(real_access, "access"); res(real_pcreate, "pthread_create"); res(real_pjoin, "pthread_join"); res(real_mlock, "pthread_mutex_lock");
    res(real_mtry, "pthread_mutex_trylock"); res(real_munlock, "pthread_mutex_unlock"); res(real_once, "pthread_once"); res(real_detach, "pthread_detach");
    res(real_remove, "remove"); res(real_unlink, "unlink"); res(real_rename, "rename");
    res(real_cwait, "pthread_cond_wait"); res(real_csig, "pthread_cond_signal"); res(real_cbc, "pthread_cond_broadcast");
    res(real_fgets, "fgets"); res(real_fgetc, "fgetc"); res(real_fputs, "fputs"); res(real_fputc, "fputc");
}
static inline void ensure() { if (!g_resolved) resolve_all(); }
__attribute__((constructor(101))) static void rt_init() {
    if (g_inited) return; g_inited = true; ensure();
    g_faults = new std::map<std::string, std::map<uint64_t, FaultSpec>>; g_counts = new std::map<std::string, uint64_t>; g_probes = new std::map<std::string, uint64_t>;
    g_firedk = new std::map<std::string, uint64_t>; g_pre = new std::vector<Preempt>; g_sync = new std::map<const void*, std::vector<uint32_t>>;
    g_files = new std::map<std::string, int>; g_fds = new std::map<int, FdInfo>; g_maps = new std::map<char*, uint64_t>; g_streams = new std::map<FILE*, int>; g_lerr = new std::vector<std::string>; g_trunc = new std::map<std::string, uint64_t>;
    T[0].used = true; T[0].vc[0] = 1;
}

// ================================================================= driver
static std::map<std::string, Prop>& props() { static std::map<std::string, Prop> p; return p; }
void register_prop(const Prop& p) { props()[p.id] = p; }

struct Verdict { std::string status, cls, detail, hash, sig; uint64_t steps = 0, simns = 0; std::map<std::string, uint64_t> ctr, counts; };
static void parse_kv(const std::string& s, std::map<std::string, uint64_t>& m) {
    std::istringstream is(s); std::string t; while (std::getline(is, t, ',')) { auto e = t.rfind('='); if (e != std::string::npos) m[t.substr(0, e)] = strtoull(t.c_str() + e + 1, nullptr, 10); }
}
static int64_t g_watchdog = 25;
// Every run is executed by a child of the zygote: a process forked off before anything else happened, which only
// reads plans and forks.  So each run starts from the same process image, whatever the driver did before.
struct ZReq { uint32_t len, trace; };
struct ZRes { uint32_t len, timeout; int32_t status; };
static int g_zin = -1, g_zout = -1;
static bool rd_all(int fd, void* b, size_t n) { char* p = (char*)b; while (n) { long r = raw3(SYS_read, fd, (long)p, n); if (r == -EINTR) continue; if (r <= 0) return false; p += r; n -= (size_t)r; } return true; }
static bool wr_all(int fd, const void* b, size_t n) { const char* p = (const char*)b; while (n) { long r = raw3(SYS_write, fd, (long)p, n); if (r == -EINTR) continue; if (r <= 0) return false; p += r; n -= (size_t)r; } return true; }
static char z_plan[1 << 20], z_out[1 << 20];
static void run_child(const Prop& pr, uint32_t len, bool trace, int* pfd) {
    raw3(SYS_close, pfd[0], 0, 0); raw3(SYS_close, g_zin, 0, 0); raw3(SYS_close, g_zout, 0, 0);
    // keep the pipe out of the way of low descriptor numbers
    g_out = (int)raw3(SYS_fcntl, pfd[1], F_DUPFD, 950); raw3(SYS_close, pfd[1], 0, 0);
    int dn = (int)raw6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR, 0, 0, 0); raw3(SYS_dup2, dn, 1, 0); raw3(SYS_dup2, dn, 0, 0); if (!trace && !getenv("SIM_STDERR")) raw3(SYS_dup2, dn, 2, 0); raw3(SYS_close, dn, 0, 0);
    g_trace = trace; g_child = true; child_signals();
    alarm(0);
    g_decoy = (int)raw6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDONLY, 0, 0, 0);
    Plan plan = Plan::parse(std::string(z_plan, len));
    configure(plan);
    try {
        g_arena = true;
        pr.exec(plan);
        g_arena = false; g_on = false;
    } catch (const std::exception& e) { g_arena = false; g_on = false; violation("harness:uncaught", e.what()); }
    drain();
    emit("OK", "", "");
    raw3(SYS_exit_group, 0, 0, 0);
}
static void zygote(const Prop& pr) {
    for (;;) {
        ZReq q; if (!rd_all(g_zin, &q, sizeof q) || q.len > sizeof z_plan || !rd_all(g_zin, z_plan, q.len)) raw3(SYS_exit_group, 0, 0, 0);
        int pfd[2]; if (raw3(SYS_pipe2, (long)pfd, 0, 0)) raw3(SYS_exit_group, 3, 0, 0);
        pid_t pid = fork();
        if (pid == 0) run_child(pr, q.len, q.trace, pfd);
        raw3(SYS_close, pfd[1], 0, 0);
        ZRes z{0, 0, 0}; struct timespec t0, t1; raw3(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t0, 0);
        for (;;) {
            struct pollfd p{pfd[0], POLLIN, 0}; long r = raw3(SYS_poll, (long)&p, 1, 2000);
            if (r > 0) { long n = z.len < sizeof z_out ? raw3(SYS_read, pfd[0], (long)(z_out + z.len), sizeof z_out - z.len) : 0; if (n <= 0) break; z.len += (uint32_t)n; }
            else { raw3(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t1, 0); if (t1.tv_sec - t0.tv_sec > g_watchdog) { z.timeout = 1; raw3(SYS_kill, pid, SIGKILL, 0); break; } }
        }
        raw3(SYS_close, pfd[0], 0, 0);
        while (raw6(SYS_wait4, pid, (long)&z.status, 0, 0, 0, 0) == -EINTR) ;
        if (!wr_all(g_zout, &z, sizeof z) || !wr_all(g_zout, z_out, z.len)) raw3(SYS_exit_group, 0, 0, 0);
    }
}
static void start_zygote(const Prop& pr) {
    int a[2], b[2]; if (raw3(SYS_pipe2, (long)a, O_CLOEXEC, 0) || raw3(SYS_pipe2, (long)b, O_CLOEXEC, 0)) exit(3);
    pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) { raw3(SYS_close, a[1], 0, 0); raw3(SYS_close, b[0], 0, 0); g_zin = a[0]; g_zout = b[1]; zygote(pr); }
    raw3(SYS_close, a[0], 0, 0); raw3(SYS_close, b[1], 0, 0); g_zin = b[0]; g_zout = a[1];
}
static Verdict run_plan(const Prop&, const Plan& plan, bool trace) {
    fflush(stdout); fflush(stderr);
    std::string txt = plan.text(); ZReq q{(uint32_t)txt.size(), trace}; ZRes z; std::string buf; 
    if (txt.size() > sizeof z_plan || !wr_all(g_zout, &q, sizeof q) || !wr_all(g_zout, txt.data(), txt.size()) || !rd_all(g_zin, &z, sizeof z)) { fprintf(stderr, "no zygote\n"); exit(3); }
    buf.resize(z.len); if (!rd_all(g_zin, buf.data(), z.len)) { fprintf(stderr, "no zygote\n"); exit(3); }
    bool timeout = z.timeout; int st = z.status;
    Verdict v;
    if (timeout) { v.status = "V"; v.cls = "hang"; v.detail = "no termination (wall clock watchdog)"; v.hash = v.sig = "0"; return v; }
    std::vector<std::string> f; std::istringstream is(buf); std::string t; while (std::getline(is, t, '\t')) { while (!t.empty() && t.back() == '\n') t.pop_back(); f.push_back(t); }
    if (f.size() < 8) {
        v.status = "V"; v.hash = v.sig = "0"; char b[64];
        if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash:signal%d", WTERMSIG(st)); else snprintf(b, sizeof b, "crash:exit%d", WEXITSTATUS(st));
        v.cls = b; v.detail = "process ended without a verdict"; return v;
    }
    v.status = f[0]; v.cls = f[1]; v.detail = f[2]; v.hash = f[3]; v.sig = f[4]; v.steps = strtoull(f[5].c_str(), 0, 10); v.simns = strtoull(f[6].c_str(), 0, 10);
    parse_kv(f[7], v.ctr); if (f.size() > 8) parse_kv(f[8], v.counts);
    return v;
}
static uint64_t mixseed(uint64_t seed, uint64_t idx, const std::string& id) { uint64_t h = 1469598103934665603ull; for (char c : id) { h ^= (unsigned char)c; h *= 1099511628211ull; } Rng r(seed * 0x9E3779B97F4A7C15ull + idx * 0xD1B54A32D192ED03ull + h); r.next(); return r.next(); }
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
// returns final verdict and the plan it belongs to
static Verdict run_index(const Prop& pr, uint64_t seed, uint64_t idx, int tier, Plan& plan, uint64_t& nruns) {
    uint64_t s = mixseed(seed, idx, pr.id); Rng r(s); plan = pr.gen(r, tier);
    if (pr.place) { Plan base = plan; Verdict d = run_plan(pr, base, false); nruns++; if (d.status != "OK") return d;
        Counts c; c.n = d.counts; c.n["mtsteps"] = d.ctr["mtsteps"]; c.n["steps"] = d.steps; Rng r2(s ^ 0xABCDEF); pr.place(r2, plan, c); }
    nruns++; return run_plan(pr, plan, false);
}
static double wall() { struct timespec t; raw3(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t, 0); return t.tv_sec + t.tv_nsec * 1e-9; }
static int driver(int argc, char** argv) {
    if (argc < 3) { fprintf(stderr, "usage: %s batch|exec|gen|hashes PROP ...\n", argv[0]); return 3; }
    std::string mode = argv[1]; auto it = props().find(argv[2]);
    if (it == props().end()) { fprintf(stderr, "unknown property %s\n", argv[2]); return 3; }
    const Prop& pr = it->second; start_zygote(pr);
    if (mode == "gen") { Plan p; uint64_t n = 0; Verdict v = run_index(pr, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), argc > 5 ? atoi(argv[5]) : 0, p, n); printf("%s# %s %s %s\n", p.text().c_str(), v.status.c_str(), v.cls.c_str(), v.detail.c_str()); return 0; }
    if (mode == "exec") {
        std::string t; FILE* f = real_fopen(argv[3], "r"); if (!f) { perror(argv[3]); return 3; } char b[65536]; size_t n; while ((n = real_fread(b, 1, sizeof b, f)) > 0) t.append(b, n); real_fclose(f);
        Verdict v = run_plan(pr, Plan::parse(t), argc > 4);
        printf("{\"status\":\"%s\",\"class\":\"%s\",\"detail\":\"%s\",\"hash\":\"%s\",\"steps\":%llu}\n", v.status.c_str(), jesc(v.cls).c_str(), jesc(v.detail).c_str(), v.hash.c_str(), (unsigned long long)v.steps);
        return 0;
    }
    if (mode == "hashes") { uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), cnt = strtoull(argv[5], 0, 10); int tier = atoi(argv[6]); for (uint64_t i = from; i < from + cnt; i++) { Plan p; uint64_t n = 0; Verdict v = run_index(pr, seed, i, tier, p, n); printf("%llu %s %s\n", (unsigned long long)i, v.hash.c_str(), v.cls.c_str()); } return 0; }
    if (mode == "batch") {
        uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), maxr = strtoull(argv[6], 0, 10); double dl = atof(argv[7]); int tier = atoi(argv[8]);
        double t0 = wall(); uint64_t nruns = 0, done = 0, steps = 0, simns = 0, nviol = 0, maxsteps = 0; std::map<std::string, uint64_t> ctr, runs_with; std::unordered_set<std::string> hs, sg;
        std::vector<std::string> hashes; Plan firstp; std::string firsto; std::map<std::string, int> percls;
        for (uint64_t k = 0; k < maxr && wall() - t0 < dl; k++) {
            uint64_t idx = from + k * stride; Plan p; Verdict v = run_index(pr, seed, idx, tier, p, nruns);
            done++; steps += v.steps; simns += v.simns; if (v.steps > maxsteps) maxsteps = v.steps;
            for (auto& [a, b] : v.ctr) { ctr[a] += b; if (b) runs_with[a]++; }
            { bool nt = false; for (auto& [a, b] : v.ctr) if (b && a != "mtsteps") nt = true; if (nt && hs.size() < 400000) hs.insert(v.hash); } if (sg.size() < 4000000) sg.insert(v.sig);
            if (k < 24) printf("H %llu %s\n", (unsigned long long)idx, v.hash.c_str());
            if (k < 2) printf("S %llu %s\n", (unsigned long long)idx, jesc(p.text()).c_str());
            if (v.status != "OK") { nviol++; if (percls[v.cls]++ < 3) { printf("V {\"idx\":%llu,\"class\":\"%s\",\"detail\":\"%s\",\"hash\":\"%s\",\"plan\":\"%s\"}\n", (unsigned long long)idx, jesc(v.cls).c_str(), jesc(v.detail).c_str(), v.hash.c_str(), jesc(p.text()).c_str()); fflush(stdout); } if (nviol >= 200) break; }
        }
        printf("A {\"seeds\":%llu,\"runs\":%llu,\"steps\":%llu,\"maxsteps\":%llu,\"simns\":%llu,\"viol\":%llu,\"wall\":%.3f,\"hashes\":%zu,\"sigs\":[", (unsigned long long)done, (unsigned long long)nruns, (unsigned long long)steps, (unsigned long long)maxsteps, (unsigned long long)simns, (unsigned long long)nviol, wall() - t0, hs.size());
        bool f1 = true; for (auto& s : sg) { printf("%s\"%s\"", f1 ? "" : ",", s.c_str()); f1 = false; }
        printf("],\"hl\":["); f1 = true; for (auto& s : hs) { printf("%s\"%s\"", f1 ? "" : ",", s.c_str()); f1 = false; }
        printf("],\"ctr\":{"); f1 = true; for (auto& [a, b] : ctr) { printf("%s\"%s\":[%llu,%llu]", f1 ? "" : ",", jesc(a).c_str(), (unsigned long long)b, (unsigned long long)runs_with[a]); f1 = false; }
        printf("}}\n"); return 0;
    }
    return 3;
}
} // namespace sim
using namespace sim;

// ================================================================= libc interposition
extern "C" {
void* malloc(size_t n) { if (__builtin_expect(g_arena, 0)) return arena_alloc(n, 16); return __libc_malloc(n); }
void  free(void* p) { if (!p) return; if (in_arena(p)) { arena_free(p); return; } __libc_free(p); }
void* calloc(size_t a, size_t b) { if (g_arena) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } void* p = arena_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (in_arena(p)) { bool a = g_arena; g_arena = true; void* q = arena_alloc(n, 16); g_arena = a; if (!q) return nullptr; uint64_t o = ((Hdr*)((char*)p - 16))->size; memcpy(q, p, o < n ? o : n); arena_free(p); return q; }
    if (g_arena && g_child) { bool a = g_arena; g_arena = false; void* q = __libc_realloc(p, n); g_arena = a; return q; }
    return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) { if (g_arena) return arena_alloc(n, al); return __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int   posix_memalign(void** o, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }

// ---- files
int open(const char* path, int flags, ...) {
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    if (g_child && issim(path)) return sim_open(path, flags, "open");
    return (int)ret(raw6(SYS_openat, AT_FDCWD, (long)path, flags, m, 0, 0));
}
int open64(const char* path, int flags, ...) {
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return open(path, flags, m);
}
int close(int fd) {
    if (g_child) {
        if (g_on && fd == g_decoy) { lerr("close of a descriptor owned by someone else"); errno = EBADF; return -1; }
        if (tracked(fd)) { NoArena na; auto f = hit("close"); log("close"); if ((*g_fds)[fd].stream) lerr("close of a descriptor owned by a stream"); g_fds->erase(fd); raw3(SYS_close, fd, 0, 0); if (f) { errno = errno_of(f->action); return -1; } return 0; }
        if (g_on) { lerr(fd < 0 ? "close of an invalid descriptor" : "close of a descriptor it does not own (double close)"); errno = EBADF; return -1; }
    }
    return (int)ret(raw3(SYS_close, fd, 0, 0));
}
ssize_t read(int fd, void* buf, size_t n) {
    if (tracked(fd)) {
        NoArena na; auto f = hit("read"); g_now += 50000; size_t m = n; if ((*g_fds)[fd].eof) return 0;
        if (f) { if (f->action == "short") { m = (size_t)(f->arg > 0 ? f->arg : 1); if (m > n) m = n; } else if (f->action == "slow") g_now += (uint64_t)f->arg * 1000000ull; else if (f->action == "eof") { auto& fi = (*g_fds)[fd]; fi.eof = true; uint64_t o = (uint64_t)raw3(SYS_lseek, fd, 0, SEEK_CUR); auto t = g_trunc->find(fi.path); if (t == g_trunc->end() || t->second > o) (*g_trunc)[fi.path] = o; log("read eof"); return 0; } else { errno = errno_of(f->action); return -1; } }
        ssize_t r = ret(raw3(SYS_read, fd, (long)buf, m)); log("read %zd", r); return r;
    }
    return ret(raw3(SYS_read, fd, (long)buf, n));
}
ssize_t write(int fd, const void* buf, size_t n) {
    if (tracked(fd)) {
        NoArena na; auto f = hit("write"); g_now += 50000; size_t m = n;
        if (f) { if (f->action == "short") { m = (size_t)(f->arg > 0 ? f->arg : 1); if (m > n) m = n; } else if (f->action == "slow") g_now += (uint64_t)f->arg * 1000000ull; else { if (f->arg > 0 && (size_t)f->arg < n) raw3(SYS_write, fd, (long)buf, f->arg); errno = errno_of(f->action); return -1; } }
        if (g_disk_used + m > g_disk_cap) { m = g_disk_cap > g_disk_used ? g_disk_cap - g_disk_used : 0; if (m == 0) { (*g_firedk)["write:diskfull"]++; g_destr++; errno = ENOSPC; return -1; } }
        ssize_t r = ret(raw3(SYS_write, fd, (long)buf, m)); if (r > 0) g_disk_used += r; log("write %zd", r); return r;
    }
    return ret(raw3(SYS_write, fd, (long)buf, n));
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (tracked(fd)) { ssize_t tot = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return tot ? tot : r; tot += r; if ((size_t)r < v[i].iov_len) break; } return tot; }
    return ret(raw3(SYS_writev, fd, (long)v, c));
}
int fstat(int fd, struct stat* st) {
    if (tracked(fd)) { NoArena na; auto f = hit("fstat"); log("fstat"); if (f) { errno = errno_of(f->action); return -1; } }
    return (int)ret(raw3(SYS_fstat, fd, (long)st, 0));
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) {
    if (g_child && issim(p)) { NoArena na; auto f = hit("stat"); if (f) { errno = errno_of(f->action); return -1; } int fd = memfile(p, false); if (fd < 0) { errno = ENOENT; return -1; } return (int)ret(raw3(SYS_fstat, fd, (long)st, 0)); }
    ensure(); return real_stat(p, st);
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { if (g_child && issim(p)) return stat(p, st); ensure(); return real_lstat(p, st); }
int access(const char* p, int m) { if (g_child && issim(p)) { NoArena na; if (memfile(p, false) < 0) { errno = ENOENT; return -1; } return 0; } ensure(); return real_access(p, m); }
int unlink(const char* p) { if (g_child && issim(p)) { NoArena na; log("unlink %s", p); if (!g_files->erase(p)) { errno = ENOENT; return -1; } return 0; } ensure(); return real_unlink(p); }
int remove(const char* p) { if (g_child && issim(p)) return unlink(p); ensure(); return real_remove(p); }
int rename(const char* a, const char* b) { if (g_child && issim(a) && issim(b)) { NoArena na; auto f = hit("rename"); log("rename"); if (f) { errno = errno_of(f->action); return -1; } auto i = g_files->find(a); if (i == g_files->end()) { errno = ENOENT; return -1; } int fd = i->second; g_files->erase(i); (*g_files)[b] = fd; return 0; } ensure(); return real_rename(a, b); }

void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    bool anon = (flags & MAP_ANONYMOUS) && fd < 0;
    if (tracked(fd) || (g_child && g_on && anon)) {
        NoArena na; auto f = hit("mmap"); log("mmap %zu%s%s", len, anon ? " anon" : "", (flags & MAP_FIXED) ? " fixed" : "");
        if (f) { errno = errno_of(f->action); return MAP_FAILED; }
        if (len == 0) { errno = EINVAL; return MAP_FAILED; }
        uint64_t r = (len + 4095) / 4096 * 4096;
        if (flags & MAP_FIXED) {
            auto i = g_maps->upper_bound((char*)addr); bool in = false;
            if (i != g_maps->begin()) { --i; in = (char*)addr >= i->first && (char*)addr + r <= i->first + (i->second + 4095) / 4096 * 4096; }
            if (!in) { lerr("fixed mmap over memory it does not own"); errno = EINVAL; return MAP_FAILED; }
            return (void*)ret(raw6(SYS_mmap, (long)addr, len, prot, flags, fd, off));
        }
        char* base = (char*)raw6(SYS_mmap, 0, r + 2 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        char* p = (char*)raw6(SYS_mmap, (long)(base + 4096), r, prot, flags | MAP_FIXED, fd, off);
        if ((unsigned long)p > (unsigned long)-4096l) { errno = -(int)(long)p; return MAP_FAILED; }
        (*g_maps)[p] = len; return p;
    }
    if (g_child && g_on && fd >= 0) { lerr("mmap of a descriptor it does not own"); errno = EBADF; return MAP_FAILED; }
    return (void*)ret(raw6(SYS_mmap, (long)addr, len, prot, flags, fd, off));
}
void* mmap64(void* a, size_t l, int p, int f, int fd, off_t o) { return mmap(a, l, p, f, fd, o); }
int munmap(void* a, size_t len) {
    if (g_child && g_maps) {
        NoArena na; auto i = g_maps->find((char*)a);
        if (i != g_maps->end()) {
            auto f = hit("munmap"); log("munmap %zu", len); if (f) { errno = errno_of(f->action); return -1; }
            if ((len + 4095) / 4096 != (i->second + 4095) / 4096) lerr("munmap with a length different from the mapping's");
            uint64_t r = (i->second + 4095) / 4096 * 4096; g_maps->erase(i);
            raw6(SYS_mmap, (long)a, r, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); return 0;
        }
        if (na.q) { lerr("munmap of a mapping it does not own"); errno = EINVAL; return -1; }
    }
    return (int)ret(raw3(SYS_munmap, (long)a, len, 0));
}
FILE* fopen(const char* path, const char* mode) {
    if (g_child && issim(path)) {
        NoArena na; g_now += 20000; auto f = hit("open"); log("fopen %s %s", path, mode);
        if (f) { errno = errno_of(f->action); return nullptr; }
        int mf = memfile(path, mode[0] != 'r'); if (mf < 0) { errno = ENOENT; return nullptr; }
        char pp[64]; snprintf(pp, sizeof pp, "/proc/self/fd/%d", mf);
        char md[8]; int k = 0; for (const char* m = mode; *m && k < 7; m++) if (*m != 'x') md[k++] = *m; md[k] = 0;
        FILE* fp = real_fopen(pp, md); if (!fp) die("harness:fopen", strerror(errno));
        (*g_fds)[fileno(fp)] = FdInfo{path, true, fp}; (*g_streams)[fp] = fileno(fp); g_fdserial++; return fp;
    }
    ensure(); return real_fopen(path, mode);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fclose(FILE* fp) {
    if (g_child && g_streams) { NoArena na; auto i = g_streams->find(fp);
        if (i != g_streams->end()) { auto f = hit("close"); log("fclose"); g_fds->erase(i->second); g_streams->erase(i); int r = real_fclose(fp); if (f) { errno = errno_of(f->action); return EOF; } return r; }
        if (na.q) { lerr("fclose of a stream it does not own"); errno = EBADF; return EOF; } }
    ensure(); return real_fclose(fp);
}
static bool strm(FILE* fp) { return g_child && g_streams && g_streams->count(fp); }
size_t fread(void* b, size_t s, size_t n, FILE* fp) {
    if (strm(fp)) { NoArena na; auto f = hit("read"); g_now += 20000; if (f && f->action != "slow" && f->action != "eintr") { if (f->action == "short" ) { size_t m = n ? (size_t)f->arg % (n + 1) : 0; ensure(); return real_fread(b, s, m, fp); } errno = errno_of(f->action); return 0; } size_t r = real_fread(b, s, n, fp); log("fread %zu", r); return r; }
    ensure(); return real_fread(b, s, n, fp);
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* fp) {
    if (strm(fp)) { NoArena na; auto f = hit("write"); g_now += 20000;
        if (f && f->action != "slow" && f->action != "eintr") { size_t m = 0; if (f->action == "short") m = n ? (size_t)f->arg % n : 0; if (m) real_fwrite(b, s, m, fp); if (f->action == "short") { g_destr++; errno = ENOSPC; } else errno = errno_of(f->action); return m; }
        if (s && g_disk_used + s * n > g_disk_cap) { (*g_firedk)["write:diskfull"]++; g_destr++; errno = ENOSPC; return 0; }
        size_t r = real_fwrite(b, s, n, fp); g_disk_used += r * s; log("fwrite %zu", r); return r; }
    ensure(); return real_fwrite(b, s, n, fp);
}
int fflush(FILE* fp) { if (fp && strm(fp)) { NoArena na; auto f = hit("flush"); log("fflush"); int r = real_fflush(fp); if (f) { errno = errno_of(f->action); return EOF; } return r; } ensure(); return real_fflush(fp); }

// ---- clock
int clock_gettime(clockid_t c, struct timespec* t) {
    if (g_child) { g_now += 1000; int64_t v = (int64_t)g_now + 1000000000000ll; if (c == CLOCK_REALTIME) v += 1700000000000000000ll - 1000000000000ll + g_walloff; t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
    return (int)ret(raw3(SYS_clock_gettime, c, (long)t, 0));
}
int gettimeofday(struct timeval* t, void*) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }

// ---- threads
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) { if (g_child && g_on) return sim_create(t, f, x); ensure(); return real_pcreate(t, a, f, x); }
int pthread_join(pthread_t t, void** r) { if (g_child && nT > 1) { int k = sim_join(t, r); if (k != ESRCH) return k; } ensure(); return real_pjoin(t, r); }
int pthread_detach(pthread_t t) { if (g_child && nT > 1) { int i = find_thr(t); if (i >= 0) { T[i].detached = true; log("detach %d", i); return 0; } } ensure(); return real_detach(t); }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (g_child && g_mt && g_on) { uint64_t spins = 0; while (real_mtry(m) != 0) { if (++spins > 2000000) die("deadlock", "mutex never released"); choose_other(g_srng.next()); } hb_acquire(m); return 0; }
    ensure(); return real_mlock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) { if (g_child && g_mt && g_on) { hb_release(m); int r = real_munlock(m); tick(); return r; } ensure(); return real_munlock(m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (g_child && g_mt && g_on) { pthread_mutex_unlock(m); uint64_t s0; { NoArena na; s0 = (*g_counts)["cond"]; } uint64_t spins = 0; for (;;) { choose_other(g_srng.next()); { NoArena na; if ((*g_counts)["cond"] != s0) break; } if (++spins > 2000000) die("deadlock", "condition never signalled"); } hb_acquire(c); return pthread_mutex_lock(m); }
    ensure(); return real_cwait(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) { if (g_child && g_mt && g_on) { hb_release(c); NoArena na; (*g_counts)["cond"]++; return 0; } ensure(); return real_csig(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (g_child && g_mt && g_on) { hb_release(c); NoArena na; (*g_counts)["cond"]++; return 0; } ensure(); return real_cbc(c); }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (g_child && g_mt && g_on) { int* w = (int*)o; if (*w == 2) { hb_acquire(o); return 0; } uint64_t spins = 0; while (*w == 0x5151) { if (++spins > 2000000) die("deadlock", "once"); choose_other(g_srng.next()); } if (*w == 2) { hb_acquire(o); return 0; } *w = 0x5151; try { f(); } catch (...) { *w = 0; throw; } *w = 2; hb_release(o); return 0; }
    ensure(); return real_once(o, f);
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (auto& x : a) x = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && g_child && g_mt && g_on) { int op = (int)a[1] & 0x7f; if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { hb_acquire((void*)a[0]); choose_other(g_srng.next()); hb_acquire((void*)a[0]); if (*(int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; } errno = EINTR; return -1; } if (op == FUTEX_WAKE) { hb_release((void*)a[0]); return 0; } }
    return ret(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
int sched_yield() { if (g_child && g_mt && g_on) { choose_other(g_srng.next()); return 0; } return 0; }

}
// ---- static initialisation guards
namespace __cxxabiv1 { extern "C" {
int __cxa_guard_acquire(__guard* g) {
    unsigned char* b = (unsigned char*)g;
    if (b[0]) { hb_acquire(g); return 0; }
    uint64_t spins = 0;
    while (b[1]) { if (!(g_child && g_mt)) abort(); if (++spins > 2000000) die("deadlock", "static initialisation"); choose_other(g_srng.next()); }
    if (b[0]) { hb_acquire(g); return 0; }
    b[1] = 1; return 1;
}
void __cxa_guard_release(__guard* g) noexcept { unsigned char* b = (unsigned char*)g; hb_release(g); b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(__guard* g) noexcept { ((unsigned char*)g)[1] = 0; }
} }
extern "C" {
// ---- memory access hooks emitted by the compiler
void __tsan_init() {}
void __tsan_func_entry(void*) { tick(); }
void __tsan_func_exit() {}
void __sanitizer_cov_trace_pc() { if (g_on && ++g_steps >= g_step_limit) slow_point(); } // objects compiled without access hooks
#define RW(n) \
  void __tsan_read##n(void* a) { acc(a, n, false); } \
  void __tsan_write##n(void* a) { acc(a, n, true); } \
  void __tsan_unaligned_read##n(void* a) { acc(a, n, false); } \
  void __tsan_unaligned_write##n(void* a) { acc(a, n, true); } \
  void __tsan_volatile_read##n(void* a) { acc(a, n, false); } \
  void __tsan_volatile_write##n(void* a) { acc(a, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* a) { acc(a, n, false); } \
  void __tsan_unaligned_volatile_write##n(void* a) { acc(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, long n) { acc(a, (uint64_t)n, false); }
void __tsan_write_range(void* a, long n) { acc(a, (uint64_t)n, true); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) acc(a, 8, true); else acc(a, 0, false); }
void __tsan_vptr_read(void** a) { acc(a, 8, false); }
static inline void at(const volatile void* a) { if (!g_on) return; hb_acquire((const void*)a); tick(); }
static inline void atr(const volatile void* a) { if (!g_on) return; hb_release((const void*)a); }
#define ATOM(bits, ty) \
  ty __tsan_atomic##bits##_load(const volatile ty* a, int) { at(a); return *a; } \
  void __tsan_atomic##bits##_store(volatile ty* a, ty v, int) { at(a); *a = v; atr(a); } \
  ty __tsan_atomic##bits##_exchange(volatile ty* a, ty v, int) { at(a); ty o = *a; *a = v; atr(a); return o; } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty* a, ty v, int) { at(a); ty o = *a; *a = o + v; atr(a); return o; } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty* a, ty v, int) { at(a); ty o = *a; *a = o - v; atr(a); return o; } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty* a, ty v, int) { at(a); ty o = *a; *a = o & v; atr(a); return o; } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty* a, ty v, int) { at(a); ty o = *a; *a = o | v; atr(a); return o; } \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty* a, ty v, int) { at(a); ty o = *a; *a = o ^ v; atr(a); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int, int) { at(a); if (*a == *c) { *a = v; atr(a); return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int, int) { at(a); if (*a == *c) { *a = v; atr(a); return 1; } *c = *a; return 0; } \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* a, ty c, ty v, int, int) { at(a); ty o = *a; if (o == c) { *a = v; atr(a); } return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- block operations of instrumented objects (their symbols are redirected here with objcopy)
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { acc(s, n, false); acc(d, n, true); } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { acc(s, n, false); acc(d, n, true); } return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) acc(d, n, true); return memset(d, c, n); }
int   __wrap_memcmp(const void* a, const void* b, size_t n) { if (n) { acc(a, n, false); acc(b, n, false); } return memcmp(a, b, n); }
}
// std::chrono clocks read the simulated clock
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration((int64_t)t.tv_sec * 1000000000ll + t.tv_nsec)); }
system_clock::time_point system_clock::now() noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration((int64_t)t.tv_sec * 1000000000ll + t.tv_nsec)); }
}}}

int main(int argc, char** argv) {
    rt_init();
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1); setenv("LC_ALL", "C", 1);
        int pers = personality(0xffffffff); if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE)) { if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    }
    arena_init(); race_init();
    return driver(argc, argv);
}
