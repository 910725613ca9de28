// Mesh loading over simulated files: C01 C02 C03 C04 C05 C06 C22
#include "load_ops.hpp"
#include "diskpp/mesh/mesh_hierarchy.hpp"
// ------------------------------------------------------------------ C01
static Plan gen01(Rng& r, int tier) {
    Plan p; base(r, p); int n = r.chance(0.3) ? 2 : 1;
    for (int i = 0; i < n; i++) { int f = pick_fmt(r); std::string nm = "m" + std::to_string(i); gen_file(r, p, nm, f, tier, r.chance(0.12)); p.put("load", nm, mm::fmt_name[f], r.chance(0.5) ? 0 : 1, 0); }
    return p;
}
static void place01(Rng& r, Plan& p, const Counts& c) { int n = (int)r.below(6); for (int i = 0; i < n; i++) add_fault(r, p, c, "read", RD_BENIGN); add_preempts(r, p, c, 5); }
static void exec01(const Plan& p) { for (auto& l : p.lines) { if (l[0] == "file") op_file(l); if (l[0] == "mut") op_mut(l); if (l[0] == "load") op_load(l, true, true); } finish_load(); }
// ------------------------------------------------------------------ C02 / C03
static Plan gen02(Rng& r, int tier) {
    Plan p; base(r, p); int f = pick_fmt(r);
    if (r.chance(0.15)) gen_file(r, p, "m", f, tier, true);        // an older, usually longer version
    gen_file(r, p, "m", f, tier, r.chance(0.08));
    int n = r.chance(0.35) ? 0 : (r.chance(0.75) ? 1 : 2); for (int i = 0; i < n; i++) gen_mut(r, p, "m", f);
    if (r.chance(0.03)) { p.lines.clear(); base(r, p); }
    p.put("load", "m", mm::fmt_name[f], r.chance(0.5) ? 0 : 1, 0);
    return p;
}
static void place02(Rng& r, Plan& p, const Counts& c) { place_bad(r, p, c, false); }
static void exec02(const Plan& p) { for (auto& l : p.lines) { if (l[0] == "file") op_file(l); if (l[0] == "mut") op_mut(l); if (l[0] == "load") op_load(l, true, true); } finish_load(); }
static void place03(Rng& r, Plan& p, const Counts& c) { place_bad(r, p, c, true); }
static Plan gen03(Rng& r, int tier) { Plan p = gen02(r, tier); if (r.chance(0.4)) { int f = mm::fmt_of((*p.all("load")[0])[2]); Plan q; for (auto& l : p.lines) { if (l[0] == "load") { int k = (int)r.range(1, 3); for (int i = 0; i < k; i++) gen_mut(r, q, "m", f); } q.add(l); } return q; } return p; }
static void exec03(const Plan& p) { for (auto& l : p.lines) { if (l[0] == "file") op_file(l); if (l[0] == "mut") op_mut(l); if (l[0] == "load") op_load(l, false, false); } finish_load(); }
// ------------------------------------------------------------------ C05
static Plan gen05(Rng& r, int tier) {
    Plan p; base(r, p); int f = pick_fmt(r), g = r.chance(0.3) ? pick_fmt(r) : f; int n = (int)r.range(1, 5);
    for (int i = 0; i < n; i++) { int ff = r.chance(0.8) ? f : g; std::string nm = "h" + std::to_string(r.below(3)); gen_file(r, p, nm, ff, tier); if (r.chance(0.45)) gen_mut(r, p, nm, ff); p.put("load", nm, mm::fmt_name[ff], r.below(3), r.below(3)); }
    p.put("stop"); std::string nm = r.chance(0.5) ? "h0" : "last"; gen_file(r, p, nm, f, tier); p.put("load", nm, mm::fmt_name[f], r.range(0, 2), r.range(0, 2));
    return p;
}
static void place05(Rng& r, Plan& p, const Counts& c) { place_bad(r, p, c, true); if (r.chance(0.3)) add_fault(r, p, c, "thread", EAGAIN_); }
static void exec05(const Plan& p) {
    bool last = false;
    for (auto& l : p.lines) { if (l[0] == "file") op_file(l); if (l[0] == "mut") op_mut(l); if (l[0] == "stop") { clear_faults(); last = true; } if (l[0] == "load") op_load(l, last, last || destructive_fired() == 0); }
    finish_load();
}
// ------------------------------------------------------------------ C06
struct UserErr : std::runtime_error { UserErr() : std::runtime_error("user") {} };
struct ThrowTag { int v; };
static Plan gen06(Rng& r, int tier) {
    Plan p; base(r, p); static const int disp[] = {mm::FVCA5, mm::NETGEN2, mm::QUAD, mm::NETGEN3, mm::HEX, mm::FVCA6};
    int n = (int)r.range(1, 2);
    for (int i = 0; i < n; i++) { int f = r.chance(0.85) ? disp[r.below(6)] : pick_fmt(r); std::string nm = "d" + std::to_string(i); gen_file(r, p, nm, f, tier); if (r.chance(0.3)) gen_mut(r, p, nm, f);
        // dispatch <name> <fmt of contents> <file name variant> <what the user function does> <argument>
        p.put("dispatch", nm, mm::fmt_name[f], r.chance(0.75) ? 0 : r.range(1, 12), r.chance(0.6) ? 0 : r.range(1, 4), r.below(1000)); }
    return p;
}
static std::string variant(const std::string& nm, int f, int v) {
    std::string e = mm::fmt_ext[f];
    switch (v) { case 0: return "/sim/" + nm + "." + e; case 1: return "/sim/" + nm + "." + e + ".bak"; case 2: return "/sim/" + nm + "_" + e; case 3: return "/sim/" + nm + "." + e + "x"; case 4: return "/sim/d." + e + "/" + nm; case 5: return "/sim/" + nm + ".x." + e; case 6: return "/sim/." + e; case 7: return "/sim/" + nm; case 8: return "/sim/" + nm + "." + e.substr(0, e.size() - 1); case 9: return "/sim/" + nm + ".hex." + e; case 10: return "/sim/" + nm + ".unknown"; case 11: return "/sim/" + nm + ".mesh.mesh2d." + e; default: return "/sim/" + nm + ".x" + e; }
}
static void exec06(const Plan& p) {
    for (auto& l : p.lines) {
        if (l[0] == "file") op_file(l);
        if (l[0] == "mut") op_mut(l);
        if (l[0] != "dispatch") continue;
        int f = mm::fmt_of(l[2]), what = (int)toi(l[4]); std::string src = path_of(l[1], f), path = variant(l[1], f, (int)toi(l[3])); std::string bytes = fs_read(src);
        if (path != src) fs_write(path, bytes);
        int ext = -1; { auto d = path.rfind('.'); std::string e = d == std::string::npos ? "" : path.substr(d + 1); for (int q : {0, 1, 2, 5, 6, 7}) if (e == mm::fmt_ext[q]) ext = q; }
        int arg = (int)toi(l[5]); std::string sarg = "arg" + l[5]; int refarg = 0; int calls = 0; Model got; bool have = false, wrongargs = false, nested_fail = false; std::string selfcontra;
        auto body = [&](auto& msh, int a, const std::string& s, int& ref) {
          { Harness h; calls++; if (a != arg || s != sarg || &ref != &refarg) wrongargs = true; ref++;
            typedef std::decay_t<decltype(msh)> M; constexpr bool simp = std::is_same_v<M, disk::simplicial_mesh<R, 2>> || std::is_same_v<M, disk::simplicial_mesh<R, 3>>;
            constexpr bool sub = std::is_same_v<M, disk::simplicial_mesh<R, 3>> || std::is_same_v<M, disk::generic_mesh<R, 2>>;
            if (ext >= 0) { constexpr bool d3 = M::dimension == 3; bool fit = d3 == mm::is3d(ext); if (!fit) nested_fail = true; else { g_defer = &selfcontra; got = extract(msh, simp, sub, sub); g_defer = nullptr; have = true; } }
          }
            pause_faults(true); if (what == 1) throw UserErr(); if (what == 2) throw ThrowTag{7}; if (what == 3) throw std::bad_alloc(); if (what == 4) throw std::invalid_argument("user"); pause_faults(false);
        };
        uint64_t d0 = destructive_fired(); fs_reset_visible(); int rc = -99; std::string how;
        set_step_limit(budget(bytes) + (ext == 0 ? 20000000 : 0));
        try { Sut s; rc = disk::dispatch_all_meshes(path.c_str(), body, arg, sarg, refarg); how = "return"; }
        catch (const UserErr&) { how = "user1"; } catch (const ThrowTag&) { how = "user2"; } catch (const std::bad_alloc&) { how = "user3"; } catch (const std::invalid_argument& e) { how = std::string(e.what()) == "user" ? "user4" : "exc"; } catch (const std::exception& e) { how = "exc"; }
        pause_faults(false); set_step_limit(1ull << 60);
        bool clean = destructive_fired() == d0; auto vis = fs_visible(path); if (vis < bytes.size()) bytes.resize(vis);
        mm::Ref ref; if (ext >= 0) ref = mm::reference(ext, bytes); 
        log("dispatch %s -> %s rc=%d calls=%d ref=%d/%d", path.c_str(), how.c_str(), rc, calls, ref.accept, ref.ambig);
        note("dispatch:" + std::string(ext < 0 ? "unknown" : mm::fmt_ext[ext]) + ":" + how + ":" + std::to_string(calls) + (ref.accept ? "c" : "i") + (clean ? "" : "f")); probe(calls ? "function_called" : "function_not_called");
        if (calls > 1) violation("dispatch", "the user function was called more than once");
        if (wrongargs) violation("dispatch", "the user function got other arguments");
        if (nested_fail) violation("dispatch", "the mesh passed has not the dimension of the format");
        if (calls && refarg != 1) violation("dispatch", "a reference argument was copied");
        if (ext < 0) { if (calls) violation("dispatch", "function called for an unknown file name extension"); if (how == "return" && rc == 0) violation("dispatch", "0 returned for an unknown file name extension"); continue; }
        if (calls == 0) { if (how == "return" && rc == 0) violation("dispatch", "0 returned although the function was not called"); if (how.substr(0, 4) == "user" && how != "user3") violation("harness:user-exception", how); }
        else {
            if (!ref.accept && !ref.ambig) violation("dispatch", "function called although the file is not complete (" + ref.why + ")");
            if (ref.accept && !ref.ambig) { auto d = selfcontra.empty() ? mm::diff(ref.m, got) : selfcontra; if (!have || !d.empty()) violation("dispatch", "function called on a mesh that is not the one in the file: " + d); }
            if (what == 0 && !(how == "return" && rc == 0)) violation("dispatch", "the function was called and returned, but dispatch reported failure");
            if (what && how != "user" + std::to_string(what)) violation("dispatch", "the exception of the user function did not reach the caller");
        }
        if (clean && ref.accept && !ref.ambig && calls == 0) violation("dispatch", std::string(mm::fmt_name[ext]) + ": complete file, but the function was not called");
        if (path != src) fs_remove(path);
    }
}
static void place06(Rng& r, Plan& p, const Counts& c) { if (r.chance(0.5)) place_bad(r, p, c, r.chance(0.3)); }
// ------------------------------------------------------------------ C04
struct MSlot { mapped_file* f = nullptr; bool open = false; std::string content; size_t pos = 0; };
static Plan gen04(Rng& r, int) {
    Plan p; base(r, p); int nf = (int)r.range(1, 3);
    for (int i = 0; i < nf; i++) { static const int sz[] = {0, 1, 7, 100, 4095, 4096, 4097, 8192, 300}; p.put("data", "f" + std::to_string(i), r.below(100000), sz[r.below(9)], r.below(4)); }
    int n = (int)r.range(2, 14);
    for (int i = 0; i < n; i++) {
        int s = (int)r.below(3); std::string fn = r.chance(0.12) ? "nofile" : "f" + std::to_string(r.below(nf));
        switch (r.below(11)) { case 0: p.put("mnew", s); break; case 1: case 2: p.put("mctor", s, fn); break; case 3: case 4: p.put("mopen", s, fn); break; case 5: p.put("mclose", s); break; case 6: p.put("mdel", s); break; case 7: p.put("mmem", s); break; case 8: p.put("mline", s, r.range(1, 4)); break; case 9: p.put("mend", s); break;
            default: { static const int mf[] = {mm::NETGEN2, mm::NETGEN3, mm::QUAD, mm::HEX}; int f = mf[r.below(4)]; std::string nm = "g" + std::to_string(r.below(2)); gen_file(r, p, nm, f, 0); if (r.chance(0.3)) gen_mut(r, p, nm, f); p.put("load", nm, mm::fmt_name[f], 0, 0); } }
    }
    return p;
}
static void place04(Rng& r, Plan& p, const Counts& c) {
    int n = (int)r.below(4); for (int i = 0; i < n; i++) switch (r.below(5)) { case 0: add_fault(r, p, c, "open", OPEN_BAD); break; case 1: add_fault(r, p, c, "fstat", EIO_); break; case 2: case 3: add_fault(r, p, c, "mmap", ENOMEM_); break; default: add_fault(r, p, c, "close", EIO_); }
    if (r.chance(0.2)) add_fault(r, p, c, "alloc", {{"enomem", 0}});
}
static void exec04(const Plan& p) {
    MSlot S[3];
    auto ledger = [&](const char* when) {
        std::string w; if (ledger_errors(&w)) violation("resource", w + " (" + when + ")");
        int open = 0; for (auto& s : S) open += s.open; 
        if (live_maps() > open) violation("resource", std::string("a mapping is leaked (") + when + ")");
        if (live_maps() < open) violation("resource", std::string("an open file has lost its mapping (") + when + ")");
        if (open_fds() > open) violation("resource", std::string("a descriptor is leaked (") + when + ")");
    };
    auto snap = [&]() { return std::array<uint64_t, 1>{destructive_fired()}; };
    auto opened = [&](MSlot& s, const std::string& fn, uint64_t d0, bool hard, bool threw) {
        bool exists = fs_exists("/sim/" + fn); s.open = false; bool is; { Sut q; is = s.f && s.f->is_open(); }
        bool clean = destructive_fired() == d0; log("mopen %s exists=%d clean=%d open=%d", fn.c_str(), exists, clean, is); note(std::string("open:") + (is ? "1" : "0") + (clean ? "" : "f"));
        if (is && threw) violation("mapped", "open threw but the file is open");
        if (is && !exists) violation("mapped", "a file that does not exist is open");
        if (is && hard) violation("mapped", "the open failed but the file is reported open");
        std::string c = fs_read("/sim/" + fn); if (!is && exists && clean && !c.empty()) violation("mapped", "the file could be opened but is reported as not open");
        if (is) { s.open = true; s.content = c; s.pos = 0; }
    };
    auto del = [&](MSlot& s) { if (s.f) { { Sut q; delete s.f; } s.f = nullptr; s.open = false; } };
    auto hardf = [&]() { auto k = counts(); (void)k; return fault_fired("open:enoent") || fault_fired("open:eacces") || fault_fired("open:emfile") || fault_fired("open:eio") || fault_fired("fstat:eio") || fault_fired("mmap:enomem") || fault_fired("mmap:eagain"); };
    (void)hardf;
    for (auto& l : p.lines) {
        set_step_limit(50000000);
        if (l[0] == "data") { Rng r((uint64_t)toi(l[2])); std::string s; size_t n = (size_t)toi(l[3]); int k = (int)toi(l[4]); while (s.size() < n) { if (k == 1) s += '\n'; else if (r.chance(k == 2 ? 0.02 : 0.15)) s += '\n'; else s += (char)(k == 3 && r.chance(0.1) ? 0 : 32 + r.below(90)); } fs_write("/sim/" + l[1], s); continue; }
        if (l[0] == "file") { op_file(l); continue; } if (l[0] == "mut") { op_mut(l); continue; }
        if (l[0] == "load") { op_load(l, false, true); g_hold.clear(); ledger("after a load"); continue; }
        if (l[0].size() < 2 || l[0][0] != 'm') continue;
        MSlot& s = S[toi(l[1]) % 3]; uint64_t d0 = snap()[0]; auto c0 = faults_fired(); (void)c0;
        auto before = [&](const char* k) { uint64_t n = 0; for (const char* a : {"enoent", "eacces", "emfile", "eio", "enomem", "eagain"}) if (fault_fired((std::string(k) + ":" + a).c_str())) n++; return n; };
        uint64_t b0 = before("open") + before("fstat") + before("mmap");
        auto hard = [&]() { return before("open") + before("fstat") + before("mmap") > b0; };
        if (l[0] == "mnew") { del(s); try { Sut q; s.f = new mapped_file; } catch (const std::bad_alloc&) {} ledger("after construction"); }
        else if (l[0] == "mctor") { del(s); bool threw = false; std::string nm = "/sim/" + l[2]; try { Sut q; s.f = new mapped_file(nm); } catch (const std::exception&) { threw = true; s.f = nullptr; } if (s.f) opened(s, l[2], d0, hard(), threw); ledger("after opening construction"); }
        else if (l[0] == "mopen") { if (!s.f) { Sut q; try { s.f = new mapped_file; } catch (const std::bad_alloc&) {} } if (!s.f) continue; bool threw = false; std::string nm = "/sim/" + l[2]; try { Sut q; s.f->open(nm); } catch (const std::exception&) { threw = true; } opened(s, l[2], d0, hard(), threw); ledger("after open"); }
        else if (l[0] == "mclose") { if (!s.f) continue; { Sut q; s.f->close(); } bool is; { Sut q; is = s.f->is_open(); } if (is) violation("mapped", "a closed file is reported open"); s.open = false; ledger("after close"); }
        else if (l[0] == "mdel") { del(s); ledger("after destruction"); }
        else if (!s.f) continue;
        else if (l[0] == "mmem") {
            const char* m = nullptr; bool threw = false; try { Sut q; m = s.f->mem(); } catch (const std::exception&) { threw = true; }
            if (s.open) { if (threw || (!m && s.pos < s.content.size())) violation("mapped", "no memory access to an open file"); if (m && memcmp(m, s.content.data() + s.pos, s.content.size() - s.pos)) violation("mapped", "the mapped bytes are not those of the file"); }
            else if (m) violation("mapped", "memory access to a file that is not open did not fail");
        } else if (l[0] == "mline") {
            for (int k = 0; k < (int)toi(l[2]); k++) {
                std::string got; bool threw = false, oom = false; try { Sut q; got = s.f->get_line(); } catch (const std::bad_alloc&) { threw = oom = true; } catch (const std::exception&) { threw = true; }
                if (!s.open) { if (!threw) violation("mapped", "a line was read from a file that is not open"); continue; }
                if (oom && destructive_fired() > d0) { del(s); break; }
                if (s.pos >= s.content.size()) { if (!threw) violation("mapped", "a line was read past the end"); continue; }
                size_t e = s.content.find('\n', s.pos); std::string want = s.content.substr(s.pos, (e == std::string::npos ? s.content.size() : e) - s.pos);
                if (threw) violation("mapped", "a line of the file could not be read"); if (got != want) violation("mapped", "the line read is not the line in the file");
                s.pos = e == std::string::npos ? s.content.size() : e + 1; probe("line_compared");
            }
        } else if (l[0] == "mend") { bool e; { Sut q; e = s.f->end(); } if (s.open && e != (s.pos >= s.content.size())) violation("mapped", "end() is wrong"); if (!s.open && !e) violation("mapped", "end() is false for a file that is not open"); }
    }
    for (auto& s : S) del(s);
    ledger("at the end"); if (open_fds() || live_maps()) violation("resource", "resources left at the end");
}
// ------------------------------------------------------------------ C22
static Plan gen22(Rng& r, int tier) {
    Plan p; base(r, p); gen_file(r, p, "m", mm::NETGEN2, tier, r.chance(0.1));
    if (r.chance(0.4)) p.put("old", r.below(100000), r.range(1, 8));   // an older dump under the same name
    p.put("dump", r.chance(0.4) ? -1 : (int64_t)r.below(1u << 20), r.chance(0.15) ? (int64_t)r.below(4000) : -1);
    return p;
}
static void place22(Rng& r, Plan& p, const Counts& c) { int n = (int)r.below(3); for (int i = 0; i < n; i++) switch (r.below(4)) { case 0: add_fault(r, p, c, "write", {{"eio", 0}, {"enospc", 1}, {"edquot", 0}}); break; case 1: add_fault(r, p, c, "write", {{"short", 1}, {"eintr", 0}, {"slow", 2}}); break; case 2: add_fault(r, p, c, "open", OPEN_BAD); break; default: add_fault(r, p, c, "close", EIO_); } }
static void exec22(const Plan& p) {
    for (auto& l : p.lines) {
        if (l[0] == "file") op_file(l);
        if (l[0] == "old") fs_write("/sim/out.mesh2d", mm::make_file(mm::NETGEN2, (uint64_t)toi(l[1]), (int)toi(l[2]), (int)toi(l[2]), 1, 0));
        if (l[0] != "dump") continue;
        std::string in = path_of("m", mm::NETGEN2); disk::simplicial_mesh<R, 2> msh; bool ok = false; auto ref0 = mm::reference(mm::NETGEN2, fs_read(in)); if (!ref0.accept || ref0.ambig) return;
        pause_faults(true); { Sut s; ok = disk::load_mesh_netgen<R>(in.c_str(), msh); } pause_faults(false); if (!ok) violation("harness:load", "");
        Model want = extract(msh, true, false, false);
        for (auto& x : want.pts) for (auto& v : x) { char b[64]; snprintf(b, sizeof b, "%.6g", v); v = strtod(b, nullptr); }
        std::string old = fs_read("/sim/out.mesh2d"); uint64_t d0 = destructive_fired(); if (toi(l[2]) >= 0) fs_disk_cap((uint64_t)toi(l[2]));
        set_step_limit(200000000); std::string how = "return";
        try { Sut s; disk::dump_netgen_format(msh, "/sim/out.mesh2d"); } catch (const std::exception&) { how = "exception"; }
        fs_disk_cap(~0ull); bool clean = destructive_fired() == d0; std::string disk = fs_read("/sim/out.mesh2d");
        bool started = disk != old;          // the open may have failed, leaving the older file alone
        if (how == "exception" && clean) violation("dump", "a dump that met no failure threw");
        if (clean || how == "return") { auto rf = mm::reference(mm::NETGEN2, disk); if (!rf.accept) violation("dump", "the dump returned normally but the file is not complete: " + rf.why); }
        bool crash = toi(l[1]) >= 0; if (crash && started && !disk.empty()) disk.resize((size_t)toi(l[1]) % disk.size());
        fs_write("/sim/out.mesh2d", disk); clear_faults(); log("dump %s clean=%d crash=%d size=%zu", how.c_str(), clean, crash, disk.size());
        auto rf = mm::reference(mm::NETGEN2, disk);
        if (!started && !clean) { note("open-failed"); continue; }
        disk::simplicial_mesh<R, 2> m2; bool ok2 = false; try { Sut s; ok2 = disk::load_mesh_netgen<R>("/sim/out.mesh2d", m2); } catch (const std::exception&) {}
        note(std::string("reload:") + (ok2 ? "ok" : "refused") + (crash ? ":crash" : "") + (clean ? "" : ":fault"));
        // the format has no end mark: a file cut inside its last number is still a file of that format
        bool cutnum = !disk.empty() && isdigit((unsigned char)disk.back());
        if (ok2) { probe("reloaded"); Model got = extract(m2, true, false, false); bool eq = true; std::string d; { Model a = want, b = got; for (auto& [k, f] : a.faces) { f.id = 0; } for (auto& [k, f] : b.faces) f.id = 0; for (size_t i = 0; i < a.pts.size() && i < b.pts.size(); i++) for (int q = 0; q < 2; q++) if (std::fabs(a.pts[i][q] - b.pts[i][q]) <= 1e-5 * std::max(1.0, std::fabs(a.pts[i][q]))) a.pts[i][q] = b.pts[i][q]; d = mm::diff(a, b); eq = d.empty(); }
            if (!eq && !(rf.accept && cutnum)) violation("dump", "the reloaded mesh is not the dumped mesh: " + d); }
        else { probe("refused"); if (clean && !crash) violation("dump", "a complete dump is refused"); }
    }
}

static struct Reg { Reg() {
    register_prop({"C01", gen01, place01, exec01}); register_prop({"C02", gen02, place02, exec02}); register_prop({"C03", gen03, place03, exec03});
    register_prop({"C04", gen04, place04, exec04}); register_prop({"C05", gen05, place05, exec05}); register_prop({"C06", gen06, place06, exec06}); register_prop({"C22", gen22, place22, exec22});
} } reg;
