// C26: executing and loading through the interception layer, every path of both worlds from every kind of working directory, with
// stand-ins for execv and dlopen that record what the operating system would have been asked to run or load.
#include "sample.hpp"
#include "pathmodel.hpp"
#include <dlfcn.h>
using namespace sq;
extern "C" { int enclose_io__exec(const char *, char *const[]); }
// ---- stand-ins
struct ExecCall { std::string path; std::vector<std::string> argv; std::string ruby, node; };
struct LoadCall { bool null; std::string path, content; int mode; bool there; };
static std::vector<ExecCall> EX; static std::vector<LoadCall> LD; static int exec_errno = ENOEXEC; static long sys_count, sys_fail = -1; static int sys_errno = ENOMEM; static bool sys_failed; static char handle_mark[64];
static bool sysfault() { if (sys_count++ == sys_fail) { sys_failed = true; errno = sys_errno; return true; } return false; }
static std::string env(const char *n) { const char *v = getenv(n); return v ? std::string("=") + v : "unset"; }
static std::string rdfile(const std::string &p) { FILE *f = fopen(p.c_str(), "rb"); if (!f) return "unreadable"; std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void record_exec(const char *p, char *const a[]) { ExecCall c; c.path = p ? p : "(null)"; for (int i = 0; a && a[i]; i++) c.argv.push_back(a[i]); c.ruby = env("ENCLOSE_IO_USE_ORIGINAL_RUBY"); c.node = env("ENCLOSE_IO_USE_ORIGINAL_NODE"); EX.push_back(c); }
extern "C" {
int vf_execv(const char *p, char *const a[]) { record_exec(p, a); errno = exec_errno; return -1; }
int vf_execve(const char *p, char *const a[], char *const e[]) { ExecCall c; record_exec(p, a); c = EX.back(); c.ruby = c.node = "unset"; for (int i = 0; e && e[i]; i++) { std::string s = e[i]; if (!s.compare(0, 29, "ENCLOSE_IO_USE_ORIGINAL_RUBY=")) c.ruby = s.substr(28); if (!s.compare(0, 29, "ENCLOSE_IO_USE_ORIGINAL_NODE=")) c.node = s.substr(28); } EX.back() = c; errno = exec_errno; return -1; }
void *vf_dlopen(const char *p, int m) { LoadCall c; c.null = !p; c.path = p ? p : ""; c.mode = m; struct stat st; c.there = p && strchr(p, '/') && !::stat(p, &st) && S_ISREG(st.st_mode); if (c.there) c.content = rdfile(p); LD.push_back(c); if (p && strchr(p, '/') && !c.there) return nullptr; return handle_mark + (LD.size() & 31); }
ssize_t vf_readlink(const char *p, char *b, size_t n) { if (sysfault()) return -1; return ::readlink(p, b, n); }
int vf_setenv(const char *n, const char *v, int o) { if (sysfault()) return -1; return ::setenv(n, v, o); }
}
// ---- world (as in C23)
static ImageP im; static NodeP root; static Node *MEM; static std::string S, W, EXE;
static void mkworld() {
    if (im) return; char b[PATH_MAX]; ssize_t k = ::readlink("/proc/self/exe", b, sizeof b - 1); if (k < 0) { fprintf(stderr, "VF-FATAL /proc/self/exe\n"); _exit(2); } EXE.assign(b, k);
    auto mem = ::sq::dir("__enclose_io_memfs__", {::sq::dir("d", {text("f", "image d/f"), text("p.so", std::string(70000, 'q')), ::sq::dir("sub", {text("g", "image g")}), lnk("up", "../f")}), ::sq::dir("e", {text("empty", ""), text("f", "image e/f")}), text("f", "image f"), lnk("la", "/__enclose_io_memfs__/d/sub"), lnk("ld", "d"), lnk("lf", "d/f"), text("libx.so.1", "image lib"), lnk("nowhere", "missing")});
    root = ::sq::dir("", {mem, ::sq::dir("__enclose_io_memfs__x", {text("y", "not for the layer")}), text("outside", "image root")}); MEM = mem.get(); im = build(root);
    S = getenv("VF_SCRATCH"); W = S + "/w"; ::mkdir(W.c_str(), 0755); ::mkdir((W + "/d").c_str(), 0755); spit(W + "/f", "real f"); spit(W + "/d/f", "real d/f"); ::mkdir((S + MEMFS).c_str(), 0755); spit(S + MEMFS + "/f", "real memfs f"); ::mkdir((W + MEMFS).c_str(), 0755); spit(W + MEMFS + "/f", "real w memfs f"); ::symlink("f", (W + "/rl").c_str());
}
static std::string canon(Node *n) { return n->parent ? canon(n->parent) + "/" + n->name : ""; }
struct M { Node *n = nullptr; std::string str; };
struct World { Fs fs; World(ImageP i) : fs(i) { enclose_io_fs = &fs.fs; REQ(!enclose_io_chdir(W.c_str()), "chdir to a real directory"); unsetenv("ENCLOSE_IO_USE_ORIGINAL_RUBY"); unsetenv("ENCLOSE_IO_USE_ORIGINAL_NODE"); } World() : World(im) {} ~World() { vfa.fail_at = vfio.fail_at = sys_fail = -1; squash_extract_clear_cache(); enclose_io_chdir(W.c_str()); enclose_io_fs = nullptr; unsetenv("ENCLOSE_IO_USE_ORIGINAL_RUBY"); unsetenv("ENCLOSE_IO_USE_ORIGINAL_NODE"); } };
static bool memfs(const std::string &p) { return p == MEMFS || p.compare(0, strlen(MEMFS) + 1, MEMFS "/") == 0; }
static bool served(const M &m, const std::string &p) { return p[0] == '/' ? memfs(p) : !!m.n; }
static pm::Outs outs(const M &m, const std::string &p) { if (p[0] == '/') return pm::outcomes(root.get(), p, true); pm::Outs a = pm::outcomes(root.get(), m.str + "/" + p, true), b = pm::outcomes(root.get(), canon(m.n) + "/" + p, true); a.insert(b.begin(), b.end()); return a; }
static M at(const std::string &p) { if (p.empty()) return {nullptr, W}; REQ(!enclose_io_chdir(p.c_str()), "chdir(%s)", p.c_str()); if (!memfs(p)) return {nullptr, p}; char *s = enclose_io_getcwd(nullptr, 0); std::string g = s; free(s); auto q = pm::outcomes(root.get(), p, true); REQ(q.size() == 1 && q.begin()->n, "the model does not know %s", p.c_str()); return {q.begin()->n, g}; }
static bool is_file(const pm::Outs &o, bool any) { bool all = true, some = false; for (auto &x : o) { bool f = x.n && x.n->kind == REG; all = all && f; some = some || f; } return any ? some : all; }
// one exec; fault: it may fail for that reason, but then nothing is run
static void exec1(const M &m, const std::string &p, const std::vector<std::string> &argv, bool fault = false) {
    ctx.transitions++; EX.clear(); unsetenv("ENCLOSE_IO_USE_ORIGINAL_RUBY"); unsetenv("ENCLOSE_IO_USE_ORIGINAL_NODE");
    // the vector ends exactly behind its null (ASan), the strings are compared afterwards
    std::vector<std::string> copy = argv; char **v = (char **)malloc((argv.size() + 1) * sizeof(char *)); for (size_t i = 0; i < argv.size(); i++) v[i] = (char *)copy[i].c_str(); v[argv.size()] = nullptr; std::string path = p; std::vector<char *> keep(v, v + argv.size() + 1);
    long live = vfa.live; auto fds = vf_open_fds(); errno = 0; int r = enclose_io_execv(path.c_str(), v), e = errno;
    REQ(r == -1, "execv(%s) returned %d", p.c_str(), r); REQ(path == p && copy == argv && std::equal(keep.begin(), keep.end(), v), "execv(%s) changed the caller's arguments", p.c_str()); free(v);
    REQ(vf_open_fds() == fds, "execv(%s) leaves descriptors open", p.c_str()); REQ(vfa.live == live, "a failed execv(%s) leaks %ld blocks", p.c_str(), vfa.live - live);
    std::string as; for (auto &a : argv) as += "'" + a.substr(0, 60) + "' ";
    if (!served(m, p)) { REQ(EX.size() == 1 && EX[0].path == p && EX[0].argv == argv && e == exec_errno, "execv(%s, %s) outside the memory filesystem is not the system's call with the same arguments (%zu calls, %s)", p.c_str(), as.c_str(), EX.size(), EX.empty() ? "-" : EX[0].path.c_str()); REQ(EX[0].ruby == "unset" && EX[0].node == "unset", "execv(%s) outside the memory filesystem changes the environment", p.c_str()); return; }
    auto o = outs(m, p); bool must = is_file(o, false) && !fault;
    if (EX.empty()) { REQ(!must, "execv(%s) runs nothing: %s", p.c_str(), errname(e).c_str()); REQ(e && e != exec_errno, "execv(%s) failed with errno %s", p.c_str(), errname(e).c_str()); return; }
    REQ(EX.size() == 1, "execv(%s) runs %zu programs", p.c_str(), EX.size()); auto &c = EX[0]; REQ(e == exec_errno, "execv(%s): errno is %s, the system said %s", p.c_str(), errname(e).c_str(), errname(exec_errno).c_str());
    char b[PATH_MAX]; REQ(::realpath(c.path.c_str(), b) && EXE == b, "execv(%s) runs %s instead of this program", p.c_str(), c.path.c_str());
    REQ(c.ruby == "=true" && c.node == "=true", "execv(%s): the environment does not select the original interpreter (%s, %s)", p.c_str(), c.ruby.c_str(), c.node.c_str());
    size_t want = (argv.empty() ? 1 : argv.size()) + 1; REQ(c.argv.size() == want, "execv(%s, %s): the program gets %zu arguments, expected %zu", p.c_str(), as.c_str(), c.argv.size(), want);
    if (!argv.empty()) REQ(c.argv[0] == argv[0], "execv(%s): argument 0 is %s", p.c_str(), c.argv[0].c_str()); for (size_t i = 1; i < argv.size(); i++) REQ(c.argv[i + 1] == argv[i], "execv(%s, %s): argument %zu is %s", p.c_str(), as.c_str(), i + 1, c.argv[i + 1].c_str());
    const std::string &q = c.argv[1]; REQ(memfs(q), "execv(%s): the script is named %s, which is not in the memory filesystem", p.c_str(), q.substr(0, 200).c_str()); if (p[0] == '/') REQ(q == p, "execv(%s): the script is named %s", p.c_str(), q.c_str());
    auto qo = pm::outcomes(root.get(), q, true); bool same = false; for (auto &x : o) for (auto &y : qo) same = same || (x.n == y.n); REQ(same, "execv(%s) in %s: the script is named %s, which is another object", p.c_str(), m.str.c_str(), q.c_str());
}
static const char *const EXT[] = {nullptr, "so", ""};
static bool complete(const pm::Outs &o, const std::string &c) { for (auto &x : o) if (x.n && x.n->kind == REG && x.n->data == c) return true; return false; }
// one load; fault: it may fail
static void load1(const M &m, const char *p, int mode, bool fault = false) {
    ctx.transitions++; LD.clear(); std::string path = p ? p : ""; auto fds = vf_open_fds(); errno = 0; void *h = enclose_io_dlopen(p ? path.c_str() : nullptr, mode);
    REQ(vf_open_fds() == fds, "dlopen leaves descriptors open"); std::string ps = p ? p : "(null)"; REQ(ps == "(null)" || path == p, "dlopen(%s) changed the caller's string", ps.c_str());
    auto passed = [&] { return LD.size() == 1 && LD[0].null == !p && LD[0].path == path && LD[0].mode == mode; };
    if (!p || !served(m, path)) { REQ(passed() && (h || (p && strchr(p, '/'))), "dlopen(%s) in %s is not the system's call with the same arguments: %s%s", ps.c_str(), m.str.c_str(), LD.empty() ? "no call" : LD[0].null ? "(null)" : LD[0].path.c_str(), h ? "" : ", null"); return; }
    auto o = outs(m, path); bool bare = !strchr(p, '/');
    // a copy of the file, and nothing else, is loaded
    if (h) {
        REQ(!LD.empty(), "dlopen(%s) returns a handle from nowhere", ps.c_str()); auto &c = LD.back(); REQ(h == handle_mark + (LD.size() & 31), "dlopen(%s) returns another handle than the system gave", ps.c_str());
        REQ(!c.null, "dlopen(%s) in %s gives a handle of the running program", ps.c_str(), m.str.c_str());
        if (bare && c.path == path && c.mode == mode) { ctx.counts["searched by the system"]++; REQ(!is_file(o, false) || true, "x"); return; }   // a name without a slash is searched for by the system
        REQ(c.there, "dlopen(%s) loads %s, which is no file", ps.c_str(), c.path.c_str()); REQ(c.mode == mode, "dlopen(%s, %d) loads with mode %d", ps.c_str(), mode, c.mode); REQ(c.path.compare(0, S.size() + 1, S + "/") == 0 && c.path.compare(0, W.size(), W), "dlopen(%s) loads %s", ps.c_str(), c.path.c_str());
        REQ(complete(o, c.content), "dlopen(%s) in %s loads %s with %zu bytes: %.40s", ps.c_str(), m.str.c_str(), c.path.c_str(), c.content.size(), c.content.c_str()); ctx.counts["loaded a copy"]++;
    } else { REQ(!is_file(o, false) || fault, "dlopen(%s) in %s failed: %s", ps.c_str(), m.str.c_str(), errname(errno).c_str()); REQ(!(bare && !is_file(o, true)) || fault || passed(), "dlopen(%s) in %s: the name is not searched for by the system", ps.c_str(), m.str.c_str()); for (auto &c : LD) REQ(!c.null && !c.there, "dlopen(%s) loads %s and drops it", ps.c_str(), c.path.c_str()); ctx.counts["refused"]++; }
}
static void extract1(const M &m, const std::string &p, const char *ext, bool fault = false) {
    ctx.transitions++; auto fds = vf_open_fds(); errno = 0; const char *r = enclose_io_ifextract(p.c_str(), ext); int e = errno; REQ(vf_open_fds() == fds, "ifextract(%s) leaves descriptors open", p.c_str());
    REQ(!!enclose_io_if(p.c_str()) == served(m, p), "enclose_io_if(%s) in %s", p.c_str(), m.str.c_str());
    if (!served(m, p)) { REQ(r && p == r, "ifextract(%s) returned %s", p.c_str(), r ? r : "null"); return; }
    auto o = outs(m, p); if (!r) { REQ(!is_file(o, false) || fault, "ifextract(%s): %s", p.c_str(), errname(e).c_str()); REQ(e, "ifextract(%s) failed with errno 0", p.c_str()); return; }
    std::string f = r; REQ(f.compare(0, S.size() + 1, S + "/") == 0 && complete(o, rdfile(f)), "ifextract(%s) in %s: %s has other content", p.c_str(), m.str.c_str(), r);
}
static std::vector<std::string> P, CD;
static void lists() {
    for (const char *x : {"", "/", "/f", "/d", "/d/", "/d/f", "/d/p.so", "/d/sub/g", "/d/up", "/e/empty", "/ld", "/ld/f", "/lf", "/la/g", "/libx.so.1", "/nowhere", "/none", "/none/f", "/d/../f", "//d//f", "/./f", "/f/x", "/d/.", "/ld/../f", "/outside"}) P.push_back(MEMFS + std::string(x));
    for (const char *x : {"f", "d", "d/", "d/f", "sub", "sub/g", "g", "./f", "..", "../f", "../d/f", ".", "none", "none/f", "./none", "ld/f", "lf", "la/g", "up", "p.so", "./p.so", "libx.so.1", "./libx.so.1", "libm.so.6", "./libm.so.6", "only", "rl", "__enclose_io_memfs__/f", "outside", "empty", "e/empty"}) P.push_back(x);
    for (auto x : {W, W + "/f", W + "/d/f", W + "/none", W + "/rl", S + MEMFS + "/f", W + MEMFS, W + MEMFS + "/f", std::string("/__enclose_io_memfs__x/y"), std::string("/__enclose_io_memfs__x"), std::string("/__enclose_io_memfs_"), std::string("/__enclose_io_memfs"), std::string("/outside"), std::string("/")}) P.push_back(x);
    CD = {"", W + "/d", MEMFS, MEMFS "/", MEMFS "/d", MEMFS "/d/sub/", MEMFS "/e", MEMFS "/ld", MEMFS "/la", MEMFS "/./d/../e"};
}
static bool skip(const M &m, const std::string &p) { return m.n == MEM && p[0] != '/' && p.compare(0, 2, "..") == 0; }   // out of the root: left open
static void each_fault(const char *what, const std::function<void(bool)> &op) {
    for (int kind = 0; kind < 4; kind++) for (long k = 0; k < 60; k++) { vfa.count = vfio.count = sys_count = 0; vfa.failed = vfio.failed = sys_failed = false; World w; vfa.count = vfio.count = sys_count = 0; vfa.failed = vfio.failed = sys_failed = false; vfa.fail_at = kind == 0 ? k : -1; vfio.fail_at = kind == 1 || kind == 2 ? k : -1; vfio.kind = kind == 2; sys_fail = kind == 3 ? k : -1; ctx.note("%s, %s %ld fails", what, kind == 0 ? "allocation" : kind == 3 ? "readlink or setenv" : "file operation", k); 
        struct Off { ~Off() { vfa.fail_at = vfio.fail_at = sys_fail = -1; } } off; op(true); bool hit = vfa.failed || vfio.failed || sys_failed; vfa.fail_at = vfio.fail_at = sys_fail = -1; ctx.states++; if (!hit) break; ctx.counts["faults"]++; op(false); }
}
void vf_enumerate() {
    vf_start_library(); mkworld(); lists(); bool T = ctx.thorough();
    std::vector<std::vector<std::string>> AV{{}, {"prog"}, {"prog", "-x"}, {"", ""}, {"a", "b", "", "d"}, {MEMFS "/f", MEMFS "/d/f"}};
    for (auto &c : CD) for (size_t a = 0; a < AV.size(); a++) ctx.run(vfmt("execv of every path from %s, argument vector %zu", c.empty() ? "a real directory" : c.c_str(), a), [&] { for (auto &p : P) { World w; M m = at(c); if (skip(m, p)) continue; ctx.note("%s", p.c_str()); for (int e : {ENOEXEC, EACCES, E2BIG}) { exec_errno = e; exec1(m, p, AV[a]); } ctx.states++; } ctx.traces++; });
    for (auto &c : CD) for (int mode : {RTLD_LAZY, RTLD_NOW, RTLD_NOW | RTLD_GLOBAL, RTLD_LAZY | RTLD_NOLOAD, RTLD_LAZY | RTLD_LOCAL | RTLD_NODELETE}) ctx.run(vfmt("dlopen of every path from %s, mode %d", c.empty() ? "a real directory" : c.c_str(), mode), [&] { { World w; M m = at(c); load1(m, nullptr, mode); } for (auto &p : P) { World w; M m = at(c); if (skip(m, p)) continue; ctx.note("%s", p.c_str()); load1(m, p.c_str(), mode); load1(m, p.c_str(), mode); squash_extract_clear_cache(); load1(m, p.c_str(), mode); ctx.states++; } ctx.traces++; });
    for (auto &c : CD) for (auto ext : EXT) ctx.run(vfmt("extraction of every path from %s, extension %s", c.empty() ? "a real directory" : c.c_str(), ext ? ext : "none"), [&] { for (auto &p : P) { World w; M m = at(c); if (skip(m, p)) continue; ctx.note("%s", p.c_str()); extract1(m, p, ext); extract1(m, p, ext); load1(m, p.c_str(), RTLD_LAZY); ctx.states++; } ctx.traces++; });
    // long argument vectors and arguments
    for (int g = 0; g < 8; g++) ctx.run(vfmt("argument vectors of every length up to %d, part %d", T ? 3000 : 300, g), [&] { for (int n = g; n <= (T ? 3000 : 300); n += 8) for (auto p : {std::string(MEMFS "/f"), W + "/f"}) { World w; M m = at(n & 8 ? MEMFS "/d" : ""); std::vector<std::string> v; for (int i = 0; i < n; i++) v.push_back(vfmt("%d", i)); exec1(m, p, v); if (m.n) exec1(m, "f", v); ctx.states++; } ctx.traces++; });
    ctx.run("long arguments", [&] { for (size_t l : {1000, 5000, 100000}) { World w; M m = at(MEMFS); exec1(m, "f", {std::string(l, 'a'), std::string(l, 'b')}); exec1(m, MEMFS "/d/f", {"p", std::string(l, 'b'), "c"}); exec1(m, W + "/f", {"p", std::string(l, 'b'), "c"}); ctx.states++; } ctx.traces++; });
    // histories
    { struct Op { const char *name; int kind; std::string arg; };
      std::vector<Op> O; for (const char *x : {MEMFS, MEMFS "/d", MEMFS "/ld", "d", "..", "none", MEMFS "/f"}) O.push_back({"chdir", 0, x}); O.push_back({"chdir", 0, W}); for (const char *x : {"f", "./f", MEMFS "/f", MEMFS "/d/f", "d/f", "../f", "none", "./p.so"}) { O.push_back({"dlopen", 1, x}); } for (const char *x : {"f", "d/f", MEMFS "/d/f"}) O.push_back({"execv", 2, x}); O.push_back({"clear", 3, ""}); O.push_back({"extract", 4, "f"}); O.push_back({"extract", 4, MEMFS "/d/f"});
      int n = O.size(); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (const char *start : {"", MEMFS, MEMFS "/d"}) ctx.run(vfmt("from %s: %s %s, %s %s, then every sequence of %d of %d operations", *start ? start : "a real directory", O[a].name, O[a].arg.c_str(), O[b].name, O[b].arg.c_str(), T ? 2 : 1, n), [&] { product(std::vector<int>(T ? 2 : 1, n), [&](const std::vector<int> &d) { World w; M m = at(start); std::vector<int> h{a, b}; h.insert(h.end(), d.begin(), d.end()); std::string t;
          for (int i : h) { auto &x = O[i]; t += vfmt("%s %s; ", x.name, x.arg.c_str()); ctx.note("%s", t.c_str()); if (x.arg[0] == '.' && x.arg[1] == '.' && (m.n == MEM || !m.n)) { if (!m.n && x.kind == 0) return; if (m.n) continue; }
              if (x.kind == 0) { int r = enclose_io_chdir(x.arg.c_str()); if (served(m, x.arg)) { auto o = outs(m, x.arg); Node *to = nullptr; for (auto &q : o) if (q.n && q.n->kind == sq::DIR) to = q.n; REQ(!r == !!to, "chdir(%s) returned %d", x.arg.c_str(), r); if (!r) { m.n = to; char *s = enclose_io_getcwd(nullptr, 0); m.str = s; free(s); } } else if (!r) { m.n = nullptr; char b[PATH_MAX]; m.str = ::getcwd(b, sizeof b); } }
              else if (x.kind == 1) load1(m, x.arg.c_str(), RTLD_NOW); else if (x.kind == 2) exec1(m, x.arg, {"p", "a"}); else if (x.kind == 3) squash_extract_clear_cache(); else extract1(m, x.arg, "x"); }
          REQ(!::chdir(W.c_str()), "chdir"); ctx.states++; }); ctx.traces++; }); }
    // every allocation, file operation, readlink and setenv failing
    for (auto &c : CD) for (const char *p : {MEMFS "/d/p.so", "f", "./f", "p.so", "lf"}) ctx.run(vfmt("dlopen, extraction and execv of %s from %s with each call failing", p, c.empty() ? "a real directory" : c.c_str()), [&] {
        auto quiet = [&](auto f) { long a = vfa.fail_at, b = vfio.fail_at, s = sys_fail; vfa.fail_at = vfio.fail_at = sys_fail = -1; f(); vfa.fail_at = a; vfio.fail_at = b; sys_fail = s; vfa.count = vfio.count = sys_count = 0; };
        each_fault("dlopen", [&](bool f) { M m; quiet([&] { m = at(c); }); if (f || true) load1(m, p, RTLD_NOW, f); });
        each_fault("extract", [&](bool f) { M m; quiet([&] { m = at(c); }); extract1(m, p, "so", f); });
        for (int e : {ENOMEM, EACCES}) { sys_errno = e; exec_errno = E2BIG; each_fault("execv", [&](bool f) { M m; quiet([&] { m = at(c); }); exec1(m, p, {"a", "b"}, f); }); } ctx.traces++; });
    // a damaged block: nothing is loaded
    for (int bs : {4096, 131072}) for (int nb : {1, 3}) ctx.run(vfmt("a file of %d blocks of %d with each block damaged", nb, bs), [&] {
        for (int bad = 0; bad < nb; bad++) { Opt o; o.block_size = bs; auto r = ::sq::dir("", {::sq::dir("__enclose_io_memfs__", {sq::reg("lib.so", uint64_t(nb) * bs), text("ok", "fine")})}); auto img = build(r, o);
            long hit = 0; for (auto &b : img->cblocks) if (b.kind == 'd') { if (hit++ == bad) for (size_t i = 0; i < 8 && i < b.size; i++) img->mem[b.pos + i] ^= 0x5a; } REQ(hit == nb, "no such block (%ld)", hit);
            World w(img); REQ(!enclose_io_chdir(MEMFS), "chdir"); for (const char *p : {MEMFS "/lib.so", "./lib.so"}) { LD.clear(); void *h = enclose_io_dlopen(p, RTLD_NOW); REQ(!h, "dlopen(%s) of a file with a damaged block gives a handle", p); for (auto &q : LD) REQ(!q.there && !q.null, "something is loaded"); errno = 0; REQ(!enclose_io_ifextract(p, "so") && errno, "extraction of a damaged file"); LD.clear(); h = enclose_io_dlopen(MEMFS "/ok", RTLD_NOW); REQ(h && LD.size() == 1 && LD[0].content == "fine", "the other file"); ctx.transitions += 3; } ctx.states++; } ctx.traces++; });
    // long working directories and relative paths: the right object or a failure
    for (int depth : {0, 1, 5, 8, 9}) ctx.run(vfmt("working directory of %d long names, relative paths of growing length", depth), [&] {
        NodeP top = ::sq::dir("__enclose_io_memfs__"), last = top; for (int i = 0; i < depth; i++) { auto x = ::sq::dir(std::string(200, 'a' + i)); last->add(x); last = x; } for (int i = 1; i <= 255; i++) last->add(text(std::string(i, 'n'), vfmt("%d", i)));
        auto r = ::sq::dir("", {top}); auto img = build(r); auto keep = root; std::string cwd = canon(last.get()); World w(img); REQ(!enclose_io_chdir(cwd.c_str()), "chdir");
        for (int i = 1; i <= 255; i++) for (int pad : {0, 1, 10, 100, 500, 800, 900, 950, 1000, 1005, 1010, 1015, 1020, 2000, 5000}) { if (!T && i % 10 != 1 && !(cwd.size() + 1 + 2 * pad + i > 2036 && cwd.size() + 1 + 2 * pad + i < 2060)) continue;
            std::string p; for (int j = 0; j < pad; j++) p += "./"; p += std::string(i, 'n'); size_t tot = cwd.size() + 1 + p.size(); bool big = tot > 1500; ctx.note("file %d, together %zu", i, tot); ctx.transitions += 3;
            errno = 0; const char *x = enclose_io_ifextract(p.c_str(), nullptr); REQ(x ? rdfile(x) == vfmt("%d", i) : big && errno == ENAMETOOLONG, "ifextract: %s", x ? "another object" : errname(errno).c_str());
            LD.clear(); std::string dp = pad ? p : "./" + p; void *h = enclose_io_dlopen(dp.c_str(), RTLD_NOW); if (h) REQ(LD.size() == 1 && LD[0].content == vfmt("%d", i), "dlopen loads another object"); else REQ(big, "dlopen failed");
            EX.clear(); char a0[] = "a"; char *av[] = {a0, nullptr}; errno = 0; exec_errno = ENOEXEC; enclose_io_execv(p.c_str(), av); if (EX.empty()) REQ(big && errno == ENAMETOOLONG, "execv: %s", errname(errno).c_str()); else { REQ(EX[0].argv.size() == 2, "execv arguments"); struct stat st; int fd = squash_open(enclose_io_fs, EX[0].argv[1].c_str()); REQ(fd >= 0, "the script named to the program does not exist: %zu bytes", EX[0].argv[1].size()); std::string s = slurp_fd(fd, squash_read); squash_close(fd); REQ(s == vfmt("%d", i), "the script named to the program is another object"); }
        } ctx.states++; ctx.traces++; });
    // the path of the executable: every buffer size
    ctx.run("enclose_io_exepath with every buffer size", [&] { for (size_t n = 0; n <= EXE.size() + 200; n++) { std::unique_ptr<char[]> b(new char[n ? n : 1]); memset(b.get(), 'x', n ? n : 1); size_t sz = n; int r = enclose_io_exepath(b.get(), &sz); ctx.transitions++; if (n == 0) { REQ(r && b[0] == 'x', "exepath with size 0 returned %d", r); continue; }
            if (n > EXE.size()) REQ(!r && EXE == b.get() && sz == EXE.size(), "exepath with %zu bytes: %d", n, r); else if (!r) REQ(sz == n - 1 && b[n - 1] == 0 && EXE.compare(0, n - 1, b.get()) == 0, "exepath with %zu bytes reports %zu", n, sz); } size_t s = 10; REQ(enclose_io_exepath(nullptr, &s) && enclose_io_exepath((char *)&s, nullptr), "null arguments"); ctx.states++; ctx.traces++; });
}
