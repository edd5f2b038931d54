// C31: one C program, compiled with the interception header and without it; every short sequence of its calls gives the same results
// on the image as on a copy of the tree in a real file system.
#include "sample.hpp"
#include <sys/time.h>
using namespace sq;
extern "C" { extern char *mkdir_workdir;
void prog_image(const char *root, const char *real, const char *strip, const char *const *ops, int n, char *out, size_t cap);
void prog_real(const char *root, const char *real, const char *strip, const char *const *ops, int n, char *out, size_t cap); }
static std::string S, M, W, T; static ImageP im; static NodeP root; static Fs *fsp;
// what the layer changes stays inside the scratch directory
static bool in(int d, const char *p) {
    std::string s = p; char b[PATH_MAX]; if (s.empty()) return true;
    if (s[0] != '/') { if (d == AT_FDCWD) { if (!::getcwd(b, sizeof b)) return false; } else { ssize_t n = ::readlink(vfmt("/proc/self/fd/%d", d).c_str(), b, sizeof b - 1); if (n < 0) return true; b[n] = 0; } s = std::string(b) + "/" + s; }
    while (s.size() > 1 && s.back() == '/') s.pop_back(); size_t i = s.rfind('/'); std::string up = s.substr(0, i ? i : 1), l = s.substr(i + 1); if (l == "..") return false;
    if (!::realpath(up.c_str(), b)) return errno == ENOENT || errno == ENOTDIR; return (std::string(b) + "/").compare(0, S.size() + 1, S + "/") == 0; }
#define GUARD(d, p) do { if (!in(d, p)) { errno = EACCES; return -1; } } while (0)
extern "C" {
int vf_mkdir(const char *p, mode_t m) { GUARD(AT_FDCWD, p); return ::mkdir(p, m); }
int vf_open(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } if ((fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE)) GUARD(AT_FDCWD, p); return ::open(p, fl, m); }
int vf_openat(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } if ((fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE)) GUARD(d, p); return ::openat(d, p, fl, m); }
int vf_rmdir(const char *p) { GUARD(AT_FDCWD, p); return ::rmdir(p); }
int vf_unlink(const char *p) { GUARD(AT_FDCWD, p); return ::unlink(p); }
int vf_remove(const char *p) { GUARD(AT_FDCWD, p); return ::remove(p); }
int vf_unlinkat(int d, const char *p, int f) { GUARD(d, p); return ::unlinkat(d, p, f); }
int vf_rename(const char *a, const char *b) { GUARD(AT_FDCWD, a); GUARD(AT_FDCWD, b); return ::rename(a, b); }
int vf_chmod(const char *a, mode_t m) { GUARD(AT_FDCWD, a); return ::chmod(a, m); }
int vf_system(const char *) { return 0; }
}
static void attr(const std::string &p, Node &n) { if (::lchown(p.c_str(), n.uid, n.gid)) {} if (n.kind != LNK) ::chmod(p.c_str(), n.mode); }
static void copy(Node &n, const std::string &p) {
    if (n.kind == ::sq::DIR) { ::mkdir(p.c_str(), 0755); for (auto &k : n.kids) copy(*k, p + "/" + k->name); }
    else if (n.kind == LNK) ::symlink((n.target[0] == '/' ? M + n.target : n.target).c_str(), p.c_str());
    else spit(p, n.data);
    attr(p, n); }
static void world() {
    if (im) return; umask(022);
    auto d = ::sq::dir("d", {text("g", "the content of d/g, a little longer"), ::sq::dir("sub", {text("h", "sub h"), lnk("up", "../g")})});
    auto mem = ::sq::dir("__enclose_io_memfs__", {d, text("e", ""), text("f", "0123456789"), lnk("la", "/__enclose_io_memfs__/d/sub"), lnk("ld", "d"), lnk("lf", "d/g"), lnk("lost", "nothing"), ::sq::dir("w", {text("in", "in w"), ::sq::dir("k")})});
    mem->find("f")->mode = 0604; mem->find("e")->mode = 0600; d->mode = 0711; d->find("sub")->mode = 0750;
    root = ::sq::dir("", {mem}); im = build(root);
    char b[PATH_MAX]; S = ::realpath(getenv("VF_SCRATCH"), b); M = S + "/m"; W = S + "/r"; T = S + "/t";
    for (auto &x : {M, W, T}) ::mkdir(x.c_str(), 0755); setenv("TMPDIR", T.c_str(), 1); copy(*mem, M + MEMFS);
    spit(W + "/rf", "a real file"); ::mkdir((W + "/rd").c_str(), 0755); spit(W + "/rd/x", "real x"); spit(W + "/f", "real f"); ::symlink("rf", (W + "/rl").c_str());
    fsp = new Fs(im); enclose_io_fs = &fsp->fs; }
typedef std::vector<std::string> Seq;
static bool makes(const std::string &o) { return strchr("NnmI", o[0]); }
static std::vector<std::string> split(const std::string &s) { std::vector<std::string> v; std::string c; for (char x : s) if (x == '|') { v.push_back(c); c.clear(); } else c += x; return v; }
// start: the directory the program starts in; creating: runs in a process of its own
static void one(const std::string &start, const Seq &q) {
    static char a[1 << 16], b[1 << 16]; bool mk = false; for (auto &o : q) mk |= makes(o);
    std::vector<const char *> ops; ops.push_back(start.c_str()); for (auto &o : q) ops.push_back(o.c_str()); static std::string rootm = MEMFS, realm; realm = M + MEMFS;
    auto image = [&] { prog_image(rootm.c_str(), W.c_str(), "", ops.data(), ops.size(), a, sizeof a); };
    if (!mk) { image(); enclose_io_chdir(S.c_str()); REQ(!enclose_io_cwd[0] && !mkdir_workdir, "state left behind"); }
    else { int p[2]; if (pipe(p)) vfail("VF: pipe"); pid_t c = fork(); if (!c) { close(p[0]); image(); size_t n = strlen(a), o = 0; while (o < n) { ssize_t k = write(p[1], a + o, n - o); if (k <= 0) break; o += k; } _exit(7); }
        close(p[1]); size_t n = 0; ssize_t k; while ((k = read(p[0], a + n, sizeof a - 1 - n)) > 0) n += k; a[n] = 0; close(p[0]); int st; waitpid(c, &st, 0); vf_rmtree(T); ::mkdir(T.c_str(), 0755); REQ(WIFEXITED(st) && WEXITSTATUS(st) == 7, "the program ended with %d", st); }
    prog_real(realm.c_str(), W.c_str(), M.c_str(), ops.data(), ops.size(), b, sizeof b); if (::chdir(S.c_str())) vfail("VF: chdir");
    if (mk) { for (const char *d : {"", "/w", "/w/k", "/d", "/d/sub"}) for (const char *x : {"/made", "/made2"}) { std::string p = realm + d + x; struct stat st; if (!::lstat(p.c_str(), &st)) { if (S_ISDIR(st.st_mode)) vf_rmtree(p); else ::unlink(p.c_str()); } } }
    auto x = split(a), y = split(b); ctx.transitions += ops.size();
    for (size_t i = 0; i < ops.size(); i++) { std::string u = i < x.size() ? x[i] : "?", v = i < y.size() ? y[i] : "?";
        if (strstr(ops[i], "f/") || strstr(ops[i], "f/.") ) { if (u == "-ENOTDIR ") u = "-ENOENT "; if (v == "-ENOTDIR ") v = "-ENOENT "; }
        if (u != v) { std::string t; for (auto o : ops) t += std::string(o) + " ; "; vfail(vfmt("%s: call %zu (%s) gives '%s' on the image, '%s' on a real copy", t.c_str(), i, ops[i], u.c_str(), v.c_str())); } }
}
// sequences whose outcome is left open: leaving the tree, '..' and getcwd behind a link (the layer resolves lexically), attributes and
// listings of image directories in which something was created
static bool open_question(const std::string &start, const Seq &q) {
    std::string root = M + MEMFS, cur = root, bp; std::set<std::string> made, hidden; bool link = false;
    auto isdir = [&](const std::string &p) { struct stat st; return made.count(p) || (!::stat(p.c_str(), &st) && S_ISDIR(st.st_mode)); };
    auto res = [&](const std::string &a) { std::string p = a[0] == '@' ? root + a.substr(1) : a[0] == '%' ? W + a.substr(1) : cur + "/" + a, r; std::vector<std::string> v; size_t i = 0; while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); std::string c = p.substr(i, j - i); if (c == "..") { if (v.size()) v.pop_back(); } else if (c.size() && c != ".") v.push_back(c); i = j + 1; } for (auto &c : v) r += "/" + c; return r; };
    Seq all{start}; all.insert(all.end(), q.begin(), q.end());
    for (auto &o : all) { char c = o[0]; if (!strchr("cABT3NnsSxXkoemiI", c)) { if (link && strchr("gW", c)) return true; continue; } std::string a = o.substr(1), keep = cur; if (c == 'i' || c == 'I') { if (bp.empty()) continue; cur = bp; } std::string p = res(a); cur = keep; if (c == 'B') { struct stat st; if (made.count(p) || !::stat(p.c_str(), &st)) bp = p; else bp = ""; } if (c == 'i' || c == 'I') { if (p != root && p.compare(0, root.size() + 1, root + "/") && bp.compare(0, root.size(), root) == 0) return true; }
        if (link && a.find("..") != std::string::npos) return true; bool inside = p == root || p.compare(0, root.size() + 1, root + "/") == 0, was = cur == root || cur.compare(0, root.size() + 1, root + "/") == 0;
        if (c != 'i' && c != 'I') { if (was && a[0] != '%' && !inside) return true; if (!was && inside && a[0] != '@') return true; }
        if (strchr("sSoeAB3T", c) && hidden.count(p)) return true;
        if (c == 'c' && isdir(p)) { cur = p; struct stat st; link = !::lstat(p.c_str(), &st) && S_ISLNK(st.st_mode); if (p != root && inside && strstr(p.c_str(), "/ld/")) link = true; }
        struct stat ex; if (strchr("mNnI", c) && inside && ::lstat(p.c_str(), &ex)) { std::string up = p.substr(0, p.rfind('/')); if (isdir(up)) { if (!isdir(p) && c == 'm') made.insert(p); for (std::string h = up; h.size() > root.size(); h = h.substr(0, h.rfind('/'))) if (!made.count(h)) hidden.insert(h); hidden.insert(root); } }
    }
    return false; }
static void all(const std::string &start, const std::vector<std::string> &al, int depth, const Seq &pre) {
    std::vector<int> r(depth, al.size()); product(r, [&](const std::vector<int> &d) { Seq q = pre; for (int i : d) q.push_back(al[i]); if (open_question(start, q)) return; if (ctx.transitions % 4096 < 8) { std::string t; for (auto &o : q) t += o + " ; "; ctx.note("%s", t.c_str()); } one(start, q); ctx.states++; }); }
void vf_enumerate() {
    vf_start_library(); world(); bool Th = ctx.thorough();
    static std::vector<std::string> al = {
        "c@", "cd", "c@/d/sub", "c..", "c@/ld", "c%", "crd", "cf", "cmissing", "g-1", "g500", "g3", "W",
        "Af", "A@/d/g", "Alf", "Ad", "Ald", "Alost", "Af/x", "A%/rf", "3g", "3@/la/up", "Tf", "T@/d/sub/h", "T%/rf", "B@/f", "Be", "B@/d", "B@/w", "B%", "ig", "isub/h", "i../f", "inone", "i@/f", "i.", "irf", "Imade",
        "r3", "r400", "R4", "p2", "p-1", "p100", "v0", "v5", "l4", "l-1", "L2", "L-1", "E0", "f", "z", "Z",
        "sf", "s@/d", "slf", "slost", "sd/../f", "s%/rl", "Sf", "Slf", "S@/d/sub/up", "S%/rl", "Sf/x", "xf", "x@/d/sub", "xlost", "Xg", "klf", "k@/la", "kf", "k%/rl", "kmissing",
        "o.", "o@/d", "o%/rd", "of", "omissing", "O", "d", "D", "t", "y", "Y", "F", "q", "e.", "e@/d", "e1", "e%",
        "N@/w/made", "n@/w/k/made", "whello", "Urf", "Urd/x", "Unone", "C%/real", "V%/rd/real", "M%/rd/dir", "h@/d/g", "hlf", "h%/rf", "H", "j%/none", "m@/w/made", "mw/made2", "m@/d", "m@/d/none/x", "N@/d/none/x", "m%", "s@/w/made", "A@/w/made", "o@/w/made", "c@/w/made", "mmade", "Nmade"};
    static std::vector<std::string> al2;   // without repetition of what is alike
    for (const char *o : {"c@", "cd", "c%", "g500", "Af", "A@/d/g", "A%/rf", "T@/d/sub/h", "B@/f", "r3", "R4", "p2", "v5", "l4", "L2", "E0", "f", "z", "sf", "Slf", "xg", "o.", "o@/d", "O", "d", "D", "t", "y", "Y", "F", "q", "e.", "N@/w/made", "whello", "m@/w/made2", "m@/d/none/x", "s@/w/made", "A@/w/made"}) al2.push_back(o);
    // "mmade" and "Nmade" only make sense below w
    std::vector<std::string> base; for (auto &o : al) if (o != "mmade" && o != "Nmade" && o != "e1") base.push_back(o);
    static std::vector<std::string> quiet; for (auto &o : al2) if (!makes(o) && o.find("made") == std::string::npos && o != "whello") quiet.push_back(o);
    for (auto &o : base) ctx.run(vfmt("start c@, %s, then every pair of %zu calls", o.c_str(), base.size()), [&] { all("c@", base, 2, {o}); ctx.traces++; });
    for (const char *st : {"c@/d", "c%", "c@/d/sub", "crd"}) for (auto &o : base) ctx.run(vfmt("start %s, %s, then every one of %zu calls%s", st, o.c_str(), base.size(), Th ? " and every pair" : ""), [&] { all(st, base, 1, {o}); if (Th) all(st, base, 2, {o}); ctx.traces++; });
    auto &deep = Th ? al2 : quiet;
    for (auto &o : deep) for (auto &p : deep) ctx.run(vfmt("start c@, %s %s, then every pair of %zu calls", o.c_str(), p.c_str(), deep.size()), [&] { all("c@", deep, 2, {o, p}); ctx.traces++; });
    if (Th) for (auto &o : quiet) for (auto &p : quiet) for (const char *st : {"c@", "c@/d"}) ctx.run(vfmt("start %s, %s %s, then every triple of %zu calls", st, o.c_str(), p.c_str(), quiet.size()), [&] { all(st, quiet, 3, {o, p}); ctx.traces++; });
    // streams, deeper
    static std::vector<std::string> st = {"d", "D", "t", "y", "Y", "F", "q", "o@/d", "O", "A@/d"};
    for (auto &o : {"o.", "o@/d", "o%/rd", "Ad"}) for (auto &p : st) ctx.run(vfmt("streams: %s %s, then %d calls", o, p.c_str(), Th ? 6 : 4), [&] { all("c@", st, Th ? 6 : 4, {o, p}); ctx.traces++; });
    // files, deeper
    static std::vector<std::string> fl = {"r3", "p2", "v5", "l4", "l20", "L2", "L-3", "E0", "f", "z", "A@/d/g"};
    for (auto &o : {"Af", "A@/d/g", "Alf", "A%/rf", "Be"}) for (auto &p : fl) ctx.run(vfmt("files: %s %s, then %d calls", o, p.c_str(), Th ? 5 : 3), [&] { all("c@", fl, Th ? 5 : 3, {o, p}); ctx.traces++; });
    // created directories as working directory
    static std::vector<std::string> cr = {"m@/w/made", "c@/w/made", "mmade", "Nmade2", "cmade", "c..", "whello", "Amade2", "r9", "g500", "e.", "smade", "o.", "D"};
    for (auto &o : cr) ctx.run(vfmt("creating: m@/w/made c@/w/made %s, then %d calls", o.c_str(), Th ? 4 : 2), [&] { all("c@", cr, Th ? 4 : 2, {"m@/w/made", "c@/w/made", o}); ctx.traces++; });
    // recorded findings: see known_findings.json
    ctx.run("finding: listing of an image directory in which something was created", [&] { one("c@", {"m@/w/made", "e@/w"}); ctx.states++; ctx.traces++; });
    ctx.run("finding: mode of an image directory in which something was created", [&] { one("c@", {"m@/d/made", "s@/d"}); ctx.states++; ctx.traces++; });
    ctx.run("finding: file of the image opened for reading and writing with O_CREAT", [&] { one("c@", {"n@/f", "r20"}); ctx.states++; ctx.traces++; });
}
