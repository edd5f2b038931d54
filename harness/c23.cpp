// C23: every sequence of chdir calls of the interception layer, followed by every path call on paths of both worlds, against
// resolution over the abstract tree (image) and the operating system itself (everything else).
#include "sample.hpp"
#include "pathmodel.hpp"
using namespace sq;
static ImageP im; static NodeP root; static Node *MEM; static pm::Ident *ID; static std::string S, W;
static void mkworld() {
    if (im) return;
    auto mem = ::sq::dir("__enclose_io_memfs__", {::sq::dir("d", {text("f", "image d/f"), ::sq::dir("sub", {text("g", "image g")}), lnk("up", "../f"), text(".h", "image d/.h"), ::sq::dir("...", {text("..x", "dots")})}), ::sq::dir("e", {text("f", "image e/f")}), text("f", "image f"), lnk("la", "/__enclose_io_memfs__/d/sub"), lnk("ld", "d"), lnk("lf", "d/f"), lnk("nowhere", "missing"), text(".h", "image .h")}); sort_kids(*mem);
    root = ::sq::dir("", {mem, ::sq::dir("__enclose_io_memfs__x", {text("y", "not for the layer")}), text("outside", "image root")}); MEM = mem.get(); ID = new pm::Ident(*root); im = build(root);
    S = getenv("VF_SCRATCH"); W = S + "/w"; ::mkdir(W.c_str(), 0755); ::mkdir((W + "/d").c_str(), 0755); ::mkdir((W + "/d/sub").c_str(), 0755); spit(W + "/f", "real f"); spit(W + "/d/f", "real d/f"); spit(W + "/only", "real only"); ::mkdir((S + MEMFS).c_str(), 0755); spit(S + MEMFS + "/f", "real memfs f"); ::mkdir((W + MEMFS).c_str(), 0755); spit(W + MEMFS + "/f", "real w memfs f"); ::symlink("f", (W + "/rl").c_str());
}
static std::string canon(Node *n) { return n->parent ? canon(n->parent) + "/" + n->name : ""; }
struct M {   // where the process is
    Node *n = nullptr; std::string str;   // in the image: the directory and what getcwd reports; otherwise str is the real directory
};
struct World { Fs fs; World(ImageP i) : fs(i) { enclose_io_fs = &fs.fs; REQ(!enclose_io_chdir(W.c_str()), "chdir to a real directory"); } World() : World(im) {} ~World() { enclose_io_chdir(W.c_str()); enclose_io_fs = nullptr; } };
static M here() { return {nullptr, W}; }
static bool memfs(const std::string &p) { return p == MEMFS || p.compare(0, strlen(MEMFS) + 1, MEMFS "/") == 0; }
static bool served(const M &m, const std::string &p) { return p[0] == '/' ? memfs(p) : !!m.n; }
static pm::Outs outs(const M &m, const std::string &p, bool follow) { if (p[0] == '/') return pm::outcomes(root.get(), p, follow); pm::Outs a = pm::outcomes(root.get(), m.str + "/" + p, follow), b = pm::outcomes(root.get(), canon(m.n) + "/" + p, follow); a.insert(b.begin(), b.end()); return a; }
static void check_cwd(const M &m, bool sizes) {
    char *s = enclose_io_getcwd(nullptr, 0); REQ(s, "getcwd(NULL, 0): %s", errname(errno).c_str()); std::string g = s; free(s);
    if (m.n) { REQ(g == m.str, "getcwd is %s, expected %s", g.c_str(), m.str.c_str()); } else { char b[PATH_MAX]; REQ(::getcwd(b, sizeof b) && g == b && g == m.str, "getcwd is %s, expected the real directory %s", g.c_str(), m.str.c_str()); }
    { std::vector<char> b(MAXPATHLEN + 1, 'x'); REQ(enclose_io_getwd(b.data()) == b.data() && g == b.data(), "getwd"); }
    if (!sizes) return;
    for (size_t n = 0; n <= g.size() + 40; n++) { std::unique_ptr<char[]> b(new char[n ? n : 1]); memset(b.get(), 'x', n ? n : 1); errno = 0; char *r = enclose_io_getcwd(b.get(), n); int e = errno;
        if (n <= g.size()) { REQ(!r, "getcwd with %zu bytes returned '%.*s', %zu are needed", n, (int)n, b.get(), g.size() + 1); REQ(e == ERANGE || (n == 0 && e == EINVAL), "getcwd with %zu bytes: %s", n, errname(e).c_str()); if (n == 0) REQ(b[0] == 'x', "getcwd with 0 bytes wrote"); }
        else { REQ(r == b.get() && g == r, "getcwd with %zu bytes", n); for (size_t i = g.size() + 1; i < n; i++) REQ(b[i] == 'x', "getcwd wrote behind the string"); } ctx.transitions++; }
}
// a chdir through the layer, judged and followed by the model
static void go(M &m, const std::string &p) {
    ctx.transitions++; errno = 0; int r = enclose_io_chdir(p.c_str()); int e = errno;
    if (served(m, p)) {
        auto o = pm::only(outs(m, p, true), [](Node *n) { return n->kind == sq::DIR; }, -1); bool may = false, mayfail = false; for (auto &x : o) (x.n ? may : mayfail) = true;
        if (r) { REQ(mayfail, "chdir(%s) failed: %s", p.c_str(), errname(e).c_str()); REQ(e, "errno 0"); check_cwd(m, false); return; }
        REQ(may, "chdir(%s) succeeds", p.c_str()); char *s = enclose_io_getcwd(nullptr, 0); REQ(s, "getcwd"); std::string g = s; free(s);
        REQ(memfs(g), "after chdir(%s) into the image getcwd reports %s", p.c_str(), g.c_str()); auto q = pm::outcomes(root.get(), g, true); Node *at = nullptr; for (auto &x : o) if (x.n && q.count(x)) at = x.n; REQ(at, "after chdir(%s) getcwd reports %s", p.c_str(), g.c_str()); REQ(g.back() != '/', "getcwd reports a trailing slash: %s", g.c_str());
        // the plain name of a directory reached by plain names
        bool plain = p.find("//") == std::string::npos && m.str.find("//") == std::string::npos; for (auto c : pm::split(p)) plain = plain && c != "." && c != ".."; std::string t = p[0] == '/' ? "" : m.str; for (auto c : pm::split(p)) t += "/" + c; if (plain && (p[0] == '/' || m.n)) REQ(g == t, "after chdir(%s) getcwd reports %s, expected %s", p.c_str(), g.c_str(), t.c_str());
        m.n = at; m.str = g; check_cwd(m, false); return;
    }
    std::string full = p[0] == '/' ? p : m.str + "/" + p; char b[PATH_MAX]; struct stat st; bool ok = ::realpath(full.c_str(), b) && !::stat(b, &st) && S_ISDIR(st.st_mode);
    REQ(!r == ok, "chdir(%s) to a real directory returned %d (%s)", p.c_str(), r, errname(e).c_str()); if (!r) { m.n = nullptr; m.str = b; } else { errno = 0; REQ(::chdir(full.c_str()) == -1 && errno == e, "chdir(%s): errno %s", p.c_str(), errname(e).c_str()); } check_cwd(m, false);
}
static std::string names_of(Node *n) { std::set<std::string> s; for (auto &k : n->kids) s.insert(k->name); std::string r; for (auto &x : s) r += x + "/"; return r; }
static int all(const struct SQUASH_DIRENT *) { return 1; }
static int nof(const struct SQUASH_DIRENT *e) { return ((struct dirent *)e)->d_name[0] != 'f'; }
static int backwards(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return strcmp(((struct dirent *)*b)->d_name, ((struct dirent *)*a)->d_name); }
static std::string file(int fd) { std::string s; char b[64]; ssize_t n; while ((n = enclose_io_read(fd, b, sizeof b)) > 0) s.append(b, n); return n < 0 ? "error" : s; }
// every path call on one path
static void paths(const M &m, const std::string &p, bool full) {
    const char *c = p.c_str(); struct stat st, su; ctx.note("working directory %s, path %s", m.str.c_str(), c);
    static int wfd = -1; if (wfd < 0) { wfd = fcntl(::open(W.c_str(), O_RDONLY), F_DUPFD, 600); }
    if (served(m, p)) {
        auto fo = outs(m, p, true), nf = outs(m, p, false); auto judge = [&](const char *op, Node *n, bool ok, int e, const pm::Outs &o) { pm::judge(op, p, n, ok, e, o, false); REQ(ok || e, "%s(%s) failed with errno 0", op, c); };
        errno = 0; memset(&st, 0x55, sizeof st); int r = enclose_io_stat(c, &st); judge("stat", r ? nullptr : ID->of(st), !r, errno, fo);
        auto opened = [&](const char *op, int fd) { int e = errno; Node *n = nullptr; if (fd >= 0) { REQ(SQUASH_VALID_VFD(fd), "%s(%s) gives a real descriptor", op, c); squash_fstat(fd, &st); n = ID->of(st); if (n && n->kind == REG) REQ(file(fd) == n->data, "%s(%s): wrong content", op, c); enclose_io_close(fd); } judge(op, n, fd >= 0, e, fo); };
        errno = 0; opened("open", enclose_io_open(2, c, O_RDONLY));
        if (!full) return;
        errno = 0; memset(&st, 0x55, sizeof st); r = enclose_io_lstat(c, &st); judge("lstat", r ? nullptr : ID->of(st), !r, errno, nf);
        errno = 0; opened("open (mode given)", enclose_io_open(3, c, O_RDONLY, 0644));
        typedef int (*OA)(int, int, const char *, int, ...); OA oa = (OA)(void *)enclose_io_openat;
        errno = 0; opened("openat", oa(3, AT_FDCWD, c, O_RDONLY)); errno = 0; opened("openat (mode given)", oa(4, AT_FDCWD, c, O_RDONLY, 0644));
        if (p[0] == '/') { errno = 0; opened("openat (real directory)", oa(3, wfd, c, O_RDONLY)); errno = 0; opened("openat (real directory, mode given)", oa(4, wfd, c, O_RDONLY, 0)); }
        for (int md : {F_OK, R_OK}) { errno = 0; r = enclose_io_access(c, md); int e = errno; bool a = false; for (auto &x : fo) a = a || (r ? !x.n : !!x.n); REQ(a, "access(%s, %d) returned %d (%s)", c, md, r, errname(e).c_str()); }
        { char b[300]; memset(b, 'q', sizeof b); errno = 0; ssize_t n = enclose_io_readlink(c, b, 299); int e = errno; bool a = false; for (auto &x : nf) if (n < 0) a = a || !x.n || x.n->kind != LNK; else a = a || (x.n && x.n->kind == LNK && x.n->target == std::string(b, n)); REQ(a, "readlink(%s) returned %zd (%s)", c, n, errname(e).c_str());  }
        auto dout = pm::only(fo, [](Node *n) { return n->kind == sq::DIR; }, -1);
        { errno = 0; ::DIR *d = enclose_io_opendir(c); int e = errno; Node *n = nullptr; if (d) { REQ(!enclose_io_fstat(enclose_io_dirfd(d), &st), "fstat"); n = ID->of(st); std::string l; while (auto *x = enclose_io_readdir(d)) l += std::string(x->d_name) + "/"; enclose_io_closedir(d); if (n) REQ(l == names_of(n), "opendir(%s) lists %s", c, l.c_str()); } judge("opendir", n, !!d, e, dout); }
        { errno = 0; struct SQUASH_DIRENT **l = nullptr; int k = enclose_io_scandir(c, &l, all, nullptr); int e = errno; bool a = false; std::string g; for (int i = 0; i < k; i++) { g += std::string(l[i]->d_name) + "/"; vf_free(l[i]); } if (k >= 0) vf_free(l); for (auto &x : dout) a = a || (k < 0 ? !x.n : x.n && names_of(x.n) == g); REQ(a, "scandir(%s) returned %d (%s): %s", c, k, errname(e).c_str(), g.c_str()); }
        for (int sl = 0; sl < 2; sl++) for (int cm = 0; cm < 2; cm++) { struct SQUASH_DIRENT **l = nullptr; int k = enclose_io_scandir(c, &l, sl ? nof : nullptr, cm ? backwards : nullptr); if (k < 0) continue; bool a = false; std::string g; for (int i = 0; i < k; i++) { g += std::string(((struct dirent *)l[i])->d_name) + "/"; vf_free(l[i]); } vf_free(l); for (auto &x : dout) { if (!x.n) continue; std::vector<std::string> v; for (auto &q : x.n->kids) if (!sl || q->name[0] != 'f') v.push_back(q->name); std::sort(v.begin(), v.end()); if (cm) std::reverse(v.begin(), v.end()); std::string w; for (auto &q : v) w += q + "/"; a = a || w == g; } REQ(a, "scandir(%s) with%s a selection and with%s an order: %s", c, sl ? "" : "out", cm ? "" : "out", g.c_str()); }
    } else {
        // the operating system, unchanged
        auto same = [&](const char *op, long a, int ea, long b, int eb) { ctx.transitions++; REQ(a == b && (a >= 0 || ea == eb), "%s(%s) returned %ld (%s), the system returns %ld (%s)", op, c, a, errname(ea).c_str(), b, errname(eb).c_str()); };
        auto eq = [&](const struct stat &s, const struct stat &t) { return s.st_ino == t.st_ino && s.st_dev == t.st_dev && s.st_mode == t.st_mode && s.st_size == t.st_size; };
        errno = 0; int a = enclose_io_stat(c, &st), ea = errno; errno = 0; int b = ::stat(c, &su), eb = errno; same("stat", a, ea, b, eb); if (!a) REQ(eq(st, su), "stat(%s) differs", c);
        auto opened = [&](const char *op, int fd, int ea, int gd, int eb) { same(op, fd < 0 ? -1 : 0, ea, gd < 0 ? -1 : 0, eb); if (fd >= 0) { REQ(!SQUASH_VALID_VFD(fd), "%s(%s) gives a virtual descriptor", op, c); ::fstat(fd, &st); ::fstat(gd, &su); REQ(eq(st, su), "%s(%s) opened another object", op, c); REQ((fcntl(fd, F_GETFL)) == fcntl(gd, F_GETFL), "%s(%s): other flags", op, c); ::close(fd); ::close(gd); } };
#define OPENED(op, x, y) do { errno = 0; int f_ = x, ea_ = errno; errno = 0; int g_ = y, eb_ = errno; opened(op, f_, ea_, g_, eb_); } while (0)
        for (int fl : {O_RDONLY, O_RDWR | O_APPEND, O_RDONLY | O_DIRECTORY, O_RDONLY | O_NOFOLLOW}) { OPENED("open", enclose_io_open(2, c, fl), ::open(c, fl)); if (!full) return; OPENED("open (mode given)", enclose_io_open(3, c, fl, 0600), ::open(c, fl, 0600)); typedef int (*OA)(int, int, const char *, int, ...); OA oa = (OA)(void *)enclose_io_openat; OPENED("openat", oa(3, AT_FDCWD, c, fl), ::openat(AT_FDCWD, c, fl)); OPENED("openat (mode given)", oa(4, AT_FDCWD, c, fl, 0600), ::openat(AT_FDCWD, c, fl, 0600)); OPENED("openat (directory)", oa(3, wfd, c, fl), ::openat(wfd, c, fl)); }
        errno = 0; a = enclose_io_lstat(c, &st), ea = errno; errno = 0; b = ::lstat(c, &su), eb = errno; same("lstat", a, ea, b, eb); if (!a) REQ(eq(st, su), "lstat(%s) differs", c);
        for (int md : {F_OK, R_OK, W_OK, X_OK, R_OK | X_OK}) { errno = 0; a = enclose_io_access(c, md), ea = errno; errno = 0; b = ::access(c, md), eb = errno; same("access", a, ea, b, eb); }
        { char x[300] = "", y[300] = ""; errno = 0; a = enclose_io_readlink(c, x, 299), ea = errno; errno = 0; b = ::readlink(c, y, 299), eb = errno; same("readlink", a, ea, b, eb); REQ(!strcmp(x, y), "readlink(%s) differs", c); }
        if (p == "/" || p.find("..") != std::string::npos) return;      // the system's own directories may change under us
        { errno = 0; ::DIR *d = enclose_io_opendir(c); ea = errno; errno = 0; ::DIR *f = ::opendir(c); eb = errno; same("opendir", d ? 0 : -1, ea, f ? 0 : -1, eb); if (d) { for (;;) { auto *x = (struct dirent *)enclose_io_readdir(d); auto *y = ::readdir(f); REQ(!x == !y && (!x || !strcmp(x->d_name, y->d_name)), "readdir of real %s differs", c); if (!x) break; } enclose_io_closedir(d); ::closedir(f); } }
        { struct SQUASH_DIRENT **l = nullptr; struct dirent **q = nullptr; errno = 0; a = enclose_io_scandir(c, &l, all, (int (*)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **))alphasort); ea = errno; errno = 0; b = ::scandir(c, &q, nullptr, alphasort); eb = errno; same("scandir", a, ea, b, eb); for (int i = 0; i < a; i++) REQ(!strcmp(((struct dirent *)l[i])->d_name, q[i]->d_name), "scandir of real %s differs", c); for (int i = 0; i < a; i++) free(l[i]), free(q[i]); if (a >= 0) free(l), free(q); }
    }
}
// openat relative to a real directory never depends on the working directory of the layer
static void openat_real(const M &m) { typedef int (*OA)(int, int, const char *, int, ...); OA oa = (OA)(void *)enclose_io_openat; int w = fcntl(::open(W.c_str(), O_RDONLY), F_DUPFD, 620); for (const char *p : {"f", "d/f", "only", "none", ".", "rl"}) { int a = oa(3, w, p, O_RDONLY), b = ::openat(w, p, O_RDONLY); REQ((a < 0) == (b < 0), "openat(real directory, %s) in %s returned %d", p, m.str.c_str(), a); if (a >= 0) { struct stat s, t; REQ(!SQUASH_VALID_VFD(a), "virtual descriptor"); ::fstat(a, &s); ::fstat(b, &t); REQ(s.st_ino == t.st_ino, "openat(real directory, %s) in %s opened another object", p, m.str.c_str()); ::close(a); ::close(b); } a = oa(4, w, p, O_RDONLY, 0600); REQ((a < 0) == (b < 0), "openat with mode"); if (a >= 0) ::close(a); } for (int i = 3; i < 40; i++) {} ::close(w); }
// and relative to a virtual one only on that
static void openat_virtual(const M &m) { typedef int (*OA)(int, int, const char *, int, ...); OA oa = (OA)(void *)enclose_io_openat;
    for (const char *b : {MEMFS, MEMFS "/d", MEMFS "/ld", MEMFS "/la", MEMFS "/d/sub/", MEMFS "/e/.././d", "d", "sub", ".", "...", ".."}) { std::string B = b; if (B[0] != '/' && (!m.n || (B == ".." && m.n == MEM))) continue; int fd = enclose_io_open(2, b, O_RDONLY); if (fd < 0) continue; struct stat st; squash_fstat(fd, &st); Node *d = ID->of(st); if (!SQUASH_VALID_VFD(fd)) vfail("real descriptor"); if (!d || d->kind != sq::DIR) { squash_close(fd); continue; }
        for (const char *p : {"f", "d/f", "../f", "sub/g", "g", ".", "./", "..", "none", "f/x", "up", "ld/f", "lf", "lf/x", "./f", ".h", "...", ".../..x", "/none"}) { std::string q = p; if (q.compare(0, 2, "..") == 0 && q.compare(0, 3, "...") && d == MEM) continue; for (int md = 0; md < 2; md++) { ctx.note("working directory %s, openat(%s, %s)", m.str.c_str(), b, p); ctx.transitions++; errno = 0; int g = md ? oa(4, fd, p, O_RDONLY, 0) : oa(3, fd, p, O_RDONLY), e = errno; if (q[0] == '/') { REQ(g == -1 && e == ENOENT, "openat of a missing absolute path: %d", g); continue; }
            pm::Outs o = pm::outcomes(root.get(), canon(d) + "/" + q, true), o2; if (B[0] == '/') o2 = pm::outcomes(root.get(), B + "/" + q, true); else o2 = pm::outcomes(root.get(), m.str + "/" + B + "/" + q, true); o.insert(o2.begin(), o2.end());
            Node *n = nullptr; if (g >= 0) { REQ(SQUASH_VALID_VFD(g), "openat(%s, %s) gives a real descriptor", b, p); squash_fstat(g, &st); n = ID->of(st); if (n && n->kind == REG) REQ(file(g) == n->data, "openat(%s, %s) reads another file", b, p); REQ(!enclose_io_close(g), "close"); } pm::judge("openat", q, n, g >= 0, e, o, false); } }
        REQ(!enclose_io_close(fd), "close"); } }
static std::vector<std::string> P; static std::vector<std::string> CD;
static void lists() {
    for (const char *x : {"", "/", "/f", "/d", "/d/", "/d/f", "/d/sub/g", "/d/up", "/ld", "/ld/f", "/ld/", "/lf", "/la", "/la/g", "/nowhere", "/none", "/none/f", "/d/../f", "//d//f", "/./f", "/f/x", "/d/.", "/ld/../f", "/only", "/outside", "/.h", "/d/.h", "/d/...", "/d/.../..x", "/ld/..././..x", "/d/..x"}) P.push_back(MEMFS + std::string(x));
    for (const char *x : {"f", "d", "d/", "d/f", "sub", "sub/g", "g", "./f", "..", "../f", "../d/f", ".", "none", "none/f", "ld", "ld/f", "lf", "la/g", "up", "only", "rl", "d/sub/", "f/x", "__enclose_io_memfs__/f", "outside", ".h", "...", "d/.../..x", ".../..x", "..x"}) P.push_back(x);
    for (auto x : {W, W + "/f", W + "/d", W + "/d/f", W + "/none", W + "/rl", S + MEMFS + "/f", W + MEMFS, W + MEMFS + "/f", std::string("/__enclose_io_memfs__x/y"), std::string("/__enclose_io_memfs__x"), std::string("/__enclose_io_memfs_"), std::string("/__enclose_io_memfs"), std::string("/outside"), std::string("/")}) P.push_back(x);
    for (const char *x : {"", "/", "/d", "/d/sub/", "/ld", "/la", "/f", "/none", "/d/../e", "/f/x", "/nowhere", "//d//sub"}) CD.push_back(MEMFS + std::string(x));
    for (const char *x : {"d", "d/", "sub", ".", "..", "none", "f", "ld", "../d", "d/sub", "./d//", "d/...", "...", "__enclose_io_memfs__"}) CD.push_back(x);
    for (auto x : {W, W + "/d", W + "/none", W + "/f", std::string("/__enclose_io_memfs__x")}) CD.push_back(x);
}
static bool allowed(const M &m, const std::string &p) { if (p.compare(0, 2, "..") && p != "..") return true; if (m.n) return m.n != MEM && m.str.find("..") == std::string::npos; return m.str != W && m.str.compare(0, W.size(), W) == 0; }
static void pathset(const M &m, bool full) { for (auto &p : P) { if (m.n && p[0] != '/' && p.compare(0, 2, "..") == 0 && m.n == MEM) continue; paths(m, p, full); } ctx.note(""); }
void vf_enumerate() {
    vf_start_library(); mkworld(); lists(); bool T = ctx.thorough(); int n = CD.size();
    ctx.run("paths from a real working directory", [&] { World w; M m = here(); check_cwd(m, true); pathset(m, true); openat_real(m); openat_virtual(m); ctx.states++; ctx.traces++; });
    for (int a = 0; a < n; a++) for (int b = -1; b < n; b++) ctx.run(vfmt("chdir %s%s%s, then every path call on every path", CD[a].c_str(), b < 0 ? "" : ", ", b < 0 ? "" : CD[b].c_str()), [&] { World w; M m = here(); long nf = vf_open_fds().size(); if (!allowed(m, CD[a])) return; go(m, CD[a]); if (b >= 0) { if (!allowed(m, CD[b])) return; go(m, CD[b]); } check_cwd(m, true); pathset(m, true); openat_real(m); openat_virtual(m); check_cwd(m, false); ctx.states++; ctx.traces++; });
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) ctx.run(vfmt("chdir %s, %s, then every sequence of %d", CD[a].c_str(), CD[b].c_str(), T ? 3 : 1), [&] { product(std::vector<int>(T ? 3 : 1, n), [&](const std::vector<int> &d) { World w; M m = here(); std::vector<int> h{a, b}; h.insert(h.end(), d.begin(), d.end()); std::string t; for (int i : h) { if (!allowed(m, CD[i])) return; t += CD[i] + "; "; ctx.note("chdir %s", t.c_str()); go(m, CD[i]); } for (const char *p : {"f", "d/f", "../f", "only"}) if (allowed(m, p)) paths(m, p, false); ctx.states++; }); ctx.traces++; });
    // endless wandering: the name of the working directory does not grow
    for (auto &cyc : std::vector<std::vector<const char *>>{{"."}, {"./"}, {"../d"}, {"sub", ".."}, {"./sub/../../d/."}, {"sub/.."}, {"../ld", "../d"}, {".", "none", "../e", "f", "..", "d"}, {"up", "..", "d", "sub", ".././"}}) for (int st = 0; st < 2; st++) ctx.run(vfmt("3000 rounds of %zu relative chdirs beginning with %s%s", cyc.size(), cyc[0], st ? " from an absolute path with dots" : ""), [&] {
        World w; REQ(!enclose_io_chdir(st ? MEMFS "/./e/../d" : MEMFS "/d"), "chdir"); struct stat a, b; std::map<std::string, int> first; for (int i = 0; i < 3000; i++) for (auto c : cyc) { errno = 0; int r = enclose_io_chdir(c); bool want = strcmp(c, "none") && strcmp(c, "f") && strcmp(c, "up"); REQ(!r == want, "round %d: chdir(%s) returned %d (%s)", i, c, r, errname(errno).c_str()); char *s = enclose_io_getcwd(nullptr, 0); REQ(s && memfs(s) && strlen(s) < 200, "round %d: working directory is a name of %zu bytes", i, strlen(s)); REQ(!squash_stat(enclose_io_fs, s, &a) && S_ISDIR(a.st_mode), "getcwd reports %s", s); Node *n = ID->of(a); free(s); REQ(!enclose_io_stat(".", &b) && ID->of(b) == n, "stat(.) is not the working directory"); std::string k = vfmt("%p", c); auto q = first.insert({k, (int)(n->mtime)}); REQ(q.first->second == (int)n->mtime, "round %d ends elsewhere", i); ctx.transitions++; } ctx.states++; ctx.traces++; });
    // long working directories and long relative paths: the right object or a failure
    for (int depth : {0, 1, 5, 8, 9}) for (int k = 0; k < (T ? 8 : 4); k++) ctx.run(vfmt("working directory of %d long names, relative paths of growing length, variant %d", depth, k), [&] {
        NodeP top = ::sq::dir("__enclose_io_memfs__"), at = top; for (int i = 0; i < depth; i++) { auto x = ::sq::dir(std::string(200, 'a' + i)); at->add(x); at = x; } auto last = ::sq::dir("z"); at->add(last); for (int i = 1; i <= 255; i++) last->add(text(std::string(i, 'n'), vfmt("%d", i))); 
        auto r = ::sq::dir("", {top}); pm::Ident id(*r); auto img = build(r); World w(img); std::string cwd = canon(last.get());
        std::string how = cwd; if (k & 1) how = std::string(MEMFS) + [&] { std::string s; for (int i = 0; i < 100; i++) s += "/."; return s; }() + cwd.substr(strlen(MEMFS)); if (k & 2) { REQ(!enclose_io_chdir(MEMFS), "chdir"); how = how.substr(strlen(MEMFS) + 1); } if (k & 4) { REQ(!enclose_io_chdir(cwd.substr(0, cwd.size() - 2).c_str()), "chdir"); how = "z"; }
        errno = 0; int e = enclose_io_chdir(how.c_str()); if (e) { REQ(errno == ENAMETOOLONG && how.size() + 30 > 1500, "chdir to a path of %zu bytes: %s", how.size(), errname(errno).c_str()); return; }
        { char *s = enclose_io_getcwd(nullptr, 0); struct stat st; REQ(!squash_stat(enclose_io_fs, s, &st) && id.of(st) == last.get(), "getcwd reports a wrong directory of %zu bytes", strlen(s)); free(s); }
        size_t base = cwd.size() + 1 + (k & 1 ? 200 : 0); 
        int hd = enclose_io_open(2, ".", O_RDONLY); REQ(hd >= 0, "open ."); struct Shut { int h; ~Shut() { squash_close(h); } } shut{hd};
        for (int i = 1; i <= 255; i++) for (int pad : {0, 1, 10, 100, 500, 800, 900, 950, 1000, 1005, 1010, 1015, 1020, 2000, 5000}) for (int form = 0; form < 2; form++) {
            std::string p; for (int j = 0; j < pad; j++) p += form ? "/" : "./"; if (form) p = "." + p; p += (pad && form ? "" : "") + std::string(i, 'n'); if (form && !pad) continue; struct stat st; memset(&st, 0, sizeof st); ctx.note("file %d, padding %d, relative path of %zu bytes, together %zu", i, pad, p.size(), base + p.size()); ctx.transitions++;
            errno = 0; int rr = enclose_io_stat(p.c_str(), &st); bool big = base + p.size() > 1500; if (rr) REQ(big && errno == ENAMETOOLONG, "stat: %s", errname(errno).c_str()); else REQ(id.of(st) == last->kids[i - 1].get(), "stat found another object: %s", id.of(st) ? vfmt("name of %zu bytes", id.of(st)->name.size()).c_str() : "?");
            if (i % 20 == 1 || (base + p.size() > 2040 && base + p.size() < 2056)) { errno = 0; int fd = enclose_io_open(2, p.c_str(), O_RDONLY); if (fd < 0) REQ(big && errno == ENAMETOOLONG, "open: %s", errname(errno).c_str()); else { REQ(file(fd) == vfmt("%d", i), "open found another object"); enclose_io_close(fd); } rr = enclose_io_lstat(p.c_str(), &st); REQ(rr ? big : id.of(st) == last->kids[i - 1].get(), "lstat"); rr = enclose_io_access(p.c_str(), R_OK); REQ(!rr || big, "access"); ::DIR *d = enclose_io_opendir(p.c_str()); REQ(!d, "opendir of a file succeeds"); std::string q = p + "/"; char b[8]; REQ(enclose_io_readlink(p.c_str(), b, 8) == -1, "readlink of a file succeeds"); struct SQUASH_DIRENT **l; REQ(enclose_io_scandir(p.c_str(), &l, nullptr, nullptr) == -1, "scandir of a file succeeds");
                errno = 0; REQ(enclose_io_chdir(p.c_str()) == -1, "chdir to a file succeeds"); std::string up = p.substr(0, p.size() - i); if (up.size()) { rr = enclose_io_chdir((up + "../z").c_str()); if (!rr) { char *s = enclose_io_getcwd(nullptr, 0); REQ(!squash_stat(enclose_io_fs, s, &st) && id.of(st) == last.get(), "relative chdir went elsewhere"); free(s); REQ(!enclose_io_chdir(MEMFS) && !enclose_io_chdir(how[0] == '/' ? how.c_str() : cwd.c_str()), "chdir"); } else REQ(big, "chdir .../../z: %s", errname(errno).c_str()); } }
            if (i % 20 == 1 || (base + p.size() > 2040 && base + p.size() < 2056)) { typedef int (*OA)(int, int, const char *, int, ...); OA oa = (OA)(void *)enclose_io_openat; 
                for (int md = 0; md < 2; md++) { errno = 0; int fd = md ? oa(4, hd, p.c_str(), O_RDONLY, 0) : oa(3, hd, p.c_str(), O_RDONLY); if (fd < 0) REQ(big && errno == ENAMETOOLONG, "openat: %s", errname(errno).c_str()); else { REQ(file(fd) == vfmt("%d", i), "openat found another object"); enclose_io_close(fd); } } }
            // the same path with a name that does not exist
            if (i % 20 == 1 || (base + p.size() > 2030 && base + p.size() < 2060)) { std::string q = p.substr(0, p.size() - i) + std::string(i, 'm'); char b[8]; struct SQUASH_DIRENT **l; auto gone = [&](const char *op, bool failed) { REQ(failed && (errno == ENOENT || (big && errno == ENAMETOOLONG)), "%s of a missing object: %s", op, failed ? errname(errno).c_str() : "no failure"); errno = 0; ctx.transitions++; }; const char *c = q.c_str(); errno = 0;
                gone("stat", enclose_io_stat(c, &st) == -1); gone("lstat", enclose_io_lstat(c, &st) == -1); gone("access", enclose_io_access(c, F_OK) == -1); gone("access", enclose_io_access(c, R_OK) == -1); gone("open", enclose_io_open(2, c, O_RDONLY) == -1); gone("opendir", !enclose_io_opendir(c)); gone("readlink", enclose_io_readlink(c, b, 8) == -1); gone("scandir", enclose_io_scandir(c, &l, nullptr, nullptr) == -1); gone("chdir", enclose_io_chdir(c) == -1); }
        } ctx.states++; ctx.traces++; });
}
