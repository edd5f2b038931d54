// C25: every history of creations through the interception layer. Each history runs in a process of its own, so that its end can
// be observed; every call of the layer that changes the file system is checked against the one private directory first.
#include "sample.hpp"
#include "pathmodel.hpp"
#include <sys/mman.h>
#include <signal.h>
using namespace sq;
extern "C" char *mkdir_workdir;
static std::string H, T, R;          // scratch of this process, temporary directory, a real directory
static ImageP im; static NodeP root; static pm::Ident *ID;
static int out = -1;                 // pipe to the parent
static std::string allowed_real;     // the one real path that the running call may change
static std::string priv; static bool served_op; static long fail_mkdir = -1, fail_open = -1, fail_atexit = -1, n_mkdir, n_open, n_atexit; static int fail_errno = EACCES;
static std::vector<std::string> tmpdirs;
static void say(const std::string &s) { std::string t = s + "\n"; if (write(out, t.data(), t.size()) < 0) _exit(97); }
static std::string canonical(int dirfd, const char *p) {
    std::string s = p, base; char b[PATH_MAX];
    if (s.empty()) return ""; if (s[0] != '/') { if (dirfd == AT_FDCWD) { if (!::getcwd(b, sizeof b)) return "?"; } else { ssize_t n = ::readlink(vfmt("/proc/self/fd/%d", dirfd).c_str(), b, sizeof b - 1); if (n < 0) return "?"; b[n] = 0; } s = std::string(b) + "/" + s; }
    while (s.size() > 1 && s.back() == '/') s.pop_back(); size_t i = s.rfind('/'); std::string d = s.substr(0, i ? i : 1), l = s.substr(i + 1);
    if (l == "." || l == "..") return ::realpath(s.c_str(), b) ? b : s;
    return ::realpath(d.c_str(), b) ? std::string(b) + (strcmp(b, "/") ? "/" : "") + l : s;
}
static bool below(const std::string &p, const std::string &d) { return p.compare(0, d.size() + 1, d + "/") == 0; }
static std::string TR;               // the temporary directory, resolved
static bool permit(const char *what, int dirfd, const char *p, bool mk) {
    std::string c = canonical(dirfd, p);
    if (!served_op && c == allowed_real) return true;
    if (priv.empty() && mk && served_op && below(c, TR) && c.find('/', TR.size() + 1) == std::string::npos) { struct stat st; if (!::lstat(c.c_str(), &st)) return true; priv = c; return true; }   // the private directory comes into being
    if (!priv.empty() && (below(c, priv) || c == priv)) return true;
    if (c.find('/') == std::string::npos) return true;
    say(vfmt("F %s(%s) outside the private directory%s%s", what, c.c_str(), priv.empty() ? "" : " ", priv.c_str())); return false;
}
extern "C" {
int vf_mkdir(const char *p, mode_t m) { if (n_mkdir++ == fail_mkdir) { errno = fail_errno; return -1; } if (!permit("mkdir", AT_FDCWD, p, true)) { errno = EACCES; return -1; } int r = ::mkdir(p, m), e = errno; struct Keep { int e; ~Keep() { errno = e; } } kp{e}; if (r && e != EEXIST && served_op && canonical(AT_FDCWD, p) == priv) priv.clear(); return r; }
static bool writes(int fl) { return (fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE) != O_RDONLY; }
int vf_open(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } if (writes(fl)) { if (n_open++ == fail_open) { errno = fail_errno; return -1; } if (!permit("open", AT_FDCWD, p, false)) { errno = EACCES; return -1; } } return ::open(p, fl, m); }
int vf_openat(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } if (writes(fl) && !permit("openat", d, p, false)) { errno = EACCES; return -1; } return ::openat(d, p, fl, m); }
int vf_rmdir(const char *p) { if (!permit("rmdir", AT_FDCWD, p, false)) { errno = EACCES; return -1; } std::string c = canonical(AT_FDCWD, p); int r = ::rmdir(p); if (!r && c == priv) priv.clear(); return r; }
int vf_unlink(const char *p) { if (!permit("unlink", AT_FDCWD, p, false)) { errno = EACCES; return -1; } return ::unlink(p); }
int vf_remove(const char *p) { if (!permit("remove", AT_FDCWD, p, false)) { errno = EACCES; return -1; } return ::remove(p); }
int vf_unlinkat(int d, const char *p, int f) { if (!permit("unlinkat", d, p, false)) { errno = EACCES; return -1; } return ::unlinkat(d, p, f); }
int vf_rename(const char *a, const char *b) { if (!permit("rename", AT_FDCWD, a, false) || !permit("rename", AT_FDCWD, b, false)) { errno = EACCES; return -1; } return ::rename(a, b); }
int vf_chmod(const char *a, mode_t m) { if (!permit("chmod", AT_FDCWD, a, false)) { errno = EACCES; return -1; } return ::chmod(a, m); }
int vf_system(const char *a) { say(vfmt("F system(%s)", a)); return 0; }
int vf_atexit(void (*f)(void)) { if (n_atexit++ == fail_atexit) { errno = ENOMEM; return 1; } return ::atexit(f); }
}
// the caller's string: read only, and nothing readable behind it
struct Str { char *map; size_t len; const char *p; Str(const std::string &s) { len = (s.size() + 1 + 4095) / 4096 * 4096; map = (char *)mmap(0, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); char *q = map + len - s.size() - 1; memcpy(q, s.c_str(), s.size() + 1); p = q; mprotect(map, len, PROT_READ); mprotect(map + len, 4096, PROT_NONE); } ~Str() { munmap(map, len + 4096); } operator const char *() const { return p; } };

// ---------------------------------------------------------------- model
struct Ov { bool dir; std::string data; long mode; };
struct M { std::map<std::string, Ov> ov; std::set<std::string> touched; std::string cwd; mode_t mask = 022; };
static std::string join(const std::vector<std::string> &v, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += "/" + v[i]; return s; }
// leading dot-dots end at the root
static std::string norm(const M &m, const std::string &p) { std::vector<std::string> v; for (auto &c : pm::split(p[0] == '/' ? p : m.cwd + "/" + p)) { if (c == ".") continue; if (c == "..") { if (v.size()) v.pop_back(); } else v.push_back(c); } return v.empty() ? "/" : join(v, v.size()); }
static Node *img(const std::string &n, bool follow) { pm::Walk w{root.get(), "", "", true, true, true, true}; auto o = w.go(n, follow); return o.n; }
static bool inmem(const std::string &n) { return below(n, MEMFS); }
static std::string up(const std::string &n) { size_t i = n.rfind('/'); return i ? n.substr(0, i) : "/"; }
enum { NONE, ISDIR_, ISFILE };
static int kind(const M &m, const std::string &n) { auto i = m.ov.find(n); if (i != m.ov.end()) return i->second.dir ? ISDIR_ : ISFILE; Node *x = img(n, true); return !x ? NONE : x->kind == sq::DIR ? ISDIR_ : ISFILE; }
static void touch(M &m, const std::string &n) { for (std::string p = up(n); inmem(p); p = up(p)) m.touched.insert(p); }
static bool linky(const std::string &n) { for (std::string p = n; inmem(p); p = up(p)) { Node *x = img(p, false); if (x && x->kind == LNK) return true; } return false; }
static int all(const struct SQUASH_DIRENT *) { return 1; }
static int nodots(const struct SQUASH_DIRENT *e) { const char *n = ((const struct dirent *)e)->d_name; return strcmp(n, ".") && strcmp(n, ".."); }
static int backwards(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return strcmp(((const struct dirent *)*b)->d_name, ((const struct dirent *)*a)->d_name); }
static std::string contents(int fd) { std::string s; char b[64]; ssize_t n; while ((n = enclose_io_read(fd, b, sizeof b)) > 0) s.append(b, n); return n < 0 ? "error" : s; }
static std::set<std::string> names_in(const std::string &d) { std::set<std::string> s; ::DIR *x = ::opendir(d.c_str()); if (!x) return {"?"}; while (auto *e = ::readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) s.insert(e->d_name); ::closedir(x); return s; }
// scan: 1 everything, 2 with a selection and an order
static std::string listdir(const char *c, int scan) { std::set<std::string> s; if (scan) { struct SQUASH_DIRENT **l = nullptr; int k = enclose_io_scandir(c, &l, scan == 2 ? nodots : all, scan == 2 ? backwards : nullptr); if (k < 0) return "!" + errname(errno); std::string last, bad; for (int i = 0; i < k; i++) { std::string n = ((struct dirent *)l[i])->d_name; if (scan == 2 && (n == "." || n == "..")) bad = "(unwanted " + n + ")"; if (scan == 2 && i && n >= last) bad = "(not in the wanted order)"; last = n; s.insert(n); vf_free(l[i]); } vf_free(l); if (bad.size()) return bad; } else { ::DIR *d = enclose_io_opendir(c); if (!d) return "!" + errname(errno); while (auto *e = enclose_io_readdir(d)) s.insert(((struct dirent *)e)->d_name); enclose_io_closedir(d); } s.erase("."); s.erase(".."); std::string r; for (auto &x : s) r += x + "/"; return r; }
static std::vector<std::string> POOL;
static void one_object(const M &m, const std::string &n, const Ov &o, const std::string &p) {
    struct stat st; memset(&st, 0x33, sizeof st); const char *c = p.c_str(); ctx.transitions++;
    for (int l = 0; l < 2; l++) { errno = 0; int r = l ? enclose_io_lstat(c, &st) : enclose_io_stat(c, &st); REQ(!r, "%s(%s) of a created %s: %s", l ? "lstat" : "stat", c, o.dir ? "directory" : "file", errname(errno).c_str()); REQ(o.dir ? S_ISDIR(st.st_mode) : S_ISREG(st.st_mode), "%s(%s) has mode %o", l ? "lstat" : "stat", c, st.st_mode); if (o.mode >= 0) REQ((long)(st.st_mode & 0777) == o.mode, "%s has mode %o, expected %lo", c, st.st_mode & 0777, o.mode); if (!o.dir) REQ(st.st_size == (off_t)o.data.size(), "%s has %ld bytes, expected %zu", c, (long)st.st_size, o.data.size()); }
    for (int md : {F_OK, R_OK, W_OK, R_OK | W_OK}) REQ(!enclose_io_access(c, md), "access(%s, %d) of a created object: %s", c, md, errname(errno).c_str());
    if (o.mode >= 0) { int r = enclose_io_access(c, X_OK); bool x = o.dir || (o.mode & 0111); REQ(!r == x, "access(%s, X_OK) returned %d for mode %lo", c, r, o.mode); }
    { char b[8]; errno = 0; REQ(enclose_io_readlink(c, b, 8) == -1 && errno == EINVAL, "readlink(%s)", c); }
    if (o.dir) { std::string e; std::set<std::string> s; for (auto &k : m.ov) if (up(k.first) == n) s.insert(k.first.substr(n.size() + 1)); for (auto &k : s) e += k + "/"; for (int q = 0; q < 3; q++) { std::string g = listdir(c, q); REQ(g == e, "%s(%s) of a created directory lists %s, expected %s", q ? "scandir" : "opendir", c, g.c_str(), e.c_str()); } }
    else { int fd = enclose_io_open(2, c, O_RDONLY); REQ(fd >= 0, "open(%s) of a created file: %s", c, errname(errno).c_str()); std::string g = contents(fd); REQ(g == o.data, "%s contains '%s', expected '%s'", c, g.c_str(), o.data.c_str()); REQ(!enclose_io_close(fd), "close"); REQ(listdir(c, false)[0] == '!', "opendir(%s) of a created file succeeds", c); }
}
// everything that should be visible is, everything else is as in the image
static void sweep(const M &m) {
    struct stat st;
    for (auto &k : m.ov) { auto &n = k.first; one_object(m, n, k.second, n); std::vector<std::string> f; std::string rest = n.substr(strlen(MEMFS)); f.push_back(MEMFS "/" + rest); f.push_back(MEMFS "/." + rest); f.push_back(MEMFS "/d/.." + rest); if (k.second.dir) f.push_back(n + "/"), f.push_back(n + "/."); if (m.cwd.size() && below(n, m.cwd)) { std::string r = n.substr(m.cwd.size() + 1); f.push_back(r); f.push_back("./" + r); if (m.cwd != MEMFS) f.push_back("../" + m.cwd.substr(m.cwd.rfind('/') + 1) + "/" + r); } else if (m.cwd.size() && below(n, up(m.cwd)) && m.cwd != MEMFS) f.push_back(".." + n.substr(up(m.cwd).size())); for (auto &p : f) one_object(m, n, k.second, p); }
    for (auto &p : POOL) {
        std::string n = norm(m, p); if (m.ov.count(n)) continue; Node *x = img(n, true); ctx.transitions++;
        for (int rel = 0; rel < 2; rel++) { std::string q = p; if (rel) { if (m.cwd.empty() || !below(p, m.cwd)) continue; q = p.substr(m.cwd.size() + 1); } const char *c = q.c_str();
        if (!x) { if (linky(n)) continue; errno = 0; int r = enclose_io_stat(c, &st); REQ(r == -1 && (errno == ENOENT || errno == ENOTDIR), "stat(%s), which was never created: %d %s", c, r, errname(errno).c_str()); int fd = enclose_io_open(2, c, O_RDONLY); REQ(fd < 0, "open(%s), which was never created", c); REQ(enclose_io_access(c, F_OK) == -1, "access(%s), which was never created", c); REQ(listdir(c, false)[0] == '!', "opendir(%s), which was never created", c); continue; }
        memset(&st, 0x33, sizeof st); REQ(!enclose_io_stat(c, &st), "stat(%s), which is in the image: %s", c, errname(errno).c_str());
        if (x->kind == sq::DIR) { if (m.touched.count(n)) { REQ(S_ISDIR(st.st_mode) && (st.st_mode & 0700) == 0700, "directory %s has mode %o", c, st.st_mode); continue; } REQ(ID->of(st) == x, "stat(%s) is another object", c); std::string e; std::set<std::string> s; for (auto &k : x->kids) s.insert(k->name); for (auto &k : s) e += k + "/"; std::string g = listdir(c, false); REQ(g == e, "opendir(%s) lists %s, expected %s", c, g.c_str(), e.c_str()); }
        else { REQ(ID->of(st) == x, "stat(%s), which is in the image, is another object", c); if (x->kind == REG) { int fd = enclose_io_open(2, c, O_RDONLY); REQ(fd >= 0 && SQUASH_VALID_VFD(fd), "open(%s), which is in the image: %d", c, fd); std::string g = contents(fd); REQ(g == x->data, "%s, which is in the image, contains '%s'", c, g.c_str()); enclose_io_close(fd); } }
        }
    }
    // one private directory, for this user only
    std::set<std::string> t = names_in(TR); t.erase("bystander"); t.erase("bystander.d"); t.erase(std::string(200, 'q')); REQ(t.size() <= 1, "%zu new entries in the temporary directory", t.size()); for (auto &k : t) { REQ(!::lstat((TR + "/" + k).c_str(), &st) && S_ISDIR(st.st_mode) && (st.st_mode & 0777) == 0700, "the private directory has mode %o", st.st_mode); REQ(TR + "/" + k == priv, "%s is not the private directory %s", k.c_str(), priv.c_str()); }
}
// ---------------------------------------------------------------- operations
struct Op { bool served; Op(const std::string &real = "") { served_op = real.empty(); allowed_real = real; errno = 0; } ~Op() { int e = errno; served_op = false; allowed_real.clear(); errno = e; } };
static bool faulty;      // a failure has been injected: creations may fail
static bool do_mkdir(M &m, const std::string &p, mode_t mode) {
    std::string n = norm(m, p); Str s(p); int r, e; { Op o; r = enclose_io_mkdir(s, mode); e = errno; } ctx.transitions++;
    if (!inmem(n)) { REQ(r == -1 && e, "mkdir(%s), which leaves the memory filesystem, returned %d", p.c_str(), r); return false; }
    if (img(n, false)) { REQ(r == -1 && (e == EEXIST || faulty), "mkdir(%s), which exists in the image, returned %d (%s)", p.c_str(), r, errname(e).c_str()); return false; }
    int par = kind(m, up(n)); if (par == ISDIR_) touch(m, n);
    if (m.ov.count(n)) { REQ(r == -1 && (e == EEXIST || faulty), "mkdir(%s), which was created before, returned %d (%s)", p.c_str(), r, errname(e).c_str()); return false; }
    if (par != ISDIR_) { REQ(r == -1 && (e == ENOENT || e == ENOTDIR || faulty), "mkdir(%s) without a parent returned %d (%s)", p.c_str(), r, errname(e).c_str()); return false; }
    if (faulty && r) { REQ(e, "mkdir(%s) failed with errno 0", p.c_str()); return false; }
    REQ(!r, "mkdir(%s) failed: %s", p.c_str(), errname(e).c_str()); m.ov[n] = {true, "", (long)(mode & 0777 & ~m.mask)}; return true;
}
typedef int (*OA)(int, int, const char *, int, ...);
static int wfd = -1;
static int call_open(const char *s, int fl, mode_t mode, int via) { OA oa = (OA)(void *)enclose_io_openat; return via == 1 ? oa(4, AT_FDCWD, s, fl, mode) : via == 2 ? oa(4, wfd, s, fl, mode) : enclose_io_open(3, s, fl, mode); }
static bool do_open(M &m, const std::string &p, int fl, mode_t mode, const std::string &data, int via = 0) {
    std::string n = norm(m, p); bool there = inmem(n) && img(n, false), isd = there && kind(m, n) == ISDIR_; if (there && !(fl & O_EXCL) && !isd) return false; if (via == 2 && p[0] != '/') via = 1;
    Str s(p); int fd, e; { Op o; fd = call_open(s, fl, mode, via); e = errno; } ctx.transitions++; auto fails = [&](const char *why) { if (fd >= 0) enclose_io_close(fd); REQ(fd == -1 && e, "open(%s) for creation %s returned %d", p.c_str(), why, fd); return false; };
    if (there) { fails("of what is in the image"); REQ(e == (fl & O_EXCL ? EEXIST : EISDIR) || faulty, "open(%s) with O_CREAT%s of what is in the image: %s", p.c_str(), fl & O_EXCL ? " and O_EXCL" : "", errname(e).c_str()); return false; }
    if (!inmem(n)) { if (fd >= 0) enclose_io_close(fd); if (!img(n, true)) return fails("outside the memory filesystem"); return false; }
    int par = kind(m, up(n)); if (par == ISDIR_ || fd >= 0) touch(m, n); auto it = m.ov.find(n);
    if (it != m.ov.end() && it->second.dir) return fails("of a directory");
    if (it != m.ov.end() && (fl & O_EXCL)) { fails("of an existing file with O_EXCL"); REQ(e == EEXIST || faulty, "O_EXCL: %s", errname(e).c_str()); return false; }
    if (it == m.ov.end() && par == ISFILE) return fails("below a file");
    if (it == m.ov.end() && par == NONE) { if (fd < 0) { REQ(e, "errno 0"); return false; } REQ(kind(m, up(up(n))) == ISDIR_, "open(%s) created a file without a parent", p.c_str()); m.ov[up(n)] = {true, "", -1}; }
    if (faulty && fd < 0) { REQ(e, "errno 0"); return false; }
    REQ(fd >= 0, "open(%s) for creation failed: %s", p.c_str(), errname(e).c_str()); REQ(!SQUASH_VALID_VFD(fd), "open(%s) for creation gives a virtual descriptor", p.c_str());
    if (it == m.ov.end()) m.ov[n] = {false, "", (long)(mode & 0777 & ~m.mask)}; Ov &o = m.ov[n]; if (fl & O_TRUNC) o.data.clear();
    struct stat st; REQ(!enclose_io_fstat(fd, &st) && S_ISREG(st.st_mode) && st.st_size == (off_t)o.data.size() && (o.mode < 0 || (long)(st.st_mode & 0777) == o.mode), "fstat of the created %s: mode %o, %ld bytes", p.c_str(), st.st_mode, (long)st.st_size);
    if ((fl & O_ACCMODE) != O_RDONLY) { REQ(::write(fd, data.data(), data.size()) == (ssize_t)data.size(), "write to the created %s", p.c_str()); if (fl & O_APPEND) o.data += data; else o.data.replace(0, std::min(o.data.size(), data.size()), data); } else REQ(::write(fd, "x", 1) == -1, "write through a read-only descriptor");
    if ((fl & O_ACCMODE) != O_WRONLY) { REQ(enclose_io_lseek(fd, 0, SEEK_SET) == 0, "lseek"); std::string g = contents(fd); REQ(g == o.data, "%s reads '%s', expected '%s'", p.c_str(), g.c_str(), o.data.c_str()); }
    REQ(!enclose_io_close(fd), "close"); return true;
}
static void do_chdir(M &m, const std::string &p) {
    if (p[0] != '/' && m.cwd.empty()) return; std::string n = norm(m, p); if (n != MEMFS && !inmem(n)) return;
    Str s(p); int r, e; { Op o; r = enclose_io_chdir(s); e = errno; } int k = kind(m, n); ctx.transitions++; if (k != ISDIR_) { REQ(r == -1 && e, "chdir(%s) returned %d", p.c_str(), r); } else { if (faulty && r) { REQ(e, "errno 0"); return; } REQ(!r, "chdir(%s): %s", p.c_str(), errname(e).c_str()); m.cwd = n; if (faulty) return; char *w = enclose_io_getcwd(nullptr, 0); REQ(w && norm(m, w) == n, "after chdir(%s) getcwd reports %s", p.c_str(), w ? w : "nothing"); vf_free(w); }
}
static void do_real(M &m, int what) {
    if (what == 0) { REQ(!enclose_io_chdir(R.c_str()), "chdir to a real directory"); m.cwd.clear(); return; }
    std::string p = R + "/made"; struct stat st; Str s(p);
    if (what == 1) { int r; { Op o(p); r = enclose_io_mkdir(s, 01751); } REQ(!r && !::stat(p.c_str(), &st) && S_ISDIR(st.st_mode) && (st.st_mode & 01777) == (01751 & ~m.mask), "mkdir of a real directory"); { Op o(p); r = enclose_io_mkdir(s, 0751); int e = errno; REQ(r == -1 && e == EEXIST, "mkdir of an existing real directory"); } ::rmdir(p.c_str()); }
    else for (int via = 0; via < 3; via++) { int fd; { Op o(p); fd = call_open(s, O_CREAT | O_EXCL | O_WRONLY, 06640, via); } REQ(fd >= 0 && !SQUASH_VALID_VFD(fd) && !::stat(p.c_str(), &st) && S_ISREG(st.st_mode) && (st.st_mode & 07777) == (06640 & ~m.mask), "creating open of a real file: %d", fd); ::close(fd); ::unlink(p.c_str()); }
}
struct Act { std::string name; std::function<void(M &)> f; };
static std::vector<Act> A;
static void acts() {
    auto mk = [&](const std::string &p, mode_t mo = 0755) { A.push_back({"mkdir " + p, [=](M &m) { if (p[0] == '/' || m.cwd.size()) do_mkdir(m, p, mo); }}); };
    auto cr = [&](const std::string &p, int fl, const std::string &d, int via = 0, mode_t mo = 0644) { A.push_back({vfmt("open %s flags %o%s", p.c_str(), fl, via ? via == 1 ? " (openat)" : " (openat, real directory)" : ""), [=](M &m) { if (p[0] == '/' || m.cwd.size()) do_open(m, p, fl, mo, d, via); }}); };
    auto cd = [&](const std::string &p) { A.push_back({"chdir " + p, [=](M &m) { do_chdir(m, p); }}); };
    const int C = O_CREAT | O_RDWR, W = O_CREAT | O_WRONLY;
    mk(MEMFS "/n"); cr(MEMFS "/w", C, "first"); cd(MEMFS "/d"); cd(MEMFS "/n"); mk("n"); cr("w", C | O_TRUNC, "rel", 1); mk(MEMFS "/d/n", 0700); cr(MEMFS "/d/w", W | O_EXCL, "excl", 2, 0600); cr(MEMFS "/n/w", C | O_APPEND, "app"); mk(MEMFS "/n/m/", 0777); mk(MEMFS "/d"); mk(MEMFS "/f"); mk(MEMFS "/d/../../../esc1"); cr(MEMFS "/d/../../../../esc2", C, "esc"); mk(MEMFS "/n/../d/./n2//"); cr(MEMFS "/d/../n/.//w2", W | O_TRUNC, "dots", 0, 0751); cr(MEMFS "/f/w", C, "x"); cr(MEMFS "/none/w", C, "none"); mk(MEMFS "/none/x"); cr(MEMFS "/d/sub/w", O_CREAT | O_RDONLY, "", 1); mk(MEMFS "/ld/n"); mk(MEMFS "/nowhere"); mk(MEMFS "/lf"); mk(MEMFS); cd(".."); mk("../n3"); cr("../../../../esc3", C, "esc", 1); cd(MEMFS);
    A.push_back({"umask", [](M &m) { m.mask ^= 055; ::umask(m.mask); }}); for (int i = 0; i < 3; i++) A.push_back({i == 0 ? "chdir to a real directory" : i == 1 ? "real mkdir" : "real creating open", [=](M &m) { do_real(m, i); }});
    cr(MEMFS "/n/m/w", C, "deep"); mk(MEMFS "/w/x"); cr(MEMFS "/n", C, "dir"); cr(MEMFS "/ld/w", C | O_APPEND, "through a link"); mk(MEMFS "/d/sub/g/x"); cr(MEMFS "/w/w", C, "below a file");
    for (const char *p : {"", "/n", "/w", "/d", "/d/n", "/d/w", "/n/w", "/n/m", "/n/m/w", "/d/n2", "/n/w2", "/f", "/f/w", "/none", "/none/w", "/none/x", "/d/sub", "/d/sub/w", "/d/sub/g", "/d/f", "/ld/f", "/ld/n", "/lf", "/n3", "/e", "/e/f", "/e/w", "/esc1", "/esc2", "/esc3", "/d/n/n", "/d/n/w", "/n/n", "/w/x", "/w/w", "/d/n3", "/n/n3", "/d/m", "/n/d", "/sub"}) POOL.push_back(MEMFS + std::string(p));
}
static std::map<std::string, std::string> before;
static void snap(std::map<std::string, std::string> &s, const std::string &d) { for (auto &n : names_in(d)) { std::string p = d + "/" + n; struct stat st; if (::lstat(p.c_str(), &st)) continue; std::string v = vfmt("%o %ld", st.st_mode, S_ISDIR(st.st_mode) ? 0L : (long)st.st_size); if (S_ISREG(st.st_mode)) { int fd = ::open(p.c_str(), O_RDONLY); char b[256]; ssize_t k = ::read(fd, b, sizeof b); ::close(fd); v += std::string(b, k > 0 ? k : 0); } if (n.find_first_not_of("q") != std::string::npos) s[p] = v; if (S_ISDIR(st.st_mode)) snap(s, p); } }
static void mkworld() {
    if (im) return; root = ::sq::dir("", {::sq::dir("__enclose_io_memfs__", {::sq::dir("d", {text("f", "image d/f"), ::sq::dir("sub", {text("g", "image g")})}), ::sq::dir("e", {text("f", "image e/f")}), text("f", "image f"), lnk("ld", "d"), lnk("lf", "d/f"), lnk("nowhere", "missing")}), text("outside", "image root")}); ID = new pm::Ident(*root); im = build(root); acts();
    H = std::string(getenv("VF_SCRATCH")) + "/h"; { char b[PATH_MAX]; ::mkdir(H.c_str(), 0755); if (::realpath(H.c_str(), b)) H = b; } T = H + "/tmp"; R = H + "/real"; TR = T;
}
static void fresh() { static bool f = true; if (!f) { std::map<std::string, std::string> now; snap(now, H); if (now == before && names_in(T).size() == 2) return; } f = false; vf_rmtree(H); ::umask(022); ::mkdir(H.c_str(), 0755); ::mkdir(T.c_str(), 0755); ::mkdir(R.c_str(), 0755); spit(T + "/bystander", "not yours"); ::mkdir((T + "/bystander.d").c_str(), 0755); spit(T + "/bystander.d/x", "nor this"); spit(H + "/esc", "outside"); spit(R + "/f", "real f"); ::mkdir((H + MEMFS).c_str(), 0755); ::mkdir((H + MEMFS "/tmp").c_str(), 0755); ::mkdir((H + MEMFS "/n").c_str(), 0755); before.clear(); snap(before, H); }
// one process: runs the body, ends normally, and must leave nothing
static void process(const std::function<void()> &body, const char *tmpdir = nullptr, int how = 0) {
    fresh(); int p[2]; if (::pipe2(p, O_CLOEXEC)) vfail("pipe"); fflush(nullptr); ctx.states++; ctx.traces++;
    static Fs *fs; if (!fs) { fs = new Fs(im); enclose_io_fs = &fs->fs; M m; sweep(m); }
    pid_t c = fork(); if (c < 0) vfail("fork");
    if (!c) {
        out = fcntl(p[1], F_DUPFD, 800); ::close(p[0]); ::close(p[1]); ::alarm(30); ::umask(022); priv.clear(); TR = T; ::setenv("TMPDIR", tmpdir ? tmpdir : T.c_str(), 1); ::unsetenv("TMP"); ::unsetenv("TEMP"); if (::chdir(R.c_str())) _exit(96); wfd = fcntl(::open(R.c_str(), O_RDONLY), F_DUPFD, 600);
        long t0 = ctx.transitions; 
        try { body(); } catch (VFail &e) { say("F " + e.msg); }
        served_op = false; allowed_real.clear(); say(vfmt("D %ld", ctx.transitions - t0)); if (how == 1) _exit(0); exit(0);
    }
    ::close(p[1]); std::string s; char b[4096]; ssize_t n; while ((n = ::read(p[0], b, sizeof b)) > 0) s.append(b, n); ::close(p[0]); int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ;
    size_t i = s.find("F "); std::string msg = i == std::string::npos ? "" : s.substr(i + 2, s.find('\n', i) - i - 2); if (msg.size() > 900) msg.resize(900);
    struct Clean { ~Clean() { fresh(); } } cl;
    if (!msg.empty()) vfail(msg);
    if (WIFSIGNALED(st)) vfail(WTERMSIG(st) == SIGALRM ? "the process hangs" : vfmt("the process died with signal %d", WTERMSIG(st))); REQ(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with status %d", WEXITSTATUS(st)); { size_t d = s.find("D "); REQ(d != std::string::npos, "the process ended early"); ctx.transitions += atol(s.c_str() + d + 2); }
    std::map<std::string, std::string> now; snap(now, H); for (auto &k : now) { auto j = before.find(k.first); REQ(j != before.end(), "left behind after the end of the process: %s", k.first.c_str()); REQ(j->second == k.second, "changed: %s (%s)", k.first.c_str(), k.second.c_str()); } for (auto &k : before) REQ(now.count(k.first), "removed: %s", k.first.c_str());
}
static void history(const std::vector<int> &h) { process([&] { M m; std::string t; for (size_t i = 0; i < h.size(); i++) { t += A[h[i]].name + "; "; ctx.note("%s", t.c_str()); A[h[i]].f(m); if (i + 1 == h.size() || h.size() < 3) sweep(m); } }); }
void vf_enumerate() {
    vf_start_library(); mkworld(); bool TH = ctx.thorough(); int n = A.size();
    ctx.run("no operation", [&] { history({}); });
    for (int a = 0; a < n; a++) ctx.run(A[a].name, [&] { history({a}); });
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) ctx.run(A[a].name + "; " + A[b].name, [&] { history({a, b}); });
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) ctx.run(A[a].name + "; " + A[b].name + "; every third", [&] { for (int c = 0; c < n; c++) history({a, b, c}); });
    if (TH) for (int a = 0; a < 10; a++) for (int b = 0; b < 16; b++) ctx.run(A[a].name + "; " + A[b].name + "; every two", [&] { for (int c = 0; c < 28; c++) for (int d = 0; d < n; d++) history({a, b, c, d}); });
    // failures: every allocation, every file system call, the registration of the handler; afterwards everything works
    static const std::vector<std::vector<int>> progs{{0}, {1}, {6}, {7}, {0, 9}, {0, 9, 32}, {2, 4, 5}, {19}, {20}};
    for (auto &g : progs) for (int fk = 0; fk < 4; fk++) for (int k = 0; k < 12; k++) for (int at = 0; at < (int)g.size(); at++) ctx.run(vfmt("%s: %s %d fails in step %d, then again", A[g[0]].name.c_str(), fk == 0 ? "allocation" : fk == 1 ? "mkdir" : fk == 2 ? "open" : "registration of the exit handler", k, at), [&] {
        for (int en : {EACCES, ENOSPC}) { if (en == ENOSPC && fk != 1 && fk != 2) continue; process([&] { M m; for (int i = 0; i < at; i++) A[g[i]].f(m); long live = vfa.live; bool had = !priv.empty(); faulty = true; fail_errno = en; if (fk == 0) vfa.count = 0, vfa.fail_at = k; if (fk == 1) n_mkdir = 0, fail_mkdir = k; if (fk == 2) n_open = 0, fail_open = k; if (fk == 3) n_atexit = 0, fail_atexit = k; auto size = m.ov.size(); A[g[at]].f(m); vfa.fail_at = fail_mkdir = fail_open = fail_atexit = -1; faulty = false; if (m.ov.size() == size && names_in(TR).size() == 2) REQ(vfa.live == live, "%ld blocks live after the failure, %ld before", vfa.live, live); int fd = squash_open(enclose_io_fs, MEMFS "/f"); REQ(fd >= 0 && !squash_close(fd), "the library is not usable after the failure"); sweep(m); for (int i = at; i < (int)g.size(); i++) A[g[i]].f(m); sweep(m); REQ(m.ov.size() >= 1, "nothing created"); }); } });
    // temporary directories
    static const char *tk[] = {"missing", "a file", "with trailing slashes", "relative", "in TMP", "in TEMP", "with the name of the memory filesystem in it", "a link"};
    for (int k = 0; k < 8; k++) for (size_t q = 0; q < progs.size(); q++) ctx.run(vfmt("temporary directory %s: %s", tk[k], A[progs[q][0]].name.c_str()), [&] { process([&] { M m; std::string t = T; if (k < 2) { TR = H + (k ? "/esc" : "/nodir"); ::setenv("TMPDIR", TR.c_str(), 1); } if (k == 2) ::setenv("TMPDIR", (T + "//").c_str(), 1); if (k == 3) { if (::chdir(H.c_str())) vfail("chdir"); ::setenv("TMPDIR", "tmp", 1); } if (k == 4) ::unsetenv("TMPDIR"), ::setenv("TMP", T.c_str(), 1); if (k == 5) ::unsetenv("TMPDIR"), ::setenv("TEMP", T.c_str(), 1); if (k == 6) { TR = H + MEMFS "/tmp"; ::setenv("TMPDIR", TR.c_str(), 1); } if (k == 7) { if (::symlink("tmp", (H + "/lt").c_str())) vfail("symlink"); ::setenv("TMPDIR", (H + "/lt").c_str(), 1); }
        faulty = k < 2; for (int i : progs[q]) A[i].f(m); if (k == 6) { struct stat st; ::lstat(priv.c_str(), &st); for (auto &o : m.ov) one_object(m, o.first, o.second, o.first); } else if (k >= 2) sweep(m); if (k < 2) { REQ(m.ov.empty(), "created something without a temporary directory"); TR = T; ::setenv("TMPDIR", T.c_str(), 1); faulty = false; M w; for (int i : progs[q]) A[i].f(w); sweep(w); } if (k == 3) { do_real(m, 0); do_mkdir(m, MEMFS "/late", 0755); sweep(m); } if (k == 7) ::unlink((H + "/lt").c_str()); }); });
    for (int l : {1700, 1900, 2000, 2020, 2030, 2040, 2048, 2049, 2060, 2200, 3000, 4000}) ctx.run(vfmt("temporary directory with a name of %d bytes", l), [&] { process([&] { std::string d = T; ::chdir(T.c_str()); std::vector<std::string> made; while ((int)d.size() + 1 < l) { std::string c(std::min<int>(200, l - d.size() - 1), 'q'); ::mkdir(c.c_str(), 0755); if (::chdir(c.c_str())) vfail("chdir"); d += "/" + c; made.push_back(c); } TR = d; ::setenv("TMPDIR", d.c_str(), 1); REQ(!enclose_io_chdir(R.c_str()), "chdir"); M m; faulty = true; for (int i : {0, 1, 8, 9, 7}) A[i].f(m); faulty = false; for (auto &o : m.ov) one_object(m, o.first, o.second, o.first); struct stat st; for (const char *p : {MEMFS "/n", MEMFS "/w", MEMFS "/n/w"}) if (!m.ov.count(p)) REQ(enclose_io_stat(p, &st) == -1, "%s, whose creation failed, is visible", p); int fd = squash_open(enclose_io_fs, MEMFS "/f"); REQ(fd >= 0, "the library is not usable"); squash_close(fd); }, nullptr, 0); });
    // names of every length, alike up to their last bytes
    for (int rel = 0; rel < 2; rel++) for (int l0 : {240, 1500, 1950, 1990, 2000, 2010, 2020, 2030, 2040, 2047, 2100}) ctx.run(vfmt("names of %d bytes and more, %s", l0, rel ? "relative" : "absolute"), [&] { process([&] {
        M m; std::string d = MEMFS; faulty = true; while (d.size() + 202 < (size_t)l0) { std::string x = d + "/" + std::string(150, 'a' + d.size() / 151); if (!do_mkdir(m, x, 0755)) break; d = x; } if (rel) do_chdir(m, d);
        for (int l = l0; l < l0 + 30; l++) { int k = l - (int)d.size() - 1; if (k < 2) continue; std::string tail[3] = {"1", "2", "3"}; for (int j = 0; j < 3; j++) { std::string nm = std::string(k - 1, 'z') + tail[j], p = rel ? nm : d + "/" + nm; bool ok = j == 2 ? do_mkdir(m, p, 0755) : do_open(m, p, O_CREAT | O_RDWR, 0644, vfmt("%d %d", l, j)); if (l < 1800 && nm.size() < 256) REQ(ok, "creation of a name of %zu bytes, path of %d: %s", nm.size(), l, errname(errno).c_str()); struct stat st; if (!ok) { errno = 0; REQ(enclose_io_stat(p.c_str(), &st) == -1, "a path of %d bytes, whose creation failed, is visible", l); } } }
        for (auto &o : m.ov) { one_object(m, o.first, o.second, o.first); if (rel && below(o.first, d)) one_object(m, o.first, o.second, o.first.substr(d.size() + 1)); } }); });
    // names: every name of up to 5 bytes of dots and letters, every byte at either end
    std::vector<std::string> nm; for (int l = 1; l <= (TH ? 6 : 5); l++) product(std::vector<int>(l, 3), [&](const std::vector<int> &d) { std::string x; for (int i : d) x += ".n~"[i]; if (x != "." && x != "..") nm.push_back(x); });
    for (int b = 1; b < 256; b++) if (b != '/') { nm.push_back(std::string(1, b) + "x"); nm.push_back(std::string("x") + (char)b); nm.push_back("." + std::string(1, b) + "x"); if (b != '.' && b != 'n' && b != '~') nm.push_back(std::string(1, b)); }
    for (size_t k = 0; k < nm.size(); k += 6) for (int rel = 0; rel < 2; rel++) ctx.run(vfmt("names %zu to %zu, %s", k, k + 5, rel ? "relative" : "absolute"), [&] { process([&] {
        M m; std::string d = MEMFS "/d"; if (rel) do_chdir(m, d); for (size_t i = k; i < std::min(k + 6, nm.size()); i++) { std::string p = rel ? nm[i] : d + "/" + nm[i]; ctx.note("%s", p.c_str()); bool file = (i - k) % 2; if (file) { if (!m.ov.count(d + "/" + nm[i])) do_open(m, p, O_CREAT | O_EXCL | O_RDWR, 0644, "content of " + nm[i]); } else { do_mkdir(m, p, 0755); do_mkdir(m, p + "/" + nm[i], 0755); do_open(m, p + "//./" + nm[(i + 1) % nm.size()], O_CREAT | O_RDWR, 0640, nm[i]); do_open(m, p + "/" + nm[i] + "/../k", O_CREAT | O_RDWR, 0640, "k"); } }
        for (auto &o : m.ov) { one_object(m, o.first, o.second, o.first); if (rel) one_object(m, o.first, o.second, o.first.substr(d.size() + 1)); } REQ(m.ov.size() >= (nm.size() - k < 2 ? 1 : 6), "only %zu objects created", m.ov.size()); sweep(m); }); });
    // what is in the image and may not be created, before and after a creation beside it
    for (const char *o : {"/d", "/f", "/d/f", "/d/sub", "/d/sub/g", "/e", "/e/f", "/ld", "/lf", "/ld/f", "/ld/sub", "/nowhere", "/d/../f", "/e/./f"}) for (int rel = 0; rel < 2; rel++) ctx.run(vfmt("creation of %s, which is in the image, %s", o, rel ? "relative" : "absolute"), [&] { process([&] { M m; std::string p = MEMFS + std::string(o); if (rel) do_chdir(m, MEMFS "/e"), p = ".." + std::string(o); for (int q = 0; q < 2; q++) { for (int fl : {O_CREAT, O_CREAT | O_EXCL}) for (int acc : {O_RDONLY, O_WRONLY, O_RDWR}) for (int x : {0, O_TRUNC, O_APPEND, O_TRUNC | O_APPEND}) for (int via = 0; via < 3; via++) do_open(m, p, fl | acc | x, 0644, "x", via); do_mkdir(m, p, 0755); sweep(m); if (!q) { do_mkdir(m, MEMFS "/d/sub/new", 0755); do_open(m, MEMFS "/e/new", O_CREAT | O_RDWR, 0644, "y"); do_mkdir(m, MEMFS "/new", 0755); } } }); });
    // every mode, under several masks
    for (mode_t um : {0, 022, 077, 0277, 0777}) for (int k = 0; k < 4; k++) for (int hi = 0; hi < 4; hi++) ctx.run(vfmt("%s with the modes %o to %o, mask %o", k == 0 ? "mkdir" : k == 1 ? "open" : k == 2 ? "openat" : "openat, real directory", hi * 128, hi * 128 + 127, um), [&] { process([&] { M m; do_mkdir(m, MEMFS "/n", 0755); ::umask(m.mask = um); for (int mo = hi * 128; mo < hi * 128 + 128; mo++) { std::string p = vfmt(MEMFS "/n/m%o", mo); if (!k) do_mkdir(m, p, mo); else do_open(m, p, O_CREAT | O_RDWR, mo, "x", k - 1); one_object(m, p, m.ov[p], p); } REQ(m.ov.size() == 129, "objects are missing"); }); });
    // other processes
    for (int sc = 0; sc < 9; sc++) for (size_t q = 0; q < progs.size(); q++) ctx.run(vfmt("fork, scene %d: %s", sc, A[progs[q][0]].name.c_str()), [&] { process([&] {
        M m; auto run = [&](M &x) { for (int i : progs[q]) A[i].f(x); }; auto child = [&](const std::function<void()> &f, bool quick) { fflush(nullptr); pid_t c = fork(); if (!c) { try { f(); } catch (VFail &e) { say("F in the forked process: " + e.msg); } served_op = false; if (quick) _exit(0); exit(0); } int st; waitpid(c, &st, 0); REQ(WIFEXITED(st) && !WEXITSTATUS(st), "the forked process ended with status %x", st); };
        switch (sc) {
        case 0: run(m); child([&] {}, false); sweep(m); break;
        case 1: run(m); child([&] { M x = m; sweep(x); do_mkdir(x, MEMFS "/late", 0755); do_open(x, MEMFS "/late/w", O_CREAT | O_RDWR, 0644, "late"); sweep(x); }, false); for (auto &o : m.ov) one_object(m, o.first, o.second, o.first); do_mkdir(m, MEMFS "/later", 0755); break;
        case 2: child([&] { M x; run(x); sweep(x); }, false); REQ(names_in(T).size() == 2, "the private directory of an ended process is still there"); run(m); sweep(m); break;
        case 3: run(m); child([&] {}, true); sweep(m); break;
        case 4: run(m); child([&] { child([&] { sweep(m); }, false); sweep(m); }, false); sweep(m); break;
        case 5: run(m); for (int i = 0; i < 3; i++) child([&] { sweep(m); }, i == 1); do_mkdir(m, MEMFS "/later", 0755); sweep(m); break;
        case 6: child([&] { run(m); child([&] {}, false); sweep(m); }, false); run(m); sweep(m); break;
        // the directory is removed with everything in it, links in it are not followed
        case 7: run(m); ::symlink(R.c_str(), (priv + "/link").c_str()); ::symlink((R + "/f").c_str(), (priv + "/link2").c_str()); ::symlink(H.c_str(), (priv + "/link3").c_str()); ::mkfifo((priv + "/fifo").c_str(), 0600); ::mkdir((priv + "/deep").c_str(), 0755); { std::string d = priv + "/deep"; for (int i = 0; i < 60; i++) { d += "/x"; ::mkdir(d.c_str(), 0755); spit(d + "/file", "x"); } } break;
        case 8: run(m); for (int i = 0; i < 300; i++) { do_mkdir(m, vfmt(MEMFS "/m%d", i), 0755); do_open(m, vfmt(MEMFS "/m%d/w", i), O_CREAT | O_RDWR, 0644, "x"); } for (int i = 0; i < 300; i += 37) one_object(m, vfmt(MEMFS "/m%d", i), m.ov[vfmt(MEMFS "/m%d", i)], vfmt(MEMFS "/m%d", i)); break;
        } }); });
}
