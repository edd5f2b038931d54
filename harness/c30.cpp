// C30: several threads use the interception layer at once. Every schedule up to a preemption bound, at every lock and every system
// call of the library and the layer, on the real code (sched.cpp); the results have to be those of some order of whole operations.
#include "sample.hpp"
#include "sched.hpp"
#include <dlfcn.h>
using namespace sq;
typedef std::string S;
extern "C" char *mkdir_workdir;
static S SC, T, R;                   // scratch, temporary directory, a real directory
static ImageP im;
static S canon(const char *p) { S a = p; if (a[0] != '/') { char b[PATH_MAX]; a = S(::getcwd(b, sizeof b) ? b : "?") + "/" + a; } while (a.size() > 1 && a.back() == '/') a.pop_back(); size_t i = a.rfind('/'); char b[PATH_MAX]; return ::realpath(a.substr(0, i ? i : 1).c_str(), b) ? S(b) + "/" + a.substr(i + 1) : a; }
static bool permit(const char *what, const char *p) { S c = canon(p); if (c.compare(0, T.size() + 1, T + "/") == 0) return true; sch::bad(vfmt("%s(%s) outside of the temporary directory", what, c.c_str())); }
static bool writes(int fl) { return (fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE) != O_RDONLY; }
extern "C" {
void *vs_malloc(size_t); void vs_free(void *);
#define P sch::syscall_point()
int vs_stat(const char *p, struct stat *b) { P; return ::stat(p, b); }
int vs_lstat(const char *p, struct stat *b) { P; return ::lstat(p, b); }
int vs_access(const char *p, int m) { P; return ::access(p, m); }
int vs_mkdir(const char *p, mode_t m) { permit("mkdir", p); P; return ::mkdir(p, m); }
int vs_rmdir(const char *p) { permit("rmdir", p); P; return ::rmdir(p); }
int vs_remove(const char *p) { permit("remove", p); P; return ::remove(p); }
int vs_rename(const char *a, const char *b) { permit("rename", a); permit("rename", b); P; return ::rename(a, b); }
int vs_mkstemp(char *p) { permit("mkstemp", p); P; int f = ::mkstemp(p); sch::own(f); return f; }
char *vs_mkdtemp(char *p) { permit("mkdtemp", p); P; return ::mkdtemp(p); }
int vs_openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); if (writes(fl)) sch::bad("openat for writing"); P; int f = ::openat(d, p, fl, m); sch::own(f); return f; }
::DIR *vs_opendir(const char *p) { P; return ::opendir(p); }
char *vs_realpath(const char *p, char *b) { P; char t[PATH_MAX]; if (!::realpath(p, t)) return nullptr; if (!b) b = (char *)vs_malloc(strlen(t) + 1); strcpy(b, t); return b; }
ssize_t vs_readlink(const char *p, char *b, size_t n) { P; return ::readlink(p, b, n); }
ssize_t vs_read(int f, void *b, size_t n) { P; return ::read(f, b, n); }
ssize_t vs_pread(int f, void *b, size_t n, off_t o) { P; return ::pread(f, b, n, o); }
int vs_fstat(int f, struct stat *b) { P; return ::fstat(f, b); }
#undef P
}
static S er() { return "error " + errname(errno); }
static S kind(const struct stat &s) { return S_ISDIR(s.st_mode) ? "directory" : vfmt("%o %ld", s.st_mode & 0170777, (long)s.st_size); }
typedef std::function<S()> Op;
struct Prog { const char *name; std::vector<Op> ops; };
#define M(n) MEMFS "/" n
static S bytes(const S &s) { uint64_t h = s.size(); for (char c : s) h = mix(h ^ (uint8_t)c) + 1; return s.size() < 12 ? s : vfmt("%zu:%06lx", s.size(), (long)(h & 0xffffff)); }
static int op(const char *p) { int f = enclose_io_open(2, p, O_RDONLY); if (f >= 0) sch::opened(f); return f; }
static int cl(int f) { sch::closing(f); return enclose_io_close(f); }
static S rdall(int f) { S s; char b[3000]; ssize_t n; while ((n = enclose_io_read(f, b, sizeof b)) > 0) s.append(b, n); return n < 0 ? er() : bytes(s); }
static Op mk(const char *p) { return [p] { return enclose_io_mkdir(p, 0755) ? er() : S("made"); }; }
static Op rd(const char *p) { return [p] { int f = op(p); if (f < 0) return er(); S r = rdall(f); cl(f); return r; }; }
static Op cr(const char *p, const char *d) { return [p, d] { int f = enclose_io_open(3, p, O_CREAT | O_EXCL | O_WRONLY, 0644); if (f < 0) return er(); sch::opened(f); S r = "created"; if (::write(f, d, strlen(d)) < 0) r = er(); cl(f); return r; }; }
static Op crempty(const char *p) { return [p] { int f = enclose_io_open(3, p, O_CREAT | O_WRONLY, 0644); if (f < 0) return er(); sch::opened(f); cl(f); return S("opened"); }; }
static Op st(const char *p) { return [p] { struct stat s; return enclose_io_stat(p, &s) ? er() : kind(s); }; }
static Op lst(const char *p) { return [p] { struct stat s; return enclose_io_lstat(p, &s) ? er() : kind(s); }; }
static Op ac(const char *p) { return [p] { return enclose_io_access(p, R_OK) ? er() : S("readable"); }; }
static Op rl(const char *p) { return [p] { char b[99]; ssize_t n = enclose_io_readlink(p, b, 99); return n < 0 ? er() : S(b, n); }; }
static Op ls(const char *p) { return [p] { ::DIR *d = enclose_io_opendir(p); if (!d) return er(); std::set<S> n; int fd = enclose_io_dirfd(d); bool v = squash_find_file(fd); if (v) sch::opened(fd); while (auto *e = enclose_io_readdir(d)) n.insert(e->d_name); if (v) sch::closing(fd); if (enclose_io_closedir(d)) return er(); S r; for (auto &x : n) if (x != "." && x != "..") r += x + ","; return r; }; }
static Op pr(const char *p) { return [p] { int f = op(p); if (f < 0) return er(); char b[50]; S r; ssize_t n = enclose_io_pread(f, b, 50, 4070); r = n < 0 ? er() : bytes(S(b, n)); r += vfmt(" %ld ", (long)enclose_io_lseek(f, 0, SEEK_CUR)); struct stat s; r += enclose_io_fstat(f, &s) ? er() : kind(s); cl(f); return r; }; }
static Op rv(const char *p) { return [p] { int f = op(p); if (f < 0) return er(); char a[40], b[60]; struct iovec v[2] = {{a, 40}, {b, 60}}; ssize_t n = enclose_io_readv(f, v, 2); S r = n < 0 ? er() : n <= 40 ? bytes(S(a, n)) : bytes(S(a, 40) + S(b, n - 40)); cl(f); return r; }; }
static Op ex(const char *p) { return [p] { auto q = enclose_io_ifextract(p, "so"); if (!q) return er(); FILE *g = fopen(q, "rb"); if (!g) return S("the extracted file does not exist"); S s; char b[3000]; size_t n; while ((n = fread(b, 1, sizeof b, g)) > 0) s.append(b, n); fclose(g); return bytes(s); }; }
static Op iff(const char *p) { return [p] { return S(enclose_io_if(p) ? "is a file" : "is no file"); }; }
static int SF = -1;                  // a descriptor all threads have
static S prs(long at) { char b[40]; ssize_t n = enclose_io_pread(SF, b, 40, at); return n < 0 ? er() : bytes(S(b, n)); }
static std::vector<Prog> programs() { return {
    {"mkdir n, look", {mk(M("n")), st(M("n"))}},
    {"mkdir o, mkdir n", {mk(M("o")), mk(M("n"))}},
    {"create w", {cr(M("w"), "mine"), rd(M("w"))}},
    {"create d/w", {cr(M("d/w"), "other"), st(M("d/e0"))}},
    {"mkdir n, create n/f", {mk(M("n")), crempty(M("n/f"))}},
    {"create n/f", {crempty(M("n/f")), st(M("n"))}},
    {"look at n, n/f", {st(M("n")), lst(M("n/f")), ac(M("n"))}},
    {"list n, read w", {ls(M("n")), rd(M("w"))}},
    {"read f0, stat l", {rd(M("f0")), st(M("l")), lst(M("l"))}},
    {"pread f1, readv f0", {pr(M("f1")), rv(M("f0"))}},
    {"list q, readlink l", {ls(M("q")), rl(M("l"))}},
    {"extract f0", {ex(M("f0"))}},
    {"extract f1, f0", {ex(M("f1")), ex(M("f0"))}},
    {"real file", {[] { return rd((R + "/real").c_str())(); }, [] { return ls(R.c_str())(); }, [] { return st((R + "/real").c_str())(); }}},
    {"pread of the shared f0", {[] { return prs(4090); }, [] { return prs(0) + " " + prs(9000); }}},
    {"fstat, pread of the shared f0", {[] { struct stat b; return enclose_io_fstat(SF, &b) ? er() : kind(b); }, [] { return prs(1); }}},
    {"failing calls", {rd(M("nope")), ls(M("f0")), mk(M("f0")), iff(M("d")), crempty(M("nope/x"))}},
    {"relative", {rd("e0"), st("../f0"), mk("../n"), ac("../n")}},
}; }
static void clean(bool check) { S left; ::DIR *x = ::opendir(T.c_str()); std::vector<S> v; while (auto *e = ::readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); ::closedir(x); for (auto &n : v) { left += n + " "; S p = T + "/" + n; struct stat s; if (!::lstat(p.c_str(), &s) && S_ISDIR(s.st_mode)) vf_rmtree(p); else ::unlink(p.c_str()); } if (check && left.size()) vfail("left in the temporary directory: " + left); }
enum { COLD, WARM, MADE };
static void go(const std::vector<Prog> &ps, int how, int bound, bool rel) {
    sqfs *fs = nullptr; sch::Spec s; bool shared = false; for (auto &p : ps) shared = shared || strstr(p.name, "shared"); clean(false); sch::real = true;
    s.setup = [&] { fs = (sqfs *)sch::alloc(sizeof *fs); memset(fs, 0, sizeof *fs); if (sqfs_init(fs, im->base(), im->off())) sch::bad("refused"); enclose_io_fs = fs; if (rel && enclose_io_chdir(M("d"))) sch::bad("chdir");
        SF = -1; if (shared) { SF = op(M("f0")); if (SF < 0) sch::bad("open"); }
        if (how != COLD) for (auto p : {M("f0"), M("f1"), M("d/e0")}) rd(p)(); if (how == MADE) { if (mk(M("p"))() != "made") sch::bad("mkdir"); } };
    s.finish = [&] { if (SF >= 0) cl(SF); sqfs_destroy(fs); vs_free(fs); };
    auto fin = [&]() -> S { S r; if (SF >= 0) r = vfmt("position %ld, ", (long)enclose_io_lseek(SF, 0, SEEK_CUR)); for (auto p : {M("n"), M("o"), M("w"), M("d/w"), M("n/f"), M("f0"), M("p")}) r += st(p)() + ", "; for (auto p : {M("w"), M("d/w")}) r += rd(p)() + ", "; r += vfmt("%s", mkdir_workdir ? "used" : "unused"); ::DIR *x = ::opendir(T.c_str()); int k = 0; while (auto *e = ::readdir(x)) { struct stat st; if (e->d_name[0] != '.' && !::lstat((T + "/" + e->d_name).c_str(), &st) && S_ISDIR(st.st_mode)) k++; } ::closedir(x); return r + vfmt(", %d private", k); };
    s.after = [] { clean(true); };
    for (auto &p : ps) s.threads.push_back([p] { S r; for (auto &o : p.ops) { sch::point(); r += o() + "; "; } return r; });
    auto want = sch::serial(s, fin); s.bound = bound; auto r = sch::explore_in(s, want, fin);
    ctx.states += r.schedules; ctx.transitions += r.points; ctx.traces += r.schedules; ctx.counts[vfmt("schedules of %zu threads", ps.size())] += r.schedules; ctx.counts["outcomes of whole operations"] += want.size(); ctx.counts["with preemptions"] += r.preempted;
    if (ctx.verbose) fprintf(stderr, "%zu outcomes, %ld schedules\n", want.size(), r.schedules);
}
void vf_enumerate() {
    SC = getenv("VF_SCRATCH"); { char b[PATH_MAX]; if (::realpath(SC.c_str(), b)) SC = b; } T = SC + "/t30"; R = SC + "/r30"; ::mkdir(T.c_str(), 0755); ::mkdir(R.c_str(), 0755); spit(R + "/real", "a real file"); setenv("TMPDIR", T.c_str(), 1); bool Th = ctx.thorough();
    { auto top = dir(""); auto r = dir("__enclose_io_memfs__"); Opt o; o.frag_cap = 4096; for (int i = 0; i < 2; i++) { auto f = reg(vfmt("f%d", i), 4096 + 700 + i, i ? "UC" : "CU", true, i + 1); r->add(f); } r->add(lnk("l", "f1")); auto d = dir("d"); d->add(text("e0", "text of e0")); d->add(text("e1", "1")); r->add(d); auto q = dir("q"); q->add(text("x", "x")); q->add(lnk("y", "x")); r->add(q); sort_kids(*r); top->add(r); im = build(top, o); }
    auto v = programs(); static const char *hn[] = {"cold", "warm", "private directory there"}; size_t n = v.size();
    auto isrel = [&](size_t i) { return !strcmp(v[i].name, "relative"); };
    for (int h = 0; h < 3; h++) for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) { int b = Th || (h == 0 && (i < 6 || i == 11) && (j < 6 || j == 11)) ? 2 : 1; ctx.run(vfmt("%s: %s | %s, %d preemptions", hn[h], v[i].name, v[j].name, b), [&] { go({v[i], v[j]}, h, b, isrel(i) || isrel(j)); ctx.sample(ctx.desc); }); }
    // three threads, one operation each
    std::vector<size_t> tri = {0, 2, 3, 4, 5, 6, 8, 11}; for (int h : {0, 2}) for (size_t a = 0; a < tri.size(); a++) for (size_t b = a; b < tri.size(); b++) for (size_t c = b; c < tri.size(); c++) { if (!Th && (a + 2 * b + 3 * c + h) % 6) continue; auto one = [&](size_t k) { Prog p = v[tri[k]]; p.ops.resize(1); return p; }; ctx.run(vfmt("%s: first of %s | %s | %s", hn[h], v[tri[a]].name, v[tri[b]].name, v[tri[c]].name), [&] { go({one(a), one(b), one(c)}, h, Th ? 2 : 1, false); }); }
}
