// C17: every schedule of 2-3 threads up to a preemption bound, on the real library under the controlled scheduler (sched.cpp).
#include "sched.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
using namespace sq;
typedef std::string S;
static S bytes(const void *p, size_t n) { uint64_t h = n; for (size_t i = 0; i < n; i++) h = mix(h ^ ((uint8_t *)p)[i]) + i; return vfmt("%zu:%016lx", n, (long)h); }
static S er() { return "error " + errname(errno); }
static ImageP image(int v) {
    auto r = dir(""); r->ext = true; r->list_at = 8100; r->number = 2000; Opt o; o.frag_cap = 4096; o.export_table = false;
    for (int i = 0; i < 6; i++) { auto f = reg(vfmt("f%d", i), 4096 * (i % 3 + 1) + 900 + i * 100, i & 1 ? "UCU" : "CUC", true, 10 * v + i + 1); f->frag_group = i; f->inode_at = i % 2 ? 8180 : 100; f->mtime = 1000 + v * 100 + i; r->add(f); }
    auto h = reg("h", 4096 * 3 + 10, "HCH", true, 9 + v); h->frag_group = 2; r->add(h); auto l = lnk("l", v ? "f1" : "f2"); l->inode_at = 8170; r->add(l);
    auto d = dir("d"); d->list_at = 8100; for (int i = 0; i < 5; i++) { auto e = text(vfmt("e%02d", i), vfmt("%d/%d", v, i)); e->inode_at = i % 2 ? -1 : 4000; d->add(e); } d->inode_at = 50; r->add(d);
    auto q = dir("q"); q->list_at = 8150; q->inode_at = 8000; q->add(lnk("m", "n")); q->add(dir("s")); r->add(q); sort_kids(*r); return build(r, o);
}
static ImageP large() { auto r = dir(""); Opt o; o.export_table = false; for (int i = 0; i < 5; i++) { auto f = reg(vfmt("b%d", i), 4096ull * (2049 + i) + 5, "H", i & 1, i + 1); f->layout = S(2047, 'H') + "CUC"; f->coarse = true; f->number = i == 0 ? 0xfffffffeu : 100 + i; f->frag_group = i; r->add(f); } r->number = 50; return build(r, o); }
struct Env { sqfs *fs = nullptr, *fs2 = nullptr; int fd[3] = {-1, -1, -1}; SQUASH_DIR *dir[3] = {0}; };
typedef std::function<S(Env &, int)> P;    // program of thread t
static int op(sqfs *f, const char *p) { int fd = squash_open(f, p); if (fd >= 0) sch::opened(fd); return fd; }
static int cl(int fd) { sch::closing(fd); int r = squash_close(fd); return r; }
static S rd(int fd, size_t n) { std::vector<char> b(n); errno = 0; ssize_t m = squash_read(fd, b.data(), n); return m < 0 ? er() : bytes(b.data(), m); }
static S st_(const struct stat &s) { return vfmt("%o %ld %ld", s.st_mode, (long)s.st_size, (long)s.st_mtime); }
static S readat(sqfs *f, const char *p, long pos, size_t n) { int fd = op(f, p); if (fd < 0) return er(); S r; if (pos) r = vfmt("%ld ", (long)squash_lseek(fd, pos, SQUASH_SEEK_SET)); r += rd(fd, n); r += vfmt(" %d", cl(fd)); return r; }
static S list(sqfs *f, const char *p) { SQUASH_DIR *d = squash_opendir(f, p); if (!d) return er(); int fd = squash_dirfd(d); sch::opened(fd); S r; while (auto *e = squash_readdir(d)) r += vfmt("%s/%d ", e->d_name, e->d_type); sch::closing(fd); r += vfmt("%d", squash_closedir(d)); return r; }
extern "C" void vs_free(void *);
static S scan(sqfs *f, const char *p) { SQUASH_DIRENT **l; int k = squash_scandir(f, p, &l, 0, 0); if (k < 0) return er(); S r = vfmt("%d ", k); std::vector<S> n; for (int i = 0; i < k; i++) { n.push_back(l[i]->d_name); vs_free(l[i]); } vs_free(l); for (auto &x : n) r += x + " "; return r; }
static S rlink(sqfs *f, const char *p) { char b[300]; ssize_t n = squash_readlink(f, p, b, 300); return n < 0 ? er() : S(b, n); }
static S statp(sqfs *f, const char *p, bool l) { struct stat s; memset(&s, 0, sizeof s); errno = 0; return (l ? squash_lstat(f, p, &s) : squash_stat(f, p, &s)) ? er() : st_(s); }
static S trav(sqfs *f, const char *p) { sqfs_inode in; short fo; sqfs_traverse t; if (sqfs_inode_get(f, &in, sqfs_inode_root(f)) || sqfs_lookup_path(f, &in, p, &fo) || !fo || sqfs_traverse_open_inode(&t, f, &in)) return "error"; S r; sqfs_err e = SQFS_OK; while (sqfs_traverse_next(&t, &e)) r += t.dir_end ? ") " : S(t.path) + " "; if (e) r += "error"; sqfs_traverse_close(&t); return r; }
static S extr(sqfs *f, const char *p) { auto q = squash_extract(f, p, "x"); if (!q) return er(); S r; FILE *g = fopen(q, "rb"); if (!g) return "the extracted file does not exist"; std::vector<char> b(40000); size_t k = fread(b.data(), 1, b.size(), g); fclose(g); return bytes(b.data(), k); }
struct Named { const char *name; P go; bool big = false, ext = false; };
static std::vector<Named> programs() {
    std::vector<Named> v; auto add = [&](const char *n, std::function<S(sqfs *)> g) { v.push_back({n, [g](Env &e, int) { return g(e.fs); }}); };
    add("lstat f0", [](sqfs *f) { return statp(f, "f0", true); });
    add("stat l", [](sqfs *f) { return statp(f, "l", false); });
    add("read f0", [](sqfs *f) { return readat(f, "f0", 0, 6000); });
    add("read f3 at 4000", [](sqfs *f) { return readat(f, "f3", 4000, 2000); });
    add("read h", [](sqfs *f) { return readat(f, "h", 4090, 9000); });
    add("open two, close one", [](sqfs *f) { int a = op(f, "f1"); if (a < 0) return er(); int b = op(f, "d/e00"); if (b < 0) { cl(a); return er(); } S r = rd(a, 9); r += vfmt(" %d ", cl(a)); struct stat s; memset(&s, 0, sizeof s); r += squash_fstat(b, &s) ? er() : st_(s); r += rd(b, 9); r += vfmt(" %d", cl(b)); return r; });
    add("list d", [](sqfs *f) { return list(f, "d"); });
    add("scandir d", [](sqfs *f) { return scan(f, "d"); });
    add("readlink q/m", [](sqfs *f) { return rlink(f, "q/m"); });
    add("traverse d", [](sqfs *f) { return trav(f, "d"); });
    add("failing paths", [](sqfs *f) { S r = statp(f, "q/nope", true); return r + vfmt(" %d", squash_opendir(f, "f0") != nullptr); });
    add("invalid descriptors", [](sqfs *f) { char b[4]; S r = vfmt("%d", (int)squash_read(4000, b, 4)); r += vfmt(" %d", squash_close(-3)); r += vfmt(" %d", (int)squash_lseek(-1, 0, SQUASH_SEEK_SET)); struct stat s; return r + vfmt(" %d", squash_fstat(100000, &s)); });
    v.push_back({"real descriptors", [](Env &, int) { int a = sch::app_dup(), b = sch::app_dup(); S r = vfmt("%d%d ", squash_find_file(a) != nullptr, squash_find_file(b) != nullptr); char c; r += vfmt("%d ", (int)squash_read(a, &c, 1)); sch::app_close(a); r += vfmt("%d ", squash_close(b)); sch::app_close(b); return r; }});
    v.push_back({"read an open file", [](Env &e, int t) { S r = rd(e.fd[t], 5000); r += rd(e.fd[t], 200); return r + vfmt(" %ld", (long)squash_lseek(e.fd[t], 0, SQUASH_SEEK_CUR)); }});
    v.push_back({"read an open stream", [](Env &e, int t) { S r; long p = -1; for (int i = 0; i < 9; i++) { auto *x = squash_readdir(e.dir[t]); if (!x) break; r += S(x->d_name) + " "; if (i == 1) p = squash_telldir(e.dir[t]); } squash_seekdir(e.dir[t], p); auto *x = squash_readdir(e.dir[t]); r += x ? x->d_name : "end"; squash_rewinddir(e.dir[t]); x = squash_readdir(e.dir[t]); return r + " " + (x ? x->d_name : "end"); }});
    v.push_back({"another image", [](Env &e, int t) { static ImageP im = image(3); sqfs *f = (sqfs *)sch::alloc(sizeof(sqfs)); memset(f, 0, sizeof *f); if (sqfs_init(f, im->base(), im->off())) return S("refused"); S r = readat(f, "f0", 0, 100) + rlink(f, "l"); sqfs_destroy(f); vs_free(f); return r; }});
    add("find the entry of a stream", [](sqfs *f) { SQUASH_DIR *d = squash_opendir(f, "q"); if (!d) return er(); int fd = squash_dirfd(d); sch::opened(fd); S r; auto *x = squash_find_entry(d); r = !x ? "no entry" : x != squash_find_file(fd) ? "another entry" : "its entry"; r += vfmt(" %d ", squash_find_entry(f) != nullptr); sch::closing(fd); r += vfmt("%d", squash_closedir(d)); return r; });
    v.push_back({"extract f0", [](Env &e, int) { return extr(e.fs, "f0"); }, false, true});
    v.push_back({"extract f3 twice", [](Env &e, int) { S a = extr(e.fs, "f3"); return a + " " + extr(e.fs, "f3"); }, false, true});
    v.push_back({"extract f0 of the second image", [](Env &e, int) { return extr(e.fs2, "f0"); }, false, true});
    for (int i = 0; i < 2; i++) { const char *n = i ? "b3" : "b0"; v.push_back({i ? "read b3 at block 2048" : "read b0 at block 2048", [n](Env &e, int) { return readat(e.fs, n, 4096L * 2048 + 4090, 20); }, true}); }
    v.push_back({"read b0 and b1 at block 2047", [](Env &e, int) { S r = readat(e.fs, "b0", 4096L * 2047 + 4000, 200); return r + readat(e.fs, "b1", 4096L * 2047 + 4000, 200); }, true});
    v.push_back({"read b1, b2, b4, b0", [](Env &e, int) { S r; for (auto n : {"b1", "b2", "b4", "b0"}) r += readat(e.fs, n, 4096L * 2048 + 1, 3); return r; }, true});
    return v;
}
enum Start { COLD, WARM, FULL };     // FULL: warm, and the descriptor table has room for one more descriptor only
static S dirlist() { S r; ::DIR *d = ::opendir(getenv("TMPDIR")); if (!d) return ""; while (auto *e = ::readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r += S(e->d_name) + " "; ::closedir(d); return r; }
static void go(const std::vector<Named> &ps, Start how, int bound) {
    static ImageP small = image(0), second = image(1), big; bool isbig = false, ext = false; for (auto &p : ps) isbig = isbig || p.big, ext = ext || p.ext; if (isbig && !big) big = large();
    auto e = std::make_shared<Env>(); sch::Spec s; size_t n = ps.size(); S names; for (auto &p : ps) names += S(" ") + p.name;
    s.setup = [=] { *e = Env(); e->fs = (sqfs *)sch::alloc(sizeof(sqfs)); memset(e->fs, 0, sizeof(sqfs)); ImageP im = isbig ? big : small; if (sqfs_init(e->fs, im->base(), im->off())) sch::bad("refused"); if (ext) { e->fs2 = (sqfs *)sch::alloc(sizeof(sqfs)); memset(e->fs2, 0, sizeof(sqfs)); if (sqfs_init(e->fs2, second->base(), second->off())) sch::bad("refused"); }
        if (!isbig) for (size_t t = 0; t < n; t++) { if (names.find("open file") != S::npos) e->fd[t] = op(e->fs, t ? "f0" : "f2"); if (names.find("open stream") != S::npos) { e->dir[t] = squash_opendir(e->fs, t == 1 ? "/" : "d"); if (!e->dir[t]) sch::bad("opendir"); sch::opened(squash_dirfd(e->dir[t])); } }
        if (how != COLD) { for (const char *p : isbig ? std::vector<const char *>{"b1", "b2"} : std::vector<const char *>{"f4", "f5", "f1", "h"}) readat(e->fs, p, isbig ? 4096 * 2048 : 4090, 3000); if (!isbig) { statp(e->fs, "q/s", true); list(e->fs, "d"); } }
        if (how == FULL) { int fd = op(e->fs, isbig ? "b0" : "f0"); cl(fd); sch::fill((fd + 1) * 10 - 1); } };
    s.finish = [=] { for (int t = 0; t < 3; t++) { if (e->fd[t] >= 0) cl(e->fd[t]); if (e->dir[t]) { sch::closing(squash_dirfd(e->dir[t])); squash_closedir(e->dir[t]); } } sqfs_destroy(e->fs); vs_free(e->fs); if (e->fs2) { sqfs_destroy(e->fs2); vs_free(e->fs2); } };
    for (size_t t = 0; t < n; t++) { P g = ps[t].go; s.threads.push_back([=] { return g(*e, t); }); }
    if (isbig) s.quietmd = [=] { return std::vector<const void *>{&e->fs->md_cache.mutex}; };
    s.after = [] { S r = dirlist(); if (r.size()) vfail("left in the temporary directory: " + r); };
    // alone: every thread in the same start state
    auto want = sch::alone(s); for (auto &w : want) REQ(w.find("not exist") == S::npos, "%s", w.c_str());
    s.bound = bound; auto r = sch::explore(s, want); ctx.states += r.schedules; ctx.transitions += r.points; ctx.traces += r.schedules; ctx.counts[vfmt("schedules of %zu threads", n)] += r.schedules; ctx.counts["with preemptions"] += r.preempted; if (!r.complete) ctx.counts["cases cut at the cap"]++;
    if (ctx.verbose) fprintf(stderr, "%ld schedules\n", r.schedules);
}
void vf_enumerate() {
    auto v = programs(); static const char *how[] = {"cold", "warm", "full table"}; bool T = ctx.thorough(); size_t n = v.size();
    for (int k = 0; k < 3; k++) for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) if (v[i].big == v[j].big) { int b = T ? 3 : k == WARM ? 1 : 2; if (v[i].ext && v[j].ext && T) b = 2;
        ctx.run(vfmt("%s: %s | %s, %d preemptions", how[k], v[i].name, v[j].name, b), [&] { go({v[i], v[j]}, (Start)k, b); ctx.sample(ctx.desc); }); }
    for (int k = 0; k < 3; k++) for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) for (size_t m = j; m < n; m++) if (v[i].big == v[j].big && v[j].big == v[m].big) { if (!T && (i + 2 * j + 3 * m + k) % 10) continue; int b = T ? 2 : 1;
        ctx.run(vfmt("%s: %s | %s | %s, %d preemptions", how[k], v[i].name, v[j].name, v[m].name, b), [&] { go({v[i], v[j], v[m]}, (Start)k, b); }); }
}
