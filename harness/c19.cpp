// C19: every allocation of every operation fails once, after every one of several histories; everything is tried again afterwards.
#include "xops.hpp"
#include <unistd.h>
#include <dirent.h>
static ImageP im; static std::vector<XOp> X; static std::vector<std::string> ok; static std::string tmp;
static int scratch_files() { int n = 0; ::DIR *d = opendir(tmp.c_str()); if (d) { while (auto *e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); } return n; }
struct FOp { std::string name; std::function<std::string(sqfs *)> go; std::string want; };      // want: result without a fault
static bool faulted() { return vfa.failed; }
static ImageP im2() { static ImageP q; if (!q) { NodeP top = ::sq::dir("", {text("a", "1")}), at = top; for (int i = 0; i < 14; i++) { auto x = ::sq::dir(std::string(i < 2 ? 3 : 30, 'b')); at->add(x); at->add(text(std::string(i == 5 ? 256 : 40, 'c'), "2")); at = x; } at->add(text("z", "3")); q = build(top); } return q; }
struct Fs2 { sqfs fs; bool ok; Fs2() { memset(&fs, 0, sizeof fs); ok = !sqfs_open_image(&fs, im2()->base(), 0); } ~Fs2() { if (ok) sqfs_destroy(&fs); } };
static std::vector<FOp> fops() {
    std::vector<FOp> o;
    for (auto &x : X) o.push_back({x.name, x.go, ""});
    for (const char *p : {"", "a", "q"}) o.push_back({vfmt("list /%s, going on after a failure", p), [p](sqfs *f) { SQUASH_DIR *d = squash_opendir(f, *p ? p : "/"); if (!d) return "error " + errname(errno); std::string r; int fails = 0; for (;;) { errno = 0; auto *e = squash_readdir(d); if (!e && errno && ++fails < 3) continue; if (!e) break; r += std::string(e->d_name) + " "; } long pos = squash_telldir(d); squash_rewinddir(d); std::string r2; while (auto *e = squash_readdir(d)) r2 += std::string(e->d_name) + " "; if (r2 != r && !fails) r += "second pass differs"; squash_seekdir(d, pos); if (!faulted() && squash_readdir(d)) r += "entry behind the end"; REQ(!squash_closedir(d), "closedir failed"); return r; }, ""});
    o.push_back({"open 45 files, read, close", [](sqfs *f) { std::vector<int> fd; int fails = 0; for (int i = 0; i < 45; i++) { int x = squash_open(f, i % 2 ? "a/e03" : "s"); if (x < 0 && ++fails < 3) { i--; continue; } REQ(x >= 0, "open fails again and again"); fd.push_back(x); } REQ(std::set<int>(fd.begin(), fd.end()).size() == fd.size(), "a descriptor was given away twice"); std::string r; for (size_t i = 0; i < fd.size(); i++) { char b[64]; ssize_t n = -1; for (int t = 0; t < 3 && n < 0; t++) n = squash_read(fd[i], b, 64); REQ(n == (i % 2 ? 23 : 5), "read of descriptor %zu gives %zd", i, n); r += vfmt("%zd ", n); } for (int x : fd) REQ(!squash_close(x), "close failed"); for (int x : fd) REQ(squash_close(x) == -1, "closed twice"); return r; }, ""});
    o.push_back({"open 12 directories", [](sqfs *f) { std::vector<SQUASH_DIR *> v; int fails = 0; for (int i = 0; i < 12; i++) { auto *d = squash_opendir(f, "a"); if (!d && ++fails < 3) { i--; continue; } REQ(d, "opendir fails again and again"); v.push_back(d); } std::string r; for (auto *d : v) { errno = 0; auto *e = squash_readdir(d); if (!e) e = squash_readdir(d); REQ(e, "readdir"); r += std::string(e->d_name) + vfmt(" %d ", squash_find_file(squash_dirfd(d)) != nullptr); } for (auto *d : v) REQ(!squash_closedir(d), "closedir failed"); return r; }, ""});
    o.push_back({"read through one descriptor in steps of 1000", [](sqfs *f) { int fd = -1; for (int t = 0; t < 2 && fd < 0; t++) fd = squash_open(f, "big"); REQ(fd >= 0, "open"); std::string all; int fails = 0; for (;;) { char b[1000]; off_t p0 = squash_lseek(fd, 0, SQUASH_SEEK_CUR); ssize_t n = squash_read(fd, b, 1000); if (n < 0) { REQ(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == p0, "a failed read moves the position"); REQ(++fails < 3, "read fails again and again"); continue; } if (!n) break; all.append(b, n); } squash_close(fd); return bytes(all.data(), all.size()); }, ""});
    o.push_back({"open a second image, use it, close it", [](sqfs *f) { sqfs g; sqfs_err e = sqfs_open_image(&g, im->base(), 0); if (e) return std::string("error"); std::string r = sread(&g, "big", 4000, 500) + " " + sstat(&g, "s"); sqfs_destroy(&g); return r; }, ""});
    o.push_back({"extract three files and the first again", [](sqfs *f) { std::string r; std::set<std::string> s; bool e = false; for (const char *p : {"big", "s", "a/e03", "big"}) { auto q = squash_extract(f, p, "t"); if (!q) { r += "error "; e = true; break; } s.insert(q); r += vfmt("%zu ", s.size()); } squash_extract_clear_cache(); REQ(!scratch_files(), "file left in the temporary directory"); return r; }, ""});
    o.push_back({"scandir with selection and sorting", [](sqfs *f) { SQUASH_DIRENT **l; int k = squash_scandir(f, "q", &l, [](const SQUASH_DIRENT *d) { return d->d_name[5] % 2; }, [](const SQUASH_DIRENT **a, const SQUASH_DIRENT **b) { return strcmp((*b)->d_name, (*a)->d_name); }); if (k < 0) return std::string("error"); std::string r; for (int i = 0; i < k; i++) { r += l[i]->d_name; vf_free(l[i]); } vf_free(l); return r; }, ""});
    o.push_back({"traverse everything", [](sqfs *f) { sqfs_traverse t; if (sqfs_traverse_open(&t, f, sqfs_inode_root(f))) { sqfs_traverse_close(&t); return std::string("error open"); } std::string r; sqfs_err e = SQFS_OK; int n = 0; while (sqfs_traverse_next(&t, &e)) if (!t.dir_end) { r += std::string(t.path) + " "; if (!strcmp(t.path, "q")) sqfs_traverse_prune(&t); } if (e) r += "error"; sqfs_traverse_close(&t); return r; }, ""});
    o.push_back({"traverse a deep tree with long names", [](sqfs *) { Fs2 g; if (!g.ok) return std::string("error open"); sqfs_traverse t; std::string r; if (sqfs_traverse_open(&t, &g.fs, sqfs_inode_root(&g.fs))) { sqfs_traverse_close(&t); return std::string("error open"); } sqfs_err e = SQFS_OK; while (sqfs_traverse_next(&t, &e)) r += vfmt("%s%d ", t.path, t.dir_end); if (e) { r += "error"; REQ(!sqfs_traverse_next(&t, &e) && e, "a walk goes on after a failure"); } sqfs_traverse_close(&t); return r; }, ""});
    o.push_back({"objects 14 levels deep", [](sqfs *) { Fs2 g; if (!g.ok) return std::string("error"); std::string p, r; for (int i = 0; i < 14; i++) { p += "/" + std::string(i < 2 ? 3 : 30, 'b'); struct stat st; if (squash_stat(&g.fs, p.c_str(), &st)) return r + "error"; r += vfmt("%d ", (int)st.st_mode); } return r; }, ""});
    o.push_back({"follow l, stat through ..", [](sqfs *f) { struct stat st; errno = 0; if (squash_stat(f, "a/../l", &st)) return "error " + errname(errno); return vfmt("%ld", (long)st.st_size); }, ""});
    return o;
}
static std::vector<FOp> F;
static void prep() { if (ok.size()) return; im = build(tree(), opts()); X = xops(); F = fops(); for (auto &x : X) { Fs f(im); ok.push_back(x.go(&f.fs)); } for (auto &x : F) { Fs f(im); x.want = x.go(&f.fs); REQ(x.want.find("error") == std::string::npos, "%s fails: %s", x.name.c_str(), x.want.c_str()); } }
// returns false when the operation has fewer allocations
static bool once(size_t op, const std::vector<size_t> &pre, int k, bool restart, long &live, int more = 0) {
    if (restart) squash_start(); auto fds = vf_open_fds(); bool failed; long l0 = vfa.live;
    { Fs f(im); for (size_t p : pre) X[p].go(&f.fs); vfa.count = 0; vfa.failed = false; vfa.fail_at = k; vfa.fail_more = more; ctx.transitions++; std::string r = F[op].go(&f.fs); vfa.fail_at = -1; vfa.fail_more = 0; failed = vfa.failed; vfa.failed = false;
      size_t e = r.find("error"); if (e == std::string::npos) REQ(r == F[op].want, "reports success with a wrong result: %.150s", r.c_str()); else { REQ(failed || k < 0, "fails without a reason"); std::string p = r.substr(0, e); REQ(!F[op].want.compare(0, p.size(), p), "wrong result before the failure: %.150s", r.c_str()); ctx.counts["operations that failed"]++; }
      REQ(vf_open_fds() == fds, "descriptor left open"); REQ(!scratch_files(), "temporary file left");
      if (failed || k < 0) { // the failed operation again, then everything
        std::string r2 = F[op].go(&f.fs); REQ(r2 == F[op].want, "fails when it is repeated: %.150s", r2.c_str()); size_t n = X.size(); for (size_t i = 0; i < n; i++) { size_t j = (i * 11 + op) % n; ctx.note("allocation %d, later %s", k, X[j].name.c_str()); std::string q = X[j].go(&f.fs); REQ(q == ok[j], "later %s gives %.100s, expected %.100s", X[j].name.c_str(), q.c_str(), ok[j].c_str()); } } }
    if (!failed && k >= 0) return false;
    REQ(vf_open_fds() == fds, "descriptor left open"); if (k < 0) live = vfa.live - l0; else REQ(vfa.live - l0 == live, "%ld blocks leaked", vfa.live - l0 - live);
    ctx.traces++; return true;
}
void vf_enumerate() {
    vf_start_library(); tmp = vf_mkscratch(); setenv("TMPDIR", tmp.c_str(), 1); X = xops(); F = fops(); size_t nf = F.size(); F.clear(); static std::vector<std::string> names; { auto Y = fops(); for (auto &y : Y) names.push_back(y.name); } X.clear();
    size_t nx = names.size(); std::vector<std::vector<size_t>> pres{{}, {0}, {8}, {12, 14}, {20, 21, 22, 23}, {24, 25, 26, 27, 28, 29}}; { std::vector<size_t> all; for (size_t i = 0; i < 39; i++) all.push_back(i); pres.push_back(all); if (true) { std::reverse(all.begin(), all.end()); pres.push_back(all); } }
    int np = pres.size(); if (ctx.thorough()) for (size_t i = 0; i < 39; i++) pres.push_back({i});
    for (size_t o = 0; o < nf; o++) for (size_t p = 0; p < pres.size(); p++) for (int rs = 0; rs < 2; rs++) { if (rs && (p > 1 && !ctx.thorough())) continue; ctx.run(vfmt("%s after history %zu%s: every allocation", names[o].c_str(), p, rs ? ", descriptor table new" : ""), [&] { prep(); long live = 0; auto pre = pres[p]; for (auto &x : pre) x %= X.size();
        { Fs f(im); for (int i = 0; i < 2; i++) { F[o].go(&f.fs); } } if (!rs) { long d = 0; once(o, pre, -1, false, d); } once(o, pre, -1, rs, live); if (rs) { long l2 = 0; once(o, pre, -1, rs, l2); live = l2; }
        int k = 0; for (; k < (ctx.thorough() ? 4000 : 400); k++) { ctx.note("allocation %d", k); if (!once(o, pre, k, rs, live)) break; ctx.states++; } ctx.counts["allocations failed"] += k; if (o == 20 && !p) ctx.sample(ctx.desc); }); }
    // memory runs out for good from one allocation on until the operation is over, and two allocations fail
    for (size_t o = 0; o < nf; o++) for (size_t p = 0; p < (ctx.thorough() ? pres.size() : 4); p++) for (int more : {-1, 1, 2, 3, 5}) { if (more > 1 && !ctx.thorough() && (o + p + more) % 4) continue; if (names[o].find("open 45") == 0 || names[o].find("open 12") == 0 || names[o].find("read through") == 0 || names[o].find("going on") != std::string::npos) continue;
        ctx.run(vfmt("%s after history %zu: every allocation and %s", names[o].c_str(), p, more < 0 ? "all behind it" : vfmt("the one %d behind it", more).c_str()), [&] { prep(); long live = 0; auto pre = pres[p]; for (auto &x : pre) x %= X.size(); { Fs f(im); for (int i = 0; i < 2; i++) F[o].go(&f.fs); } { long d = 0; once(o, pre, -1, false, d); } once(o, pre, -1, false, live); int k = 0; for (; k < (ctx.thorough() ? 4000 : 400); k += k < 60 || ctx.thorough() ? 1 : 7) { ctx.note("allocation %d", k); if (!once(o, pre, k, false, live, more)) break; ctx.states++; } ctx.counts["allocations failed together"] += k; }); }
    // squash_start
    for (int k = 0; k < 4; k++) ctx.run(vfmt("squash_start with allocation %d failing", k), [&] { prep(); vfa.count = 0; vfa.failed = false; vfa.fail_at = k; sqfs_err e = squash_start(); vfa.fail_at = -1; if (e) { REQ(vfa.failed, "fails"); REQ(!squash_start(), "start after a failed start"); } for (size_t i = 0; i < X.size(); i++) { Fs f(im); REQ(X[i].go(&f.fs) == ok[i], "%s", X[i].name.c_str()); } ctx.states++; ctx.traces++; });
    rmdir(tmp.c_str());
}
