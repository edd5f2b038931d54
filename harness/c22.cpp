// C22: every sequence of descriptor and stream calls of the interception layer over a mixture of virtual and real objects.
// A real object has a twin that gets the same calls from the operating system directly; a virtual file is compared with its content and position.
#include "sample.hpp"
using namespace sq;
static ImageP im; static NodeP A, B, D, DAM; static std::string SCR; static std::string CA;
static void mkimage() {
    if (im) return;
    A = reg("a", 2 * 4096 + 1000, "CU", true, 1); B = text("b", "hello"); DAM = reg("dam", 4 * 4096, "CCCC", false, 9); D = ::sq::dir("d"); for (int i = 0; i < 12; i++) D->add(text(vfmt("e%02d", i), "x"));
    auto big = reg("big", 5ull << 30, "", false, 3); big->dataless = big->ext = true; auto big2 = reg("big2", (1ull << 31) + 100, "", false, 4); big2->dataless = true;
    im = build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {A, B, big, big2, D, DAM, lnk("ld", "d"), lnk("ldd", "./ld/."), lnk("le", "../__enclose_io_memfs__/d")})})); CA = content_of(*A, 4096);
    for (auto &k : im->cblocks) if (k.kind == 'd' && k.pos == DAM->blocks[2].first) memset(im->mem + im->off() + k.pos, 0xff, k.size);
    SCR = getenv("VF_SCRATCH"); spit(SCR + "/a", CA); ::mkdir((SCR + "/d").c_str(), 0755); for (int i = 0; i < 12; i++) spit(SCR + vfmt("/d/e%02d", i), "x");
    int fd = ::open((SCR + "/big").c_str(), O_RDWR | O_CREAT, 0600); REQ(!ftruncate(fd, 5ll << 30), "ftruncate"); ::close(fd);
}
static const int RG = 24;     // bytes around every buffer that must stay as they are
struct Buf { std::vector<uint8_t> v; size_t n; explicit Buf(size_t n) : v(n + RG, 0xA7), n(n) {} uint8_t *p() { return v.data(); } void check(size_t got, const char *w) { for (size_t i = got; i < v.size(); i++) REQ(v[i] == 0xA7, "%s: byte %zu behind the %zu returned was written", w, i - got, got); } };
struct W {
    Fs fs; int vf = -1, vf2 = -1, vd = -1, rf = -1, rt = -1, rd = -1, rdt = -1; int64_t pos = 0, pos2 = 0, cur = 0; ::DIR *vs = nullptr, *rs = nullptr, *rst = nullptr; size_t loc = 0; int vsfd = -1; std::vector<std::pair<long, size_t>> tells; std::vector<std::pair<long, long>> rtells; int lastvf = -1;
    W() : fs(im) { enclose_io_fs = &fs.fs; enclose_io_cwd[0] = 0; }
    ~W() { if (vs) enclose_io_closedir(vs); if (rs) ::closedir(rs), ::closedir(rst); for (int f : {vf, vf2, vd}) if (f >= 0) squash_close(f); for (int f : {rf, rt, rd, rdt}) if (f >= 0) ::close(f); enclose_io_fs = nullptr; }
    bool owned(int n) { for (int f : {vf, vf2, vd, rf, rt, rd, rdt, vsfd}) if (f == n) return true; return (rs && ::dirfd(rs) == n) || (rst && ::dirfd(rst) == n); }
};
struct Op { std::string name; std::function<void(W &)> go; };
// ---- virtual file with content c and position
static void vread(W &w, int fd, int64_t &pos, const std::string &c, size_t n) { size_t e = pos >= (int64_t)c.size() ? 0 : std::min<size_t>(n, c.size() - pos); Buf b(n); ssize_t g = enclose_io_read(fd, b.p(), n); REQ(g == (ssize_t)e, "read of %zu at %ld returned %zd, expected %zu", n, (long)pos, g, e); REQ(!memcmp(b.p(), c.data() + pos * !!e, e), "read: wrong bytes"); b.check(e, "read"); pos += e; }
static void where(int fd, int64_t pos, const char *op) { off_t g = enclose_io_lseek(fd, 0, SEEK_CUR); REQ(g == pos, "after %s the position is %ld, expected %ld", op, (long)g, (long)pos); }
static void vpread(W &w, int fd, int64_t pos, const std::string &c, size_t n, int64_t off) {
    Buf b(n); errno = 0; ssize_t g = enclose_io_pread(fd, b.p(), n, off); if (off < 0) { REQ(g == -1 && errno == EINVAL, "pread at %ld returned %zd (%s), expected EINVAL", (long)off, g, errname(errno).c_str()); b.check(0, "pread"); where(fd, pos, "a failing pread"); return; }
    size_t e = off >= (int64_t)c.size() ? 0 : std::min<size_t>(n, c.size() - off); REQ(g == (ssize_t)e, "pread of %zu at %ld returned %zd, expected %zu", n, (long)off, g, e); REQ(!memcmp(b.p(), c.data() + (e ? off : 0), e), "pread: wrong bytes"); b.check(e, "pread"); where(fd, pos, "pread"); }
static void vreadv(W &w, int fd, int64_t &pos, const std::string &c, const std::vector<size_t> &seg) {
    std::vector<Buf> bs; std::vector<iovec> v; for (size_t n : seg) bs.emplace_back(n); size_t tot = 0; for (size_t i = 0; i < seg.size(); i++) { v.push_back({bs[i].p(), seg[i]}); tot += seg[i]; }
    size_t e = pos >= (int64_t)c.size() ? 0 : std::min<size_t>(tot, c.size() - pos); ssize_t g = enclose_io_readv(fd, v.data(), v.size()); REQ(g == (ssize_t)e, "readv at %ld returned %zd, expected %zu", (long)pos, g, e);
    size_t at = 0; for (size_t i = 0; i < seg.size(); i++) { size_t k = std::min(seg[i], e - at); REQ(!memcmp(bs[i].p(), c.data() + (k ? pos + at : 0), k), "readv: wrong bytes in segment %zu", i); bs[i].check(k, "readv"); at += k; } pos += e; where(fd, pos, "readv"); }
static void vseek(int fd, int64_t &pos, int64_t size, int64_t off, int wh) { int64_t want = wh == SEEK_SET ? off : wh == SEEK_CUR ? pos + off : size; errno = 0; off_t g = enclose_io_lseek(fd, off, wh); if (want < 0) { REQ(g == -1 && errno == EINVAL, "seek to %ld returned %ld", (long)want, (long)g); return; } REQ(g == want, "seek returned %ld, expected %ld", (long)g, (long)want); pos = want; }
// ---- real twins
#define TWIN(expr_layer, expr_os) do { errno = 0; auto x_ = (expr_layer); int ex = errno; errno = 0; auto y_ = (expr_os); int ey = errno; REQ(x_ == y_, "on a real object the layer returned %ld, the system %ld", (long)x_, (long)y_); REQ(ex == ey || x_ != (decltype(x_))-1, "on a real object errno is %s, the system sets %s", errname(ex).c_str(), errname(ey).c_str()); } while (0)
static void same(Buf &a, Buf &b) { REQ(a.v == b.v, "on a real object the layer delivers other bytes than the system"); }
static bool badstat(const struct stat &s, const struct stat &t) { return s.st_ino != t.st_ino || s.st_size != t.st_size || s.st_mode != t.st_mode || s.st_nlink != t.st_nlink || s.st_mtime != t.st_mtime || s.st_dev != t.st_dev; }
static void rreadv(W &w, const std::vector<size_t> &seg) { std::vector<Buf> a, b; std::vector<iovec> va, vb; for (size_t n : seg) a.emplace_back(n), b.emplace_back(n); for (size_t i = 0; i < seg.size(); i++) va.push_back({a[i].p(), seg[i]}), vb.push_back({b[i].p(), seg[i]}); TWIN(enclose_io_readv(w.rf, va.data(), va.size()), ::readv(w.rt, vb.data(), vb.size())); for (size_t i = 0; i < seg.size(); i++) same(a[i], b[i]); }
static void ventry(W &w) { errno = 0; auto *e = enclose_io_readdir(w.vs); if (w.loc >= D->kids.size()) { REQ(!e, "readdir behind the end delivers %s", e->d_name); return; } REQ(e, "readdir ended after %zu entries", w.loc); REQ(D->kids[w.loc]->name == e->d_name && (uint32_t)e->d_ino == D->kids[w.loc]->number && e->d_type == DT_REG, "entry %zu is %s", w.loc, e->d_name); w.loc++; }
static void rentry(W &w) { errno = 0; auto *e = (struct dirent *)enclose_io_readdir(w.rs); auto *f = ::readdir(w.rst); REQ(!e == !f && (!e || (!strcmp(e->d_name, f->d_name) && e->d_ino == f->d_ino && e->d_type == f->d_type)), "readdir on a real stream differs from the system's"); }
static const std::vector<std::vector<size_t>> SEGS = {{3, 0, 5}, {0}, {}, {0, 0, 2, 0, 0, 1}, {4000, 200}, {6000, 0, 6000}};
static std::vector<Op> ops(bool full) {
    std::vector<Op> o; auto add = [&](const char *n, std::function<void(W &)> f) { o.push_back({n, f}); };
    add("open virtual file", [](W &w) { if (w.vf >= 0) return; w.vf = enclose_io_open(2, MEMFS "/a", O_RDONLY); REQ(w.vf >= 0, "open: %s", errname(errno).c_str()); w.pos = 0; });
    add("open real file", [](W &w) { if (w.rf >= 0) return; w.rf = enclose_io_open(2, (SCR + "/a").c_str(), O_RDONLY); REQ(w.rf >= 0, "open: %s", errname(errno).c_str()); w.rt = ::open((SCR + "/a").c_str(), O_RDONLY); });
    add("close virtual file", [](W &w) { if (w.vf < 0) return; int n = w.lastvf = w.vf; REQ(!enclose_io_close(w.vf), "close failed"); w.vf = -1; if (!w.owned(n)) REQ(fcntl(n, F_GETFD) == -1, "closed number still open"); });
    add("close real file", [](W &w) { if (w.rf < 0) return; int n = w.rf; TWIN(enclose_io_close(w.rf), ::close(w.rt)); w.rf = w.rt = -1; REQ(fcntl(n, F_GETFD) == -1, "closed number still open"); });
    add("open virtual directory", [](W &w) { if (w.vd >= 0 || w.vs) return; w.vd = enclose_io_open(2, MEMFS "/d", O_RDONLY); REQ(w.vd >= 0, "open: %s", errname(errno).c_str()); });
    add("fdopendir virtual", [](W &w) { if (w.vd < 0 || w.vs) return; w.vs = enclose_io_fdopendir(w.vd); REQ(w.vs, "fdopendir failed: %s", errname(errno).c_str()); w.vsfd = w.vd; w.vd = -1; w.loc = 0; w.tells.clear(); });
    add("opendir virtual", [](W &w) { if (w.vd >= 0 || w.vs) return; w.vs = enclose_io_opendir(MEMFS "/d"); REQ(w.vs, "opendir failed: %s", errname(errno).c_str()); w.vsfd = enclose_io_dirfd(w.vs); w.loc = 0; w.tells.clear(); });
    add("closedir virtual", [](W &w) { if (!w.vs) return; int n = w.vsfd; REQ(!enclose_io_closedir(w.vs), "closedir failed"); w.vs = nullptr; w.vsfd = -1; REQ(fcntl(n, F_GETFD) == -1, "descriptor of the closed stream still open"); });
    add("open real directory", [](W &w) { if (w.rd >= 0 || w.rs) return; w.rd = enclose_io_open(2, (SCR + "/d").c_str(), O_RDONLY); w.rdt = ::open((SCR + "/d").c_str(), O_RDONLY); REQ(w.rd >= 0, "open"); });
    add("fdopendir real", [](W &w) { if (w.rd < 0 || w.rs) return; w.rs = enclose_io_fdopendir(w.rd); w.rst = ::fdopendir(w.rdt); REQ(w.rs && w.rst, "fdopendir of a real directory failed"); w.rd = w.rdt = -1; w.rtells.clear(); });
    add("closedir real", [](W &w) { if (!w.rs) return; int n = ::dirfd(w.rs); TWIN(enclose_io_closedir(w.rs), ::closedir(w.rst)); w.rs = w.rst = nullptr; REQ(fcntl(n, F_GETFD) == -1, "descriptor of the closed stream still open"); });
    add("readdir virtual", [](W &w) { if (w.vs) ventry(w); }); add("readdir real", [](W &w) { if (w.rs) rentry(w); });
    add("9 x readdir virtual", [](W &w) { if (w.vs) for (int i = 0; i < 9; i++) ventry(w); }); 
    add("telldir both", [](W &w) { if (w.vs) { long l = enclose_io_telldir(w.vs); for (auto &t : w.tells) REQ((t.first == l) == (t.second == w.loc), "telldir does not identify positions"); w.tells.push_back({l, w.loc}); } if (w.rs) { long l = enclose_io_telldir(w.rs), m = ::telldir(w.rst); REQ(l == m, "telldir of a real stream"); w.rtells.push_back({l, m}); } });
    add("seekdir both to the oldest", [](W &w) { if (w.vs && w.tells.size()) { enclose_io_seekdir(w.vs, w.tells[0].first); w.loc = w.tells[0].second; } if (w.rs && w.rtells.size()) { enclose_io_seekdir(w.rs, w.rtells[0].first); ::seekdir(w.rst, w.rtells[0].second); } });
    add("rewinddir virtual", [](W &w) { if (w.vs) { enclose_io_rewinddir(w.vs); w.loc = 0; } }); add("rewinddir real", [](W &w) { if (w.rs) { enclose_io_rewinddir(w.rs); ::rewinddir(w.rst); } });
    add("read 5 virtual", [](W &w) { if (w.vf >= 0) vread(w, w.vf, w.pos, CA, 5); }); add("read 5 real", [](W &w) { if (w.rf >= 0) { Buf a(5), b(5); TWIN(enclose_io_read(w.rf, a.p(), 5), ::read(w.rt, b.p(), 5)); same(a, b); } });
    add("pread virtual", [](W &w) { if (w.vf >= 0) vpread(w, w.vf, w.pos, CA, 4100, 4000); }); add("pread real", [](W &w) { if (w.rf >= 0) { Buf a(4100), b(4100); TWIN(enclose_io_pread(w.rf, a.p(), 4100, 4000), ::pread(w.rt, b.p(), 4100, 4000)); same(a, b); } });
    add("readv virtual", [](W &w) { if (w.vf >= 0) vreadv(w, w.vf, w.pos, CA, {4093, 0, 5}); }); add("readv real", [](W &w) { if (w.rf >= 0) rreadv(w, {4093, 0, 5}); });
    add("seek near the end, virtual", [](W &w) { if (w.vf >= 0) vseek(w.vf, w.pos, CA.size(), CA.size() - 3, SEEK_SET); }); add("seek near the end, real", [](W &w) { if (w.rf >= 0) TWIN(enclose_io_lseek(w.rf, CA.size() - 3, SEEK_SET), ::lseek(w.rt, CA.size() - 3, SEEK_SET)); });
    if (!full) return o;
    for (size_t n : {(size_t)0, (size_t)5000, (size_t)100000}) { add(n ? n > 5000 ? "read all virtual" : "read 5000 virtual" : "read 0 virtual", [n](W &w) { if (w.vf >= 0) vread(w, w.vf, w.pos, CA, n); }); add(n ? n > 5000 ? "read all real" : "read 5000 real" : "read 0 real", [n](W &w) { if (w.rf >= 0) { Buf a(n), b(n); TWIN(enclose_io_read(w.rf, a.p(), n), ::read(w.rt, b.p(), n)); same(a, b); } }); }
    for (int64_t off : {(int64_t)-1, (int64_t)0, (int64_t)9190, (int64_t)20000}) { o.push_back({vfmt("pread 10 at %ld virtual", (long)off), [off](W &w) { if (w.vf >= 0) vpread(w, w.vf, w.pos, CA, 10, off); }}); o.push_back({vfmt("pread 10 at %ld real", (long)off), [off](W &w) { if (w.rf >= 0) { Buf a(10), b(10); TWIN(enclose_io_pread(w.rf, a.p(), 10, off), ::pread(w.rt, b.p(), 10, off)); same(a, b); } }}); }
    for (size_t i = 0; i < SEGS.size(); i++) { o.push_back({vfmt("readv %zu virtual", i), [i](W &w) { if (w.vf >= 0) vreadv(w, w.vf, w.pos, CA, SEGS[i]); }}); o.push_back({vfmt("readv %zu real", i), [i](W &w) { if (w.rf >= 0) rreadv(w, SEGS[i]); }}); }
    for (auto &x : std::vector<std::pair<int64_t, int>>{{-1, SEEK_SET}, {0, SEEK_SET}, {-7, SEEK_CUR}, {4, SEEK_CUR}, {0, SEEK_END}}) { o.push_back({vfmt("lseek %ld/%d virtual", (long)x.first, x.second), [x](W &w) { if (w.vf >= 0) vseek(w.vf, w.pos, CA.size(), x.first, x.second); }}); o.push_back({vfmt("lseek %ld/%d real", (long)x.first, x.second), [x](W &w) { if (w.rf >= 0) TWIN(enclose_io_lseek(w.rf, x.first, x.second), ::lseek(w.rt, x.first, x.second)); }}); }
    add("fstat virtual", [](W &w) { struct stat s; for (int f : {w.vf, w.vd, w.vsfd}) if (f >= 0) { memset(&s, 0x5a, sizeof s); REQ(!enclose_io_fstat(f, &s), "fstat failed"); Node *n = f == w.vf ? A.get() : D.get(); REQ((n->kind == sq::DIR ? S_ISDIR(s.st_mode) : S_ISREG(s.st_mode) && s.st_size == (off_t)n->size) && s.st_mtime == n->mtime, "fstat reports another object"); } });
    add("fstat real", [](W &w) { struct stat s, t; for (auto f : std::vector<std::pair<int, int>>{{w.rf, w.rt}, {w.rd, w.rdt}, {w.rs ? ::dirfd(w.rs) : -1, w.rst ? ::dirfd(w.rst) : -1}}) if (f.first >= 0) { TWIN(enclose_io_fstat(f.first, &s), ::fstat(f.second, &t)); REQ(!badstat(s, t), "fstat of a real object differs"); } });
    add("dirfd both", [](W &w) { if (w.vs) { REQ(enclose_io_dirfd(w.vs) == w.vsfd, "dirfd of the virtual stream"); } if (w.rs) REQ(enclose_io_dirfd(w.rs) == ::dirfd(w.rs), "dirfd of the real stream"); });
    add("second virtual file", [](W &w) { if (w.vf2 < 0) { w.vf2 = enclose_io_open(2, MEMFS "/b", O_RDONLY); REQ(w.vf2 >= 0, "open"); w.pos2 = 0; } else { vread(w, w.vf2, w.pos2, "hello", 2); vpread(w, w.vf2, w.pos2, "hello", 3, 1); } });
    add("calls on a closed virtual number", [](W &w) { int n = w.lastvf; if (n < 0 || w.owned(n)) return; char b[4]; iovec v{b, 4}; struct stat s; errno = 0; REQ(enclose_io_read(n, b, 4) == -1 && errno == EBADF, "read"); errno = 0; REQ(enclose_io_pread(n, b, 4, 0) == -1 && errno == EBADF, "pread"); errno = 0; REQ(enclose_io_readv(n, &v, 1) == -1 && errno == EBADF, "readv"); errno = 0; REQ(enclose_io_lseek(n, 0, SEEK_SET) == -1 && errno == EBADF, "lseek"); errno = 0; REQ(enclose_io_fstat(n, &s) == -1 && errno == EBADF, "fstat"); errno = 0; REQ(enclose_io_close(n) == -1 && errno == EBADF, "close"); errno = 0; REQ(!enclose_io_fdopendir(n) && errno == EBADF, "fdopendir"); });
    add("fdopendir of files", [](W &w) { if (w.vf >= 0) { errno = 0; REQ(!enclose_io_fdopendir(w.vf) && errno == ENOTDIR, "fdopendir of a virtual file: %s", errname(errno).c_str()); where(w.vf, w.pos, "fdopendir"); } if (w.rf >= 0) { errno = 0; REQ(!enclose_io_fdopendir(w.rf) && errno == ENOTDIR, "fdopendir of a real file: %s", errname(errno).c_str()); } });
    add("read and fstat on directories", [](W &w) { char b[8]; for (int f : {w.vd, w.vsfd}) if (f >= 0) REQ(enclose_io_read(f, b, 8) == -1, "read on a virtual directory"); if (w.rd >= 0) { errno = 0; REQ(enclose_io_read(w.rd, b, 8) == -1 && errno == EISDIR, "read on a real directory"); } });
    return o;
}
static long base_live() { static long l = -1; if (l < 0) { for (int i = 0; i < 2; i++) { W w; w.vf = enclose_io_open(2, MEMFS "/a", 0); w.vd = enclose_io_open(2, MEMFS "/d", 0); for (int k = 0; k < 60; k++) {} char b[10000]; enclose_io_read(w.vf, b, 10000); } l = vfa.live; } return l; }
static void finish(size_t nfd0) { REQ(vf_open_fds().size() == nfd0, "descriptors left open"); REQ(vfa.live == base_live(), "%ld blocks not released", vfa.live - base_live()); }
static void history(const std::vector<Op> &O, const std::vector<int> &h) { std::string t; for (int i : h) t += O[i].name + "; "; ctx.note("%s", t.c_str()); { W w; for (int i : h) { O[i].go(w); ctx.transitions++; } if (w.vf >= 0) where(w.vf, w.pos, "everything"); if (w.vf2 >= 0) where(w.vf2, w.pos2, "everything"); } }
void vf_enumerate() {
    vf_start_library(); mkimage(); bool T = ctx.thorough(); size_t nfd = vf_open_fds().size(); base_live(); auto F = ops(true), S = ops(false); int nS = S.size(), nF = F.size();
    // everything open, then every sequence; and every sequence from the start over opens, closes and a call of each kind
    std::vector<int> setup; for (int i = 0; i < nF; i++) { auto &n = F[i].name; if (n == "open virtual file" || n == "open real file" || n == "open virtual directory" || n == "fdopendir virtual" || n == "open real directory" || n == "fdopendir real" || n == "second virtual file") setup.push_back(i); }
    for (int a = 0; a < nF; a++) ctx.run(vfmt("all objects open; %s; then every sequence of %d calls", F[a].name.c_str(), T ? 3 : 2), [&] { product(std::vector<int>(T ? 3 : 2, nF), [&](const std::vector<int> &d) { auto h = setup; h.push_back(a); h.insert(h.end(), d.begin(), d.end()); history(F, h); ctx.states++; }); finish(nfd); ctx.traces++; });
    int L = T ? 5 : 4; for (int a = 0; a < nS; a++) for (int b = 0; b < nS; b++) ctx.run(vfmt("%s; %s; then every sequence of %d calls", S[a].name.c_str(), S[b].name.c_str(), L - 2), [&] { product(std::vector<int>(L - 2, nS), [&](const std::vector<int> &d) { std::vector<int> h{a, b}; h.insert(h.end(), d.begin(), d.end()); history(S, h); ctx.states++; }); finish(nfd); ctx.traces++; });
    // readv: every split of up to n bytes into up to 4 segments at every position near the edges, virtual and real
    for (int64_t pos : {(int64_t)0, (int64_t)4096 - 3, (int64_t)8192 - 2, (int64_t)9192 - 9, (int64_t)9192 - 6, (int64_t)9192 - 3, (int64_t)9192 - 1, (int64_t)9192, (int64_t)9300}) for (int k = 1; k <= (T ? 6 : 4); k++) ctx.run(vfmt("readv at %ld: every split into %d segments of 0..%d bytes", (long)pos, k, T ? 4 : 5), [&] {
        W w; for (int i : {0, 1}) S[i].go(w); product(std::vector<int>(k, T ? 5 : 6), [&](const std::vector<int> &d) { std::vector<size_t> s(d.begin(), d.end()); vseek(w.vf, w.pos, CA.size(), pos, SEEK_SET); vreadv(w, w.vf, w.pos, CA, s); ::lseek(w.rf, pos, SEEK_SET); ::lseek(w.rt, pos, SEEK_SET); rreadv(w, s); ctx.states++; ctx.transitions += 2; }); ctx.traces++; });
    ctx.run("readv: number of segments", [&] { W w; S[0].go(w); for (int n : {0, 1, 2, 10, 100, 1024}) { vseek(w.vf, w.pos, CA.size(), 0, SEEK_SET); vreadv(w, w.vf, w.pos, CA, std::vector<size_t>(n, 3)); vreadv(w, w.vf, w.pos, CA, std::vector<size_t>(n, 0)); ctx.states++; } ctx.traces++; });
    // failures: damaged block
    for (int64_t pos : {(int64_t)0, (int64_t)4000, (int64_t)8000, (int64_t)8192, (int64_t)12287, (int64_t)12288, (int64_t)16384}) ctx.run(vfmt("a file with a damaged third block, position %ld", (long)pos), [&] {
        std::string c = content_of(*DAM, 4096); W w; int fd = enclose_io_open(2, MEMFS "/dam", O_RDONLY); REQ(fd >= 0, "open"); w.vf2 = fd;
        auto bad = [&](int64_t p, size_t n) { return n && p < 12288 && std::min<int64_t>(p + n, c.size()) > 8192; };
        for (int64_t off : {(int64_t)0, (int64_t)8000, (int64_t)8192, (int64_t)12000, (int64_t)12288}) for (size_t n : {(size_t)1, (size_t)192, (size_t)193, (size_t)300, (size_t)5000}) { enclose_io_lseek(fd, pos, SEEK_SET); if (!bad(off, n)) vpread(w, fd, pos, c, n, off); else { Buf b(n); errno = 0; ssize_t g = enclose_io_pread(fd, b.p(), n, off); REQ(g == -1 && errno, "pread over a damaged block returned %zd", g); where(fd, pos, "a failing pread"); } ctx.transitions++; }
        for (auto &s : std::vector<std::vector<size_t>>{{100, 100}, {192, 1}, {193}, {0, 192, 0, 50}, {100, 5000}, {5000, 5000}, {1, 1, 1}}) { enclose_io_lseek(fd, pos, SEEK_SET); size_t tot = 0; for (size_t x : s) tot += x; int64_t p = pos; if (!bad(pos, tot)) vreadv(w, fd, p, c, s); else {
            // what precedes the damaged block may be delivered; the position tells how much was
            std::vector<Buf> bs; std::vector<iovec> v; for (size_t n : s) bs.emplace_back(n); for (size_t i = 0; i < s.size(); i++) v.push_back({bs[i].p(), s[i]}); errno = 0; ssize_t g = enclose_io_readv(fd, v.data(), v.size()); where(fd, pos + (g > 0 ? g : 0), "readv over a damaged block"); REQ(g != 0 && (g > 0 || errno), "readv over a damaged block returned %zd", g); REQ(g <= 8192 - pos || g == -1, "readv delivers damaged data"); size_t at = 0; for (size_t i = 0; i < s.size() && g > 0; i++) { size_t k = std::min<size_t>(s[i], g - at); REQ(!memcmp(bs[i].p(), c.data() + pos + at, k), "readv: wrong bytes"); at += k; } } ctx.transitions++; }
        ctx.states++; ctx.traces++; });
    // offsets and sizes beyond 32 bits
    for (int f = 0; f < 2; f++) ctx.run(f ? "a file of 5 GB" : "a file of just over 2 GB", [&] {
        W w; int64_t size = f ? 5ll << 30 : (1ll << 31) + 100; int fd = w.vf2 = enclose_io_open(2, f ? MEMFS "/big" : MEMFS "/big2", O_RDONLY), rfd = enclose_io_open(2, (SCR + "/big").c_str(), O_RDONLY); w.rf = rfd; REQ(fd >= 0 && rfd >= 0, "open %d %d %s", fd, rfd, errname(errno).c_str());
        for (int64_t b : {0ll, 1ll << 31, 1ll << 32, 3ll << 31, 5ll << 30, 1ll << 40, 1ll << 62}) for (int64_t d : {-1, 0, 1, 77}) { int64_t p = b + d; if (p < 0) continue; int64_t pos = 0; vseek(fd, pos, size, p, SEEK_SET); where(fd, p, "seek"); vseek(fd, pos, size, -1, SEEK_CUR); if (p) where(fd, p - 1, "relative seek"); if (p < 1ll << 42) { off_t g = enclose_io_lseek(rfd, p, SEEK_SET); REQ(g == p, "lseek of a real file to %ld returned %ld", (long)p, (long)g); } Buf x(9); int64_t e = std::max<int64_t>(0, std::min<int64_t>(9, size - p)); ssize_t g = enclose_io_pread(fd, x.p(), 9, p); REQ(g == e, "pread at %ld returned %zd", (long)p, g); x.check(e, "pread"); for (int i = 0; i < e; i++) REQ(!x.v[i], "bytes"); where(fd, p ? p - 1 : 0, "pread"); ctx.states++; ctx.transitions += 5; }
        int64_t pos = 0; vseek(fd, pos, size, 0, SEEK_END); struct stat s; REQ(!enclose_io_fstat(fd, &s) && s.st_size == size, "size %ld", (long)s.st_size); ctx.traces++; });
    // counts beyond 16, 31 and 32 bits: of a small file everything up to its end, of a large file all that was asked for
    for (size_t n : {(size_t)32767, (size_t)32769, (size_t)65535, (size_t)65536, (size_t)70001, (size_t)(1 << 20) + 3, (size_t)(20 << 20) + 5}) ctx.run(vfmt("reads of %zu bytes", n), [&] { W w; int fd = w.vf2 = enclose_io_open(2, MEMFS "/big", O_RDONLY); Buf a(n), b(100); int64_t p = (1ll << 31) - 5000; enclose_io_lseek(fd, p, SEEK_SET); memset(a.p(), 1, n);
        auto zero = [&](Buf &x, size_t k, const char *op) { for (size_t i = 0; i < k; i++) REQ(!x.v[i], "%s of %zu: byte %zu is %d", op, n, i, x.v[i]); x.check(x.n, op); memset(x.p(), 1, x.n); };
        ssize_t g = enclose_io_read(fd, a.p(), n); REQ(g == (ssize_t)n, "read of %zu gives %zd", n, g); zero(a, n, "read"); where(fd, p + n, "read"); g = enclose_io_pread(fd, a.p(), n, 77); REQ(g == (ssize_t)n, "pread of %zu gives %zd", n, g); zero(a, n, "pread"); where(fd, p + n, "pread");
        for (int k = 0; k < 2; k++) { iovec v[3] = {{k ? b.p() : a.p(), k ? 100 : n}, {k ? a.p() : b.p(), k ? n : 100}, {b.p(), 7}}; enclose_io_lseek(fd, p, SEEK_SET); g = enclose_io_readv(fd, v, 3); REQ(g == (ssize_t)n + 107, "readv of %zu and 107 gives %zd", n, g); zero(a, n, "readv"); zero(b, 100, "readv"); where(fd, p + n + 107, "readv"); } ctx.states++; ctx.transitions += 4; ctx.traces++; });
    for (size_t n : {((size_t)1 << 31) - 1, (size_t)1 << 31, ((size_t)1 << 32) - 1, (size_t)1 << 32, ((size_t)1 << 32) + 5, (size_t)1 << 40}) ctx.run(vfmt("reads of up to %zu bytes of a small file", n), [&] { W w; int fd = w.vf2 = enclose_io_open(2, MEMFS "/a", O_RDONLY); for (int64_t p : {0, 5, 4096, 9191, 9192, 9999}) {
        size_t e = p > 9192 ? 0 : 9192 - p; auto good = [&](Buf &x, size_t at, ssize_t g, const char *op) { REQ(g == (ssize_t)e, "%s of %zu at %ld gives %zd, expected %zu", op, n, (long)p, g, e); REQ(!memcmp(x.p(), CA.data() + (e > at ? p + at : 0), e > at ? e - at : 0), "%s: wrong bytes", op); x.check(e > at ? e - at : 0, op); };
        { Buf b(9300); enclose_io_lseek(fd, p, SEEK_SET); good(b, 0, enclose_io_read(fd, b.p(), n), "read"); where(fd, p + e, "read"); } { Buf b(9300); good(b, 0, enclose_io_pread(fd, b.p(), n, p), "pread"); } { Buf a(3), b(9300); iovec v[2] = {{a.p(), 3}, {b.p(), n}}; enclose_io_lseek(fd, p, SEEK_SET); ssize_t g = enclose_io_readv(fd, v, 2); good(b, 3, g, "readv"); where(fd, p + e, "readv"); } ctx.states++; ctx.transitions += 3; } ctx.traces++; });
    // fdopendir with each allocation failing
    for (int k = 0; k < 8; k++) ctx.run(vfmt("fdopendir, allocation %d fails", k), [&] { for (int warm = 0; warm < 2; warm++) { W w; int fd = w.vd = enclose_io_open(2, MEMFS "/d", O_RDONLY); if (warm) { ::DIR *d = enclose_io_opendir(MEMFS "/d"); enclose_io_readdir(d); enclose_io_closedir(d); } long live = vfa.live; vfa.count = 0; vfa.failed = false; vfa.fail_at = k; errno = 0; ::DIR *d = enclose_io_fdopendir(fd); int e = errno; vfa.fail_at = -1; if (!vfa.failed) { REQ(d, "fdopendir failed without a fault"); w.vs = d; w.vsfd = fd; w.vd = -1; w.loc = 0; continue; } if (!d) { REQ(e, "errno 0"); struct stat s; REQ(!enclose_io_fstat(fd, &s) && S_ISDIR(s.st_mode), "the descriptor is gone after a failed fdopendir"); if (warm) REQ(vfa.live == live, "%ld blocks lost", vfa.live - live); d = enclose_io_fdopendir(fd); REQ(d, "fdopendir fails again"); } w.vs = d; w.vsfd = fd; w.vd = -1; w.loc = 0; for (int i = 0; i < 13; i++) ventry(w); ctx.states++; } ctx.traces++; finish(nfd); });
    // paths under which a directory was opened
    for (const char *p : {"/d", "/d/", "/././d", "//d//", "/d/.", "/ld", "/ld/", "/ldd", "/ldd/.", "/le", "/../__enclose_io_memfs__/le"}) ctx.run(vfmt("fdopendir of a descriptor opened as %s%s", MEMFS, p), [&] { W w; w.vd = enclose_io_open(2, (std::string(MEMFS) + p).c_str(), O_RDONLY); REQ(w.vd >= 0, "open"); w.vs = enclose_io_fdopendir(w.vd); REQ(w.vs, "fdopendir: %s", errname(errno).c_str()); w.vsfd = w.vd; w.vd = -1; w.loc = 0; for (int i = 0; i < 13; i++) ventry(w); REQ(enclose_io_dirfd(w.vs) == w.vsfd, "dirfd"); ctx.states++; ctx.traces++; });
}
