// C03: every sequence of operations on several descriptors (two on one file) against a model that keeps one position per descriptor.
#include "vf.hpp"
#include <errno.h>
#include <unistd.h>
using namespace sq;
static ImageP im; static std::vector<NodeP> F;   // a (several blocks), b (small), c (second block damaged), d (directory)
static void mk() {
    if (im) return;
    auto r = dir(""); auto a = reg("a", 2 * 4096 + 1000, "CH", true, 1), b = text("b", "hello"), c = reg("c", 3 * 4096, "CCC", false, 3), d = dir("d", {text("x", "y")});
    for (auto n : {a, b, c, d}) { n->mtime += F.size() * 1000; F.push_back(n); r->add(n); } im = build(r);
    for (auto &k : im->cblocks) if (k.kind == 'd' && k.pos == c->blocks[1].first) memset(im->mem + im->off() + k.pos, 0xff, k.size);
}
struct Op { int fd, kind; int64_t arg; };     // kinds: 0 read, 1 SET, 2 CUR, 3 END, 4 bad whence, 5 fstat
static const int FILE_OF[4] = {0, 0, 1, 2}; static const char *FN[4] = {"a(1st)", "a(2nd)", "b", "c"};
static std::string str(const Op &o) { static const char *K[] = {"read", "seek SET", "seek CUR", "seek END", "seek whence", "fstat"}; return o.fd == 4 ? vfmt("%s %lld on a directory's descriptor", K[o.kind], (long long)o.arg) : o.fd == 5 ? vfmt("%s %lld on a closed descriptor", K[o.kind], (long long)o.arg) : vfmt("%s: %s %lld", FN[o.fd], K[o.kind], (long long)o.arg); }
struct World {
    Fs fs; int fd[6]; int64_t pos[4] = {0, 0, 0, 0};
    World() : fs(im) { const char *p[5] = {"/a", "/a", "/b", "/c", "/d"}; for (int i = 0; i < 5; i++) { fd[i] = squash_open(&fs.fs, p[i]); REQ(fd[i] >= 0, "open %s: %s", p[i], errname(errno).c_str()); } fd[5] = squash_open(&fs.fs, "/b"); REQ(!squash_close(fd[5]), "close"); }
    ~World() { for (int i = 0; i < 5; i++) squash_close(fd[i]); }
    static bool badstat(const struct stat &s, const struct stat &t) { return s.st_size != t.st_size || s.st_mode != t.st_mode || s.st_nlink != t.st_nlink || s.st_mtime != t.st_mtime || s.st_atime != t.st_atime || s.st_ctime != t.st_ctime || s.st_rdev != t.st_rdev || s.st_uid != t.st_uid || s.st_gid != t.st_gid; }
    void step(const Op &o) {
        ctx.transitions++;
        if (o.fd >= 4) {
            errno = 0; int64_t g; char b[64];
            switch (o.kind) { case 0: g = squash_read(fd[o.fd], b, std::min<int64_t>(o.arg, 64)); break; case 3: g = squash_lseek(fd[o.fd], 0, SQUASH_SEEK_END); break; default: g = -1; errno = EBADF; }
            REQ(g == -1, "%s returned %lld", str(o).c_str(), (long long)g); REQ(o.fd == 4 ? errno != 0 : errno == EBADF, "%s: errno %s", str(o).c_str(), errname(errno).c_str()); return;
        }
        Node *n = F[FILE_OF[o.fd]].get(); int64_t &p = pos[o.fd], sz = n->size;
        switch (o.kind) {
        case 0: {
            int64_t len = o.arg; std::vector<uint8_t> b(len > 0 ? len : 1, 0x77), w(len > 0 ? len : 1);
            int64_t exp = p >= sz ? 0 : std::min(len, sz - p); bool fail = len < 0;
            if (len > 0 && FILE_OF[o.fd] == 2 && p < 8192 && p + exp > 4096) fail = true;        // needs the damaged block
            if (len == 0 && FILE_OF[o.fd] == 2) fail = false;
            errno = 0; int64_t g = squash_read(fd[o.fd], b.data(), len);
            if (fail) { REQ(g == -1, "%s at %lld returned %lld, expected a failure", str(o).c_str(), (long long)p, (long long)g); REQ(errno, "errno 0"); return; }
            REQ(g == exp, "%s at %lld returned %lld, expected %lld", str(o).c_str(), (long long)p, (long long)g, (long long)exp);
            content(*n, p, exp, 4096, w.data()); REQ(!memcmp(b.data(), w.data(), exp), "%s at %lld: wrong bytes", str(o).c_str(), (long long)p);
            p += exp; return; }
        case 1: case 2: case 3: case 4: {
            int64_t want; if (o.kind == 1) want = o.arg; else if (o.kind == 2) want = __builtin_add_overflow_p(p, o.arg, (int64_t)0) ? -1 : p + o.arg; else if (o.kind == 3) want = sz; else want = -1;
            int wh = o.kind == 1 ? SQUASH_SEEK_SET : o.kind == 2 ? SQUASH_SEEK_CUR : o.kind == 3 ? SQUASH_SEEK_END : (int)o.arg;
            errno = 0; int64_t g = squash_lseek(fd[o.fd], o.kind == 4 ? 1 : o.arg, wh);
            if (want < 0) { REQ(g == -1, "%s from %lld returned %lld, expected a failure", str(o).c_str(), (long long)p, (long long)g); REQ(errno, "errno 0"); return; }
            REQ(g == want, "%s from %lld returned %lld, expected %lld", str(o).c_str(), (long long)p, (long long)g, (long long)want); p = want; return; }
        case 5: { struct stat a, b; memset(&a, 0x11, sizeof a); memset(&b, 0x22, sizeof b); REQ(!squash_fstat(fd[o.fd], &a) && !squash_stat(&fs.fs, ("/" + n->name).c_str(), &b), "fstat failed"); REQ(!badstat(a, b) && a.st_size == sz, "fstat differs from stat"); return; }
        }
    }
    void check() {
        for (int i = 0; i < 4; i++) { int64_t g = squash_lseek(fd[i], 0, SQUASH_SEEK_CUR); REQ(g == pos[i], "position of %s is %lld, expected %lld", FN[i], (long long)g, (long long)pos[i]); }
        // and the bytes there
        for (int i = 0; i < 3; i++) step({i, 0, 3});
    }
};
static std::vector<Op> ops(bool full) {
    std::vector<Op> r;
    for (int f = 0; f < 4; f++) {
        for (int64_t n : {(int64_t)1, (int64_t)4097, (int64_t)100000}) r.push_back({f, 0, n});
        r.push_back({f, 1, 4000}); r.push_back({f, 2, -3}); r.push_back({f, 3, 0});
        if (full) { for (int64_t n : {(int64_t)0, (int64_t)-1, (int64_t)5000}) r.push_back({f, 0, n}); for (int64_t n : {(int64_t)0, (int64_t)-1, INT64_MIN, (int64_t)1 << 40, INT64_MAX}) r.push_back({f, 1, n}); for (int64_t n : {(int64_t)0, (int64_t)5, INT64_MIN, INT64_MAX, (int64_t)-100000}) r.push_back({f, 2, n}); r.push_back({f, 3, 5}); r.push_back({f, 3, -5}); for (int w : {-1, 3, 4, 77, INT32_MIN}) r.push_back({f, 4, w}); r.push_back({f, 5, 0}); }
    }
    if (full) { r.push_back({4, 0, 5}); r.push_back({4, 3, 0}); r.push_back({5, 0, 5}); r.push_back({5, 3, 0}); r.push_back({5, 1, 0}); }
    else { r.push_back({4, 0, 5}); r.push_back({5, 3, 0}); r.push_back({0, 1, -1}); r.push_back({1, 4, 9}); r.push_back({0, 5, 0}); }
    return r;
}
void vf_enumerate() {
    vf_start_library(); mk();
    // 1. every operation in every combination of positions
    std::vector<int64_t> P0{0, 1, 4096, 8192 + 999, 8192 + 1000, 20000}, P1{0, 4095, 8192, 9192}, P2{0, 4, 5, 9}, P3{0, 4095, 4096, 8192}; auto full = ops(true);
    for (auto p0 : P0) for (auto p1 : P1) for (auto p2 : P2) for (auto p3 : P3) ctx.run(vfmt("positions %lld %lld %lld %lld, each of %zu operations", (long long)p0, (long long)p1, (long long)p2, (long long)p3, full.size()), [&] {
        World w; for (auto &o : full) { int64_t p[4] = {p0, p1, p2, p3}; for (int i = 0; i < 4; i++) w.step({i, 1, p[i]}); ctx.note("%s", str(o).c_str()); w.step(o); for (int i = 0; i < 4; i++) { int64_t g = squash_lseek(w.fd[i], 0, SQUASH_SEEK_CUR); REQ(g == w.pos[i], "position of %s is %lld, expected %lld", FN[i], (long long)g, (long long)w.pos[i]); } }
        ctx.states++; ctx.counts["position vectors"]++;
    });
    // 2. every sequence from fresh descriptors
    auto few = ops(ctx.thorough()); int depth = 3; size_t n = few.size();
    std::vector<Op> deep = ops(false);
    for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) ctx.run(vfmt("sequences of 3 operations starting with (%s)(%s)", str(few[a]).c_str(), str(few[b]).c_str()), [&] {
        for (size_t c = 0; c < n; c++) { ctx.note("then %s", str(few[c]).c_str()); World w; w.step(few[a]); w.step(few[b]); w.step(few[c]); w.check(); ctx.traces++; }
        ctx.counts["pairs of first operations"]++; if (a == 3 && b == 9) ctx.sample(ctx.desc);
    });
    if (ctx.thorough()) for (size_t a = 0; a < deep.size(); a++) for (size_t b = 0; b < deep.size(); b++) for (size_t c = 0; c < deep.size(); c++) ctx.run(vfmt("sequences of 4 operations starting with (%s)(%s)(%s)", str(deep[a]).c_str(), str(deep[b]).c_str(), str(deep[c]).c_str()), [&] { for (auto &d : deep) { ctx.note("then %s", str(d).c_str()); World w; w.step(deep[a]); w.step(deep[b]); w.step(deep[c]); w.step(d); w.check(); ctx.traces++; } });
}
