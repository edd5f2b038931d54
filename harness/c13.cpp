// C13: every failing call x every earlier errno, every ordered pair of failing calls, every allocation and block failure: errno is set
// by the failing call alone.
#include "vf.hpp"
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace sq;
struct Env { Fs &fs; int reg, dirfd, closed; };
struct Call { std::string name; std::function<bool(Env &)> failed; std::set<int> allowed; };   // empty: any non-zero
typedef struct SQUASH_DIRENT DE;
static std::vector<Call> calls() {
    std::vector<Call> c; std::string L257(257, 'n'), L5000(5000, 'm'), deep; for (int i = 0; i < 900; i++) deep += "d/../"; deep += "nope";
    struct P { std::string p; std::set<int> e; };
    std::vector<P> ps{{"/nope", {ENOENT}}, {"d/nope", {ENOENT}}, {"nope/x", {ENOENT}}, {"f/x", {ENOENT, ENOTDIR}}, {"/loop", {ELOOP}}, {"mid/x", {ELOOP}}, {"c0/y", {ELOOP}}, {"dangle", {ENOENT}}, {L257, {ENAMETOOLONG, ENOENT}}, {"d/" + L5000, {ENAMETOOLONG, ENOENT}}, {deep, {ENAMETOOLONG, ENOENT}}, {"/..", {}}, {"toolong", {ENAMETOOLONG, ENOENT}}, {"d/dangle2/z", {ENOENT}}};
    for (auto &p : ps) {
        std::string s = p.p, q = hexname(s).substr(0, 12); bool last = s == "/loop" || s == "dangle" || s == "toolong";       // lstat and readlink of the link itself succeed
        c.push_back({"stat " + q, [s](Env &e) { struct stat st; return squash_stat(&e.fs.fs, s.c_str(), &st) == -1; }, p.e});
        if (!last) c.push_back({"lstat " + q, [s](Env &e) { struct stat st; return squash_lstat(&e.fs.fs, s.c_str(), &st) == -1; }, p.e});
        c.push_back({"open " + q, [s](Env &e) { return squash_open(&e.fs.fs, s.c_str()) == -1; }, p.e});
        c.push_back({"opendir " + q, [s](Env &e) { return squash_opendir(&e.fs.fs, s.c_str()) == nullptr; }, p.e});
        c.push_back({"scandir " + q, [s](Env &e) { DE **l; return squash_scandir(&e.fs.fs, s.c_str(), &l, 0, 0) == -1; }, p.e});
        if (!last) c.push_back({"readlink " + q, [s](Env &e) { char b[50]; return squash_readlink(&e.fs.fs, s.c_str(), b, 50) == -1; }, p.e});
        c.push_back({"extract " + q, [s](Env &e) { return squash_extract(&e.fs.fs, s.c_str(), "x") == nullptr; }, p.e});
    }
    for (const char *s : {"f", "/d/g", "fifo"}) { std::string q = s; c.push_back({"opendir " + q, [q](Env &e) { return !squash_opendir(&e.fs.fs, q.c_str()); }, {ENOTDIR, ENOENT}}); c.push_back({"scandir " + q, [q](Env &e) { DE **l; return squash_scandir(&e.fs.fs, q.c_str(), &l, 0, 0) == -1; }, {ENOTDIR, ENOENT}}); c.push_back({"readlink " + q, [q](Env &e) { char b[9]; return squash_readlink(&e.fs.fs, q.c_str(), b, 9) == -1; }, {EINVAL}}); }
    c.push_back({"readlink d", [](Env &e) { char b[9]; return squash_readlink(&e.fs.fs, "d", b, 9) == -1; }, {EINVAL}});
    c.push_back({"readlink with a small buffer", [](Env &e) { char b[3]; return squash_readlink(&e.fs.fs, "loop", b, 3) == -1; }, {ENAMETOOLONG}});
    c.push_back({"extract of a directory", [](Env &e) { return !squash_extract(&e.fs.fs, "d", "x"); }, {}}); c.push_back({"extract of a fifo", [](Env &e) { return !squash_extract(&e.fs.fs, "fifo", "x"); }, {}});
    c.push_back({"scandir without a name", [](Env &e) { DE **l; return squash_scandir(&e.fs.fs, nullptr, &l, 0, 0) == -1; }, {EINVAL}});
    for (int k = 0; k < 4; k++) { auto fd = [k](Env &e) { return k == 0 ? -1 : k == 1 ? e.closed : k == 2 ? 100000 : 2; }; const char *w[] = {"-1", "closed", "100000", "real"}; std::string n = w[k];
        c.push_back({"read " + n, [fd](Env &e) { char b[4]; return squash_read(fd(e), b, 4) == -1; }, {EBADF}}); c.push_back({"lseek " + n, [fd](Env &e) { return squash_lseek(fd(e), 0, SQUASH_SEEK_SET) == -1; }, {EBADF}}); c.push_back({"fstat " + n, [fd](Env &e) { struct stat s; return squash_fstat(fd(e), &s) == -1; }, {EBADF}}); c.push_back({"close " + n, [fd](Env &e) { return squash_close(fd(e)) == -1; }, {EBADF}}); }
    c.push_back({"read of a directory", [](Env &e) { char b[4]; return squash_read(e.dirfd, b, 4) == -1; }, {}});
    c.push_back({"lseek END of a directory", [](Env &e) { return squash_lseek(e.dirfd, 0, SQUASH_SEEK_END) == -1; }, {}});
    c.push_back({"lseek negative", [](Env &e) { return squash_lseek(e.reg, -5, SQUASH_SEEK_SET) == -1; }, {EINVAL}}); c.push_back({"lseek CUR negative", [](Env &e) { return squash_lseek(e.reg, -500000, SQUASH_SEEK_CUR) == -1; }, {EINVAL}}); c.push_back({"lseek whence 9", [](Env &e) { return squash_lseek(e.reg, 0, 9) == -1; }, {EINVAL}});
    c.push_back({"read negative", [](Env &e) { char b[4]; return squash_read(e.reg, b, -4) == -1; }, {}});
    c.push_back({"read of a damaged block", [](Env &e) { char b[100]; int fd = squash_open(&e.fs.fs, "bad"); if (fd < 0) return false; int s = errno; (void)s; bool r = squash_read(fd, b, 100) == -1; int k = errno; squash_close(fd); errno = k; return r; }, {}});
    c.push_back({"extract of a damaged file", [](Env &e) { return !squash_extract(&e.fs.fs, "bad", "x"); }, {}});
    c.push_back({"readdir of a damaged directory", [](Env &e) { int s = errno; SQUASH_DIR *d = squash_opendir(&e.fs.fs, "big"); if (!d) return false; errno = s; bool r = false; for (int i = 0; i < 4000; i++) { int before = errno; (void)before; if (!squash_readdir(d)) { r = i < 1500; break; } } int k = errno; squash_closedir(d); errno = k; return r; }, {}});
    return c;
}
static ImageP im;
static void mk() {
    if (im) return; auto r = dir(""); r->ext = true; r->add(text("f", "f")); auto d = dir("d", {text("g", "g"), lnk("dangle2", "../nope/q")}); r->add(d); r->add(sq::mk(FIFO, "fifo")); r->add(lnk("loop", "loop")); r->add(lnk("mid", "mid/../mid/a")); r->add(lnk("c0", "c1/z")); r->add(lnk("c1", "c0/z")); r->add(lnk("dangle", "nope")); r->add(lnk("toolong", std::string(3000, 't')));
    auto bad = reg("bad", 4096, "C", false, 4); r->add(bad); auto big = dir("big"); big->ext = true; for (int i = 0; i < 1500; i++) big->add(lnk(vfmt("entry-%05d", i), "x")); r->add(big); sort_kids(*r); im = build(r);
    int dm = 0; for (auto &k : im->cblocks) if (k.kind == 'd' && k.pos == bad->blocks[0].first) memset(im->mem + k.pos, 0xff, k.size); else if (k.kind == 'D' && k.seq == 2) { memset(im->mem + k.pos, 0xff, k.size); dm++; }
}
struct Setup { Fs fs; Env e; Setup() : fs(im), e{fs, 0, 0, 0} { e.reg = squash_open(&fs.fs, "f"); e.dirfd = squash_open(&fs.fs, "d"); e.closed = squash_open(&fs.fs, "f"); REQ(e.reg >= 0 && e.dirfd >= 0 && e.closed >= 0, "open"); squash_close(e.closed); } ~Setup() { squash_close(e.reg); squash_close(e.dirfd); } };
void vf_enumerate() {
    vf_start_library(); mk(); auto C = calls(); static std::vector<int> base(C.size(), 0); std::vector<int> E; for (int i = 0; i <= 133; i++) E.push_back(i); for (int x : {-1, 9999, INT32_MAX, 524}) E.push_back(x);
    auto baseline = [&](size_t i) { if (!base[i]) { Setup s; errno = 0; bool f = C[i].failed(s.e); int e = errno; REQ(f, "%s does not fail", C[i].name.c_str()); REQ(e, "%s fails with errno 0", C[i].name.c_str()); if (C[i].allowed.size()) REQ(C[i].allowed.count(e), "%s fails with %s", C[i].name.c_str(), errname(e).c_str()); base[i] = e; } return base[i]; };
    for (size_t i = 0; i < C.size(); i++) ctx.run(C[i].name + " after every errno", [&] { int b = baseline(i); Setup s; for (int e0 : E) { errno = e0; bool f = C[i].failed(s.e); int e = errno; ctx.transitions++; REQ(f, "succeeds when errno was %d", e0); REQ(e == b, "fails with %s when errno was %s, and with %s when it was 0", errname(e).c_str(), errname(e0).c_str(), errname(b).c_str()); } ctx.states++; ctx.traces++; ctx.counts["failing calls x earlier errno"] += E.size(); });
    for (size_t i = 0; i < C.size(); i++) ctx.run("every failing call after " + C[i].name, [&] { for (size_t j = 0; j < C.size(); j++) { int b = baseline(j); Setup s; errno = 0; REQ(C[i].failed(s.e), "first call succeeded"); ctx.note("then %s", C[j].name.c_str()); bool f = C[j].failed(s.e); int e = errno; ctx.transitions++; REQ(f && e == b, "%s gives %s, expected %s", C[j].name.c_str(), f ? errname(e).c_str() : "success", errname(b).c_str()); ctx.traces++; } ctx.states++; ctx.counts["pairs of failing calls"] += C.size(); if (i == 20) ctx.sample(ctx.desc); });
    // successful calls before: errno values left by them must not matter either
    struct Op { const char *name; std::function<bool(Fs &)> fail; };
    std::vector<Op> ops{{"stat d/g", [](Fs &f) { struct stat st; return squash_stat(&f.fs, "d/g", &st) == -1; }}, {"lstat lnk/g", [](Fs &f) { struct stat st; return squash_lstat(&f.fs, "lnk/g", &st) == -1; }}, {"open d/g", [](Fs &f) { int fd = squash_open(&f.fs, "d/g"); int e = errno; if (fd >= 0) squash_close(fd); errno = e; return fd == -1; }}, {"opendir d", [](Fs &f) { auto *d = squash_opendir(&f.fs, "d"); int e = errno; if (d) squash_closedir(d); errno = e; return !d; }},
        {"read d/g", [](Fs &f) { int e0 = errno, fd = squash_open(&f.fs, "d/g"); if (fd < 0) return false; char b[9000]; errno = e0; ssize_t n = squash_read(fd, b, 9000); int e = errno; squash_close(fd); errno = e; return n == -1; }}, {"readlink lnk", [](Fs &f) { char b[80]; return squash_readlink(&f.fs, "lnk", b, 80) == -1; }}, {"scandir d", [](Fs &f) { DE **l; int n = squash_scandir(&f.fs, "d", &l, 0, 0); int e = errno; if (n >= 0) { for (int i = 0; i < n; i++) vf_free(l[i]); vf_free(l); } errno = e; return n == -1; }},
        {"extract d/g", [](Fs &f) { auto p = squash_extract(&f.fs, "d/g", "e"); int e = errno; if (p) squash_extract_clear_cache(); errno = e; return !p; }}, {"readdir d", [](Fs &f) { int e0 = errno; auto *d = squash_opendir(&f.fs, "d"); if (!d) return false; errno = e0; int n = 0; while (squash_readdir(d)) n++; int e = errno; squash_closedir(d); errno = e; return n != 2; }}};
    static ImageP good; auto tree = [] { return dir("", {dir("d", {reg("g", 9000, "CU", true, 3), text("h", "h")}), lnk("lnk", "d")}); };
    std::vector<int> E2{0, ENOENT, EBADF, EINVAL, ENOTDIR, ELOOP, 77};
    for (size_t o = 0; o < ops.size(); o++) for (int k = 0; k < 60; k++) ctx.run(vfmt("%s with allocation %d failing, after each of %zu errnos", ops[o].name, k, E2.size()), [&] { if (!good) good = build(tree()); int b = -1; for (int e0 : E2) { Fs fs(good); vfa.count = 0; vfa.failed = false; vfa.fail_at = k; errno = e0; bool f = ops[o].fail(fs); int e = errno; vfa.fail_at = -1; ctx.transitions++; if (!vfa.failed || !f) { if (b > 0) vfail("fails or succeeds depending on the earlier errno"); b = -2; continue; } REQ(e, "errno 0"); if (b == -2) vfail("fails or succeeds depending on the earlier errno"); if (b < 0) b = e; REQ(e == b, "errno %s after %s, %s otherwise", errname(e).c_str(), errname(e0).c_str(), errname(b).c_str()); } ctx.states++; if (b > 0) { ctx.traces++; ctx.counts["allocation failures"]++; } });
    // every object reaches from one metadata block into the next, so that the damage strikes in the middle of it
    auto edges = [] { auto g = reg("g", 9000, "CU", true, 3), d = dir("d", {g, text("h", "h")}), l = lnk("lnk", "./././././././././././././././d"); g->inode_at = 8192 - 20; g->ext = true; d->inode_at = 8192 - 20; d->list_at = 8192 - 15; l->inode_at = 8192 - 40; Opt o; o.extra_frags = 511; auto r = dir("", {d, l}); for (int i = 0; i < 60; i++) r->add(lnk(vfmt("z%02d", i), "zzzzzzzzzzzzzzzzzzzzzzzzz")); r->inode_at = 100; r->list_at = 100; return build(r, o); };
    for (size_t o = 0; o < ops.size(); o++) for (int t = 0; t < 2; t++) for (int k = 0; k < (t ? 24 : 8); k++) ctx.run(vfmt("%s with block %d damaged%s, after each of %zu errnos", ops[o].name, k, t ? ", objects at the edges of blocks" : "", E2.size()), [&] { auto im2 = t ? edges() : build(tree()); if (k >= (int)im2->cblocks.size()) return; auto &cb = im2->cblocks[k]; memset(im2->mem + cb.pos, 0xff, cb.size); int b = -1; for (int e0 : E2) { Fs fs(im2); errno = e0; bool f = ops[o].fail(fs); int e = errno; ctx.transitions++; if (!f) { REQ(b < 0, "fails or succeeds depending on the earlier errno"); b = -2; continue; } REQ(e, "errno 0"); REQ(b != -2, "fails or succeeds depending on the earlier errno"); if (b < 0) b = e; REQ(e == b, "errno %s after %s, %s otherwise", errname(e).c_str(), errname(e0).c_str(), errname(b).c_str()); } ctx.states++; if (b > 0) { ctx.traces++; ctx.counts["damaged blocks"]++; } });
}
