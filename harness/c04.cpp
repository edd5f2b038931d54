// C04: every sequence of opens, closes and real descriptor operations up to a depth against a model of the descriptor table,
// probing every number after every step.
#include "vf.hpp"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
using namespace sq;
static ImageP im; static int SRC = -1;     // a real descriptor for the dups
// the standard descriptors of the mask are closed while this lives, so that the library is given their numbers
struct Std { int mask, saved[3]; explicit Std(int m) : mask(m) { fflush(nullptr); for (int i = 0; i < 3; i++) if (m >> i & 1) { saved[i] = fcntl(i, F_DUPFD, 200); close(i); } } ~Std() { for (int i = 0; i < 3; i++) if (mask >> i & 1) { dup2(saved[i], i); close(saved[i]); } } };
static void mk() { if (im) return; auto r = dir("", {text("a", "content of a"), text("b", "b!"), dir("d", {text("x1", ""), text("x2", "")}), dir("e", {text("z", "")}), lnk("loop", "loop")}); im = build(r); }
struct Ent { int fd; char what; SQUASH_DIR *dir = nullptr; };     // what: a b file; D squash_open on d; d e directory stream; R real
enum { OPEN_A, OPEN_B, OPEN_DIRFD, OPENDIR_D, OPENDIR_E, FAIL_OPEN, FAIL_OPENDIR, NO_DESC, REAL, REAL20, CLOSE0 };   // CLOSE0+k: close the k-th open object
static const char *NAMES[] = {"open a", "open b", "open directory d", "opendir d", "opendir e", "failing opens", "opendir on a file", "open without free descriptor", "real dup", "20 real dups"};
struct World {
    Fs fs; std::vector<Ent> open; std::set<int> before; std::vector<int> reals; std::set<void *> dead;
    World() : fs(im) { before = vf_open_fds(); }
    bool taken(int n) { for (auto &e : open) if (e.fd == n) return true; return false; }
    void fresh(int fd, const char *w) {
        REQ(fd >= 0, "%s failed: %s", w, errname(errno).c_str()); REQ(!taken(fd), "%s returned %d, which is open already", w, fd);
        REQ(!before.count(fd), "%s returned %d, a real descriptor", w, fd); for (int r : reals) REQ(r != fd, "%s returned %d, a real descriptor", w, fd);
        REQ(fcntl(fd, F_GETFD) != -1, "%s returned %d, which is no descriptor of the process", w, fd);
    }
    void file(const char *p, char w) { int fd = squash_open(&fs.fs, p); fresh(fd, p); open.push_back({fd, w}); }
    void odir(const char *p, char w) { SQUASH_DIR *d = squash_opendir(&fs.fs, p); REQ(d, "opendir failed: %s", errname(errno).c_str()); dead.erase(d); int fd = squash_dirfd(d); fresh(fd, p); open.push_back({fd, w, d}); }
    void step(int op) {
        ctx.transitions++; auto f0 = vf_open_fds();
        switch (op) {
        case OPEN_A: file("/a", 'a'); break;
        case OPEN_B: file("b", 'b'); break;
        case OPEN_DIRFD: file("/d", 'D'); break;
        case OPENDIR_D: odir("/d", 'd'); break;
        case OPENDIR_E: odir("/e/", 'e'); break;
        case FAIL_OPEN: for (const char *p : {"/nope", "/d/nope", "/loop", "/.."}) { errno = 0; REQ(squash_open(&fs.fs, p) == -1 && errno, "open %s did not fail", p); } REQ(f0 == vf_open_fds(), "a failing open changed the set of descriptors"); break;
        case FAIL_OPENDIR: for (const char *p : {"/a", "/nope", "/d/x1", "/loop"}) { errno = 0; REQ(!squash_opendir(&fs.fs, p) && errno, "opendir %s did not fail", p); } { struct SQUASH_DIRENT **l = (struct SQUASH_DIRENT **)8; REQ(squash_scandir(&fs.fs, "/a", &l, 0, 0) == -1, "scandir of a file"); REQ(squash_scandir(&fs.fs, "/nope", &l, 0, 0) == -1, "scandir of nothing"); } REQ(f0 == vf_open_fds(), "a failing opendir changed the set of descriptors"); break;
        case NO_DESC: { vfio.count = 0; vfio.fail_at = 0; vfio.failed = false; errno = 0; int fd = squash_open(&fs.fs, "/a"); vfio.fail_at = -1; if (vfio.failed) REQ(fd == -1 && errno == EMFILE, "open without descriptors returned %d, %s", fd, errname(errno).c_str()); else if (fd >= 0) squash_close(fd);
            vfio.count = 0; vfio.fail_at = 0; vfio.failed = false; errno = 0; SQUASH_DIR *d = squash_opendir(&fs.fs, "/d"); vfio.fail_at = -1; if (vfio.failed) REQ(!d && errno == EMFILE, "opendir without descriptors: %s", errname(errno).c_str()); else if (d) squash_closedir(d); REQ(f0 == vf_open_fds(), "descriptor left behind"); break; }
        case REAL: { int fd = dup(SRC); REQ(!taken(fd), "the process was given the virtual descriptor %d for a real file", fd); reals.push_back(fd); break; }
        case REAL20: for (int i = 0; i < 20; i++) { int fd = dup(SRC); REQ(!taken(fd), "the process was given the virtual descriptor %d for a real file", fd); reals.push_back(fd); } break;
        default: {
            size_t k = op - CLOSE0; if (k < open.size()) { Ent e = open[k]; if (e.dir) { dead.insert(e.dir); REQ(!squash_closedir(e.dir), "closedir failed: %s", errname(errno).c_str()); } else REQ(!squash_close(e.fd), "close failed: %s", errname(errno).c_str()); open.erase(open.begin() + k); REQ(fcntl(e.fd, F_GETFD) == -1, "number %d not given back", e.fd); }
            else { size_t j = k - open.size(); if (j < reals.size()) { close(reals[j]); reals.erase(reals.begin() + j); } }
        } }
        probe();
    }
    void probe() {
        std::vector<int> nums; for (int i = -3; i < 140; i++) nums.push_back(i); for (int n : {255, 256, 1000, 4096, 65535, 100000, 1 << 20, INT_MAX, INT_MAX - 1, INT_MIN, INT_MIN + 1}) nums.push_back(n);
        for (int n : nums) {
            const Ent *e = nullptr; for (auto &x : open) if (x.fd == n) e = &x;
            bool v = SQUASH_VALID_VFD(n); REQ(v == (e != nullptr), "number %d is %sreported as an open virtual descriptor", n, v ? "" : "not ");
            struct stat st; memset(&st, 0x33, sizeof st); char b[32]; memset(b, 0x44, sizeof b);
            if (!e) {
                bool was = fcntl(n, F_GETFD) != -1; const char *w = nullptr; off_t p0 = was ? lseek(n, 0, SEEK_CUR) : 0;
                errno = 0; if (squash_read(n, b, 4) != -1 || errno != EBADF) w = "read";
                errno = 0; if (!w && (squash_lseek(n, 0, SQUASH_SEEK_SET) != -1 || errno != EBADF)) w = "lseek";
                errno = 0; if (!w && (squash_fstat(n, &st) != -1 || errno != EBADF)) w = "fstat";
                errno = 0; if (!w && (squash_close(n) != -1 || errno != EBADF)) w = "close";
                REQ(!w, "%s on %d, which is no open virtual descriptor, did not fail with EBADF (%s)", w, n, errname(errno).c_str());
                REQ(b[0] == 0x44, "a failing read wrote into the buffer");
                REQ((fcntl(n, F_GETFD) != -1) == was, "a failing call on %d touched the real descriptor", n);
            } else {
                const char *c = e->what == 'a' ? "content of a" : "b!"; off_t sz = strlen(c);
                REQ(!squash_fstat(n, &st), "fstat on %d failed: %s", n, errname(errno).c_str());
                if (e->what == 'a' || e->what == 'b') {
                    REQ(S_ISREG(st.st_mode) && st.st_size == sz, "descriptor %d is not on file %c any more", n, e->what);
                    REQ(squash_lseek(n, 0, SQUASH_SEEK_SET) == 0 && squash_read(n, b, 31) == sz && !memcmp(b, c, sz), "descriptor %d does not read file %c", n, e->what);
                } else REQ(S_ISDIR(st.st_mode), "descriptor %d is not on a directory any more", n);
                if (e->dir) {
                    REQ(squash_dirfd(e->dir) == n, "dirfd changed"); struct squash_file *f = squash_find_entry(e->dir); REQ(f && f->fd == n, "the stream of %d is not found", n);
                    squash_rewinddir(e->dir); std::string l; while (auto *de = squash_readdir(e->dir)) l += de->d_name; REQ(l == (e->what == 'd' ? "x1x2" : "z"), "stream of %d lists '%s'", n, l.c_str());
                }
            }
        }
        for (int r : reals) REQ(fcntl(r, F_GETFD) != -1, "real descriptor %d was closed", r);
        for (int r : before) REQ(fcntl(r, F_GETFD) != -1, "real descriptor %d was closed", r);
        int x; REQ(!squash_find_entry(&x), "a foreign pointer is taken for a stream"); for (void *p : dead) REQ(!squash_find_entry(p), "a closed stream is still found");
    }
    void finish() {
        for (int r : reals) close(r); reals.clear();
        while (open.size()) step(CLOSE0 + (open.size() & 1 ? open.size() - 1 : 0));
        REQ(vf_open_fds() == before, "descriptors left behind");
    }
};
static std::string str(const std::vector<int> &s) { std::string r; for (int o : s) { r += r.empty() ? "" : ", "; r += o < CLOSE0 ? std::string(NAMES[o]) : vfmt("close object %d", o - CLOSE0); } return r; }
static void run(const std::vector<int> &s, bool leak) {
    long l0 = 0; ctx.note("%s", str(s).c_str());
    for (int k = 0; k < (leak ? 2 : 1); k++) { std::unique_ptr<World> w(new World); w->probe(); for (int o : s) w->step(o); w->finish(); w.reset(); if (k == 0) l0 = vfa.live; else REQ(vfa.live == l0, "%ld blocks of memory left behind", vfa.live - l0); }
    ctx.traces++;
}
// number of objects open after a prefix (virtual + real), -1: a close of nothing
static void rec(std::vector<int> &s, int nopen, int depth, const std::vector<int> &ops, const std::function<void()> &f) {
    f(); if (!depth) return;
    for (int o : ops) { int n = nopen; if (o <= OPENDIR_E || o == REAL) n++; else if (o == REAL20) n += 20; s.push_back(o); rec(s, n, depth - 1, ops, f); s.pop_back(); }
    for (int k = 0; k < std::min(nopen, 4); k++) { s.push_back(CLOSE0 + k); rec(s, nopen - 1, depth - 1, ops, f); s.pop_back(); }
}
static void resettable() { squash_start(); vf_forget_live(); }
void vf_enumerate() {
    mk(); vf_start_library(); SRC = fcntl(1, F_DUPFD, 190); std::vector<int> all{OPEN_A, OPEN_B, OPEN_DIRFD, OPENDIR_D, OPENDIR_E, FAIL_OPEN, FAIL_OPENDIR, NO_DESC, REAL, REAL20}, few{OPEN_A, OPENDIR_D, REAL, OPEN_B, REAL20}; 
    auto go = [&](const std::vector<int> &ops, int pre, int post, const char *what) {
        std::vector<int> s; std::vector<std::pair<std::vector<int>, int>> prefixes;
        std::function<void(int, int)> gen = [&](int depth, int nopen) { if ((int)s.size() == pre) { prefixes.push_back({s, nopen}); return; } for (int o : ops) { int n = nopen + (o <= OPENDIR_E || o == REAL ? 1 : o == REAL20 ? 20 : 0); s.push_back(o); gen(depth, n); s.pop_back(); } for (int k = 0; k < std::min(nopen, 4); k++) { s.push_back(CLOSE0 + k); gen(depth, nopen - 1); s.pop_back(); } };
        gen(pre, 0);
        for (auto &p : prefixes) ctx.run(vfmt("%s: all continuations by up to %d of (%s)", what, post, str(p.first).c_str()), [&] {
            std::vector<int> q = p.first; rec(q, p.second, post, ops, [&] { resettable(); run(q, true); }); ctx.states++; ctx.counts[what]++; if (ctx.states == 7) ctx.sample(ctx.desc);
        });
    };
    go(all, 2, ctx.thorough() ? 3 : 1, "all operations");
    go(few, 3, ctx.thorough() ? 4 : 2, "opens and closes");
    // programs without some of the standard descriptors
    for (int m = 1; m < 8; m++) for (int a = 0; a < 10; a++) ctx.run(vfmt("standard descriptors closed: %s%s%s; %s, then every sequence of up to %d operations", m & 1 ? "0 " : "", m & 2 ? "1 " : "", m & 4 ? "2" : "", NAMES[a], ctx.thorough() ? 3 : 2), [&] {
        Std z(m); std::vector<int> q{a}; rec(q, a <= OPENDIR_E || a == REAL ? 1 : a == REAL20 ? 20 : 0, ctx.thorough() ? 3 : 2, all, [&] { resettable(); run(q, true); }); ctx.states++; ctx.counts["without standard descriptors"]++; });
    // many descriptors, closed in several orders; the table grows at every size
    for (int n : {1, 2, 5, 9, 10, 11, 39, 40, 41, 60, 100}) for (int ord = 0; ord < 5; ord++) ctx.run(vfmt("%d objects opened, closed in order %d", n, ord), [&] {
        resettable(); long l0 = 0; for (int rep = 0; rep < 2; rep++) { std::unique_ptr<World> w(new World); static const int k[] = {OPEN_A, OPENDIR_D, OPEN_B, REAL, OPENDIR_E}; for (int i = 0; i < n; i++) w->step(k[i % 5]); int guard = 0;
        while (w->open.size() && guard++ < 1000) { size_t m = w->open.size(); w->step(CLOSE0 + (ord == 0 ? 0 : ord == 1 ? m - 1 : ord == 2 ? m / 2 : ord == 3 ? (m * 7919 + guard) % m : (guard & 1 ? 0 : m - 1))); if (ord == 3 && guard % 3 == 0 && guard < 60) w->step(OPENDIR_E); } w->finish(); w.reset(); if (!rep) l0 = vfa.live; else REQ(vfa.live == l0, "%ld blocks of memory left behind", vfa.live - l0); } ctx.traces++; ctx.counts["many descriptors"]++;
    });
}
