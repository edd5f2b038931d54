// C27: several processes with one temporary directory. Every interleaving, at the system calls that touch the directory and up to a
// preemption bound, of real processes that extract files and create objects through the layer, unrelated or forked from one another.
#include "sample.hpp"
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <ftw.h>
using namespace sq;
static std::string S, T; static ImageP im; static NodeP root;
enum { MAXP = 3 };
enum { FRESH, RUNNING, GATE, DONE };
struct Shared { sem_t ctl; pid_t driver; struct { sem_t go; volatile int state; char op[200]; } p[MAXP]; char fail[800]; };
static Shared *sh; static int me = -1; static bool gating, running_handlers; static std::vector<void (*)()> handlers; static std::vector<int> randseq; static size_t randpos;
[[noreturn]] static void finish(int code) { if (me >= 0) { sh->p[me].state = DONE; sem_post(&sh->ctl); } _exit(code); }
[[noreturn]] static void die(const std::string &m) { if (!sh->fail[0]) snprintf(sh->fail, sizeof sh->fail, "process %d: %s", me, m.c_str()); finish(1); }
static void gate(const std::string &op) { if (!gating) return; snprintf(sh->p[me].op, sizeof sh->p[me].op, "%s", op.c_str()); sh->p[me].state = GATE; sem_post(&sh->ctl); for (;;) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 2; if (!sem_timedwait(&sh->p[me].go, &ts)) break; if (errno == ETIMEDOUT && kill(sh->driver, 0)) _exit(3); } sh->p[me].state = RUNNING; } // (the driver may have been stopped)
static std::string abspath(const char *p) { if (p[0] == '/') return p; char b[PATH_MAX]; return ::getcwd(b, sizeof b) ? std::string(b) + "/" + p : p; }
static std::string canon(const char *p) { std::string a = abspath(p); size_t i = a.rfind('/'); char b[PATH_MAX]; return ::realpath(a.substr(0, i ? i : 1).c_str(), b) ? std::string(b) + "/" + a.substr(i + 1) : a; }
static bool inT(const std::string &c) { return c.compare(0, T.size() + 1, T + "/") == 0; }
static bool direct(const std::string &c) { return inT(c) && c.find('/', T.size() + 1) == std::string::npos; }
static void looks(const char *what, const char *p) { std::string c = canon(p); if (direct(c)) gate(vfmt("%s %s", what, c.c_str() + T.size())); }
static void changes(const char *what, const char *p) { std::string c = canon(p); if (!inT(c)) die(vfmt("%s(%s) outside the temporary directory", what, c.c_str())); if (direct(c)) gate(vfmt("%s %s", what, c.c_str() + T.size())); }
static void hook(const char *what, const char *p) { if (p) changes(what, p); else gate(what); }
extern "C" {
int vf_stat(const char *p, struct stat *b) { looks("stat", p); return ::stat(p, b); }
int vf_lstat(const char *p, struct stat *b) { looks("lstat", p); return ::lstat(p, b); }
int vf_access(const char *p, int m) { looks("access", p); return ::access(p, m); }
int vf_mkdir(const char *p, mode_t m) { changes("mkdir", p); return ::mkdir(p, m); }
int vf_open(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } if ((fl & (O_CREAT | O_TRUNC)) || (fl & O_ACCMODE) != O_RDONLY) changes("open", p); return ::open(p, fl, m); }
int vf_mkstemp(char *t) { changes("mkstemp", t); return ::mkstemp(t); }
char *vf_mkdtemp(char *t) { changes("mkdtemp", t); return ::mkdtemp(t); }
int vf_rmdir(const char *p) { changes("rmdir", p); return ::rmdir(p); }
int vf_unlink(const char *p) { changes("unlink", p); return ::unlink(p); }
int vf_remove(const char *p) { changes("remove", p); return ::remove(p); }
int vf_rename(const char *a, const char *b) { changes("rename", a); changes("rename", b); return ::rename(a, b); }
int vf_atexit(void (*f)(void)) { handlers.push_back(f); return 0; }
void vf_srand(unsigned) {}
int vf_rand(void) { return randpos < randseq.size() ? randseq[randpos++] : 1000 + int(randpos++); }
}
static std::string rdfile(const std::string &p) { FILE *f = ::fopen(p.c_str(), "rb"); if (!f) return "!" + errname(errno); std::string s; char b[4096]; size_t n; while ((n = ::fread(b, 1, sizeof b, f)) > 0) s.append(b, n); ::fclose(f); return s; }
// ---- what a process has and does
struct Proc { sqfs *fs; std::map<std::string, std::string> files; std::map<std::string, std::string> made; };
static sqfs theFs;
static std::string want(const std::string &n) { return root->kids[0]->find(n)->data; }
static void check(Proc &p) { for (auto &f : p.files) { std::string s = rdfile(f.second); if (s != want(f.first)) die(vfmt("the file %s extracted from %s %s", f.second.c_str() + T.size(), f.first.c_str(), s[0] == '!' ? ("cannot be read any more: " + s.substr(1)).c_str() : vfmt("holds %zu other bytes", s.size()).c_str())); }
    for (auto &f : p.made) { if (f.second == "/") { struct stat st; if (enclose_io_stat(f.first.c_str(), &st) || !S_ISDIR(st.st_mode)) die(vfmt("the created directory %s is gone", f.first.c_str())); continue; } int fd = enclose_io_open(2, f.first.c_str(), O_RDONLY); if (fd < 0) die(vfmt("the created file %s is gone", f.first.c_str())); std::string s = slurp_fd(fd, enclose_io_read); enclose_io_close(fd); if (s != f.second) die(vfmt("the created file %s holds '%s'", f.first.c_str(), s.c_str())); } }
static void extract(Proc &p, const char *n) { check(p); auto q = squash_extract(p.fs, (std::string(MEMFS "/") + n).c_str(), "so"); if (!q) die(vfmt("extraction of %s fails: %s", n, errname(errno).c_str())); std::string a = canon(q); if (!direct(a)) die(vfmt("%s is not in the temporary directory", a.c_str())); auto i = p.files.find(n); if (i != p.files.end() && i->second != a) die("the second extraction gives another file"); for (auto &f : p.files) if (f.first != n && f.second == a) die("two files share one copy"); p.files[n] = a; check(p); }
typedef std::function<void(Proc &)> Op;
static Op X(const char *n) { return [n](Proc &p) { extract(p, n); }; }
static void clear(Proc &p) { check(p); squash_extract_clear_cache(); for (auto &f : p.files) { struct stat st; if (f.second[0] && !::stat(f.second.c_str(), &st) && gating == false) die("clearing the cache leaves a file"); } p.files.clear(); check(p); }
static void look(Proc &p) { gate("look"); check(p); }
static void mkd(Proc &p) { check(p); if (enclose_io_mkdir(MEMFS "/n", 0755)) die("mkdir: " + errname(errno)); p.made[MEMFS "/n"] = "/"; check(p); }
static void mkf(Proc &p) { check(p); int fd = enclose_io_open(3, MEMFS "/w", O_CREAT | O_EXCL | O_WRONLY, 0644); if (fd < 0) die("creating open: " + errname(errno)); std::string m = vfmt("of process %d", me); if (::write(fd, m.data(), m.size()) < 0) die("write"); enclose_io_close(fd); p.made[MEMFS "/w"] = m; check(p); }
static void away(Proc &p) { if (::chdir("/")) die("chdir"); check(p); }
struct Program { const char *name; std::vector<Op> ops; };
static void start(Proc &p, bool relative) { if (::chdir(S.c_str())) die("chdir"); if (relative) setenv("TMPDIR", "t", 1); if (squash_start()) die("squash_start"); memset(&theFs, 0, sizeof theFs); if (sqfs_init(&theFs, im->base(), im->off())) die("image refused"); p.fs = &theFs; enclose_io_fs = &theFs; }
[[noreturn]] static void body(int k, Proc &p, const Program &g, bool startit, bool relative) {
    me = k; gating = true; gate("begin"); if (startit) start(p, relative); for (auto &o : g.ops) o(p); gate("end"); check(p); auto h = handlers; handlers.clear(); for (size_t i = h.size(); i--;) h[i](); gating = false;
    for (auto &f : p.files) { struct stat st; if (!::lstat(f.second.c_str(), &st) && std::string(rdfile(f.second)) == want(f.first) && false) die("left"); } finish(0);
}
struct Scene { std::vector<Program> progs; std::vector<Op> prelude; bool forked = false, relative = false, twice = false; std::vector<int> rnd; };
static std::set<std::string> listing() { std::set<std::string> s; ::DIR *x = ::opendir(T.c_str()); while (auto *e = ::readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) s.insert(e->d_name); ::closedir(x); return s; }
static std::string clean() { for (auto &n : listing()) { std::string p = T + "/" + n; struct stat st; if (!::lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) vf_rmtree(p); else ::unlink(p.c_str()); } return ""; }
struct Choice { std::vector<int> opts; size_t i; };
static void reap() { for (int i = 0; i < 400; i++) { int st; pid_t w = waitpid(-1, &st, WNOHANG); if (w < 0) return; if (w == 0) usleep(500); } }
static void killall(pid_t a) { kill(-a, SIGKILL); while (waitpid(-1, nullptr, 0) > 0) {} }
// one execution following and extending the choices; returns a failure or ""
static std::string execute(const Scene &sc, std::vector<Choice> &ch, int bound, std::string &trace) {
    clean(); int n = sc.progs.size(); memset(sh->fail, 0, sizeof sh->fail); sh->driver = getpid(); sem_init(&sh->ctl, 1, 0); for (int i = 0; i < n; i++) { sem_init(&sh->p[i].go, 1, 0); sh->p[i].state = FRESH; }
    pid_t a = fork(); if (a < 0) vfail("fork");
    if (!a) { setpgid(0, 0); randseq = sc.rnd; randpos = 0; handlers.clear(); vf_io_hook = hook; Proc p; p.fs = nullptr; alarm(120);
        if (sc.forked) { start(p, sc.relative); if (sc.twice) squash_start(); for (auto &o : sc.prelude) o(p); }
        for (int k = 1; k < n; k++) { pid_t b = fork(); if (b < 0) die("fork"); if (!b) { p.files.clear(); body(k, p, sc.progs[k], !sc.forked, sc.relative); } } // what the parent extracted ends with the parent
        body(0, p, sc.progs[0], !sc.forked, sc.relative); }
    setpgid(a, a); int pending = n, cur = -1, pre = 0; size_t step = 0; std::string fail; trace.clear();
    for (;;) {
        while (pending) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 200000000; if (ts.tv_nsec >= 1000000000) ts.tv_sec++, ts.tv_nsec -= 1000000000; if (!sem_timedwait(&sh->ctl, &ts)) { pending--; continue; } if (errno == EINTR) continue; static int waited; int st; pid_t w = waitpid(-1, &st, WNOHANG); if (w > 0 && (!WIFEXITED(st) || (WEXITSTATUS(st) && !sh->fail[0]))) { killall(a); return vfmt("a process ended with status %x after %s", st, trace.c_str()); } if (++waited > 300) { waited = 0; killall(a); return "no progress after " + trace; } }
        if (sh->fail[0]) { fail = sh->fail; break; }
        std::vector<int> en; if (cur >= 0 && sh->p[cur].state == GATE) en.push_back(cur); bool can = !en.empty(); for (int i = 0; i < n; i++) if (i != cur && sh->p[i].state == GATE) en.push_back(i); if (en.empty()) break;
        if (can && pre >= bound) en.resize(1);
        if (step == ch.size()) ch.push_back({en, 0}); else if (ch[step].opts != en) { killall(a); return "VF: executions are not repeatable at " + trace; }
        int next = ch[step].opts[ch[step].i]; if (can && next != cur) pre++; step++; trace += vfmt("%d:%s; ", next, sh->p[next].op); cur = next; ctx.transitions++; sh->p[next].state = RUNNING; pending = 1; sem_post(&sh->p[next].go);
    }
    if (!fail.empty()) { killall(a); return fail; } reap();
    auto l = listing(); if (!l.empty()) { std::string s; for (auto &x : l) s += x + " "; return "all processes have ended, but the temporary directory still holds " + s; }
    return "";
}
static void explore(const Scene &sc, int bound) {
    std::vector<Choice> ch; std::string trace; long ex = 0;
    for (;;) { ctx.note("execution %ld", ex); std::string f = execute(sc, ch, bound, trace); ex++; ctx.states++; if (!f.empty()) vfail(f + " [schedule: " + trace + "]"); while (!ch.empty() && ch.back().i + 1 >= ch.back().opts.size()) ch.pop_back(); if (ch.empty()) break; ch.back().i++; }
    ctx.traces += ex; ctx.counts["schedules"] += ex;
}
void vf_enumerate() {
    S = getenv("VF_SCRATCH"); { char b[PATH_MAX]; if (::realpath(S.c_str(), b)) S = b; } T = S + "/t"; ::mkdir(T.c_str(), 0755); setenv("TMPDIR", T.c_str(), 1); prctl(PR_SET_CHILD_SUBREAPER, 1);
    root = ::sq::dir("", {::sq::dir("__enclose_io_memfs__", {text("a", "content of a"), text("b", std::string(20000, 'b')), text("c", "")})}); im = build(root);
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); bool Th = ctx.thorough(); int bound = Th ? 3 : 2;
    std::vector<Program> E{{"nothing", {}}, {"extract a", {X("a"), look}}, {"extract b", {X("b"), look}}, {"extract a, b", {X("a"), X("b"), look}}, {"extract a, clear, extract a", {X("a"), clear, X("a"), look}}, {"clear", {clear}}, {"extract a twice", {X("a"), look, X("a")}}, {"extract a, leave, extract c", {X("a"), away, X("c"), look}}, {"extract a, b, c", {X("a"), X("b"), X("c"), look}}}, L{{"mkdir", {mkd, look}}, {"create", {mkf, look}}, {"mkdir, create", {mkd, mkf, look}}, {"extract a, create", {X("a"), mkf, look}}};
    std::vector<std::vector<int>> R{{}, {5, 6, 7, 8}, {5, 5, 6, 6, 7, 7}};
    auto pr = [&](const Program &g) { return std::string(g.name); };
    auto run = [&](const std::string &d, const Scene &sc, int b) { ctx.run(d + vfmt(", %d preemptions", b), [&] { explore(sc, b); }); };
    for (size_t r = 0; r < R.size(); r++) {
        std::vector<Program> all = E; all.insert(all.end(), L.begin(), L.end());
        for (size_t i = 0; i < all.size(); i++) for (size_t j = i; j < all.size(); j++) { if (r == 2 && (i < 1 || j < 1)) continue; for (bool rel : {false, true}) { if (rel && r != 1) continue; Scene s; s.progs = {all[i], all[j]}; s.rnd = R[r]; s.relative = rel; run(vfmt("unrelated, numbers %zu%s: %s | %s", r, rel ? ", relative directory" : "", pr(all[i]).c_str(), pr(all[j]).c_str()), s, rel ? 1 : bound); } }
        struct Pre { const char *n; std::vector<Op> o; }; std::vector<Pre> pre{{"start", {}}, {"extract a", {X("a")}}, {"extract a, b", {X("a"), X("b")}}};
        for (auto &p : pre) for (size_t i = 0; i < all.size(); i++) for (size_t j = 0; j < all.size(); j++) for (bool rel : {false, true}) { if (rel && (r != 1 || i > j)) continue; if (r == 2 && p.o.size() != 1) continue; if (r == 0 && !Th && (i + j) % 2) continue; Scene s; s.forked = true; s.prelude = p.o; s.progs = {all[i], all[j]}; s.rnd = R[r]; s.relative = rel; s.twice = (i + j) % 3 == 0; run(vfmt("forked after %s, numbers %zu%s: %s | %s", p.n, r, rel ? ", relative directory" : "", pr(all[i]).c_str(), pr(all[j]).c_str()), s, rel ? 1 : p.o.empty() ? bound : bound - 1); }
    }
    for (bool f : {false, true}) for (size_t i = 0; i < E.size(); i++) for (size_t j = i; j < E.size(); j++) for (size_t k = j; k < E.size(); k++) { if (!Th && (i * 64 + j * 8 + k) % 4) continue; Scene s; s.progs = {E[i], E[j], E[k]}; s.forked = f; s.rnd = R[1]; if (f) s.prelude = {X("a")}; run(vfmt("three processes%s: %s | %s | %s", f ? " forked after extract a" : "", pr(E[i]).c_str(), pr(E[j]).c_str(), pr(E[k]).c_str()), s, Th ? 2 : 1); }
}
