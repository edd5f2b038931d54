#include "sched.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <zlib.h>
#include <unordered_map>
#include <sys/mman.h>
namespace sch {
typedef uint16_t C; const int T = 4;                 // thread 0 sets up and tears down
struct VC { C c[T]; VC() { memset(c, 0, sizeof c); } void join(const VC &o) { for (int i = 0; i < T; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Cell { C w; uint8_t wt, st; C r[T]; uint32_t pc; };     // st: 0 never allocated, 1 live, 2 freed
struct Chunk { Cell u; uint8_t split; }; struct Shadow { Chunk *k = nullptr; Cell *d = nullptr; size_t n = 0; void make(size_t m) { n = m; size_t c = (m >> 6) + 2; auto mm = [](size_t b) { return mmap(0, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }; k = (Chunk *)mm(c * sizeof(Chunk)); d = (Cell *)mm(c * 64 * sizeof(Cell)); } void clear(size_t m) { memset(k, 0, ((m >> 6) + 1) * sizeof(Chunk)); } };
// ---- memory of the library: its allocations and its global variables
extern "C" { extern char __start_vs_data[] __attribute__((weak)), __stop_vs_data[] __attribute__((weak)), __start_vs_bss[] __attribute__((weak)), __stop_vs_bss[] __attribute__((weak)); }
static const size_t ARENA = 24u << 20; static uint8_t *arena; static size_t used, peak; static Shadow ash;
struct Region { uint8_t *b; size_t n; Shadow sh; std::vector<uint8_t> snap; }; static std::vector<Region> regs;
struct Blk { size_t off, n; bool live; }; static std::vector<Blk> blks; static std::unordered_map<void *, size_t> blkof; static long live;
// ---- threads
enum St { NEW, RUN, WAIT, DONE };
struct Th { pthread_t t; sem_t *s = nullptr; VC v; St st = DONE; const void *want = nullptr; int mode = 0; std::string out; Prog body; char *lo = nullptr, *hi = nullptr; };
static Th th[T]; static sem_t *mains, *phase2; static int nth; static bool concurrent; static __thread int me = -1; static __thread char *mylo, *myhi;
struct Mx { int owner = -1, depth = 0, readers = 0; int rd[T] = {0}; VC v; bool dead = false; int type = 0; }; static std::unordered_map<const void *, Mx> mx; static std::unordered_map<const void *, VC> atom; static std::unordered_map<const void *, int> oncem;
static std::string err; static std::vector<uint32_t> errpc;
static bool logging; static std::vector<std::string> evlog; static void ev(const std::string &m);
static void report(const std::string &m, uint32_t a = 0, uint32_t b = 0) { if (err.empty()) { err = m; errpc = {a, b}; } }
static std::string where(uint32_t pc) { if (!pc) return ""; char e[300]; ssize_t n = readlink("/proc/self/exe", e, 299); if (n < 0) return ""; e[n] = 0; std::string s; FILE *f = popen(vfmt("addr2line -s -f -e %s 0x%x 2>/dev/null | tr '\\n' ' '", e, pc - 1).c_str(), "r"); if (!f) return ""; char b[200]; while (fgets(b, sizeof b, f)) s += b; pclose(f); return s; }
// ---- choices
struct Choice { std::vector<int> opt; size_t k; int cost0; };     // opt[0] is the thread that goes on, if it can
static std::vector<Choice> trail; static size_t at; static int bound; static int spent; static long npoints; static std::set<const void *> quiet;
static bool enabled(int t) { if (th[t].st == DONE || th[t].st == NEW) return th[t].st == NEW; if (!th[t].want) return true; Mx &m = mx[th[t].want]; if (th[t].mode == 2) return m.owner < 0; if (th[t].mode == 1) return m.owner < 0 && !m.readers; return m.owner < 0 || (m.owner == t && m.type == 1); }
static void ev(const std::string &m) { if (logging) evlog.push_back(vfmt("%d: ", me) + m); }
#define EV(...) do { if (logging) ev(vfmt(__VA_ARGS__)); } while (0)
static int current = -1; static bool dead;
// chooses the next thread; cur is at a scheduling point (or done)
static int choose(int cur) {
    std::vector<int> o; bool ce = cur >= 0 && th[cur].st != DONE && enabled(cur); if (ce) o.push_back(cur); for (int t = 1; t <= nth; t++) if (t != cur && enabled(t)) o.push_back(t);
    if (o.empty()) return -1; int r; npoints++;
    if (o.size() == 1) return o[0];
    if (ce && spent >= bound) return cur;          // no preemption left
    if (at < trail.size()) { if (trail[at].opt != o) { fprintf(stderr, "VF-FATAL schedule is not reproducible\n"); _exit(2); } r = o[trail[at].k]; }
    else { trail.push_back({o, 0, ce ? 1 : 0}); r = o[0]; }
    if (ce && r != cur) spent++; at++; return r;
}
static void park() { while (sem_wait(th[me].s)) ; }
static bool coarse, atpoint; bool real; static std::string fin_out;
static void sched(const void *want, int mode) {
    if (!concurrent || me <= 0 || (coarse && !atpoint && !want)) { return; }
    if (coarse && want && !atpoint) { Mx &m = mx[want]; if (m.owner >= 0 || m.readers) report("a lock is still held after an operation"); else return; }
    int e = errno; th[me].want = want; th[me].mode = mode; th[me].st = WAIT; int n = choose(me);
    if (n < 0) { dead = true; std::string s; for (int t = 1; t <= nth; t++) if (th[t].st != DONE) s += vfmt(" thread %d waits for a lock held by %d;", t, mx[th[t].want].owner); report("deadlock:" + s); sem_post(mains); for (;;) pause(); }
    if (n != me) { current = n; sem_post(th[n].s); park(); }
    th[me].st = RUN; th[me].want = nullptr; errno = e;
}
void point() { atpoint = true; sched(nullptr, 0); atpoint = false; }
void syscall_point() { sched(nullptr, 0); }
// ---- accesses
// One summary per 64 bytes while they all have the same history, a cell per byte otherwise.
static void touch(Cell &c, bool wr, bool ar, size_t n, C now, const VC &v, uint32_t pc) {
    if (ar && c.st != 1) { report(vfmt("%s of %zu bytes %s memory by thread %d", wr ? "write" : "read", n, c.st == 2 ? "in freed" : "outside of allocated", me), pc, c.pc); return; }
    if (c.wt != me && c.w > v.c[c.wt]) report(vfmt("data race: thread %d %s what thread %d wrote, unordered", me, wr ? "overwrites" : "reads", c.wt), pc, c.pc);
    if (wr) { for (int t = 0; t < T; t++) { if (t != me && c.r[t] > v.c[t]) report(vfmt("data race: thread %d overwrites what thread %d reads, unordered", me, t), pc, c.pc); c.r[t] = 0; } c.w = now; c.wt = me; c.pc = pc; }   // the reads happened before this write, which stands for them from now on
    else { c.r[me] = now; if (!c.w) c.pc = pc; }
}
template <class F> static void cells(Shadow &h, size_t o, size_t n, bool whole, F f) {      // whole: f leaves all cells equal
    while (n) { Chunk &k = h.k[o >> 6]; size_t i = o & 63, m = std::min<size_t>(64 - i, n); Cell *d = h.d + (o & ~63ul);
        if (m == 64 && !k.split) f(k.u);
        else { if (!k.split) { for (int j = 0; j < 64; j++) d[j] = k.u; k.split = 1; } for (size_t j = i; j < i + m; j++) f(d[j]); if (m == 64 && whole) { k.u = d[0]; k.split = 0; } }
        o += m; n -= m; } }
static inline Shadow *shadow(const void *p, size_t &o, bool &ar) { const uint8_t *q = (const uint8_t *)p; if (q >= arena && q < arena + ARENA) { ar = true; o = q - arena; return &ash; } ar = false; for (auto &r : regs) if (q >= r.b && q < r.b + r.n) { o = q - r.b; return &r.sh; } return nullptr; }
static void access(const void *p, size_t n, bool wr, void *ret) {
    if (me < 0 || !n || ((char *)p >= mylo && (char *)p < myhi)) return; bool ar; size_t o; Shadow *h = shadow(p, o, ar); if (!h) return; n = std::min(n, h->n - o);
    uint32_t pc = (uint32_t)(uintptr_t)ret; const VC &v = th[me].v; C now = v.c[me]; cells(*h, o, n, wr, [&](Cell &c) { touch(c, wr, ar, n, now, v, pc); });
}
void *alloc_(size_t n, void *ret) {
    if (!n) n = 1; size_t o = (used + 15) & ~15ul; if (o + n + 32 > ARENA) { fprintf(stderr, "VF-FATAL arena exhausted\n"); _exit(2); }
    uint8_t *p = arena + o; used = o + n + 16; if (used > peak) peak = used; { Cell nc; memset(&nc, 0, sizeof nc); nc.st = 1; if (me >= 0) { nc.w = th[me].v.c[me]; nc.wt = me; nc.pc = (uint32_t)(uintptr_t)ret; } cells(ash, o, n, true, [&](Cell &c) { c = nc; }); } memset(p, 0xBE, n); blkof[p] = blks.size(); blks.push_back({o, n, true}); live++; return p; }
static void free_(void *p, void *ret) { if (!p) return; auto it = blkof.find(p); if (it == blkof.end()) { report("free of something that was not allocated", (uint32_t)(uintptr_t)ret); return; } Blk &b = blks[it->second]; if (!b.live) { report("double free", (uint32_t)(uintptr_t)ret); return; } access(p, b.n, true, ret); b.live = false; live--; cells(ash, b.off, b.n, true, [](Cell &c) { c.st = 2; }); memset(p, 0xFE, b.n); }
void *alloc(size_t n) { return alloc_(n, __builtin_return_address(0)); }
// ---- locks
static void acquire(const void *m, int mode, bool tryit, int *ret) {
    Mx &x = mx[m]; if (x.dead) report("lock of a destroyed mutex", (uint32_t)(uintptr_t)__builtin_return_address(1)); 
    if (!quiet.count(m) || (x.owner >= 0 && x.owner != me)) sched(tryit ? nullptr : m, mode);
    Mx &y = mx[m]; bool free = mode == 2 ? y.owner < 0 : mode == 1 ? y.owner < 0 && !y.readers : y.owner < 0 || (y.owner == me && y.type == 1);
    if (!free) { if (tryit) { *ret = EBUSY; return; } if (me <= 0 || !concurrent) { report("a lock is taken that the same thread already holds, or that is held for ever"); fprintf(stderr, "VF-FATAL deadlock of a single thread\n"); _exit(2); } }
    if (mode == 2) { y.readers++; y.rd[me < 0 ? 0 : me]++; } else { y.owner = me < 0 ? 0 : me; y.depth++; }
    if (me >= 0) th[me].v.join(y.v); *ret = 0; EV("locks %p", m); }
static int release(const void *m) { EV("unlocks %p", m); Mx &x = mx[m]; int i = me < 0 ? 0 : me; if (x.owner == i) { if (--x.depth == 0) x.owner = -1; } else if (x.rd[i]) { x.rd[i]--; x.readers--; } else { report(vfmt("thread %d releases a lock it does not hold", i), (uint32_t)(uintptr_t)__builtin_return_address(1)); return EPERM; } if (me >= 0) { x.v.join(th[me].v); th[me].v.c[me]++; if (!th[me].v.c[me]) { fprintf(stderr, "VF-FATAL clock overflow\n"); _exit(2); } } return 0; }
// ---- descriptors
static std::map<int, int> vfd;           // number -> owner: 0 library, 1 application
static std::set<int> handed; 
static int lowest(int from) { while (vfd.count(from)) from++; return from; }
int app_dup() { point(); int f = lowest(3); vfd[f] = 1; return f; }
void app_close(int fd) { point(); auto it = vfd.find(fd); if (it == vfd.end() || it->second != 1) bad(vfmt("the application's real descriptor %d was closed behind its back", fd)); vfd.erase(it); }
void fill(int upto) { for (int i = 3; i < upto; i++) if (!vfd.count(i)) vfd[i] = 1; }
void opened(int fd) { EV("open returns %d", fd); auto it = vfd.find(fd); if (it == vfd.end() || it->second) bad(vfmt("open returned descriptor %d, which is %s", fd, it == vfd.end() ? "not open" : "a real one")); if (!handed.insert(fd).second) bad(vfmt("open returned descriptor %d, which is open already", fd)); }
void closing(int fd) { EV("is about to close %d", fd); handed.erase(fd); }
void own(int fd) { if (fd >= 0) vfd[fd] = 0; }
void bad(const std::string &m) { throw VFail{"", m}; }
long rand_value; static std::vector<void (*)()> exits; static long nexec;
// ---- running
static void *entry(void *p) {
    int t = (int)(long)p; me = t; pthread_attr_t a; void *s; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &s, &n); pthread_attr_destroy(&a); mylo = (char *)s; myhi = mylo + n;
    park(); th[t].st = RUN;
    try { th[t].out = th[t].body(); } catch (VFail &e) { report(e.msg); }
    th[t].st = DONE; if (t == 0) { sem_post(mains); return nullptr; }
    int nx = choose(-1); if (nx < 0) { bool all = true; for (int i = 1; i <= nth; i++) all = all && th[i].st == DONE; if (!all) { dead = true; report("deadlock: a finished thread left a lock locked"); } sem_post(mains); } else { current = nx; sem_post(th[nx].s); }
    return nullptr; }
static pthread_attr_t attr;
static void reset() {
    if (!arena) {
        arena = (uint8_t *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ash.make(ARENA);
        for (auto pr : {std::make_pair(__start_vs_data, __stop_vs_data), std::make_pair(__start_vs_bss, __stop_vs_bss)}) if (pr.first && pr.second > pr.first) { Region r; r.b = (uint8_t *)pr.first; r.n = pr.second - pr.first; r.sh.make(r.n); r.snap.assign(r.b, r.b + r.n); regs.push_back(r); }
        pthread_attr_init(&attr); pthread_attr_setstacksize(&attr, 512 << 10);
        cpu_set_t c; if (!sched_getaffinity(0, sizeof c, &c)) { int n = CPU_COUNT(&c), k = ctx.shard % n; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &c) && k-- == 0) { cpu_set_t d; CPU_ZERO(&d); CPU_SET(i, &d); sched_setaffinity(0, sizeof d, &d); break; } }
    }
    if (dead || !mains) { auto mk = [] { sem_t *x = new sem_t; sem_init(x, 0, 0); return x; }; mains = mk(); phase2 = mk(); for (auto &t : th) t.s = mk(); }     // threads of a deadlock keep theirs for ever
    ash.clear(used + 64); used = 64; blks.clear(); blkof.clear(); live = 0; for (auto &r : regs) { memcpy(r.b, r.snap.data(), r.n); r.sh.clear(r.n); }
    mx.clear(); atom.clear(); oncem.clear(); vfd.clear(); handed.clear(); err.clear(); errpc.clear(); exits.clear(); rand_value = 0; at = 0; spent = 0; dead = false; concurrent = false; for (auto &t : th) { t.v = VC(); t.out.clear(); t.want = nullptr; t.st = DONE; }
}
// one execution; the trail decides
static void execute(Spec &s, std::vector<Prog> ps, long *leak) {
    reset(); nexec++; logging = ctx.verbose; evlog.clear(); nth = ps.size(); int nf = 0;
    auto start = [&](int t) { if (pthread_create(&th[t].t, &attr, entry, (void *)(long)t)) { fprintf(stderr, "VF-FATAL no thread\n"); _exit(2); } };
    long left = 0;
    th[0].v.c[0] = 1; th[0].body = [&]() -> std::string { if (squash_start()) bad("squash_start failed"); s.setup(); sem_post(mains); while (sem_wait(phase2)) ; if (!err.empty()) return ""; s.finish(); for (auto e : exits) e(); return ""; };
    start(0); sem_post(th[0].s); while (sem_wait(mains)) ;
    if (th[0].st != DONE) {      // set up
        for (int t = 1; t <= nth; t++) { th[t].v = th[0].v; th[t].v.c[t] = 1; th[t].body = ps[t - 1]; th[t].st = NEW; } th[0].v.c[0]++;
        for (int t = 1; t <= nth; t++) start(t);
        quiet.clear(); if (s.quietmd) for (auto q : s.quietmd()) quiet.insert(q); concurrent = true; int f = choose(-1); current = f; sem_post(th[f].s); while (sem_wait(mains)) ; concurrent = false;
        if (dead) return;        // the threads stay parked for ever
        for (int t = 1; t <= nth; t++) { pthread_join(th[t].t, nullptr); th[0].v.join(th[t].v); }
        sem_post(phase2); while (sem_wait(mains)) ;
    }
    pthread_join(th[0].t, nullptr);
    if (err.empty()) { *leak = live; for (auto &f : vfd) if (!f.second) report(vfmt("descriptor %d is left open", f.first)); if (s.after) try { s.after(); } catch (VFail &e) { report(e.msg); } }
}
static std::string schedule() { std::string s; int c = -2; for (size_t i = 0; i < at && i < trail.size(); i++) { int t = trail[i].opt[trail[i].k]; s += vfmt("%d", t); } return s; }
static void fail() { if (ctx.verbose) for (auto &x : evlog) fprintf(stderr, "    %s\n", x.c_str()); std::string m = err; for (uint32_t p : errpc) { std::string w = where(p); if (w.size()) m += " [" + w + "]"; } vfail(m + "; choices of threads: " + schedule()); }
static long solo;
static std::vector<std::string> outcome(Spec &s) { std::vector<std::string> v; for (size_t i = 0; i < s.threads.size(); i++) v.push_back(th[i + 1].out); v.push_back(fin_out); return v; }
static bool advance() { trail.resize(at); std::vector<int> cost(trail.size() + 1, 0); for (size_t i = 0; i < trail.size(); i++) cost[i + 1] = cost[i] + (trail[i].cost0 && trail[i].k ? 1 : 0);
    while (!trail.empty()) { Choice &c = trail.back(); size_t i = trail.size() - 1; if (c.k + 1 < c.opt.size() && cost[i] + c.cost0 <= bound) { c.k++; return true; } trail.pop_back(); } return false; }
std::set<std::vector<std::string>> serial(Spec &s, std::function<std::string()> fin) {
    std::set<std::vector<std::string>> r; solo = 0; bound = 1 << 20; coarse = true; trail.clear(); auto f = s.finish; s.finish = [=] { fin_out = fin(); f(); };
    do { long l = 0; execute(s, s.threads, &l); if (!err.empty()) { err = "whole operations one after another: " + err; fail(); } r.insert(outcome(s)); solo = std::max(solo, l); } while (advance());
    coarse = false; s.finish = f; return r; }
Result explore_in(Spec &s, const std::set<std::vector<std::string>> &want, std::function<std::string()> fin) {
    Result R; trail.clear(); bound = s.bound; npoints = 0; auto f = s.finish; s.finish = [=] { fin_out = fin(); f(); };
    do { long leak = 0; execute(s, s.threads, &leak); R.schedules++; if (spent) R.preempted++; if (!(R.schedules & 255)) ctx.note("%ld schedules", R.schedules);
        if (err.empty()) { auto o = outcome(s); if (!want.count(o)) { std::string m = "no order of whole operations gives these results:"; for (size_t i = 0; i < o.size(); i++) m += (i + 1 < o.size() ? vfmt(" thread %zu: ", i + 1) : " afterwards: ") + o[i]; m += "; one order gives"; for (auto &x : *want.begin()) m += " " + x; report(m); } else if (leak > solo) report(vfmt("%ld allocations are left, %ld after whole operations", leak, solo)); }
        if (!err.empty()) { s.finish = f; fail(); } if (R.schedules >= s.cap) { R.complete = false; break; } } while (advance());
    s.finish = f; R.points = npoints; return R; }
std::vector<std::string> alone(Spec &s) {
    std::vector<std::string> r; solo = 0; bound = 0; quiet.clear(); for (size_t i = 0; i < s.threads.size(); i++) for (int k = 0; k < 2; k++) { trail.clear(); long l = 0; execute(s, {s.threads[i]}, &l); if (!err.empty()) { err = "alone, " + err; fail(); } if (k) { if (r.back() != th[1].out) vfail("not deterministic alone: " + r.back() + " / " + th[1].out); } else r.push_back(th[1].out); solo = std::max(solo, l); } return r; }
Result explore(Spec &s, const std::vector<std::string> &want) {
    Result R; trail.clear(); bound = s.bound; npoints = 0;
    for (;;) {
        long leak = 0; execute(s, s.threads, &leak); R.schedules++; if (spent) R.preempted++; if (!(R.schedules & 255)) ctx.note("%ld schedules", R.schedules);
        if (err.empty()) { for (size_t i = 0; i < want.size(); i++) if (th[i + 1].out != want[i]) { report(vfmt("thread %zu returned %s, alone it returns %s", i + 1, th[i + 1].out.c_str(), want[i].c_str())); break; } if (leak > solo) report(vfmt("%ld allocations are left, %ld when the threads run alone", leak, solo)); }
        if (!err.empty()) fail();
        // next schedule: last choice that has another option within the bound
        trail.resize(at); std::vector<int> cost(trail.size() + 1, 0); for (size_t i = 0; i < trail.size(); i++) cost[i + 1] = cost[i] + (trail[i].cost0 && trail[i].k ? 1 : 0);
        bool more = false; while (!trail.empty()) { Choice &c = trail.back(); size_t i = trail.size() - 1; if (c.k + 1 < c.opt.size() && cost[i] + c.cost0 <= bound) { c.k++; more = true; break; } trail.pop_back(); }
        if (!more) break; if (R.schedules >= s.cap) { R.complete = false; break; }
    }
    R.points = npoints; return R; }
}
using namespace sch;
#define RA __builtin_return_address(0)
extern "C" {
// ---- what the compiler inserts
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_vptr_update(void **p, void *) { access(p, 8, true, RA); } void __tsan_vptr_read(void **p) { access(p, 8, false, RA); }
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false, RA); } void __tsan_write##n(void *p) { access(p, n, true, RA); } void __tsan_unaligned_read##n(void *p) { access(p, n, false, RA); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, RA); } void __tsan_volatile_read##n(void *p) { access(p, n, false, RA); } void __tsan_volatile_write##n(void *p) { access(p, n, true, RA); } void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, RA); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, RA); } void __tsan_read_write##n(void *p) { access(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, RA); } void __tsan_write_range(void *p, size_t n) { access(p, n, true, RA); }
static void vsync(const volatile void *p) { sched(nullptr, 0); if (me < 0) return; VC &v = atom[(const void *)p]; th[me].v.join(v); v.join(th[me].v); th[me].v.c[me]++; }
#define AT(b, ty) ty __tsan_atomic##b##_load(const volatile ty *p, int) { vsync(p); return *p; } void __tsan_atomic##b##_store(volatile ty *p, ty v, int) { vsync(p); *p = v; } ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int) { vsync(p); ty o = *p; *p = v; return o; } \
 ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int) { vsync(p); ty o = *p; *p = o + v; return o; } ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int) { vsync(p); ty o = *p; *p = o - v; return o; } ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int) { vsync(p); ty o = *p; *p = o & v; return o; } ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int) { vsync(p); ty o = *p; *p = o | v; return o; } ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int) { vsync(p); ty o = *p; *p = o ^ v; return o; } ty __tsan_atomic##b##_fetch_nand(volatile ty *p, ty v, int) { vsync(p); ty o = *p; *p = ~(o & v); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int, int) { vsync(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int, int) { vsync(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty e, ty v, int, int) { vsync(p); ty o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static int fence_; void __tsan_atomic_thread_fence(int) { vsync(&fence_); } void __tsan_atomic_signal_fence(int) {}
// ---- memory and strings
void *vs_malloc(size_t n) { return alloc_(n, RA); } void *vs_calloc(size_t a, size_t b) { void *p = alloc_(a * b, RA); memset(p, 0, a * b); return p; } void vs_free(void *p) { free_(p, RA); }
void *vs_realloc(void *p, size_t n) { void *q = alloc_(n, RA); if (p) { auto it = blkof.find(p); if (it == blkof.end()) { report("realloc of something that was not allocated"); return q; } size_t o = blks[it->second].n; access(p, std::min(o, n), false, RA); memcpy(q, p, std::min(o, n)); free_(p, RA); } return q; }
char *vs_strdup(const char *s) { size_t n = strlen(s) + 1; access(s, n, false, RA); char *p = (char *)alloc_(n, RA); memcpy(p, s, n); return p; } char *vs_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); access(s, n, false, RA); char *p = (char *)alloc_(n + 1, RA); memcpy(p, s, n); p[n] = 0; return p; }
void *vs_memcpy(void *d, const void *s, size_t n) { access(s, n, false, RA); access(d, n, true, RA); return memcpy(d, s, n); } void *vs_memmove(void *d, const void *s, size_t n) { access(s, n, false, RA); access(d, n, true, RA); return memmove(d, s, n); } void *vs_memset(void *d, int c, size_t n) { access(d, n, true, RA); return memset(d, c, n); } int vs_memcmp(const void *a, const void *b, size_t n) { access(a, n, false, RA); access(b, n, false, RA); return memcmp(a, b, n); }
size_t vs_strlen(const char *s) { size_t n = strlen(s); access(s, n + 1, false, RA); return n; } size_t vs_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); access(s, n, false, RA); return n; }
char *vs_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; access(s, n, false, RA); access(d, n, true, RA); return strcpy(d, s); } char *vs_strcat(char *d, const char *s) { size_t n = strlen(s) + 1; access(s, n, false, RA); access(d + strlen(d), n, true, RA); return strcat(d, s); }
int vs_strcmp(const char *a, const char *b) { access(a, strlen(a) + 1, false, RA); access(b, strlen(b) + 1, false, RA); return strcmp(a, b); } int vs_strncmp(const char *a, const char *b, size_t n) { access(a, strnlen(a, n), false, RA); access(b, strnlen(b, n), false, RA); return strncmp(a, b, n); }
char *vs_strstr(const char *a, const char *b) { access(a, strlen(a) + 1, false, RA); return (char *)strstr(a, b); } char *vs_strchr(const char *a, int c) { access(a, strlen(a) + 1, false, RA); return (char *)strchr(a, c); } char *vs_strrchr(const char *a, int c) { access(a, strlen(a) + 1, false, RA); return (char *)strrchr(a, c); }
int vs_uncompress(Bytef *d, uLongf *dl, const Bytef *s, uLong n) { uLongf cap = *dl; int r = uncompress(d, dl, s, n); access(d, r == Z_OK ? *dl : cap, true, RA); return r; }
// ---- locks
int vs_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { access(m, sizeof *m, true, RA); Mx x; int t = 0; if (a) pthread_mutexattr_gettype(a, &t); x.type = t == PTHREAD_MUTEX_RECURSIVE; auto it = mx.find(m); if (it != mx.end() && it->second.owner >= 0) report("a locked mutex is initialised again", (uint32_t)(uintptr_t)RA); mx[m] = x; return 0; }
int vs_pthread_mutex_destroy(pthread_mutex_t *m) { access(m, sizeof *m, true, RA); Mx &x = mx[m]; if (x.owner >= 0) report("a locked mutex is destroyed", (uint32_t)(uintptr_t)RA); x.dead = true; return 0; }
int vs_pthread_mutex_lock(pthread_mutex_t *m) { int r; access(m, 1, false, RA); acquire(m, 0, false, &r); return r; } int vs_pthread_mutex_trylock(pthread_mutex_t *m) { int r; acquire(m, 0, true, &r); return r; } int vs_pthread_mutex_unlock(pthread_mutex_t *m) { return release(m); }
int vs_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { mx[m] = Mx(); return 0; } int vs_pthread_rwlock_destroy(pthread_rwlock_t *m) { mx[m].dead = true; return 0; } int vs_pthread_rwlock_rdlock(pthread_rwlock_t *m) { int r; acquire(m, 2, false, &r); return r; } int vs_pthread_rwlock_wrlock(pthread_rwlock_t *m) { int r; acquire(m, 1, false, &r); return r; } int vs_pthread_rwlock_unlock(pthread_rwlock_t *m) { return release(m); }
int vs_pthread_spin_init(pthread_spinlock_t *m, int) { mx[(void *)m] = Mx(); return 0; } int vs_pthread_spin_lock(pthread_spinlock_t *m) { int r; acquire((void *)m, 0, false, &r); return r; } int vs_pthread_spin_unlock(pthread_spinlock_t *m) { return release((void *)m); } int vs_pthread_spin_destroy(pthread_spinlock_t *m) { return 0; }
int vs_pthread_once(pthread_once_t *o, void (*f)()) { int r; acquire(o, 0, false, &r); if (!oncem[o]) { oncem[o] = 1; f(); } return release(o); }
// ---- the process's descriptors and files
int vs_dup(int o) { sched(nullptr, 0); if (real) { int f = dup(o); if (f >= 0) vfd[f] = 0; return f; } int f = lowest(3); vfd[f] = 0; EV("dup gives %d", f); return f; }
int vs_open(const char *p, int fl, ...) { sched(nullptr, 0); if (real) { va_list a; va_start(a, fl); int f = ::open(p, fl, va_arg(a, mode_t)); va_end(a); if (f >= 0) vfd[f] = 0; EV("open %s gives %d", p, f); return f; } int f = lowest(3); vfd[f] = 0; return f; }
int vs_fcntl(int fd, int cmd, long a) { sched(nullptr, 0); if (real) { int f = fcntl(fd, cmd, a); if (f >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) vfd[f] = 0; return f; } if (cmd == 0 || cmd == 1030) { int f = lowest(a > 3 ? a : 3); vfd[f] = 0; return f; } if (!vfd.count(fd)) { errno = EBADF; return -1; } return 0; }
int vs_close(int fd) { sched(nullptr, 0); EV("close %d", fd); auto it = vfd.find(fd); if (it == vfd.end()) { errno = EBADF; return -1; } if (it->second) { report(vfmt("the library closes descriptor %d, a real one of the application", fd), (uint32_t)(uintptr_t)RA); return -1; } if (handed.count(fd)) report(vfmt("the library closes descriptor %d, which is still open", fd), (uint32_t)(uintptr_t)RA); vfd.erase(it); return real ? close(fd) : 0; }
FILE *vs_fopen(const char *p, const char *m) { access(p, strlen(p) + 1, false, RA); return fopen(p, m); } size_t vs_fwrite(const void *b, size_t s, size_t n, FILE *f) { access(b, s * n, false, RA); return fwrite(b, s, n, f); } int vs_fclose(FILE *f) { return fclose(f); } int vs_fflush(FILE *f) { return fflush(f); }
int vs_unlink(const char *p) { access(p, strlen(p) + 1, false, RA); return unlink(p); }
time_t vs_time(time_t *t) { if (t) *t = 1000; return 1000; } int vs_rand() { return (int)(++rand_value); } void vs_srand(unsigned) {} int vs_atexit(void (*f)()) { exits.insert(exits.begin(), f); return 0; }
}
