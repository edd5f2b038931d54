#include "vf.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <ftw.h>
#include <unordered_map>
#include <zlib.h>

Ctx ctx; VfAlloc vfa; VfIo vfio; void (*vf_io_hook)(const char *, const char *); long vf_time_value = -1;
std::string vf_scratch;
std::string vfmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
void vfail(const std::string &m, const std::string &s) { throw VFail{s, m}; }

// ---------------------------------------------------------------- allocation
// intrusive hash set of live blocks (sizes are remembered for statistics)
static std::unordered_map<void *, size_t> &live() { static auto *m = new std::unordered_map<void *, size_t>; return *m; }
static bool hit_fault() { long k = vfa.count++; if (vfa.fail_at >= 0 && (k == vfa.fail_at || (vfa.fail_more < 0 && k > vfa.fail_at) || (vfa.fail_more > 0 && k == vfa.fail_at + vfa.fail_more))) { vfa.failed = true; return true; } return false; }
static void *reg(void *p, size_t n) { if (p && vfa.track) { live()[p] = n; vfa.live++; vfa.live_bytes += n; } return p; }
static void unreg(void *p) { if (!p || !vfa.track) return; auto it = live().find(p); if (it != live().end()) { vfa.live--; vfa.live_bytes -= it->second; live().erase(it); } }
void vf_forget_live() { live().clear(); vfa.live = vfa.live_bytes = 0; }
std::vector<void *> vf_live_list() { std::vector<void *> v; for (auto &k : live()) v.push_back(k.first); return v; }
extern "C" {
void *vf_malloc(size_t n) { if (hit_fault()) { errno = ENOMEM; return nullptr; } return reg(malloc(n), n); }
void *vf_calloc(size_t a, size_t b) { if (hit_fault()) { errno = ENOMEM; return nullptr; } return reg(calloc(a, b), a * b); }
void *vf_realloc(void *p, size_t n) {
    if (hit_fault()) { errno = ENOMEM; return nullptr; }
    // a realloc always moves here, so that a stale pointer is noticed
    if (!p) return reg(malloc(n), n);
    if (n == 0) { unreg(p); free(p); return nullptr; }
    auto it = live().find(p); size_t old = it == live().end() ? (size_t)-1 : it->second;
    if (old == (size_t)-1) { void *q = realloc(p, n); return q; }
    void *q = malloc(n); if (!q) return nullptr; memcpy(q, p, old < n ? old : n); unreg(p); free(p); return reg(q, n);
}
void vf_free(void *p) { unreg(p); free(p); }
char *vf_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)vf_malloc(n); if (p) memcpy(p, s, n); return p; }
char *vf_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)vf_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
// zlib reports an allocation failure as Z_MEM_ERROR
int vf_uncompress(Bytef *d, uLongf *dl, const Bytef *s, uLong sl) { if (vfa.fail_zlib && vfa.fail_at >= 0 && hit_fault()) return Z_MEM_ERROR; return uncompress(d, dl, s, sl); }

// ---------------------------------------------------------------- file I/O made by the library
static bool io_fault(const char *what) {
    long k = vfio.count++; if (vfio.log) vfio.ops.push_back(what);
    if (vfio.fail_at >= 0 && k == vfio.fail_at) { vfio.failed = true; return true; } return false;
}
FILE *vf_fopen(const char *p, const char *m) { if (vf_io_hook) vf_io_hook("fopen", p); if (io_fault("fopen")) { errno = EACCES; return nullptr; } return fopen(p, m); }
size_t vf_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (vf_io_hook) vf_io_hook("fwrite", nullptr); if (io_fault("fwrite")) { if (vfio.kind == 1 && n * s > 1) fwrite(b, 1, n * s / 2, f); errno = ENOSPC; return 0; } return fwrite(b, s, n, f); }
int vf_fclose(FILE *f) { if (vf_io_hook) vf_io_hook("fclose", nullptr); if (io_fault("fclose")) { fclose(f); errno = EIO; return EOF; } return fclose(f); }
int vf_fflush(FILE *f) { if (io_fault("fflush")) { errno = EIO; return EOF; } return fflush(f); }
int vf_dup(int fd) { if (io_fault("dup")) { errno = EMFILE; return -1; } return dup(fd); }

time_t vf_time(time_t *t) { if (vf_time_value < 0) return time(t); if (t) *t = vf_time_value; return vf_time_value; }
}

// ---------------------------------------------------------------- enumeration
struct Shm { volatile long idx, phase, hb; char desc[1400]; char note[600]; };
static Shm *shm; static FILE *vout;
static long next_index = 0, next_group = 0; static bool group_mode = false, group_mine = true;
bool Ctx::mine_group() { group_mode = true; group = next_group++; group_mine = only >= 0 || (group % nshards) == shard; return group_mine || true; }
bool Ctx::begin(const char *f, ...) {
    long i = next_index++;
    cur = i;
    if (only >= 0) { if (i != only) return false; }
    else { bool m = group_mode ? group_mine : (i % nshards) == shard; if (!m || i <= resume) return false; }
    char b[1400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); desc = b;
    shm->idx = i; memcpy(shm->desc, b, strlen(b) + 1); shm->note[0] = 0; shm->hb = shm->hb + 1;
    return true;
}
void Ctx::note(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(shm->note, sizeof shm->note, f, a); va_end(a); if (verbose) fprintf(stderr, "  %s\n", shm->note); }
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += vfmt("\\u%04x", c); else o += c; } return o + "\""; }
void Ctx::violation(const std::string &sig, const std::string &msg) {
    violations++; std::string m = msg; if (shm->note[0]) m += std::string(" [at: ") + shm->note + "]";
    fprintf(vout, "V {\"idx\":%ld,\"desc\":%s,\"sig\":%s,\"msg\":%s}\n", cur, jstr(desc).c_str(), jstr(sig).c_str(), jstr(m).c_str()); fflush(vout);
    if (violations >= 12) { fprintf(vout, "S\n"); fflush(vout); _exit(3); }
}
void Ctx::run(const std::string &d, const std::function<void()> &body) {
    if (!begin("%s", d.c_str())) return;
    if (verbose) fprintf(stderr, "case %ld: %s\n", cur, d.c_str());
    try { body(); ran++; }
    catch (VFail &e) { vfa.fail_at = -1; vfa.fail_more = 0; vfio.fail_at = -1; violation(e.sig, e.msg); }
}
void vf_start_library() { static bool s = false; if (!s) { s = true; squash_start(); vf_forget_live(); } }
std::set<int> vf_open_fds() { std::set<int> r; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) r.insert(i); return r; }
std::string hexname(const std::string &s) { std::string o; for (unsigned char c : s) if (c >= 33 && c < 127) o += c; else o += vfmt("\\x%02x", c); return o.size() > 80 ? o.substr(0, 80) + vfmt("..(%zu)", s.size()) : o; }
std::string errname(int e) { const char *n = strerrorname_np(e); return n ? n : vfmt("%d", e); }
static int rm1(const char *p, const struct stat *, int flag, struct FTW *) { if (flag == FTW_DP || flag == FTW_D || flag == FTW_DNR) rmdir(p); else unlink(p); return 0; }
void vf_rmtree(const std::string &d) { if (d.find("/vfscratch") == std::string::npos) return; nftw(d.c_str(), rm1, 16, FTW_PHYS | FTW_DEPTH | FTW_MOUNT); }
std::string vf_mkscratch() { char b[128]; snprintf(b, sizeof b, "/tmp/vfscratch.XXXXXX"); if (!mkdtemp(b)) { perror("mkdtemp"); exit(2); } return b; }
int main(int argc, char **argv) {
    std::string shmf, outf;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--tier") ctx.tier = v; else if (a == "--shard") ctx.shard = atol(v.c_str()); else if (a == "--nshards") ctx.nshards = atol(v.c_str());
        else if (a == "--only") ctx.only = atol(v.c_str()); else if (a == "--resume") ctx.resume = atol(v.c_str()); else if (a == "--shm") shmf = v; else if (a == "--out") outf = v;
        else if (a == "--seed") ctx.seed = strtoull(v.c_str(), 0, 10); else if (a == "--verbose") ctx.verbose = v == "1"; else if (a == "--id") ctx.id = v;
    }
    int fd = open(shmf.c_str(), O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, sizeof(Shm))) { perror("shm"); return 2; }
    shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); shm->idx = -1;
    vout = fopen(outf.c_str(), "ae"); if (!vout) { perror("out"); return 2; }
    // keep the low descriptor numbers well defined: 0,1,2 only; our own files live high up
    { int h = fcntl(fileno(vout), F_DUPFD_CLOEXEC, 700); FILE *g = fdopen(h, "a"); fclose(vout); vout = g; }
    clearerr(stdin);
    vf_enumerate();
    std::string s; for (auto &x : ctx.samples) { if (!s.empty()) s += ","; s += jstr(x); }
    std::string c; for (auto &x : ctx.counts) { if (!c.empty()) c += ","; c += jstr(x.first) + ":" + vfmt("%ld", x.second); }
    fprintf(vout, "R {\"ran\":%ld,\"total\":%ld,\"states\":%ld,\"transitions\":%ld,\"traces\":%ld,\"counts\":{%s},\"samples\":[%s]}\n", ctx.ran, next_index, ctx.states, ctx.transitions, ctx.traces, c.c_str(), s.c_str());
    fflush(vout); _exit(0);
}
