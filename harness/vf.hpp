// Common runtime of all checks: deterministic case enumeration, sharding, violation reporting, libc interposition.
#pragma once
extern "C" {
#include "squash.h"
#include "squash/stack.h"
#include "squash/hash.h"
}
#include <cstdio>
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <memory>
#include <algorithm>
#include "sqimg.hpp"

struct VFail { std::string sig, msg; };
std::string vfmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void vfail(const std::string &msg, const std::string &sig = "");
#define REQ(c, ...) do { if (!(c)) vfail(vfmt(__VA_ARGS__)); } while (0)

// libc interposition control (calls made by the library only)
struct VfAlloc {
    long live = 0, live_bytes = 0, count = 0;      // live blocks, total allocation calls since reset
    long fail_at = -1; bool failed = false; bool fail_zlib = true;  // fail the k-th (0-based) allocation
    long fail_more = 0;                            // -1: and all later ones, d > 0: and the (k + d)-th
    bool track = true;
};
struct VfIo { long count = 0, fail_at = -1; bool failed = false; int kind = 0; long last_op = 0; std::vector<std::string> ops; bool log = false; };
extern VfAlloc vfa;
extern VfIo vfio; extern void (*vf_io_hook)(const char *what, const char *path);   // called before file operations of the library
extern long vf_time_value;            // >=0: fixed time
extern bool vf_unlink_scratch_only; extern std::string vf_scratch; extern std::vector<std::string> vf_escapes;
extern "C" {
void *vf_malloc(size_t); void *vf_calloc(size_t, size_t); void *vf_realloc(void *, size_t); void vf_free(void *); char *vf_strdup(const char *);
}
void vf_forget_live();                // drop the live set (e.g. after longjmp / deliberate leaks)
std::vector<void *> vf_live_list();

struct Ctx {
    std::string id, tier; long shard = 0, nshards = 1; long only = -1, resume = -1; long cur = -1; uint64_t seed = 1;
    long ran = 0, states = 0, transitions = 0, traces = 0, violations = 0; bool listing = false, verbose = false;
    std::map<std::string, long> counts; std::vector<std::string> samples;
    bool thorough() const { return tier == "thorough"; }
    // Enumerates one case. Every case of every shard is passed through here in the same order.
    bool begin(const char *f, ...) __attribute__((format(printf, 2, 3)));   // true: run it
    void run(const std::string &desc, const std::function<void()> &body);
    // group-level skipping: true if the next n cases contain one for this shard
    bool mine_group();         // assigns whole groups of cases to shards
    void sample(const std::string &s) { if (samples.size() < 4) samples.push_back(s); }
    void note(const char *f, ...) __attribute__((format(printf, 2, 3)));      // progress detail inside a case
    void violation(const std::string &sig, const std::string &msg);
    std::string desc;
    long group = -1;
};
extern Ctx ctx;
void vf_enumerate();          // provided by each check

// ---- helpers over the library
struct Fs {
    sqfs fs; sq::ImageP im;
    explicit Fs(sq::ImageP i) : im(i) { memset(&fs, 0, sizeof fs); sqfs_err e = sqfs_init(&fs, im->base(), im->off()); if (e) vfail(vfmt("valid image refused with error %d", e)); }
    ~Fs() { sqfs_destroy(&fs); }
    sqfs *operator&() { return &fs; }
};
void vf_start_library();        // squash_start() once per process
std::set<int> vf_open_fds();    // descriptors of the process below 512
std::string hexname(const std::string &s);
std::string vf_mkscratch();     // fresh scratch directory (removed at exit)
void vf_rmtree(const std::string &d);
std::string errname(int e);
// number of mixed radix enumeration
template <class F> void product(const std::vector<int> &radix, F f) {
    std::vector<int> d(radix.size(), 0);
    for (;;) { f(d); size_t i = 0; while (i < d.size() && ++d[i] == radix[i]) d[i++] = 0; if (i == d.size()) return; }
}
