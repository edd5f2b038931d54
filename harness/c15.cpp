// C15: extraction: contents, names, cache, histories of extractions / clears / reopened images, and every failure point.
#include "vf.hpp"
#include <errno.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/resource.h>
using namespace sq;
static std::string tmp; static std::vector<int> rnd; static size_t rndi; static bool rnd_on;
extern "C" { int vf_rand(void) { if (!rnd_on) return rand(); return rndi < rnd.size() ? rnd[rndi++] : 900000 + (int)rndi++; } void vf_srand(unsigned s) { if (!rnd_on) srand(s); } }
static std::map<std::string, std::string> listing() {
    std::map<std::string, std::string> m; ::DIR *d = opendir(tmp.c_str()); if (!d) return m;
    while (struct dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = tmp + "/" + n, c; int fd = open(p.c_str(), O_RDONLY); char b[65536]; ssize_t k; while (fd >= 0 && (k = read(fd, b, sizeof b)) > 0) c.append(b, k); if (fd >= 0) close(fd); m[p] = c; }
    closedir(d); return m;
}
static std::string want(const Node &n, uint32_t bs) { std::string s(n.size, 0); if (n.size) content(n, 0, n.size, bs, (uint8_t *)&s[0]); return s; }
static void wipe() { squash_extract_clear_cache(); for (auto &k : listing()) unlink(k.first.c_str()); }
static bool ends(const std::string &s, const std::string &e) { return s.size() >= e.size() && !s.compare(s.size() - e.size(), e.size(), e); }
static void okpath(const char *p, const char *ext) {
    REQ(p, "extraction failed with %s", errname(errno).c_str()); std::string s = p; REQ(!s.compare(0, tmp.size() + 1, tmp + "/"), "%s is not in the temporary directory", p); REQ(s.find('/', tmp.size() + 1) == std::string::npos, "%s is below the temporary directory", p);
    if (ext) REQ(ends(s, std::string(".") + ext), "%s does not end in .%s", hexname(s).c_str(), hexname(ext).c_str());
}
static std::string sized(const std::string &s) { return vfmt("%zu bytes", s.size()); }
// nothing but `expect` in the temporary directory
static void expect(const std::map<std::string, std::string> &e) { auto l = listing(); for (auto &k : l) { auto it = e.find(k.first); REQ(it != e.end(), "left behind: %s (%s)", k.first.c_str(), sized(k.second).c_str()); REQ(it->second == k.second, "%s has wrong content (%s, expected %s)", k.first.c_str(), sized(k.second).c_str(), sized(it->second).c_str()); } for (auto &k : e) REQ(l.count(k.first), "%s is missing", k.first.c_str()); }
struct Snap { std::set<int> fds; long live; };
static Snap snap() { return {vf_open_fds(), vfa.live}; }
static void same(const Snap &s, const char *w) { auto f = vf_open_fds(); REQ(f == s.fds, "%s: %zu descriptors open, %zu before", w, f.size(), s.fds.size()); REQ(vfa.live == s.live, "%s: %ld blocks live, %ld before", w, vfa.live, s.live); }
static NodeP tree(int v) {
    auto r = dir(""); r->ext = true; auto d = dir("d"); r->add(d);
    d->add(reg("a", 9000, "CU", true, 10 + v)); d->add(reg("b", 20000, "C", false, 20 + v)); r->add(reg("a", 5000, "C", true, 30 + v)); r->add(lnk("l", "d/a")); r->add(reg("e", 0, "C", false, 1)); r->add(lnk("loop", "loop")); r->add(lnk("dead", "x")); r->add(sq::mk(FIFO, "fifo")); r->add(lnk("ld", "d")); r->add(reg("h", 40000, "HCH", false, 40 + v)); sort_kids(*r); return r;
}
static Node *at(const ImageP &im, const std::string &p) { Node *n = im->root.get(); size_t i = 0; while (n && i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); if (j > i) n = n->find(p.substr(i, j - i)); if (n && n->kind == LNK) n = at(im, n->target); i = j + 1; } return n; }
static ImageP I[2]; static void images() { for (int i = 0; i < 2; i++) if (!I[i]) I[i] = build(tree(i)); }
static void warm() { static bool w = false; if (w) return; w = true; images(); { Fs f(I[0]); for (const char *p : {"a", "d/a"}) squash_extract(&f.fs, p, "w"); wipe(); } vf_forget_live(); }
// reads everything that an extraction touches, so that the caches hold what they will hold
static void prime(Fs &fs, const std::string &p) { const char *q = squash_extract(&fs.fs, p.c_str(), "x"); (void)q; squash_extract_clear_cache(); }
void vf_enumerate() {
    vf_start_library(); signal(SIGXFSZ, SIG_IGN); tmp = vf_mkscratch(); setenv("TMPDIR", tmp.c_str(), 1); int total = 0;
    // 1. contents: sizes around blocks, the copy buffer and the fragment, every storage form
    for (uint32_t bs : {4096u, 131072u}) for (uint64_t sz : {0ull, 1ull, 4095ull, 4096ull, 4097ull, 16383ull, 16384ull, 16385ull, 32767ull, 32768ull, 32769ull, 49152ull, 131071ull, 131072ull, 131073ull, 300000ull, 1048576ull}) for (const char *lay : {"C", "U", "H", "CUH", "HHC"}) for (int fr = 0; fr < 2; fr++)
        ctx.run(vfmt("extract %llu bytes, block size %u, storage %s%s", (unsigned long long)sz, bs, lay, fr ? " with fragment" : ""), [&] {
            warm(); Opt o; o.block_size = bs; o.frag_cap = bs; auto n = reg("f", sz, lay, fr, 3); auto im = build(dir("", {n}), o); Fs fs(im); prime(fs, "f"); Snap s = snap();
            for (const char *ext : {(const char *)nullptr, "so", ""}) { const char *p = squash_extract(&fs.fs, "f", ext); okpath(p, ext); expect({{p, want(*n, bs)}}); const char *q = squash_extract(&fs.fs, "f", "other"); REQ(q && !strcmp(p, q), "second extraction gives another path"); expect({{p, want(*n, bs)}}); squash_extract_clear_cache(); expect({}); same(s, "after clearing"); ctx.transitions += 3; }
            ctx.states++; ctx.traces++; });
    // 2. extensions and path forms
    { std::vector<std::string> ex{"", "x", "tar.gz", "%s%n%d", ".", "a b", std::string(100, 'e'), std::string(230, 'e'), std::string(300, 'e'), std::string(5000, 'e'), std::string(32700, 'e'), std::string(32767, 'e'), std::string(40000, 'e'), std::string(70000, 'e')};
      for (int l = 32700; l < 32770; l += ctx.thorough() ? 1 : 3) ex.push_back(std::string(l, 'e'));
      for (auto &e : ex) ctx.run("extension " + hexname(e), [&] { warm(); Fs fs(I[0]); prime(fs, "a"); Snap s = snap(); errno = 0; const char *p = squash_extract(&fs.fs, "a", e.c_str()); if (e.size() > 200) { if (!p) { REQ(errno, "no errno"); expect({}); same(s, "after the failure"); ctx.states++; return; } } okpath(p, e.c_str()); expect({{p, want(*at(I[0], "a"), 4096)}}); squash_extract_clear_cache(); expect({}); same(s, "after clearing"); ctx.states++; ctx.traces++; }); }
    // 3. many files within one second and colliding random numbers
    for (int n : {3, 4, 5, 50, 400}) for (int fix = 0; fix < 2; fix++) ctx.run(vfmt("%d files%s", n, fix ? " at the same second" : ""), [&] {
        warm(); auto r = dir(""); std::vector<NodeP> f; for (int i = 0; i < n; i++) { f.push_back(reg(vfmt("f%04d", i), 100 + i, "C", true, i + 1)); r->add(f[i]); } auto im = build(r); Fs fs(im); if (fix) vf_time_value = 1500000000; std::map<std::string, std::string> e;
        for (int i = 0; i < n; i++) { const char *p = squash_extract(&fs.fs, f[i]->name.c_str(), "t"); okpath(p, "t"); REQ(!e.count(p), "two files share %s", p); e[p] = want(*f[i], 4096); ctx.transitions++; }
        expect(e); for (int i = 0; i < n; i++) { const char *p = squash_extract(&fs.fs, f[i]->name.c_str(), "t"); REQ(p && e.count(p) && e[p] == want(*f[i], 4096), "file %d is not found again", i); } expect(e); squash_extract_clear_cache(); expect({}); vf_time_value = -1; ctx.states++; ctx.traces++; });
    { int L = ctx.thorough() ? 8 : 6; std::vector<int> rx(L, 3);
      product(rx, [&](const std::vector<int> &d) { std::string t; for (int x : d) t += (char)('0' + x); ctx.run("random numbers " + t, [&] {
        warm(); Fs fs(I[0]); rnd = d; rndi = 0; rnd_on = true; std::map<std::string, std::string> e; std::string foreign = tmp + "/libsquash-1.q"; { int fd = open(foreign.c_str(), O_CREAT | O_WRONLY, 0600); if (write(fd, "foreign", 7) != 7) abort(); close(fd); } e[foreign] = "foreign";
        try { for (const char *p : {"a", "d/a", "h", "a"}) { errno = 0; const char *q = squash_extract(&fs.fs, p, "q"); ctx.transitions++; if (!q) { REQ(errno, "no errno"); expect(e); continue; } okpath(q, "q"); bool again = !strcmp(p, "a") && e.count(q) && e[q] == want(*at(I[0], p), 4096); REQ(again || !e.count(q), "%s is used twice", q); e[q] = want(*at(I[0], p), 4096); expect(e); } } catch (...) { rnd_on = false; wipe(); throw; }
        squash_extract_clear_cache(); rnd_on = false; expect({{foreign, "foreign"}}); unlink(foreign.c_str()); ctx.states++; ctx.traces++; }); }); }
    // 4. histories
    { struct Op { int k; int fs; const char *p; }; std::vector<Op> ops; for (int f = 0; f < 2; f++) for (const char *p : {"a", "d/a", "l"}) ops.push_back({0, f, p}); ops.push_back({0, 0, "ld/b"}); ops.push_back({0, 0, "dead"}); ops.push_back({1, 0, 0}); ops.push_back({2, 0, 0}); ops.push_back({3, 0, 0});
      int L = ctx.thorough() ? 5 : 4; product(std::vector<int>(L, ops.size()), [&](const std::vector<int> &d) {
        std::string t; for (int i : d) { auto &o = ops[i]; t += o.k == 0 ? vfmt(" extract %d:%s;", o.fs, o.p) : o.k == 1 ? " clear;" : o.k == 2 ? " reopen image 0;" : " put the other image into 0;"; }
        ctx.run("history" + t, [&] { warm(); images(); sqfs F[2]; int cur[2] = {0, 1}; for (int i = 0; i < 2; i++) { memset(&F[i], 0, sizeof F[i]); REQ(!sqfs_init(&F[i], I[i]->base(), 0), "init"); } std::set<int> fds0 = vf_open_fds(); std::map<std::pair<int, std::string>, std::string> cache; std::map<std::string, std::string> files; int nth = 0;
          try { for (int i : d) { auto &o = ops[i]; ctx.note("step %d", ++nth); ctx.transitions++;
            if (o.k == 0) { char *arg = strdup(o.p); errno = 0; const char *q = squash_extract(&F[o.fs], arg, "h"); int e = errno; memset(arg, 'Z', strlen(arg)); free(arg); Node *n = at(I[cur[o.fs]], o.p); if (!n) { REQ(!q && e, "missing file extracted"); } else { errno = e; okpath(q, "h"); auto k = std::make_pair(o.fs, std::string(o.p)); std::string w = want(*n, 4096); if (cache.count(k)) REQ(cache[k] == q, "another path than before"); else { REQ(!files.count(q), "%s belongs to another file", q); cache[k] = q; files[q] = w; } } }
            else if (o.k == 1) { squash_extract_clear_cache(); cache.clear(); files.clear(); }
            else { sqfs_destroy(&F[0]); if (o.k == 3) cur[0] ^= 1; memset(&F[0], 0xab, sizeof F[0]); REQ(!sqfs_init(&F[0], I[cur[0]]->base(), 0), "init"); for (auto it = cache.begin(); it != cache.end();) if (it->first.first == 0) it = cache.erase(it); else ++it; }
            auto l = listing(); for (auto &k : cache) { REQ(l.count(k.second), "%s is gone", k.second.c_str()); REQ(l[k.second] == files[k.second], "%s has wrong content", k.second.c_str()); } for (auto &k : l) REQ(files.count(k.first), "left behind: %s", k.first.c_str()); } } catch (...) { for (int i = 0; i < 2; i++) sqfs_destroy(&F[i]); wipe(); throw; }
          squash_extract_clear_cache(); expect({}); for (int i = 0; i < 2; i++) sqfs_destroy(&F[i]); REQ(vf_open_fds() == fds0, "descriptor left open"); ctx.states++; ctx.traces++; if (total++ == 77) ctx.sample(ctx.desc); }); }); }
    // 5. failures: every file operation, allocation, block, write limit, descriptor limit; missing directory; not a regular file
    std::vector<std::string> files{"a", "d/a", "d/b", "h", "e", "l"};
    // fails(): one attempt under the fault; afterwards nothing is left and a second attempt works
    auto attempt = [&](Fs &fs, const std::string &p, const std::function<void()> &on, const std::function<void()> &off, bool must) {
        Node *n = at(I[0], p); prime(fs, p); wipe(); Snap s = snap(); on(); errno = 0; const char *q = squash_extract(&fs.fs, p.c_str(), "x"); int e = errno; off(); ctx.transitions++;
        if (!q) { REQ(e, "NULL without errno"); expect({}); REQ(vf_open_fds() == s.fds, "descriptor left open"); ctx.counts["failed extractions"]++; }
        else { REQ(!must, "success although a needed operation failed"); okpath(q, "x"); expect({{q, want(*n, 4096)}}); }
        q = squash_extract(&fs.fs, p.c_str(), "x"); okpath(q, "x"); std::string qq = q; expect({{qq, want(*n, 4096)}}); const char *q2 = squash_extract(&fs.fs, p.c_str(), "x"); REQ(q2 && qq == q2, "not cached after the failure"); squash_extract_clear_cache(); expect({}); same(s, "after clearing"); ctx.states++; ctx.traces++; return e;
    };
    for (auto &p : files) for (int kind = 0; kind < 2; kind++) for (int k = 0; k < 12; k++) ctx.run(vfmt("%s: file operation %d fails%s", p.c_str(), k, kind ? " half done" : ""), [&] { warm(); Fs fs(I[0]); attempt(fs, p, [&] { vfio.count = 0; vfio.failed = false; vfio.kind = kind; vfio.fail_at = k; }, [&] { vfio.fail_at = -1; }, false); });
    for (auto &p : files) for (int k = 0; k < 40; k++) ctx.run(vfmt("%s: allocation %d fails", p.c_str(), k), [&] { warm(); Fs fs(I[0]); attempt(fs, p, [&] { vfa.count = 0; vfa.failed = false; vfa.fail_at = k; }, [&] { vfa.fail_at = -1; }, false); });
    for (auto &p : files) for (int k = 0; k < 40; k++) ctx.run(vfmt("%s: allocation %d fails with cold caches", p.c_str(), k), [&] { warm(); Fs fs(I[0]); auto f0 = vf_open_fds(); vfa.count = 0; vfa.failed = false; vfa.fail_at = k; errno = 0; const char *q = squash_extract(&fs.fs, p.c_str(), "x"); int e = errno; vfa.fail_at = -1; if (!q) { REQ(e, "NULL without errno"); expect({}); REQ(vf_open_fds() == f0, "descriptor left open"); } q = squash_extract(&fs.fs, p.c_str(), "x"); okpath(q, "x"); expect({{q, want(*at(I[0], p), 4096)}}); squash_extract_clear_cache(); expect({}); REQ(vf_open_fds() == f0, "descriptor left open"); ctx.states++; ctx.traces++; });
    for (auto &p : files) { std::vector<long> lim; for (long x : {0L, 1L, 2L, 100L, 4095L, 4096L, 4097L, 4999L, 5000L, 8999L, 9000L, 9001L, 16383L, 16384L, 16385L, 19999L, 20000L, 32768L, 39999L, 40000L}) lim.push_back(x); if (ctx.thorough()) for (long x = 3; x < 40000; x += 97) lim.push_back(x);
        for (long x : lim) ctx.run(vfmt("%s: files limited to %ld bytes", p.c_str(), x), [&] { warm(); Fs fs(I[0]); struct rlimit o, l; getrlimit(RLIMIT_FSIZE, &o); int e = attempt(fs, p, [&] { l = o; l.rlim_cur = x; setrlimit(RLIMIT_FSIZE, &l); }, [&] { setrlimit(RLIMIT_FSIZE, &o); }, (long)at(I[0], p)->size > x); (void)e; }); }
    for (auto &p : files) for (int x = 0; x < 5; x++) ctx.run(vfmt("%s: %d free descriptors", p.c_str(), x), [&] { warm(); Fs fs(I[0]); struct rlimit o, l; getrlimit(RLIMIT_NOFILE, &o); int used = *vf_open_fds().rbegin() + 1; attempt(fs, p, [&] { l = o; l.rlim_cur = used + x; setrlimit(RLIMIT_NOFILE, &l); }, [&] { setrlimit(RLIMIT_NOFILE, &o); }, x == 0); });
    for (auto &p : files) ctx.run(p + ": temporary directory missing", [&] { warm(); Fs fs(I[0]); attempt(fs, p, [&] { if (rmdir(tmp.c_str())) abort(); }, [&] { mkdir(tmp.c_str(), 0700); }, true); });
    for (auto &p : files) ctx.run(p + ": each block damaged", [&] { warm(); Node *n = at(I[0], p); for (size_t k = 0; k < I[0]->cblocks.size(); k++) { auto &cb = I[0]->cblocks[k]; ctx.note("block %zu", k); auto im = build(tree(0)); memset(im->mem + cb.pos, 0xff, cb.size); Fs fs(im); auto f0 = vf_open_fds(); for (int rep = 0; rep < 2; rep++) { errno = 0; const char *q = squash_extract(&fs.fs, p.c_str(), "x"); ctx.transitions++; if (!q) { REQ(errno, "NULL without errno"); expect({}); REQ(vf_open_fds() == f0, "descriptor left open"); ctx.counts["failed extractions"]++; } else { okpath(q, "x"); expect({{q, want(*n, 4096)}}); } } memcpy(im->mem + cb.pos, I[0]->mem + cb.pos, cb.size); const char *q = squash_extract(&fs.fs, p.c_str(), "x"); okpath(q, "x"); expect({{q, want(*n, 4096)}}); squash_extract_clear_cache(); expect({}); ctx.traces++; ctx.states++; } });
    for (const char *p : {"", "/", "d", "ld", "fifo", "loop", "dead", "nope", "a/x", "d/nope", "fifo/x"}) for (int pre = 0; pre < 2; pre++) ctx.run(vfmt("\"%s\" cannot be extracted%s", p, pre ? ", another file is" : ""), [&] { warm(); Fs fs(I[0]); std::map<std::string, std::string> e; if (pre) { auto q = squash_extract(&fs.fs, "a", "x"); okpath(q, "x"); e[q] = want(*at(I[0], "a"), 4096); } squash_extract(&fs.fs, p, "x"); Snap s = snap(); for (int rep = 0; rep < 2; rep++) { errno = 0; auto q = squash_extract(&fs.fs, p, "x"); REQ(!q, "extracted"); REQ(errno, "no errno"); expect(e); same(s, "after the failure"); } squash_extract_clear_cache(); expect({}); ctx.states++; ctx.traces++; });
    // 6. name of the temporary directory: every combination of the three variables
    { static const char *V[] = {nullptr, "/", "/v", "/w/", "rel", "/a//b/"}; static const char *N[] = {"TMPDIR", "TMP", "TEMP"};
      product({6, 6, 6}, [&](const std::vector<int> &d) { ctx.run(vfmt("TMPDIR %s, TMP %s, TEMP %s", V[d[0]], V[d[1]], V[d[2]]), [&] { warm(); std::string e = "/tmp"; for (int i = 2; i >= 0; i--) { if (V[d[i]]) { setenv(N[i], V[d[i]], 1); e = V[d[i]]; if (e.size() > 1 && e.back() == '/') e.pop_back(); } else unsetenv(N[i]); } long live = vfa.live; char *r = (char *)squash_tmpdir(); setenv("TMPDIR", tmp.c_str(), 1); REQ(r, "NULL"); REQ(e == r, "temporary directory is %s, expected %s", r, e.c_str()); vf_free(r); REQ(vfa.live == live, "leak"); ctx.states++; ctx.traces++; }); }); }
    rmdir(tmp.c_str());
}
