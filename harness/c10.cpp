// C10: every selection x comparison x directory size, and every failure, against the abstract directory.
#include "dirs.hpp"
#include <unistd.h>
using namespace dirs;
typedef struct SQUASH_DIRENT DE;
static uint64_t g_mask; static std::vector<std::string> g_seen; static int g_mode;
static bool want(size_t i) { switch (g_mode) { case 0: return g_mask >> i & 1; case 1: return i % 2; case 2: return i % 1000 == 999; case 3: return false; case 4: return true; case 5: return i % 3 != 0; default: return i < 1024; } }
static int sel(const DE *e) { size_t i = g_seen.size(); g_seen.push_back(e->d_name); errno = i % 3 == 1 ? EIO : errno; return want(i) ? (i & 1 ? -1 : 256) : 0; }
static int c_up(const DE **a, const DE **b) { return strcmp((*a)->d_name, (*b)->d_name); }
static int c_down(const DE **a, const DE **b) { errno = ENOENT; return strcmp((*b)->d_name, (*a)->d_name); }
static int c_ino(const DE **a, const DE **b) { return (*a)->d_ino % 7 != (*b)->d_ino % 7 ? (int)((*a)->d_ino % 7) - (int)((*b)->d_ino % 7) : strcmp((*a)->d_name, (*b)->d_name); }
static int c_same(const DE **, const DE **) { return 0; }
static int c_len(const DE **a, const DE **b) { return (int)strlen((*a)->d_name) - (int)strlen((*b)->d_name); }
typedef int (*Cmp)(const DE **, const DE **);
static Cmp CM[] = {nullptr, c_up, c_down, c_ino, c_same, c_len}; static const char *CN[] = {"no comparison", "ascending", "descending", "by inode number", "all equal", "by length"};
static void warm(sqfs *fs, const char *p) { DE **l; for (int k = 0; k < 2; k++) { int n = squash_scandir(fs, p, &l, 0, 0); if (n >= 0) { for (int i = 0; i < n; i++) vf_free(l[i]); vf_free(l); } } }   // fills the caches
static void scan(sqfs *fs, Node *d, const char *path, bool withsel, int cm) {
    if (!(withsel && g_mode == 0 && g_mask > 0)) warm(fs, path);
    auto f0 = vf_open_fds(); long l0 = vfa.live; DE **l = (DE **)8; g_seen.clear(); errno = 0; ctx.note("%s, %s, mode %d mask %llx", withsel ? "select" : "no select", CN[cm], g_mode, (unsigned long long)g_mask);
    int n = squash_scandir(fs, path, &l, withsel ? sel : nullptr, CM[cm]); ctx.transitions++; std::vector<Node *> w; for (size_t i = 0; i < d->kids.size(); i++) if (!withsel || want(i)) w.push_back(d->kids[i].get());
    REQ(n == (int)w.size(), "returned %d, expected %zu (errno %s)", n, w.size(), errname(errno).c_str());
    if (withsel) { REQ(g_seen.size() == d->kids.size(), "select called %zu times for %zu entries", g_seen.size(), d->kids.size()); for (size_t i = 0; i < g_seen.size(); i++) REQ(g_seen[i] == d->kids[i]->name.substr(0, 255), "call %zu of select got '%s'", i, hexname(g_seen[i]).c_str()); }
    std::vector<DE> got; for (int i = 0; i < n; i++) got.push_back(*l[i]);
    std::map<std::string, Node *> by; for (auto *k : w) by[k->name.substr(0, 255)] = k; std::set<std::string> once; std::set<void *> ptrs;
    for (int i = 0; i < n; i++) { auto it = by.find(got[i].d_name); REQ(it != by.end(), "entry '%s' was not selected", hexname(got[i].d_name).c_str()); REQ(once.insert(got[i].d_name).second, "entry '%s' twice", got[i].d_name); REQ(ptrs.insert(l[i]).second, "two results share one entry"); Node *k = it->second; REQ(got[i].d_type == dtype(k->kind) && got[i].d_ino == k->number, "type or inode number of '%s'", got[i].d_name);
        if (!CM[cm]) REQ(w[i]->name.substr(0, 255) == got[i].d_name, "not in listing order at %d", i); else if (i) { const DE *a = l[i - 1], *b = l[i]; REQ(CM[cm](&a, &b) <= 0, "not sorted at %d", i); } }
    for (int i = 0; i < n; i++) { memset(l[i], 1, sizeof *l[i]); vf_free(l[i]); } REQ(l && l != (DE **)8, "no array"); vf_free(l);
    REQ(vfa.live == l0, "%ld blocks left behind", vfa.live - l0); REQ(vf_open_fds() == f0, "descriptor left behind"); ctx.traces++;
}
static ImageP mkim(int n, Node **dd, int v = 0) { auto d = dir("d"); fill(*d, n, [](int i) { return i % 11 == 10 ? 250 : 5 + i % 6; }); d->ext = true; d->hdr_max = v ? 3 : 256; *dd = d.get(); auto r = wrap(d); r->add(text("f", "x")); r->add(lnk("l", "d")); r->add(lnk("loop", "loop")); return build(r); }
void vf_enumerate() {
    vf_start_library();
    for (int n = 0; n <= (ctx.thorough() ? 9 : 7); n++) for (int cm = 0; cm < 6; cm++) ctx.run(vfmt("%d entries, every selection, %s", n, CN[cm]), [&] { Node *d; ImageP im = mkim(n, &d, 1); Fs fs(im); g_mode = 0; for (g_mask = 0; g_mask < (1ull << n); g_mask++) { scan(&fs, d, "/d", true, cm); } scan(&fs, d, "/l", false, cm); scan(&fs, d, "d/", false, cm); ctx.states++; ctx.counts["small directories"]++; });
    for (int n : {9, 10, 11, 99, 100, 101, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4100}) for (int cm = 0; cm < 6; cm++) for (int m = 1; m <= 6; m++) ctx.run(vfmt("%d entries, selection %d, %s", n, m, CN[cm]), [&] { Node *d; ImageP im = mkim(n, &d); Fs fs(im); g_mode = m; scan(&fs, d, "/d", true, cm); if (m == 4) scan(&fs, d, "/d", false, cm); ctx.states++; ctx.counts["large directories"]++; if (n == 1025 && m == 5) ctx.sample(ctx.desc); });
    // the directories of the family
    family(false, [&](const Case &c) { if (c.group == 2 && !ctx.thorough()) return; ctx.run("scandir: " + c.desc, [&] { Opt o; NodeP root = c.make(o); ImageP im = build(root, o); Fs fs(im); Node *d = root->find("d"); std::set<std::string> s; for (auto &k : d->kids) s.insert(k->name.substr(0, 255)); if (s.size() != d->kids.size()) return; g_mode = 5; scan(&fs, d, "/d", true, 1); scan(&fs, d, "/d", false, 0); ctx.states++; ctx.counts["directories of the family"]++; }); });
    // failures: nothing is left, nothing is stored
    auto fails = [](sqfs *fs, const char *p, const char *what) { warm(fs, p); auto f0 = vf_open_fds(); long l0 = vfa.live; for (int k = 0; k < 2; k++) { DE **l = nullptr; g_seen.clear(); g_mode = 4; errno = 0; int n = squash_scandir(fs, p, &l, k ? sel : nullptr, k ? c_up : nullptr); ctx.transitions++; REQ(n == -1, "%s returned %d", what, n); REQ(errno, "%s: errno 0", what); } REQ(vfa.live == l0, "%s: %ld blocks left behind", what, vfa.live - l0); REQ(vf_open_fds() == f0, "%s: descriptor left behind", what); ctx.traces++; };
    for (const char *p : {"/nope", "/f", "/d/nope", "/f/x", "/loop", "/..", "nope/.."}) ctx.run(vfmt("scandir of %s", p), [&] { Node *d; ImageP im = mkim(3, &d); Fs fs(im); if (!strcmp(p, "nope/..")) { DE **l = nullptr; int n = squash_scandir(&fs.fs, p, &l, 0, 0); if (n >= 0) { for (int i = 0; i < n; i++) vf_free(l[i]); vf_free(l); } } else fails(&fs, p, p); ctx.states++; ctx.counts["failures"]++; });
    ctx.run("scandir with null arguments", [&] { Node *d; ImageP im = mkim(3, &d); Fs fs(im); long l0 = vfa.live; DE **l = nullptr; errno = 0; REQ(squash_scandir(&fs.fs, nullptr, &l, 0, 0) == -1 && errno == EINVAL, "null name"); errno = 0; REQ(squash_scandir(&fs.fs, "/d", nullptr, 0, 0) == -1 && errno == EINVAL, "null result"); REQ(vfa.live == l0, "memory left"); ctx.states++; });
    for (int n : {3, 12, 1030, 2060}) for (int m : {0, 4}) { long K = 0; bool once = false; for (long k = 0; k < (n < 100 ? 60 : 300); k++) ctx.run(vfmt("%d entries, selection %d, allocation %s%ld fails", n, m, n < 100 ? "" : "class ", k), [&] {
        static std::map<std::pair<int, int>, long> total; Node *d; ImageP im = mkim(n, &d); g_mode = m; g_mask = 5; auto tot = [&] { Fs fs(im); vfa.count = 0; DE **l; int c = squash_scandir(&fs.fs, "/d", &l, sel, c_up); long t = vfa.count; for (int i = 0; i < c; i++) vf_free(l[i]); vf_free(l); return t; };
        long &t = total[{n, m}]; g_seen.clear(); if (!t) t = tot(); long at = n < 100 ? k : k < 60 ? k : t - (300 - k) * t / 240; if (k >= 60 && n >= 100) at = (k - 60) * t / 240; if (at >= t) return;
        Fs fs(im); auto f0 = vf_open_fds(); long l0 = vfa.live; g_seen.clear(); DE **l = (DE **)8; vfa.count = 0; vfa.failed = false; vfa.fail_at = at; errno = 0; int c = squash_scandir(&fs.fs, "/d", &l, sel, c_up); int e = errno; vfa.fail_at = -1; size_t w = 0; for (int i = 0; i < n; i++) w += want(i);
        if (c >= 0) { REQ(c == (int)w, "returned %d of %zu entries", c, w); for (int i = 0; i < c; i++) vf_free(l[i]); vf_free(l); } else { REQ(c == -1 && e, "returned %d, errno %d", c, e); }
        REQ(vf_open_fds() == f0, "descriptor left behind"); g_seen.clear(); warm(&fs, "/d"); scan(&fs, d, "/d", true, 1); (void)l0; ctx.states++; ctx.counts["allocation failures"]++; }); (void)K; (void)once; }
    // damaged listing: each metadata block of the directory table
    for (int n : {900, 1500, 3000}) for (int b = 0; b < 6; b++) ctx.run(vfmt("%d entries, metadata block %d of the listing damaged", n, b), [&] { Node *d; ImageP im = mkim(n, &d); bool hit = false; for (auto &k : im->cblocks) if (k.kind == 'D' && k.seq == b) { memset(im->mem + k.pos, 0xff, k.size); hit = true; } if (!hit) return; Fs fs(im); int last = 0; { Fs warm(im); } fails(&fs, "/d", "scandir of a damaged directory"); (void)last; ctx.states++; ctx.counts["damaged listings"]++; });
}
