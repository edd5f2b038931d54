// Operations with printable results, scenes of images and the breadth-first exploration of cache states (C16, C18).
#pragma once
#include "vf.hpp"
#include <errno.h>
#include <sys/stat.h>
#include <deque>
struct World { std::vector<std::unique_ptr<Fs>> f; };
struct Op { std::string name; std::function<std::string(World &)> go; };
inline std::string bytes(const void *p, size_t n) { uint64_t h = n; for (size_t i = 0; i < n; i++) h = sq::mix(h ^ ((uint8_t *)p)[i]) + i; return vfmt("%zu:%016lx", n, (long)h); }
inline std::string sstat(sqfs *fs, const char *p) { struct stat st; memset(&st, 0, sizeof st); errno = 0; if (squash_lstat(fs, p, &st)) return "error " + errname(errno); return vfmt("%o %ld %ld %ld", st.st_mode, (long)st.st_size, (long)st.st_mtime, (long)st.st_nlink); }
inline std::string sread(sqfs *fs, const char *p, long pos, long n) { int fd = squash_open(fs, p); if (fd < 0) return "error open " + errname(errno); std::vector<char> b(n); squash_lseek(fd, pos, SQUASH_SEEK_SET); errno = 0; ssize_t m = squash_read(fd, b.data(), n); std::string r = m < 0 ? "error " + errname(errno) : bytes(b.data(), m); squash_close(fd); return r; }
inline std::string slist(sqfs *fs, const char *p) { SQUASH_DIR *d = squash_opendir(fs, p); if (!d) return "error opendir " + errname(errno); std::string r; while (auto *e = squash_readdir(d)) r += vfmt("%s/%d/%ld ", e->d_name, e->d_type, (long)e->d_ino); squash_closedir(d); return r; }
inline std::string slink(sqfs *fs, const char *p) { char b[300]; ssize_t n = squash_readlink(fs, p, b, 300); return n < 0 ? "error " + errname(errno) : std::string(b, n); }
inline void stdops(std::vector<Op> &o, int k, const std::vector<std::pair<const char *, std::function<std::string(sqfs *)>>> &v) { for (auto &x : v) { auto g = x.second; o.push_back({vfmt("%d:%s", k, x.first), [g, k](World &w) { return g(&w.f[k]->fs); }}); } }
// state of the caches, as far as the structure still has these fields
template <class C> inline auto slots(const C &c, std::string &s, int) -> decltype((void)c.idxs[0], (void)c.next, (void)c.count) { for (size_t i = 0; i < c.count; i++) s += vfmt("%lx,", (long)c.idxs[i]); s += vfmt("@%zu;", c.next); }
template <class C> inline void slots(const C &, std::string &s, long) { s += "?"; }
inline std::string cstate(World &w) { std::string s; for (auto &f : w.f) { slots(f->fs.md_cache, s, 0); slots(f->fs.data_cache, s, 0); slots(f->fs.frag_cache, s, 0); slots(f->fs.blockidx, s, 0); } return s; }
struct Scene { std::string name; std::function<std::vector<sq::ImageP>()> images; std::vector<Op> ops; int quick_states, thorough_states; bool both; std::vector<sq::ImageP> im; std::vector<std::string> base;
    World fresh() { World w; for (auto &i : im) w.f.emplace_back(new Fs(i)); return w; }
    void prep() { if (im.empty()) im = images(); if (base.empty()) for (auto &o : ops) { World w = fresh(); base.push_back(o.go(w)); REQ(base.back().find("error") == std::string::npos || o.name.find('!') != std::string::npos, "%s: %s fails on a fresh image: %s", name.c_str(), o.name.c_str(), base.back().c_str()); World v = fresh(); REQ(o.go(v) == base.back(), "%s is not deterministic on fresh images", o.name.c_str()); } }
    void step(World &w, size_t i) { std::string r = ops[i].go(w); ctx.transitions++; if (r != base[i]) vfail(vfmt("%s gives %s, on a fresh image %s", ops[i].name.c_str(), r.c_str(), base[i].c_str())); }
    std::string hist(const std::vector<uint8_t> &h) { std::string t; for (int i : h) t += " " + ops[i].name + ";"; return t; }
};
inline void bfs(Scene &s, size_t first) {
    int cap = ctx.thorough() ? s.thorough_states : s.quick_states; std::set<std::string> seen; std::deque<std::vector<uint8_t>> q; q.push_back({(uint8_t)first}); size_t depth = 0; bool closed = true;
    while (!q.empty()) { auto h = q.front(); q.pop_front(); depth = std::max(depth, h.size()); 
        for (size_t i = 0; i < s.ops.size(); i++) { World w = s.fresh(); std::vector<uint8_t> g = h; g.push_back(i); ctx.note("history%s", s.hist(g).c_str()); for (int x : h) s.ops[x].go(w); s.step(w, i); std::string k = cstate(w); if (k.find('?') == std::string::npos ? seen.insert(k).second : g.size() < 3) { if ((int)seen.size() > cap || g.size() > 250) closed = false; else q.push_back(g); } } }
    ctx.states += seen.size(); ctx.traces++; ctx.counts[closed ? "cache state spaces explored completely" : "cache state spaces cut at the bound"]++; ctx.counts["deepest history"] = std::max<long>(ctx.counts["deepest history"], depth);
}
