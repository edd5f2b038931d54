// Family of directories used by the listing, lookup and stream position checks.
#pragma once
#include "vf.hpp"
#include <errno.h>
#include <dirent.h>
#include <sys/stat.h>
namespace dirs {
using namespace sq;
struct Case { std::string desc; std::function<NodeP(Opt &)> make; int group; };      // make: the root; the directory under test is root/d
inline NodeP entry(int kind, const std::string &name, bool ext = false) { auto n = kind == LNK ? lnk(name, "t") : mk(kind, name); n->ext = ext; if (kind == REG) { n->size = 0; } return n; }
inline NodeP wrap(NodeP d) { auto r = dir("", {d}); r->ext = true; return r; }
inline std::string nm(int i, int len) { std::string s = vfmt("%05d", i); if (len < 5) s = s.substr(5 - len); while ((int)s.size() < len) s += (char)('a' + (i + s.size()) % 26); return s; }
// mixed name lengths, sorted
inline void fill(Node &d, int n, const std::function<int(int)> &len) { for (int i = 0; i < n; i++) d.add(entry(i % 7 + 1, nm(i, len(i)), i % 3 == 1)); }
inline void family(bool thorough, const std::function<void(const Case &)> &f) {
    auto add = [&](const std::string &d, std::function<NodeP(Opt &)> m, int g) { f(Case{d, m, g}); };
    // 1. small directories: every size, header width, inode kind, index form, block form
    for (int n = 0; n <= 7; n++) for (int hm : {1, 2, 3, 256}) for (int v = 0; v < 4; v++) for (int mc = 0; mc < 2; mc++) for (int at : {-1, 0, 1, 8180, 8185, 8191}) {
        add(vfmt("%d entries, %d per header, %s inode, index form %d, metadata %s, listing at %d", n, hm, v ? "extended" : "basic", v ? v - 1 : 0, mc ? "compressed" : "stored", at), [=](Opt &o) {
            auto d = dir("d"); fill(*d, n, [](int i) { return 1 + i * 3 % 11; }); std::sort(d->kids.begin(), d->kids.end(), [](const NodeP &a, const NodeP &b) { return a->name < b->name; }); d->hdr_max = hm; d->ext = v > 0; d->index_mode = v ? v - 1 : 0; d->list_at = at; o.md_comp = mc; return wrap(d); }, 1);
    }
    // 2. placements: the listing begins at every offset before an edge
    for (int at = thorough ? 0 : 8192 - 420; at < 8192; at++) for (int hm : {3, 256}) add(vfmt("20 entries, %d per header, listing at offset %d", hm, at), [=](Opt &o) {
        auto d = dir("d"); fill(*d, 20, [](int i) { return i % 5 == 4 ? 90 : 5 + i % 9; }); d->hdr_max = hm; d->ext = at & 1; d->index_mode = at & 1 ? 1 + (at >> 1 & 1) : 0; d->list_at = at; o.md_comp = at % 3; return wrap(d); }, 2);
    // 3. sizes up to many metadata blocks
    for (int n : {255, 256, 257, 511, 512, 513, 700, 1000, 2500, 6000}) for (int v = 0; v < 3; v++) for (int len : {5, 40, 200}) for (int at : {-1, 8000}) {
        if (!v && (n * (len + 8) + n / 256 * 12 + 200) > 65000) continue; if (len == 200 && n > 1000 && !thorough) continue;
        add(vfmt("%d entries with names of %d bytes, %s inode, index form %d, listing at %d", n, len, v ? "extended" : "basic", v, at), [=](Opt &o) { auto d = dir("d"); fill(*d, n, [=](int i) { return len + (len > 5 ? i % 3 : 0); }); d->ext = v > 0; d->index_mode = v; d->list_at = at; o.md_comp = n & 1; return wrap(d); }, 3);
    }
    add("largest basic directory (65532 bytes)", [=](Opt &o) { auto d = dir("d"); int tot = 0, i = 0; for (;; i++) { int hdr = i % 256 ? 0 : 12; int rest = 65532 - tot - hdr; if (rest < 8 + 5) break; int l = rest - 8 < 400 ? std::min(rest - 8, 256) : 20; if (rest - 8 - l > 0 && rest - 8 - l < 60) l -= 60; d->add(entry(REG, nm(i, l))); tot += hdr + 8 + l; } return wrap(d); }, 3);
    // 4. names of every length, every kind, every byte
    for (int l = 1; l <= 256; l++) add(vfmt("names of %d bytes", l), [=](Opt &o) { auto d = dir("d"); for (int k = 0; k < (l > 1 ? 4 : 3); k++) { std::string s(l, 'm'); s[l - 1] = "AMZz"[k]; d->add(entry(k + 1, s)); } d->ext = l & 1; d->index_mode = l & 1 ? 1 + (l >> 1 & 1) : 0; d->list_at = l % 4 ? -1 : 8192 - l; d->hdr_max = l % 5 ? 256 : 2; return wrap(d); }, 4);
    for (int v = 0; v < 8; v++) add(vfmt("all 14 inode kinds, %s entry types, order %d", v & 1 ? "extended" : "basic", v / 2), [=](Opt &o) { auto d = dir("d"); o.ext_types = v & 1; for (int i = 0; i < 14; i++) { int k = (i * (v / 2 == 1 ? 5 : 1) + v) % 14; d->add(entry(k % 7 + 1, nm(i, 6), k >= 7)); } return wrap(d); }, 4);
    for (int b = 0; b < 2; b++) add(vfmt("every byte as a name%s", b ? " and in the middle" : ""), [=](Opt &o) { auto d = dir("d"); for (int c = 1; c < 256; c++) if (c != '/' && (c != '.' || b)) d->add(entry(REG, b ? std::string("n") + (char)c + "m" : std::string(1, (char)c))); d->hdr_max = 7; d->ext = true; d->index_mode = 2; return wrap(d); }, 4);
    // 5. inode numbers: every ordered triple
    std::vector<uint32_t> N{3, 4, 32770, 32771, 32772, 65538, 70000, 131072, 200000};
    for (uint32_t a : N) for (uint32_t b : N) for (uint32_t c : N) if (a != b && b != c && a != c) add(vfmt("entries with inode numbers %u %u %u", a, b, c), [=](Opt &o) { auto d = dir("d"); uint32_t x[] = {a, b, c}; for (int i = 0; i < 3; i++) { auto e = entry(i + 2, nm(i, 3)); e->number = x[i]; d->add(e); } auto r = wrap(d); r->number = 1; d->number = 2; o.export_table = false; return r; }, 5);
    // 6. inodes in different metadata blocks (a header per block)
    for (int step = 1; step <= 5; step++) for (int hm : {2, 256}) for (int v = 0; v < 3; v++) add(vfmt("30 entries, inodes moved to the next metadata block every %d, %d per header, index form %d", step, hm, v), [=](Opt &o) { auto d = dir("d"); fill(*d, 30, [](int i) { return 6; }); for (int i = 0; i < 30; i++) if (i % step == 0) d->kids[i]->inode_at = (i * 37) % 8192; d->hdr_max = hm; d->ext = v; d->index_mode = v; o.md_comp = true; o.export_table = false; return wrap(d); }, 6);
    // 7. other directories in front
    for (int k = 0; k < 12; k++) add(vfmt("directory behind %d others", k * 40), [=](Opt &o) { auto d = dir("d"); fill(*d, 9, [](int i) { return 7; }); d->hdr_max = 4; auto r = dir(""); for (int i = 0; i < k * 40; i++) { auto e = dir("a" + nm(i, 6)); fill(*e, i % 4, [](int) { return 30; }); r->add(e); } r->add(d); r->ext = true; d->ext = k & 1; d->index_mode = k & 1; o.md_comp = k & 2; return r; }, 7);
}
inline int dtype(int kind) { static const int t[] = {0, DT_DIR, DT_REG, DT_LNK, DT_BLK, DT_CHR, DT_FIFO, DT_SOCK}; return t[kind]; }
} // namespace dirs
