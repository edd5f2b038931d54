// An image with every kind of block, the operations on it and the blocks each of them can need (C18, C19).
#pragma once
#include "scene.hpp"
using namespace sq;
// what an operation needs at most: inodes, listings, data, fragments, tables
struct Need { std::vector<std::string> inodes, lists; std::string file; long from = 0, to = -1; std::string tables; };
struct XOp { std::string name; std::function<std::string(sqfs *)> go; Need need; };
static NodeP tree() {
    auto r = dir(""); r->ext = true; r->list_at = 8000; auto a = dir("a"); a->inode_at = 8100; a->list_at = 7900;
    for (int i = 0; i < 30; i++) { auto e = text(vfmt("e%02d", i), std::string(20 + i, 'a' + i % 26)); e->frag_group = 1; if (i % 10 == 3) e->inode_at = 3000 + i; a->add(e); } r->add(a);
    auto big = reg("big", 4096 * 5 + 1000, "CCUCH", true, 3); big->frag_group = 2; big->inode_at = 8185; r->add(big);
    auto huge = reg("huge", 4096ull * 4200, "C", false, 4); huge->coarse = true; huge->inode_at = 200; r->add(huge);
    auto l = lnk("l", "a/e05"); l->inode_at = 8180; r->add(l);
    auto q = dir("q"); q->ext = true; q->index_mode = 2; q->hdr_max = 20; for (int i = 0; i < 700; i++) q->add(lnk(vfmt("n%05d", i), "x")); q->list_at = 100; q->inode_at = 40; r->add(q);
    auto s = text("s", "small"); s->frag_group = 3; s->inode_at = 5000; r->add(s); sort_kids(*r); return r;
}
static Node *at(const ImageP &im, const std::string &p) { Node *n = im->root.get(); size_t i = 0; while (n && i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); if (j > i) n = n->find(p.substr(i, j - i)); i = j + 1; } return n; }
static std::vector<uint64_t> mdstarts(const ImageP &im, uint64_t from, uint64_t to) { std::vector<uint64_t> v; while (from < to) { v.push_back(from); uint16_t h; memcpy(&h, im->mem + from, 2); from += 2 + (h & 0x7fff ? h & 0x7fff : 0x8000); } return v; }
static uint64_t sb64(const ImageP &im, int o) { uint64_t v; memcpy(&v, im->mem + o, 8); return v; }
// positions of the metadata blocks covered by len bytes from (block, off)
static void span(const std::vector<uint64_t> &st, uint64_t blk, uint32_t off, uint64_t len, std::set<uint64_t> &out) { size_t i = std::find(st.begin(), st.end(), blk) - st.begin(); uint64_t e = off + len; for (uint64_t p = 0; p < std::max<uint64_t>(e, 1) && i < st.size(); p += MD, i++) out.insert(st[i] + 2); if (i < st.size() && e % MD == 0) out.insert(st[i] + 2); }
static std::set<uint64_t> needs(const ImageP &im, const Need &n) {
    std::set<uint64_t> o; uint64_t it = sb64(im, 64), dt = sb64(im, 72), end = im->len; uint64_t dend = end; for (auto &b : im->cblocks) if (b.kind != 'I' && b.kind != 'D' && b.kind != 'd' && b.kind != 'f') dend = std::min(dend, b.pos - 2);
    auto si = mdstarts(im, it, dt), sd = mdstarts(im, dt, dend);
    for (auto &p : n.inodes) { Node *x = at(im, p); uint64_t len = 60 + x->target.size(); if (x->kind == REG && p == n.file && n.to > n.from) len += 4 * (x->size / 4096 + 1); if (x->kind == sq::DIR && x->ext) len += 40 * x->idx_count; span(si, it + (x->ref >> 16), x->ref & 0xffff, len, o); }
    for (auto &p : n.lists) { Node *x = at(im, p); span(sd, dt + x->d_start, x->d_off, x->list_size, o); }
    if (n.to > n.from) { Node *x = at(im, n.file); long nb = x->size / 4096; for (long b = n.from / 4096; b <= (n.to - 1) / 4096; b++) if (b < (long)x->blocks.size()) o.insert(x->blocks[b].first); if (x->frag && n.to > nb * 4096) { o.insert(im->frags[x->frag_idx].pos); for (auto &b : im->cblocks) if (b.kind == 'F') o.insert(b.pos); } }
    for (char t : n.tables) for (auto &b : im->cblocks) if (b.kind == t) o.insert(b.pos); return o;
}
static std::string tab(sqfs_err e, uint64_t v) { return e ? "error" : vfmt("%lx", (long)v); }
static std::vector<XOp> xops() {
    std::vector<XOp> o; auto chain = [](const std::string &p, Need &n) { n.inodes.push_back(""); n.lists.push_back(""); size_t i; for (i = 0; (i = p.find('/', i)) != std::string::npos; i++) { n.inodes.push_back(p.substr(0, i)); n.lists.push_back(p.substr(0, i)); } n.inodes.push_back(p); };
    for (const char *p : {"a/e00", "a/e29", "big", "huge", "l", "q/n00000", "q/n00699", "s"}) { Need n; chain(p, n); o.push_back({vfmt("lstat %s", p), [p](sqfs *f) { return sstat(f, p); }, n}); }
    auto rd = [&](const char *p, long pos, long len) { Need n; chain(p, n); n.file = p; n.from = pos; n.to = pos + len; o.push_back({vfmt("read %s at %ld+%ld", p, pos, len), [=](sqfs *f) { return sread(f, p, pos, len); }, n}); };
    rd("a/e03", 0, 23); rd("a/e29", 3, 4); rd("big", 0, 4096); rd("big", 4000, 200); rd("big", 8192, 4096); rd("big", 12288, 4096); rd("big", 16384, 4096); rd("big", 20480, 500); rd("big", 0, 21480); rd("huge", 4096 * 10, 4096); rd("huge", 4096L * 4100 + 7, 100); rd("s", 0, 5);
    { Need n; chain("l", n); o.push_back({"readlink l", [](sqfs *f) { return slink(f, "l"); }, n}); Need m = n; m.inodes.push_back("a"); m.lists.push_back("a"); m.inodes.push_back("a/e05"); o.push_back({"stat l", [](sqfs *f) { struct stat st; errno = 0; if (squash_stat(f, "l", &st)) return "error " + errname(errno); return vfmt("%ld", (long)st.st_size); }, m}); }
    for (const char *p : {"", "a", "q"}) { Need n; chain(p, n); n.inodes.push_back(p); n.lists.push_back(p); o.push_back({vfmt("list /%s", p), [p](sqfs *f) {      // a failing readdir is repeated: it must fail again, never skip or invent
            SQUASH_DIR *d = squash_opendir(f, *p ? p : "/"); if (!d) return "error opendir " + errname(errno); std::string r; int fails = 0; for (;;) { errno = 0; auto *e = squash_readdir(d); if (e) { if (fails) { r += "error turned into success"; break; } r += vfmt("%s/%d/%ld ", e->d_name, e->d_type, (long)e->d_ino); } else if (errno) { r += vfmt("error %s ", errname(errno).c_str()); if (++fails == 3) break; } else { if (fails) r += "error turned into end"; break; } } squash_closedir(d); return r; }, n});
        o.push_back({vfmt("scandir /%s", p), [p](sqfs *f) { SQUASH_DIRENT **l; errno = 0; int k = squash_scandir(f, *p ? p : "/", &l, 0, 0); if (k < 0) return "error " + errname(errno); std::string r; for (int i = 0; i < k; i++) { r += l[i]->d_name; r += " "; vf_free(l[i]); } vf_free(l); return r; }, n}); }
    { Need n; chain("a", n); n.inodes.push_back("a"); n.lists.push_back("a"); for (int i = 0; i < 30; i++) n.inodes.push_back(vfmt("a/e%02d", i)); o.push_back({"traverse /a", [](sqfs *f) { sqfs_inode in; short fo; sqfs_traverse t; if (sqfs_inode_get(f, &in, sqfs_inode_root(f))) return std::string("error root"); if (sqfs_lookup_path(f, &in, "a", &fo) || !fo) return std::string("error lookup"); if (sqfs_traverse_open_inode(&t, f, &in)) return std::string("error open"); std::string r; sqfs_err e = SQFS_OK; while (sqfs_traverse_next(&t, &e)) if (!t.dir_end) r += std::string(t.path) + " "; if (e) r += "error"; sqfs_traverse_close(&t); return r; }, n}); }
    { Need n; n.tables = "X"; o.push_back({"id 0", [](sqfs *f) { sqfs_id_t v = 0; sqfs_err e = sqfs_id_get(f, 0, &v); return tab(e, v); }, n}); o.push_back({"id 2500", [](sqfs *f) { sqfs_id_t v = 0; sqfs_err e = sqfs_id_get(f, 2500, &v); return tab(e, v); }, n}); n.tables = "E"; o.push_back({"export 2", [](sqfs *f) { sqfs_inode_id v = 0; sqfs_err e = sqfs_export_inode(f, 2, &v); return tab(e, v); }, n}); o.push_back({"export 1400", [](sqfs *f) { sqfs_inode_id v = 0; sqfs_err e = sqfs_export_inode(f, 1400, &v); return tab(e, v); }, n}); n.tables = "F"; o.push_back({"fragment 1", [](sqfs *f) { squashfs_fragment_entry v; sqfs_err e = sqfs_frag_entry(f, &v, 1); return tab(e, v.start_block); }, n}); o.push_back({"fragment 600", [](sqfs *f) { squashfs_fragment_entry v; sqfs_err e = sqfs_frag_entry(f, &v, 600); return tab(e, v.start_block); }, n}); }
    { Need n; chain("big", n); n.file = "big"; n.from = 0; n.to = 21480; o.push_back({"extract big", [](sqfs *f) { errno = 0; auto p = squash_extract(f, "big", "x"); if (!p) return "error " + errname(errno); std::string c; FILE *g = fopen(p, "rb"); char b[30000]; size_t k = fread(b, 1, sizeof b, g); fclose(g); squash_extract_clear_cache(); return bytes(b, k); }, n}); }
    return o;
}
static Opt opts() { Opt o; o.extra_frags = 0; o.ids.clear(); for (int i = 0; i < 2600; i++) o.ids.push_back(i * 5); o.extra_inodes = 900; o.extra_frags = 700; return o; }
