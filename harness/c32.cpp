// C32: images that reach far beyond 4 GiB: every choice of the sections that lie far away (each then begins at another multiple of 4 GiB
// plus the same low bits), every kind of metadata and image offset; everything in the image against the tree it was written from.
#include "vf.hpp"
#include <errno.h>
#include <sys/stat.h>
using namespace sq;
static NodeP tree(bool basic) {
    auto r = dir(""); r->ext = true; int id = 1;
    const char *lays[] = {"C", "U", "CUH", "HCU", "CCUUHC"};
    Node *d = r->add(dir("d")); d->ext = true; d->index_mode = 2; d->hdr_max = 9;
    for (int i = 0; i < 120; i++) { auto x = i % 4 == 0 ? lnk(vfmt("e%03d", i), std::string(1 + i * 5 % 90, 'a' + i % 26)) : i % 4 == 1 ? dir(vfmt("e%03d", i)) : i % 4 == 2 ? mk(FIFO, vfmt("e%03d", i)) : text(vfmt("e%03d", i), std::string(i, 'q')); x->mtime = 1000 * i + 7; if (x->kind == REG) x->frag_group = i % 3, x->ext = !basic; d->add(x); }
    for (auto l : lays) for (int tail : {0, 700}) { auto f = reg(vfmt("f%s%d", l, tail), strlen(l) * 4096ull + tail, l, tail > 0, id); f->ext = !basic; f->frag_group = 7 + id % 3; f->mtime = 5 * id; f->uid = id * 211 % 2500; f->gid = id * 97 % 2500; id++; r->add(f); }
    auto g = reg("g", 4096ull * 4300 + 9, "C", true, 99); g->coarse = true; g->ext = !basic; g->frag_group = 5; r->add(g);
    r->add(lnk("h", "d/e003")); auto e = lnk("i", "/d/../g"); r->add(e); auto b = mk(BLK, "j"); b->rdev = 0x801; b->ext = true; r->add(b);
    sort_kids(*r); return r;
}
static void readall(Fs &fs, Node *n, const std::string &path, uint32_t bs, size_t piece, int64_t from, int64_t to) {
    int fd = squash_open(&fs.fs, path.c_str()); REQ(fd >= 0, "%s cannot be opened: %s", path.c_str(), errname(errno).c_str()); if (from) REQ(squash_lseek(fd, from, SQUASH_SEEK_SET) == from, "%s: no seek to %lld", path.c_str(), (long long)from);
    Bytes w(piece), g(piece); to = std::min<int64_t>(to, n->size);
    for (int64_t p = from; p <= to; p += piece) { int64_t k = std::max<int64_t>(0, std::min<int64_t>(piece, (int64_t)n->size - p)); memset(g.data(), 0x6b, piece); content(*n, p, k, bs, w.data()); ssize_t m = squash_read(fd, g.data(), piece); REQ(m == k, "%s: read of %zu at %lld gives %zd (%s), expected %lld", path.c_str(), piece, (long long)p, m, errname(errno).c_str(), (long long)k); REQ(!memcmp(g.data(), w.data(), k), "%s: other bytes at %lld", path.c_str(), (long long)p); ctx.transitions++; if (!k) break; }
    REQ(!squash_close(fd), "close");
}
static void files(Fs &fs, Node &d, const std::string &base, bool back, uint32_t bs) {
    for (size_t q = 0; q < d.kids.size(); q++) { Node *n = d.kids[back ? d.kids.size() - 1 - q : q].get(); std::string p = base + "/" + n->name; if (n->kind == sq::DIR) { files(fs, *n, p, back, bs); continue; } if (n->kind != REG) continue;
        if (n->size > 1000000) for (int64_t b : {0, 1, 2030, 2047, 2048, 2100, 4080, 4097, 4298}) readall(fs, n, p, bs, 3000, b * bs + 4000, b * bs + 9000); else readall(fs, n, p, bs, n->size % 3 ? 4096 : 1001, 0, 1 << 30); }
}
static void meta(Fs &fs, Node &d, const std::string &base) {
    SQUASH_DIR *h = squash_opendir(&fs.fs, base.empty() ? "/" : base.c_str()); REQ(h, "%s cannot be listed: %s", base.c_str(), errname(errno).c_str());
    for (auto &k : d.kids) { auto *e = squash_readdir(h); REQ(e, "%s: the listing ends before %s", base.c_str(), k->name.c_str()); REQ(k->name == e->d_name && e->d_ino == k->number, "%s: listing gives %s (%lu) for %s (%u)", base.c_str(), e->d_name, (long)e->d_ino, k->name.c_str(), k->number); ctx.transitions++; }
    REQ(!squash_readdir(h), "%s: too many entries", base.c_str()); squash_closedir(h);
    for (auto &k : d.kids) { std::string p = base + "/" + k->name; struct stat st; REQ(!squash_lstat(&fs.fs, p.c_str(), &st), "%s: %s", p.c_str(), errname(errno).c_str()); REQ(st.st_mtime == (time_t)k->mtime && (st.st_mode & 07777) == k->mode, "%s has other metadata", p.c_str()); if (k->kind == REG) REQ((uint64_t)st.st_size == k->size, "%s has size %lld", p.c_str(), (long long)st.st_size);
        if (k->kind == LNK) { char b[400]; ssize_t n = squash_readlink(&fs.fs, p.c_str(), b, sizeof b); REQ(n == (ssize_t)k->target.size() && k->target == std::string(b, n), "%s has another target", p.c_str()); } ctx.transitions++; }
    for (auto &k : d.kids) if (k->kind == sq::DIR) meta(fs, *k, base + "/" + k->name);
}
static void tables(Fs &fs, const ImageP &im) {
    for (size_t i = 0; i < im->opt.ids.size(); i += 1 + i % 37) { sqfs_id_t v = 0; REQ(!sqfs_id_get(&fs.fs, i, &v) && v == im->opt.ids[i], "id %zu is %u", i, v); ctx.transitions++; }
    for (auto &x : im->bynum) { sqfs_inode_id v = 0; REQ(!sqfs_export_inode(&fs.fs, x.first, &v) && v == x.second, "export %u is %lx", x.first, (long)v); ctx.transitions++; }
    for (size_t i = 0; i < im->frags.size(); i += i + 20 < im->frags.size() ? 13 : 1) { struct squashfs_fragment_entry e; REQ(!sqfs_frag_entry(&fs.fs, &e, i), "fragment %zu", i); REQ(e.start_block == im->frags[i].pos && e.size == im->frags[i].size, "fragment %zu is another", i); ctx.transitions++; }
}
void vf_enumerate() {
    vf_start_library(); const std::string S = "dfIDFEX";
    std::vector<uint64_t> offs{0, 4099, (1ull << 32) + 77}; if (ctx.thorough()) offs = {0, 1, 4099, (1ull << 31) - 5000, (1ull << 31) + 1, (1ull << 32) - 9000, (1ull << 32), (1ull << 32) + 77, (5ull << 32) + 4096};
    for (int m = 0; m < 128; m++) for (int comp = 0; comp < 2; comp++) for (uint64_t off : offs) {
        std::string far; for (int i = 0; i < 7; i++) if (m >> i & 1) far += S[i];
        if (!ctx.thorough() && (off == 4099) != (m % 3 == 1) && off < 5000) continue;
        std::string d = vfmt("far: %s, %s metadata, image offset %llu", far.empty() ? "nothing" : far.c_str(), comp ? "compressed" : "stored", (unsigned long long)off);
        ctx.run(d, [&] { Opt o; o.far = far; o.md_comp = o.tbl_comp = comp; o.offset = off; o.extra_inodes = 1100; o.extra_frags = 600; o.ids.clear(); for (int i = 0; i < 2500; i++) o.ids.push_back(mix(i)); o.frag_comp = comp ^ (m & 1); 
            ImageP im = build(tree(!(m & 3)), o); ctx.note("image of %llu bytes", (unsigned long long)im->len);
            for (int order = 0; order < 3; order++) { Fs fs(im); for (int step = 0; step < 4; step++) { int what = order == 0 ? step : order == 1 ? 3 - step : (step * 3 + 1) % 4; ctx.note("order %d, step %d (%s)", order, step, what == 0 ? "metadata" : what == 1 ? "files" : what == 2 ? "tables" : "files backwards"); if (what == 0) meta(fs, *im->root, ""); else if (what == 2) tables(fs, im); else files(fs, *im->root, "", what == 3, 4096); } meta(fs, *im->root, ""); tables(fs, im); }
            ctx.states++; ctx.traces++; ctx.counts["image layouts"]++; if (m == 127) ctx.sample(d); });
    }
    // stored data of one file beyond 4 GiB
    for (uint32_t bs : {131072u, 1048576u}) for (int v = 0; v < 4; v++) { std::string d = vfmt("one file with more than 4 GiB of stored blocks of %u, %s%s", bs, v & 1 ? "holes between, " : "", v & 2 ? "read backwards" : "read forwards");
        ctx.run(d, [&] { auto r = dir(""); r->ext = true; int nb = (6ull << 30) / bs + 77; std::string l(nb, 'Z'); for (int i = 0; i < nb; i++) if (i % 700 < 2 || i > nb - 3 || i % 2048 == 2030 || i % 2048 == 2047 || i % 2048 == 0 || (uint64_t)i * bs >> 32 != ((uint64_t)i * bs + 3 * bs) >> 32) l[i] = i % 3 ? 'C' : 'U'; else if (v & 1 && i % 97 == 5) l[i] = 'H'; auto f = reg("f", (uint64_t)nb * bs + 99, l, true, 5); f->coarse = f->ext = true; r->add(f); Opt o; o.block_size = o.frag_cap = bs; o.offset = v * 3; ImageP im = build(r, o); Fs fs(im); std::vector<int> at; for (int i = 0; i < nb; i++) if (l[i] == 'C' || l[i] == 'U') at.push_back(i); at.push_back(nb); if (v & 2) std::reverse(at.begin(), at.end());
            for (int i : at) { readall(fs, f.get(), "/f", bs, 3000, (int64_t)i * bs, (int64_t)i * bs + 1); if (i) readall(fs, f.get(), "/f", bs, 200, (int64_t)i * bs - 100, (int64_t)i * bs - 99); } ctx.states++; ctx.traces++; ctx.counts["files with more than 4 GiB of blocks"]++; ctx.sample(d); }); }
}
