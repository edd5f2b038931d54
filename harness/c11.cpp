// C11: every inode kind x mode x link count x time x size x device x place in the inode table, through stat, lstat, fstat and sqfs_stat.
#include "vf.hpp"
#include <errno.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
using namespace sq;
static void same(const char *how, const struct stat &st, Node *n) {
    static const mode_t M[] = {0, S_IFDIR, S_IFREG, S_IFLNK, S_IFBLK, S_IFCHR, S_IFIFO, S_IFSOCK};
    uint64_t size = n->kind == REG ? (n->fake ? n->fake_size : n->size) : n->kind == LNK ? n->target.size() : 0, links = n->kind == REG && !n->ext ? 1 : n->nlink;
    REQ(st.st_mode == (M[n->kind] | n->mode), "%s: mode %o, expected %o", how, st.st_mode, M[n->kind] | n->mode);
    REQ(st.st_nlink == links, "%s: %llu links, expected %llu", how, (unsigned long long)st.st_nlink, (unsigned long long)links);
    REQ((uint64_t)st.st_size == size, "%s: size %lld, expected %llu", how, (long long)st.st_size, (unsigned long long)size);
    REQ(st.st_mtime == (time_t)n->mtime && st.st_atime == (time_t)n->mtime && st.st_ctime == (time_t)n->mtime, "%s: times %lld %lld %lld, expected %u", how, (long long)st.st_mtime, (long long)st.st_atime, (long long)st.st_ctime, n->mtime);
    REQ(!st.st_mtim.tv_nsec && !st.st_atim.tv_nsec && !st.st_ctim.tv_nsec, "%s: nanoseconds are set", how);
    dev_t dev = n->kind == BLK || n->kind == CHR ? makedev((n->rdev & 0xfff00) >> 8, (n->rdev & 0xff) | ((n->rdev >> 12) & 0xfff00)) : 0;
    REQ(st.st_rdev == dev, "%s: device %llx, expected %llx", how, (unsigned long long)st.st_rdev, (unsigned long long)dev); ctx.transitions++;
}
static void check(sqfs *fs, Node *n, const std::string &path, bool viapath) {
    struct stat st; sqfs_inode ino; ctx.note("%s (kind %d)", path.c_str(), n->itype()); sqfs_err e = sqfs_inode_get(fs, &ino, n->ref); REQ(!e, "inode cannot be read"); memset(&st, 0xdd, sizeof st); e = sqfs_stat(fs, &ino, &st); REQ(!e, "sqfs_stat"); same("sqfs_stat", st, n);
    REQ(ino.base.inode_number == n->number, "inode number %u, expected %u", ino.base.inode_number, n->number);
    if (!viapath) return;
    memset(&st, 0xdd, sizeof st); int r = squash_lstat(fs, path.c_str(), &st); REQ(!r, "lstat failed: %s", errname(errno).c_str()); same("lstat", st, n);
    if (n->kind == LNK) { REQ(squash_readlink(fs, path.c_str(), (char *)&st, 3) == -1 || n->target.size() < 3, "readlink"); return; }
    memset(&st, 0xdd, sizeof st); r = squash_stat(fs, path.c_str(), &st); REQ(!r, "stat failed: %s", errname(errno).c_str()); same("stat", st, n);
    int fd = squash_open(fs, path.c_str()); REQ(fd >= 0, "open failed: %s", errname(errno).c_str()); memset(&st, 0xdd, sizeof st); REQ(!squash_fstat(fd, &st), "fstat"); same("fstat", st, n); squash_close(fd); ctx.traces++;
}
static NodeP node(int k, bool ext, const std::string &name) { auto n = k == LNK ? lnk(name, "some/target") : mk(k, name); n->ext = ext; n->rdev = 0x12345; n->nlink = k == sq::DIR ? 2 : 1; return n; }
static void whole(std::vector<NodeP> v, bool mc, bool viapath, size_t off = 0) { auto r = dir(""); r->ext = true; for (auto &n : v) r->add(n); Opt o; o.md_comp = mc; o.offset = off; ImageP im = build(r, o); Fs fs(im); for (auto &n : v) check(&fs, n.get(), "/" + n->name, viapath); for (auto i = v.rbegin(); i != v.rend(); ++i) check(&fs, i->get(), "/" + (*i)->name, false); }
static const char *KN[] = {"", "directory", "file", "symbolic link", "block device", "character device", "fifo", "socket"};
void vf_enumerate() {
    vf_start_library();
    for (int k = 1; k <= 7; k++) for (int e = 0; e < 2; e++) {
        std::string kn = vfmt("%s %s inode", e ? "extended" : "basic", KN[k]);
        for (int b = 0; b < 16; b++) ctx.run(vfmt("%s, modes %04o..%04o", kn.c_str(), b * 256, b * 256 + 255), [&] { std::vector<NodeP> v; for (int m = 0; m < 256; m++) { auto n = node(k, e, vfmt("m%03d", m)); n->mode = b * 256 + m; v.push_back(n); } whole(v, b & 1, true); ctx.states += 256; ctx.counts["modes"] += 256; });
        ctx.run(kn + ", link counts, times, owners", [&] { std::vector<NodeP> v; int i = 0; for (uint32_t l : {0u, 1u, 2u, 3u, 255u, 256u, 65535u, 65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) for (uint32_t t : {0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 1234567890u}) { auto n = node(k, e, vfmt("n%03d", i++)); n->nlink = l; n->mtime = t; n->uid = i % 3 ? 0 : 1; v.push_back(n); } whole(v, true, true, 3); ctx.states += v.size(); ctx.counts["link counts x times"] += v.size(); ctx.sample(ctx.desc); });
        int lo = ctx.thorough() ? 0 : 8192 - 80;
        for (int at = lo; at < 8192; at += 1) { if (at < 8192 - 80 && at % 16 != (k * 2 + e) % 16) continue; ctx.run(vfmt("%s at offset %d of its metadata block", kn.c_str(), at), [&] { for (int mc = 0; mc < 2; mc++) { auto n = node(k, e, "n"); n->inode_at = at; n->mode = 01755; n->nlink = 7; n->mtime = 77; if (k == LNK) n->target = "0123456789/target/abc"; auto z = node(FIFO, true, "z"); whole({n, z}, mc, true); } ctx.states++; ctx.counts["places in the inode table"]++; }); }
    }
    std::vector<uint64_t> S{0, 1, 4095, 4096, 65535, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000ull, 0xfffffffe, 0xffffffff, 0x100000000ull, 0x100000001ull, 0x7fffffffffull, 1ull << 40, (1ull << 62) - 1};
    for (int e = 0; e < 2; e++) ctx.run(vfmt("file sizes, %s inode", e ? "extended" : "basic"), [&] { std::vector<NodeP> v; int i = 0; for (uint64_t s : S) if (e || s <= 0xffffffff) { auto n = node(REG, e, vfmt("s%02d", i++)); n->fake = true; n->fake_size = s; v.push_back(n); } whole(v, true, true); ctx.states += v.size(); ctx.counts["sizes"] += v.size(); });
    for (int e = 0; e < 2; e++) for (int k : {BLK, CHR}) ctx.run(vfmt("device numbers, %s %s", e ? "extended" : "basic", KN[k]), [&] { std::vector<NodeP> v; int i = 0; for (uint32_t ma : {0u, 1u, 7u, 8u, 127u, 128u, 255u, 256u, 2047u, 2048u, 4095u}) for (uint32_t mi : {0u, 1u, 127u, 128u, 255u, 256u, 257u, 4095u, 4096u, 65535u, 65536u, 524288u, 1048575u}) { auto n = node(k, e, vfmt("d%03d", i++)); n->rdev = (mi & 0xff) | (ma << 8) | ((mi & ~0xffu) << 12); v.push_back(n); } whole(v, true, true); ctx.states += v.size(); ctx.counts["devices"] += v.size(); });
    for (int e = 0; e < 2; e++) ctx.run(vfmt("target lengths, %s symbolic link", e ? "extended" : "basic"), [&] { std::vector<NodeP> v; int i = 0; for (int l : {1, 2, 3, 255, 256, 257, 1000, 2047, 2048, 4096, 8191, 8192, 8193, 20000, 65535, 65536, 100000}) { auto n = node(LNK, e, vfmt("l%03d", i++)); n->target = std::string(l, 't'); v.push_back(n); } whole(v, true, true); ctx.states += v.size(); ctx.counts["target lengths"] += v.size(); });
}
