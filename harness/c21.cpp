// C21: every index of id, export and fragment tables of many lengths, in several orders, stored and compressed.
#include "vf.hpp"
#include <errno.h>
#include <sys/stat.h>
using namespace sq;
static uint32_t idv(size_t i) { return (uint32_t)(mix(i + 5) >> 7) | 1; }
static void orders(size_t n, const std::function<void(size_t)> &f) {
    for (size_t i = 0; i < n; i++) f(i);
    if (n > 3) { for (size_t i = n; i-- > 0;) f(i); size_t st = n / 2 + 1; while (std::__gcd(st, n) != 1) st++; for (size_t i = 0, k = 0; k < n; k++, i = (i + st) % n) f(i); }
}
void vf_enumerate() {
    vf_start_library(); bool T = ctx.thorough();
    std::vector<int> idn{1, 2, 3, 100, 2047, 2048, 2049, 4095, 4096, 4097, 6143, 6144, 6145, 20000, 65535}; if (T) for (int i = 4; i < 2100; i += 7) idn.push_back(i);
    for (int n : idn) for (int c = 0; c < 2; c++) for (size_t off : {(size_t)0, (size_t)3}) ctx.run(vfmt("id table of %d entries, %s, image offset %zu", n, c ? "compressed" : "stored", off), [&] {
        Opt o; o.tbl_comp = c; o.offset = off; o.ids.clear(); for (int i = 0; i < n; i++) o.ids.push_back(idv(i)); auto f = text("f", "x"); f->uid = n - 1; auto im = build(dir("", {f}), o); Fs fs(im); long live = -1; orders(n, [&](size_t i) { sqfs_id_t v = 12345; memset(&v, 0xa5, sizeof v); REQ(!sqfs_id_get(&fs.fs, i, &v), "id %zu of %d is refused", i, n); REQ((uint32_t)v == idv(i), "id %zu is %u, expected %u", i, (uint32_t)v, idv(i)); ctx.transitions++; }); ctx.states += n; ctx.traces++; });
    std::vector<int> en{0, 1, 10, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2040, 2047, 2048, 2049, 3072, 5000, 70000}; if (T) for (int i = 2; i < 1100; i += 3) en.push_back(i);
    for (int n : en) for (int c = 0; c < 2; c++) for (size_t off : {(size_t)0, (size_t)5}) ctx.run(vfmt("export table of 5 inodes and %d further entries, %s, image offset %zu", n, c ? "compressed" : "stored", off), [&] {
        Opt o; o.tbl_comp = c; o.offset = off; o.extra_inodes = n; auto im = build(dir("", {dir("d", {text("x", "1"), lnk("y", "x")}), reg("z", 5000, "C", true, 1)}), o); Fs fs(im); REQ(sqfs_export_ok(&fs.fs), "export table not recognised");
        orders(im->inodes, [&](size_t i) { sqfs_inode_id r = 1; REQ(!sqfs_export_inode(&fs.fs, i + 1, &r), "inode %zu of %u is refused", i + 1, im->inodes); auto it = im->bynum.find(i + 1); uint64_t w = it == im->bynum.end() ? 0xE0000000ull + i + 1 : it->second; REQ(r == w, "inode %zu is at %llx, expected %llx", i + 1, (long long)r, (long long)w); if (it != im->bynum.end()) { sqfs_inode in; REQ(!sqfs_inode_get(&fs.fs, &in, r), "inode"); REQ(in.base.inode_number == i + 1, "leads to inode %u", in.base.inode_number); } ctx.transitions++; }); ctx.states += im->inodes; ctx.traces++; });
    // real inodes: a tree large enough for several metadata blocks of inodes
    for (int n : {3, 400, 1100, 3000}) for (int c = 0; c < 2; c++) ctx.run(vfmt("every one of %d real inodes through the export table, %s", n, c ? "compressed" : "stored"), [&] {
        Opt o; o.tbl_comp = o.md_comp = c; auto r = dir(""); r->ext = true; for (int i = 0; i < n; i++) r->add(lnk(vfmt("l%05d", i), std::string(1 + i % 60, 't'))); auto im = build(r, o); Fs fs(im); orders(im->inodes, [&](size_t i) { sqfs_inode_id id; REQ(!sqfs_export_inode(&fs.fs, i + 1, &id), "inode %zu refused", i + 1); sqfs_inode in; REQ(!sqfs_inode_get(&fs.fs, &in, id), "inode %zu cannot be read", i + 1); REQ(in.base.inode_number == i + 1, "inode %zu leads to %u", i + 1, in.base.inode_number); ctx.transitions++; });
        // lookups by path agree
        for (auto &k : r->kids) if (k->number % 17 == 0) { struct stat st; REQ(!squash_lstat(&fs.fs, k->name.c_str(), &st), "lstat"); REQ(st.st_size == (off_t)k->target.size(), "%s has size %ld", k->name.c_str(), (long)st.st_size); } ctx.states += im->inodes; ctx.traces++; });
    for (int x = 0; x < 4; x++) ctx.run(vfmt("no export table, form %d", x), [&] { Opt o; o.export_table = false; o.md_comp = x & 1; o.tbl_comp = x & 2; auto im = build(dir("", {text("f", "x")}), o); Fs fs(im); REQ(!sqfs_export_ok(&fs.fs), "export table found"); for (uint32_t i : {1u, 2u, 3u, 1024u, 1025u, 0x7fffffffu, ~0u}) { sqfs_inode_id r; REQ(sqfs_export_inode(&fs.fs, i, &r) == SQFS_UNSUP, "inode %u is not unsupported", i); } struct stat st; REQ(!squash_stat(&fs.fs, "f", &st), "stat"); ctx.states++; ctx.traces++; });
    std::vector<int> fn{0, 1, 2, 500, 505, 508, 509, 510, 511, 512, 513, 1019, 1020, 1023, 1024, 1025, 2000, 30000}; if (T) for (int i = 3; i < 520; i++) fn.push_back(i);
    for (int n : fn) for (int c = 0; c < 2; c++) for (int fc = 0; fc < 2; fc++) ctx.run(vfmt("fragment table of %d entries before 6 real ones, %s, fragments %s", n, c ? "compressed" : "stored", fc ? "compressed" : "stored"), [&] {
        Opt o; o.tbl_comp = c; o.frag_comp = fc; o.extra_frags = n; auto r = dir(""); for (int i = 0; i < 6; i++) { auto f = reg(vfmt("f%d", i), 700 + i * 500, "C", true, i + 1); f->frag_group = i; r->add(f); } auto nof = reg("n", 4096, "C", false, 9); r->add(nof); auto im = build(r, o); Fs fs(im);
        orders(im->frags.size(), [&](size_t i) { struct squashfs_fragment_entry e; memset(&e, 0xa5, sizeof e); REQ(!sqfs_frag_entry(&fs.fs, &e, i), "fragment %zu of %zu refused", i, im->frags.size()); REQ(e.start_block == im->frags[i].pos && e.size == im->frags[i].size, "fragment %zu is at %llx size %x, expected %llx %x", i, (long long)e.start_block, e.size, (long long)im->frags[i].pos, im->frags[i].size); ctx.transitions++; });
        struct squashfs_fragment_entry e; REQ(sqfs_frag_entry(&fs.fs, &e, 0xffffffffu), "fragment of a file without one");
        for (int rep = 0; rep < 2; rep++) for (auto &k : r->kids) { int fd = squash_open(&fs.fs, k->name.c_str()); REQ(fd >= 0, "open"); std::vector<uint8_t> b(k->size + 1), w(k->size); content(*k, 0, k->size, 4096, w.data()); ssize_t m = squash_read(fd, b.data(), k->size + 1); squash_close(fd); REQ(m == (ssize_t)k->size && !memcmp(b.data(), w.data(), m), "%s reads wrong (fragment %u)", k->name.c_str(), k->frag_idx); }
        { sqfs_inode in; REQ(!sqfs_inode_get(&fs.fs, &in, nof->ref), "inode"); sqfs_block *bl; size_t o1, o2; REQ(sqfs_frag_block(&fs.fs, &in, &o1, &o2, &bl), "fragment block of a file without fragment"); }
        ctx.states += im->frags.size(); ctx.traces++; });
    // all three tables used in turn
    for (int c = 0; c < 2; c++) ctx.run(vfmt("the three tables in turn, %s", c ? "compressed" : "stored"), [&] { Opt o; o.tbl_comp = c; o.extra_frags = 1500; o.extra_inodes = 4000; o.ids.clear(); for (int i = 0; i < 5000; i++) o.ids.push_back(idv(i)); auto im = build(dir("", {reg("f", 100, "C", true, 1)}), o); Fs fs(im); for (int i = 0; i < 5000; i++) { sqfs_id_t v; REQ(!sqfs_id_get(&fs.fs, i, &v) && (uint32_t)v == idv(i), "id %d", i); size_t e = (size_t)i * 769 % im->inodes; sqfs_inode_id r; auto it = im->bynum.find(e + 1); uint64_t w = it == im->bynum.end() ? 0xE0000000ull + e + 1 : it->second; REQ(!sqfs_export_inode(&fs.fs, e + 1, &r) && r == w, "inode %zu", e + 1); struct squashfs_fragment_entry fe; size_t k = (size_t)i * 531 % im->frags.size(); REQ(!sqfs_frag_entry(&fs.fs, &fe, k) && fe.start_block == im->frags[k].pos, "fragment %zu", k); ctx.transitions += 3; } ctx.states++; ctx.traces++; });
}
