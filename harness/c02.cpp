// C02: files whose block list spans several metadata blocks: every inode placement class x block count x storage pattern, random access
// against the content function; and every history of reads of other large files before it.
#include "vf.hpp"
using namespace sq;
static std::string pattern(int p, int n) {
    std::string s(n, 'C');
    for (int i = 0; i < n; i++) switch (p) {
    case 0: break;
    case 1: s[i] = i % 3 == 1 ? 'H' : (i % 5 == 2 ? 'U' : 'C'); break;
    case 2: s[i] = (i % 2048 >= 2030 || i % 2048 < 5) ? 'H' : (i % 7 ? 'C' : 'U'); break;   // holes around the edges
    case 3: s[i] = i % 2048 < 2 || i % 2048 > 2045 || i == 100 ? 'C' : 'H'; break;          // almost only holes
    case 4: s[i] = i < 2048 ? 'H' : 'C'; break;
    }
    return s;
}
static void rd(sqfs *fs, int fd, sqfs_inode *ino, Node *n, uint32_t bs, int64_t pos, int64_t len, int how) {
    ctx.note("%s: %s at %lld (block %lld), %lld bytes", n->name.c_str(), how ? "squash_read" : "sqfs_read_range", (long long)pos, (long long)(pos / bs), (long long)len);
    int64_t sz = n->size, exp = pos >= sz ? 0 : std::min(len, sz - pos), got;
    std::vector<uint8_t> want(exp + 1); content(*n, pos, exp, bs, want.data());
    uint8_t *b = (uint8_t *)malloc(len ? len : 1); memset(b, 0x99, len);
    if (how) { REQ(squash_lseek(fd, pos, SQUASH_SEEK_SET) == pos, "seek"); got = squash_read(fd, b, len); }
    else { sqfs_off_t l = len; sqfs_err e = sqfs_read_range(fs, ino, pos, &l, b); got = e ? -1 : l; }
    ctx.transitions++;
    bool same = got == exp && !memcmp(b, want.data(), exp); free(b);
    if (got != exp) vfail(vfmt("returned %lld, expected %lld", (long long)got, (long long)exp));
    if (!same) vfail("wrong bytes");
}
struct H { sqfs_inode ino; int fd; };
static H openf(Fs &fs, Node *n) { H h; h.fd = squash_open(&fs.fs, ("/" + n->name).c_str()); REQ(h.fd >= 0, "open failed: %s", errname(errno).c_str()); sqfs_err e = sqfs_inode_get(&fs.fs, &h.ino, n->ref); REQ(!e, "inode"); return h; }
// blocks around every edge of the metadata block that holds the block list
static std::vector<int64_t> edges(Node *n, uint32_t bs) {
    size_t off = ((n->ref & 0xffff) + (n->ext ? 56 : 32)) % MD; int64_t nb = n->frag ? n->size / bs : (n->size + bs - 1) / bs; std::set<int64_t> s{0, 1, nb / 2, nb - 2, nb - 1, nb, nb + 1};
    for (int m = 1;; m++) { int64_t b = ((int64_t)m * MD - (int64_t)off + 3) / 4; if (b > nb + 1) break; for (int d = -2; d <= 2; d++) s.insert(b + d); }
    for (int64_t b : {2047, 2048, 2049, 4095, 4096, 4097}) if (b <= nb) s.insert(b);
    std::vector<int64_t> r; for (int64_t b : s) if (b >= 0) r.push_back(b); return r;
}
static NodeP big(const std::string &name, uint32_t bs, int nb, int pat, bool frag, bool ext, uint32_t fid, uint64_t extra = 0) {
    auto n = reg(name, (uint64_t)nb * bs + (frag ? 1234 % bs : 0) - (!frag && nb % 2 ? extra : 0), pattern(pat, nb), frag, fid); n->coarse = true; n->ext = ext; return n;
}
void vf_enumerate() {
    vf_start_library();
    std::vector<int> nbs = {2047, 2048, 2049, 4097, 6200}; std::vector<int> ats = {0, 1, 2, 3, 100, 4096, 8192 - 57, 8192 - 56, 8192 - 55, 8192 - 54, 8192 - 34, 8192 - 33, 8192 - 32, 8192 - 31, 8191};
    if (ctx.thorough()) { nbs = {2046, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 6144, 6145, 8200, 12300}; for (int a = 8192 - 64; a < 8192; a += 1) ats.push_back(a); for (int a = 4; a < 64; a++) ats.push_back(a); }
    // 1. one file, every placement
    for (int nb : nbs) for (int at : ats) for (int pat = 0; pat < 5; pat++) for (int v = 0; v < 4; v++) {
        bool frag = v & 1, ext = v & 2;
        if (!ctx.thorough() && (pat + nb + at + v) % 3 && !(at >= 8192 - 57 && pat == (at & 1))) continue;       // a fixed third of the product, plus the inodes at the edge
        std::string d = vfmt("%d blocks of 4096, pattern %d, %s, %s inode at offset %d of its metadata block", nb, pat, frag ? "tail in a fragment" : "no fragment", ext ? "extended" : "basic", at);
        ctx.run(d, [&] {
            auto root = dir(""); root->ext = true; auto n = big("big", 4096, nb, pat, frag, ext, 7, 1000); n->inode_at = at; root->add(n); Opt o; o.md_comp = (nb + at) & 1; o.offset = at % 5;
            ImageP im = build(root, o); auto es = edges(n.get(), 4096);
            { Fs fs(im); H h = openf(fs, n.get());
              for (int64_t b : es) { rd(&fs, h.fd, &h.ino, n.get(), 4096, b * 4096, 1, 0); rd(&fs, h.fd, &h.ino, n.get(), 4096, b * 4096 + 4000, 200, 1); rd(&fs, h.fd, &h.ino, n.get(), 4096, b * 4096 + 1, 3 * 4096, 0); }
              for (int64_t p = 0, k = 0; p < (int64_t)n->size + 1; p += 700 * 4096 + 13, k++) rd(&fs, h.fd, &h.ino, n.get(), 4096, p, 700 * 4096 + 13, k & 1);
              squash_close(h.fd); }
            // first access of a fresh image, each place
            for (size_t i = 0; i < es.size(); i += ctx.thorough() ? 1 : 4) { Fs fs(im); H h = openf(fs, n.get()); rd(&fs, h.fd, &h.ino, n.get(), 4096, es[i] * 4096 + 5, 4096, i & 1); squash_close(h.fd); }
            ctx.states++; ctx.traces++; ctx.counts["placements"]++; if (nb == 2049 && at == 100) ctx.sample(d);
        });
    }
    // 2. positions beyond 4 GB
    for (int v = 0; v < 6; v++) { uint32_t bs = v & 1 ? 1048576 : 131072; int nb = v & 1 ? 6301 : 35001; bool frag = v & 2, hole = v & 4;   // more than 4 GB lie before the last indexed position
        std::string d = vfmt("%d blocks of %u (%lld bytes), %s", nb, bs, (long long)nb * bs, frag ? "tail in a fragment" : hole ? "a hole at the end" : "no fragment");
        ctx.run(d, [&] {
            auto root = dir(""); root->ext = true; auto n = big("big", bs, nb, 3, frag, true, 9, 77); for (size_t i = 0; i < n->layout.size(); i++) n->layout[i] = i % 2048 == 2047 || i % 2048 == 0 || i % 4096 == 3 || ((int)i == nb - 1 && !hole) ? 'C' : 'H'; root->add(n); Opt o; o.block_size = bs; o.frag_cap = bs; ImageP im = build(root, o);
            Fs fs(im); H h = openf(fs, n.get()); struct stat st; REQ(!squash_fstat(h.fd, &st) && (uint64_t)st.st_size == n->size, "size");
            auto es = edges(n.get(), bs); for (int64_t b : {int64_t(4294967296ll / bs), int64_t(2147483648ll / bs)}) for (int x = -1; x <= 1; x++) es.push_back(b + x);
            for (int64_t b : es) for (int how = 0; how < 2; how++) { rd(&fs, h.fd, &h.ino, n.get(), bs, b * bs - (b > 0), 3, how); rd(&fs, h.fd, &h.ino, n.get(), bs, b * bs + bs - 100, 300, how); }
            squash_close(h.fd); ctx.states++; ctx.traces++; ctx.counts["files beyond 4 GB"]++; ctx.sample(d);
        }); }
    // 2b. pairs of files whose inode numbers are alike in some of their bits (the position index of a file is found by its inode number)
    std::vector<uint32_t> N{1, 2, 3, 130, 258, 65537, 65538, 131074, 16777218, 0x7fffffff, 0x80000001, 0x80000002, 0xfffffffe, 0xffffffff};
    for (uint32_t a : N) for (uint32_t b : N) if (a != b) { std::string d = vfmt("large files with the inode numbers %u and %u, one after the other and back", a, b);
        ctx.run(d, [&] { auto root = dir(""); root->ext = true; root->number = 77; auto x = big("x", 4096, 4200, 1, true, false, 31), y = big("y", 4096, 6300, 0, false, true, 32); x->number = a; y->number = b; root->add(x); root->add(y); Opt o; o.export_table = false; o.offset = 3; ImageP im = build(root, o);
            for (int first = 0; first < 3; first++) { Fs fs(im); H h = openf(fs, x.get()), g = openf(fs, y.get()); for (int k = 0; k < 3; k++) { Node *n = (k + first) & 1 ? y.get() : x.get(); H &f = (k + first) & 1 ? g : h; auto es = edges(n, 4096); if (first == 2) std::reverse(es.begin(), es.end()); for (int64_t e : es) rd(&fs, f.fd, &f.ino, n, 4096, e * 4096 + 4000, 200, k & 1); } squash_close(h.fd); squash_close(g.fd); }
            ctx.states++; ctx.traces++; ctx.counts["inode number pairs"]++; }); }
    // 3. histories: after reading file 0 at A, k other large files, then file 0 at B (the position index remembers 8 files)
    static ImageP him; static std::vector<NodeP> hf;
    auto mk = [&] { if (him) return; auto root = dir(""); root->ext = true; for (int i = 0; i < 20; i++) { auto n = big(vfmt("b%02d", i), 4096, 2048 + 37 * i + (i % 3) * 2048, i % 5, i & 1, i & 2, 20 + i, 9); hf.push_back(n); root->add(n); } auto s = reg("small", 3 * 4096, "CUC", false, 99); root->add(s); hf.push_back(s); him = build(root); };
    int K = ctx.thorough() ? 19 : 12;
    for (int f = 0; f < (ctx.thorough() ? 6 : 3); f++) for (int k = 0; k <= K; k++) for (int a = 0; a < 3; a++) for (int rep = 0; rep < 2; rep++) {
        std::string d = vfmt("history: file %d at place %d, %d other large files%s, file %d at every edge", f, a, k, rep ? " twice" : "", f);
        ctx.run(d, [&] { mk(); Fs fs(him); Node *n = hf[f].get(); H h = openf(fs, n); auto es = edges(n, 4096);
            rd(&fs, h.fd, &h.ino, n, 4096, es[a * (es.size() - 1) / 2] * 4096, 5000, 0);
            for (int r = 0; r <= rep; r++) for (int j = 1; j <= k; j++) { Node *m = hf[(f + j) % 20].get(); H g = openf(fs, m); auto e2 = edges(m, 4096); for (size_t q = 0; q < e2.size(); q += 5) rd(&fs, g.fd, &g.ino, m, 4096, e2[q] * 4096 + 1, 4096, q & 1); squash_close(g.fd); }
            { Node *m = hf[20].get(); H g = openf(fs, m); rd(&fs, g.fd, &g.ino, m, 4096, 0, 20000, 0); squash_close(g.fd); }
            for (int64_t b : es) rd(&fs, h.fd, &h.ino, n, 4096, b * 4096 + 9, 4100, 1);
            squash_close(h.fd); ctx.states++; ctx.traces++; ctx.counts["histories"]++; if (k == 9 && a == 1) ctx.sample(d);
        });
    }
}
