// C01: every layout of a file's blocks x every (position, length) class, against the abstract content.
#include "vf.hpp"
using namespace sq;
struct Img1 { ImageP im; std::vector<Node *> files; };

static std::vector<std::string> words(int n) { std::vector<std::string> r{""}; for (int i = 0; i < n; i++) { std::vector<std::string> q; for (auto &w : r) for (char c : {'C', 'U', 'H'}) q.push_back(w + c); r = q; } return r; }

struct Spec { std::string lay; uint64_t size; bool frag, ext; std::string name; };
static std::vector<Spec> specs(uint32_t bs, int maxb, std::vector<uint32_t> tails) {
    std::vector<Spec> r;
    for (int ext = 0; ext < 2; ext++) for (int nb = 0; nb <= maxb; nb++) for (auto &w : words(nb)) {
        r.push_back({w.empty() ? "C" : w, (uint64_t)nb * bs, false, (bool)ext, ""});
        for (uint32_t t : tails) {
            r.push_back({w.empty() ? "C" : w, (uint64_t)nb * bs + t, true, (bool)ext, ""});
            for (char c : {'C', 'U', 'H'}) r.push_back({w + c, (uint64_t)nb * bs + t, false, (bool)ext, ""});
        }
    }
    for (size_t i = 0; i < r.size(); i++) r[i].name = vfmt("f%04zu", i);
    return r;
}
static void one(ImageP im, Node *n, uint32_t bs) {
    Fs fs(im); std::string path = "/" + n->name; std::set<int64_t> P, L;
    int64_t sz = n->size;
    for (int64_t b = 0; b <= sz + bs; b += bs) for (int d : {-1, 0, 1}) P.insert(b + d);
    for (int d : {-1, 0, 1, 7}) { P.insert(sz + d); P.insert(sz / 2 + d); }
    for (int64_t l : {0, 1, 2, 3}) L.insert(l);
    for (int d : {-1, 0, 1}) { L.insert(bs + d); L.insert(2 * bs + d); L.insert(sz + d); }
    L.insert(sz + 5000);
    std::vector<uint8_t> want(sz + 1); content(*n, 0, sz, bs, want.data());
    int fd = squash_open(&fs.fs, path.c_str()); REQ(fd >= 0, "open failed (%s)", errname(errno).c_str());
    struct stat st; memset(&st, 0xcc, sizeof st); REQ(!squash_fstat(fd, &st) && st.st_size == sz, "fstat size %lld, expected %lld", (long long)st.st_size, (long long)sz);
    sqfs_inode ino; sqfs_err e = sqfs_inode_get(&fs.fs, &ino, n->ref); REQ(!e, "inode not readable");
    for (int64_t p : P) if (p >= 0) for (int64_t l : L) if (l >= 0) for (int how = 0; how < 2; how++) {
        int64_t exp = p >= sz ? 0 : std::min<int64_t>(l, sz - p);
        ctx.note("%s at %lld, %lld bytes", how ? "sqfs_read_range" : "squash_read", (long long)p, (long long)l);
        // the buffer ends exactly where the request ends: one byte more is an overflow
        uint8_t *b = (uint8_t *)malloc(l ? l : 1); memset(b, 0x99, l); int64_t got;
        if (how == 0) { REQ(squash_lseek(fd, p, SQUASH_SEEK_SET) == p, "seek"); got = squash_read(fd, l ? b : b, l); }
        else { sqfs_off_t n2 = l; sqfs_err e2 = sqfs_read_range(&fs.fs, &ino, p, &n2, b); got = e2 ? -1 : n2; }
        bool ok = got == exp; size_t bad = 0;
        if (ok) { for (; bad < (size_t)l; bad++) if (b[bad] != ((int64_t)bad < exp ? want[p + bad] : 0x99)) { ok = false; break; } }
        free(b);
        ctx.transitions++;
        if (got != exp) vfail(vfmt("returned %lld, expected %lld (size %lld)", (long long)got, (long long)exp, (long long)sz));
        if (!ok) vfail(vfmt("wrong byte at offset %zu of the result (%lld bytes valid)", bad, (long long)exp));
        if (how == 0) REQ(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == p + exp, "position after the read is wrong");
    }
    // one sequential pass in odd steps
    for (int64_t step : {(int64_t)1000, (int64_t)bs, (int64_t)bs + 1, (int64_t)bs * 2 + 3}) {
        REQ(squash_lseek(fd, 0, SQUASH_SEEK_SET) == 0, "seek"); int64_t pos = 0; std::vector<uint8_t> b(step);
        for (;;) { ctx.note("sequential step %lld at %lld", (long long)step, (long long)pos); ssize_t g = squash_read(fd, b.data(), step); REQ(g == std::min(step, sz - pos), "returned %zd of %lld", g, (long long)step); ctx.transitions++; if (!g) break; REQ(!memcmp(b.data(), &want[pos], g), "wrong bytes"); pos += g; }
    }
    REQ(!squash_close(fd), "close");
    ctx.states++; ctx.traces++;
}
void vf_enumerate() {
    vf_start_library();
    struct Cfg { uint32_t bs; int maxb; size_t off; bool fragc, mdc; uint32_t cap; std::vector<uint32_t> tails; };
    std::vector<Cfg> cfgs = {
        {4096, 3, 0, true, true, 4096, {1, 4095}},
        {4096, 2, 1, false, false, 4096, {2, 4095}},
        {4096, 2, 4099, true, false, 9, {1, 8}},
        {131072, 1, 3, true, true, 131072, {1, 131071, 65536}},
    };
    if (ctx.thorough()) {
        for (size_t off : {0, 1, 2, 96, 4096, 65537}) for (int fc = 0; fc < 2; fc++) for (int mc = 0; mc < 2; mc++) cfgs.push_back({4096, 3, off, (bool)fc, (bool)mc, 4096, {1, 2, 2048, 4095}});
        cfgs.push_back({4096, 5, 0, true, true, 4096, {1, 4095}});
        for (uint32_t bs = 8192; bs <= 1048576; bs *= 2) cfgs.push_back({bs, bs > 262144 ? 1 : 2, bs % 7, true, true, bs, {1, bs / 2, bs - 1}});
    }
    int ci = 0;
    for (auto &c : cfgs) {
        ImageP im; std::vector<NodeP> files; auto sp = specs(c.bs, c.maxb, c.tails);
        auto make = [&] { if (im) return; NodeP root = dir(""); uint32_t id = 1; for (auto &s : sp) { auto n = reg(s.name, s.size, s.lay, s.frag, id++); n->ext = s.ext; files.push_back(n); root->add(n); } root->ext = true; Opt o; o.block_size = c.bs; o.offset = c.off; o.frag_comp = c.fragc; o.md_comp = c.mdc; o.frag_cap = c.cap; im = build(root, o); };
        for (size_t i = 0; i < sp.size(); i++) {
            auto &s = sp[i];
            std::string d = vfmt("block size %u, image offset %zu, fragments %s, metadata %s: file of %llu bytes, blocks '%s'%s, %s inode", c.bs, c.off, c.fragc ? "compressed" : "stored", c.mdc ? "compressed" : "stored", (unsigned long long)s.size, s.lay.c_str(), s.frag ? " + tail in a fragment" : "", s.ext ? "extended" : "basic");
            ctx.run(d, [&] { make(); one(im, files[i].get(), c.bs); if (i % 97 == 5) ctx.sample(d); ctx.counts[vfmt("files, block size %u", c.bs)]++; });
        }
        ci++;
    }
}
