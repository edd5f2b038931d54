// C12: every target length class x buffer size x alias x place, through squash_readlink, squash_readlink_inode and sqfs_readlink.
#include "vf.hpp"
#include <errno.h>
#include <sys/stat.h>
using namespace sq;
static std::string tgt(int len, int v) { std::string s; for (int i = 0; i < len; i++) s += v == 0 ? (i % 9 == 4 ? '/' : (char)('a' + i % 23)) : (char)(1 + (i * 37 + v) % 255); return s; }
static std::string strip(const std::string &t, const char *a, const char *b) { for (auto x : {a, b}) if (x && !strncmp(t.c_str(), x, strlen(x))) return t.substr(strlen(x) - 1); return t; }
static void one(sqfs *fs, Node *n, const std::string &path, size_t size, const char *al, const char *al2) {
    std::string want = strip(n->target, al, al2); size_t stored = n->target.size();
    for (int how = 0; how < 2; how++) {
        ctx.note("%s, buffer of %zu bytes", how ? "squash_readlink_inode" : "squash_readlink", size); char *b = (char *)malloc(size ? size : 1); memset(b, 0x6e, size ? size : 1); errno = 0; ssize_t r;
        if (how) { sqfs_inode ino; sqfs_err e = sqfs_inode_get(fs, &ino, n->ref); REQ(!e, "inode"); errno = 0; r = squash_readlink_inode(fs, &ino, b, size); } else r = squash_readlink(fs, path.c_str(), b, size);
        int e = errno; std::string got; bool clean = true; if (r >= 0 && (size_t)r <= size) got.assign(b, r); for (size_t i = stored < size ? stored + 1 : 0; i < size; i++) if (b[i] != 0x6e && r >= 0) clean = false; free(b); ctx.transitions++;
        if (size > stored) { REQ(r == (ssize_t)want.size(), "returned %zd (%s), expected %zu", r, errname(e).c_str(), want.size()); REQ(got == want, "wrong target '%s', expected '%s'", hexname(got).c_str(), hexname(want).c_str()); REQ(clean, "bytes behind the terminator were written"); }
        else { REQ(r == -1, "returned %zd with a buffer of %zu bytes for a target of %zu", r, size, stored); REQ(e == ENAMETOOLONG, "errno %s, expected ENAMETOOLONG", errname(e).c_str()); }
    }
    // the lower-level call truncates and terminates
    sqfs_inode ino; sqfs_err e = sqfs_inode_get(fs, &ino, n->ref); REQ(!e, "inode"); ctx.note("sqfs_readlink, buffer of %zu bytes", size); char *b = (char *)malloc(size ? size : 1); memset(b, 0x6e, size ? size : 1); size_t sz = size; e = sqfs_readlink(fs, &ino, b, &sz);
    if (size) { std::string w = n->target.substr(0, size - 1); bool ok = !e && strnlen(b, size) == w.size() && !memcmp(b, w.data(), w.size()); char last = b[std::min(size - 1, stored)]; free(b); REQ(!e, "sqfs_readlink failed"); REQ(last == 0, "not terminated"); REQ(ok, "sqfs_readlink delivered another target"); } else free(b);
    sz = 0x1234; e = sqfs_readlink(fs, &ino, nullptr, &sz); REQ(!e && sz >= stored, "size query gives %zu for a target of %zu", sz, stored); { std::vector<char> q(sz + 1, 0x6e); size_t s2 = sz; e = sqfs_readlink(fs, &ino, q.data(), &s2); REQ(!e && n->target == q.data(), "the size given by the query is too small for the target"); }
    ctx.transitions += 2; ctx.traces++;
}
static std::vector<size_t> bufs(size_t l, bool all) { std::set<size_t> s{0, 1, 2, 3, l, l + 1, l + 2, l + 3, l / 2, l + 100, 2 * l + 7, 4096, 8192, 8193, 70000}; for (size_t d = 1; d <= 12; d++) { s.insert(l + d); if (l > d) s.insert(l - d); } if (all || l < 40) for (size_t i = 0; i <= l + 40; i++) s.insert(i); return {s.begin(), s.end()}; }
void vf_enumerate() {
    vf_start_library(); std::vector<int> L; for (int i = 1; i <= 40; i++) L.push_back(i); for (int l : {63, 64, 65, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4095, 4096, 8190, 8191, 8192, 8193, 16384, 16385, 65535, 65536}) L.push_back(l);
    if (ctx.thorough()) for (int l = 41; l < 700; l++) L.push_back(l);
    for (int l : L) for (int ext = 0; ext < 2; ext++) for (int v = 0; v < 2; v++) ctx.run(vfmt("target of %d bytes (content %d), %s inode, every buffer size", l, v, ext ? "extended" : "basic"), [&] { auto n = lnk("n", tgt(l, v * l)); n->ext = ext; auto r = dir("", {n}); Opt o; o.md_comp = l & 1; ImageP im = build(r, o); Fs fs(im); for (size_t s : bufs(l, ctx.thorough() && l < 600)) one(&fs, n.get(), "n", s, 0, 0); ctx.states++; ctx.counts["targets"]++; if (l == 255) ctx.sample(ctx.desc); });
    for (int at = ctx.thorough() ? 0 : 8192 - 120; at < 8192; at += at < 8192 - 120 ? 13 : 1) ctx.run(vfmt("link inode at offset %d of its metadata block", at), [&] { for (int ext = 0; ext < 2; ext++) for (int mc = 0; mc < 2; mc++) { auto n = lnk("n", tgt(60, 0)); n->ext = ext; n->inode_at = at; auto z = lnk("z", tgt(33, 5)); auto r = dir("", {n, z}); Opt o; o.md_comp = mc; ImageP im = build(r, o); Fs fs(im); for (size_t s : {0u, 1u, 30u, 59u, 60u, 61u, 62u, 100u}) { one(&fs, n.get(), "n", s, 0, 0); } one(&fs, z.get(), "/z", 100, 0, 0); } ctx.states++; ctx.counts["places"]++; });
    // aliases: prefixes of the target that are, contain, or resemble the alias
    const char *A[] = {nullptr, "/", "/a/", "/a/b/", "/__enclose_io_memfs__/", "C:/"};
    std::vector<std::string> T{"/a/x", "/a/", "/a", "/a/b/c", "/a/b/", "/ab/c", "a/x", "/x/a/x", "/", "//a/x", "/__enclose_io_memfs__/lib/x.rb", "/__enclose_io_memfs__", "/__enclose_io_memfs__x/y", "C:/x", "C:", "/a/a/x", "/a/b/a/b/q", "x", "/A/x"};
    for (auto a : A) for (auto b : A) ctx.run(vfmt("aliases %s and %s, %zu targets", a ? a : "none", b ? b : "none", T.size()), [&] { if (!a && b) { } for (auto &t : T) { auto n = lnk("n", t); auto r = dir("", {n}); ImageP im = build(r); Fs fs(im); fs.fs.root_alias = a; fs.fs.root_alias2 = b; for (size_t s : bufs(t.size(), true)) one(&fs, n.get(), "/n", s, a, b); } ctx.states++; ctx.counts["alias pairs"]++; });
    // objects that are no links
    ctx.run("readlink on every other kind and on missing paths", [&] { auto r = dir(""); for (int k = 1; k <= 7; k++) if (k != LNK) for (int e = 0; e < 2; e++) { auto n = mk(k, vfmt("k%d%d", k, e)); n->ext = e; r->add(n); } r->add(lnk("l", "k20")); r->add(lnk("m", "d")); ImageP im = build(r); Fs fs(im);
        for (auto &k : r->kids) if (k->kind != LNK) for (size_t s : {0u, 1u, 100u}) { char *b = (char *)malloc(s ? s : 1); memset(b, 0x6e, s ? s : 1); errno = 0; ssize_t q = squash_readlink(&fs.fs, k->name.c_str(), b, s); int e = errno; bool w = s && b[0] != 0x6e; free(b); REQ(q == -1 && e == EINVAL, "readlink on kind %d gave %zd, %s", k->itype(), q, errname(e).c_str()); REQ(!w, "the buffer was written"); sqfs_inode ino; sqfs_err er = sqfs_inode_get(&fs.fs, &ino, k->ref); char c[100]; memset(c, 0x6e, 100); size_t z = 100; er = sqfs_readlink(&fs.fs, &ino, c, &z); REQ(er != SQFS_OK, "sqfs_readlink on kind %d succeeded", k->itype()); ctx.transitions += 2; }
        for (const char *p : {"nope", "/nope", "k10/nope", "nope/x", "k20/x"}) { char b[20]; errno = 0; REQ(squash_readlink(&fs.fs, p, b, 20) == -1 && (errno == ENOENT || (errno == ENOTDIR && !strncmp(p, "k20", 3))), "readlink of %s: %s", p, errname(errno).c_str()); ctx.transitions++; } ctx.states++; ctx.traces++; });
}
