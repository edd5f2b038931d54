// C20: every value of the deciding header fields, every combination of good and bad ones, image offsets, allocation failures, reopening.
#include "vf.hpp"
#include <errno.h>
#include <sys/stat.h>
using namespace sq;
static sqfs_err wanted(uint32_t magic, int major, int minor, int comp, int maxminor) { if (magic != 0x73717368u) return SQFS_BADFORMAT; if (major != 4 || minor > maxminor) return SQFS_BADVERSION; if (comp != 1) return SQFS_BADCOMP; return SQFS_OK; }
static ImageP mkimg(const Opt &o) { return build(dir("", {dir("d", {reg("g", 6000, "CU", true, 3)}), text("f", "hello"), lnk("l", "d/g")}), o); }
static void use(sqfs *fs, const ImageP &im) {
    struct stat st; int fd = squash_open(fs, "l"); REQ(fd >= 0, "file of an accepted image cannot be opened: %s", errname(errno).c_str()); char b[6001]; ssize_t n = squash_read(fd, b, 6001); squash_close(fd); std::vector<uint8_t> w(6000); Node *g = im->root->find("d")->find("g"); content(*g, 0, 6000, 4096, w.data()); REQ(n == 6000 && !memcmp(b, w.data(), 6000), "file of an accepted image reads wrong"); REQ(!squash_stat(fs, "f", &st) && st.st_size == 5, "stat");
}
struct H { uint32_t magic; int major, minor, comp; };
static void check(const ImageP &im, const H &h, int maxminor, bool open, bool full) {
    uint8_t *s = im->mem + im->off(); uint16_t c = h.comp, ma = h.major, mi = h.minor; memcpy(s, &h.magic, 4); memcpy(s + 20, &c, 2); memcpy(s + 28, &ma, 2); memcpy(s + 30, &mi, 2);
    std::vector<uint8_t> before(im->mem, im->mem + im->len); sqfs fs; memset(&fs, full ? 0xff : 0x3c, sizeof fs); long live = vfa.live; sqfs_err w = wanted(h.magic, h.major, h.minor, h.comp, maxminor), e = open ? sqfs_open_image(&fs, im->base(), im->off()) : sqfs_init(&fs, im->base(), im->off()); ctx.transitions++;
    REQ(e == w, "magic %08x version %d.%d compression %d: result %d, expected %d", h.magic, h.major, h.minor, h.comp, e, w);
    int a = -1, b = -1; sqfs_version(&fs, &a, &b); REQ(a == h.major && b == h.minor, "version reported as %d.%d, is %d.%d", a, b, h.major, h.minor); REQ((int)sqfs_compression(&fs) == h.comp, "compression reported as %d, is %d", (int)sqfs_compression(&fs), h.comp);
    if (e) REQ(vfa.live == live, "refused image leaves %ld blocks allocated", vfa.live - live);
    else { if (full) use(&fs, im); sqfs_destroy(&fs); REQ(vfa.live == live, "closing leaves %ld blocks allocated", vfa.live - live); if (full) { e = open ? sqfs_open_image(&fs, im->base(), im->off()) : sqfs_init(&fs, im->base(), im->off()); REQ(!e, "closed image cannot be opened again: %d", e); use(&fs, im); sqfs_destroy(&fs); REQ(vfa.live == live, "closing the second time leaves %ld blocks", vfa.live - live); } }
    REQ(!memcmp(before.data(), im->mem, im->len), "the image was modified"); ctx.states++;
}
void vf_enumerate() {
    vf_start_library(); int a, b, c, maxminor; sqfs_version_supported(&a, &b, &c, &maxminor);
    { auto im = mkimg(Opt()); sqfs f; if (!sqfs_init(&f, im->base(), 0)) { try { use(&f, im); } catch (VFail &) {} sqfs_destroy(&f); } }      // the descriptor table is allocated now
    ctx.run("supported versions", [&] { REQ(a == 4 && c == 4 && b == 0 && maxminor == 0, "supported versions %d.%d to %d.%d", a, b, c, maxminor); ctx.states++; }); maxminor = 0;
    std::vector<size_t> offs{0, 1, 2, 7, 4096, 65537}; const uint32_t M = 0x73717368u;
    for (int op = 0; op < 2; op++) for (size_t off : offs) { Opt o; o.offset = off; auto lab = [&](const char *w) { return vfmt("%s, %s, image at offset %zu", w, op ? "sqfs_open_image" : "sqfs_init", off); };
        ctx.run(lab("every compression type"), [&, o, op] { auto im = mkimg(o); for (int x = 0; x < 65536; x++) check(im, {M, 4, 0, x}, 0, op && x < 40, x == 1); ctx.traces++; });
        ctx.run(lab("every major version"), [&, o, op] { auto im = mkimg(o); for (int x = 0; x < 65536; x++) for (int mi : {0, 1, 65535}) check(im, {M, x, mi, 1}, 0, op && x < 40, x == 4); ctx.traces++; });
        ctx.run(lab("every minor version"), [&, o, op] { auto im = mkimg(o); for (int x = 0; x < 65536; x++) for (int ma : {3, 4, 5}) check(im, {M, ma, x, 1}, 0, op && x < 40, x == 0); ctx.traces++; });
        ctx.run(lab("magic numbers with up to two wrong bits, every wrong byte, other byte orders"), [&, o, op] { auto im = mkimg(o); std::vector<uint32_t> m{M, 0x68737173u, 0, ~0u, 0x71736873u, 0x73687371u}; for (int i = 0; i < 32; i++) for (int j = i; j < 32; j++) m.push_back(M ^ 1u << i ^ (i == j ? 0 : 1u << j)); for (int k = 0; k < 4; k++) for (int v = 0; v < 256; v++) m.push_back((M & ~(255u << 8 * k)) | (uint32_t)v << 8 * k); for (uint32_t x : m) check(im, {x, 4, 0, 1}, 0, op && (x & 31) == 8, x == M); ctx.traces++; });
        ctx.run(lab("every combination of right and wrong fields"), [&, o, op] { auto im = mkimg(o); for (uint32_t m : {M, M ^ 1, 0x68737173u, 0u}) for (int ma : {0, 1, 3, 4, 5, 1024, 65535}) for (int mi : {0, 1, 2, 256, 65535}) for (int co : {0, 1, 2, 3, 4, 5, 6, 7, 256, 257, 65535}) check(im, {m, ma, mi, co}, 0, op, true); ctx.traces++; });
        for (int k = 0; k < 12; k++) ctx.run(lab(vfmt("allocation %d fails", k).c_str()), [&, o, op] { auto im = mkimg(o); for (int ex = 0; ex < 2; ex++) { sqfs fs; memset(&fs, 0xff, sizeof fs); long live = vfa.live; vfa.count = 0; vfa.failed = false; vfa.fail_at = k; sqfs_err e = op ? sqfs_open_image(&fs, im->base(), im->off()) : sqfs_init(&fs, im->base(), im->off()); vfa.fail_at = -1; REQ(!e || vfa.failed, "refused with %d without a reason", e); if (e) { REQ(vfa.live == live, "%ld blocks left allocated", vfa.live - live); e = sqfs_init(&fs, im->base(), im->off()); REQ(!e, "cannot be opened after the failure"); } use(&fs, im); sqfs_destroy(&fs); REQ(vfa.live == live, "%ld blocks left", vfa.live - live); ctx.states++; ctx.traces++; } }); }
    // features of valid images: with and without export table, fragments, ids; several images at once, opened and closed in every order
    ctx.run("images with and without tables", [&] { for (int x = 0; x < 64; x++) { Opt o; o.export_table = x & 1; o.md_comp = x & 2; o.tbl_comp = x & 4; o.frag_comp = x & 8; if (x & 16) o.ids = std::vector<uint32_t>(300, 7); auto im = x & 32 ? build(dir("", {reg("f", 5000, "C", false, 1)}), o) : mkimg(o); sqfs fs; long live = vfa.live; REQ(!sqfs_init(&fs, im->base(), 0), "valid image refused"); if (!(x & 32)) use(&fs, im); sqfs_destroy(&fs); REQ(vfa.live == live, "leak"); ctx.states++; ctx.traces++; } });
    { std::vector<int> rx(ctx.thorough() ? 9 : 7, 4); product(rx, [&](const std::vector<int> &d) { static ImageP im; std::string t; for (int i : d) t += vfmt(" %s%d", i & 1 ? "toggle " : "reject ", i / 2); if (ctx.only < 0 || ctx.only == ctx.cur + 1) {} ctx.run("handles:" + t, [&] { if (!im) im = mkimg(Opt()); static ImageP bad; if (!bad) { Opt o; o.compression = 5; bad = mkimg(o); } sqfs F[2]; bool on[2] = {false, false}; long live = vfa.live; for (int i : d) { int k = i / 2; if (!(i & 1)) { if (on[k]) continue; REQ(sqfs_init(&F[k], bad->base(), 0) == SQFS_BADCOMP, "bad image accepted"); } else if (on[k]) { sqfs_destroy(&F[k]); on[k] = false; } else { REQ(!sqfs_init(&F[k], im->base(), 0), "refused"); on[k] = true; } for (int q = 0; q < 2; q++) if (on[q]) use(&F[q], im); ctx.transitions++; } for (int q = 0; q < 2; q++) if (on[q]) sqfs_destroy(&F[q]); REQ(vfa.live == live, "leak"); ctx.states++; ctx.traces++; }); }); }
}
