// C29: the image and every input string lie in read-only memory with nothing accessible directly before or behind them, at every
// alignment and offset; every operation gives the same result as on an ordinary copy.
#include "xops.hpp"
#include "dirs.hpp"
#include <sys/mman.h>
#include <unistd.h>
// [p, p + len) readable, what lies around is not (up to page granularity on the slack side)
struct Ro { char *map; size_t n; uint8_t *p; size_t slack;
    Ro(const void *src, size_t len, bool tight_end, size_t shift, size_t hidden = 0) {   // hidden: that many leading bytes (whole pages) are made inaccessible
        size_t body = (len + shift + 4095) / 4096 * 4096; n = body + 8192; map = (char *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (map == MAP_FAILED) vfail("VF: mmap"); memset(map, 0xE7, n);
        p = (uint8_t *)map + 4096 + (tight_end ? body - len : shift); memcpy(p, src, len); mprotect(map, n, PROT_NONE); mprotect(map + 4096, body, PROT_READ); if (hidden) mprotect(p, hidden, PROT_NONE); }
    ~Ro() { munmap(map, n); } Ro(const Ro &) = delete; };
struct Str : Ro { Str(const std::string &s, bool end = true) : Ro(s.c_str(), s.size() + 1, end, 0) {} operator const char *() const { return (const char *)p; } };
struct RoImage { std::unique_ptr<Ro> ro; ImageP im; size_t hide;
    RoImage(const ImageP &src, size_t offset, bool end, size_t shift, bool hideoff) { std::vector<uint8_t> v(offset, 0x33); v.insert(v.end(), src->mem + src->off(), src->mem + src->len); hide = hideoff ? offset : 0; ro.reset(new Ro(v.data(), v.size(), end, shift, hide)); im = std::make_shared<Image>(); im->opt = src->opt; im->opt.offset = offset; im->mem = ro->p; im->len = v.size(); im->root = src->root; }
    ~RoImage() { im->mem = nullptr; } };
struct Place { const char *name; size_t offset; bool end; size_t shift; bool hide; };
static std::vector<Place> places() { return {{"end at a page end", 0, true, 0, false}, {"start at a page start", 0, false, 0, false}, {"shifted by 1", 0, false, 1, false}, {"shifted by 3", 0, false, 3, false}, {"shifted by 4094", 0, false, 4094, false}, {"offset 4096, the bytes in front inaccessible", 4096, false, 0, true}, {"offset 12288, the bytes in front inaccessible", 12288, false, 0, true}, {"offset 7, end at a page end", 7, true, 0, false}, {"offset 4099", 4099, false, 0, false}}; }
static std::string pathop(sqfs *f, int k, const char *p) {
    char b[300]; struct stat st; memset(&st, 0, sizeof st); errno = 0; switch (k) {
    case 0: return squash_stat(f, p, &st) ? errname(errno) : vfmt("%o %ld", st.st_mode, (long)st.st_ino);
    case 1: return squash_lstat(f, p, &st) ? errname(errno) : vfmt("%o %ld", st.st_mode, (long)st.st_ino);
    case 2: { int fd = squash_open(f, p); if (fd < 0) return errname(errno); ssize_t n = squash_read(fd, b, 300); std::string r = n < 0 ? errname(errno) : bytes(b, n); squash_close(fd); return r; }
    case 3: { SQUASH_DIR *d = squash_opendir(f, p); if (!d) return errname(errno); std::string r; while (auto *e = squash_readdir(d)) r += std::string(e->d_name) + " "; squash_closedir(d); return r; }
    case 4: { ssize_t n = squash_readlink(f, p, b, 300); return n < 0 ? errname(errno) : std::string(b, n); }
    case 5: { SQUASH_DIRENT **l; int n = squash_scandir(f, p, &l, 0, 0); if (n < 0) return errname(errno); std::string r; for (int i = 0; i < n; i++) { r += l[i]->d_name; vf_free(l[i]); } vf_free(l); return r; }
    case 6: { Str e("ext"); auto q = squash_extract(f, p, e); if (!q) return errname(errno); FILE *g = fopen(q, "rb"); size_t n = g ? fread(b, 1, 300, g) : 0; if (g) fclose(g); std::string r = bytes(b, n); squash_extract_clear_cache(); return r; }
    default: { sqfs_inode in; short fo = 0; if (sqfs_inode_get(f, &in, sqfs_inode_root(f))) return "root"; sqfs_err e = sqfs_lookup_path(f, &in, p, &fo); return vfmt("%d %d %u", e, fo, !e && fo ? (unsigned)in.base.inode_number : 0); } }
}
static NodeP small() { auto r = dir("", {text("a", "content of a"), dir("d", {text("x", "content of x"), lnk("l", "../a"), lnk("abs", "/a"), lnk("u", "x/")}), text("e", ""), lnk("l", "d/x"), lnk("loop", "loop"), lnk("m", "d"), lnk("to", "nothing")}); r->kids[1]->list_at = 8180; r->list_at = 8100; sort_kids(*r); return r; }
void vf_enumerate() {
    vf_start_library(); bool T = ctx.thorough();
    static ImageP im; auto get = [] { if (!im) { static NodeP t = tree(); im = build(t, opts()); } return im; }; static auto ops = xops(); static std::map<std::string, std::string> want;
    auto expect = [&](const XOp &o) { auto &w = want[o.name]; if (w.empty()) { Fs f(get()); w = o.go(&f.fs); } return w; };
    auto same = [&](const XOp &o, sqfs *f) { std::string r = o.go(f); ctx.transitions++; std::string w = expect(o); REQ(r == w, "%s gives %.300s, on an ordinary copy %.300s", o.name.c_str(), r.c_str(), w.c_str()); };
    for (auto &pl : places()) for (size_t i = 0; i < ops.size(); i++) ctx.run(vfmt("image %s: %s, then each operation", pl.name, ops[i].name.c_str()), [&] { RoImage r(get(), pl.offset, pl.end, pl.shift, pl.hide); for (size_t j = 0; j < ops.size(); j++) { if (!T && ops[j].name.find("extract") == 0 && j != i) continue; Fs f(r.im); ctx.note("then %s", ops[j].name.c_str()); same(ops[i], &f.fs); same(ops[j], &f.fs); if (T) same(ops[i], &f.fs); } ctx.states += ops.size(); ctx.traces++; });
    // the same image at nine places open at once
    ctx.run("the image at nine places at once", [&] { std::vector<std::unique_ptr<RoImage>> r; std::vector<std::unique_ptr<Fs>> f; for (auto &pl : places()) { r.emplace_back(new RoImage(get(), pl.offset, pl.end, pl.shift, pl.hide)); f.emplace_back(new Fs(r.back()->im)); } for (auto &o : ops) for (auto &x : f) same(o, &x->fs); f.clear(); ctx.states += 9; ctx.traces++; });
    // damaged blocks in read-only memory
    for (auto &pl : places()) { if (!T && pl.shift && pl.shift != 3) continue; ctx.run(vfmt("image %s: every block damaged", pl.name), [&] { auto m = get(); size_t step = T ? 1 : 7, k = 0; for (auto &b : m->cblocks) { if (k++ % step) continue; for (int how = 0; how < 2; how++) { Bytes keep(m->mem + b.pos, m->mem + b.pos + b.size); if (how) memset(m->mem + b.pos, 0, b.size); else m->mem[b.pos + b.size / 2] ^= 0x55, m->mem[b.pos] ^= 0xff; { RoImage r(m, pl.offset, pl.end, pl.shift, pl.hide); Fs ff(r.im); for (auto &o : ops) if (o.name.find("extract") != 0) { ctx.note("block at %lu: %s", (long)b.pos, o.name.c_str()); o.go(&ff.fs); ctx.transitions++; } } memcpy(m->mem + b.pos, keep.data(), keep.size()); } ctx.states++; } ctx.traces++; }); }
    // names, targets and paths as read-only strings that end at, and begin at, a page edge
    static const char *P[] = {"", "/", ".", "..", "a", "/a", "a/", "d", "d/", "/d/x", "d//x", "d/./x", "d/../a", "d/l", "d/abs", "d/u", "e", "l", "l/", "l/x", "loop", "m", "m/", "m/x", "m/l", "m/../a", "to", "to/x", "no", "no/", "d/no", "a/x", "/////", "d/x/..", "..//a", "m/l/", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"};
    for (auto &pl : places()) for (int end = 0; end < 2; end++) for (int k = 0; k < 8; k++) ctx.run(vfmt("image %s, path operation %d, strings %s", pl.name, k, end ? "before a page end" : "at a page start"), [&] { static ImageP s; if (!s) s = build(small()); RoImage r(s, pl.offset, pl.end, pl.shift, pl.hide); std::vector<std::string> all(P, P + sizeof P / sizeof *P); for (int n : {100, 255, 256, 257, 2040, 2047, 2048, 2049, 4000}) { all.push_back(std::string(n, 'n')); std::string q; while ((int)q.size() + 4 < n) q += "d/.."[0] == 'd' ? "d/../" : ""; q += "a"; all.push_back(q); } for (auto &p : all) { if (p.empty()) continue; std::string w; { Fs f(s); std::string c = p; w = pathop(&f.fs, k, c.c_str()); } Fs f(r.im); Str g(p, end); ctx.note("%s", p.substr(0, 60).c_str()); std::string x = pathop(&f.fs, k, g); REQ(x == w, "%s of %.60s gives %.200s, with ordinary memory %.200s", "operation", p.c_str(), x.c_str(), w.c_str()); ctx.transitions++; } ctx.states += all.size(); ctx.traces++; });
    // directories
    for (size_t n : {0, 1, 2, 3, 5, 255, 256, 257, 600}) for (auto &pl : places()) for (int ix = 0; ix < 3; ix++) ctx.run(vfmt("image %s: directory of %zu entries, index %d", pl.name, n, ix), [&] { auto r0 = dir(""); auto d = dir("d"); d->ext = ix > 0 || n > 300; d->index_mode = ix; d->hdr_max = ix == 2 ? 50 : 256; for (size_t i = 0; i < n; i++) d->add(lnk(vfmt("k%04zu", i), "t")); r0->add(d); Opt o; o.export_table = ix != 1; o.md_comp = o.tbl_comp = ix != 0; auto m = build(r0, o); RoImage r(m, pl.offset, pl.end, pl.shift, pl.hide); Fs f(r.im); std::string w; for (size_t i = 0; i < n; i++) w += vfmt("k%04zu ", i); std::string got = pathop(&f.fs, 3, "/d"); REQ(got == (n ? w : ""), "listing gives %.200s", got.c_str()); for (size_t i = 0; i < n; i += n > 20 ? 37 : 1) { Str nm(vfmt("d/k%04zu", i)); REQ(pathop(&f.fs, 4, nm) == "t", "readlink of entry %zu", i); } Str no("d/k9999"), lo("d/a"); REQ(pathop(&f.fs, 1, no) == "ENOENT" && pathop(&f.fs, 1, lo) == "ENOENT", "an absent name"); ctx.states++; ctx.transitions += n; ctx.traces++; });
    // the last bytes of the image belong to a block or table: nothing behind them is read
    for (int v = 0; v < 12; v++) for (size_t ids : {1, 2, 3, 2047, 2048, 2049}) ctx.run(vfmt("image form %d with %zu ids ending at a page end", v, ids), [&] { Opt o; o.md_comp = v & 1; o.tbl_comp = v & 2; o.export_table = v >= 4; o.frag_comp = v >= 8; o.ids.assign(ids, 0); for (size_t i = 0; i < ids; i++) o.ids[i] = i; auto r0 = dir("", {text("a", "content"), reg("b", 5000, v & 1 ? "U" : "C", v & 2, 4), lnk("l", "a")}); r0->kids[0]->uid = ids - 1; auto m = build(r0, o); RoImage r(m, 0, true, 0, false); Fs f(r.im); for (size_t i = 0; i < ids; i++) { sqfs_id_t q = 0; REQ(!sqfs_id_get(&f.fs, i, &q) && q == (sqfs_id_t)i, "id %zu", i); } for (uint32_t n = 1; o.export_table && n <= m->inodes; n++) { sqfs_inode_id q; REQ(!sqfs_export_inode(&f.fs, n, &q), "export %u", n); } for (const char *p : {"a", "b", "l"}) for (int k : {0, 1, 2, 4}) { Fs g(m); Str s(p); std::string w = pathop(&g.fs, k, p); REQ(pathop(&f.fs, k, s) == w, "operation %d of %s", k, p); ctx.transitions++; } ctx.states++; ctx.traces++; });
    // refused headers: nothing but the header is looked at
    ctx.run("refused headers with nothing behind them", [&] { auto m = build(small()); struct Pt { int at, len; uint64_t v; sqfs_err e; }; for (Pt p : {Pt{0, 4, 0x68737173, SQFS_BADFORMAT}, Pt{0, 4, 0, SQFS_BADFORMAT}, Pt{28, 2, 3, SQFS_BADVERSION}, Pt{28, 2, 5, SQFS_BADVERSION}, Pt{30, 2, 1, SQFS_BADVERSION}, Pt{20, 2, 2, SQFS_BADCOMP}, Pt{20, 2, 0, SQFS_BADCOMP}}) for (size_t off : {0, 4096}) { Bytes h(m->mem, m->mem + 96); memcpy(&h[p.at], &p.v, p.len); Bytes v(off, 0x33); put(v, h.data(), 96); Ro r(v.data(), v.size(), true, 0); sqfs f; memset(&f, 0xa5, sizeof f); sqfs_err e = sqfs_init(&f, r.p, off); REQ(e == p.e, "header with %d at %d gives %d", (int)p.v, p.at, e); ctx.transitions++; } ctx.states++; ctx.traces++; });
}
