// C05: every path of up to L components over an alphabet of names, dots and slashes, against component-wise resolution.
#include "pathmodel.hpp"
using namespace sq;
static ImageP im; static NodeP root; static std::unique_ptr<pm::Ident> id; static std::string L255(255, 'q'), L256(256, 'q');
static void mk() {
    if (im) return;
    auto A = dir("a", {text("...", "1"), dir("a", {text("a", "2"), text("ab", "3"), text("b", "4")}), text("ab", "5"), dir("b", {dir("a", {})})});
    root = dir("", {text("...", "6"), text(".a", "7"), dir("A", {text("a", "8")}), A, dir("ab", {text("a", "9"), dir("b", {text("ab", "x")})}), text("b", "y"), text("ba", "z"), mk(FIFO, "p")});
    auto by = dir("bytes"); for (int c = 1; c < 256; c++) if (c != '/' && c != '.') by->add(mk(c % 3 ? REG : sq::DIR, std::string(1, (char)c))); root->add(by);
    auto lg = dir("long", {text(L255, "255"), text(L256, "256"), text(std::string(254, 'q') + "r", "r")}); root->add(lg);
    sort_kids(*root); root->ext = true; id.reset(new pm::Ident(*root)); Opt o; o.md_comp = false; im = build(root, o);
}
static Fs &fs() { static Fs *f = new Fs(im); return *f; }
static void one(const std::string &p, bool dirs = true) { ctx.note("path \"%s\"", hexname(p).c_str()); pm::check_path(&fs().fs, root.get(), *id, p, false, "", "", dirs); ctx.traces++; }
void vf_enumerate() {
    vf_start_library(); mk();
    const std::vector<std::string> T{"a", "ab", "b", "x", ".", "..", "", "...", ".a"}; int L = ctx.thorough() ? 7 : 5;
    // cases: the first two components; all continuations inside
    for (int lead = 0; lead < 2; lead++) for (auto &t0 : T) for (auto &t1 : T) for (auto &t2 : T) ctx.run(vfmt("paths of up to %d components beginning with %s%s/%s/%s", L, lead ? "/" : "", t0.c_str(), t1.c_str(), t2.c_str()), [&] {
        std::string s = (lead ? "/" : "") + t0; if (t1 == "a" && t2 == "a") one(s); s += "/" + t1; if (t2 == "a") one(s); s += "/" + t2; if (L > 5 && ctx.states == 0) ctx.sample(ctx.desc);
        std::function<void(const std::string &, int)> rec = [&](const std::string &q, int d) { one(q, d < 2 || t0 == "a"); if (!d) return; for (auto &t : T) rec(q + "/" + t, d - 1); };
        rec(s, L - 3); ctx.states++; ctx.counts["path prefixes"]++;
    });
    // every single byte as a name, alone and extended, in both positions
    for (int c = 1; c < 256; c++) ctx.run(vfmt("byte 0x%02x as a name", c), [&] { std::string s(1, (char)c); for (std::string p : {"/bytes/" + s, "bytes//" + s, "bytes/" + s + "/", "bytes/" + s + s, "bytes/" + s + "a", "bytes/a" + s, s, "/" + s + "/a", "bytes/" + s + "/..", "./bytes/./" + s, "bytes/../bytes/" + s + "/x", "a/" + s}) one(p); ctx.states++; ctx.counts["bytes"]++; });
    // names and paths of many lengths
    for (int n = 0; n <= 300; n++) ctx.run(vfmt("name of %d bytes", n), [&] { std::string s(n, 'q'); for (std::string p : {"/long/" + s, "long/" + s + "/x", s, "long/" + s + "r", "long/" + s + "/", "long/./" + s}) one(p); ctx.states++; ctx.counts["lengths"]++; });
    for (int n : {100, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 10000, 65536}) for (int k = 0; k < 8; k++) ctx.run(vfmt("path of about %d bytes, form %d", n, k), [&] {
        auto rep = [&](const std::string &u, const std::string &tail) { std::string s; while ((int)(s.size() + u.size() + tail.size()) <= n) s += u; return s + tail; };
        switch (k) { case 0: one(rep("./", "a/a")); break; case 1: one(rep("/", "/a/ab")); break; case 2: one(rep("a/../", "b")); break; case 3: one(rep("a/a/../../", "ab/b/ab")); break; case 4: one(rep("a/", "a")); break; case 5: one(rep("../", "a")); break; case 6: one("/" + std::string(n, 'z')); break; case 7: one("a/" + rep("b/../", "") + std::string(n, 'y') + "/../a"); break; }
        ctx.states++; ctx.counts["long paths"]++;
    });
    // tables of inodes and of listings much longer than 64 KiB, stored as they are
    for (int h : {1, 7, 256}) for (int q = 0; q < 8; q++) ctx.run(vfmt("8000 objects in 16 directories, %d entries per header, part %d", h, q), [&] {
        auto r = dir(""); r->ext = true; for (int i = 0; i < 16; i++) { auto d = dir(vfmt("d%02d", i)); d->ext = true; d->hdr_max = h; d->index_mode = i % 3; for (int k = 0; k < 500; k++) { auto f = text(vfmt("%s%03d", std::string(i % 2 ? 20 : 2, 'n').c_str(), k), "x"); f->ext = k % 7 == 0; d->add(f); } r->add(d); }
        pm::Ident wide(*r); Opt o; o.md_comp = false; ImageP wi = build(r, o); Fs f(wi); for (int i = q; i < 16; i += 8) for (size_t k = 0; k < 500; k += ctx.thorough() ? 1 : 7) for (const char *lead : {"/", "d00/../"}) { Node *d = r->kids[i].get(); std::string p = lead + d->name + "/" + d->kids[k]->name; ctx.note("path \"%s\"", p.c_str()); pm::check_path(&f.fs, r.get(), wide, p, false, "", "", false); ctx.traces++; }
        ctx.states++; ctx.counts["wide images"]++; });
}
