// C16: the result of every operation is the same on a fresh image as in every reachable state of the caches (breadth-first over cache
// states, replaying the real code from a fresh image) and after every bounded history, on one and on two images.
#include "scene.hpp"
using namespace sq;
// image v: same layout for every v, other contents
static ImageP general(int v) {
    auto r = dir(""); r->ext = true; Opt o; o.frag_cap = 4096; o.extra_frags = 700; o.ids = std::vector<uint32_t>(3000, 0); for (int i = 0; i < 3000; i++) o.ids[i] = i * 3 + v;
    for (int i = 0; i < 6; i++) { auto f = reg(vfmt("f%d", i), 4096 * (i % 3) + 900 + i * 100, i & 1 ? "UC" : "CU", true, 10 * v + i + 1); f->frag_group = i; f->inode_at = i % 2 ? 8180 : 100; f->mtime = 1000 + v * 100 + i; r->add(f); }
    r->add(lnk("l", v ? "t-one" : "t-two")); auto d = dir("d"); d->list_at = 8100; for (int i = 0; i < 12; i++) { auto e = text(vfmt("e%02d", i), vfmt("%d/%d", v, i)); e->inode_at = i % 3 ? -1 : 4000; d->add(e); } d->inode_at = 50; r->add(d); auto d2 = dir("q"); d2->list_at = 10; d2->inode_at = 60; d2->add(lnk("m", "n")); r->add(d2); sort_kids(*r); return build(r, o);
}
static ImageP frags(int v) { auto r = dir(""); for (int i = 0; i < 5; i++) { auto f = reg(vfmt("f%d", i), 500 + i, "C", true, 10 * v + i + 1); f->frag_group = i; r->add(f); } auto b = reg("z", 9000, "CUC", false, 77 + v); r->add(b); return build(r); }
static ImageP bigs(int v, int n) { auto r = dir(""); Opt o; o.export_table = false; for (int i = 0; i < n; i++) { auto f = reg(vfmt("b%02d", i), 4096ull * (2060 + i) + 5, i % 3 == 1 ? "H" : "C", i & 1, 20 * v + i + 1); f->coarse = true; if (i == 3) f->layout = std::string(2000, 'H') + "C"; f->number = i == 0 ? 0xffffffffu : i == 1 ? 0xfffffffeu : i == 2 ? 1 : i == 5 ? 0x7fffffffu : 100 + i; r->add(f); } r->number = 50; return build(r, o); }
static std::vector<Scene> scenes() {
    std::vector<Scene> S; typedef std::vector<std::pair<const char *, std::function<std::string(sqfs *)>>> V;
    static char names[64][8]; static std::vector<std::string> keep;
    V gen; for (int i = 0; i < 6; i++) { const char *p = (new std::string(vfmt("f%d", i)))->c_str(); gen.push_back({(new std::string(vfmt("stat f%d", i)))->c_str(), [p](sqfs *f) { return sstat(f, p); }}); gen.push_back({(new std::string(vfmt("read f%d", i)))->c_str(), [p](sqfs *f) { return sread(f, p, 0, 20000); }}); }
    gen.push_back({"tail f2", [](sqfs *f) { return sread(f, "f2", 8192, 9); }}); gen.push_back({"block 1 of f2", [](sqfs *f) { return sread(f, "f2", 5000, 9); }}); gen.push_back({"readlink l", [](sqfs *f) { return slink(f, "l"); }}); gen.push_back({"list d", [](sqfs *f) { return slist(f, "d"); }}); gen.push_back({"list /", [](sqfs *f) { return slist(f, "/"); }}); gen.push_back({"read d/e11", [](sqfs *f) { return sread(f, "d/e11", 0, 20); }}); gen.push_back({"!stat d/nope", [](sqfs *f) { return sstat(f, "d/nope"); }}); gen.push_back({"readlink q/m", [](sqfs *f) { return slink(f, "q/m"); }});
    gen.push_back({"id 0", [](sqfs *f) { sqfs_id_t v; return sqfs_id_get(f, 0, &v) ? std::string("error") : vfmt("%u", (unsigned)v); }}); gen.push_back({"id 2999", [](sqfs *f) { sqfs_id_t v; return sqfs_id_get(f, 2999, &v) ? std::string("error") : vfmt("%u", (unsigned)v); }}); gen.push_back({"export 3", [](sqfs *f) { sqfs_inode_id v; return sqfs_export_inode(f, 3, &v) ? std::string("error") : vfmt("%lx", (long)v); }});
    V fr; for (int i = 0; i < 5; i++) { const char *p = (new std::string(vfmt("f%d", i)))->c_str(); fr.push_back({(new std::string(vfmt("read f%d", i)))->c_str(), [p](sqfs *f) { return sread(f, p, 0, 20000); }}); } for (int i = 0; i < 3; i++) fr.push_back({(new std::string(vfmt("block %d of z", i)))->c_str(), [i](sqfs *f) { return sread(f, "z", 4096 * i, 100); }});
    V bg; for (int i = 0; i < 11; i++) for (int k = 0; k < (i < 4 ? 2 : 1); k++) { std::string *p = new std::string(vfmt("b%02d", i)); long pos = k ? 4096L * (2059 + i) + 4090 : 4096L * 2052 + 4090; bg.push_back({(new std::string(vfmt("%s at block %ld", p->c_str(), pos / 4096)))->c_str(), [p, pos](sqfs *f) { return sread(f, p->c_str(), pos, 20); }}); }
    auto one = [&](const char *n, std::function<ImageP(int)> m, V v, int q, int t) { Scene s; s.name = n; s.images = [m] { return std::vector<ImageP>{m(0)}; }; stdops(s.ops, 0, v); s.quick_states = q; s.thorough_states = t; s.both = false; S.push_back(s); };
    auto two = [&](const char *n, std::function<ImageP(int)> m, V v, int q, int t) { Scene s; s.name = n; s.images = [m] { return std::vector<ImageP>{m(0), m(1)}; }; stdops(s.ops, 0, v); stdops(s.ops, 1, v); s.quick_states = q; s.thorough_states = t; s.both = true; S.push_back(s); };
    one("objects in many metadata blocks", general, gen, 400, 8000); one("fragments and data blocks", frags, fr, 4000, 100000); one("large files", [](int v) { return bigs(v, 11); }, bg, 200, 6000);
    V gs; for (size_t i = 1; i < gen.size(); i += 3) gs.push_back(gen[i]); for (auto &g : gen) if (!strncmp(g.first, "id ", 3) || !strncmp(g.first, "export ", 7)) { bool have = false; for (auto &x : gs) have = have || !strcmp(x.first, g.first); if (!have) gs.push_back(g); } V fs{fr[0], fr[1], fr[2], fr[3], fr[5], fr[6]};
    two("two images, many metadata blocks", general, gs, 300, 8000); two("two images, fragments and data blocks", frags, fs, 1500, 50000); V bs{bg[0], bg[1], bg[2], bg[4], bg[6], bg[8]}; two("two images, large files", [](int v) { return bigs(v, 5); }, bs, 150, 4000);
    return S;
}
void vf_enumerate() {
    vf_start_library(); static auto S = scenes();
    for (auto &s : S) for (size_t i = 0; i < s.ops.size(); i++) ctx.run(vfmt("%s: cache states reachable after %s", s.name.c_str(), s.ops[i].name.c_str()), [&] { s.prep(); bfs(s, i); if (!i) ctx.sample(ctx.desc); });
    // every history of three, the whole tail verified
    for (auto &s : S) for (size_t i = 0; i < s.ops.size(); i++) for (size_t j = 0; j < s.ops.size(); j++) { if (s.name.find("large") != std::string::npos && !ctx.thorough() && (i + j) % 3) continue; ctx.run(vfmt("%s: %s, %s, then everything", s.name.c_str(), s.ops[i].name.c_str(), s.ops[j].name.c_str()), [&] { s.prep(); for (size_t k = 0; k < s.ops.size(); k++) { World w = s.fresh(); s.step(w, i); s.step(w, j); s.step(w, k); if (ctx.thorough()) for (size_t m = 0; m < s.ops.size(); m++) s.step(w, (k + m) % s.ops.size()); ctx.states++; } ctx.traces += s.ops.size(); }); }
    // long histories: every rotation and stride over the operations, three rounds
    for (auto &s : S) { size_t n = s.ops.size(); for (size_t st = 1; st < n; st++) ctx.run(vfmt("%s: three rounds with stride %zu", s.name.c_str(), st), [&] { s.prep(); for (size_t b = 0; b < n; b += ctx.thorough() ? 1 : 3) { World w = s.fresh(); size_t x = b; for (size_t k = 0; k < 3 * n; k++) { ctx.note("start %zu, step %zu", b, k); s.step(w, x); x = (x + st) % n; } ctx.states++; ctx.traces++; } }); }
    // n other accesses between two equal ones, for every n
    for (auto &s : S) { size_t n = s.ops.size(); for (size_t i = 0; i < n; i++) ctx.run(vfmt("%s: %s before and after 0..%zu others", s.name.c_str(), s.ops[i].name.c_str(), n), [&] { s.prep(); for (size_t k = 0; k <= n; k++) { World w = s.fresh(); s.step(w, i); for (size_t m = 1; m <= k; m++) { size_t o = (i + m) % n; s.step(w, o); } ctx.note("%zu others", k); s.step(w, i); s.step(w, (i + 1) % n); s.step(w, i); ctx.states++; ctx.traces++; } }); }
    // images opened one after the other in the same structure and at the same address: nothing of the earlier one may remain
    for (auto &s : S) if (s.both) { size_t n = s.ops.size(), h = n / 2; for (size_t i = 0; i < h; i++) for (size_t v = 0; v < 2; v++) ctx.run(vfmt("%s: %s, then other images in its place", s.name.c_str(), s.ops[v * h + i].name.c_str()), [&] { s.prep(); size_t len = 0; for (auto &m : s.im) len = std::max(len, m->len); auto *room = (uint8_t *)malloc(len); std::unique_ptr<uint8_t, void (*)(void *)> hold(room, free); alignas(16) static char place[sizeof(Fs)];
        auto with = [&](size_t img, std::vector<size_t> ops, bool same) { ImageP im = s.im[img]; if (same) { memcpy(room, im->mem, im->len); auto c = std::make_shared<Image>(); c->opt = im->opt; c->mem = room; im = c; } World w; w.f.resize(2); struct Put { World &w; size_t img; ImageP im; Put(World &w_, size_t i, ImageP m) : w(w_), img(i), im(m) { w.f[i].reset(new (place) Fs(m)); } ~Put() { w.f[img].release()->~Fs(); if (im.use_count()) im->mem = keepmem ? nullptr : im->mem; } bool keepmem = false; } put(w, img, im); put.keepmem = same;
            for (size_t o : ops) { std::string r = s.ops[o].go(w); ctx.transitions++; if (r != s.base[o]) vfail(vfmt("%s gives %s, on a fresh image %s", s.ops[o].name.c_str(), r.c_str(), s.base[o].c_str())); } };
        for (int same = 0; same < 2; same++) for (size_t j = 0; j < h; j++) { ctx.note("%s image memory, second: %s", same ? "the same" : "other", s.ops[(1 - v) * h + j].name.c_str()); with(v, {v * h + i}, same); with(1 - v, {(1 - v) * h + j, (1 - v) * h + i}, same); with(v, {v * h + j, v * h + i}, same); ctx.states++; } ctx.traces++; }); }
    // metadata blocks one by one: an inode in each of 14 blocks, every number of other blocks in between, both directions, reads across block edges
    ctx.run("inodes in 14 metadata blocks: every distance", [&] { auto r = dir(""); r->ext = true; std::vector<NodeP> v; for (int i = 0; i < 14; i++) { auto l = lnk(vfmt("l%02d", i), std::string(40, 'a' + i)); l->mtime = 5000 + i; l->inode_at = i & 1 ? 8150 : 4000; v.push_back(l); r->add(l); } Opt o; o.export_table = false; auto im = build(r, o);
        auto look = [&](Fs &f, int i) { sqfs_inode in; REQ(!sqfs_inode_get(&f.fs, &in, v[i]->ref), "inode %d cannot be read", i); char b[64]; size_t n = 64; REQ(in.base.mtime == v[i]->mtime, "inode %d has time %u", i, in.base.mtime); REQ(!sqfs_readlink(&f.fs, &in, b, &n) && v[i]->target == b, "target of %d", i); ctx.transitions++; };
        for (int a = 0; a < 14; a++) for (int st = 1; st < 14; st++) for (int n = 0; n < 14; n++) for (int rev = 0; rev < 2; rev++) { Fs f(im); ctx.note("first %d, stride %d, %d others", a, st, n); look(f, a); for (int k = 1; k <= n; k++) look(f, (a + (rev ? 14 * st - st * k % 14 : st * k)) % 14); look(f, a); for (int k = n; k >= 1; k--) look(f, (a + st * k) % 14); ctx.states++; } ctx.traces++; });
}
