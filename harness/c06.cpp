// C06: every link graph over a set of targets x every path of a set; chains of every length; targets and rests around every limit.
#include "pathmodel.hpp"
using namespace sq;
static const char *ALIAS = "/__memfs__/", *ALIAS2 = "/other/root/";
struct W {
    NodeP root; std::unique_ptr<pm::Ident> id; ImageP im; std::unique_ptr<Fs> fs;
    W(NodeP r, bool alias) : root(r) { sort_kids(*r); root->ext = true; id.reset(new pm::Ident(*r)); Opt o; o.md_comp = false; im = build(r, o); fs.reset(new Fs(im)); if (alias) { fs->fs.root_alias = ALIAS; fs->fs.root_alias2 = ALIAS2; } al = alias ? ALIAS : ""; al2 = alias ? ALIAS2 : ""; }
    std::string al, al2;
    void one(const std::string &p) {
        ctx.note("path \"%s\"", hexname(p).c_str()); pm::Outs nf = pm::outcomes(root.get(), p, false, al, al2), fo = pm::outcomes(root.get(), p, true, al, al2);
        pm::check_path(&fs->fs, root.get(), *id, p, true, fo, nf); ctx.traces++;
        // readlink: the object itself must be a link
        static char b[70000]; memset(b, 0x61, 3000); errno = 0; ssize_t n = squash_readlink(&fs->fs, p.c_str(), b, sizeof b); int e = errno; bool ok = false;
        for (auto &o : nf) { if (n >= 0 && o.n && o.n->kind == LNK) { pm::Walk w{root.get(), al, al2}; std::string t = w.strip(o.n->target); if ((size_t)n == t.size() && !memcmp(b, t.data(), n)) ok = true; } if (n < 0 && o.n && o.n->kind != LNK && e == EINVAL) ok = true; if (n < 0 && !o.n && (o.err == -1 || o.err == e)) ok = true; }
        if (!ok) vfail(vfmt("readlink(\"%s\") gave %zd %s '%s', expected %s", hexname(p).c_str(), n, errname(e).c_str(), n > 0 ? hexname(std::string(b, n)).c_str() : "", pm::show(nf).c_str()));
        // scandir follows
        pm::Outs d = pm::only(fo, [](Node *n) { return n->kind == sq::DIR; }, -1); struct SQUASH_DIRENT **l = nullptr; errno = 0; int c = squash_scandir(&fs->fs, p.c_str(), &l, 0, 0); e = errno; ok = false;
        for (auto &o : d) { if (c >= 0 && o.n && (int)o.n->kids.size() == c) { bool same = true; for (int i = 0; i < c; i++) same = same && o.n->kids[i]->name.substr(0, 255) == l[i]->d_name; ok = ok || same; } if (c < 0 && !o.n && (o.err == -1 || o.err == e)) ok = true; }
        if (c >= 0) { for (int i = 0; i < c; i++) vf_free(l[i]); vf_free(l); }
        if (!ok) vfail(vfmt("scandir(\"%s\") gave %d %s, expected %s", hexname(p).c_str(), c, errname(e).c_str(), pm::show(d).c_str())); ctx.transitions += 2;
    }
};
void vf_enumerate() {
    vf_start_library();
    // 1. every assignment of targets to three links (two in the root, one in a directory)
    std::vector<std::string> T{"f", "d", "l1", "l2", "d/l3", "/d/l3", "/l1", "../l1", "l3", "nope", "/", "../d/g", "d/../f", "l1/../f", "d/", "/__memfs__/d", "/other/root/f", "./d/./l3/h", ".", "../../f", "l2/h", "/d/h/../../f"};
    std::vector<std::string> P{"l1", "/l2", "d/l3", "l1/l3", "/l1/h", "l2/h/k", "d/l3/g", "l1/l2/l3", "l1/", "l1//", "l1/.", "l1/..", "l1/../f", "d/l3/../g", "d/l3/h", "l1/nope", "f/l1", "l2/l1/l2", "d/../l1", "nope/l1", "l1/h/../h/k"};
    if (ctx.thorough()) for (auto &a : {"l1", "l2", "d"}) for (auto &b : {"l1", "l2", "l3", "f", "d", ".."}) for (auto &c : {"l3", "g", "h", "."}) P.push_back(std::string(a) + "/" + b + "/" + c);
    size_t n = T.size();
    for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) ctx.run(vfmt("l1 -> %s, l2 -> %s, d/l3 -> each of %zu targets", T[a].c_str(), T[b].c_str(), n), [&] {
        for (size_t c = 0; c < n; c++) for (int al = 0; al < 2; al++) { if (al && !(ctx.thorough() || (a + b + c) % 4 == 0 || T[c][0] == '/' )) continue; ctx.note("d/l3 -> %s", T[c].c_str());
            W w(dir("", {dir("d", {text("g", "g"), dir("h", {text("k", "k"), lnk("up", "../../f")}), lnk("l3", T[c])}), text("f", "f"), lnk("l1", T[a]), lnk("l2", T[b])}), al);
            try { for (auto &p : P) w.one(p); } catch (VFail &f) { f.msg += vfmt(" (d/l3 -> %s%s)", T[c].c_str(), al ? ", alias configured" : ""); throw; } ctx.states++; }
        ctx.counts["pairs of link targets"]++; if (a == 4 && b == 9) ctx.sample(ctx.desc);
    });
    // 2. chains
    static const char *FORMS[] = {"relative", "absolute", "./", "through a directory", "in nested directories", "middle component", "aliased"};
    static const char *ENDS[] = {"file", "directory", "missing", "first link", "itself"};
    for (int len = 1; len <= (ctx.thorough() ? 70 : 40); len++) for (int form = 0; form < 7; form++) for (int end = 0; end < 5; end++) ctx.run(vfmt("chain of %d links (%s), ending in %s", len, FORMS[form], ENDS[end]), [&] {
        NodeP r = dir("", {text("f", "f"), dir("t", {text("g", "g")}), dir("s", {})}); Node *s = r->find("s");
        auto nm = [&](int i) { return vfmt("l%02d", i); };
        for (int i = 0; i < len; i++) {
            std::string endt = end == 0 ? "f" : end == 1 ? "t" : end == 2 ? "nope" : end == 3 ? nm(0) : nm(i); std::string tgt = i + 1 < len ? nm(i + 1) : endt; bool lastt = i + 1 == len; bool inlink = !lastt || end >= 3;
            switch (form) { case 0: r->add(lnk(nm(i), tgt)); break; case 1: r->add(lnk(nm(i), "/" + tgt)); break; case 2: r->add(lnk(nm(i), "././" + tgt)); break; case 3: r->add(lnk(nm(i), "t/../" + tgt)); break;
            case 4: s->add(lnk(nm(i), inlink ? "../s/" + tgt : "../" + tgt)); break; case 5: r->add(lnk(nm(i), inlink && end == 1 ? tgt + "/../t" : tgt)); break; case 6: r->add(lnk(nm(i), "/__memfs__/" + tgt)); break; }
        }
        W w(r, form == 6); std::string pre = form == 4 ? "s/" : "";
        for (int i : {0, 1, len / 2, len - 1, len - 32, len - 33, len - 31}) if (i >= 0 && i < len) for (std::string suf : {"", "/", "/g", "/.", "/nope", "/../f"}) w.one(pre + nm(i) + suf);
        ctx.states++; ctx.counts["chains"]++; if (len == 33 && form == 4) ctx.sample(ctx.desc);
    });
    // 3. 32 links in the components of one path, and trees of directories full of links
    for (int k : {1, 2, 8, 16, 31, 32, 33, 34, 64}) for (int kind = 0; kind < 3; kind++) ctx.run(vfmt("path through %d links, kind %d", k, kind), [&] {
        NodeP r = dir("", {text("f", "f"), dir("d", {text("g", "g")})}); r->add(lnk("here", kind == 0 ? "." : kind == 1 ? "/" : "./d/..")); W w(r, false); std::string p; for (int i = 0; i < k; i++) p += "here/"; for (auto t : {"f", "d", "d/g", "nope", ""}) w.one(p + t); ctx.states++; ctx.counts["paths through many links"]++;
    });
    // 4. lengths: targets, rests and names around every buffer size
    std::vector<int> Ls{1, 2, 254, 255, 256, 257, 258, 1000, 1023, 1024, 2000, 2030, 2038, 4095, 4096, 4097, 8193}; for (int i = 2040; i <= 2056; i++) Ls.push_back(i);
    if (ctx.thorough()) { for (int i : {8191, 8192, 20000, 65000}) Ls.push_back(i); for (int i = 1; i < 300; i++) Ls.push_back(i); for (int i = 1990; i < 2110; i++) Ls.push_back(i); }
    for (int l : Ls) for (int kind = 0; kind < 7; kind++) ctx.run(vfmt("target of %d bytes, kind %d, rests of many lengths", l, kind), [&] {
        auto fill = [&](const std::string &pre, const std::string &u, const std::string &post) { std::string s = pre; while (s.size() + u.size() + post.size() <= (size_t)l) s += u; while (s.size() + post.size() < (size_t)l) s += "/"; return s + post; };
        std::string t; switch (kind) { case 0: t = fill("", "./", "d"); break; case 1: t = fill("/", "/", "d"); break; case 2: t = fill("", "d/../", "d"); break; case 3: t = std::string(l, 'n'); break; case 4: t = fill("/__memfs__/", "./", "d"); break; case 5: t = fill("lnk/", "x/", "y"); break; default: t = fill("../", "../", "d"); }
        if (t.empty()) return;
        NodeP r = dir("", {dir("d", {text("g", "g"), dir("e", {text("i", "i")})}), lnk("lnk", t), lnk("ln2", "lnk"), lnk("ln3", "d/../lnk/e")}); W w(r, kind == 4);
        for (auto p : {"lnk", "lnk/g", "lnk/e/i", "ln2/e", "ln3/i", "lnk/nope", "/d/../lnk/e/"}) w.one(p);
        for (int rl : {10, 255, 256, 300, 1020, 1024, 2000, 2040, 2046, 2047, 2048, 2049, 2050, 4100}) for (int rk = 0; rk < 3; rk++) { if (!ctx.thorough() && ((rk && rl + l > 4200) || (l > 5000 && rl != 10))) continue; std::string s = "lnk/"; if (rk == 0) { while ((int)s.size() + 2 < rl) s += "./"; s += "g"; } else if (rk == 1) s += std::string(rl, 'k'); else { while ((int)s.size() + 5 < rl) s += "e/../"; s += "e"; } w.one(s); }
        if (l < 2100) for (int x = 2040 - l; x <= 2056 - l; x++) if (x > 5) { std::string s = "lnk/"; while ((int)s.size() < x + 3) s += "/"; w.one(s + "g"); }
        ctx.states++; ctx.counts["target lengths"]++;
    });
}
