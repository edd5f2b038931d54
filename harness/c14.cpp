// C14: every small tree x every set of pruned directories x every point of closing; deep and long paths; interleaved traversals.
#include "dirs.hpp"
using namespace dirs;
struct Ev { bool end; Node *n; std::string path; };
static void expect(Node *d, const std::string &pre, const std::set<Node *> &prune, std::vector<Ev> &out) { for (auto &k : d->kids) { std::string p = pre.empty() ? k->name : pre + "/" + k->name; out.push_back({false, k.get(), p}); if (k->kind == sq::DIR && !prune.count(k.get())) { expect(k.get(), p, prune, out); out.push_back({true, k.get(), p}); } } }
static void step(sqfs_traverse &t, const std::vector<Ev> &w, size_t &i, const std::set<Node *> &prune, bool twice) {
    ctx.note("step %zu", i); sqfs_err e = (sqfs_err)55; bool r = sqfs_traverse_next(&t, &e); ctx.transitions++; REQ(e == SQFS_OK, "step %zu reports error %d", i, e);
    if (i >= w.size()) { REQ(!r, "an object after the end"); return; }
    REQ(r, "end reported after %zu of %zu steps", i, w.size()); const Ev &x = w[i];
    REQ(!!t.dir_end == x.end, "step %zu is %s, expected %s '%s'", i, t.dir_end ? "an end marker" : "an object", x.end ? "the end marker of" : "object", hexname(x.path).c_str());
    REQ(x.path == t.path, "step %zu has the path '%s', expected '%s'", i, hexname(t.path).c_str(), hexname(x.path).c_str());
    if (!x.end) { REQ(x.n->name == sqfs_dentry_name(&t.entry) && sqfs_dentry_inode_num(&t.entry) == x.n->number && sqfs_dentry_inode(&t.entry) == x.n->ref, "step %zu has the wrong entry", i); if (prune.count(x.n)) { REQ(sqfs_traverse_prune(&t) == SQFS_OK, "prune failed"); if (twice) sqfs_traverse_prune(&t); } }
    i++;
}
static void trav(sqfs *fs, Node *start, const std::set<Node *> &prune, long closeat, bool byinode, bool twice = false) {
    std::vector<Ev> w; expect(start, "", prune, w); long l0 = vfa.live; sqfs_traverse t; memset(&t, 0xc3, sizeof t); sqfs_err e;
    if (byinode) { sqfs_inode ino; e = sqfs_inode_get(fs, &ino, start->ref); REQ(!e, "inode"); e = sqfs_traverse_open_inode(&t, fs, &ino); } else e = sqfs_traverse_open(&t, fs, start->ref); REQ(!e, "open failed with %d", e);
    size_t i = 0; while (i < w.size() && (closeat < 0 || (long)i < closeat)) step(t, w, i, prune, twice); if (closeat < 0 || closeat > (long)w.size()) for (int k = 0; k < 3; k++) step(t, w, i, prune, twice);
    sqfs_traverse_close(&t); sqfs_traverse_close(&t); ctx.traces++; (void)l0;
}
// all ordered forests with n nodes; a node is written as D(children) or one of the file kinds
static void forests(int n, const std::function<void(const std::string &)> &f, std::string pre = "") {
    // code: sequence of tokens: 'f' file, '(' open directory, ')' close directory; n = nodes left
    std::function<void(std::string &, int, int)> rec = [&](std::string &s, int left, int open) { if (!left && !open) { f(s); return; } if (left) { s.push_back('f'); rec(s, left - 1, open); s.back() = '('; rec(s, left - 1, open + 1); s.pop_back(); } if (open) { s.push_back(')'); rec(s, left, open - 1); s.pop_back(); } };
    std::string s = pre; rec(s, n, 0);
}
static NodeP parse(const std::string &s, std::vector<Node *> &ds) { auto r = dir(""); r->ext = true; std::vector<Node *> st{r.get()}; int i = 0; for (char c : s) { if (c == ')') { st.pop_back(); continue; } std::string nm = vfmt("%02d%s", i, i % 3 == 1 ? "long-name" : i % 3 == 2 ? "x" : ""); Node *n = st.back()->add(entry(c == '(' ? sq::DIR : i % 6 + 2, nm)); i++; if (c == '(') { ds.push_back(n); st.push_back(n); } } return r; }
void vf_enumerate() {
    vf_start_library(); int N = ctx.thorough() ? 7 : 5;
    for (int n = 0; n <= N; n++) forests(n, [&](const std::string &code) { ctx.run("tree " + (code.empty() ? "(empty)" : code) + ": every set of pruned directories, every closing point", [&] {
        std::vector<Node *> ds; auto r = parse(code, ds); Opt o; o.md_comp = false; ImageP im = build(r, o); Fs fs(im);
        for (size_t m = 0; m < (1u << ds.size()); m++) { std::set<Node *> p; for (size_t i = 0; i < ds.size(); i++) if (m >> i & 1) p.insert(ds[i]); trav(&fs, r.get(), p, -1, m & 1, m & 2); for (long c = 0; c <= 2 * n + 1; c++) { if (m && m + 1 != (1u << ds.size()) && !ctx.thorough()) break; trav(&fs, r.get(), p, c, false); } }
        for (auto *d : ds) trav(&fs, d, {}, -1, true);
        // closing leaves nothing behind
        long l0 = vfa.live; trav(&fs, r.get(), {}, -1, false); trav(&fs, r.get(), {}, n, false); REQ(vfa.live == l0, "%ld blocks left behind", vfa.live - l0);
        // two traversals at the same time, every relative speed
        for (int sp = 1; sp <= 3; sp++) { std::vector<Ev> a, b; expect(r.get(), "", {}, a); Node *st = ds.empty() ? r.get() : ds[0]; expect(st, "", {}, b); sqfs_traverse t, u; sqfs_err e = sqfs_traverse_open(&t, &fs.fs, r->ref); REQ(!e, "open"); e = sqfs_traverse_open(&u, &fs.fs, st->ref); REQ(!e, "open"); size_t i = 0, j = 0; for (int k = 0; k < (int)(a.size() + b.size()) * 3 + 6; k++) { if (k % (sp + 1)) step(t, a, i, {}, 0); else step(u, b, j, {}, 0); } sqfs_traverse_close(&t); sqfs_traverse_close(&u); }
        ctx.states++; ctx.counts["trees"]++; if (code == "f(f(f))") ctx.sample(ctx.desc); }); });
    // path lengths around every growth of the path buffer
    for (int len = 1; len <= 256; len++) for (int depth : {1, 2, 3, 5, 9}) { if (!ctx.thorough() && depth > 3 && len % 5) continue; ctx.run(vfmt("depth %d, names of %d bytes", depth, len), [&] { auto r = dir(""); r->ext = true; Node *d = r.get(); for (int i = 0; i < depth; i++) { if (i % 2) d->add(entry(REG, "!a")); Node *x = d->add(dir(std::string(len, 'a' + i))); d->add(entry(FIFO, std::string(len > 200 ? 20 : len + 3, 'z'))); d = x; } d->add(entry(REG, "q")); Opt o; o.md_comp = false; ImageP im = build(r, o); Fs fs(im); trav(&fs, r.get(), {}, -1, false); trav(&fs, r->kids[0]->kind == sq::DIR ? r->kids[0].get() : r.get(), {}, -1, true); ctx.states++; ctx.counts["path lengths"]++; }); }
    for (int depth : {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300, ctx.thorough() ? 4000 : 1000}) for (int len : {1, 7, 200}) ctx.run(vfmt("depth %d, names of %d bytes", depth, len), [&] { auto r = dir(""); r->ext = true; std::vector<NodeP> all{r}; Node *d = r.get(); for (int i = 0; i < depth; i++) { auto x = dir(std::string(len, 'a' + i % 26)); d->add(x); if (i % 10 == 3) d->add(entry(CHR, "~")); d = x.get(); } d->add(entry(REG, "leaf")); Opt o; o.md_comp = depth & 1; ImageP im = build(r, o); Fs fs(im); trav(&fs, r.get(), {}, -1, false); trav(&fs, r.get(), {}, depth / 2, false); std::set<Node *> p; Node *q = r.get(); for (int i = 0; i < depth - 1; i++) q = q->kids[0].get(); p.insert(q); trav(&fs, r.get(), p, -1, true); ctx.states++; ctx.counts["deep trees"]++; });
    family(false, [&](const Case &c) { if (c.group == 2 && c.desc.find("3 per header") == std::string::npos) return; ctx.run("traversal: " + c.desc, [&] { Opt o; NodeP root = c.make(o); ImageP im = build(root, o); Fs fs(im); trav(&fs, root.get(), {}, -1, false); trav(&fs, root.get(), {root->find("d")}, -1, false); trav(&fs, root->find("d"), {}, -1, true); ctx.states++; ctx.counts["directories of the family"]++; }); });
    ctx.run("traversal of objects that are no directory", [&] { auto r = dir(""); for (int k = 2; k <= 7; k++) r->add(entry(k, vfmt("k%d", k))); ImageP im = build(r); Fs fs(im); { sqfs_inode ino; sqfs_inode_get(&fs.fs, &ino, r->ref); } long l0 = vfa.live; for (auto &k : r->kids) { sqfs_traverse t; memset(&t, 0xc3, sizeof t); sqfs_err e = sqfs_traverse_open(&t, &fs.fs, k->ref); REQ(e != SQFS_OK, "opened a traversal of kind %d", k->kind); sqfs_traverse_close(&t); sqfs_traverse_close(&t); } REQ(vfa.live == l0, "memory left behind"); ctx.states++; });
}
