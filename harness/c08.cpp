// C08: lookup of every present name and of its neighbours in every directory of the family, and every subset of a set of names.
#include "dirs.hpp"
using namespace dirs;
static void lookup(sqfs *fs, sqfs_inode *ino, const std::map<std::string, Node *> &by, const std::string &n) {
    if (n.empty() || n.size() > 300 || n.find('\0') != std::string::npos) return;
    ctx.note("lookup of '%s'", hexname(n).c_str()); sqfs_dir_entry de; sqfs_name b; sqfs_dentry_init(&de, b); short found = 7;
    // the name is a part of a longer string
    std::string buf = n + "/tail"; sqfs_err e = sqfs_dir_lookup(fs, ino, buf.data(), n.size(), &de, &found); ctx.transitions++;
    auto it = by.find(n); REQ(!e, "lookup failed with %d", e);
    if (it == by.end()) { REQ(!found, "an absent name was found: '%s'", hexname(n).c_str()); return; }
    REQ(found, "a present name was not found: '%s'", hexname(n).c_str()); Node *k = it->second;
    REQ(sqfs_dentry_inode(&de) == k->ref && sqfs_dentry_inode_num(&de) == k->number, "wrong inode for '%s'", hexname(n).c_str());
    static const mode_t M[] = {0, S_IFDIR, S_IFREG, S_IFLNK, S_IFBLK, S_IFCHR, S_IFIFO, S_IFSOCK}; REQ((sqfs_dentry_mode(&de) & S_IFMT) == M[k->kind], "wrong type for '%s'", hexname(n).c_str()); REQ(n == sqfs_dentry_name(&de), "wrong name");
}
static void path(sqfs *fs, const std::map<std::string, Node *> &by, const std::string &n) {
    if (n.empty() || n == "." || n == ".." || n.find('/') != std::string::npos || n.find('\0') != std::string::npos || n.size() > 256) return;
    struct stat st; int r = squash_lstat(fs, ("/d/" + n).c_str(), &st); auto it = by.find(n); ctx.transitions++; REQ((r == 0) == (it != by.end()), "lstat of '%s' %s", hexname(n).c_str(), r ? "failed" : "succeeded"); if (!r) { static const mode_t M[] = {0, S_IFDIR, S_IFREG, S_IFLNK, S_IFBLK, S_IFCHR, S_IFIFO, S_IFSOCK}; REQ((st.st_mode & S_IFMT) == M[it->second->kind], "type by lstat"); }
}
static void all(sqfs *fs, Node *d, bool full) {
    std::map<std::string, Node *> by; for (auto &k : d->kids) by[k->name] = k.get();
    sqfs_inode ino; sqfs_err e = sqfs_inode_get(fs, &ino, d->ref); REQ(!e, "inode"); std::set<std::string> Q{"a", "z", "~", "\x01", "\xff", "0", std::string(256, 'z'), std::string(256, '0'), std::string(255, 'm'), std::string(257, 'm')};
    size_t step = full || d->kids.size() < 400 ? 1 : d->kids.size() / 200;
    std::set<size_t> at; for (size_t i = 0; i < d->kids.size(); i += step) at.insert(i); for (size_t h = 0, i = 0; i < d->kids.size(); i++) if (i == 0 || i + 1 == d->kids.size() || (h + 1 < d->hdrs.size() && d->ent_off[i] >= d->hdrs[h + 1])) { if (i) h++; for (int x = -1; x <= 1; x++) if (i + x < d->kids.size()) at.insert(i + x); }
    for (size_t i : at) { std::string n = d->kids[i]->name; Q.insert(n); Q.insert(n.substr(0, n.size() - 1)); Q.insert(n + "a"); Q.insert(n + "\x01"); Q.insert(n + "\xff"); for (int dd : {-1, 1}) { std::string m = n; m.back() += dd; Q.insert(m); m = n; m[0] += dd; Q.insert(m); } if (n.size() > 2) Q.insert(n.substr(0, n.size() / 2)); }
    // forwards and backwards
    for (auto &n : Q) lookup(fs, &ino, by, n); for (auto i = Q.rbegin(); i != Q.rend(); ++i) lookup(fs, &ino, by, *i);
    size_t c = 0; for (auto &n : Q) if (c++ % 5 == 0 || Q.size() < 60) path(fs, by, n);
    ctx.traces++;
}
void vf_enumerate() {
    vf_start_library();
    family(ctx.thorough(), [&](const Case &c) { ctx.run(c.desc, [&] { Opt o; NodeP root = c.make(o); ImageP im = build(root, o); Fs fs(im); all(&fs, root->find("d"), ctx.thorough()); ctx.states++; ctx.counts["directories of the family"]++; if (ctx.states % 300 == 7) ctx.sample(c.desc); }); });
    // every subset of a set of related names
    std::vector<std::string> U{"a", "aa", "aaa", "ab", std::string("a\x01", 2), "a\xff", "b", "ba", "."};
    if (ctx.thorough()) { U.push_back("ab\x80"); U.push_back("A"); U.push_back("aab"); }
    for (size_t m = 0; m < (1u << U.size()); m++) ctx.run(vfmt("subset %zu of %zu related names, all header widths and index forms", m, U.size()), [&] {
        for (int hm : {1, 2, 256}) for (int v = 0; v < 4; v++) { if (v == 3 && hm > 2) continue; auto d = dir("d"); for (size_t i = 0; i < U.size(); i++) if (m >> i & 1) d->add(entry(i % 7 + 1, U[i])); std::sort(d->kids.begin(), d->kids.end(), [](const NodeP &a, const NodeP &b) { return a->name < b->name; }); d->hdr_max = hm; d->ext = v; d->index_mode = v == 3 ? 2 : v; d->list_at = v == 3 ? 8192 - 20 : -1;
            Opt o; o.md_comp = false; o.export_table = false; auto root = wrap(d); ImageP im = build(root, o); Fs fs(im); std::map<std::string, Node *> by; for (auto &k : d->kids) by[k->name] = k.get(); sqfs_inode ino; sqfs_err e = sqfs_inode_get(&fs.fs, &ino, d->ref); REQ(!e, "inode");
            for (auto &n : U) { lookup(&fs, &ino, by, n); lookup(&fs, &ino, by, n + "a"); lookup(&fs, &ino, by, n + "\xff"); path(&fs, by, n); } lookup(&fs, &ino, by, "0"); lookup(&fs, &ino, by, "c"); ctx.traces++; }
        ctx.states++; ctx.counts["subsets"]++; });
}
