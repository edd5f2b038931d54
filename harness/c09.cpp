// C09: every sequence of stream operations on two streams against a model with one position per stream; sqfs_dir_open at every offset.
#include "dirs.hpp"
using namespace dirs;
static std::map<int, ImageP> ims; static ImageP of(int n) { auto &i = ims[n]; if (!i) { auto d = dir("d"); fill(*d, n, [](int k) { return 3 + k % 4; }); std::sort(d->kids.begin(), d->kids.end(), [](const NodeP &a, const NodeP &b) { return a->name < b->name; }); d->hdr_max = 4; d->ext = true; d->index_mode = 2; auto e = dir("e"); fill(*e, 3, [](int) { return 9; }); auto r = wrap(d); r->add(e); i = build(r); } return i; }
// operations: 0 read one, 1 read k (9), 2 tell (remember), 3 seek to the newest remembered position, 4 seek to the oldest one, 5 rewind, 6 read to the end
struct Model { size_t n, pos = 0; };
struct Str { SQUASH_DIR *d; Node *node; size_t pos = 0; std::vector<std::pair<long, size_t>> told; };
static const char *ON[] = {"read", "read 9", "tell", "seek to the newest", "seek to the oldest", "rewind", "read to the end"};
static void rd(Str &s) { struct SQUASH_DIRENT *e = squash_readdir(s.d); ctx.transitions++; if (s.pos >= s.node->kids.size()) { REQ(!e, "an entry ('%s') after the end", e->d_name); return; } REQ(e, "end reported at entry %zu of %zu", s.pos, s.node->kids.size()); REQ(s.node->kids[s.pos]->name == e->d_name, "read '%s', expected '%s' (entry %zu)", e->d_name, s.node->kids[s.pos]->name.c_str(), s.pos); s.pos++; }
static void op(Str &s, int o) {
    switch (o) { case 0: rd(s); break; case 1: for (int i = 0; i < 9; i++) rd(s); break; case 2: { long t = squash_telldir(s.d); s.told.push_back({t, s.pos}); break; }
    case 3: if (s.told.size()) { squash_seekdir(s.d, s.told.back().first); s.pos = s.told.back().second; } break; case 4: if (s.told.size()) { squash_seekdir(s.d, s.told[0].first); s.pos = s.told[0].second; } break;
    case 5: squash_rewinddir(s.d); s.pos = 0; break; case 6: while (s.pos < s.node->kids.size()) rd(s); rd(s); break; }
}
static void seq(ImageP im, const std::vector<int> &q, bool same) {
    Fs fs(im); Str s[2]; const char *p[2] = {"/d", same ? "/d" : "/e"}; for (int i = 0; i < 2; i++) { s[i].d = squash_opendir(&fs.fs, p[i]); REQ(s[i].d, "opendir"); s[i].node = im->root->find(p[i] + 1); }
    for (int o : q) op(s[o / 7], o % 7);
    for (int i = 0; i < 2; i++) { rd(s[i]); rd(s[i]); for (auto &t : s[i].told) { squash_seekdir(s[i].d, t.first); s[i].pos = t.second; rd(s[i]); rd(s[i]); } op(s[i], 6); op(s[i], 5); op(s[i], 6); squash_closedir(s[i].d); }
    ctx.traces++;
}
void vf_enumerate() {
    vf_start_library(); int D = ctx.thorough() ? 5 : 4;
    auto str = [](const std::vector<int> &q) { std::string r; for (int o : q) r += vfmt("%s%d: %s", r.empty() ? "" : ", ", o / 7 + 1, ON[o % 7]); return r; };
    for (int n : {0, 1, 2, 9, 10, 11, 25}) for (int same = 1; same >= 0; same--) for (int a = 0; a < 14; a++) for (int b = 0; b < 14; b++) {
        if (!same && n != 11 && !ctx.thorough()) continue;
        ctx.run(vfmt("directory of %d entries, second stream on %s, all sequences of %d operations beginning with (%s)", n, same ? "the same" : "another", D, str({a, b}).c_str()), [&] {
            std::vector<int> q{a, b}; std::function<void(int)> rec = [&](int d) { if (!d) { ctx.note("%s", str(q).c_str()); seq(of(n), q, same); return; } for (int o = 0; o < 14; o++) { q.push_back(o); rec(d - 1); q.pop_back(); } };
            rec(D - 2); ctx.states++; ctx.counts["operation pairs"]++; if (n == 11 && a == 2 && b == 1) ctx.sample(ctx.desc); });
    }
    // long directories: every pair of positions (the stream's buffer grows several times between them)
    for (int n : {30, 150, 400}) for (int step = 1; step <= 97; step += 12) ctx.run(vfmt("directory of %d entries: seek between all pairs of positions, one told every %d entries", n, step), [&] {
        auto d = dir("d"); fill(*d, n, [](int k) { return 5 + k % 40; }); d->ext = true; ImageP im = build(wrap(d)); Fs fs(im); Str s; s.node = d.get(); s.d = squash_opendir(&fs.fs, "d"); REQ(s.d, "opendir");
        for (int i = 0; i <= n; i++) { if (i % step == 0) op(s, 2); rd(s); } auto t = s.told; for (size_t a = 0; a < t.size(); a++) for (size_t b = 0; b < t.size(); b += 1 + t.size() / 40) { squash_seekdir(s.d, t[a].first); s.pos = t[a].second; rd(s); squash_seekdir(s.d, t[b].first); s.pos = t[b].second; rd(s); rd(s); REQ(squash_telldir(s.d) >= 0, "telldir"); }
        squash_closedir(s.d); ctx.states++; ctx.traces++; ctx.counts["long directories"]++; });
    // sqfs_dir_open at every offset
    family(false, [&](const Case &c) { if (c.group == 2 && !ctx.thorough() && c.desc.find("3 per header") == std::string::npos) return; ctx.run("sqfs_dir_open at every offset: " + c.desc, [&] {
        Opt o; NodeP root = c.make(o); ImageP im = build(root, o); Node *d = root->find("d"); Fs fs(im); sqfs_inode ino; sqfs_err e = sqfs_inode_get(&fs.fs, &ino, d->ref); REQ(!e, "inode");
        std::map<uint32_t, size_t> start; for (size_t i = 0; i < d->kids.size(); i++) start[d->ent_off[i]] = i; std::set<uint32_t> hdr(d->hdrs.begin(), d->hdrs.end());
        std::vector<uint32_t> offs; size_t n = d->kids.size(); if (n < 60 || (ctx.thorough() && n < 300)) for (uint32_t x = 0; x < d->list_size + 20; x++) offs.push_back(x); else for (size_t i = 0; i < n; i += n / 40) { for (int x = -2; x <= 2; x++) if ((int64_t)d->ent_off[i] + x >= 0) offs.push_back(d->ent_off[i] + x); }
        if (n >= 60) for (uint32_t h : d->hdrs) for (int x : {-1, 0, 1, 11, 12, 13}) if ((int64_t)h + x >= 0) offs.push_back(h + x);
        for (uint32_t x : {d->list_size + 100, 100000000u, 0x7fffffffu}) offs.push_back(x);
        for (uint32_t x : offs) { ctx.note("offset %u", x); sqfs_dir sd; sqfs_err er = sqfs_dir_open(&fs.fs, &ino, &sd, x); ctx.transitions++; auto it = start.find(x); bool maybe = x == d->list_size || (x >= 12 && hdr.count(x - 12)) || x == 0;
            if (it == start.end() && er) continue; REQ(it == start.end() || !er, "an entry starts there, but opening failed");
            if (it == start.end()) { REQ(maybe, "no entry starts there, but opening succeeded"); if (x && x != d->list_size) continue; }
            size_t i = it == start.end() ? n : it->second, k = 0; sqfs_dir_entry de; sqfs_name nb; sqfs_dentry_init(&de, nb); for (; k < (n > 60 ? 12 : 1000) && sqfs_dir_next(&fs.fs, &sd, &de, &er); k++) { REQ(i + k < n, "too many entries"); REQ(d->kids[i + k]->name == sqfs_dentry_name(&de), "entry '%s', expected '%s'", hexname(nb).c_str(), hexname(d->kids[i + k]->name).c_str()); REQ(sqfs_dentry_offset(&de) == d->ent_off[i + k] && sqfs_dentry_inode_num(&de) == d->kids[i + k]->number, "offset or inode number"); if (i + k + 1 < n) { sqfs_dir s2; REQ(k % 7 || !sqfs_dir_open(&fs.fs, &ino, &s2, sqfs_dentry_next_offset(&de)), "next_offset cannot be opened"); } }
            REQ(!er && (n > 60 || i + k == n), "listing from there has %zu entries", k); }
        ctx.states++; ctx.traces++; ctx.counts["directories opened at offsets"]++; if (ctx.states % 200 == 3) ctx.sample(ctx.desc); }); });
}
