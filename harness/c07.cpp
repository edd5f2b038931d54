// C07: listings of every directory of the family, through readdir and sqfs_dir_next, against the abstract directory.
#include "dirs.hpp"
using namespace dirs;
static void high(sqfs *fs, Node *d, int passes) {
    SQUASH_DIR *s = squash_opendir(fs, "/d"); REQ(s, "opendir failed: %s", errname(errno).c_str());
    size_t i = 0; struct SQUASH_DIRENT *e;
    for (;;) {
        ctx.note("readdir, entry %zu", i); errno = 0; e = squash_readdir(s); ctx.transitions++; if (!e) break;
        REQ(i < d->kids.size(), "one entry too many: '%s'", hexname(e->d_name).c_str()); Node *k = d->kids[i].get(); std::string w = k->name.substr(0, sizeof(e->d_name) - 1), g(e->d_name, strnlen(e->d_name, sizeof e->d_name));
        REQ(g == w, "entry %zu has the name '%s', expected '%s'", i, hexname(g).c_str(), hexname(w).c_str());
        REQ(e->d_type == dtype(k->kind), "entry %zu has type %d, expected %d", i, e->d_type, dtype(k->kind)); REQ((uint64_t)e->d_ino == k->number, "entry %zu has inode number %llu, expected %u", i, (unsigned long long)e->d_ino, k->number); i++;
    }
    REQ(i == d->kids.size(), "only %zu of %zu entries", i, d->kids.size()); REQ(!errno, "the end is reported with errno %s", errname(errno).c_str());
    for (int r = 0; r < 3; r++) REQ(!squash_readdir(s), "an entry after the end");
    if (passes) { squash_rewinddir(s); for (i = 0; (e = squash_readdir(s)); i++) REQ(i < d->kids.size() && d->kids[i]->name.substr(0, 255) == e->d_name, "second pass differs at %zu", i); REQ(i == d->kids.size(), "second pass has %zu entries", i); }
    REQ(!squash_closedir(s), "closedir");
}
static void low(sqfs *fs, Node *d, bool names) {
    sqfs_inode ino; sqfs_err e = sqfs_inode_get(fs, &ino, d->ref); REQ(!e, "inode"); sqfs_dir sd; e = sqfs_dir_open(fs, &ino, &sd, 0); REQ(!e, "sqfs_dir_open failed");
    struct { char name[257]; char guard[64]; } b; sqfs_dir_entry de; size_t i = 0; sqfs_dentry_init(&de, names ? b.name : nullptr); sqfs_err er;
    for (;;) {
        memset(&b, 0x7b, sizeof b); ctx.note("sqfs_dir_next, entry %zu", i); er = (sqfs_err)99; bool r = sqfs_dir_next(fs, &sd, &de, &er); ctx.transitions++; REQ(er == SQFS_OK, "error %d", er); if (!r) break;
        REQ(i < d->kids.size(), "one entry too many"); Node *k = d->kids[i].get();
        REQ(sqfs_dentry_name_size(&de) == k->name.size(), "name size %zu of entry %zu, expected %zu", sqfs_dentry_name_size(&de), i, k->name.size());
        if (names) { REQ(k->name == sqfs_dentry_name(&de), "entry %zu has the name '%s', expected '%s'", i, hexname(sqfs_dentry_name(&de)).c_str(), hexname(k->name).c_str()); for (char c : b.guard) REQ(c == 0x7b, "written behind the name buffer"); } else REQ(!sqfs_dentry_name(&de), "a name without a buffer");
        REQ(sqfs_dentry_inode_num(&de) == k->number, "entry %zu has inode number %u, expected %u", i, sqfs_dentry_inode_num(&de), k->number); REQ(sqfs_dentry_inode(&de) == k->ref, "entry %zu has the wrong inode reference", i);
        static const mode_t M[] = {0, S_IFDIR, S_IFREG, S_IFLNK, S_IFBLK, S_IFCHR, S_IFIFO, S_IFSOCK}; REQ((sqfs_dentry_mode(&de) & S_IFMT) == M[k->kind], "entry %zu has mode %o", i, (unsigned)sqfs_dentry_mode(&de)); REQ(!!sqfs_dentry_is_dir(&de) == (k->kind == sq::DIR), "is_dir of entry %zu", i);
        REQ(sqfs_dentry_offset(&de) == d->ent_off[i] && sqfs_dentry_next_offset(&de) == d->ent_next[i], "offsets of entry %zu: %lld..%lld, expected %u..%u", i, (long long)sqfs_dentry_offset(&de), (long long)sqfs_dentry_next_offset(&de), d->ent_off[i], d->ent_next[i]); i++;
    }
    REQ(i == d->kids.size(), "only %zu of %zu entries", i, d->kids.size());
    for (int r = 0; r < 3; r++) { REQ(!sqfs_dir_next(fs, &sd, &de, &er) && er == SQFS_OK, "an entry or error after the end"); }
}
void vf_enumerate() {
    vf_start_library();
    family(ctx.thorough(), [&](const Case &c) { ctx.run(c.desc, [&] { Opt o; NodeP root = c.make(o); ImageP im = build(root, o); Node *d = root->find("d"); Fs fs(im); high(&fs, d, 1); low(&fs, d, true); low(&fs, d, false); 
        // the root directory as well
        { SQUASH_DIR *s = squash_opendir(&fs.fs, "/"); REQ(s, "opendir /"); size_t i = 0; while (auto *e = squash_readdir(s)) { REQ(i < root->kids.size() && root->kids[i]->name == e->d_name, "root entry %zu", i); i++; } REQ(i == root->kids.size(), "root has %zu entries", i); squash_closedir(s); }
        ctx.states++; ctx.traces += 4; static const char *G[] = {"", "small directories", "placements", "large directories", "names and kinds", "inode number triples", "inode blocks", "other directories in front"}; ctx.counts[G[c.group]]++; if (ctx.states % 300 == 7) ctx.sample(c.desc); }); });
}
