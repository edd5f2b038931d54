prop='C28'
needs='a block list taken from a position beyond 4 GB in a file whose list needs several metadata blocks'
breaks='the positions of its blocks are wrong by a multiple of 4 GB'
edits=[('src/file.c','''	bl->pos = (uint64_t)skipped * fs->sb->block_size;
''','''	bl->pos = (uint32_t)skipped * fs->sb->block_size;
''')]
demo='''using namespace sq;
int main() { squash_start(); int rc = 0; { auto n = reg("f", 131072ull * 70000, "H", false, 1); n->dataless = n->ext = true; Opt o; o.block_size = 131072; auto im = build(::sq::dir("", {n}), o); Mount m(im); sqfs_inode in; if (sqfs_inode_get(&m.fs, &in, n->ref)) return 2; sqfs_blocklist bl;
    uint64_t pos = 131072ull * 60000; if (sqfs_blockidx_blocklist(&m.fs, &in, &bl, pos)) return 3; while (bl.remain > 10000 - 1) if (sqfs_blocklist_next(&bl)) return 4;
    if (bl.pos != pos) { fprintf(stderr, "block 60000 is at %llu, expected %llu\\n", (long long)bl.pos, (long long)pos); rc = 1; } } return rc; }
'''
