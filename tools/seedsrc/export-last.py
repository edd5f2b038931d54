prop='C21'
needs='the highest inode number of the image'
breaks='the last entry of the export table is refused'
edits=[('src/fs.c','	err = sqfs_table_get(&fs->export_table, fs, n - 1, &r);','	if (n >= fs->sb->inodes)\n\t\treturn SQFS_ERR;\n	err = sqfs_table_get(&fs->export_table, fs, n - 1, &r);')]
edits=[('src/fs.c','	err = sqfs_table_get(&fs->export_table, fs, n - 1, &r);','	err = n < fs->sb->inodes ? sqfs_table_get(&fs->export_table, fs, n - 1, &r) : SQFS_ERR;')]
demo='''using namespace sq;
int main() { auto im = build(::sq::dir("", {text("f", "1"), text("g", "1")})); Mount m(im); for (auto &k : im->bynum) { sqfs_inode_id id; CHECK(!sqfs_export_inode(&m.fs, k.first, &id) && id == k.second, "inode number %u", k.first); } return 0; }
'''
