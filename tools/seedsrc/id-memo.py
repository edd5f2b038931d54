prop='C16'
needs='two images in use that have different owners at the same index'
breaks='the owner of a file of one image is the one that was last looked up in the other'
edits=[('src/fs.c','''	uint32_t rid;
	sqfs_err err = sqfs_table_get(&fs->id_table, fs, idx, &rid);
	if (err)
		return err;
	*id = (sqfs_id_t)rid;
''','''	static uint32_t rid, known;
	sqfs_err err = SQFS_OK;
	if (known != idx + 1u)
		err = sqfs_table_get(&fs->id_table, fs, idx, &rid);
	if (err)
		return err;
	known = idx + 1u;
	*id = (sqfs_id_t)rid;
''')]
demo='''using namespace sq;
int main() {
    squash_start(); Opt a, b; a.ids = {5}; b.ids = {9}; Mount m(build(::sq::dir("", {text("f", "1")}), a)), n(build(::sq::dir("", {text("f", "1")}), b)); sqfs_id_t i; CHECK(!sqfs_id_get(&m.fs, 0, &i) && i == 5, "first"); CHECK(!sqfs_id_get(&n.fs, 0, &i) && i == 9, "second: %d", (int)i); return 0; }
'''
