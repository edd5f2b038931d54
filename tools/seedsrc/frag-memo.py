prop='C16'
needs='an image is closed and another one opened in the same sqfs structure; both have files with fragment tails'
breaks='a memo of the last fragment entry survives the image it was read from, a file of the next image gets the tail of the previous one'
edits=[('src/file.c','''	sqfs_err err = SQFS_OK;
	
	if (idx == SQUASHFS_INVALID_FRAG)
		return SQFS_ERR;
	
	err = sqfs_table_get(&fs->frag_table, fs, idx, frag);
	return err;
''','''	sqfs_err err = SQFS_OK;
	/* neighbouring files mostly share their fragment block */
	static __thread sqfs *last_fs = NULL;
	static __thread uint32_t last_idx;
	static __thread struct squashfs_fragment_entry last;
	
	if (idx == SQUASHFS_INVALID_FRAG)
		return SQFS_ERR;
	
	if (last_fs == fs && last_idx == idx) {
		*frag = last;
		return SQFS_OK;
	}
	err = sqfs_table_get(&fs->frag_table, fs, idx, frag);
	if (!err) {
		last_fs = fs;
		last_idx = idx;
		last = *frag;
	}
	return err;
''')]
demo='''using namespace sq;
int main() {
    squash_start(); auto a = text("f", "first image"); auto b0 = reg("a", 3 * 4096, "U", false, 3); auto b = text("f", "the second image");
    auto i1 = build(::sq::dir("", {a})), i2 = build(::sq::dir("", {b0, b})); sqfs fs;
    for (auto &i : {i1, i2, i1}) { CHECK(!sqfs_init(&fs, i->base(), 0), "init"); int fd = squash_open(&fs, "/f"); std::string s = readall(fd); CHECK(s == (i == i1 ? a->data : b->data), "read '%s'", s.c_str()); squash_close(fd); sqfs_destroy(&fs); }
    return 0; }
'''
