prop='C20'
needs='an image of another version that also uses another compressor'
breaks='the caller is told that the compressor is unknown instead of the version'
edits=[('src/fs.c','''	if (fs->sb->s_major != SQUASHFS_MAJOR || fs->sb->s_minor > SQUASHFS_MINOR)
		return SQFS_BADVERSION;
	
	if (!(fs->decompressor = sqfs_decompressor_get(fs->sb->compression)))
		return SQFS_BADCOMP;
''','''	if (!(fs->decompressor = sqfs_decompressor_get(fs->sb->compression)))
		return SQFS_BADCOMP;
	
	if (fs->sb->s_major != SQUASHFS_MAJOR || fs->sb->s_minor > SQUASHFS_MINOR)
		return SQFS_BADVERSION;
''')]
demo='''using namespace sq;
int main() { auto im = build(::sq::dir("", {text("a", "1")})); struct squashfs_super_block *sb = (struct squashfs_super_block *)(im->mem + im->off()); sqfs fs; sb->s_major = 5; CHECK(sqfs_init(&fs, im->base(), im->off()) == SQFS_BADVERSION, "version"); sb->compression = 6; CHECK(sqfs_init(&fs, im->base(), im->off()) == SQFS_BADVERSION, "version before compressor"); return 0; }
'''
