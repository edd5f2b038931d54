prop='C20'
needs='an image of an older major version'
breaks='it is accepted and read as if it had the layout of version 4'
edits=[('src/fs.c','	if (fs->sb->s_major != SQUASHFS_MAJOR || fs->sb->s_minor > SQUASHFS_MINOR)','	if (fs->sb->s_major > SQUASHFS_MAJOR || fs->sb->s_minor > SQUASHFS_MINOR)')]
demo='''using namespace sq;
int main() { for (int a = 0; a < 8; a++) for (int b = 0; b < 3; b++) { Opt o; o.major = a; o.minor = b; auto im = build(::sq::dir("", {text("f", "1")}), o); sqfs fs; memset(&fs, 0, sizeof fs); sqfs_err e = sqfs_init(&fs, im->base(), im->off()); CHECK(e == (a == 4 && b == 0 ? SQFS_OK : SQFS_BADVERSION), "version %d.%d: %d", a, b, e); if (!e) sqfs_destroy(&fs); } return 0; }
'''
