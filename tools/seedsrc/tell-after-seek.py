prop='C09'
needs='a position asked for after the stream has been moved back'
breaks='telldir returns how far the directory was ever read instead of the current position'
edits=[('src/dirent.c','	return dirp->loc;\n','	return dirp->actual_nr > dirp->loc ? dirp->actual_nr : dirp->loc;\n')]
demo='''using namespace sq;
int main() {
    squash_start(); Mount m(build(::sq::dir("", {text("a", "1"), text("b", "1"), text("c", "1")}))); SQUASH_DIR *d = squash_opendir(&m.fs, "/"); CHECK(d, "opendir");
    squash_readdir(d); long p = squash_telldir(d); squash_readdir(d); squash_readdir(d); squash_seekdir(d, p); CHECK(squash_telldir(d) == p, "tell after seek"); squash_seekdir(d, squash_telldir(d)); auto *e = squash_readdir(d); CHECK(e && !strcmp(e->d_name, "b"), "next"); squash_closedir(d); return 0; }
'''
