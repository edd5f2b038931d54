prop='C12'
needs='a symbolic link below the second root alias, which the image is told to strip'
breaks='readlink returns the length of the stored target instead of the length of the target it delivers'
edits=[('src/readlink.c','''                char *buf_ptr = buf + strlen(fs->root_alias2) - 1;
                assert('/' == buf_ptr[0]); // still is Absolute Path
                memmove(buf, buf_ptr, strlen(buf_ptr) + 1);
                want = strlen(buf);
''','''                char *buf_ptr = buf + strlen(fs->root_alias2) - 1;
                assert('/' == buf_ptr[0]); // still is Absolute Path
                memmove(buf, buf_ptr, strlen(buf_ptr) + 1);
''')]
demo='''using namespace sq;
int main() {
    squash_start(); Mount m(build(::sq::dir("", {lnk("k", "/first/x"), lnk("l", "/second/x")}))); m.fs.root_alias = (char *)"/first/"; m.fs.root_alias2 = (char *)"/second/"; char b[64];
    CHECK(squash_readlink(&m.fs, "/k", b, 64) == 2 && !strcmp(b, "/x"), "first alias"); ssize_t n = squash_readlink(&m.fs, "/l", b, 64); CHECK(n == 2 && !strcmp(b, "/x"), "readlink returned %zd: %s", n, b); return 0; }
'''
