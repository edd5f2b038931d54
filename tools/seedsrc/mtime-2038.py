prop='C11'
needs='an object modified after January 2038'
breaks='its time stamps are reported as dates before 1970'
edits=[('src/private.c','= inode->base.mtime;','= (int32_t)inode->base.mtime;')]
demo='''using namespace sq;
int main() {
    squash_start(); auto f = text("f", "1"); f->mtime = 0x90000000u; Mount m(build(::sq::dir("", {f}))); struct stat st; CHECK(!squash_stat(&m.fs, "/f", &st), "stat"); CHECK(st.st_mtime == 0x90000000ll, "time %lld", (long long)st.st_mtime); return 0; }
'''
