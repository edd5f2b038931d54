prop='C06'
needs='lstat, readlink or another call that does not follow the last link, a path that passes through a link and ends with a slash'
breaks='a link in the middle of such a path is not followed'
edits=[('src/dir.c','} else if (path0 + strlen(path0) - 1 == path) {\n\t\t\tassert(\'/\' == *path);','} else if (\'/\' == path[strlen(path) - 1]) {\n\t\t\tassert(\'/\' == *path);')]
demo='''using namespace sq;
int main() {
    squash_start(); Mount m(build(::sq::dir("", {::sq::dir("d", {::sq::dir("e", {text("x", "1")})}), lnk("l", "d")}))); struct stat st;
    CHECK(squash_lstat(&m.fs, "/l/e", &st) == 0, "/l/e"); CHECK(squash_lstat(&m.fs, "/d/e/", &st) == 0, "/d/e/"); CHECK(squash_lstat(&m.fs, "/l/e/", &st) == 0 && S_ISDIR(st.st_mode), "/l/e/"); return 0; }
'''
