prop='C05'
needs='a directory with an entry whose name is a proper prefix of the wanted one'
breaks='the lookup ends at the shorter name and reports that the wanted object does not exist'
edits=[('src/dir.c','''		int order = strncmp(sqfs_dentry_name(entry), name, namelen);
''','''		size_t size = sqfs_dentry_name_size(entry);
		int order = strncmp(sqfs_dentry_name(entry), name, size < namelen ? size : namelen);
''')]
demo='''using namespace sq;
int main() {
    squash_start(); Mount m(build(::sq::dir("", {::sq::dir("lib", {text("x", "1")}), ::sq::dir("lib64", {text("y", "2")})}))); struct stat st;
    CHECK(squash_stat(&m.fs, "/lib/x", &st) == 0, "/lib/x"); CHECK(squash_stat(&m.fs, "/lib64/y", &st) == 0, "/lib64/y"); return 0; }
'''
