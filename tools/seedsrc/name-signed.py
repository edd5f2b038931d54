prop='C08'
needs='a name with a byte above 127 behind other names of its directory'
breaks='the name is listed but not found'
edits=[('src/dir.c','''		int order = strncmp(sqfs_dentry_name(entry), name, namelen);
		if (order == 0 && sqfs''','''		const char *have = sqfs_dentry_name(entry);
		int order = 0;
		size_t i;
		for (i = 0; i < namelen && 0 == order; ++i) {
			order = have[i] - name[i];
			if ('\\0' == have[i])
				break;
		}
		if (order == 0 && sqfs''')]
demo='''using namespace sq;
int main() {
    squash_start(); Mount m(build(::sq::dir("", {text("a", "1"), text("b", "12"), text("\\xc3\\xa9", "123")}))); struct stat st; int n = 0; for (const char *p : {"/a", "/b", "/\\xc3\\xa9"}) { n++; CHECK(!squash_stat(&m.fs, p, &st) && st.st_size == n, "entry %d", n); } return 0; }
'''
