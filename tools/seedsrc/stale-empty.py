prop='C27'
needs='two processes whose random numbers agree (a forked one, say), of which one holds an extracted empty file, or has created its file and not yet written to it'
breaks='the other process removes the empty file and takes its name'
edits=[('src/extract.c','''		if (-1 == stat(squash_buf, &statbuf)) {
''','''		// an empty leftover of a process that died can be recycled
		if (-1 == stat(squash_buf, &statbuf) || (0 == statbuf.st_size && 0 == unlink(squash_buf))) {
''')]
demo='''#include <sys/wait.h>
using namespace sq;
int main() { char t[] = "/tmp/demo.XXXXXX"; setenv("TMPDIR", mkdtemp(t), 1); squash_start(); int rc = 0; { Mount m(build(::sq::dir("", {text("a", "content of a"), text("b", "bb"), text("c", "")})));
    if (!squash_extract(&m.fs, "/b", "so")) rc = 1; int in[2], out[2]; if (pipe(in) || pipe(out)) return 2;
    pid_t p = fork(); if (!p) { char x; auto f = squash_extract(&m.fs, "/c", "so"); if (!f) _exit(1); std::string s = f; if (write(out[1], "x", 1) != 1 || read(in[0], &x, 1) != 1) _exit(2); struct stat st; int bad = stat(s.c_str(), &st) || st.st_size; if (bad) fprintf(stderr, "the extracted empty file is not there any more or not empty\\n"); squash_extract_clear_cache(); _exit(bad); }
    char x; close(out[1]); if (read(out[0], &x, 1) != 1) rc = 1; if (!squash_extract(&m.fs, "/a", "so")) rc = 1; if (write(in[1], "x", 1) != 1) rc = 1; int st; waitpid(p, &st, 0); if (st) rc = 1; squash_extract_clear_cache(); } rmdir(t); return rc; }
'''
