prop='C27'
needs='a process forked after the library was started that extracts a file of its own and ends normally'
breaks='the copy the forked process made stays in the temporary directory for ever'
edits=[('src/fd.c','''static void squash_halt()
{
''','''static int squash_started_by = 0;

static void squash_halt()
{
'''),('src/fd.c','''	squash_extract_clear_cache();
}
''','''	if (getpid() == squash_started_by) {
		squash_extract_clear_cache(); // a forked process leaves everything to its parent
	}
}
'''),('src/fd.c','''	ret = atexit(squash_halt);
''','''	squash_started_by = getpid();
	ret = atexit(squash_halt);
''')]
demo='''#include <sys/wait.h>
#include <dirent.h>
using namespace sq;
int main() { char t[] = "/tmp/demo.XXXXXX"; setenv("TMPDIR", mkdtemp(t), 1); squash_start(); int rc = 0; { Mount m(build(::sq::dir("", {text("a", "content of a")})));
    fflush(NULL); pid_t p = fork(); if (!p) { exit(squash_extract(&m.fs, "/a", "so") ? 0 : 1); } int st; waitpid(p, &st, 0); if (st) rc = 1; squash_extract_clear_cache(); }
    ::DIR *d = ::opendir(t); while (auto *e = ::readdir(d)) if (e->d_name[0] != '.') { fprintf(stderr, "left: %s\\n", e->d_name); rc = 1; unlink((std::string(t) + "/" + e->d_name).c_str()); } ::closedir(d); rmdir(t); return rc; }
'''
