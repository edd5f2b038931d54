prop='C26'
needs='execv of a path relative to a working directory inside the memory filesystem that begins with ./ or ../'
breaks='the re-executed program is told a path relative to a directory it does not start in'
sample=True
edits=[('sample/enclose_io_unix.c','''int enclose_io_execv(const char *path, char *const argv[])
{
	const char* squash_extracted_path = NULL;

	if (enclose_io_cwd[0] && '/' != *path) {
''','''int enclose_io_execv(const char *path, char *const argv[])
{
	const char* squash_extracted_path = NULL;

	if (enclose_io_cwd[0] && '/' != *path && '.' != *path) {
''')]
demo='''extern "C" {
#include "enclose_io_common.h"
int execv(const char *p, char *const a[]) { extern int called; extern char script[]; called++; strcpy(script, a[0] && a[1] ? a[1] : ""); errno = ENOEXEC; return -1; }
int called; char script[10000];
}
extern "C" sqfs *enclose_io_fs;
using namespace sq;
int main() { squash_start(); Mount m(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {::sq::dir("a", {text("run", "x")})})}))); enclose_io_fs = &m.fs; struct stat st; char a0[] = "run", a1[] = "arg"; char *av[] = {a0, a1, NULL};
    enclose_io_chdir("/__enclose_io_memfs__/a"); enclose_io_execv("./run", av); CHECK(called == 1, "execv"); CHECK(!squash_stat(enclose_io_fs, script, &st) && S_ISREG(st.st_mode), "the program is told to run a path that does not exist");  enclose_io_execv("run", av); CHECK(!squash_stat(enclose_io_fs, script, &st) && S_ISREG(st.st_mode), "run"); return 0; }
'''
