prop='C31'
needs='a program built with the header that creates a file through openat, with a mode'
breaks='the mode is lost on the way, the creation ends the program'
sample=True
edits=[('sample/enclose_io_unix.h','	#define openat(...)	enclose_io_openat(ENCLOSE_IO_PP_NARG(__VA_ARGS__), __VA_ARGS__)\n','	#define openat(...)	enclose_io_openat(3, __VA_ARGS__)\n')]
files={'prog.c':'''#define _GNU_SOURCE
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "enclose_io.h"
int prog(void) {
	struct stat st; int fd = openat(AT_FDCWD, "real", O_CREAT | O_RDWR | O_EXCL, 0640);
	if (fd < 0 || fstat(fd, &st) || (st.st_mode & 07777) != 0640) { printf("FAILED: a real file\\n"); return 1; }
	close(fd); fd = openat(AT_FDCWD, "/__enclose_io_memfs__/d/new", O_CREAT | O_RDWR, 0604);
	if (fd < 0 || fstat(fd, &st) || (st.st_mode & 07777) != 0604) { printf("FAILED: a file in the memory file system\\n"); return 1; }
	close(fd); return 0;
}
'''}
demo='''#include <sys/stat.h>
extern "C" { extern sqfs *enclose_io_fs; int prog(void); }
using namespace sq;
int main() { umask(0); squash_start(); Mount m(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {::sq::dir("d")})}))); enclose_io_fs = &m.fs; return prog(); }
'''
