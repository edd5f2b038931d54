prop='C31'
needs='a program built with the header that reads a file of the image with readv'
breaks='the bytes come from the descriptor of the process behind the virtual one'
sample=True
edits=[('sample/enclose_io_unix.h','	#define readv(...)	enclose_io_readv(__VA_ARGS__)\n','')]
files={'prog.c':'''#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/uio.h>
#include "enclose_io.h"
int prog(void) {
	char a[8] = {0}, b[8] = {0}; struct iovec v[2] = {{a, 2}, {b, 5}}; int fd = open("/__enclose_io_memfs__/d/f", O_RDONLY);
	if (fd < 0 || readv(fd, v, 2) != 7 || strcmp(a, "ab") || strcmp(b, "cdefg")) { printf("FAILED: readv\\n"); return 1; }
	return close(fd);
}
'''}
demo='''#include <unistd.h>
#include <fcntl.h>
extern "C" { extern sqfs *enclose_io_fs; int prog(void); }
using namespace sq;
int main() { int n = open("/dev/null", O_RDONLY); dup2(n, 0); squash_start(); Mount m(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {::sq::dir("d", {text("f", "abcdefghij")})})}))); enclose_io_fs = &m.fs; return prog(); }
'''
