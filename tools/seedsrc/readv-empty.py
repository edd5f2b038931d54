prop='C22'
needs='readv with an empty buffer that is not the last one'
breaks='the buffers behind the empty one stay unfilled'
sample=True
edits=[('sample/enclose_io_unix.c','		for (i = 0; i < iovcnt; ++i) {\n','		for (i = 0; i < iovcnt && iov[i].iov_len > 0; ++i) {\n')]
demo='''extern "C" {
#include "enclose_io_common.h"
}
extern "C" sqfs *enclose_io_fs;
using namespace sq;
int main() { squash_start(); Mount m(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {text("f", "hello world")})}))); enclose_io_fs = &m.fs; char a[8] = {0}, b[8] = {0}; struct iovec v[3] = {{a, 3}, {nullptr, 0}, {b, 4}};
    int fd = enclose_io_open(2, "/__enclose_io_memfs__/f", O_RDONLY); CHECK(fd >= 0, "open"); CHECK(enclose_io_readv(fd, v, 3) == 7, "readv"); CHECK(!strcmp(a, "hel") && !strcmp(b, "lo w"), "content"); enclose_io_close(fd); return 0; }
'''
