prop='C30'
needs='two threads that open relative paths in a virtual working directory, one of them between the other making its path and using it'
breaks='a thread opens the file of another thread, or none'
sample=True
edits=[('sample/enclose_io_unix.c','''	if (enclose_io_cwd[0] && '/' != *pathname) {
		sqfs_path enclose_io_expanded;
		size_t enclose_io_cwd_len;
		size_t memcpy_len;
		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(pathname, -1);
		if (!(O_CREAT & flags)) {
''','''	if (enclose_io_cwd[0] && '/' != *pathname) {
		static sqfs_path enclose_io_expanded; // spare small thread stacks
		size_t enclose_io_cwd_len;
		size_t memcpy_len;
		ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(pathname, -1);
		if (!(O_CREAT & flags)) {
''')]
demo='''extern "C" {
#include "enclose_io_common.h"
}
#include <thread>
#include <atomic>
#include <chrono>
extern "C" sqfs *enclose_io_fs;
using namespace sq;
int main() { squash_start(); Mount m(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {text("a", "A"), text("bcdefgh", "B")})}))); enclose_io_fs = &m.fs; CHECK(!enclose_io_chdir("/__enclose_io_memfs__"), "chdir"); std::atomic<int> bad{0}; auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    auto run = [&](const char *n, char want) { while (!bad && std::chrono::steady_clock::now() < end) for (int i = 0; i < 500; i++) { char c = 0; int fd = enclose_io_open(2, n, O_RDONLY); if (fd < 0 || enclose_io_read(fd, &c, 1) != 1 || c != want) bad = 1; if (fd >= 0) enclose_io_close(fd); } };
    std::thread t(run, "a", 'A'), u(run, "bcdefgh", 'B'); t.join(); u.join(); CHECK(!bad, "a thread read another file"); return 0; }
'''
