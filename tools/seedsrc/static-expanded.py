prop='C30'
needs='two threads that look at objects created through the layer, one of them between the other making its path and using it'
breaks='a thread sees the object of another thread'
sample=True
edits=[('sample/enclose_io_common.h','''		sqfs_path mkdir_workdir_expanded; \\
''','''		static sqfs_path mkdir_workdir_expanded; \\
''')]
demo='''extern "C" {
#include "enclose_io_common.h"
}
#include <thread>
#include <atomic>
#include <chrono>
extern "C" sqfs *enclose_io_fs;
using namespace sq;
int main() { squash_start(); Mount m(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {text("a", "A")})}))); enclose_io_fs = &m.fs; std::atomic<int> bad{0}; auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    CHECK(!enclose_io_mkdir("/__enclose_io_memfs__/n", 0755), "mkdir"); int fd = enclose_io_open(3, "/__enclose_io_memfs__/filewithlongname", O_CREAT | O_WRONLY, 0644); CHECK(fd >= 0, "create"); enclose_io_close(fd);
    auto run = [&](const char *n, bool dir) { struct stat st; while (!bad && std::chrono::steady_clock::now() < end) for (int i = 0; i < 500; i++) if (enclose_io_stat(n, &st) || S_ISDIR(st.st_mode) != dir) bad = 1; };
    std::thread t(run, "/__enclose_io_memfs__/n", true), u(run, "/__enclose_io_memfs__/filewithlongname", false); t.join(); u.join(); CHECK(!bad, "a thread saw another object"); return 0; }
'''
