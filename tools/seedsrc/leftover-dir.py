prop='C25'
needs='a program that created a file or a directory through the layer and ends'
breaks='the private directory is not removed'
sample=True
edits=[('sample/enclose_io_unix.c','FTW_PHYS | FTW_MOUNT | FTW_DEPTH);','FTW_PHYS | FTW_MOUNT);')]
demo='''extern "C" {
#include "enclose_io_common.h"
}
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
extern "C" sqfs *enclose_io_fs;
using namespace sq;
int main() { std::string t = getenv("TMPDIR"); pid_t p = fork(); if (!p) { squash_start(); auto *m = new Mount(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {text("f", "hello")})}))); enclose_io_fs = &m->fs; if (enclose_io_mkdir("/__enclose_io_memfs__/n", 0755) || enclose_io_mkdir("/__enclose_io_memfs__/n/m", 0755)) _exit(3); exit(0); }
    int st; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && !WEXITSTATUS(st), "child"); int n = 0; for (auto &e : std::filesystem::directory_iterator(t)) { (void)e; n++; } CHECK(n == 0, "%d objects are left", n); return 0; }
'''
