prop='C04'
needs='the descriptor with the highest number is closed while a directory stream with the next lower number stays open'
breaks='the end of the descriptor table is set one too low, the stream with the highest number is not recognised as a stream of the library any more'
edits=[('src/fd.c','                squash_global_fdtable.end = vfd + 1;\n        } else','                squash_global_fdtable.end = vfd > 0 ? vfd : 0;\n        } else')]
demo='''using namespace sq;
int main() {
    squash_start(); Mount m(build(::sq::dir("", {text("f", "x"), ::sq::dir("g")}))); SQUASH_DIR *d = squash_opendir(&m.fs, "/g"); int fd = squash_open(&m.fs, "/f"); CHECK(d && fd > squash_dirfd(d), "open"); CHECK(squash_find_entry(d), "unknown stream"); CHECK(!squash_close(fd), "close"); CHECK(squash_find_entry(d), "the stream is unknown after another descriptor was closed"); CHECK(!squash_closedir(d), "closedir"); return 0; }
'''
flags='-DNDEBUG'
