prop='C26'
needs='two extractions through the same relative path with a change of the working directory in between'
breaks='the second one loads the file of the first directory'
sample=True
edits=[('sample/enclose_io_unix.c','''        ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, NULL);
        return squash_extract(enclose_io_fs, enclose_io_expanded, ext_name);
''','''        static sqfs_path last_path;
        static SQUASH_OS_PATH last_ret = NULL;
        ENCLOSE_IO_GEN_EXPANDED_NAME_OR_RETURN(path, NULL);
        if (NULL != last_ret && 0 == strcmp(last_path, path) && 0 == access(last_ret, R_OK)) {
            return last_ret; // already extracted
        }
        last_ret = squash_extract(enclose_io_fs, enclose_io_expanded, ext_name);
        strcpy(last_path, path);
        return last_ret;
''')]
demo='''extern "C" {
#include "enclose_io_common.h"
}
#include <dlfcn.h>
extern "C" sqfs *enclose_io_fs;
using namespace sq;
static std::string slurp(const char *p) { FILE *f = fopen(p, "r"); std::string s; int c; while (f && (c = fgetc(f)) != EOF) s += c; if (f) fclose(f); return s; }
int main() { char t[] = "/tmp/demo.XXXXXX"; setenv("TMPDIR", mkdtemp(t), 1); squash_start(); int rc = 0; { Mount m(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {::sq::dir("a", {text("x.so", "one")}), ::sq::dir("b", {text("x.so", "two")})})}))); enclose_io_fs = &m.fs;
    enclose_io_chdir("/__enclose_io_memfs__/a"); std::string a = slurp(enclose_io_ifextract("./x.so", NULL)); enclose_io_chdir("/__enclose_io_memfs__/b"); std::string b = slurp(enclose_io_ifextract("./x.so", NULL));
    if (a != "one" || b != "two") { fprintf(stderr, "extracted %s and %s\\n", a.c_str(), b.c_str()); rc = 1; } squash_extract_clear_cache(); } rmdir(t); return rc; }
'''
