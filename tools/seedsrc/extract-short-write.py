prop='C15'
needs='the file system with the temporary directory becomes full (or a file size limit is reached) after the first part of a larger file'
breaks='an extraction that could not write all bytes hands out the incomplete file as success'
edits=[('src/extract.c','''		size = fwrite(buffer, ssize, 1, fp);
		if (size != 1) {
			goto failure;
		}
''','''		size = fwrite(buffer, 1, ssize, fp);
		if (size == 0) {
			goto failure;
		}
''')]
demo='''using namespace sq;
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
int main() {
    signal(SIGXFSZ, SIG_IGN); squash_start(); auto f = reg("f", 40000, "U", false, 3); Mount m(build(::sq::dir("", {f})));
    for (long lim : {1000L, 16384L, 20000L, 32768L, 39000L}) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); struct rlimit q = r; q.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &q); const char *p = squash_extract(&m.fs, "/f", "so"); setrlimit(RLIMIT_FSIZE, &r); CHECK(!p, "with a limit of %ld bytes the extraction reports success", lim); }
    const char *p = squash_extract(&m.fs, "/f", "so"); struct stat st; CHECK(p && !stat(p, &st) && st.st_size == 40000, "extract"); squash_extract_clear_cache(); return 0; }
'''
