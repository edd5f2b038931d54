prop='C13'
needs='fstat of something that is no virtual descriptor, and an errno left by an earlier failure'
breaks='the failing call does not set errno'
edits=[('src/stat.c','''	if (!SQUASH_VALID_VFD(vfd))
	{
		errno = EBADF;
''','''	if (!SQUASH_VALID_VFD(vfd))
	{
		if (!errno) {
			errno = EBADF;
		}
''')]
demo='''using namespace sq;
int main() {
    squash_start(); Mount m(build(::sq::dir("", {text("f", "1")}))); struct stat st; errno = 0; CHECK(squash_fstat(77, &st) == -1 && errno == EBADF, "first"); squash_open(&m.fs, "/none"); CHECK(errno == ENOENT, "open"); CHECK(squash_fstat(77, &st) == -1 && errno == EBADF, "errno %d", errno); return 0; }
'''
