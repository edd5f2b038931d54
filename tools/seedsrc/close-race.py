prop='C17'
needs='one thread that asks for the owner of a stream while another one opens so many files that the table is enlarged'
breaks='the table of descriptors is read without its lock'
edits=[('src/fd.c','''	struct squash_file * ret = NULL;
	MUTEX_LOCK(&squash_global_mutex);
	for (i = 0; i < squash_global_fdtable.end; ++i) {
		if (squash_global_fdtable.fds[i] && ptr == squash_global_fdtable.fds[i]->payload) {
			ret = squash_global_fdtable.fds[i];
			break;
		}
	}
	MUTEX_UNLOCK(&squash_global_mutex);
''','''	struct squash_file * ret = NULL;
	for (i = 0; i < squash_global_fdtable.end; ++i) {
		if (squash_global_fdtable.fds[i] && ptr == squash_global_fdtable.fds[i]->payload) {
			ret = squash_global_fdtable.fds[i];
			break;
		}
	}
''')]
san='-fsanitize=thread'
demo='''#include <thread>
using namespace sq;
int main() {
    squash_start(); Mount m(build(::sq::dir("", {text("f", "1")}))); std::vector<int> fds; int x;
    std::thread a([&] { for (int i = 0; i < 300; i++) { int f = squash_open(&m.fs, "/f"); CHECK(f >= 0, "open"); fds.push_back(f); } for (int f : fds) squash_close(f); }), b([&] { for (int i = 0; i < 20000; i++) CHECK(!squash_find_entry(&x), "found"); });
    a.join(); b.join(); return 0; }
'''
