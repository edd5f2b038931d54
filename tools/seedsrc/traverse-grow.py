prop='C14'
needs='a path that has to grow to more than twice its capacity in one step: a name longer than the path so far'
breaks='a traversal writes behind the end of its path buffer'
edits=[('src/traverse.c','''		while (need > next_cap)
			next_cap *= 2;
''','''		next_cap *= 2;
''')]
demo='''using namespace sq;
int main() {
    squash_start(); auto d = ::sq::dir("d", {text(std::string(200, 'n'), "1")}); Mount m(build(::sq::dir("", {d}))); sqfs_traverse t; sqfs_err e;
    CHECK(!sqfs_traverse_open(&t, &m.fs, sqfs_inode_root(&m.fs)), "open"); std::string all; while (sqfs_traverse_next(&t, &e)) all += std::string(t.path) + "|"; CHECK(!e, "error"); CHECK(all == "d|d/" + std::string(200, 'n') + "|d|", "paths: %s", all.c_str()); sqfs_traverse_close(&t); return 0; }
'''

