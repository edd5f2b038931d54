prop='C14'
needs='a directory with a name of 256 bytes, the longest that can be stored'
breaks='the path is wrong for everything that is visited after that directory'
edits=[('src/traverse.c','	size_t name_size;\n','	uint8_t name_size;\n')]
demo='''using namespace sq;
int main() {
    std::string L(256, 'n'); Mount m(build(::sq::dir("", {::sq::dir(L, {text("x", "1")}), text("z", "1")}))); sqfs_traverse t; sqfs_err e; CHECK(!sqfs_traverse_open(&t, &m.fs, sqfs_inode_root(&m.fs)), "open");
    std::vector<std::string> got; while (sqfs_traverse_next(&t, &e)) got.push_back(t.path); CHECK(!e, "err"); sqfs_traverse_close(&t);
    CHECK(got == (std::vector<std::string>{L, L + "/x", L, "z"}), "%zu paths, the last one is %.20s", got.size(), got.back().c_str()); return 0; }
'''
