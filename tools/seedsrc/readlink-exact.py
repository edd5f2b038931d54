prop='C12'
needs='a buffer with exactly as many bytes as the target has'
breaks='sqfs_readlink writes the terminating NUL behind the buffer'
edits=[('src/fs.c','	if (want > *size - 1)\n','	if (want > *size)\n')]
demo='''using namespace sq;
int main() {
    squash_start(); Mount m(build(::sq::dir("", {lnk("l", "target")}))); sqfs_inode n; short found; CHECK(!sqfs_inode_get(&m.fs, &n, sqfs_inode_root(&m.fs)) && !sqfs_lookup_path(&m.fs, &n, "/l", &found) && found, "lookup");
    for (size_t k = 1; k < 10; k++) { std::vector<char> b(16, 'x'); size_t z = k; CHECK(!sqfs_readlink(&m.fs, &n, b.data(), &z), "readlink"); for (size_t i = k; i < 16; i++) CHECK(b[i] == 'x', "wrote behind a buffer of %zu bytes", k); CHECK(std::string(b.data()) == std::string("target").substr(0, k - 1), "target"); } return 0; }
'''
