prop='C32'
needs='two data blocks whose positions in the image differ by a multiple of 4 GiB, read one after the other'
breaks='the second read gives the bytes of the first block'
edits=[('src/fs.c','''	entry = sqfs_cache_get(cache, pos);
''','''	entry = sqfs_cache_get(cache, (uint32_t)pos);
''')]
demo='''using namespace sq;
int main() { squash_start(); int rc = 0; for (const char *far : {"", "d"}) { auto a = reg("a", 4096, "C", false, 1), b = reg("b", 4096, "C", false, 2); a->ext = b->ext = true; Opt o; o.far = far; auto im = build(::sq::dir("", {a, b}), o); Mount m(im);
    for (Node *n : {a.get(), b.get(), a.get()}) { int fd = squash_open(&m.fs, ("/" + n->name).c_str()); if (readall(fd) != expect(*n, 0, 4096)) { fprintf(stderr, "%s reads other bytes (far: %s)\\n", n->name.c_str(), far); rc = 1; } squash_close(fd); } } return rc; }
'''
