prop='C13'
needs='a link whose target begins in one block of metadata and ends in a damaged one'
breaks='the call fails but errno says nothing'
edits=[('src/readlink.c','''        if (SQFS_OK != error) {
                errno = EIO;
                return -1;
''','''        if (SQFS_OK != error) {
                return -1;
''')]
demo='''using namespace sq;
int main() {
    squash_start(); auto r = ::sq::dir(""); auto l = lnk("a", std::string(1500, 't')); l->inode_at = 8192 - 100; r->add(l); for (int i = 0; i < 600; i++) { char n[9]; snprintf(n, 9, "e%03d", i); r->add(text(n, "x")); }
    auto im = build(r); char b[2048]; int bad = 0; { Mount m(im); CHECK(squash_readlink(&m.fs, "/a", b, 2048) == 1500, "intact"); }
    for (auto &c : im->cblocks) if (c.kind == 'I' && c.seq > 0) { uint8_t *p = im->mem + im->off() + c.pos, s[16]; memcpy(s, p, 16); memset(p, 0xff, 16); { Mount m(im); struct stat st; errno = 0; if (!squash_lstat(&m.fs, "/a", &st)) { errno = 0; if (squash_readlink(&m.fs, "/a", b, 2048) == -1) { bad++; CHECK(errno != 0, "errno is 0 (block %d)", c.seq); } } } memcpy(p, s, 16); }
    CHECK(bad > 0, "nothing failed"); return 0; }
'''
