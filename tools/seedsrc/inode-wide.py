prop='C05'
needs='an inode that lies more than 64 KiB behind the beginning of a table of inodes'
breaks='the path leads to another object'
edits=[('src/dir.c','	entry->inode = ((uint64_t)dir->header.start_block << 16) + e.offset;\n','	entry->inode = (dir->header.start_block << 16) + e.offset;\n')]
demo='''using namespace sq;
int main() {
    squash_start(); auto d = ::sq::dir("d"); d->ext = true; d->hdr_max = 200; for (int i = 0; i < 3000; i++) { char n[9]; snprintf(n, 9, "e%04d", i); auto f = text(n, std::string(1 + i % 50, 'x')); d->add(f); }
    Opt o; o.md_comp = false; Mount m(build(::sq::dir("", {d}), o)); for (int i : {0, 5, 1500, 2999}) { char n[20]; snprintf(n, 20, "/d/e%04d", i); struct stat st; CHECK(!squash_stat(&m.fs, n, &st), "%s is missing", n); CHECK(st.st_size == 1 + i % 50, "%s", n); } return 0; }
'''
