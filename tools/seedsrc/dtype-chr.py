prop='C07'
needs='a directory entry whose type is that of an extended inode'
breaks='the type of the entry is reported as unknown'
edits=[('src/dirent.c','			case SQUASHFS_LFIFO_TYPE:\n				sysentry->d_type = DT_FIFO;\n','				sysentry->d_type = DT_FIFO;\n')]
demo='''using namespace sq;
int main() { squash_start(); for (bool ext : {false, true}) { auto f = std::make_shared<Node>(); f->kind = FIFO; f->name = "p"; f->ext = ext; Opt o; o.ext_types = true; Mount m(build(::sq::dir("", {f}), o)); SQUASH_DIR *d = squash_opendir(&m.fs, "/"); CHECK(d, "opendir"); auto *e = squash_readdir(d); CHECK(e && e->d_type == DT_FIFO, "type %d", e->d_type); squash_closedir(d); } return 0; }
'''
