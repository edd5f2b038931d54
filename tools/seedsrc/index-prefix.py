prop='C08'
needs='a large directory with a name index in which an index entry has the looked-up name as a proper prefix'
breaks='a name that is a proper prefix of the first name of an indexed part is not found'
edits=[('src/dir.c','if (order > 0 || (order == 0 && name_size > args->cmplen))','if (order > 0)')]
demo='''using namespace sq;
int main() {
    squash_start(); auto d = ::sq::dir("d"); d->ext = true; d->index_mode = 2; d->hdr_max = 3; for (const char *n : {"a", "b", "lib", "lib.so", "lib.so.1", "m", "z"}) d->add(text(n, n)); 
    Mount m(build(::sq::dir("", {d}))); for (auto &k : d->kids) { struct stat st; CHECK(!squash_lstat(&m.fs, ("/d/" + k->name).c_str(), &st), "%s is not found", k->name.c_str()); } return 0; }
'''
