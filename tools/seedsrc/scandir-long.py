prop='C10'
needs='an entry with a name of more than 247 bytes'
breaks='the name of the returned entry is cut or has no end'
edits=[('src/scandir.c','memcpy((void *)p,(void *)ent,sizeof(struct SQUASH_DIRENT));','memcpy((void *)p,(void *)ent,sizeof(struct SQUASH_DIRENT) > 256 ? 256 : sizeof(struct SQUASH_DIRENT));')]
demo='''using namespace sq;
int main() {
    squash_start(); std::string L(250, 'n'), K(200, 'm'); Mount m(build(::sq::dir("", {text(K, "1"), text(L, "1")}))); struct SQUASH_DIRENT **l; int n = squash_scandir(&m.fs, "/", &l, 0, 0); CHECK(n == 2, "n");
    CHECK(std::string(l[0]->d_name) == K, "200 bytes"); CHECK(std::string(l[1]->d_name, strnlen(l[1]->d_name, 256)) == L, "250 bytes"); for (int i = 0; i < n; i++) free(l[i]); free(l); return 0; }
'''
