prop='C10'
needs='exactly two selected entries and an order that is not the one of the image'
breaks='the two entries are not sorted'
edits=[('src/scandir.c','	if(compar)\n','	if(compar && n > 2)\n')]
demo='''using namespace sq;
static int rev(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return strcmp((*b)->d_name, (*a)->d_name); }
int main() {
    squash_start(); Mount m(build(::sq::dir("", {text("a", "1"), text("b", "1")}))); struct SQUASH_DIRENT **l; int n = squash_scandir(&m.fs, "/", &l, 0, rev); CHECK(n == 2, "n"); CHECK(!strcmp(l[0]->d_name, "b") && !strcmp(l[1]->d_name, "a"), "order"); for (int i = 0; i < n; i++) free(l[i]); free(l); return 0; }
'''
