prop='C11'
needs='a device with a minor number of 2^16 or more'
breaks='large minor device numbers are reported modulo 2^16'
edits=[('src/fs.c','((rdev >> 12) & 0xfff00)','((rdev >> 12) & 0xff00)')]
demo='''using namespace sq;
#include <sys/sysmacros.h>
int main() {
    squash_start(); auto c = mk(CHR, "c"); unsigned ma = 0xabc, mi = 0x51234; c->rdev = (mi & 0xff) | (ma << 8) | ((mi & ~0xffu) << 12); Mount m(build(::sq::dir("", {c}))); struct stat st; CHECK(!squash_stat(&m.fs, "/c", &st), "stat"); CHECK(major(st.st_rdev) == ma && minor(st.st_rdev) == mi, "device %x:%x", major(st.st_rdev), minor(st.st_rdev)); return 0; }
'''
