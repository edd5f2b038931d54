/* C31: an ordinary C program that works on files and directories. Compiled twice: with the interception header (PROG_IMAGE) and without. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <stdarg.h>
#include <dlfcn.h>
#ifdef PROG_IMAGE
#include "enclose_io.h"
#endif
#define NAMES 64
struct state { int a, b, made; DIR *d; long tell; char seen[NAMES][40], saved[NAMES][40]; int nseen, nsaved, dup, hastell; };
static char *OUT; static size_t CAP; static const char *STRIP;
static void say(const char *f, ...) { size_t n = strlen(OUT); va_list v; va_start(v, f); vsnprintf(OUT + n, CAP - n, f, v); va_end(v); }
/* a name inside the tree as the program writes it */
static const char *at(char *buf, const char *root, const char *real, const char *p) {
	if (p[0] == '@') { snprintf(buf, 4096, "%s%s", root, p + 1); return buf; }
	if (p[0] == '%') { snprintf(buf, 4096, "%s%s", real, p + 1); return buf; }
	return p;
}
static void fail(void) { int e = errno; say("-%s ", strerrorname_np(e) ? strerrorname_np(e) : "?"); }
static void text(const char *p, size_t n) { size_t s = strlen(STRIP); if (s && n >= s && !memcmp(p, STRIP, s)) { p += s; n -= s; } say("'%.*s' ", (int)n, p); }
static void attrs(const struct stat *s) { say("%o", s->st_mode); if (!S_ISDIR(s->st_mode)) say(",%ld,%ld", (long)s->st_size, (long)s->st_nlink); say(",%u,%u ", (unsigned)s->st_uid, (unsigned)s->st_gid); }
static int skip(const char *n) { return !strcmp(n, ".") || !strcmp(n, "..") || !strncmp(n, "new", 3); }
static int by(const void *a, const void *b) { return strcmp((const char *)a, (const char *)b); }
/* positions in a directory are the file system's own business */
static int plain(int fd) { struct stat st; return fstat(fd, &st) || !S_ISDIR(st.st_mode); }
static int keep(const struct dirent *e) { return !skip(e->d_name); }
static int backwards(const struct dirent **a, const struct dirent **b) { return strcmp((*b)->d_name, (*a)->d_name); }
/* one step of the directory stream: 1 when a name was delivered */
static int step(struct state *s) {
	struct dirent *e; int i;
	do { errno = 0; e = readdir(s->d); } while (e && skip(e->d_name));
	if (!e) { if (errno) fail(); return 0; }
	for (i = 0; i < s->nseen; i++) if (!strncmp(s->seen[i], e->d_name, strlen(e->d_name)) && s->seen[i][strlen(e->d_name)] == '/') { s->dup = 1; say("twice:%s ", e->d_name); }
	if (s->nseen < NAMES) { snprintf(s->seen[s->nseen++], 40, "%s/%d", e->d_name, e->d_type); }
	return 1;
}
static void all(struct state *s) { static char t[NAMES][40]; int i; memcpy(t, s->seen, sizeof t); qsort(t, s->nseen, 40, by); for (i = 0; i < s->nseen; i++) say("%s ", t[i]); say(". "); }
/* op: letter, then a path or a number */
void PROG(const char *root, const char *real, const char *strip, const char *const *ops, int n, char *out, size_t cap) {
	struct state s; int i; char buf[4096], b[512]; struct stat st; memset(&s, 0, sizeof s); s.a = s.b = -1; OUT = out; CAP = cap; STRIP = strip; out[0] = 0;
	for (i = 0; i < n; i++) {
		const char *o = ops[i], *p = at(buf, root, real, o + 1); int r; ssize_t k; long v = atol(o + 1);
		errno = 0;
		switch (o[0]) {
		case 'c': r = chdir(p); if (r) fail(); else say("ok "); break;
		case 'g': { char *q = v < 0 ? getcwd(NULL, 0) : getcwd(b, (size_t)v); if (!q) fail(); else text(q, strlen(q)); if (v < 0) free(q); break; }
		case 'W': { char w[4096 + 1]; char *q = getwd(w); if (!q) fail(); else text(q, strlen(q)); break; }
		case 'A': case 'B': { int *f = o[0] == 'A' ? &s.a : &s.b; if (*f >= 0) close(*f); if (o[0] == 'A') s.made = 0; *f = open(p, O_RDONLY); if (*f < 0) fail(); else say("open "); break; }
		case '3': if (s.a >= 0) close(s.a); s.made = 0; s.a = open(p, O_RDONLY | O_CLOEXEC, 0); if (s.a < 0) fail(); else say("open "); break;
		case 'T': if (s.a >= 0) close(s.a); s.made = 0; s.a = openat(AT_FDCWD, p, O_RDONLY); if (s.a < 0) fail(); else say("open "); break;
		case 'N': if (s.a >= 0) close(s.a); s.a = open(p, O_RDWR | O_CREAT | O_EXCL, i % 2 ? 0640 : 0600); s.made = s.a >= 0; if (s.a < 0) fail(); else say("open "); break;
		case 'n': if (s.a >= 0) close(s.a); s.a = openat(AT_FDCWD, p, O_RDWR | O_CREAT, 0604); s.made = s.a >= 0; if (s.a < 0) fail(); else say("open "); break;
		case 'w': if (s.made) { k = write(s.a, o + 1, strlen(o + 1)); if (k < 0) fail(); else say("%zd ", k); } break;
		case 'r': k = read(s.a, b, (size_t)v); if (k < 0) fail(); else say("%zd", k), text(b, k); break;
		case 'R': k = read(s.b, b, (size_t)v); if (k < 0) fail(); else say("%zd", k), text(b, k); break;
		case 'p': k = pread(s.a, b, 4, v); if (k < 0) fail(); else say("%zd", k), text(b, k); break;
		case 'v': { struct iovec iv[3] = {{b, 2}, {b + 100, 0}, {b + 200, (size_t)v}}; k = readv(s.a, iv, 3); if (k < 0) fail(); else { say("%zd", k); text(b, k < 2 ? k : 2); if (k > 2) text(b + 200, k - 2); } break; }
		case 'l': if (plain(s.a)) { off_t q = lseek(s.a, v, SEEK_SET); if (q < 0) fail(); else say("%ld ", (long)q); break; }
		case 'L': if (plain(s.a)) { off_t q = lseek(s.a, v, SEEK_CUR); if (q < 0) fail(); else say("%ld ", (long)q); break; }
		case 'E': if (plain(s.a)) { off_t q = lseek(s.a, 0, SEEK_END); if (q < 0) fail(); else say("%ld ", (long)q); break; }
		case 'f': r = fstat(s.a, &st); if (r) fail(); else attrs(&st); break;
		case 'z': r = close(s.a); s.a = -1; s.made = 0; if (r) fail(); else say("closed "); break;
		case 'Z': r = close(s.b); s.b = -1; if (r) fail(); else say("closed "); break;
		case 's': r = stat(p, &st); if (r) fail(); else attrs(&st); break;
		case 'S': r = lstat(p, &st); if (r) fail(); else attrs(&st); break;
		case 'x': r = access(p, F_OK); if (r) fail(); else say("there "); break;
		case 'X': r = access(p, R_OK); if (r) fail(); else say("readable "); break;
		case 'k': k = readlink(p, b, sizeof b); if (k < 0) fail(); else say("%zd", k - (b[0] == '/' ? (ssize_t)strlen(strip) : 0)), text(b, k); break;
		case 'K': k = readlink(p, b, 2); if (k < 0) fail(); else say("%zd", k), text(b, k); break;
		case 'o': if (s.d) closedir(s.d); memset(s.seen, 0, sizeof s.seen); s.nseen = s.hastell = 0; s.d = opendir(p); if (!s.d) fail(); else say("stream "); break;
		case 'O': if (s.d) closedir(s.d); memset(s.seen, 0, sizeof s.seen); s.nseen = s.hastell = 0; s.d = fdopendir(s.a); if (!s.d) fail(); else { s.a = -1; say("stream "); } break;
		case 'd': if (s.d) say(step(&s) ? "one " : "end "); break;
		case 'D': if (s.d) { while (step(&s)); all(&s); } break;
		case 't': if (s.d) { s.tell = telldir(s.d); memcpy(s.saved, s.seen, sizeof s.seen); s.nsaved = s.nseen; s.hastell = 1; } break;
		case 'y': if (s.d && s.hastell) { seekdir(s.d, s.tell); memcpy(s.seen, s.saved, sizeof s.seen); s.nseen = s.nsaved; } break;
		case 'Y': if (s.d) { rewinddir(s.d); s.nseen = 0; memset(s.seen, 0, sizeof s.seen); } break;
		case 'F': if (s.d) { r = dirfd(s.d); if (r < 0) fail(); else { r = fstat(r, &st); if (r) fail(); else say("%o ", st.st_mode & S_IFMT); } } break;
		case 'q': if (s.d) { r = closedir(s.d); s.d = NULL; if (r) fail(); else say("closed "); } break;
		case 'e': { struct dirent **l = NULL; int j; r = scandir(p, &l, keep, v ? 0 : backwards); if (r < 0) fail(); else { for (j = 0; j < r; j++) { say("%s/%d ", l[j]->d_name, l[j]->d_type); free(l[j]); } free(l); say(". "); } break; }
		case 'i': if (s.a >= 0) close(s.a); s.made = 0; s.a = openat(s.b, p, O_RDONLY); if (s.a < 0) fail(); else say("open "); break;
		case 'I': if (s.a >= 0) close(s.a); s.a = openat(s.b, p, O_RDWR | O_CREAT, 0640); s.made = s.a >= 0; if (s.a < 0) fail(); else say("open "); break;
		case 'U': { char rb[4096]; int d = open(at(rb, root, real, "%"), O_RDONLY | O_DIRECTORY); if (d < 0) { say("no directory "); break; } if (s.a >= 0) close(s.a); s.made = 0; s.a = i % 2 ? openat(d, p, O_RDONLY | O_NOFOLLOW, 0) : openat(d, p, O_RDONLY); if (s.a < 0) fail(); else say("open "); close(d); break; }
		case 'C': case 'V': { int d = o[0] == 'C' ? open(p, O_RDWR | O_CREAT | O_EXCL, 0640) : openat(AT_FDCWD, p, O_WRONLY | O_CREAT | O_EXCL, 0604); if (d < 0) fail(); else { r = fstat(d, &st); if (r) fail(); else attrs(&st); k = write(d, "abc", 3); say("%zd ", k); close(d); r = stat(p, &st); if (r) fail(); else attrs(&st); unlink(p); } break; }
		case 'M': r = mkdir(p, 0741); if (r) fail(); else { r = stat(p, &st); if (r) fail(); else attrs(&st); rmdir(p); } break;
		case 'h': { void *q = dlopen(p, RTLD_LAZY); say(q ? "loaded " : "null "); if (q) dlclose(q); break; }
		case 'H': { void *q = dlopen(NULL, RTLD_LAZY); say(q ? "loaded " : "null "); if (q) dlclose(q); break; }
		case 'j': { char *av[2] = {(char *)"x", NULL}; r = execv(p, av); if (r) fail(); break; }
		case 'm': r = mkdir(p, 0751); if (r) fail(); else say("made "); break;
		}
		say("|");
	}
	if (s.d) closedir(s.d); if (s.a >= 0) close(s.a); if (s.b >= 0) close(s.b);
}
