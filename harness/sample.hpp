// Declarations shared by the checks of the interception layer (sample/).
#pragma once
#include "vf.hpp"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
extern "C" {
#include "enclose_io_common.h"
}
#define MEMFS "/__enclose_io_memfs__"
// the image of the process: enclose_io_fs points to it
inline std::string slurp_fd(int fd, ssize_t (*rd)(int, void *, size_t)) { std::string s; char b[4096]; ssize_t n; while ((n = rd(fd, b, sizeof b)) > 0) s.append(b, n); return n < 0 ? "error" : s; }
inline void spit(const std::string &p, const std::string &d) { FILE *f = fopen(p.c_str(), "w"); if (!f) { fprintf(stderr, "VF-FATAL cannot write %s\n", p.c_str()); _exit(2); } fwrite(d.data(), 1, d.size(), f); fclose(f); }
inline std::string content_of(const sq::Node &n, uint32_t bs) { std::string s(n.size, 0); sq::content(n, 0, n.size, bs, (uint8_t *)&s[0]); return s; }
