// Abstract path resolution over the Node tree. Where the statements leave the result open (dot-dot behind something missing or
// behind a link, trailing slashes and dots behind non-directories, the empty path, more than 32 links spread over several
// components) all readings are computed and each of them is acceptable.
#pragma once
#include "vf.hpp"
#include <errno.h>
#include <sys/stat.h>
namespace pm {
using sq::Node;
struct Out { Node *n; int err; bool operator<(const Out &o) const { return n != o.n ? n < o.n : err < o.err; } };   // err -1: any errno
typedef std::set<Out> Outs;
inline std::vector<std::string> split(const std::string &p) { std::vector<std::string> r; size_t i = 0; while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); if (j > i) r.push_back(p.substr(i, j - i)); i = j + 1; } return r; }
// textual dot-dot removal, leading dot-dots are kept
inline std::vector<std::string> lexical(const std::vector<std::string> &c) { std::vector<std::string> r; for (auto &x : c) { if (x == ".") continue; if (x == ".." && r.size() && r.back() != "..") r.pop_back(); else r.push_back(x); } return r; }
struct Walk {
    Node *root; std::string alias, alias2; bool lexw, lext, tfollow, tdir; int links = 0, chain = 0, maxchain = 0; size_t maxlen = 0; bool purechain = true;
    std::string strip(const std::string &t) const { for (auto &a : {alias, alias2}) if (!a.empty() && t.compare(0, a.size(), a) == 0) return t.substr(a.size() - 1); return t; }
    // result: node, or null with err
    Out go(const std::string &path, bool follow) {
        std::vector<std::string> todo = split(path); bool trail = !path.empty() && path.back() == '/';
        if (!todo.empty() && todo.back() == ".") { bool only = true; for (auto &x : todo) only = only && x == "."; trail = !only; while (!todo.empty() && todo.back() == ".") todo.pop_back(); }
        if (lexw) todo = lexical(todo);
        std::vector<Node *> st{root}; size_t i = 0; bool consumed = false;
        while (i < todo.size()) {
            std::string c = todo[i++]; if (c == ".") continue;
            Node *d = st.back(); if (d->kind != sq::DIR) return {nullptr, ENOTDIR};
            if (c == "..") { if (st.size() == 1) return {nullptr, -1}; st.pop_back(); continue; }
            if (c.size() > 256) return {nullptr, -1};
            Node *n = d->find(c); if (!n) return {nullptr, ENOENT};
            bool last = i == todo.size();
            if (n->kind == sq::LNK && (!last || follow || (trail && tfollow))) {
                if (++links > 150) return {nullptr, ELOOP};
                if (consumed) { chain = 0; if (links > 1) purechain = false; }
                consumed = false; chain++; maxchain = std::max(maxchain, chain);
                std::string t = strip(n->target); auto tc = split(t); bool ttrail = false; if (!last) {} 
                if (lext) tc = lexical(tc);
                if (t.empty()) return {nullptr, -1};
                size_t l = t.size() + 1; for (size_t k = i; k < todo.size(); k++) l += todo[k].size() + 1; for (auto s : st) l += s->name.size() + 1; if (links <= 33) maxlen = std::max(maxlen, l);
                // a target with a trailing slash asks for a directory
                if (last && !t.empty() && (t.back() == '/' || tc.empty() || tc.back() == ".")) trail = trail || tfollow;
                if (t[0] == '/') st.resize(1);
                tc.insert(tc.end(), todo.begin() + i, todo.end()); if (tc.size() > 30000 || (links >= 4 && tc.size() > 3000)) return {nullptr, ELOOP}; todo.swap(tc); i = 0; continue;
            }
            consumed = true; st.push_back(n);
        }
        if (trail && tdir && st.back()->kind != sq::DIR) return {nullptr, ENOTDIR};
        return {st.back(), 0};
    }
};
inline Outs outcomes(Node *root, const std::string &path, bool follow, const std::string &alias = "", const std::string &alias2 = "", bool spread_ok = true) {
    Outs r; if (path.empty()) { r.insert({root, 0}); r.insert({nullptr, ENOENT}); return r; }
    bool dd = path.find("..") != std::string::npos, tr = path.back() == '/' || path.back() == '.';
    for (int m = 0; m < 16; m++) {
        if ((m & 1 && !dd) || (m & 12 && !tr && m & 4)) continue;
        Walk w{root, alias, alias2, !!(m & 1), !!(m & 2), !!(m & 4), !!(m & 8)}; Out o = w.go(path, follow);
        if (w.links > 32 && w.links <= 150 && w.purechain && w.maxchain > 32) r.insert({nullptr, ELOOP});
        else if (o.err == ENOTDIR) { if (w.links > 32) r.insert({nullptr, ELOOP}); r.insert({nullptr, ENOENT}); r.insert({nullptr, ENOTDIR}); }
        else if (w.links > 32 && w.links <= 150) { r.insert({nullptr, ELOOP}); r.insert(o); }
        else r.insert(o);
        if (w.maxlen > 1500 || path.size() > 1500) r.insert({nullptr, ENAMETOOLONG});
        if (w.maxlen > 1500) r.insert({nullptr, ENAMETOOLONG});
        for (auto &c : split(path)) if (c.size() > 255) r.insert({nullptr, ENAMETOOLONG});
    }
    return r;
}
// ---- identification of objects by their modification time
struct Ident {
    std::map<uint32_t, Node *> by; uint32_t next = 5000;
    void walk(Node &n) { n.mtime = next; by[next++] = &n; for (auto &k : n.kids) walk(*k); }
    explicit Ident(Node &root) { walk(root); }
    Node *of(const struct stat &st) const { auto i = by.find((uint32_t)st.st_mtime); return i == by.end() ? nullptr : i->second; }
};
inline std::string show(const Outs &o) { std::string r; for (auto &x : o) { if (!r.empty()) r += " or "; r += x.n ? "object '" + hexname(x.n->name) + "'" : x.err == -1 ? "a failure" : errname(x.err); } return r; }
// result of one call: n found object (null: failed, with e). A failure must be one of the acceptable ones.
inline void judge(const char *op, const std::string &path, Node *n, bool ok, int e, const Outs &o, bool errnos) {
    ctx.transitions++;
    if (ok) { for (auto &x : o) if (x.n && x.n == n) return; }
    else for (auto &x : o) if (!x.n && (!errnos || x.err == -1 || x.err == e)) { return; }
    vfail(vfmt("%s(\"%s\") %s, expected %s", op, hexname(path).c_str(), ok ? (n ? ("found '" + hexname(n->name) + "'").c_str() : "found an unknown object") : ("failed with " + errname(e)).c_str(), show(o).c_str()));
}
inline Outs only(const Outs &o, const std::function<bool(Node *)> &f, int err) { Outs r; for (auto &x : o) if (x.n && !f(x.n)) r.insert({nullptr, err}); else r.insert(x); return r; }
// all path calls on one path
inline void check_path(sqfs *fs, Node *root, const Ident &id, const std::string &p, bool errnos, const Outs &fo, const Outs &nf, bool dirs = true);
inline void check_path(sqfs *fs, Node *root, const Ident &id, const std::string &p, bool errnos, const std::string &alias = "", const std::string &alias2 = "", bool dirs = true) {
    check_path(fs, root, id, p, errnos, outcomes(root, p, true, alias, alias2), outcomes(root, p, false, alias, alias2), dirs);
}
inline void check_path(sqfs *fs, Node *root, const Ident &id, const std::string &p, bool errnos, const Outs &fo, const Outs &nf, bool dirs) {
    struct stat st; int r;
    memset(&st, 0x55, sizeof st); errno = 0; r = squash_stat(fs, p.c_str(), &st); judge("stat", p, r ? nullptr : id.of(st), !r, errno, fo, errnos);
    memset(&st, 0x55, sizeof st); errno = 0; r = squash_lstat(fs, p.c_str(), &st); judge("lstat", p, r ? nullptr : id.of(st), !r, errno, nf, errnos);
    errno = 0; int fd = squash_open(fs, p.c_str()); int e = errno; memset(&st, 0x55, sizeof st); if (fd >= 0) { squash_fstat(fd, &st); squash_close(fd); } judge("open", p, fd < 0 ? nullptr : id.of(st), fd >= 0, e, fo, errnos);
    if (dirs) {
        Outs dout = only(fo, [](Node *n) { return n->kind == sq::DIR; }, -1);
        errno = 0; SQUASH_DIR *d = squash_opendir(fs, p.c_str()); e = errno; Node *dn = nullptr; if (d) { memset(&st, 0x55, sizeof st); squash_fstat(squash_dirfd(d), &st); dn = id.of(st);
            std::string l, w; while (auto *de = squash_readdir(d)) l += std::string(de->d_name) + "/"; squash_closedir(d); if (dn) { for (auto &k : dn->kids) w += k->name.substr(0, 255) + "/"; if (l != w) dn = nullptr; } }
        judge("opendir", p, dn, d != nullptr, e, dout, errnos);
    }
    { sqfs_inode ino; sqfs_err er = sqfs_inode_get(fs, &ino, sqfs_inode_root(fs)); REQ(!er, "root inode"); short found = 0; errno = 0; er = sqfs_lookup_path(fs, &ino, p.c_str(), &found); Node *n = nullptr; if (!er && found) { for (auto &k : id.by) if (k.second->number == ino.base.inode_number) n = k.second; } judge("sqfs_lookup_path", p, n, !er && found, errno, nf, false); }
}
} // namespace pm
