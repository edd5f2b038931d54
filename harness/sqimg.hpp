// In-memory squashfs 4.0 image writer with full layout control. The Node tree it is given is the oracle.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <algorithm>
#include <zlib.h>
#include <cstdio>
#include <sys/mman.h>

namespace sq {
typedef std::vector<uint8_t> Bytes;
enum Kind { DIR = 1, REG = 2, LNK = 3, BLK = 4, CHR = 5, FIFO = 6, SOCK = 7 };
const uint64_t MD = 8192;

inline void put(Bytes &b, const void *p, size_t n) { const uint8_t *q = (const uint8_t *)p; b.insert(b.end(), q, q + n); }
template <class T> inline void le(Bytes &b, T v) { put(b, &v, sizeof v); }

struct Node {
    int kind = REG;
    bool ext = false;
    std::string name;
    uint16_t mode = 0644;   // permission bits
    uint16_t uid = 0, gid = 0;
    uint32_t mtime = 1000000000;
    uint32_t nlink = 1;
    // regular files
    uint64_t size = 0;
    std::string layout;      // one char per data block: C compressed, U stored, H hole, Z stored zeros (take no memory); last char repeats
    bool frag = false;       // tail (size % block_size) goes to a fragment (then layout covers only full blocks)
    uint32_t fid = 0;        // content identity
    bool coarse = false;     // content constant (8-byte word) per block: compresses to nothing
    int frag_group = -1;     // >=0: force a particular fragment block per group
    bool literal = false; std::string data;   // explicit content
    bool fake = false; uint64_t fake_size = 0;   // stored size differs from the data (stat only)
    bool dataless = false;   // huge sparse file: content all zero, no stored block
    // symlink
    std::string target;
    // devices
    uint32_t rdev = 0;
    // directories
    std::vector<std::shared_ptr<Node>> kids;
    int hdr_max = 256;       // max entries per header
    int index_mode = 0;      // 0 none, 1 first header in each md block, 2 every header
    int list_at = -1;        // wanted offset of the listing within its metadata block
    int inode_at = -1;       // wanted offset of the inode within its metadata block
    uint32_t number = 0;     // inode number (0: automatic)
    // results
    uint64_t ref = 0;
    uint64_t start_block = 0; uint32_t frag_idx = 0xffffffffu, frag_off = 0;
    std::vector<uint32_t> ent_off;      // listing offset of each entry (where an entry "starts")
    std::vector<uint32_t> ent_next;     // listing offset just behind each entry
    uint32_t list_size = 0; uint32_t idx_count = 0;
    uint32_t d_start = 0; uint16_t d_off = 0;
    Node *parent = nullptr;
    std::vector<std::pair<uint64_t,uint32_t>> blocks;   // (image position, size) of stored blocks
    std::vector<uint32_t> hdrs;

    Node *add(std::shared_ptr<Node> n) { n->parent = this; kids.push_back(n); return n.get(); }
    Node *find(const std::string &nm) const { for (auto &k : kids) if (k->name == nm) return k.get(); return nullptr; }
    int itype() const { return kind + (ext ? 7 : 0); }
    bool stored_hole(uint64_t b) const { return lay(b) == 'H'; }
    char lay(uint64_t b) const { if (dataless) return 'H'; if (layout.empty()) return 'C'; return b < layout.size() ? layout[b] : layout.back(); }
};
typedef std::shared_ptr<Node> NodeP;

inline uint64_t mix(uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x; }
// word of the content at 8-byte index wi
inline uint64_t word(const Node &n, uint64_t wi, uint32_t bs) {
    if (n.coarse) return mix(((uint64_t)n.fid << 40) + (wi * 8 / bs) + 1) | 0x0101010101010101ull;
    return ((uint64_t)(mix(n.fid + 77) & 0xffff) << 48) | 0x0000a50000000000ull | ((wi + 1) & 0xffffffffffull);
}
// expected content of [pos, pos+len)
inline void content(const Node &n, uint64_t pos, size_t len, uint32_t bs, uint8_t *out) {
    if (n.dataless) { memset(out, 0, len); return; }
    if (n.literal) { memcpy(out, n.data.data() + pos, len); return; }
    uint64_t nblk = n.frag ? n.size / bs : (n.size + bs - 1) / bs;
    for (size_t i = 0; i < len;) {
        uint64_t p = pos + i, b = p / bs;
        if (b < nblk && (n.lay(b) == 'H' || n.lay(b) == 'Z')) { size_t t = std::min<uint64_t>(len - i, (b + 1) * bs - p); memset(out + i, 0, t); i += t; continue; }
        uint64_t w = word(n, p / 8, bs); size_t k = p % 8, t = std::min<size_t>(8 - k, len - i);
        memcpy(out + i, (uint8_t *)&w + k, t); i += t;
    }
}

inline NodeP mk(int kind, const std::string &name) { auto n = std::make_shared<Node>(); n->kind = kind; n->name = name; if (kind == DIR) { n->mode = 0755; n->nlink = 2; } return n; }
inline NodeP dir(const std::string &name, std::vector<NodeP> kids = {}) { auto n = mk(DIR, name); for (auto &k : kids) n->add(k); return n; }
inline NodeP lnk(const std::string &name, const std::string &t) { auto n = mk(LNK, name); n->target = t; n->mode = 0777; return n; }
inline NodeP reg(const std::string &name, uint64_t size, const std::string &layout = "C", bool frag = false, uint32_t fid = 1) { auto n = mk(REG, name); n->size = size; n->layout = layout; n->frag = frag; n->fid = fid; return n; }
inline NodeP text(const std::string &name, const std::string &data) { auto n = mk(REG, name); n->literal = true; n->data = data; n->size = data.size(); n->frag = true; return n; }

inline Bytes deflate1(const uint8_t *p, size_t n) {
    uLongf l = compressBound(n); Bytes o(l); if (compress2(o.data(), &l, p, n, 1) != Z_OK) abort(); o.resize(l); return o;
}

struct MdWriter {
    Bytes out, cur; bool comp; std::vector<uint64_t> starts;  // start of each block in out
    std::vector<uint8_t> iscomp;
    MdWriter(bool c) : comp(c) {}
    void flush() {
        if (cur.empty()) return;
        starts.push_back(out.size());
        Bytes c; bool st = true;
        if (comp) { c = deflate1(cur.data(), cur.size()); st = c.size() >= cur.size() || c.size() > MD; }
        if (st) { uint16_t h = (uint16_t)cur.size() | 0x8000; le<uint16_t>(out, h); put(out, cur.data(), cur.size()); }
        else { le<uint16_t>(out, (uint16_t)c.size()); put(out, c.data(), c.size()); }
        iscomp.push_back(!st);
        cur.clear();
    }
    uint64_t block() const { return out.size(); }          // start of the current block
    size_t off() const { return cur.size(); }
    uint64_t ref() const { return ((uint64_t)out.size() << 16) | cur.size(); }
    void write(const void *p, size_t n) {
        const uint8_t *q = (const uint8_t *)p;
        while (n) { size_t t = std::min(n, (size_t)MD - cur.size()); put(cur, q, t); q += t; n -= t; if (cur.size() == MD) flush(); }
    }
    void write(const Bytes &b) { write(b.data(), b.size()); }
};

struct Opt {
    uint32_t block_size = 4096;
    bool md_comp = true;         // compress metadata
    bool tbl_comp = true;
    bool export_table = true;
    bool frag_comp = true;
    uint32_t frag_cap = 4096;    // bytes per fragment block
    size_t offset = 0;           // image offset
    uint16_t compression = 1, major = 4, minor = 0; uint32_t magic = 0x73717368;
    std::vector<uint32_t> ids{0};
    uint32_t extra_frags = 0;    // dummy fragment entries before the real ones
    uint32_t extra_inodes = 0;   // export entries for dummy numbers
    std::function<void(Bytes&)> patch;  // applied to the image bytes (without offset)
    bool ext_types = false;      // write the extended type numbers into directory entries as well
    size_t tail = 0;             // extra bytes behind the image
    std::string far;             // sections that begin 4 GiB further on, with the same low bits as each other: d file data, f fragment blocks, I inodes, D listings, F E X tables
};

struct Block { char kind; uint64_t pos; uint32_t size; int seq; };   // kind: I inode md, D dir md, F fragment md, E export md, X id md, d data, f fragment

struct Image {
    uint8_t *mem = nullptr; size_t len = 0; Opt opt; NodeP root; std::vector<Block> cblocks; // compressed blocks
    std::vector<Node *> all;            // by writing order
    std::map<uint32_t, uint64_t> bynum;  // inode number -> ref
    struct FragEnt { uint64_t pos; uint32_t size; };
    std::vector<FragEnt> frags; uint32_t inodes = 0;
    const uint8_t *base() const { return mem; }
    size_t off() const { return opt.offset; }
    size_t mapped = 0;
    ~Image() { if (mapped) munmap(mem, mapped); else free(mem); }
};
typedef std::shared_ptr<Image> ImageP;

struct Writer {
    Opt o; Bytes img; MdWriter im, dm; std::vector<Image::FragEnt> frags; Bytes fragbuf; std::vector<Node *> fragusers; int fraggroup = -1;
    uint32_t nextnum = 1; std::vector<Node *> all; std::vector<Block> cb; std::map<uint32_t, uint64_t> bynum;
    Writer(const Opt &op) : o(op), im(op.md_comp), dm(op.md_comp) { img.resize(96); }
    struct Seg { size_t at; uint64_t pos; }; std::vector<Seg> segs{{0, 0}};      // pieces of img and where they belong in the image
    uint64_t vpos() const { return img.size() - segs.back().at + segs.back().pos; }
    // a far section begins at another multiple of 4 GiB; the first file data and fragment block stay near, so that later ones share their low bits
    uint64_t low[3] = {0, 0, 0};
    void section(char k) {
        bool far = o.far.find(k) != std::string::npos; int c = k == 'd' ? 0 : k == 'f' ? 1 : 2;
        if (!low[c] && (c < 2 || !far)) { low[c] = (uint32_t)vpos(); return; }
        if (!low[c]) low[c] = 8192;
        if (far) segs.push_back({img.size(), ((vpos() + (1ull << 32) - 1 - low[c]) >> 32 << 32) + low[c]});
    }
    void number(Node &n) { if (!n.number) n.number = nextnum++; else nextnum = std::max(nextnum, n.number + 1); for (auto &k : n.kids) { k->parent = &n; number(*k); } }
    std::map<std::string, Bytes> ccache;
    void flush_frag() {
        if (fragbuf.empty()) return;
        section('f'); uint64_t pos = vpos(); uint32_t sz;
        if (o.frag_comp) { Bytes c = deflate1(fragbuf.data(), fragbuf.size()); sz = c.size(); put(img, c.data(), c.size()); cb.push_back({'f', pos, sz, (int)frags.size()}); }
        else { sz = fragbuf.size() | (1u << 24); put(img, fragbuf.data(), fragbuf.size()); }
        frags.push_back({pos, sz}); fragbuf.clear();
    }
    Bytes compress_block(const Node &n, const Bytes &raw) {
        if (!n.coarse) return deflate1(raw.data(), raw.size());
        return deflate1(raw.data(), raw.size());
    }
    std::map<Node *, std::vector<uint32_t>> sizes;
    void data(Node &n) {
        uint32_t bs = o.block_size; uint64_t nblk = n.frag ? n.size / bs : (n.size + bs - 1) / bs;
        section('d'); auto &sz = sizes[&n]; n.start_block = vpos(); bool first = true;
        Bytes raw;
        for (uint64_t b = 0; b < nblk; b++) {
            size_t len = std::min<uint64_t>(bs, n.size - b * bs); char l = n.lay(b);
            if (l == 'H') { sz.push_back(0); n.blocks.push_back({0, 0}); continue; }
            if (l == 'Z') { uint64_t pos = vpos(); if (first) { n.start_block = pos; first = false; } sz.push_back(len | (1u << 24)); n.blocks.push_back({pos, len}); segs.push_back({img.size(), pos + len}); continue; }
            raw.resize(len); content(n, b * bs, len, bs, raw.data());
            uint64_t pos = vpos(); if (first) { n.start_block = pos; first = false; }
            if (l == 'C') { Bytes c = compress_block(n, raw); put(img, c.data(), c.size()); sz.push_back(c.size()); cb.push_back({'d', pos, (uint32_t)c.size(), (int)b}); n.blocks.push_back({pos, c.size()}); }
            else { put(img, raw.data(), len); sz.push_back(len | (1u << 24)); n.blocks.push_back({pos, len}); }
        }
        if (n.frag && n.size % bs) {
            size_t len = n.size % bs;
            if (fragbuf.size() + len > o.frag_cap || (n.frag_group >= 0 && n.frag_group != fraggroup)) flush_frag();
            fraggroup = n.frag_group;
            n.frag_idx = frags.size() + o.extra_frags; n.frag_off = fragbuf.size();
            raw.resize(len); content(n, nblk * bs, len, bs, raw.data()); put(fragbuf, raw.data(), len);
        }
    }
    void alldata(Node &n) { if (n.kind == REG) data(n); for (auto &k : n.kids) alldata(*k); }
    void align_inode(int at) {
        if (at < 0 || (int)im.off() == at) return;
        size_t gap = (at + MD - im.off()) % MD; if (gap < 25) gap += MD;
        Bytes b; size_t tl = gap - 24;
        le<uint16_t>(b, LNK); le<uint16_t>(b, 0777); le<uint16_t>(b, 0); le<uint16_t>(b, 0); le<uint32_t>(b, 0); uint32_t num = nextnum++; bynum[num] = im.ref(); le<uint32_t>(b, num); le<uint32_t>(b, 1); le<uint32_t>(b, tl);
        for (size_t i = 0; i < tl; i++) b.push_back('f');
        im.write(b);
    }
    void listing(Node &n) {
        if (n.list_at >= 0) { size_t gap = (n.list_at + MD - dm.off()) % MD; Bytes g(gap, 0xEE); dm.write(g); }
        n.d_start = dm.block(); n.d_off = dm.off();
        std::vector<std::pair<uint64_t, std::string>> dummy;
        idx.clear();
        size_t i = 0; uint32_t off = 0; int64_t lastblk = -1;
        n.ent_off.clear(); n.ent_next.clear(); n.hdrs.clear();
        while (i < n.kids.size()) {
            // extent of this header
            uint64_t sb = n.kids[i]->ref >> 16; uint32_t bn = n.kids[i]->number; size_t j = i;
            while (j < n.kids.size() && (int)(j - i) < n.hdr_max && j - i < 256 && (n.kids[j]->ref >> 16) == sb) {
                int64_t d = (int64_t)n.kids[j]->number - bn; if (d < -32768 || d > 32767) break; j++;
            }
            bool newblk = (int64_t)dm.block() != lastblk;
            if ((n.index_mode == 2) || (n.index_mode == 1 && newblk && off > 0)) idx.push_back({off, (uint32_t)dm.block(), n.kids[i]->name});
            lastblk = dm.block();
            n.hdrs.push_back(off);
            Bytes b; le<uint32_t>(b, j - i - 1); le<uint32_t>(b, sb); le<uint32_t>(b, bn);
            uint32_t hdroff = off; off += 12; dm.write(b);
            for (size_t k = i; k < j; k++) {
                Node &c = *n.kids[k]; b.clear();
                n.ent_off.push_back(k == i ? hdroff : off);
                le<uint16_t>(b, c.ref & 0xffff); le<int16_t>(b, (int64_t)c.number - bn); le<uint16_t>(b, o.ext_types ? c.itype() : c.kind); le<uint16_t>(b, c.name.size() - 1);
                put(b, c.name.data(), c.name.size()); dm.write(b); off += b.size();
                n.ent_next.push_back(off);
            }
            i = j;
        }
        n.list_size = off;
    }
    struct Idx { uint32_t index, start; std::string name; };
    std::vector<Idx> idx;
    void inode(Node &n) {
        for (auto &k : n.kids) inode(*k);
        if (n.kind == DIR) listing(n);
        align_inode(n.inode_at);
        n.ref = im.ref(); bynum[n.number] = n.ref; all.push_back(&n);
        Bytes b; le<uint16_t>(b, n.itype()); le<uint16_t>(b, n.mode); le<uint16_t>(b, n.uid); le<uint16_t>(b, n.gid); le<uint32_t>(b, n.mtime); le<uint32_t>(b, n.number);
        switch (n.kind) {
        case REG:
            if (!n.ext) { le<uint32_t>(b, n.start_block); le<uint32_t>(b, n.frag_idx); le<uint32_t>(b, n.frag_off); le<uint32_t>(b, n.fake ? n.fake_size : n.size); }
            else { le<uint64_t>(b, n.start_block); le<uint64_t>(b, n.fake ? n.fake_size : n.size); le<uint64_t>(b, 0); le<uint32_t>(b, n.nlink); le<uint32_t>(b, n.frag_idx); le<uint32_t>(b, n.frag_off); le<uint32_t>(b, 0xffffffffu); }
            for (uint32_t s : sizes[&n]) le<uint32_t>(b, s);
            break;
        case DIR: {
            uint32_t par = n.parent ? n.parent->number : nextnum + 100000;
            if (!n.ext) { le<uint32_t>(b, n.d_start); le<uint32_t>(b, n.nlink); le<uint16_t>(b, n.list_size + 3); le<uint16_t>(b, n.d_off); le<uint32_t>(b, par); if (n.list_size + 3 > 65535) { fprintf(stderr, "dir too big for basic inode\n"); abort(); } }
            else {
                le<uint32_t>(b, n.nlink); le<uint32_t>(b, n.list_size + 3); le<uint32_t>(b, n.d_start); le<uint32_t>(b, par); le<uint16_t>(b, idx.size()); le<uint16_t>(b, n.d_off); le<uint32_t>(b, 0xffffffffu);
                n.idx_count = idx.size();
                for (auto &x : idx) { le<uint32_t>(b, x.index); le<uint32_t>(b, x.start); le<uint32_t>(b, x.name.size() - 1); put(b, x.name.data(), x.name.size()); }
            }
            break; }
        case LNK: le<uint32_t>(b, n.nlink); le<uint32_t>(b, n.target.size()); put(b, n.target.data(), n.target.size()); if (n.ext) le<uint32_t>(b, 0xffffffffu); break;
        case BLK: case CHR: le<uint32_t>(b, n.nlink); le<uint32_t>(b, n.rdev); if (n.ext) le<uint32_t>(b, 0xffffffffu); break;
        default: le<uint32_t>(b, n.nlink); if (n.ext) le<uint32_t>(b, 0xffffffffu);
        }
        im.write(b);
    }
    uint64_t table(const Bytes &raw, char kind) {
        MdWriter t(o.tbl_comp); t.write(raw); t.flush();
        section(kind); uint64_t basepos = vpos(); put(img, t.out.data(), t.out.size());
        note(t, basepos, kind);
        uint64_t start = vpos(); for (uint64_t s : t.starts) le<uint64_t>(img, basepos + s);
        return start;
    }
    void note(MdWriter &m, uint64_t basepos, char kind) {
        for (size_t i = 0; i < m.starts.size(); i++) if (m.iscomp[i]) { uint64_t p = basepos + m.starts[i]; uint16_t h; memcpy(&h, &m.out[m.starts[i]], 2); cb.push_back({kind, p + 2, h, (int)i}); }
    }
    ImageP run(NodeP root) {
        number(*root); alldata(*root); flush_frag(); inode(*root); im.flush(); dm.flush();
        section('I'); uint64_t itab = vpos(); put(img, im.out.data(), im.out.size()); note(im, itab, 'I');
        section('D'); uint64_t dtab = vpos(); put(img, dm.out.data(), dm.out.size()); note(dm, dtab, 'D');
        // fragment table
        std::vector<Image::FragEnt> fe; for (uint32_t i = 0; i < o.extra_frags; i++) fe.push_back({0x1000000ull + i, (i * 7 + 1) | (1u << 24)});
        for (auto &f : frags) fe.push_back(f);
        Bytes ft; for (auto &f : fe) { le<uint64_t>(ft, f.pos); le<uint32_t>(ft, f.size); le<uint32_t>(ft, 0); }
        uint64_t fstart = fe.empty() ? ~0ull : table(ft, 'F');
        uint32_t maxnum = nextnum - 1 + o.extra_inodes;
        Bytes et; if (o.export_table) for (uint32_t i = 1; i <= maxnum; i++) { auto it = bynum.find(i); le<uint64_t>(et, it == bynum.end() ? 0xE0000000ull + i : it->second); }
        uint64_t estart = o.export_table ? table(et, 'E') : ~0ull;
        Bytes it; for (uint32_t i : o.ids) le<uint32_t>(it, i);
        uint64_t istart = table(it, 'X');
        uint8_t *s = img.data();
        auto w16 = [&](int at, uint16_t v) { memcpy(s + at, &v, 2); }; auto w32 = [&](int at, uint32_t v) { memcpy(s + at, &v, 4); }; auto w64 = [&](int at, uint64_t v) { memcpy(s + at, &v, 8); };
        int lg = 0; while ((1u << lg) < o.block_size) lg++;
        w32(0, o.magic); w32(4, maxnum); w32(8, 0); w32(12, o.block_size); w32(16, fe.size()); w16(20, o.compression); w16(22, lg); w16(24, o.export_table ? 0x80 : 0); w16(26, o.ids.size()); w16(28, o.major); w16(30, o.minor);
        w64(32, root->ref); w64(40, vpos()); w64(48, istart); w64(56, ~0ull); w64(64, itab); w64(72, dtab); w64(80, fstart); w64(88, estart);
        if (o.patch) o.patch(img);
        auto r = std::make_shared<Image>(); r->opt = o; r->root = root; r->len = o.offset + vpos() + o.tail;
        if (segs.size() > 1 || o.offset >> 30) {   // sparse: only what is written takes memory
            r->mapped = r->len; void *m = mmap(nullptr, r->len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { perror("mmap"); abort(); } r->mem = (uint8_t *)m;
            for (size_t i = 0; i < segs.size(); i++) { size_t e = i + 1 < segs.size() ? segs[i + 1].at : img.size(); memcpy(r->mem + o.offset + segs[i].pos, img.data() + segs[i].at, e - segs[i].at); }
        } else { r->mem = (uint8_t *)malloc(r->len); memset(r->mem, 0x5A, r->len); memcpy(r->mem + o.offset, img.data(), img.size()); }
        r->cblocks = cb; r->all = all; r->bynum = bynum; r->frags = fe; r->inodes = maxnum;
        return r;
    }
};
inline ImageP build(NodeP root, const Opt &o = Opt()) { Writer w(o); return w.run(root); }
inline void sort_kids(Node &n) { std::sort(n.kids.begin(), n.kids.end(), [](const NodeP &a, const NodeP &b) { return a->name < b->name; }); for (auto &k : n.kids) sort_kids(*k); }
} // namespace sq
