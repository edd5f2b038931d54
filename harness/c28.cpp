// C28: the block-level interface: headers, metadata streams at every cursor and length around block edges, data and fragment blocks,
// block caches, tables and block lists, against an independent parse of the image and the tree it was written from.
#include "vf.hpp"
#include <errno.h>
#include <sys/stat.h>
using namespace sq;
static uint64_t sb64(const ImageP &im, int o) { uint64_t v; memcpy(&v, im->mem + im->off() + o, 8); return v; }
struct MdB { uint64_t pos, next; bool comp; size_t csize; Bytes raw; size_t at; };
// independent parse of a run of metadata blocks [from, to)
static std::vector<MdB> parse(const ImageP &im, uint64_t from, uint64_t to) { std::vector<MdB> v; size_t at = 0; while (from < to) { const uint8_t *p = im->mem + im->off() + from; uint16_t h; memcpy(&h, p, 2); MdB b; b.pos = from; b.comp = !(h & 0x8000); b.csize = h & 0x7fff ? h & 0x7fff : 0x8000; if (b.comp) { uLongf n = 8192; b.raw.resize(8192); if (uncompress(b.raw.data(), &n, p + 2, b.csize) != Z_OK) vfail("VF: the image writer made a bad block"); b.raw.resize(n); } else b.raw.assign(p + 2, p + 2 + b.csize); b.next = from = from + 2 + b.csize; b.at = at; at += b.raw.size(); v.push_back(b); } return v; }
static Bytes cat(const std::vector<MdB> &v) { Bytes s; for (auto &b : v) put(s, b.raw.data(), b.raw.size()); return s; }
static NodeP shape(int v) {
    auto r = dir(""); r->ext = true; Node *d = r->add(dir("d")); int n = v == 0 ? 3 : v == 1 ? 260 : 700;
    for (int i = 0; i < n; i++) { NodeP x = i % 3 == 0 ? lnk(vfmt("k%04d", i), std::string(1 + i * 7 % 90, 'a' + i % 26)) : text(vfmt("k%04d", i), std::string(i % 50, 'b')); x->mtime = 77 * i; if (v == 2 && i % 50 == 7) x->inode_at = 8192 - 10 - i % 40; d->add(x); } if (v) d->ext = true, d->hdr_max = v == 1 ? 7 : 256;
    return r;
}
static long chk(const char *what, sqfs *fs, const std::vector<MdB> &v, const Bytes &all, size_t b, size_t off, size_t len, bool null, size_t second) {
    size_t abs = v[b].at + off; sqfs_md_cursor c; c.block = v[b].pos; c.offset = off; std::unique_ptr<uint8_t, void (*)(void *)> buf((uint8_t *)malloc(len ? len : 1), free); memset(buf.get(), 0x5c, len); 
    REQ(!sqfs_md_read(fs, &c, null ? nullptr : buf.get(), len), "%s: %zu bytes at %zu of block %zu cannot be read", what, len, off, b); if (!null) REQ(!memcmp(buf.get(), all.data() + abs, len), "%s: %zu bytes at %zu of block %zu are others", what, len, off, b);
    if (second) { Bytes s(second); REQ(!sqfs_md_read(fs, &c, s.data(), second), "%s: the %zu bytes behind %zu at %zu of block %zu cannot be read", what, second, len, off, b); REQ(!memcmp(s.data(), all.data() + abs + len, second), "%s: after %zu%s bytes at %zu of block %zu the next %zu are others", what, len, null ? " skipped" : "", off, b, second); } ctx.transitions++; return 1;
}
static void regions(const ImageP &im, std::function<void(const char *, std::vector<MdB> &)> f) { uint64_t it = sb64(im, 64), dt = sb64(im, 72), fr = sb64(im, 80), ex = sb64(im, 88), ids = sb64(im, 48); auto first = [&](uint64_t t) { uint64_t x; memcpy(&x, im->mem + im->off() + t, 8); return x; }; uint64_t dend = first(ids); if (fr != ~0ull) dend = std::min(dend, first(fr)); if (ex != ~0ull) dend = std::min(dend, first(ex)); auto a = parse(im, it, dt); f("inodes", a); auto b = parse(im, dt, dend); f("listings", b); if (fr != ~0ull) { auto c = parse(im, first(fr), fr); f("fragment table", c); } if (ex != ~0ull) { auto c = parse(im, first(ex), ex); f("export table", c); } auto d = parse(im, first(ids), ids); f("id table", d); }
static void blocks_of(Node &n, std::vector<Node *> &o) { if (n.kind == REG) o.push_back(&n); for (auto &k : n.kids) blocks_of(*k, o); }
struct Live { long l = vfa.live; ~Live() noexcept(false) { if (!std::uncaught_exceptions() && vfa.live != l) vfail(vfmt("%ld blocks of memory are not released", vfa.live - l)); } };
void vf_enumerate() {
    vf_start_library(); bool T = ctx.thorough();
    for (int hi = 0; hi < 256; hi += 16) ctx.run(vfmt("every metadata header from %02x00", hi), [&] { for (uint32_t h = hi << 8; h < (uint32_t)(hi + 16) << 8; h++) { short c = 77; uint16_t s = 7; sqfs_md_header(h, &c, &s); REQ(!!c == !(h & 0x8000), "header %x is taken as %s", h, c ? "compressed" : "stored"); REQ(s == (h & 0x7fff ? h & 0x7fff : 0x8000), "header %x gives size %u", h, s); } ctx.states++; ctx.transitions += 4096; ctx.traces++; });
    for (uint32_t hi = 0; hi < 256; hi++) ctx.run(vfmt("data headers from %02x000000", hi), [&] { if (hi > 3 && !T && hi != 0x80 && hi != 0xff) { } uint32_t st = hi < 2 && T ? 1 : hi < 2 ? 17 : 4099; for (uint64_t h = (uint64_t)hi << 24; h < (uint64_t)(hi + 1) << 24; h += st) { short c = 77; uint32_t s = 7; sqfs_data_header(h, &c, &s); if (!!c != !(h & (1u << 24)) || s != (uint32_t)(h & ~(1ull << 24))) vfail(vfmt("data header %lx gives size %u, %s", (long)h, s, c ? "compressed" : "stored")); ctx.transitions++; } for (int b = 0; b < 24; b++) for (int d = -1; d < 2; d++) { uint32_t h = (hi << 24) | (((1u << b) + d) & 0xffffff); short c; uint32_t s; sqfs_data_header(h, &c, &s); REQ(!!c == !(h & (1u << 24)) && s == (h & ~(1u << 24)), "data header %x gives size %u, %s", h, s, c ? "compressed" : "stored"); } ctx.states++; ctx.traces++; });
    ctx.run("rounding up divisions", [&] { auto one = [](uint64_t t, uint64_t g) { unsigned __int128 w = ((unsigned __int128)t + g - 1) / g; REQ((unsigned __int128)sqfs_divceil(t, g) == w, "%llu / %llu gives %zu", (long long)t, (long long)g, sqfs_divceil(t, g)); ctx.transitions++; }; for (uint64_t t = 0; t < 700; t++) for (uint64_t g = 1; g < 300; g++) one(t, g); std::vector<uint64_t> e; for (int b = 0; b < 64; b++) for (int d = -2; d <= 2; d++) e.push_back((1ull << b) + d); for (uint64_t t : e) for (uint64_t g : e) if (g) one(t, g); ctx.states++; ctx.traces++; });
    ctx.run("cursors of inode numbers", [&] { for (uint64_t blk : {0ull, 1ull, 8194ull, 0xffffffffull, 0x123456789abull}) for (uint32_t off : {0u, 1u, 8191u, 0x7fffu, 0x8000u, 0xffffu}) for (uint64_t base : {0ull, 96ull, 0x100000000ull}) { sqfs_md_cursor c; memset(&c, 0xa5, sizeof c); sqfs_md_cursor_inode(&c, (blk << 16) | off, base); REQ((uint64_t)c.block == blk + base && c.offset == off, "inode %llx gives %llx/%zu", (long long)((blk << 16) | off), (long long)c.block, (size_t)c.offset); ctx.transitions++; } ctx.states++; ctx.traces++; });
    for (int v = 0; v < 3; v++) for (int comp = 0; comp < 2; comp++) for (size_t offs : {(size_t)0, (size_t)4099}) {
        Opt o; o.md_comp = o.tbl_comp = comp; o.offset = offs; o.extra_inodes = v * 700; o.extra_frags = v * 300; o.ids.clear(); for (int i = 0; i < 1 + v * 2500; i++) o.ids.push_back(mix(i)); std::string base = vfmt("shape %d, %s, offset %zu", v, comp ? "compressed" : "stored", offs);
        static std::map<std::string, ImageP> made; auto im = [=]() -> ImageP { auto &i = made[base]; if (!i) i = build(shape(v), o); return i; };
        ctx.run(base + ": every metadata block read alone", [&] { auto m = im(); regions(m, [&](const char *w, std::vector<MdB> &bl) { for (auto &b : bl) { Live l; Fs fs(m); size_t ds = 1; sqfs_block *p = nullptr; REQ(!sqfs_md_block_read(&fs.fs, b.pos, &ds, &p), "%s: block at %lu cannot be read", w, (long)b.pos); REQ(p && p->size == b.raw.size() && !memcmp(p->data, b.raw.data(), b.raw.size()), "%s: the block at %lu has other bytes", w, (long)b.pos); REQ(ds == b.next - b.pos, "%s: the block at %lu takes %zu bytes", w, (long)b.pos, ds); sqfs_block_dispose(p);
            p = nullptr; REQ(!sqfs_block_read(&fs.fs, b.pos + 2, b.comp, b.csize, 8192, &p) && p->size == b.raw.size() && !memcmp(p->data, b.raw.data(), p->size), "%s: block read at %lu", w, (long)b.pos + 2); sqfs_block_dispose(p);
            if (b.comp) for (size_t out : {b.raw.size() - 1, b.raw.size() / 2, (size_t)1}) if (out && out < b.raw.size()) { p = (sqfs_block *)8; REQ(sqfs_block_read(&fs.fs, b.pos + 2, 1, b.csize, out, &p), "%s: a block of %zu bytes fits into %zu", w, b.raw.size(), out); REQ(!p, "a failing block read gives a block"); }
            ctx.transitions += 2; } ctx.states += bl.size(); }); ctx.traces++; });
        ctx.run(base + ": metadata blocks through the cache, every order of three", [&] { auto m = im(); regions(m, [&](const char *w, std::vector<MdB> &bl) { size_t n = std::min<size_t>(bl.size(), 5); for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) for (size_t c = 0; c < n; c++) { Live l; Fs fs(m); for (size_t x : {a, b, c, a}) { sqfs_off_t pos = bl[x].pos; sqfs_block *p = nullptr; REQ(!sqfs_md_cache(&fs.fs, &pos, &p), "%s: block %zu refused", w, x); REQ((uint64_t)pos == bl[x].next, "%s: behind block %zu comes %lu, expected %lu", w, x, (long)pos, (long)bl[x].next); REQ(p->size == bl[x].raw.size() && !memcmp(p->data, bl[x].raw.data(), p->size), "%s: block %zu has other bytes", w, x); ctx.transitions++; } ctx.states++; } }); ctx.traces++; });
        for (int part = 0; part < 4; part++) ctx.run(base + vfmt(": metadata read at cursors around block edges, part %d", part), [&] { auto m = im(); regions(m, [&](const char *w, std::vector<MdB> &bl) { Bytes all = cat(bl); Fs fs(m); std::set<size_t> starts; for (auto &b : bl) for (int d : {0, 1, 2, 15, 16, 4000}) starts.insert(b.at + d); for (auto &b : bl) for (int d : {1, 2, 3, 4, 7, 8, 12, 16, 17, 32, 40, 100}) if (b.at + b.raw.size() >= (size_t)d) starts.insert(b.at + b.raw.size() - d); std::set<size_t> lens{0, 1, 2, 3, 4, 8, 12, 16, 32, 40, 100, 4000, 8191, 8192, 8193, 12000, 16384, 16385, 20000};
            size_t k = 0; for (size_t s : starts) { if (s >= all.size() || k++ % 4 != (size_t)part) continue; size_t b = 0; while (s >= bl[b].at + bl[b].raw.size()) b++; size_t off = s - bl[b].at; std::set<size_t> L = lens; for (size_t e = b; e < bl.size() && e < b + 3; e++) for (int d = -2; d <= 2; d++) if (bl[e].at + bl[e].raw.size() + d > s) L.insert(bl[e].at + bl[e].raw.size() + d - s); L.insert(all.size() - s); L.insert(all.size() - s - 1);
                for (size_t len : L) { if (s + len > all.size()) continue; size_t rest = all.size() - s - len; chk(w, &fs.fs, bl, all, b, off, len, false, std::min<size_t>(rest, 5)); chk(w, &fs.fs, bl, all, b, off, len, true, std::min<size_t>(rest, 9)); if (len > 3) { // in small pieces
                        for (size_t piece : {(size_t)1, (size_t)3, (size_t)40}) { if (len / piece > 600) continue; sqfs_md_cursor c; c.block = bl[b].pos; c.offset = off; Bytes g(len); for (size_t q = 0; q < len; q += piece) REQ(!sqfs_md_read(&fs.fs, &c, g.data() + q, std::min(piece, len - q)), "%s: piece", w); REQ(!memcmp(g.data(), all.data() + s, len), "%s: %zu bytes at %zu of block %zu in pieces of %zu are others", w, len, off, b, piece); ctx.transitions++; } } } ctx.states++; } }); ctx.traces++; });
        if (v) ctx.run(base + ": the id, export and fragment table through tables of one's own", [&] { auto m = im(); Live l; Fs fs(m); struct Tb { const char *n; int at; size_t each, count; }; for (Tb t : {Tb{"ids", 48, 4, o.ids.size()}, Tb{"export", 88, 8, m->inodes}, Tb{"fragments", 80, 16, m->frags.size()}}) { if (!t.count) continue; uint64_t start = sb64(m, t.at), f0; memcpy(&f0, m->mem + m->off() + start, 8); Bytes all = cat(parse(m, f0, start)); sqfs_table tb; memset(&tb, 0, sizeof tb); REQ(!sqfs_table_init(&tb, m->base(), start + m->off(), t.each, t.count), "table"); for (size_t i = 0; i < t.count; i++) { uint8_t b[16]; memset(b, 0xa5, 16); REQ(!sqfs_table_get(&tb, &fs.fs, i, b), "%s %zu refused", t.n, i); REQ(!memcmp(b, &all[i * t.each], t.each), "%s %zu is another", t.n, i); for (size_t k = t.each; k < 16; k++) REQ(b[k] == 0xa5, "more than an entry is written"); ctx.transitions++; } sqfs_table_destroy(&tb); } ctx.states++; ctx.traces++; });
    }
    // data: every kind of block; caches of one's own
    for (uint32_t bs : {4096u, 8192u, 131072u}) for (int fc = 0; fc < 2; fc++) for (size_t offs : {(size_t)0, (size_t)5}) {
        std::string base = vfmt("data, block size %u, fragments %s, offset %zu", bs, fc ? "compressed" : "stored", offs); Opt o; o.block_size = bs; o.frag_cap = bs; o.frag_comp = fc; o.offset = offs; o.extra_frags = 3;
        static std::map<std::string, ImageP> made; auto im = [=]() -> ImageP { auto &i = made[base]; if (!i) { auto r = dir(""); r->ext = true; int id = 1; for (const char *l : {"C", "U", "H", "CUH", "HCU", "UHC", "CCUUHH", "HHC", "UUC"}) for (int tail : {0, 1, 700}) for (bool fr : {false, true}) { auto f = reg(vfmt("%s%d%c", l, tail, fr ? 'f' : 'n'), strlen(l) * (uint64_t)bs + tail, std::string(l) + "C", fr, id++); f->frag_group = id % 4; f->ext = id & 1; f->inode_at = id % 5 == 0 ? 8192 - 20 - id : -1; r->add(f); } r->add(text("t", "only a tail")); r->add(text("e", "")); auto h = reg("huge", (uint64_t)bs * 4300 + 9, "C", true, 99); h->coarse = true; if (bs > 10000) h = reg("huge", (uint64_t)bs * 70000 + 3, "H", false, 99), h->dataless = h->ext = true; h->inode_at = 1000; r->add(h); sort_kids(*r); i = build(r, o); } return i; };
        ctx.run(base + ": every data block read alone and through caches", [&] { auto m = im(); std::vector<Node *> fl; blocks_of(*m->root, fl); Bytes w; for (Node *n : fl) { if (n->name == "huge") continue; uint64_t full = n->frag ? n->size / bs : (n->size + bs - 1) / bs; Fs fs(m);
            for (uint64_t b = 0; b < full; b++) { if (n->lay(b) == 'H') continue; Live l; size_t len = std::min<uint64_t>(bs, n->size - b * bs); w.resize(len); content(*n, b * bs, len, bs, w.data()); uint32_t hdr = n->blocks[b].second | (n->lay(b) == 'U' ? 1u << 24 : 0); sqfs_block *p = nullptr; REQ(!sqfs_data_block_read(&fs.fs, n->blocks[b].first, hdr, &p), "%s: block %lu refused", n->name.c_str(), (long)b); REQ(p->size == len && !memcmp(p->data, w.data(), len), "%s: block %lu has other bytes", n->name.c_str(), (long)b); sqfs_block_dispose(p);
                for (size_t cnt : {1, 2, 5}) { sqfs_cache c; REQ(!sqfs_block_cache_init(&c, cnt), "cache"); for (int x = 0; x < 4; x++) { uint64_t bb = x & 1 ? b : (b + x) % full; if (n->lay(bb) == 'H') continue; size_t ln = std::min<uint64_t>(bs, n->size - bb * bs); w.resize(ln); content(*n, bb * bs, ln, bs, w.data()); p = nullptr; REQ(!sqfs_data_cache(&fs.fs, &c, n->blocks[bb].first, n->blocks[bb].second | (n->lay(bb) == 'U' ? 1u << 24 : 0), &p), "%s: block %lu refused by a cache of %zu", n->name.c_str(), (long)bb, cnt); REQ(p->size == ln && !memcmp(p->data, w.data(), ln), "%s: block %lu through a cache of %zu has other bytes", n->name.c_str(), (long)bb, cnt); ctx.transitions++; } sqfs_cache_destroy(&c); } }
            // fragment
            sqfs_inode in; REQ(!sqfs_inode_get(&fs.fs, &in, n->ref), "inode of %s", n->name.c_str()); size_t fo = 1, sz = 1; sqfs_block *p = nullptr; sqfs_err e = sqfs_frag_block(&fs.fs, &in, &fo, &sz, &p); bool has = n->frag_idx != 0xffffffffu; REQ(!e == has, "%s: fragment %s", n->name.c_str(), e ? "refused" : "found"); if (has) { w.resize(n->size % bs); content(*n, n->size / bs * bs, w.size(), bs, w.data()); REQ(sz == w.size() && fo + sz <= p->size && !memcmp((char *)p->data + fo, w.data(), sz), "%s: other bytes in the fragment", n->name.c_str()); } ctx.states++; }
            sqfs_inode in; Fs fs(m); REQ(!sqfs_inode_get(&fs.fs, &in, m->root->ref), "root"); size_t a, b; sqfs_block *p; REQ(sqfs_frag_block(&fs.fs, &in, &a, &b, &p), "a directory has a fragment"); ctx.traces++; });
        ctx.run(base + ": block lists from the start and from every position", [&] { auto m = im(); std::vector<Node *> fl; blocks_of(*m->root, fl); for (Node *n : fl) { ctx.note("%s", n->name.c_str()); uint64_t full = n->frag ? n->size / bs : (n->size + bs - 1) / bs; if (n->frag && !(n->size % bs)) full = n->size / bs; Fs fs(m); sqfs_inode in; REQ(!sqfs_inode_get(&fs.fs, &in, n->ref), "inode"); REQ(sqfs_blocklist_count(&fs.fs, &in) == full, "%s: %zu blocks, expected %lu", n->name.c_str(), sqfs_blocklist_count(&fs.fs, &in), (long)full);
            auto walk = [&](sqfs_blocklist &bl, uint64_t from, const char *how) { uint64_t b = full - bl.remain; REQ(b <= from && bl.remain <= full, "%s: the list %s begins at block %lu", n->name.c_str(), how, (long)b); size_t left = full - from; if (full > 100 && from > 5 && from + 12 < full) left = 12; uint64_t stop = from + left; for (; b < stop; b++) { REQ(!sqfs_blocklist_next(&bl), "%s: block %lu of the list %s refused", n->name.c_str(), (long)b, how); REQ(bl.remain == full - b - 1, "remain"); REQ(bl.pos == b * bs, "%s: block %lu of the list %s is at %lu", n->name.c_str(), (long)b, how, (long)bl.pos); char L = n->lay(b); uint32_t sz = L == 'H' ? 0 : n->blocks[b].second; REQ(bl.input_size == sz && bl.header == (sz | (L == 'U' ? 1u << 24 : 0)), "%s: block %lu of the list %s has header %x", n->name.c_str(), (long)b, how, bl.header); if (L != 'H') REQ(bl.block == n->blocks[b].first, "%s: block %lu of the list %s is at %lx, expected %lx", n->name.c_str(), (long)b, how, (long)bl.block, (long)n->blocks[b].first); ctx.transitions++; } if (stop == full) for (int i = 0; i < 2; i++) REQ(sqfs_blocklist_next(&bl), "%s: the list %s goes on behind its end", n->name.c_str(), how); };
            sqfs_blocklist bl; memset(&bl, 0xa5, sizeof bl); sqfs_blocklist_init(&fs.fs, &in, &bl); REQ(bl.remain == full, "list"); walk(bl, 0, "from the start");
            for (int cold = 0; cold < 2; cold++) for (uint64_t b = 0; b <= full; b++) { if (full > 100 && b > 4 && b + 4 < full && (b + 300) % 2048 > 60 && b % (T ? 7 : 97)) continue; uint64_t pos = b * bs + (b & 1 ? bs - 1 : 0); if (pos >= n->size && b) pos = n->size - 1; uint64_t at = std::min<uint64_t>(pos / bs, full); std::unique_ptr<Fs> f2; if (cold && b % 5 == 0) f2.reset(new Fs(m)); sqfs_inode i2; sqfs *F = f2 ? &f2->fs : &fs.fs; REQ(!sqfs_inode_get(F, &i2, n->ref), "inode"); memset(&bl, 0xa5, sizeof bl); REQ(!sqfs_blockidx_blocklist(F, &i2, &bl, pos), "%s: list from %lu refused", n->name.c_str(), (long)pos); if (at == full) { REQ(bl.remain == 0, "%s: %zu blocks behind %lu", n->name.c_str(), bl.remain, (long)pos); continue; } walk(bl, at, "from a position"); }
            ctx.states++; } ctx.traces++; });
    }
    // damaged blocks: refused, nothing kept
    ctx.run("damaged data, fragment and metadata blocks", [&] { auto r = dir(""); r->add(reg("c", 9000, "C", true, 1)); auto t = text("t", std::string(3000, 't')); t->frag_group = 2; r->add(t); for (int i = 0; i < 200; i++) r->add(lnk(vfmt("l%03d", i), "x")); r->ext = true; sort_kids(*r); auto m = build(r); for (auto &b : m->cblocks) for (int how = 0; how < 3; how++) { Bytes keep(m->mem + b.pos, m->mem + b.pos + b.size); if (how == 0) memset(m->mem + b.pos, 0, b.size); else if (how == 1) m->mem[b.pos] ^= 0xff; else memset(m->mem + b.pos + b.size / 2, 0xff, b.size - b.size / 2); { Live l; Fs fs(m); sqfs_block *p = (sqfs_block *)8; size_t ds; sqfs_cache c; REQ(!sqfs_block_cache_init(&c, 2), "cache"); for (int i = 0; i < 3; i++) { if (b.kind == 'd' || b.kind == 'f') { REQ(sqfs_data_block_read(&fs.fs, b.pos, b.size, &p), "a damaged block is read"); REQ(!p, "block given"); p = (sqfs_block *)8; REQ(sqfs_data_cache(&fs.fs, &c, b.pos, b.size, &p), "a damaged block is read through a cache"); } else { REQ(sqfs_md_block_read(&fs.fs, b.pos - 2, &ds, &p), "a damaged metadata block is read"); sqfs_off_t q = b.pos - 2; REQ(sqfs_md_cache(&fs.fs, &q, &p), "a damaged metadata block is read through the cache"); sqfs_md_cursor cu; cu.block = b.pos - 2; cu.offset = 0; char x[4]; REQ(sqfs_md_read(&fs.fs, &cu, x, 4), "bytes of a damaged metadata block are read"); } ctx.transitions++; }
        memcpy(m->mem + b.pos, keep.data(), b.size); p = nullptr; if (b.kind == 'd' || b.kind == 'f') REQ(!sqfs_data_cache(&fs.fs, &c, b.pos, b.size, &p), "the repaired block is refused"); else { sqfs_off_t q = b.pos - 2; REQ(!sqfs_md_cache(&fs.fs, &q, &p), "the repaired block is refused"); } sqfs_cache_destroy(&c); } ctx.states++; } ctx.traces++; });
}
