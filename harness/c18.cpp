// C18: every compressed block damaged in six ways, every operation, every bounded history, reachable cache states.
#include "xops.hpp"
static ImageP good, cur; static std::vector<XOp> X; static std::vector<std::string> ok;
static const char *KIND[] = {"all ones", "wrong checksum", "zeros in the middle", "all zeros", "expands too far", "cut off"};
static bool damage(const ImageP &im, const Block &b, int kind) {
    uint8_t *p = im->mem + b.pos; size_t n = b.size; size_t lim = b.kind == 'd' || b.kind == 'f' ? 4096 : MD;
    switch (kind) { case 0: memset(p, 0xff, n); break; case 1: p[n - 1] ^= 1; break; case 2: memset(p + n / 2, 0, std::max<size_t>(1, n / 4)); break; case 3: memset(p, 0, n); break; case 4: { Bytes raw(lim + 300, 'q'), c = deflate1(raw.data(), raw.size()); if (c.size() > n) return false; memset(p, 0, n); memcpy(p, c.data(), c.size()); break; } default: memset(p + n - std::min<size_t>(n, 6), 0, std::min<size_t>(n, 6)); }
    Bytes out(lim); uLongf l = lim; return uncompress(out.data(), &l, p, n) != Z_OK;
}
static void prep() { if (ok.size()) return; good = build(tree(), opts()); X = xops(); for (auto &x : X) { Fs f(good); ok.push_back(x.go(&f.fs)); REQ(ok.back().find("error") == std::string::npos, "%s fails on the undamaged image: %s", x.name.c_str(), ok.back().c_str()); } }
static void load(size_t b, int kind, bool &d) { prep(); cur = build(tree(), opts()); d = damage(cur, cur->cblocks[b], kind); }
void vf_enumerate() {
    vf_start_library(); static size_t nb; { auto im = build(tree(), opts()); nb = im->cblocks.size(); } X = xops(); bool T = ctx.thorough();
    // the blocks of "huge" are all alike: keep a few of them
    static std::vector<size_t> B; { auto im = build(tree(), opts()); Node *h = at(im, "huge"); for (size_t i = 0; i < nb; i++) { auto &b = im->cblocks[i]; bool hg = b.kind == 'd' && b.pos >= h->blocks[0].first && b.pos <= h->blocks.back().first; if (!hg || b.seq == 10 || b.seq == 11 || b.seq == 4100 || b.seq == 0) B.push_back(i); } }
    for (size_t b : B) for (int kind = 0; kind < 6; kind++) ctx.run(vfmt("block %zu, %s: every operation", b, KIND[kind]), [&] {
        bool d; load(b, kind, d); if (!d) { ctx.counts["damage that still decompresses (skipped)"]++; return; } auto &cb = cur->cblocks[b]; ctx.note("block kind %c", cb.kind); std::vector<std::string> base; long failing = 0;
        for (size_t i = 0; i < X.size(); i++) { std::string r; { Fs f(cur); r = X[i].go(&f.fs); std::string r2 = X[i].go(&f.fs); REQ(r == r2, "%s gives %.80s and then %.80s", X[i].name.c_str(), r.c_str(), r2.c_str()); } bool fl = r.find("error") != std::string::npos; ctx.transitions++;
            if (!fl) REQ(r == ok[i], "%s succeeds with a wrong result: %.100s", X[i].name.c_str(), r.c_str());
            else { failing++; REQ(r.find("turned") == std::string::npos, "%s: %.200s", X[i].name.c_str(), r.c_str()); std::string pre = r.substr(0, r.find("error")); REQ(!ok[i].compare(0, pre.size(), pre), "%s delivers wrong entries before failing: %.100s", X[i].name.c_str(), r.c_str()); REQ(needs(cur, X[i].need).count(cb.pos), "%s fails (%.60s) though it does not need the block (kind %c, number %d)", X[i].name.c_str(), r.substr(r.find("error")).c_str(), cb.kind, cb.seq); }
            // the data it reads cannot come from anywhere else
            if (X[i].need.to > X[i].need.from && (cb.kind == 'd' || cb.kind == 'f') && needs(cur, X[i].need).count(cb.pos)) REQ(fl, "%s succeeds without the block it needs", X[i].name.c_str());
            base.push_back(r); }
        if (failing) ctx.counts["damages that some operation notices"]++;
        // every history of two and three; the reachable cache states
        Scene s; s.im = {cur}; s.base = base; s.quick_states = 60; s.thorough_states = 3000; for (auto &x : X) { auto g = x.go; s.ops.push_back({x.name, [g](World &w) { return g(&w.f[0]->fs); }}); }
        std::vector<size_t> F, G; for (size_t i = 0; i < X.size(); i++) (base[i] == ok[i] ? G : F).push_back(i);
        if (kind < 2 || T) { for (size_t i : F) for (size_t j = 0; j < X.size(); j++) { World w = s.fresh(); ctx.note("history %s; %s; %s", X[i].name.c_str(), X[j].name.c_str(), X[i].name.c_str()); s.step(w, i); s.step(w, j); s.step(w, i); ctx.traces++; }
            for (size_t j : G) if (F.size()) { World w = s.fresh(); size_t i = F[j % F.size()]; ctx.note("history %s; %s; %s", X[j].name.c_str(), X[i].name.c_str(), X[j].name.c_str()); s.step(w, j); s.step(w, i); s.step(w, j); s.step(w, i); ctx.traces++; } 
            long l0 = -1; for (int rep = 0; rep < 2; rep++) { { World w = s.fresh(); for (int k = 0; k < 3; k++) for (size_t i = 0; i < X.size(); i++) { ctx.note("round %d, %s", k, X[i].name.c_str()); s.step(w, i); } } if (rep) REQ(vfa.live == l0, "%ld blocks leaked", vfa.live - l0); l0 = vfa.live; } ctx.traces++; }
        if (F.size() && (T || kind == (int)(b % 2))) bfs(s, F[b % F.size()]); ctx.states++; });
    // two damaged blocks: a failing operation on one must not hide or heal the other
    for (size_t x = 0; x < B.size(); x++) for (size_t y = x + 1; y < B.size(); y++) { if (!T && (x + y) % 5) continue; ctx.run(vfmt("blocks %zu and %zu damaged: two rounds of every operation", B[x], B[y]), [&] { bool d; load(B[x], 0, d); damage(cur, cur->cblocks[B[y]], 0); std::vector<std::string> base; for (auto &o : X) { Fs f(cur); base.push_back(o.go(&f.fs)); } for (int st : {1, 7}) { Fs f(cur); for (size_t k = 0; k < 2 * X.size(); k++) { size_t i = k * st % X.size(); std::string r = X[i].go(&f.fs); ctx.transitions++; REQ(r == base[i], "%s gives %.80s, on a fresh image %.80s", X[i].name.c_str(), r.c_str(), base[i].c_str()); if (r.find("error") == std::string::npos) REQ(r == ok[i], "%s is wrong", X[i].name.c_str()); } } ctx.states++; ctx.traces++; }); }
    // reading through an open descriptor and an open directory stream across a damaged block
    for (size_t b : B) ctx.run(vfmt("block %zu damaged while descriptors and streams are open", b), [&] {
        bool d; load(b, 0, d); auto &cb = cur->cblocks[b]; memcpy(cur->mem + cb.pos, good->mem + cb.pos, cb.size); Fs f(cur); int fd = squash_open(&f.fs, "big"), fh = squash_open(&f.fs, "huge"); SQUASH_DIR *q = squash_opendir(&f.fs, "q"); REQ(fd >= 0 && fh >= 0 && q, "open"); memset(cur->mem + cb.pos, 0xff, cb.size);
        Node *nb_ = at(cur, "big"); std::vector<uint8_t> w(nb_->size), g(5000); content(*nb_, 0, nb_->size, 4096, w.data()); long pos = 0; for (int k = 0; k < 200 && pos < (long)nb_->size; k++) { ssize_t n = squash_read(fd, g.data(), 1000); if (n < 0) { REQ(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == pos, "failed read moves the position"); REQ(squash_read(fd, g.data(), 1000) < 0, "read fails and then succeeds at %ld", pos); pos = (pos / 4096 + 1) * 4096; if (k > 60) break; squash_lseek(fd, pos, SQUASH_SEEK_SET); continue; } REQ(!memcmp(g.data(), w.data() + pos, n), "wrong data at %ld", pos); pos += n; ctx.transitions++; }
        int i = 0, bad = 0; for (;;) { errno = 0; auto *e = squash_readdir(q); if (!e) { if (errno && ++bad < 3) continue; break; } REQ(!bad, "an entry after a failure"); REQ(vfmt("n%05d", i) == e->d_name, "entry %d is %s", i, e->d_name); i++; } if (!bad) REQ(i == 700, "%d entries", i); squash_close(fd); squash_close(fh); squash_closedir(q); ctx.states++; ctx.traces++; });
}
