// C24: every operation sequence (bounded) on stack, hash and cache against their models, with every allocation failing.
#include "vf.hpp"
static std::vector<long> freed; static size_t VS;
// items carry their identity in all their bytes
static void fillv(uint8_t *p, size_t n, long id) { for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(sq::mix(id * 131 + i) >> 9); }
static bool isv(const void *p, size_t n, long id) { std::vector<uint8_t> b(n); fillv(b.data(), n, id); return !memcmp(p, b.data(), n); }
static std::vector<std::vector<uint8_t>> gone;
static void on_free(void *v) { gone.push_back(std::vector<uint8_t>((uint8_t *)v, (uint8_t *)v + VS)); }
static void gone_is(const std::vector<long> &ids, const char *w) { REQ(gone.size() == ids.size(), "%s: %zu items released, expected %zu", w, gone.size(), ids.size()); for (size_t i = 0; i < ids.size(); i++) REQ(isv(gone[i].data(), VS, ids[i]), "%s: item %zu released is not the expected one", w, i); gone.clear(); }
struct St {
    sqfs_stack s; std::vector<long> m; bool fr; long next = 1;
    void push(bool may_fail) { void *p = (void *)1; sqfs_err e = sqfs_stack_push(&s, &p); if (e) { REQ(may_fail, "push failed"); check(); return; } REQ(p && p != (void *)1, "push gave no item"); fillv((uint8_t *)p, VS, next); m.push_back(next++); check(); }
    void pop() { short r = sqfs_stack_pop(&s); REQ(!!r == !m.empty(), "pop returned %d with %zu items", r, m.size()); std::vector<long> g; if (!m.empty()) { if (fr) g.push_back(m.back()); m.pop_back(); } gone_is(g, "pop"); check(); }
    void check() { REQ(sqfs_stack_size(&s) == m.size(), "size %zu, expected %zu", sqfs_stack_size(&s), m.size()); void *p = nullptr; sqfs_err e = sqfs_stack_top(&s, &p); REQ(!e == !m.empty(), "top returned %d with %zu items", e, m.size()); if (!e) REQ(isv(p, VS, m.back()), "top is not the item pushed last");
        size_t step = m.size() > 200 ? m.size() / 50 : 1; for (size_t i = 0; i < m.size(); i += step) { p = nullptr; REQ(!sqfs_stack_at(&s, i, &p), "at(%zu) of %zu refused", i, m.size()); REQ(isv(p, VS, m[i]), "at(%zu) is another item", i); } for (size_t i : {m.size(), m.size() + 1, (size_t)-1, (size_t)1 << 32}) { p = (void *)7; REQ(sqfs_stack_at(&s, i, &p), "at(%zu) of %zu succeeds", i, m.size()); } gone_is({}, "lookup"); }
    void destroy() { std::vector<long> g; if (fr) g.assign(m.rbegin(), m.rend()); sqfs_stack_destroy(&s); std::sort(gone.begin(), gone.end()); std::vector<std::vector<uint8_t>> w; for (long x : g) { std::vector<uint8_t> b(VS); fillv(b.data(), VS, x); w.push_back(b); } std::sort(w.begin(), w.end()); REQ(gone == w, "destroy released %zu items, expected %zu", gone.size(), w.size()); gone.clear(); m.clear(); }
};
struct Ha {
    sqfs_hash h; std::map<uint32_t, long> m; long next = 1;
    void get(uint32_t k) { void *v = sqfs_hash_get(&h, k); auto it = m.find(k); REQ(!v == (it == m.end()), "key %u is %s", k, v ? "present" : "absent"); if (v) REQ(isv(v, VS, it->second), "key %u has another value", k); }
    void add(uint32_t k, bool may_fail) { std::vector<uint8_t> b(VS); long id = next++; fillv(b.data(), VS, id); sqfs_err e = sqfs_hash_add(&h, k, b.data()); if (e) { REQ(may_fail, "add failed"); return; } m[k] = id; }
    void remove(uint32_t k) { REQ(!sqfs_hash_remove(&h, k), "remove failed"); m.erase(k); }
};
struct Ca { sqfs_cache c; std::vector<std::pair<uint64_t, long>> slots; size_t nx = 0; long next = 1;
    void get(uint64_t k) { void *v = sqfs_cache_get(&c, k); long id = 0; for (auto &s : slots) if (s.first == k) id = s.second; REQ(!v == !id, "key %lu is %s", (long)k, v ? "present" : "absent"); if (v) REQ(isv(v, VS, id), "key %lu has another entry", (long)k); }
    void add(uint64_t k) { std::vector<long> g; if (slots[nx].first) g.push_back(slots[nx].second); void *v = sqfs_cache_add(&c, k); REQ(v, "add gave nothing"); gone_is(g, "add"); fillv((uint8_t *)v, VS, next); slots[nx] = {k, next++}; nx = (nx + 1) % slots.size(); }
    bool has(uint64_t k) { for (auto &s : slots) if (s.first == k) return true; return false; }
    void destroy() { std::vector<std::vector<uint8_t>> w; for (auto &s : slots) if (s.first) { std::vector<uint8_t> b(VS); fillv(b.data(), VS, s.second); w.push_back(b); } sqfs_cache_destroy(&c); std::sort(gone.begin(), gone.end()); std::sort(w.begin(), w.end()); REQ(gone == w, "destroy released %zu entries, expected %zu", gone.size(), w.size()); gone.clear(); }
};
static void clean(long live, const char *w) { REQ(vfa.live == live, "%s: %ld blocks not released", w, vfa.live - live); REQ(gone.empty(), "%s: released something", w); }
void vf_enumerate() {
    vf_forget_live(); bool T = ctx.thorough();
    std::vector<int> sizes{1, 4, 8, 12, 100};
    // stack: every sequence of pushes and pops
    for (int vs : sizes) for (int init : {0, 1, 2, 3, 8}) for (int fr = 0; fr < 2; fr++) ctx.run(vfmt("stack of %d bytes, initial %d%s: every sequence of pushes and pops", vs, init, fr ? ", releasing" : ""), [&] {
        VS = vs; int L = T ? 16 : 12; for (int x = 0; x < 1 << L; x++) { St t; t.fr = fr; long live = vfa.live; REQ(!sqfs_stack_create(&t.s, vs, init, fr ? on_free : nullptr), "create failed"); for (int i = 0; i < L; i++) { if (x >> i & 1) t.push(false); else t.pop(); } t.destroy(); clean(live, "destroy"); sqfs_stack_destroy(&t.s); clean(live, "second destroy"); ctx.transitions += L; ctx.states++; } ctx.traces += 1 << L; });
    for (int vs : sizes) for (int init : {0, 1, 5, 64}) ctx.run(vfmt("stack of %d bytes, initial %d: growth to 3000 and back", vs, init), [&] { VS = vs; St t; t.fr = true; long live = vfa.live; REQ(!sqfs_stack_create(&t.s, vs, init, on_free), "create failed"); for (int i = 0; i < 3000; i++) t.push(false); for (int i = 0; i < 1500; i++) t.pop(); for (int i = 0; i < 700; i++) t.push(false); t.destroy(); clean(live, "destroy"); ctx.states++; ctx.transitions += 5200; ctx.traces++; });
    for (int init : {0, 1, 2, 8}) for (int k = 0; k < 14; k++) ctx.run(vfmt("stack, initial %d, allocation %d fails", init, k), [&] { VS = 24; for (int pat = 0; pat < 16; pat++) { St t; t.fr = true; long live = vfa.live; vfa.count = 0; vfa.fail_at = k; if (sqfs_stack_create(&t.s, 24, init, on_free)) { vfa.fail_at = -1; sqfs_stack_destroy(&t.s); clean(live, "destroy of a stack that was not created"); continue; } for (int i = 0; i < 120; i++) if ((pat >> i % 4 & 1) && i > 20) t.pop(); else t.push(true); t.destroy(); vfa.fail_at = -1; clean(live, "destroy"); ctx.states++; ctx.traces++; } });
    ctx.run("stack destroyed without create", [&] { long live = vfa.live; for (uint8_t b : {0x00, 0xff, 0x5a}) { sqfs_stack s; memset(&s, b, sizeof s); sqfs_stack_init(&s); sqfs_stack_destroy(&s); clean(live, "destroy"); sqfs_stack_init(&s); REQ(sqfs_stack_size(&s) == 0, "size"); void *p; REQ(sqfs_stack_top(&s, &p), "top"); REQ(!sqfs_stack_pop(&s), "pop"); } ctx.states++; ctx.traces++; });
    // hash: every sequence of adds and removes over colliding keys
    struct KS { const char *n; std::vector<uint32_t> k; };
    std::vector<KS> ks{{"0 1 2 3", {0, 1, 2, 3}}, {"0 8 16 24", {0, 8, 16, 24}}, {"5 0x80000005 0xffffffff 0x7fffffff", {5, 0x80000005u, 0xffffffffu, 0x7fffffffu}}, {"1 2 5 0xfffffffd", {1, 2, 5, 0xfffffffdu}}};
    int L = T ? 7 : 5;
    for (auto &K : ks) for (int init : {1, 2, 4, 8}) for (int first = 0; first < 8; first++) ctx.run(vfmt("hash with %d buckets, keys %s: every sequence of %d operations beginning with %d", init, K.n, L, first), [&] {
        VS = init == 1 ? 1 : init == 2 ? 8 : init == 4 ? 20 : 100; product(std::vector<int>(L - 1, 8), [&](const std::vector<int> &d) { Ha t; long live = vfa.live; REQ(!sqfs_hash_init(&t.h, VS, init), "init failed"); for (int i = 0; i < L; i++) { int o = i ? d[i - 1] : first; if (o < 4) t.add(K.k[o], false); else t.remove(K.k[o - 4]); for (uint32_t k : K.k) t.get(k); t.get(77); } sqfs_hash_destroy(&t.h); clean(live, "destroy"); ctx.states++; ctx.transitions += L; }); ctx.traces++; });
    for (int init : {1, 2, 16}) for (uint32_t mul : {1u, 2u, 16u, 0x10001u, 0x9E3779B1u, 0x80000000u >> 12}) for (int n : {1, 2, 3, 4, 5, 16, 17, 700}) ctx.run(vfmt("hash with %d buckets, %d keys times %u", init, n, mul), [&] { VS = 8; Ha t; long live = vfa.live; REQ(!sqfs_hash_init(&t.h, 8, init), "init failed"); auto all = [&] { for (int i = 0; i < n + 3; i++) t.get(i * mul); }; for (int i = 0; i < n; i++) { t.add(i * mul, false); if (n < 20) all(); } all(); for (int i = 0; i < n; i += 2) { t.remove(i * mul); if (n < 20) all(); } all(); for (int i = 0; i < n; i += 3) t.add(i * mul, false); all(); for (int i = 0; i < n; i++) t.remove(i * mul); all(); sqfs_hash_destroy(&t.h); clean(live, "destroy"); ctx.states++; ctx.traces++; ctx.transitions += n * 3; });
    // a long history of few keys takes the space of few keys
    for (int init : {1, 2, 8}) for (int keys : {1, 3, 20}) for (uint32_t mul : {1u, 16u, 0x10001u}) ctx.run(vfmt("hash with %d buckets: %d of a growing sequence of keys times %u at any time, 20000 added", init, keys, mul), [&] { VS = 8; Ha t; long live = vfa.live, bytes = vfa.live_bytes, most = 0; REQ(!sqfs_hash_init(&t.h, 8, init), "init failed"); for (int i = 0; i < 20000; i++) { t.add(i * mul, false); if (i >= keys) t.remove((i - keys) * mul); most = std::max(most, vfa.live_bytes - bytes); for (int j = i - keys - 1; j <= i + 1; j++) t.get(j * mul); } REQ(most <= 32768, "%ld bytes in use with never more than %d keys", most, keys + 1); sqfs_hash_destroy(&t.h); clean(live, "destroy"); ctx.states++; ctx.traces++; ctx.transitions += 40000; });
    for (int init : {1, 2, 4}) for (int k = 0; k < (T ? 90 : 50); k++) ctx.run(vfmt("hash with %d buckets, allocation %d fails", init, k), [&] { VS = 12; for (uint32_t mul : {1u, 4u, 0x40000001u}) { Ha t; long live = vfa.live; vfa.count = 0; vfa.fail_at = k; if (sqfs_hash_init(&t.h, 12, init)) { vfa.fail_at = -1; sqfs_hash_destroy(&t.h); clean(live, "destroy after a failed init"); continue; } for (int i = 0; i < 40; i++) { t.add(i * mul, true); if (i % 5 == 4) t.remove((i - 2) * mul); for (int j = 0; j <= i; j++) t.get(j * mul); } vfa.fail_at = -1; t.add(1000, false); t.get(1000); sqfs_hash_destroy(&t.h); clean(live, "destroy"); ctx.states++; ctx.traces++; } });
    ctx.run("hash sizes that are no power of two", [&] { VS = 4; for (size_t n = 0; n < 5000; n++) { sqfs_hash h; long live = vfa.live; sqfs_err e = sqfs_hash_init(&h, 4, n); bool ok = n && !(n & (n - 1)); REQ(!e == ok, "%zu buckets: %d", n, e); sqfs_hash_destroy(&h); clean(live, "destroy"); } ctx.states++; ctx.traces++; });
    // cache: every sequence of insertions and lookups
    for (int count = 1; count <= 5; count++) for (int vs : {8, 16, 40}) ctx.run(vfmt("cache of %d slots of %d bytes: every sequence of uses of %d keys", count, vs, count + 2), [&] {
        VS = vs; int n = T ? 8 : 6, K = std::min(count + 2, 6); std::vector<uint64_t> key; for (int i = 0; i < K; i++) key.push_back(i == 0 ? 1 : i == 1 ? ~0ull : i == 2 ? 1ull << 32 : i == 3 ? (1ull << 32) + 1 : i * 8192);
        product(std::vector<int>(n, K), [&](const std::vector<int> &d) { Ca t; t.slots.assign(count, {0, 0}); long live = vfa.live; REQ(!sqfs_cache_init(&t.c, vs, count, on_free), "init failed"); for (int i : d) { if (!t.has(key[i])) t.add(key[i]); for (uint64_t k : key) t.get(k); t.get(4242); gone_is({}, "get"); } t.destroy(); clean(live, "destroy"); ctx.states++; ctx.transitions += n; }); ctx.traces++; });
    for (int count : {1, 2, 3, 7, 8, 64}) ctx.run(vfmt("cache of %d slots, 300 insertions", count), [&] { VS = 16; for (int upto = 0; upto < 300; upto += upto < 20 ? 1 : 31) { Ca t; t.slots.assign(count, {0, 0}); long live = vfa.live; REQ(!sqfs_cache_init(&t.c, 16, count, on_free), "init failed"); for (int i = 1; i <= upto; i++) { t.add(i * 3); for (int j = std::max(1, i - count - 2); j <= i + 1; j++) t.get(j * 3); } t.destroy(); clean(live, "destroy"); ctx.states++; } ctx.traces++; });
    for (int k = 0; k < 3; k++) ctx.run(vfmt("cache, allocation %d fails", k), [&] { VS = 16; for (uint8_t b : {0x00, 0xff}) { sqfs_cache c; memset(&c, b, sizeof c); long live = vfa.live; vfa.count = 0; vfa.fail_at = k; sqfs_err e = sqfs_cache_init(&c, 16, 4, on_free); vfa.fail_at = -1; REQ(!!e == (k < 2) || k < 2, "init: %d", e); if (!e) sqfs_cache_destroy(&c); clean(live, "after a failed init"); } ctx.states++; ctx.traces++; });
}
