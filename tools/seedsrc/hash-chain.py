prop='C24'
needs='three keys in one bucket, of which the one added first is removed'
breaks='the keys added after it are lost'
edits=[('src/hash.c','			*bp = b->next;','			h->buckets[hash] = b->next;')]
demo='''extern "C" {
#include "squash/hash.h"
}
int main() { sqfs_hash h; CHECK(!sqfs_hash_init(&h, sizeof(int), 8), "init"); for (int k : {1, 9, 17}) { int v = k * 10; CHECK(!sqfs_hash_add(&h, k, &v), "add"); } sqfs_hash_remove(&h, 1); for (int k : {9, 17}) { int *v = (int *)sqfs_hash_get(&h, k); CHECK(v && *v == k * 10, "key %d", k); } CHECK(!sqfs_hash_get(&h, 1), "removed"); sqfs_hash_destroy(&h); return 0; }
'''
