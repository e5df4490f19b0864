/* C13: map, ordered tree and bit sets against a plain model. */
#include "common.h"
#include "map.h"
#include "jsw_rbtree.h"
const char* family_name = "C13 containers";
static int cmp_int64(const void* a, const void* b) { int64_t x = *(const int64_t*)a, y = *(const int64_t*)b; return x < y ? -1 : x > y; }
static char twin[2][64];
static void key(char* k)
{
    if(coin(15)) { strcpy(k, twin[rn(2)]); return; }
    int len = coin(5) ? 0 : coin(80) ? 1 + rn(3) : rn(40); int alpha = coin(50) ? 2 : 26;
    for(int i = 0; i < len; i++) k[i] = (char)(coin(3) ? 128 + rn(120) : 'a' + rn(alpha));
    k[len] = 0;
}
void family_round(void)
{
    {
        gen_collision_at(twin[0], twin[1], coin(60) ? rn(5) : rn(50));
        map_t(uint64_t) m; map_init(&m); static char ks[300][64]; static uint64_t vs[300]; static bool in[300]; int n = 0, ops = 20 + rn(300);
        for(int o = 0; o < ops; o++) {
            char k[64]; if(n && coin(50)) strcpy(k, ks[rn(n)]); else key(k);
            int at = -1; for(int i = 0; i < n; i++) if(strcmp(ks[i], k) == 0) at = i;
            int op = rn(10);
            if(op < 5) { uint64_t v = rnd(); slog("map set \"%s\" %llx\n", k, (unsigned long long)v); if(map_set(&m, k, v) != 0) sfail("set failed"); if(at < 0) { if(n == 300) continue; at = n++; strcpy(ks[at], k); } vs[at] = v; in[at] = true; }
            else if(op < 7) { slog("map remove \"%s\"\n", k); map_remove(&m, k); if(at >= 0) in[at] = false; }
            uint64_t* g = map_get(&m, k); bool has = at >= 0 && in[at];
            if((g != NULL) != has) sfail("\"%s\" is %s", k, has ? "lost" : "found");
            if(g && *g != vs[at]) sfail("\"%s\" has another value", k);
            if(o == ops - 1 || coin(5)) {
                for(int i = 0; i < n; i++) { uint64_t* x = map_get(&m, ks[i]); if((x != NULL) != in[i] || (x && *x != vs[i])) sfail("\"%s\" is wrong", ks[i]); }
                int live = 0, seen = 0; for(int i = 0; i < n; i++) live += in[i];
                map_iter_t it = map_iter(&m); const char* kk; while((kk = map_next(&m, &it))) { seen++; bool ok = false; for(int i = 0; i < n; i++) if(in[i] && strcmp(ks[i], kk) == 0) ok = true; if(!ok) sfail("iteration gives \"%s\"", kk); }
                if(live != seen) sfail("iteration gives %d keys, %d are in", seen, live);
            }
        }
        map_deinit(&m);
    }
    {
        struct jsw_rbtree* t = jsw_rbnew(cmp_int64); static int64_t el[400]; static bool used[400]; int range = coin(50) ? 40 : 400; int mode = rn(4);
        memset(used, 0, sizeof used); for(int i = 0; i < 400; i++) el[i] = i;
        int64_t dup[400]; memcpy(dup, el, sizeof dup); int next = mode == 0 ? 0 : range - 1;
        int ops = 10 + rn(500);
        for(int o = 0; o < ops; o++) {
            int x = mode < 2 ? next : rn(range); if(mode == 0) next = (next + 1) % range; if(mode == 1) next = (next + range - 1) % range;
            int64_t probe = x;
            if(coin(70)) { slog("tree insert %d\n", x); if(jsw_rbinsert(t, used[x] ? (void*)&dup[x] : (void*)&el[x]) == 0) sfail("insert failed"); used[x] = true; }
            else if(used[x] && coin(40)) { slog("tree erase %d\n", x); jsw_rberase(t, &probe); used[x] = false; }
            else if(!used[x] && coin(40)) { slog("tree erase %d, which is not there\n", x); jsw_rberase(t, &probe); }
            size_t live = 0; for(int i = 0; i < range; i++) live += used[i];
            if(jsw_rbsize(t) != live) sfail("the size is %zu, %zu elements are in", jsw_rbsize(t), live);
            void* f = jsw_rbfind(t, &probe);
            if((f != NULL) != used[x]) sfail("%d is %s", x, used[x] ? "lost" : "found");
            if(f && f != &el[x]) sfail("%d is another element", x);
            if(o == ops - 1 || coin(3)) for(int i = 0; i < range; i++) { int64_t p = i; void* g = jsw_rbfind(t, &p); if((g != NULL) != used[i] || (g && g != &el[i])) sfail("after the operations, %d is wrong", i); }
        }
        jsw_rbdelete(t);
    }
    {
        uint64_t a[6], b[6]; for(int i = 0; i < 6; i++) a[i] = b[i] = rnd();
        for(int o = 0; o < 60; o++) {
            uint64_t k = (uint64_t)rn(384); bool want = (b[k / 64] >> (k % 64)) & 1; if(test_bit(a, k) != want) sfail("test of bit %llu", (unsigned long long)k);
            if(coin(50)) { slog("set %llu\n", (unsigned long long)k); set_bit(a, k); b[k / 64] |= 1ull << (k % 64); } else { slog("clear %llu\n", (unsigned long long)k); clear_bit(a, k); b[k / 64] &= ~(1ull << (k % 64)); }
            if(memcmp(a, b, sizeof a)) sfail("another bit changed");
        }
    }
}
