/* C15: the special predicates against their definitions. */
#include "common.h"
#include "special.h"
const char* family_name = "C15 special predicates";
static int64_t big(void) { int k = rn(6); int64_t v = k < 3 ? rn(400) : k == 3 ? (int64_t)(rnd() >> 3) : k == 4 ? (int64_t)(rnd() >> 30) : 4294967290ll + rn(12); return coin(15) ? -v : v; }
void family_round(void)
{
    for(int o = 0; o < 40; o++) {
        int n = coin(15) ? 0 : rn(6); struct betree_frequency_cap c[6], *pc[6]; struct betree_frequency_caps caps = { (size_t)n, pc };
        int spread = 1 + rn(3);
        for(int i = 0; i < n; i++) { memset(&c[i], 0, sizeof c[i]); c[i].type = 1 + rn(spread); c[i].id = (uint32_t)rn(spread) + (coin(5) ? 4294967290u : 0); c[i].namespace.str = coin(10) ? INVALID_STR : (betree_str_t)rn(spread); c[i].timestamp_defined = coin(80); c[i].timestamp = coin(70) ? (int64_t)rn(300) * 1000000 + rn(3) * 499999 : big() * 3; c[i].value = coin(80) ? (uint32_t)rn(6) : (uint32_t)rnd(); pc[i] = &c[i]; }
        enum frequency_type_e t = 1 + rn(spread); uint32_t id = (uint32_t)rn(spread) + (coin(5) ? 4294967290u : 0); struct string_value ns = { .string = "x", .str = coin(10) ? INVALID_STR : (betree_str_t)rn(spread), .var = 0 };
        int64_t value = coin(80) ? rn(7) : big(), now = coin(80) ? rn(300) : big(); size_t len = coin(25) ? 0 : coin(80) ? (size_t)rn(200) : (size_t)(rnd() >> 2);
        slog("frequency cap: type %d id %u ns %llu value %lld length %zu now %lld\n", t, id, (unsigned long long)ns.str, (long long)value, len, (long long)now);
        for(int i = 0; i < n; i++) slog("   cap type %d id %u ns %llu time %s %lld value %u\n", c[i].type, c[i].id, (unsigned long long)c[i].namespace.str, c[i].timestamp_defined ? "set" : "unset", (long long)c[i].timestamp, c[i].value);
        bool want = true;
        for(int i = 0; i < n; i++) if(c[i].type == t && c[i].id == id && c[i].namespace.str == ns.str) {
            bool below = (__int128)c[i].value < value;
            want = len == 0 ? below : below || !c[i].timestamp_defined || (__int128)now - c[i].timestamp / 1000000 > (__int128)len;
            break; }
        if(within_frequency_caps(&caps, t, id, ns, value, len, now) != want) sfail("the predicate is %s by its definition", want ? "true" : "false");
    }
    for(int o = 0; o < 40; o++) {
        int n = coin(15) ? 0 : rn(6); struct betree_segment s[6], *ps[6]; struct betree_segments segs = { (size_t)n, ps };
        for(int i = 0; i < n; i++) { s[i].id = (coin(10) ? 9000000000ll : 0) + rn(9); for(int j = 0; j < i; j++) if(s[j].id == s[i].id) { s[i].id += 100 + i; } s[i].timestamp = coin(70) ? (int64_t)rn(300) * 1000000 + rn(3) * 499999 : big() * 3; ps[i] = &s[i]; }
        int64_t id = n && coin(75) ? s[rn(n)].id : rn(9), secs = coin(80) ? rn(200) : big(), now = coin(80) ? rn(300) : big();
        slog("segment %lld, %lld seconds, now %lld\n", (long long)id, (long long)secs, (long long)now); for(int i = 0; i < n; i++) slog("   segment %lld at %lld\n", (long long)s[i].id, (long long)s[i].timestamp);
        bool w = false, b = false;
        for(int i = 0; i < n; i++) if(s[i].id == id) { w = (__int128)now - secs <= s[i].timestamp / 1000000; b = !w; break; }
        if(segment_within(id, secs, &segs, now) != w) sfail("segment within is %d by its definition", w);
        if(segment_before(id, secs, &segs, now) != b) sfail("segment before is %d by its definition", b);
    }
    for(int o = 0; o < 40; o++) {
        int a = coin(10) ? rn(60) : rn(9), b = coin(10) ? rn(60) : rn(5); char *v = malloc((size_t)a + 1), *p = malloc((size_t)b + 1); int al = 1 + rn(3);
        for(int i = 0; i < a; i++) v[i] = (char)(coin(4) ? 200 : 'a' + rn(al)); v[a] = 0; for(int i = 0; i < b; i++) p[i] = (char)(coin(4) ? 200 : 'a' + rn(al)); p[b] = 0;
        if(b <= a && coin(40)) memcpy(p, v + rn(a - b + 1), (size_t)b);
        bool c = false; for(int i = 0; i + b <= a; i++) if(memcmp(v + i, p, (size_t)b) == 0) c = true;
        bool s = b <= a && memcmp(v, p, (size_t)b) == 0, e = b <= a && memcmp(v + a - b, p, (size_t)b) == 0;
        slog("text \"%s\", pattern \"%s\"\n", v, p);
        if(contains(v, p) != c) sfail("contains is %d", c); if(starts_with(v, p) != s) sfail("starts with is %d", s); if(ends_with(v, p) != e) sfail("ends with is %d", e);
        free(v); free(p);
    }
    /* the same through a tree and the text of an event */
    static const char* nss[5] = { "na", "nb", "nab", "nc", "n" }; static const char* kinds[3] = { "flight", "product", "campaign" }; static const int64_t ids[3] = { 7, 9, 4294967295ll };
    struct betree* t = betree_make(); betree_add_frequency_caps_variable(t, "frequency_caps", true); betree_add_segments_variable(t, "segments_with_timestamp", true); betree_add_segments_variable(t, "sg", true); betree_add_integer_variable(t, "now", true, 0, INT64_MAX - 1);
    struct betree_constant* k[3] = { betree_make_integer_constant("flight_id", ids[0]), betree_make_integer_constant("product_id", ids[1]), betree_make_integer_constant("campaign_id", ids[2]) };
    enum { NX = 8 }; struct { bool seg, before; int kind, ns; int64_t a, b; } x[NX]; char tx[2000];
    for(int i = 0; i < NX; i++) {
        x[i].seg = coin(40); x[i].before = coin(50); x[i].kind = rn(3); x[i].ns = rn(coin(50) ? 5 : 2); x[i].a = x[i].seg ? 1 + rn(6) : rn(7); x[i].b = coin(20) && !x[i].seg ? 0 : rn(200);
        if(x[i].seg) snprintf(tx, sizeof tx, "%s(%s%lld, %lld)", x[i].before ? "segment_before" : "segment_within", x[i].ns == 0 ? "sg, " : "", (long long)x[i].a, (long long)x[i].b);
        else snprintf(tx, sizeof tx, "within_frequency_cap(\"%s\", \"%s\", %lld, %lld)", kinds[x[i].kind], nss[x[i].ns], (long long)x[i].a, (long long)x[i].b);
        slog("subscription %d: %s\n", i, tx);
        if(!betree_insert_with_constants(t, (betree_sub_t)i, 3, (const struct betree_constant**)k, tx)) sfail("a special predicate was refused");
    }
    for(int o = 0; o < 6; o++) {
        int n = rn(7), m[2] = { rn(5), rn(5) }; struct { int kind, ns; int64_t id, ts; int value; } c[7]; struct { int64_t id, ts; } g[2][5]; int64_t now = rn(300); int at = snprintf(tx, sizeof tx, "{\"now\": %lld, \"frequency_caps\": [", (long long)now);
        for(int i = 0; i < n; i++) { c[i].kind = rn(3); c[i].ns = rn(5); c[i].id = coin(80) ? ids[c[i].kind] : rn(12); c[i].ts = (int64_t)rn(300) * 1000000 + rn(3) * 499999; c[i].value = rn(7); at += snprintf(tx + at, sizeof tx - at, "%s[[\"%s\", %lld, \"%s\"], %d, %lld]", i ? ", " : "", kinds[c[i].kind], (long long)c[i].id, nss[c[i].ns], c[i].value, (long long)c[i].ts); }
        for(int v = 0; v < 2; v++) { at += snprintf(tx + at, sizeof tx - at, "], \"%s\": [", v ? "sg" : "segments_with_timestamp"); for(int i = 0; i < m[v]; i++) { bool again; do { g[v][i].id = 1 + rn(7); again = false; for(int j = 0; j < i; j++) again = again || g[v][j].id == g[v][i].id; } while(again); g[v][i].ts = (int64_t)rn(300) * 1000000 + rn(3) * 499999; at += snprintf(tx + at, sizeof tx - at, "%s[%lld, %lld]", i ? ", " : "", (long long)g[v][i].id, (long long)g[v][i].ts); } }
        snprintf(tx + at, sizeof tx - at, "]}"); slog("event: %s\n", tx);
        struct report* r = make_report(); if(!betree_search(t, tx, r)) sfail("a valid event was refused");
        for(int i = 0; i < NX; i++) {
            bool want;
            if(x[i].seg) { int v = x[i].ns == 0; bool w = false, b = false; for(int j = 0; j < m[v]; j++) if(g[v][j].id == x[i].a) { w = now - x[i].b <= g[v][j].ts / 1000000; b = !w; break; } want = x[i].before ? b : w; }
            else { want = true; for(int j = 0; j < n; j++) if(c[j].kind == x[i].kind && c[j].id == ids[x[i].kind] && c[j].ns == x[i].ns) { want = c[j].value < x[i].a || (x[i].b != 0 && now - c[j].ts / 1000000 > x[i].b); break; } }
            bool got = false; for(size_t j = 0; j < r->matched; j++) got = got || r->subs[j] == (betree_sub_t)i;
            if(got != want) sfail("subscription %d is %s by its definition", i, want ? "true" : "false");
        }
        free_report(r);
    }
    for(int i = 0; i < 3; i++) betree_free_constant(k[i]);
    betree_free(t);
}
