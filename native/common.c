#include "common.h"
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>

uint64_t rng_state = 1;
uint64_t rnd(void)
{
    uint64_t z = (rng_state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
int rn(int n) { return n <= 0 ? 0 : (int)(rnd() % (uint64_t)n); }

/* ------------------------------------------------------------ scenario log */
#define LOGSZ (1 << 20)
struct shared { uint64_t rounds; uint64_t seed; size_t len; int failed; char log[LOGSZ]; };
static struct shared* sh;
uint64_t round_no;
void slog(const char* fmt, ...)
{
    if(sh->len >= LOGSZ - 2) return;
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(sh->log + sh->len, LOGSZ - 1 - sh->len, fmt, ap);
    va_end(ap);
    if(k > 0) sh->len += (size_t)k;
    if(sh->len > LOGSZ - 2) sh->len = LOGSZ - 2;
}
void sfail(const char* fmt, ...)
{
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if(sh->len > LOGSZ - 5000) sh->len = LOGSZ - 5000;
    slog("VIOLATED: %s\n", b);
    sh->failed = 1;
    _exit(77);
}

int main(int argc, char** argv)
{
    if(argc < 4) { fprintf(stderr, "usage: %s SEED SECONDS OUTFILE [ROUND]\n", argv[0]); return 2; }
    uint64_t seed = strtoull(argv[1], NULL, 10); int secs = atoi(argv[2]); const char* out = argv[3];
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(sh == MAP_FAILED) return 2;
    uint64_t next = argc > 4 ? strtoull(argv[4], NULL, 10) : 0; uint64_t only = argc > 4 ? next + 1 : UINT64_MAX;
    char errname[] = "/tmp/betree_native_XXXXXX";
    int errfd = mkstemp(errname); if(errfd < 0) return 2;
    unlink(errname);
    int fl = fcntl(errfd, F_GETFL); fcntl(errfd, F_SETFL, fl | O_APPEND);
    time_t end = time(NULL) + (secs > 0 ? secs : 1);
    int bad = 0; int status = 0;
    while(time(NULL) < end && next < only && !bad) {
        pid_t p = fork();
        if(p == 0) {
            dup2(errfd, 2); dup2(errfd, 1);
            for(round_no = next; time(NULL) < end && round_no < only && round_no < next + 500; round_no++) {
                rng_state = seed * 1000003ull + round_no * 7919ull + 17; rnd(); rnd();
                sh->len = 0; sh->rounds = round_no; sh->log[0] = 0;
                alarm(60);
                family_round();
                if((round_no & 63) == 63 && ftruncate(errfd, 0)) {}
            }
            sh->rounds = round_no;
            alarm(0);
            exit(0);
        }
        if(p < 0) return 2;
        waitpid(p, &status, 0);
        if(WIFSIGNALED(status) && (WTERMSIG(status) == SIGKILL || WTERMSIG(status) == SIGTERM)) { printf("%s: ended from outside\n", family_name); return 3; }
        if(!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) { bad = 1; break; }
        next = sh->rounds;
    }
    if(bad) {
        FILE* f = fopen(out, "w"); if(!f) f = stdout;
        fprintf(f, "failing input found by the search of %s (seed %llu, round %llu)\n", family_name, (unsigned long long)seed, (unsigned long long)sh->rounds);
        fprintf(f, "reproduce: build native/<family>.c with native/common.c and /repo/src/*.c, run with arguments: %llu 100 OUT %llu\n", (unsigned long long)seed, (unsigned long long)sh->rounds);
        if(!sh->failed) {
            if(WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) fprintf(f, "VIOLATED: no answer in 60 s\n");
            else if(WIFSIGNALED(status)) fprintf(f, "VIOLATED: ended by signal %d\n", WTERMSIG(status));
            else fprintf(f, "VIOLATED: ended with status %d\n", WEXITSTATUS(status));
        }
        fprintf(f, "--- what was done\n%.*s\n", (int)sh->len, sh->log);
        off_t sz = lseek(errfd, 0, SEEK_END); off_t from = sz > 6000 ? sz - 6000 : 0;
        if(!sh->failed) {
            static char buf[6001]; ssize_t k = pread(errfd, buf, 6000, from); if(k > 0) { buf[k] = 0; fprintf(f, "--- last output of the program\n%s\n", buf); }
        }
        if(f != stdout) fclose(f);
        printf("%s: failing input after %llu rounds\n", family_name, (unsigned long long)sh->rounds);
        return 1;
    }
    printf("%s: %llu rounds without a failing input\n", family_name, (unsigned long long)sh->rounds);
    return 0;
}

/* ------------------------------------------------------------ schema */
const char* pool[NPOOL] = { "a", "ab", "abc", "b", "bc", "xabc", "abx", "s1", "s10", "s2", "zz", "hello", "el", "lo" };
const char* ftypes[NFT] = { "flight", "flight:ip", "advertiser", "advertiser:ip", "campaign", "campaign:ip", "campaign_group", "campaign_group:ip", "product", "product:ip" };
const char* fconst[NFT] = { "flight_id", "flight_id", "advertiser_id", "advertiser_id", "campaign_id", "campaign_id", "campaign_group_id", "campaign_group_id", "product_id", "product_id" };
int64_t fconst_value[NFT] = { 10, 10, 20, 20, 30, 30, 40, 40, 50, 50 };

static struct svar* addv(struct schema* s, const char* name, enum betree_value_type_e t, bool undef)
{
    struct svar* v = &s->v[s->n++]; memset(v, 0, sizeof *v);
    snprintf(v->name, sizeof v->name, "%s", name); v->t = t; v->undef = undef;
    return v;
}
static void int_range(struct svar* v, bool extreme)
{
    int k = rn(extreme ? 11 : 6); v->bounded = true;
    switch(k) {
        case 0: v->bounded = false; v->imin = INT64_MIN; v->imax = INT64_MAX; break;
        case 1: v->imin = 0; v->imax = 10; break;
        case 2: v->imin = -20; v->imax = 20; break;
        case 3: v->imin = 0; v->imax = 900; break;
        case 4: v->imin = -5; v->imax = 5; break;
        case 5: v->imin = 1; v->imax = 3; break;
        case 6: v->imin = 0; v->imax = INT64_MAX; break;
        case 7: v->imin = INT64_MIN; v->imax = 0; break;
        case 8: v->imin = 7; v->imax = 7; break;
        case 9: v->imin = INT64_MIN + 1; v->imax = INT64_MAX - 1; break;
        case 10: v->imin = INT64_MAX - 500; v->imax = INT64_MAX - 1; break;
    }
}
void gen_schema(struct schema* s, struct schema_opt o)
{
    memset(s, 0, sizeof *s);
    int m = o.max_each > 0 ? o.max_each : 2; char nm[32];
#define U (o.all_undef || coin(60))
    struct { const char* p; enum betree_value_type_e t; } k[7] = { { "b", BETREE_BOOLEAN }, { "i", BETREE_INTEGER }, { "f", BETREE_FLOAT }, { "s", BETREE_STRING }, { "il", BETREE_INTEGER_LIST }, { "sl", BETREE_STRING_LIST }, { "ie", BETREE_INTEGER_ENUM } };
    int start = rn(7); int types = o.one_type ? 1 : 7;
    for(int x = 0; x < types; x++) {
        int ki = (start + x) % 7; int c = o.one_type ? 1 + rn(m) : rn(m + 1);
        for(int j = 0; j < c; j++) {
            snprintf(nm, sizeof nm, "%s%d", k[ki].p, j);
            struct svar* v = addv(s, nm, k[ki].t, U);
            switch(v->t) {
                case BETREE_INTEGER: case BETREE_INTEGER_LIST: int_range(v, o.extreme); break;
                case BETREE_FLOAT: {
                    int r = rn(o.extreme ? 6 : 3); v->bounded = true;
                    if(r == 0) { v->bounded = false; v->fmin = -DBL_MAX; v->fmax = DBL_MAX; }
                    if(r == 1) { v->fmin = 0.; v->fmax = 10.; }
                    if(r == 2) { v->fmin = -5.5; v->fmax = 7.25; }
                    if(r == 3) { v->fmin = 0.; v->fmax = 1e-9; }
                    if(r == 4) { v->fmin = 3.; v->fmax = 3.; }
                    if(r == 5) { v->fmin = 0.; v->fmax = 999.; }
                    break;
                }
                case BETREE_STRING: case BETREE_STRING_LIST: case BETREE_INTEGER_ENUM:
                    if(coin(50)) { v->bounded = true; v->cap = o.tight_strings ? 1 + (size_t)rn(4) : 3 + (size_t)rn(NPOOL); } else { v->bounded = false; v->cap = SIZE_MAX; }
                    break;
                default: break;
            }
        }
    }
    if(o.specials) {
        if(coin(70)) addv(s, "frequency_caps", BETREE_FREQUENCY_CAPS, U);
        if(coin(70)) addv(s, "segments_with_timestamp", BETREE_SEGMENTS, U);
        if(coin(40)) addv(s, "seg1", BETREE_SEGMENTS, U);
        if(coin(80)) { struct svar* v = addv(s, "now", BETREE_INTEGER, U); v->imin = coin(50) ? INT64_MIN : 0; v->imax = v->imin == 0 ? 300 : INT64_MAX; v->bounded = v->imin == 0; }
        if(coin(50)) { bool u = U; struct svar* v = addv(s, "latitude", BETREE_FLOAT, u); v->fmin = -DBL_MAX; v->fmax = DBL_MAX; v = addv(s, "longitude", BETREE_FLOAT, u); v->fmin = -DBL_MAX; v->fmax = DBL_MAX; }
    }
    if(s->n == 0) { struct svar* v = addv(s, "i0", BETREE_INTEGER, true); int_range(v, false); }
    if(o.filler && coin(50)) { int k = coin(6) ? 250 + rn(300) : 30 + rn(70); for(int i = 0; i < k; i++) { snprintf(nm, sizeof nm, "zz%d", i); addv(s, nm, BETREE_BOOLEAN, U); } }
    /* variables at any position */
    for(int i = s->n - 1; i > 0; i--) { int j = rn(i + 1); struct svar t = s->v[i]; s->v[i] = s->v[j]; s->v[j] = t; }
#undef U
}
int schema_find(const struct schema* s, const char* name)
{
    for(int i = 0; i < s->n; i++) if(strcmp(s->v[i].name, name) == 0) return i;
    return -1;
}
void apply_schema(struct betree* t, const struct schema* s)
{
    for(int i = 0; i < s->n; i++) {
        const struct svar* v = &s->v[i];
        switch(v->t) {
            case BETREE_BOOLEAN: betree_add_boolean_variable(t, v->name, v->undef); break;
            case BETREE_INTEGER: betree_add_integer_variable(t, v->name, v->undef, v->imin, v->imax); break;
            case BETREE_FLOAT: betree_add_float_variable(t, v->name, v->undef, v->fmin, v->fmax); break;
            case BETREE_STRING: betree_add_string_variable(t, v->name, v->undef, v->cap); break;
            case BETREE_INTEGER_LIST: betree_add_integer_list_variable(t, v->name, v->undef, v->imin, v->imax); break;
            case BETREE_STRING_LIST: betree_add_string_list_variable(t, v->name, v->undef, v->cap); break;
            case BETREE_INTEGER_ENUM: betree_add_integer_enum_variable(t, v->name, v->undef, v->cap); break;
            case BETREE_SEGMENTS: betree_add_segments_variable(t, v->name, v->undef); break;
            case BETREE_FREQUENCY_CAPS: betree_add_frequency_caps_variable(t, v->name, v->undef); break;
        }
    }
}
void log_schema(const struct schema* s)
{
    static const char* tn[] = { "boolean", "integer", "float", "string", "integer list", "string list", "segments", "frequency caps", "integer enum" };
    for(int i = 0; i < s->n; i++) {
        const struct svar* v = &s->v[i];
        slog("variable %s: %s%s", v->name, tn[v->t], v->undef ? ", may be undefined" : "");
        if(v->t == BETREE_INTEGER || v->t == BETREE_INTEGER_LIST) slog(" [%lld, %lld]", (long long)v->imin, (long long)v->imax);
        if(v->t == BETREE_FLOAT) slog(" [%.17g, %.17g]", v->fmin, v->fmax);
        if(v->t == BETREE_STRING || v->t == BETREE_STRING_LIST || v->t == BETREE_INTEGER_ENUM) { if(v->cap == SIZE_MAX) slog(" unbounded"); else slog(" at most %zu values", v->cap); }
        slog("\n");
    }
}
/* ------------------------------------------------------------ values */
static int64_t int_value(const struct svar* v)
{
    if(coin(75) && v->bounded) {
        int64_t w = (int64_t)((uint64_t)v->imax - (uint64_t)v->imin);
        if(w < 0) return rn(41) - 20;
        int k = rn(6);
        if(k == 0) return v->imin == INT64_MIN ? v->imin + 1 : v->imin;
        if(k == 1) return v->imax == INT64_MAX ? v->imax - 1 : v->imax;
        if(w > 1000) return coin(50) ? v->imin + 1 + rn(20) : v->imax - 1 - rn(20);
        return v->imin + (int64_t)(rnd() % (uint64_t)(w + 1));
    }
    int k = rn(10);
    if(k < 6) return rn(14) - 2;
    if(k < 9) return rn(61) - 30;
    return (int64_t)(rnd() % 100000) - 50000;
}
static double float_value(const struct svar* v)
{
    int k = rn(8);
    if(v->bounded && k == 0) return v->fmin;
    if(v->bounded && k == 1) return v->fmax;
    if(k < 5) return (rn(45) - 20) / 4.0;
    if(k < 7) return rn(12);
    return (rn(20001) - 10000) / 1000.0;
}
static int str_value(const struct svar* v)
{
    int n = NPOOL;
    if(v->bounded && v->cap < NPOOL && coin(98)) n = (int)v->cap;
    return rn(n < 1 ? 1 : n);
}
static int64_t ienum_value(const struct svar* v)
{
    int n = 14;
    if(v->bounded && v->cap < 14 && coin(98)) n = (int)v->cap;
    return (int64_t)rn(n < 1 ? 1 : n) * 7 - 20;
}
void gen_event(const struct schema* s, struct oevent* e, int undef_pct)
{
    memset(e->v, 0, sizeof e->v[0] * (size_t)s->n);
    for(int i = 0; i < s->n; i++) {
        const struct svar* v = &s->v[i]; struct oval* o = &e->v[i];
        o->def = !(v->undef && coin(undef_pct));
        if(!o->def) continue;
        switch(v->t) {
            case BETREE_BOOLEAN: o->b = coin(50); break;
            case BETREE_INTEGER: o->i = strcmp(v->name, "now") == 0 ? rn(250) : int_value(v); break;
            case BETREE_FLOAT: o->f = strcmp(v->name, "latitude") == 0 ? rn(121) - 60 : strcmp(v->name, "longitude") == 0 ? rn(161) - 80 : float_value(v); break;
            case BETREE_STRING: o->s = str_value(v); break;
            case BETREE_INTEGER_ENUM: o->i = ienum_value(v); break;
            case BETREE_INTEGER_LIST: o->n = coin(12) ? 0 : rn(7); for(int j = 0; j < o->n; j++) o->il[j] = int_value(v); break;
            case BETREE_STRING_LIST: o->n = coin(12) ? 0 : rn(7); for(int j = 0; j < o->n; j++) o->sl[j] = str_value(v); break;
            case BETREE_SEGMENTS: {
                o->n = coin(15) ? 0 : rn(5); int used = 0;
                for(int j = 0; j < o->n; j++) {
                    int id; do id = 1 + rn(8); while(used & (1 << id));
                    used |= 1 << id; o->seg[j].id = id; o->seg[j].ts = (int64_t)rn(250) * 1000000 + (coin(30) ? rn(1000000) : 0);
                }
                break; }
            case BETREE_FREQUENCY_CAPS:
                o->n = coin(15) ? 0 : rn(6);
                for(int j = 0; j < o->n; j++) {
                    struct ocap* c = &o->cap[j]; c->type = rn(NFT); c->id = coin(80) ? fconst_value[c->type] : rn(60); c->ns = rn(3);
                    c->ts_defined = true; c->ts = (int64_t)rn(250) * 1000000 + (coin(30) ? rn(1000000) : 0); c->value = rn(8);
                }
                break;
        }
    }
}
struct sb { char* p; size_t n, cap; };
static void sbf(struct sb* b, const char* fmt, ...)
{
    for(;;) {
        va_list ap; va_start(ap, fmt);
        int k = vsnprintf(b->p ? b->p + b->n : NULL, b->p ? b->cap - b->n : 0, fmt, ap); va_end(ap);
        if(b->p && b->n + (size_t)k + 1 <= b->cap) { b->n += (size_t)k; return; }
        b->cap = (b->cap + (size_t)k + 64) * 2; b->p = realloc(b->p, b->cap);
    }
}
static void sbfloat(struct sb* b, double f)
{
    char t[400]; snprintf(t, sizeof t, "%.9f", f);
    sbf(b, "%s", t);
}
char* event_text(const struct schema* s, const struct oevent* e)
{
    struct sb b = { 0 }; bool first = true;
    sbf(&b, "{");
    for(int i = 0; i < s->n; i++) {
        const struct svar* v = &s->v[i]; const struct oval* o = &e->v[i];
        if(!o->def) { if((i + s->n) % 3 == 0) { sbf(&b, "%s\"%s\": null", first ? "" : ", ", v->name); first = false; } continue; }
        sbf(&b, "%s\"%s\": ", first ? "" : ", ", v->name); first = false;
        switch(v->t) {
            case BETREE_BOOLEAN: sbf(&b, o->b ? "true" : "false"); break;
            case BETREE_INTEGER: case BETREE_INTEGER_ENUM: sbf(&b, "%lld", (long long)o->i); break;
            case BETREE_FLOAT: if(o->f == floor(o->f) && fabs(o->f) < 1e6 && i % 2) sbf(&b, "%lld", (long long)o->f); else sbfloat(&b, o->f); break;
            case BETREE_STRING: sbf(&b, "\"%s\"", pool[o->s]); break;
            case BETREE_INTEGER_LIST: sbf(&b, "["); for(int j = 0; j < o->n; j++) sbf(&b, "%s%lld", j ? ", " : "", (long long)o->il[j]); sbf(&b, "]"); break;
            case BETREE_STRING_LIST: sbf(&b, "["); for(int j = 0; j < o->n; j++) sbf(&b, "%s\"%s\"", j ? ", " : "", pool[o->sl[j]]); sbf(&b, "]"); break;
            case BETREE_SEGMENTS: sbf(&b, "["); for(int j = 0; j < o->n; j++) sbf(&b, "%s[%lld, %lld]", j ? ", " : "", (long long)o->seg[j].id, (long long)o->seg[j].ts); sbf(&b, "]"); break;
            case BETREE_FREQUENCY_CAPS: sbf(&b, "[");
                for(int j = 0; j < o->n; j++) { const struct ocap* c = &o->cap[j]; sbf(&b, "%s[[\"%s\", %lld, \"%s\"], %lld, %lld]", j ? ", " : "", ftypes[c->type], (long long)c->id, pool[c->ns], (long long)c->value, (long long)c->ts); }
                sbf(&b, "]"); break;
        }
    }
    sbf(&b, "}");
    return b.p;
}
struct betree_event* event_api(const struct betree* t, const struct schema* s, const struct oevent* e)
{
    struct betree_event* r = betree_make_event(t);
    for(int i = 0; i < s->n; i++) {
        const struct svar* v = &s->v[i]; const struct oval* o = &e->v[i]; struct betree_variable* x = NULL;
        if(!o->def) continue;
        switch(v->t) {
            case BETREE_BOOLEAN: x = betree_make_boolean_variable(v->name, o->b); break;
            case BETREE_INTEGER: case BETREE_INTEGER_ENUM: x = betree_make_integer_variable(v->name, o->i); break;
            case BETREE_FLOAT: x = betree_make_float_variable(v->name, o->f); break;
            case BETREE_STRING: x = betree_make_string_variable(v->name, pool[o->s]); break;
            case BETREE_INTEGER_LIST: { struct betree_integer_list* l = betree_make_integer_list((size_t)o->n); for(int j = 0; j < o->n; j++) betree_add_integer(l, (size_t)j, o->il[j]); x = betree_make_integer_list_variable(v->name, l); break; }
            case BETREE_STRING_LIST: { struct betree_string_list* l = betree_make_string_list((size_t)o->n); for(int j = 0; j < o->n; j++) betree_add_string(l, (size_t)j, pool[o->sl[j]]); x = betree_make_string_list_variable(v->name, l); break; }
            case BETREE_SEGMENTS: { struct betree_segments* l = betree_make_segments((size_t)o->n); for(int j = 0; j < o->n; j++) betree_add_segment(l, (size_t)j, betree_make_segment(o->seg[j].id, o->seg[j].ts)); x = betree_make_segments_variable(v->name, l); break; }
            case BETREE_FREQUENCY_CAPS: { struct betree_frequency_caps* l = betree_make_frequency_caps((size_t)o->n);
                for(int j = 0; j < o->n; j++) { const struct ocap* c = &o->cap[j]; betree_add_frequency_cap(l, (size_t)j, betree_make_frequency_cap(ftypes[c->type], (uint32_t)c->id, pool[c->ns], c->ts_defined, c->ts, (uint32_t)c->value)); }
                x = betree_make_frequency_caps_variable(v->name, l); break; }
        }
        betree_set_variable(r, (size_t)i, x);
    }
    return r;
}

/* ------------------------------------------------------------ expressions */
static struct ex* mk(enum ok k) { struct ex* e = calloc(1, sizeof *e); e->k = k; e->v = e->v2 = -1; return e; }
static int pick_var(const struct schema* s, struct ex_opt o)
{
    if(o.only_var >= 0 && coin(70)) return o.only_var;
    int v = rn(s->n);
    for(int i = 0; i < 30 && s->v[v].name[0] == 'z' && !coin(15); i++) v = rn(s->n);
    return v;
}
static struct ex* gen_atom(const struct schema* s, struct ex_opt o)
{
    for(int tries = 0; tries < 50; tries++) {
        if(coin(o.lit_pct)) { struct ex* e = mk(O_LIT); e->op = coin(50); return e; }
        int vi = pick_var(s, o); const struct svar* v = &s->v[vi];
        if(o.nulls && coin(12)) {
            struct ex* e = mk(O_NULL); e->v = vi; e->op = rn(3);
            bool lst = v->t == BETREE_INTEGER_LIST || v->t == BETREE_STRING_LIST;
            if(e->op == 2 && !lst) e->op = rn(2);
            if(e->op < 2 && !v->undef) { if(!lst) { free(e); continue; } e->op = 2; }
            return e;
        }
        switch(v->t) {
            case BETREE_BOOLEAN: { struct ex* e = mk(O_BOOL); e->v = vi; return e; }
            case BETREE_INTEGER: {
                int k = rn(10);
                if(k < 5) { struct ex* e = mk(O_CMP); e->v = vi; e->op = rn(4); e->i = int_value(v); e->flip = coin(20); return e; }
                if(k < 8) { struct ex* e = mk(O_EQ); e->v = vi; e->op = rn(2); e->i = int_value(v); e->flip = coin(20); return e; }
                struct ex* e = mk(O_VARIN); e->v = vi; e->op = rn(2); e->n = 1 + rn(6); for(int j = 0; j < e->n; j++) e->il[j] = int_value(v); return e; }
            case BETREE_FLOAT: {
                if(strcmp(v->name, "latitude") == 0 || strcmp(v->name, "longitude") == 0) {
                    if(!o.specials || schema_find(s, "latitude") < 0 || schema_find(s, "longitude") < 0) continue;
                    struct ex* e = mk(O_GEO); e->v = schema_find(s, "latitude"); e->v2 = schema_find(s, "longitude"); e->f = rn(121) - 60; e->f2 = rn(161) - 80; e->r = 1 + rn(9000); e->isf = coin(50); return e; }
                struct ex* e = mk(coin(60) ? O_CMP : O_EQ); e->v = vi; e->op = e->k == O_CMP ? rn(4) : rn(2); e->isf = true; e->f = float_value(v); e->flip = coin(20); return e; }
            case BETREE_STRING: {
                int k = rn(10);
                if(k < 5) { struct ex* e = mk(O_EQ); e->v = vi; e->op = rn(2); e->is_s = true; e->s = str_value(v); e->flip = coin(20); return e; }
                if(k < 8 || !o.specials) { struct ex* e = mk(O_VARIN); e->v = vi; e->op = rn(2); e->is_s = true; e->n = 1 + rn(5); for(int j = 0; j < e->n; j++) e->sl[j] = str_value(v); return e; }
                struct ex* e = mk(O_STR); e->v = vi; e->op = rn(3); e->s = rn(NPOOL); return e; }
            case BETREE_INTEGER_ENUM: { struct ex* e = mk(O_EQ); e->v = vi; e->op = rn(2); e->i = ienum_value(v); return e; }
            case BETREE_INTEGER_LIST: {
                if(coin(30)) { struct ex* e = mk(O_INVAR); e->v = vi; e->op = rn(2); e->i = int_value(v); return e; }
                struct ex* e = mk(O_LIST); e->v = vi; e->op = rn(3); e->n = 1 + rn(5); for(int j = 0; j < e->n; j++) e->il[j] = int_value(v); return e; }
            case BETREE_STRING_LIST: {
                if(coin(30)) { struct ex* e = mk(O_INVAR); e->v = vi; e->op = rn(2); e->is_s = true; e->s = str_value(v); return e; }
                struct ex* e = mk(O_LIST); e->v = vi; e->op = rn(3); e->is_s = true; e->n = 1 + rn(5); for(int j = 0; j < e->n; j++) e->sl[j] = str_value(v); return e; }
            case BETREE_SEGMENTS: {
                if(!o.specials || schema_find(s, "now") < 0) continue;
                struct ex* e = mk(O_SEG); e->v = vi; e->v2 = schema_find(s, "now"); e->op = rn(2); e->i = 1 + rn(8); e->i2 = rn(200); e->named = strcmp(v->name, "segments_with_timestamp") != 0 || coin(40); return e; }
            case BETREE_FREQUENCY_CAPS: {
                if(!o.specials || schema_find(s, "now") < 0) continue;
                struct ex* e = mk(O_FREQ); e->v = vi; e->v2 = schema_find(s, "now"); e->ftype = rn(NFT); e->s = rn(3); e->i = rn(9); e->i2 = coin(30) ? 0 : rn(200); return e; }
        }
    }
    struct ex* e = mk(O_LIT); e->op = coin(50); return e;
}
struct ex* gen_expr(const struct schema* s, struct ex_opt o)
{
    if(o.depth <= 0 || coin(25)) return gen_atom(s, o);
    struct ex_opt p = o; p.depth--;
    int k = rn(10);
    struct ex* e = mk(k < 4 ? O_AND : k < 8 ? O_OR : O_NOT);
    e->l = gen_expr(s, p); if(e->k != O_NOT) e->r_ = gen_expr(s, p);
    return e;
}
void free_ex(struct ex* e) { if(!e) return; free_ex(e->l); free_ex(e->r_); free(e); }
struct ex* ex_copy(const struct ex* e) { if(!e) return NULL; struct ex* c = malloc(sizeof *c); *c = *e; c->l = ex_copy(e->l); c->r_ = ex_copy(e->r_); return c; }
int ex_size(const struct ex* e) { return e ? 1 + ex_size(e->l) + ex_size(e->r_) : 0; }
bool ex_has_freq(const struct ex* e) { return e && (e->k == O_FREQ || ex_has_freq(e->l) || ex_has_freq(e->r_)); }
bool ex_uses(const struct ex* e, int var) { return e && (e->v == var || e->v2 == var || ex_uses(e->l, var) || ex_uses(e->r_, var)); }
static void lit(struct sb* b, const struct ex* e)
{
    if(e->is_s) sbf(b, "\"%s\"", pool[e->s]);
    else if(e->isf) { if(e->f == floor(e->f) && fabs(e->f) < 1e6 && ((int)fabs(e->f)) % 2) sbf(b, "%lld", (long long)e->f); else sbfloat(b, e->f); }
    else sbf(b, "%lld", (long long)e->i);
}
static void ex_print(struct sb* b, const struct schema* s, const struct ex* e)
{
    static const char* cmp[] = { "<", "<=", ">", ">=" }; static const char* flp[] = { ">", ">=", "<", "<=" };
    const char* n = e->v >= 0 ? s->v[e->v].name : "";
    switch(e->k) {
        case O_CMP: if(e->flip) { lit(b, e); sbf(b, " %s %s", flp[e->op], n); } else { sbf(b, "%s %s ", n, cmp[e->op]); lit(b, e); } break;
        case O_EQ: if(e->flip) { lit(b, e); sbf(b, " %s %s", e->op ? "<>" : "=", n); } else { sbf(b, "%s %s ", n, e->op ? "<>" : "="); lit(b, e); } break;
        case O_BOOL: sbf(b, "%s", n); break;
        case O_LIT: sbf(b, e->op ? "true" : "false"); break;
        case O_AND: case O_OR: sbf(b, "("); ex_print(b, s, e->l); sbf(b, e->k == O_AND ? " and " : " or "); ex_print(b, s, e->r_); sbf(b, ")"); break;
        case O_NOT: sbf(b, "not ("); ex_print(b, s, e->l); sbf(b, ")"); break;
        case O_VARIN: sbf(b, "%s %s (", n, e->op ? "not in" : "in"); goto list;
        case O_LIST: { static const char* l[] = { "one of", "none of", "all of" }; sbf(b, "%s %s (", n, l[e->op]); }
        list: for(int j = 0; j < e->n; j++) { if(e->is_s) sbf(b, "%s\"%s\"", j ? ", " : "", pool[e->sl[j]]); else sbf(b, "%s%lld", j ? ", " : "", (long long)e->il[j]); } sbf(b, ")"); break;
        case O_INVAR: lit(b, e); sbf(b, " %s %s", e->op ? "not in" : "in", n); break;
        case O_NULL: { static const char* l[] = { "is null", "is not null", "is empty" }; sbf(b, "%s %s", n, l[e->op]); break; }
        case O_FREQ: sbf(b, "within_frequency_cap(\"%s\", \"%s\", %lld, %lld)", ftypes[e->ftype], pool[e->s], (long long)e->i, (long long)e->i2); break;
        case O_SEG: if(e->named) sbf(b, "%s(%s, %lld, %lld)", e->op ? "segment_before" : "segment_within", n, (long long)e->i, (long long)e->i2); else sbf(b, "%s(%lld, %lld)", e->op ? "segment_before" : "segment_within", (long long)e->i, (long long)e->i2); break;
        case O_GEO: if(e->isf) { sbf(b, "geo_within_radius("); sbfloat(b, e->f); sbf(b, ", "); sbfloat(b, e->f2); sbf(b, ", "); sbfloat(b, e->r); sbf(b, ")"); } else sbf(b, "geo_within_radius(%lld, %lld, %lld)", (long long)e->f, (long long)e->f2, (long long)e->r); break;
        case O_STR: { static const char* l[] = { "contains", "starts_with", "ends_with" }; sbf(b, "%s(%s, \"%s\")", l[e->op], n, pool[e->s]); break; }
    }
}
char* ex_text(const struct schema* s, const struct ex* e) { struct sb b = { 0 }; ex_print(&b, s, e); return b.p; }

static int has_i(const int64_t* l, int n, int64_t x) { for(int j = 0; j < n; j++) if(l[j] == x) return 1; return 0; }
static int has_s(const int* l, int n, int x) { for(int j = 0; j < n; j++) if(l[j] == x) return 1; return 0; }
static int64_t sec(int64_t us) { return us / 1000000; }
bool ex_eval(const struct schema* s, const struct ex* e, const struct oevent* ev)
{
    switch(e->k) {
        case O_LIT: return e->op;
        case O_AND: return ex_eval(s, e->l, ev) && ex_eval(s, e->r_, ev);
        case O_OR: return ex_eval(s, e->l, ev) || ex_eval(s, e->r_, ev);
        case O_NOT: return !ex_eval(s, e->l, ev);
        default: break;
    }
    const struct oval* o = &ev->v[e->v]; const struct oval* o2 = e->v2 >= 0 ? &ev->v[e->v2] : NULL;
    if(e->k == O_NULL) return e->op == 0 ? !o->def : e->op == 1 ? o->def : o->def && o->n == 0;
    if(!o->def || (o2 && !o2->def)) return false;
    switch(e->k) {
        case O_BOOL: return o->b;
        case O_CMP: if(e->isf) return e->op == 0 ? o->f < e->f : e->op == 1 ? o->f <= e->f : e->op == 2 ? o->f > e->f : o->f >= e->f;
            return e->op == 0 ? o->i < e->i : e->op == 1 ? o->i <= e->i : e->op == 2 ? o->i > e->i : o->i >= e->i;
        case O_EQ: { bool q = e->is_s ? o->s == e->s : e->isf ? fabs(o->f - e->f) < DBL_EPSILON : o->i == e->i; return e->op ? !q : q; }
        case O_VARIN: { bool q = e->is_s ? has_s(e->sl, e->n, o->s) : has_i(e->il, e->n, o->i); return e->op ? !q : q; }
        case O_INVAR: { bool q = e->is_s ? has_s(o->sl, o->n, e->s) : has_i(o->il, o->n, e->i); return e->op ? !q : q; }
        case O_LIST: {
            int hit = 0; for(int j = 0; j < e->n; j++) hit += e->is_s ? has_s(o->sl, o->n, e->sl[j]) : has_i(o->il, o->n, e->il[j]);
            return e->op == 0 ? hit > 0 : e->op == 1 ? hit == 0 : hit == e->n; }
        case O_FREQ:
            for(int j = 0; j < o->n; j++) {
                const struct ocap* c = &o->cap[j];
                if(c->type != e->ftype || c->ns != e->s || c->id != fconst_value[e->ftype]) continue;
                if(e->i2 == 0) return e->i > c->value;
                if(!c->ts_defined) return true;
                return o2->i - sec(c->ts) > e->i2 || e->i > c->value;
            }
            return true;
        case O_SEG:
            for(int j = 0; j < o->n; j++) if(o->seg[j].id == e->i) return e->op == 0 ? o2->i - e->i2 <= sec(o->seg[j].ts) : o2->i - e->i2 > sec(o->seg[j].ts);
            return false;
        case O_GEO: {
            double R = 6372.8, d = 3.14159265358979323846 / 180;
            double a = pow(sin((o->f - e->f) * d / 2), 2) + cos(o->f * d) * cos(e->f * d) * pow(sin((o2->f - e->f2) * d / 2), 2);
            return 2 * R * asin(sqrt(a)) <= e->r; }
        case O_STR: {
            const char *v = pool[o->s], *p = pool[e->s]; size_t a = strlen(v), b = strlen(p);
            if(e->op == 0) { for(size_t j = 0; j + b <= a; j++) if(memcmp(v + j, p, b) == 0) return true; return false; }
            if(b > a) return false;
            return memcmp(e->op == 1 ? v : v + (a - b), p, b) == 0; }
        default: return false;
    }
}
static int cmp_i64(const void* a, const void* b) { int64_t x = *(const int64_t*)a, y = *(const int64_t*)b; return x < y ? -1 : x > y; }
static int cmp_int(const void* a, const void* b) { return *(const int*)a - *(const int*)b; }
void ex_canon(struct ex* e)
{
    if(!e) return;
    e->flip = false; e->named = true;
    if(e->n) {
        int m = 0;
        if(e->is_s) { qsort(e->sl, (size_t)e->n, sizeof *e->sl, cmp_int); for(int i = 0; i < e->n; i++) if(i == 0 || e->sl[i] != e->sl[m - 1]) e->sl[m++] = e->sl[i]; }
        else { qsort(e->il, (size_t)e->n, sizeof *e->il, cmp_i64); for(int i = 0; i < e->n; i++) if(i == 0 || e->il[i] != e->il[m - 1]) e->il[m++] = e->il[i]; }
        e->n = m;
    }
    if(e->k == O_GEO) e->isf = false;
    ex_canon(e->l); ex_canon(e->r_);
}
static void mutate_atom(const struct schema* s, struct ex* e)
{
    int k = rn(4);
    if(k == 0) { /* another variable of the same type */
        for(int t = 0; t < 20 && e->v >= 0; t++) { int v = rn(s->n); if(v != e->v && s->v[v].t == s->v[e->v].t && s->v[v].undef == s->v[e->v].undef) { e->v = v; if(e->k == O_SEG) e->named = true; return; } }
    }
    switch(e->k) {
        case O_LIT: e->op = !e->op; return;
        case O_BOOL: return;
        case O_CMP: if(k == 1) e->op = (e->op + 1 + rn(3)) % 4; else if(e->isf) e->f += 0.25; else e->i += coin(50) ? 1 : -1; return;
        case O_EQ: if(k == 1) e->op = !e->op; else if(e->is_s) e->s = rn(NPOOL); else if(e->isf) e->f += 0.25; else if(s->v[e->v].t == BETREE_INTEGER_ENUM) e->i += 7; else e->i += 1; return;
        case O_VARIN: case O_LIST:
            if(k == 1) e->op = (e->op + 1) % (e->k == O_LIST ? 3 : 2);
            else if(k == 2 && e->n < MAXL) { if(e->is_s) e->sl[e->n] = rn(NPOOL); else e->il[e->n] = rn(20); e->n++; }
            else { int j = rn(e->n); if(e->is_s) e->sl[j] = rn(NPOOL); else e->il[j] += 1; }
            return;
        case O_INVAR: if(k == 1) e->op = !e->op; else if(e->is_s) e->s = rn(NPOOL); else e->i += 1; return;
        case O_NULL: if(s->v[e->v].undef) e->op = e->op < 2 ? !e->op : e->op; return;
        case O_FREQ: if(k == 1) e->ftype = rn(NFT); else if(k == 2) e->s = rn(3); else if(k == 3) e->i++; else e->i2++; return;
        case O_SEG: if(k == 1) e->op = !e->op; else if(k == 2) e->i = 1 + rn(8); else e->i2++; return;
        case O_GEO: if(k == 1) e->f += 1; else if(k == 2) e->f2 += 1; else e->r += 1; return;
        case O_STR: if(k == 1) e->op = (e->op + 1) % 3; else e->s = rn(NPOOL); return;
        default: return;
    }
}
struct ex* ex_mutate(const struct schema* s, const struct ex* e0)
{
    struct ex* e = ex_copy(e0); struct ex* p = e;
    while(p->l) {
        if(coin(15)) {
            if(p->k == O_NOT) { struct ex* l = p->l; *p = *l; free(l); return e; }
            if(coin(50)) { p->k = p->k == O_AND ? O_OR : O_AND; return e; }
            struct ex* t = p->l; p->l = p->r_; p->r_ = t; return e;
        }
        p = p->r_ && coin(50) ? p->r_ : p->l;
    }
    mutate_atom(s, p);
    return e;
}
struct ex* ex_shift(const struct ex* e0)
{
    struct ex* e = ex_copy(e0); struct ex* p = e; int64_t d = ((int64_t)1 << 32) * (1 + rn(3)) * (coin(50) ? 1 : 1 << rn(20)), *x = NULL;
    while(p->l) p = p->r_ && coin(50) ? p->r_ : p->l;
    switch(p->k) {
        case O_CMP: case O_EQ: if(!p->is_s && !p->isf) x = &p->i; break;
        case O_INVAR: if(!p->is_s) x = &p->i; break;
        case O_VARIN: case O_LIST: if(!p->is_s && p->n) x = &p->il[rn(p->n)]; break;
        case O_FREQ: x = &p->i2; break;
        case O_SEG: x = coin(50) ? &p->i : &p->i2; break;
        default: break;
    }
    if(!x) { free_ex(e); return NULL; }
    *x += *x > 0 && p->k != O_SEG && p->k != O_FREQ && coin(50) ? -d : d;
    return e;
}
/* ------------------------------------------------------------ helpers on the library side */
struct consts make_consts(void)
{
    struct consts c = { 0 };
    for(int i = 0; i < NFT; i += 2) c.c[c.n++] = betree_make_integer_constant(fconst[i], fconst_value[i]);
    return c;
}
void free_consts(struct consts* c) { betree_free_constants(c->n, c->c); c->n = 0; }
static void fix_floats(struct ast_node* n, const struct schema* s)
{
    switch(n->type) {
        case AST_TYPE_COMPARE_EXPR: if(s->v[n->compare_expr.attr_var.var].t == BETREE_FLOAT && n->compare_expr.value.value_type == AST_COMPARE_VALUE_INTEGER) { n->compare_expr.value.value_type = AST_COMPARE_VALUE_FLOAT; n->compare_expr.value.float_value = (double)n->compare_expr.value.integer_value; } break;
        case AST_TYPE_EQUALITY_EXPR: if(s->v[n->equality_expr.attr_var.var].t == BETREE_FLOAT && n->equality_expr.value.value_type == AST_EQUALITY_VALUE_INTEGER) { n->equality_expr.value.value_type = AST_EQUALITY_VALUE_FLOAT; n->equality_expr.value.float_value = (double)n->equality_expr.value.integer_value; } break;
        case AST_TYPE_BOOL_EXPR:
            if(n->bool_expr.op == AST_BOOL_AND || n->bool_expr.op == AST_BOOL_OR) { fix_floats(n->bool_expr.binary.lhs, s); fix_floats(n->bool_expr.binary.rhs, s); }
            if(n->bool_expr.op == AST_BOOL_NOT) fix_floats(n->bool_expr.unary.expr, s);
            break;
        default: break;
    }
}
struct ast_node* direct_node(struct betree* t, const struct ex* e, const struct schema* s)
{
    char* txt = ex_text(s, e); struct ast_node* n = NULL;
    if(parse(txt, &n) != 0) { free(txt); return NULL; }
    free(txt);
    assign_variable_id(t->config, n);
    struct consts c = make_consts(); assign_constants(c.n, (const struct betree_constant**)c.c, n); free_consts(&c);
    assign_str_id(t->config, n, false); assign_ienum_id(t->config, n, false);
    sort_lists(n); fix_floats(n, s);
    return n;
}
bool direct_match(struct betree* t, const struct ast_node* n, const struct schema* s, const struct oevent* e)
{
    struct betree_event* ev = event_api(t, s, e);
    fill_event(t->config, ev); sort_event_lists(ev);
    const struct betree_variable** preds = calloc((size_t)s->n + 1, sizeof *preds);
    for(size_t i = 0; i < ev->variable_count; i++) if(ev->variables[i]) preds[ev->variables[i]->attr_var.var] = ev->variables[i];
    struct memoize m = make_memoize((t->config->pred_map ? t->config->pred_map->memoize_count : 0) + 8); struct report* r = make_report();
    bool b = match_node(preds, n, &m, r);
    free_report(r); free_memoize(m); free(preds); betree_free_event(ev);
    return b;
}
static void walk_cdir(const struct cdir* d, const struct betree_sub** out, size_t max, size_t* n);
static void walk_cnode(const struct cnode* c, const struct betree_sub** out, size_t max, size_t* n)
{
    if(!c) return;
    if(c->lnode) for(size_t i = 0; i < c->lnode->sub_count; i++) { if(*n < max) out[*n] = c->lnode->subs[i]; (*n)++; }
    if(c->pdir) for(size_t i = 0; i < c->pdir->pnode_count; i++) walk_cdir(c->pdir->pnodes[i]->cdir, out, max, n);
}
static void walk_cdir(const struct cdir* d, const struct betree_sub** out, size_t max, size_t* n)
{
    if(!d) return;
    walk_cnode(d->cnode, out, max, n); walk_cdir(d->lchild, out, max, n); walk_cdir(d->rchild, out, max, n);
}
size_t walk_subs(const struct cnode* c, const struct betree_sub** out, size_t max) { size_t n = 0; walk_cnode(c, out, max, &n); return n; }
bool report_has(const struct report* r, betree_sub_t id) { for(size_t i = 0; i < r->matched; i++) if(r->subs[i] == id) return true; return false; }

void gen_collision(char a[32], char b[32]) { gen_collision_at(a, b, rn(5)); }
void gen_collision_at(char* a, char* b, int p)
{
    for(;;) {
        unsigned h = 5381; for(int i = 0; i < p; i++) { a[i] = b[i] = (char)('a' + rn(26)); h = h * 33 ^ (unsigned)a[i]; }
        for(int t = 0; t < 400; t++) {
            unsigned c = 'a' + (unsigned)rn(26), d = 'a' + (unsigned)rn(26); if(c == d) continue;
            unsigned x = ((h * 33 ^ c) * 33) ^ ((h * 33 ^ d) * 33); if(x == 0 || x > 127) continue;
            for(unsigned k = '0'; k < 'z'; k++) { unsigned l = k ^ x; if(!((l >= '0' && l <= '9') || (l >= 'a' && l <= 'z')) || !((k >= '0' && k <= '9') || (k >= 'a' && k <= 'z'))) continue;
                a[p] = (char)c; a[p + 1] = (char)k; b[p] = (char)d; b[p + 1] = (char)l; int n = p + 2;
                for(int q = rn(4); q > 0; q--) { a[n] = b[n] = (char)('a' + rn(26)); n++; }
                a[n] = b[n] = 0; return; }
        }
    }
}
