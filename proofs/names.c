//@ what the id of a name is the index of the first variable declared with that name in lower case, none when there is none, for names of any length and any number of variables
//@ props C07 C02
//@ enforce try_get_id_for_attr/lookup
//@ functions try_get_id_for_attr get_attr_for_id
//@ rewrite tree.c (?<![\w>.])copy\[(\w+)\] => (*CHAR(copy, \1))
//@ rewrite tree.c (?<![\w>.])config->attr_domains\[(\w+)\]->attr_var\.attr => DECLARED(config, \1)
//@ loop tree.c try_get_id_for_attr 1/2 : __CPROVER_assigns(i, MC, OC, END) __CPROVER_loop_invariant(i <= LEN && MC == (i > P ? LOW(M0) : M0)) __CPROVER_decreases(LEN - i)
//@ loop tree.c try_get_id_for_attr 2/2 : __CPROVER_assigns(i) __CPROVER_loop_invariant(i <= COUNT && IMPLIES(i > G, !SAME)) __CPROVER_decreases(COUNT - i)
//@ cbmc --unwind 6 --object-bits 10
//@ bounded --unwind 5 --unwinding-assertions --bounds-check --pointer-check --memory-leak-check
//@ assume names: the characters of the copied name are read and written through CHAR, which stands for them by two: one arbitrary one (P) and one for all the others; the declared variables likewise through DECLARED; strcmp compares texts
#include "spec.h"
#include "config.h"
#include <ctype.h>
#ifdef BOUNDED
#include "alloc.h"
#include "tree.c"
char* bstrdup(const char* s) { size_t n = 0; while(s[n]) n++; char* c = malloc(n + 1); for(size_t i = 0; i <= n; i++) c[i] = s[i]; return c; }
int main()
{
    char a[3], b[3], g[3]; a[2] = b[2] = g[2] = 0; struct attr_domain A, B, *D[2] = { &A, &B }; A.attr_var.attr = a; B.attr_var.attr = b;
    size_t n; ASSUME(n <= 2); struct config c; c.attr_domain_count = n; c.attr_domains = D; bool e; B.allow_undefined = e ? true : false;
    for(int i = 0; i < 2; i++) ASSUME(a[i] >= 0 && b[i] >= 0 && g[i] >= 0);
    char l[3]; for(int i = 0; i < 3; i++) l[i] = g[i] >= 'A' && g[i] <= 'Z' ? g[i] + 32 : g[i];
    char k = g[0], k1 = g[1];
    size_t v = try_get_id_for_attr(&c, g);
    ASSERT(v == (n > 0 && strcmp(a, l) == 0 ? 0 : n > 1 && strcmp(b, l) == 0 ? 1 : INVALID_VAR), "the first variable declared with that name in lower case, none when there is none");
    ASSERT(g[0] == k && g[1] == k1, "the name is left alone");
    if(v < n) { ASSERT(get_attr_for_id(&c, v) == D[v]->attr_var.attr, "the name of a variable"); }
    ASSERT(get_attr_for_id(&c, n) == NULL, "no variable, no name");
    REACH();
}
#else
static size_t LEN, P, G, COUNT; static char M0, MC, OC, END; static bool SAME; static int COPIES; static const struct config* CONF; static const char *GIVEN; static char COPY[2], MINE[2], OTHER[2];
#define LOW(c) ((c) >= 'A' && (c) <= 'Z' ? (char)((c) + 32) : (c))
static char* char_at(const char* c, size_t i);
static const char* declared_at(const struct config* c, size_t i);
#define CHAR(c, i) char_at(c, i)
#define DECLARED(c, i) declared_at(c, i)
#include "alloc.h"
static void model_free(void* p) { ASSERT(p == COPY && COPIES == 1, "the copy is released, once"); COPIES = 0; }
#undef bfree
#define bfree model_free
#define bstrdup model_dup
static char* model_dup(const char* s) { ASSERT(s == GIVEN && COPIES == 0, "the name is copied"); COPIES = 1; return COPY; }
#define tolower model_low
static int model_low(int c) { return LOW(c); }
#define strcmp model_cmp
static int model_cmp(const char* a, const char* b);
#include "tree.c"
#undef strcmp
#undef bstrdup
#undef tolower
static int model_cmp(const char* a, const char* b)
{
    ASSERT(((a == MINE || a == OTHER) && b == COPY) || ((b == MINE || b == OTHER) && a == COPY), "a declared name and the given one");
    ASSERT(COPIES == 1 && IMPLIES(P < LEN, MC == LOW(M0)), "in lower case");
    int r; if(a == MINE || b == MINE) ASSUME((r == 0) == SAME); return r;
}
static char* char_at(const char* c, size_t i)
{
    ASSERT(c == COPY && COPIES == 1 && i <= LEN, "inside of the copy");
    if(i == LEN) { END = 0; return &END; }
    if(i == P) return &MC;
    char o; ASSUME(o != 0); OC = o; return &OC;
}
static const char* declared_at(const struct config* c, size_t i) { ASSERT(c == CONF && i < COUNT, "a declared variable"); return i == G ? MINE : OTHER; }
static bool any(void) { bool b; return b ? true : false; }
betree_var_t lookup(const struct config* config, const char* attr)
__CPROVER_requires(config == CONF && attr == GIVEN && COPIES == 0)
__CPROVER_ensures(__CPROVER_return_value < COUNT || __CPROVER_return_value == INVALID_VAR)
__CPROVER_ensures(IMPLIES(__CPROVER_return_value == G && G < COUNT, SAME))
__CPROVER_ensures(IMPLIES(G < COUNT && SAME, __CPROVER_return_value <= G))
__CPROVER_ensures(COPIES == 0)
__CPROVER_assigns(MC, OC, END, COPIES);
int main()
{
    size_t n, l, p, g; ASSUME(n < (size_t)1 << 40 && l < (size_t)1 << 40); COUNT = n; LEN = l; P = p; G = g; COPIES = 0; SAME = any(); char m; ASSUME(m != 0); MC = M0 = m; OC = 1; END = 0;
    struct config c; CONF = &c; c.attr_domain_count = n; char name; GIVEN = &name;
    size_t v = try_get_id_for_attr(&c, GIVEN);
    ASSERT(v < n || v == INVALID_VAR, "a declared variable, or none");
    ASSERT(IMPLIES(v == g && g < n, SAME), "one with that name in lower case");
    ASSERT(IMPLIES(g < n && SAME, v <= g), "the first one, when there is one");
    ASSERT(COPIES == 0, "the copy is released");
    REACH();
}
#endif
