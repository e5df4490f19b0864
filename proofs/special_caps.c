//@ what a frequency cap depends only on the first cap of its kind, id and namespace, by its definition, for any number of caps
//@ props C15 C01
//@ functions within_frequency_caps
//@ loop special.c within_frequency_caps 1/1 : __CPROVER_assigns(i, __CPROVER_object_whole(g_content), __CPROVER_object_whole(&C), __CPROVER_object_whole(&FIRST), SECS) __CPROVER_loop_invariant(i <= caps->size && i <= g_first) __CPROVER_decreases(caps->size - i)
//@ ghost special.c within_frequency_caps 1/1 : INST(i)
//@ assume special_caps: now minus the time of a cap does not overflow (now within 2^62 of zero)
//@ rewrite special.c ([\w.>\[\]-]+) / 1000000\b => us_to_s(\1)
//@ assume special_caps: the division of a time by 1000000 is kept as a function symbol (us_to_s) of which only the range is used
//@ cbmc --unwind 6
//@ bounded --unwind 6
#include "spec.h"
#include "special.h"
#ifdef BOUNDED
#define us_to_s(x) ((x) / 1000000)
#define RANGE(x)
#else
int64_t __CPROVER_uninterpreted_us_to_s(int64_t);
#define us_to_s(x) __CPROVER_uninterpreted_us_to_s(x)
#define RANGE(x) __CPROVER_assume((x) <= INT64_MAX / 1000000 && (x) >= INT64_MIN / 1000000);
#endif
static struct betree_frequency_cap** g_content; static struct betree_frequency_cap C, FIRST; static size_t g_first, g_size; static int64_t SECS;
static enum frequency_type_e T; static uint32_t ID; static struct string_value NS;
#define MATCH(c) ((c).id == ID && (c).namespace.str == NS.str && (c).type == T)
/* hypothesis for every k: elements before the g_first-th do not match, the g_first-th is FIRST and matches.
 * INST lets C be the element about to be read (any element satisfying that): elements not read yet are
 * arbitrary, so this loses no generality.  SECS is the time of that element in seconds. */
static struct betree_frequency_cap any_cap(void) { struct betree_frequency_cap c; bool b; c.timestamp_defined = b ? true : false; return c; }
#define INST(k) if((k) < g_size) { C = any_cap(); g_content[k] = &C; __CPROVER_assume(MATCH(C) == ((k) == g_first)); SECS = us_to_s(C.timestamp); RANGE(SECS) FIRST = C; }
#include "special.c"
int main()
{
    struct betree_frequency_caps c; size_t n;
#ifdef BOUNDED
    ASSUME(n <= 3);
#else
    ASSUME(n < ((size_t)1 << 32));
#endif
    g_size = n; c.size = n; g_content = malloc(n * sizeof(*g_content)); c.content = g_content;
    enum frequency_type_e t; T = t; uint32_t id; ID = id; struct string_value ns; NS = ns; size_t f; g_first = f; ASSUME(f <= n);
    int64_t value, now; size_t length; ASSUME(now >= -((int64_t)1 << 62) && now <= ((int64_t)1 << 62));
#ifdef BOUNDED
    static struct betree_frequency_cap E[3];
    for(size_t k = 0; k < 3; k++) if(k < n) {
        E[k] = any_cap(); g_content[k] = &E[k]; ASSUME(E[k].timestamp >= 0 && E[k].timestamp < 1 << 30); ASSUME(IMPLIES(k <= f, (MATCH(E[k])) == (k == f)));
        if(k == f) { SECS = us_to_s(E[k].timestamp); FIRST = E[k]; }
    }
#endif
    bool r = within_frequency_caps(&c, t, id, ns, value, length, now);
    bool spec = true;
    if(f < n) {
        bool below = value > (int64_t)FIRST.value;
        spec = length == 0 ? below : (below || !FIRST.timestamp_defined || now - SECS > (int64_t)length);
    }
    ASSERT(r == spec, "a frequency cap is decided by the first cap of its kind, id and namespace");
    ASSERT(IMPLIES(n == 0, r), "without any cap the predicate is true");
    REACH();
}
