//@ what a segment predicate depends only on the time of the first segment with its id, by its definition, for any number of segments
//@ props C15 C01
//@ functions segment_within segment_before
//@ loop special.c segment_within 1/1 : __CPROVER_assigns(i, __CPROVER_object_whole(g_content), __CPROVER_object_whole(&C), SECS) __CPROVER_loop_invariant(i <= segments->size && i <= g_first) __CPROVER_decreases(segments->size - i)
//@ ghost special.c segment_within 1/1 : INST(i)
//@ loop special.c segment_before 1/1 : __CPROVER_assigns(i, __CPROVER_object_whole(g_content), __CPROVER_object_whole(&C), SECS) __CPROVER_loop_invariant(i <= segments->size && i <= g_first) __CPROVER_decreases(segments->size - i)
//@ ghost special.c segment_before 1/1 : INST(i)
//@ assume special_segment: now minus the number of seconds does not overflow
//@ rewrite special.c ([\w.>\[\]-]+) / 1000000\b => us_to_s(\1)
//@ assume special_segment: the division of a time by 1000000 is kept as a function symbol (us_to_s) of which only the range is used
//@ cbmc --unwind 6
//@ variant within -DWITHIN=1
//@ variant before -DWITHIN=0
//@ bounded --unwind 6
#include "spec.h"
#include "special.h"
#ifdef BOUNDED
#define us_to_s(x) ((x) / 1000000)
#define RANGE(x)
#else
int64_t __CPROVER_uninterpreted_us_to_s(int64_t);
#define us_to_s(x) __CPROVER_uninterpreted_us_to_s(x)
#define RANGE(x) __CPROVER_assume((x) <= INT64_MAX / 1000000 && (x) >= INT64_MIN / 1000000);
#endif
static struct betree_segment** g_content; static struct betree_segment C; static size_t g_first, g_size; static int64_t ID, SECS;
/* hypothesis for every k: elements before the g_first-th have other ids, the g_first-th has the id.
 * INST lets C be the element about to be read (any element satisfying that): elements not read yet are
 * arbitrary, so this loses no generality.  SECS is the time of that element in seconds. */
static struct betree_segment any_segment(void) { struct betree_segment s; return s; }
#define INST(k) if((k) < g_size) { C = any_segment(); g_content[k] = &C; __CPROVER_assume((C.id == ID) == ((k) == g_first)); SECS = us_to_s(C.timestamp); RANGE(SECS) }
#include "special.c"
int main()
{
    struct betree_segments c; size_t n;
#ifdef BOUNDED
    ASSUME(n <= 3);
#else
    ASSUME(n < ((size_t)1 << 32));
#endif
    g_size = n; c.size = n; g_content = malloc(n * sizeof(*g_content)); c.content = g_content;
    int64_t id; ID = id; size_t f; g_first = f; ASSUME(f <= n);
    int64_t seconds, now; ASSUME(!__CPROVER_overflow_minus(now, seconds));
#ifdef BOUNDED
    static struct betree_segment E[3];
    for(size_t k = 0; k < 3; k++) if(k < n) {
        E[k] = any_segment(); g_content[k] = &E[k]; ASSUME(E[k].timestamp >= 0 && E[k].timestamp < 1 << 30); ASSUME(IMPLIES(k <= f, (E[k].id == ID) == (k == f)));
        if(k == f) { SECS = us_to_s(E[k].timestamp); }
    }
#endif
    bool r = WITHIN ? segment_within(id, seconds, &c, now) : segment_before(id, seconds, &c, now);
    bool spec = false;
    if(f < n) spec = WITHIN ? SECS >= now - seconds : SECS < now - seconds;
    ASSERT(r == spec, "a segment predicate is decided by the time of its segment, false without it");
    REACH();
}
