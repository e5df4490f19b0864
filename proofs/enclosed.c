//@ what an event on which a subscription is true enters every index node that encloses the subscription, for every value type; the open flags passed down stay right
//@ props C02
//@ functions is_event_enclosed
//@ nodfcc
//@ bounded --unwind 3
//@ assume enclosed: F: for a true subscription the value is within its range, except on a side that reaches the end of the domain (unit bound); lists are sorted (C09); the value has the type of its variable (C07)
//@ assume enclosed: the range of a child is a strict part of its parent's and keeps one of its ends (unit split)
//@ variant integer -DT=BETREE_INTEGER
//@ variant float -DT=BETREE_FLOAT
//@ variant boolean -DT=BETREE_BOOLEAN
//@ variant string -DT=BETREE_STRING
//@ variant ienum -DT=BETREE_INTEGER_ENUM
//@ variant integer_list -DT=BETREE_INTEGER_LIST
//@ variant string_list -DT=BETREE_STRING_LIST
//@ variant segments -DT=BETREE_SEGMENTS
//@ variant caps -DT=BETREE_FREQUENCY_CAPS
//@ cbmc --unwind 3
#include "spec.h"
#include "tree.c"
/* R: range of the root of the index, P: of a node, C: of one of its children, B: of the subscription; v: [lo,hi] of the value */
#define ENCL(num, mn, mx, lo, hi) { \
    num r0, r1, p0, p1, c0, c1, b0, b1; \
    ASSUME(r0 <= r1 && p0 <= p1 && c0 <= c1 && b0 <= b1 && r0 <= p0 && p1 <= r1); \
    if((num)-1 > 0) ASSUME(r0 == 0); /* ids start at 0: the domain of strings and enums has no other lower end (config.c, change_boundaries) */ \
    ASSUME(left ? c0 == p0 && c1 < p1 : c1 == p1 && c0 > p0); \
    ASSUME((ol || p0 > r0) && (or || p1 < r1)); \
    ASSERT((col || c0 > r0) && (cor || c1 < r1), "the flags passed to a child are right for it"); \
    ASSUME(c0 <= b0 && b1 <= c1); \
    ASSUME(((hi) >= b0 || b0 <= r0) && ((lo) <= b1 || b1 >= r1)); \
    C.bound.mn = c0; C.bound.mx = c1; }
static bool any(void) { bool b; return b ? true : false; }
int main()
{
    struct cdir C; C.bound.value_type = T; size_t nv; ASSUME(nv > 0 && nv < ((size_t)1 << 32));
    betree_var_t x; ASSUME(x < nv); C.attr_var.var = x;
    const struct betree_variable** preds = malloc(nv * sizeof(*preds)); struct betree_variable V; V.value.value_type = T; bool defined = any(); preds[x] = defined ? &V : NULL;
    bool ol = any(), or = any(), left = any(); bool col = left ? ol : false, cor = left ? false : or;
    if(T == BETREE_INTEGER) { int64_t v; V.value.integer_value = v; ENCL(int64_t, imin, imax, v, v) }
    if(T == BETREE_FLOAT) { double v; ASSUME(v == v); V.value.float_value = v; ENCL(double, fmin, fmax, v - EPS, v + EPS) }
    if(T == BETREE_BOOLEAN) { bool v = any(), b0 = any(), b1 = any(), c0 = any(), c1 = any(); V.value.boolean_value = v; C.bound.bmin = c0; C.bound.bmax = c1;
        ASSUME(c0 <= b0 && b1 <= c1 && (v >= b0 || !b0) && (v <= b1 || b1)); }
    if(T == BETREE_STRING) { betree_str_t v; V.value.string_value.str = v; ENCL(size_t, smin, smax, v, v) ASSUME(1); }
    if(T == BETREE_INTEGER_ENUM) { betree_ienum_t v; V.value.integer_enum_value.ienum = v; ENCL(size_t, smin, smax, v, v) }
    if(T == BETREE_INTEGER_LIST) { size_t n; ASSUME(n < ((size_t)1 << 40)); struct betree_integer_list* l = malloc(sizeof(*l)); l->count = n; l->integers = malloc(n * 8); V.value.integer_list_value = l;
        if(n > 0) { ASSUME(l->integers[0] <= l->integers[n - 1]); int64_t lo = l->integers[0], hi = l->integers[n - 1]; ENCL(int64_t, imin, imax, lo, hi) } }
    if(T == BETREE_STRING_LIST) { size_t n; ASSUME(n < ((size_t)1 << 32)); struct betree_string_list* l = malloc(sizeof(*l)); l->count = n; l->strings = malloc(n * sizeof(*l->strings)); V.value.string_list_value = l;
        if(n > 0) { ASSUME(l->strings[0].str <= l->strings[n - 1].str); betree_str_t lo = l->strings[0].str, hi = l->strings[n - 1].str; ENCL(size_t, smin, smax, lo, hi) } }
    bool r = is_event_enclosed(preds, &C, col, cor);
    ASSERT(r, "an event on which the subscription is true enters the node");
    ASSERT(!is_event_enclosed(preds, NULL, col, cor), "there is nothing to enter without a child");
    REACH();
}
