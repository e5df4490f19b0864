//@ what halving a range that is not atomic: no abort; the halves stay in the range, reach both its ends, are strictly smaller, overlap at most in the dividing value and (integers, ids) leave no value out
//@ props C16 C02
//@ functions split_value_bound split_float_bound is_atomic feq
//@ nodfcc
//@ timeout 400
//@ assume split: integer ranges are at most 2^63-1 wide (splitable_attr_domain, unit splitable: a domain is split only below max_domain_for_split); float ranges are finite and ordered
//@ variant integer -DT=BETREE_INTEGER
//@ variant integer_list -DT=BETREE_INTEGER_LIST
//@ variant float -DT=BETREE_FLOAT
//@ variant boolean -DT=BETREE_BOOLEAN
//@ variant string -DT=BETREE_STRING
//@ variant string_list -DT=BETREE_STRING_LIST
//@ variant ienum -DT=BETREE_INTEGER_ENUM
//@ bounded
#include "spec.h"
#include "tree.c"
#include "utils.c"
int main()
{
    struct cdir c; struct value_bound b; b.value_type = T;
    bool x, y; if(T == BETREE_BOOLEAN) { b.bmin = x ? true : false; b.bmax = y ? true : false; }
    int64_t i0, i1; size_t s0, s1; double f0, f1;
    if(T == BETREE_INTEGER || T == BETREE_INTEGER_LIST) { b.imin = i0; b.imax = i1; ASSUME(i0 <= i1 && !__CPROVER_overflow_minus(i1, i0)); }
    if(T == BETREE_STRING || T == BETREE_STRING_LIST || T == BETREE_INTEGER_ENUM) { b.smin = s0; b.smax = s1; ASSUME(s0 <= s1); }
    if(T == BETREE_FLOAT) { b.fmin = f0; b.fmax = f1; ASSUME(f0 <= f1 && f0 >= -__DBL_MAX__ && f1 <= __DBL_MAX__); }
    if(T == BETREE_BOOLEAN) ASSUME(b.bmin <= b.bmax);
    c.bound = b;
    if(is_atomic(&c)) {
        if(T == BETREE_INTEGER || T == BETREE_INTEGER_LIST) ASSERT(i0 == i1, "only a range of one value is atomic");
        if(T == BETREE_STRING || T == BETREE_STRING_LIST || T == BETREE_INTEGER_ENUM) ASSERT(s0 == s1, "only a range of one value is atomic");
        if(T == BETREE_BOOLEAN) ASSERT(b.bmin == b.bmax, "only a range of one value is atomic");
        return 0;
    }
    struct value_bounds h = split_value_bound(b);
    ASSERT(h.lbound.value_type == T && h.rbound.value_type == T, "the halves are of the same type");
#define HALVES(mn, mx, what) \
    ASSERT(h.lbound.mn == b.mn && h.rbound.mx == b.mx, "the halves reach both ends"); \
    ASSERT(h.lbound.mx >= h.lbound.mn && h.rbound.mn <= h.rbound.mx, "no half is empty"); \
    ASSERT(h.lbound.mx < b.mx && h.rbound.mn > b.mn, "both halves are strictly smaller"); \
    ASSERT(h.lbound.mx <= h.rbound.mn, "the halves overlap at most in the dividing value");
    if(T == BETREE_INTEGER || T == BETREE_INTEGER_LIST) { HALVES(imin, imax, 1) ASSERT(h.rbound.imin - h.lbound.imax <= 1, "no value is left out"); }
    if(T == BETREE_STRING || T == BETREE_STRING_LIST || T == BETREE_INTEGER_ENUM) { HALVES(smin, smax, 1) ASSERT(h.rbound.smin - h.lbound.smax <= 1, "no value is left out"); }
    if(T == BETREE_BOOLEAN) { HALVES(bmin, bmax, 1) }
    if(T == BETREE_FLOAT) { HALVES(fmin, fmax, 1) }
    REACH();
}
