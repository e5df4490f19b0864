//@ what a range is split only when its domain has two known ends less than a fixed width apart; the room of a leaf is at least the parameter
//@ props C16 C05
//@ functions splitable_attr_domain update_cluster_capacity feq smax is_overflowed
//@ nodfcc
//@ timeout 400
//@ assume splitable: float ends are finite and ordered, the others ordered (unit declared); a leaf holds less than 2^40
//@ variant integer -DT=BETREE_INTEGER
//@ variant integer_list -DT=BETREE_INTEGER_LIST
//@ variant float -DT=BETREE_FLOAT
//@ variant boolean -DT=BETREE_BOOLEAN
//@ variant string -DT=BETREE_STRING
//@ variant string_list -DT=BETREE_STRING_LIST
//@ variant ienum -DT=BETREE_INTEGER_ENUM
//@ variant segments -DT=BETREE_SEGMENTS
//@ variant caps -DT=BETREE_FREQUENCY_CAPS
//@ variant capacity -DT=100
//@ bounded
#include "spec.h"
#include "config.h"
#include "tree.c"
#include "utils.c"
int main()
{
    struct config conf; uint8_t cap; uint32_t w; conf.lnode_max_cap = cap; conf.max_domain_for_split = w; ASSUME(cap >= 1);
#if T == 100
    struct lnode l; size_t n; ASSUME(n < ((size_t)1 << 40)); l.sub_count = n;
    update_cluster_capacity(&conf, &l);
    ASSERT(l.max >= cap && l.max >= 1 && l.sub_count == n, "the room of a leaf is at least the parameter, and it keeps what it holds");
    ASSERT(is_overflowed(&l) == (n > l.max), "it is too full when it holds more");
    update_cluster_capacity(&conf, NULL);
#else
    struct attr_domain d; d.bound.value_type = T; int64_t i0, i1; size_t s0, s1; double f0, f1; ASSUME(i0 <= i1 && s0 <= s1 && f0 <= f1 && f0 >= -__DBL_MAX__ && f1 <= __DBL_MAX__);
    if(T == BETREE_INTEGER || T == BETREE_INTEGER_LIST) { d.bound.imin = i0; d.bound.imax = i1; }
    else if(T == BETREE_FLOAT) { d.bound.fmin = f0; d.bound.fmax = f1; }
    else if(T == BETREE_BOOLEAN) { d.bound.bmin = false; d.bound.bmax = true; }
    else { d.bound.smin = s0; d.bound.smax = s1; }
    bool r = splitable_attr_domain(&conf, &d);
    if(r) {
        if(T == BETREE_INTEGER || T == BETREE_INTEGER_LIST) ASSERT(i0 != INT64_MIN && i1 != INT64_MAX && !__CPROVER_overflow_minus(i1, i0) && i1 - i0 < w, "the width of a range of integers that is split is below the limit");
        if(T == BETREE_FLOAT) ASSERT(f1 - f0 < (double)w, "the width of a range of floats that is split is below the limit");
        if(T == BETREE_STRING || T == BETREE_STRING_LIST || T == BETREE_INTEGER_ENUM) ASSERT(s1 != SIZE_MAX && s1 - s0 < w, "the width of a range of ids that is split is below the limit");
        ASSERT(T != BETREE_SEGMENTS && T != BETREE_FREQUENCY_CAPS, "lists without order are not split by");
    }
#endif
    REACH();
}
