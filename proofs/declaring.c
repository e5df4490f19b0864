//@ what declaring a variable of a kind gives it that kind, the name, the ends asked for (all the values of the kind when unlimited, as many ids as asked for) and the undefined flag asked for
//@ props C02 C08 C16
//@ functions betree_add_boolean_variable betree_add_integer_variable betree_add_float_variable betree_add_string_variable betree_add_integer_list_variable betree_add_integer_enum_variable betree_add_string_list_variable betree_add_segments_variable betree_add_frequency_caps_variable add_attr_domain_i add_attr_domain_f add_attr_domain_b add_attr_domain_s add_attr_domain_ie add_attr_domain_il add_attr_domain_sl add_attr_domain_bounded_i add_attr_domain_bounded_f add_attr_domain_bounded_s add_attr_domain_bounded_ie add_attr_domain_bounded_il add_attr_domain_bounded_sl add_attr_domain_segments add_attr_domain_frequency
//@ cut config.c (?<!static void )\badd_attr_domain\( => declared_as(
//@ nodfcc
//@ cbmc --bounds-check --pointer-check
//@ assume declaring: add_attr_domain adds the domain it is given (unit growth, variant domains)
//@ bounded
#include "spec.h"
#include "config.h"
#include "betree.h"
static struct betree T; static struct config CF; static struct value_bound B; static bool U; static unsigned CALLS; static const char* NAME;
void declared_as(struct config* config, const char* attr, struct value_bound bound, bool allow_undefined)
{
    ASSERT(config == &CF && attr == NAME, "the variable is declared in the tree, under its name"); B = bound; U = allow_undefined; CALLS++;
}
#include "config.c"
#include "betree.c"
#define DECL(call, T0, cond) CALLS = 0; call; ASSERT(CALLS == 1 && B.value_type == T0 && U == u, "it is declared once, of its kind, undefined or not as asked for"); ASSERT(cond, "its ends are those asked for");
#define IDS(count) (B.smin == 0 && B.smax + 1 == (count))
int main()
{
    bool u0, u = u0 ? true : false; NAME = "ab"; T.config = &CF; int64_t i0, i1; double f0, f1; size_t n; ASSUME(f0 == f0 && f1 == f1);
    DECL(betree_add_boolean_variable(&T, NAME, u), BETREE_BOOLEAN, B.bmin == false && B.bmax == true)
    DECL(betree_add_integer_variable(&T, NAME, u, i0, i1), BETREE_INTEGER, B.imin == i0 && B.imax == i1)
    DECL(betree_add_float_variable(&T, NAME, u, f0, f1), BETREE_FLOAT, B.fmin == f0 && B.fmax == f1)
    DECL(betree_add_string_variable(&T, NAME, u, n), BETREE_STRING, IDS(n))
    DECL(betree_add_integer_list_variable(&T, NAME, u, i0, i1), BETREE_INTEGER_LIST, B.imin == i0 && B.imax == i1)
    DECL(betree_add_integer_enum_variable(&T, NAME, u, n), BETREE_INTEGER_ENUM, IDS(n))
    DECL(betree_add_string_list_variable(&T, NAME, u, n), BETREE_STRING_LIST, IDS(n))
    DECL(betree_add_segments_variable(&T, NAME, u), BETREE_SEGMENTS, true)
    DECL(betree_add_frequency_caps_variable(&T, NAME, u), BETREE_FREQUENCY_CAPS, IDS(SIZE_MAX))
    DECL(add_attr_domain_i(&CF, NAME, u), BETREE_INTEGER, B.imin == INT64_MIN && B.imax == INT64_MAX)
    DECL(add_attr_domain_f(&CF, NAME, u), BETREE_FLOAT, B.fmin == -__DBL_MAX__ && B.fmax == __DBL_MAX__)
    DECL(add_attr_domain_il(&CF, NAME, u), BETREE_INTEGER_LIST, B.imin == INT64_MIN && B.imax == INT64_MAX)
    DECL(add_attr_domain_s(&CF, NAME, u), BETREE_STRING, IDS(SIZE_MAX))
    DECL(add_attr_domain_ie(&CF, NAME, u), BETREE_INTEGER_ENUM, IDS(SIZE_MAX))
    DECL(add_attr_domain_sl(&CF, NAME, u), BETREE_STRING_LIST, IDS(SIZE_MAX))
    REACH();
}
