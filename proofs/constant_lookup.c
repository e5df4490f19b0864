//@ what the constant used is the first one of the name asked for, and only if it is an integer, for any number of constants
//@ props C14
//@ functions get_integer_constant
//@ loop ast.c get_integer_constant 1/1 : __CPROVER_assigns(i, constant, __CPROVER_object_whole(CS), __CPROVER_object_whole(&C), EQUAL, FT, FV) __CPROVER_loop_invariant(i <= count && i <= FIRST && constant == NULL) __CPROVER_decreases(count - i)
//@ ghost ast.c get_integer_constant 1/1 : INST(i);
//@ cbmc --unwind 6
//@ bounded --unwind 6
//@ assume constant_lookup: strcmp gives zero exactly on equal strings (it is asked here for the name and the name of the constant at hand); INST instantiates the constant at the index being read
#include "spec.h"
#include "tree.h"
static size_t N, FIRST; static struct betree_constant C; static enum betree_value_type_e FT; static int64_t FV; static const struct betree_constant** CS; static bool EQUAL; static char NAME[4];
#ifdef BOUNDED
static struct betree_constant OBJ[3]; static char NM[3][4];
#define INST(i)
static int model_strcmp(const char* a, const char* b) { int r; const char* o = a == NAME ? b : a; ASSERT((a == NAME) != (b == NAME), "the name is compared"); size_t k = o == NM[0] ? 0 : o == NM[1] ? 1 : 2; if(k == FIRST) return 0; if(k < FIRST) ASSUME(r != 0); return r; }
#else
#define INST(i) { struct betree_constant c; int64_t v; C = c; C.value.integer_value = v; C.name = &NAME[1]; CS[i] = &C; bool e; EQUAL = (i) == FIRST || ((i) > FIRST && e); if((i) == FIRST) { FT = C.value.value_type; FV = v; } }
static int model_strcmp(const char* a, const char* b) { int r; ASSERT((a == NAME && b == C.name) || (b == NAME && a == C.name), "the name is compared with the name of the constant at hand"); if(EQUAL) return 0; ASSUME(r != 0); return r; }
#endif
#define strcmp model_strcmp
#include "ast.c"
int main()
{
    size_t n, f;
#ifdef BOUNDED
    ASSUME(n <= 3);
#else
    ASSUME(n < ((size_t)1 << 40));
#endif
    N = n; ASSUME(f <= n); FIRST = f; CS = malloc(n * sizeof(*CS)); int64_t before, ret; before = ret;
#ifdef BOUNDED
    for(size_t k = 0; k < n; k++) { struct betree_constant c; int64_t v; OBJ[k] = c; OBJ[k].value.integer_value = v; OBJ[k].name = NM[k]; CS[k] = &OBJ[k]; if(k == FIRST) { FT = OBJ[k].value.value_type; FV = v; } }
#endif
    bool r = get_integer_constant(NAME, n, CS, &ret);
    if(f == n) ASSERT(!r, "there is none");
    else {
        ASSERT(r == (FT == BETREE_INTEGER), "the first one counts, if it is an integer");
        if(r) ASSERT(ret == FV, "its value is used");
    }
    REACH();
}
