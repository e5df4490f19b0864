//@ what every frequency cap of an expression gets the constant of its kind as its id, nothing else changes, and the expression is refused exactly when the constant of one of its caps is missing, by structural induction
//@ props C14
//@ enforce_rec assign_constants/bound
//@ replace get_integer_constant/lookup
//@ functions get_constant_name_for_type
//@ cbmc --unwind 20
//@ assume constants: get_integer_constant finds the first constant of that name, if it is an integer (unit constant_lookup)
#include "spec.h"
#include "ast.c"
/* N, its children; OKx: the constants of all caps below are given; DONEx: the caps below have their ids.  KIND: what the caps of type t are called */
static struct ast_node N, L, R; static bool OKN, OKL, OKR, DL, DR; static bool HAVE[5]; static int64_t VAL[5];
#define KIND(t) (((t) - FREQUENCY_TYPE_ADVERTISER) / 2)
#define NAMED(s) ((s)[0] == 'a' ? 0 : (s)[0] == 'f' ? 3 : (s)[0] == 'p' ? 4 : (s)[8] == '_' && (s)[9] == 'g' ? 2 : 1)
#define IS_CAP(n) ((n)->type == AST_TYPE_SPECIAL_EXPR && (n)->special_expr.type == AST_SPECIAL_FREQUENCY)
#define OK(n) ((n) == &N ? OKN : (n) == &L ? OKL : OKR)
#define BELOW(o) (o.type == AST_TYPE_BOOL_EXPR ? IMPLIES(o.bool_expr.op == AST_BOOL_NOT, DL) && IMPLIES(o.bool_expr.op == AST_BOOL_AND || o.bool_expr.op == AST_BOOL_OR, DL && DR) : IMPLIES(IS_CAP(&o), o.special_expr.frequency.id == (uint32_t)VAL[KIND(o.special_expr.frequency.type)]))
bool lookup(const char* name, size_t count, const struct betree_constant** constants, int64_t* ret)
__CPROVER_requires(name != NULL)
__CPROVER_ensures(__CPROVER_return_value == HAVE[NAMED(name)] && IMPLIES(HAVE[NAMED(name)], *ret == VAL[NAMED(name)]))
__CPROVER_assigns(*ret);
bool bound(size_t constant_count, const struct betree_constant** constants, struct ast_node* node)
__CPROVER_requires(node == &N || node == &L || node == &R)
__CPROVER_ensures(__CPROVER_return_value == OK(node))
__CPROVER_ensures(IMPLIES(OK(node), node == &N ? BELOW(N) : node == &L ? DL : DR))
__CPROVER_ensures(IMPLIES(node == &L, DR == __CPROVER_old(DR)) && IMPLIES(node == &R, DL == __CPROVER_old(DL)))
__CPROVER_assigns(DL, DR) __CPROVER_assigns(node == &N && IS_CAP(node): node->special_expr.frequency.id);
static bool any(void) { bool b; return b ? true : false; }
static bool same(const char* a, const char* b) { size_t i = 0; for(; i < 18 && a[i]; i++) if(a[i] != b[i]) return false; return b[i] == 0; }
int main()
{
    const char* names[5] = { "advertiser_id", "campaign_id", "campaign_group_id", "flight_id", "product_id" };
    OKL = any(); OKR = any(); DL = false; DR = false; for(int i = 0; i < 5; i++) { HAVE[i] = any(); int64_t v; VAL[i] = v; }
    enum ast_node_type_e k; ASSUME(k == AST_TYPE_COMPARE_EXPR || k == AST_TYPE_EQUALITY_EXPR || k == AST_TYPE_BOOL_EXPR || k == AST_TYPE_SET_EXPR || k == AST_TYPE_LIST_EXPR || k == AST_TYPE_SPECIAL_EXPR || k == AST_TYPE_IS_NULL_EXPR);
    struct ast_node n0; N = n0; N.type = k; OKN = true; enum frequency_type_e t;
    if(k == AST_TYPE_BOOL_EXPR) {
        enum ast_bool_e op; ASSUME(op == AST_BOOL_OR || op == AST_BOOL_AND || op == AST_BOOL_NOT || op == AST_BOOL_VARIABLE || op == AST_BOOL_LITERAL); N.bool_expr.op = op;
        if(op == AST_BOOL_NOT) { N.bool_expr.unary.expr = &L; OKN = OKL; }
        if(op == AST_BOOL_AND || op == AST_BOOL_OR) { N.bool_expr.binary.lhs = &L; N.bool_expr.binary.rhs = &R; OKN = OKL && OKR; }
    }
    if(k == AST_TYPE_SPECIAL_EXPR) {
        enum ast_special_e s; ASSUME(s == AST_SPECIAL_FREQUENCY || s == AST_SPECIAL_SEGMENT || s == AST_SPECIAL_GEO || s == AST_SPECIAL_STRING); N.special_expr.type = s;
        if(s == AST_SPECIAL_FREQUENCY) {
            ASSUME(t >= FREQUENCY_TYPE_INVALID && t <= FREQUENCY_TYPE_PRODUCTIP); N.special_expr.frequency.type = t; OKN = t != FREQUENCY_TYPE_INVALID && HAVE[KIND(t)];
            const char* name = get_constant_name_for_type(t);
            if(t == FREQUENCY_TYPE_INVALID) ASSERT(name == NULL, "there is no constant for an unknown kind of cap"); else ASSERT(name != NULL && same(name, names[KIND(t)]), "the name of the constant of a kind of cap");
        }
    }
    const struct betree_constant** cs; size_t cc; struct ast_node before = N;
    bool r = assign_constants(cc, cs, &N);
    ASSERT(r == OKN, "refused exactly when a constant is missing");
    if(r) ASSERT(BELOW(N), "every cap has the constant of its kind");
    if(k == AST_TYPE_SPECIAL_EXPR && N.special_expr.type == AST_SPECIAL_FREQUENCY) ASSERT(N.special_expr.frequency.value == before.special_expr.frequency.value && N.special_expr.frequency.length == before.special_expr.frequency.length && N.special_expr.frequency.type == t && N.special_expr.frequency.ns.str == before.special_expr.frequency.ns.str && N.global_id == before.global_id, "nothing else of the cap changes");
    REACH();
}
