//@ what the order used to find equal sub-expressions is total for every node kind: zero exactly on the same kind, operator, variable, constants and parts, antisymmetric, transitive; the fast equality agrees on the parts
//@ props C12 C04
//@ replace cmp_integer_list/cmp_il cmp_string_list/cmp_sl bool_expr_cmp/cmp_b
//@ functions expr_cmp compare_expr_cmp equality_expr_cmp bool_expr_cmp set_expr_cmp list_expr_cmp special_expr_cmp is_null_expr_cmp
//@ cbmc --unwind 6 --object-bits 12
//@ assume cmp: floats are not NaN; the order of two boolean expressions is that of their ranks (unit cmp_bool); the order of two lists is that of their ranks (unit cmp_list: a total order, zero exactly on equal lists); strcmp orders patterns totally, zero exactly on equal texts
//@ variant any -DK=99
//@ variant bool -DK=AST_TYPE_BOOL_EXPR
//@ variant is_null -DK=AST_TYPE_IS_NULL_EXPR
//@ variant compare -DK=AST_TYPE_COMPARE_EXPR
//@ variant equality -DK=AST_TYPE_EQUALITY_EXPR
//@ variant set -DK=AST_TYPE_SET_EXPR
//@ variant list -DK=AST_TYPE_LIST_EXPR
//@ variant special -DK=AST_TYPE_SPECIAL_EXPR
#include "spec.h"
static struct betree_integer_list IL[3]; static struct betree_string_list SL[3]; static char PAT[3][2]; static struct ast_node N0, N1, N2; static int64_t RI[3], RS[3], RP[3], RB[3];
#define RANK_I(l) ((l) == &IL[0] ? RI[0] : (l) == &IL[1] ? RI[1] : RI[2])
#define RANK_S(l) ((l) == &SL[0] ? RS[0] : (l) == &SL[1] ? RS[1] : RS[2])
#define RANK_P(p) ((p) == PAT[0] ? RP[0] : (p) == PAT[1] ? RP[1] : RP[2])
#define NP(i) ((i) == 0 ? &N0 : (i) == 1 ? &N1 : &N2)
#define RANK_B(b) ((b) == &N0.bool_expr ? RB[0] : (b) == &N1.bool_expr ? RB[1] : RB[2])
#define SIGN(a, b) ((a) > (b) ? 1 : (a) < (b) ? -1 : 0)
static int model_strcmp(const char* a, const char* b) { int64_t x = RANK_P(a), y = RANK_P(b); int r; ASSUME(x < y ? r < 0 : x > y ? r > 0 : r == 0); ASSUME(r > -0x7fffffff - 1); return r; }
#define strcmp model_strcmp
#include "ast_compare.c"
static int cmp_il(struct betree_integer_list* l1, struct betree_integer_list* l2)
__CPROVER_requires(l1 != NULL && l2 != NULL)
__CPROVER_ensures(__CPROVER_return_value == SIGN(RANK_I(l1), RANK_I(l2))) __CPROVER_assigns();
static int cmp_sl(struct betree_string_list* l1, struct betree_string_list* l2)
__CPROVER_requires(l1 != NULL && l2 != NULL)
__CPROVER_ensures(__CPROVER_return_value == SIGN(RANK_S(l1), RANK_S(l2))) __CPROVER_assigns();

static int cmp_b(struct ast_bool_expr* b1, struct ast_bool_expr* b2)
__CPROVER_requires((b1 == &N0.bool_expr || b1 == &N1.bool_expr || b1 == &N2.bool_expr) && (b2 == &N0.bool_expr || b2 == &N1.bool_expr || b2 == &N2.bool_expr))
__CPROVER_ensures(__CPROVER_return_value == SIGN(RANK_B(b1), RANK_B(b2))) __CPROVER_assigns();

#define F(x) { typeof(x) v_; x = v_; }
#define B(x) { bool v_; x = v_ ? true : false; }
#define D(x) { double v_; ASSUME(v_ == v_); x = v_; }
static void fill(int i)
{
    struct ast_node* n = NP(i); if(K != 99) n->type = K; else { int t; n->type = t; }
    F(n->global_id) F(n->memoize_id)
    switch(n->type) {
        case AST_TYPE_COMPARE_EXPR: { F(n->compare_expr.op) F(n->compare_expr.attr_var.var) int vt; ASSUME(vt >= 0 && vt <= AST_COMPARE_VALUE_FLOAT); n->compare_expr.value.value_type = vt;
            if(vt == AST_COMPARE_VALUE_INTEGER) F(n->compare_expr.value.integer_value) else D(n->compare_expr.value.float_value) break; }
        case AST_TYPE_EQUALITY_EXPR: { F(n->equality_expr.op) F(n->equality_expr.attr_var.var) int vt; ASSUME(vt >= 0 && vt <= AST_EQUALITY_VALUE_INTEGER_ENUM); n->equality_expr.value.value_type = vt;
            if(vt == AST_EQUALITY_VALUE_INTEGER) F(n->equality_expr.value.integer_value) else if(vt == AST_EQUALITY_VALUE_FLOAT) D(n->equality_expr.value.float_value)
            else if(vt == AST_EQUALITY_VALUE_STRING) { F(n->equality_expr.value.string_value.str) n->equality_expr.value.string_value.var = n->equality_expr.attr_var.var; } else { F(n->equality_expr.value.integer_enum_value.ienum) n->equality_expr.value.integer_enum_value.var = n->equality_expr.attr_var.var; } break; }
        case AST_TYPE_BOOL_EXPR: F(n->bool_expr.op) F(n->bool_expr.variable.var) break;
        case AST_TYPE_SET_EXPR: { F(n->set_expr.op) int l, r; ASSUME(l >= 0 && l <= AST_SET_LEFT_VALUE_VARIABLE); ASSUME(r >= 0 && r <= AST_SET_RIGHT_VALUE_VARIABLE); n->set_expr.left_value.value_type = l; n->set_expr.right_value.value_type = r;
            if(l == AST_SET_LEFT_VALUE_INTEGER) F(n->set_expr.left_value.integer_value) else if(l == AST_SET_LEFT_VALUE_STRING) F(n->set_expr.left_value.string_value.str) else F(n->set_expr.left_value.variable_value.var)
            if(r == AST_SET_RIGHT_VALUE_INTEGER_LIST) n->set_expr.right_value.integer_list_value = &IL[i]; else if(r == AST_SET_RIGHT_VALUE_STRING_LIST) n->set_expr.right_value.string_list_value = &SL[i]; else F(n->set_expr.right_value.variable_value.var) break; }
        case AST_TYPE_LIST_EXPR: { F(n->list_expr.op) F(n->list_expr.attr_var.var) int vt; ASSUME(vt >= 0 && vt <= AST_LIST_VALUE_STRING_LIST); n->list_expr.value.value_type = vt;
            if(vt == AST_LIST_VALUE_INTEGER_LIST) n->list_expr.value.integer_list_value = &IL[i]; else n->list_expr.value.string_list_value = &SL[i]; break; }
        case AST_TYPE_SPECIAL_EXPR: { int vt; ASSUME(vt >= 0 && vt <= AST_SPECIAL_STRING); n->special_expr.type = vt;
            if(vt == AST_SPECIAL_FREQUENCY) { F(n->special_expr.frequency.op) F(n->special_expr.frequency.attr_var.var) F(n->special_expr.frequency.type) F(n->special_expr.frequency.ns.str) F(n->special_expr.frequency.value) F(n->special_expr.frequency.length) F(n->special_expr.frequency.id) }
            else if(vt == AST_SPECIAL_SEGMENT) { F(n->special_expr.segment.op) B(n->special_expr.segment.has_variable) F(n->special_expr.segment.attr_var.var) F(n->special_expr.segment.segment_id) F(n->special_expr.segment.seconds) }
            else if(vt == AST_SPECIAL_GEO) { F(n->special_expr.geo.op) B(n->special_expr.geo.has_radius) D(n->special_expr.geo.latitude) D(n->special_expr.geo.longitude) D(n->special_expr.geo.radius) F(n->special_expr.geo.latitude_var.var) F(n->special_expr.geo.longitude_var.var) }
            else { F(n->special_expr.string.op) F(n->special_expr.string.attr_var.var) n->special_expr.string.pattern = PAT[i]; } break; }
        case AST_TYPE_IS_NULL_EXPR: F(n->is_null_expr.type) F(n->is_null_expr.attr_var.var) break;
        default: ASSUME(0);
    }
}
/* the parts of expressions a and b are the same */
#define E(x) (NP(a)->x == NP(b)->x)
static bool same(int a, int b)
{
    if(!E(type)) return false;
    switch(NP(a)->type) {
        case AST_TYPE_COMPARE_EXPR: return E(compare_expr.op) && E(compare_expr.attr_var.var) && E(compare_expr.value.value_type) && (NP(a)->compare_expr.value.value_type == AST_COMPARE_VALUE_INTEGER ? E(compare_expr.value.integer_value) : E(compare_expr.value.float_value));
        case AST_TYPE_EQUALITY_EXPR: { int t = NP(a)->equality_expr.value.value_type; return E(equality_expr.op) && E(equality_expr.attr_var.var) && E(equality_expr.value.value_type) && (t == AST_EQUALITY_VALUE_INTEGER ? E(equality_expr.value.integer_value) : t == AST_EQUALITY_VALUE_FLOAT ? E(equality_expr.value.float_value) : t == AST_EQUALITY_VALUE_STRING ? E(equality_expr.value.string_value.str) : E(equality_expr.value.integer_enum_value.ienum)); }
        case AST_TYPE_BOOL_EXPR: return RB[a] == RB[b];
        case AST_TYPE_SET_EXPR: { int l = NP(a)->set_expr.left_value.value_type, r = NP(a)->set_expr.right_value.value_type; return E(set_expr.op) && E(set_expr.left_value.value_type) && E(set_expr.right_value.value_type)
            && (l == AST_SET_LEFT_VALUE_INTEGER ? E(set_expr.left_value.integer_value) : l == AST_SET_LEFT_VALUE_STRING ? E(set_expr.left_value.string_value.str) : E(set_expr.left_value.variable_value.var))
            && (r == AST_SET_RIGHT_VALUE_INTEGER_LIST ? RI[a] == RI[b] : r == AST_SET_RIGHT_VALUE_STRING_LIST ? RS[a] == RS[b] : E(set_expr.right_value.variable_value.var)); }
        case AST_TYPE_LIST_EXPR: return E(list_expr.op) && E(list_expr.attr_var.var) && E(list_expr.value.value_type) && (NP(a)->list_expr.value.value_type == AST_LIST_VALUE_INTEGER_LIST ? RI[a] == RI[b] : RS[a] == RS[b]);
        case AST_TYPE_SPECIAL_EXPR: { int t = NP(a)->special_expr.type; if(!E(special_expr.type)) return false;
            if(t == AST_SPECIAL_FREQUENCY) return E(special_expr.frequency.op) && E(special_expr.frequency.attr_var.var) && E(special_expr.frequency.type) && E(special_expr.frequency.ns.str) && E(special_expr.frequency.value) && E(special_expr.frequency.length) && E(special_expr.frequency.id);
            if(t == AST_SPECIAL_SEGMENT) return E(special_expr.segment.op) && E(special_expr.segment.has_variable) && E(special_expr.segment.attr_var.var) && E(special_expr.segment.segment_id) && E(special_expr.segment.seconds);
            if(t == AST_SPECIAL_GEO) return E(special_expr.geo.op) && E(special_expr.geo.has_radius) && E(special_expr.geo.latitude) && E(special_expr.geo.longitude) && E(special_expr.geo.radius) && E(special_expr.geo.latitude_var.var) && E(special_expr.geo.longitude_var.var);
            return E(special_expr.string.op) && E(special_expr.string.attr_var.var) && RP[a] == RP[b]; }
        default: return E(is_null_expr.type) && E(is_null_expr.attr_var.var);
    }
}
int main()
{
    { int64_t a, b, c; RI[0] = a; RI[1] = b; RI[2] = c; } { int64_t a, b, c; RS[0] = a; RS[1] = b; RS[2] = c; } { int64_t a, b, c; RP[0] = a; RP[1] = b; RP[2] = c; }
    { int64_t a, b, c; RB[0] = a; RB[1] = b; RB[2] = c; }
    fill(0); fill(1); fill(2);
    int ab = expr_cmp(&N0, &N1), ba = expr_cmp(&N1, &N0), bc = expr_cmp(&N1, &N2), ac = expr_cmp(&N0, &N2), aa = expr_cmp(&N0, &N0);
    ASSERT((ab == 0) == same(0, 1), "zero exactly on expressions with the same parts");
    ASSERT(aa == 0, "an expression is equal to itself");
    ASSERT((ab < 0) == (ba > 0) && (ab == 0) == (ba == 0), "the order is antisymmetric");
    ASSERT(IMPLIES(ab <= 0 && bc <= 0, ac <= 0) && IMPLIES(ab <= 0 && bc <= 0 && (ab < 0 || bc < 0), ac < 0), "the order is transitive");
    REACH();
}
