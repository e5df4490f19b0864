//@ what the clone of every node kind has the same kind, operator, variables, constants and ids, its texts, lists and operands are copies of those of the original in memory of their own, by structural induction
//@ props C10
//@ enforce_rec clone_node
//@ replace clone_integer_list/clone_il clone_string_list/clone_sl
//@ functions clone_attr_var clone_compare_value clone_compare clone_string_value clone_equality_value clone_equality clone_bool clone_set_left_value clone_set_right_value clone_set clone_list_value clone_list clone_special clone_is_null ast_node_create
//@ cbmc --unwind 6 --object-bits 12
//@ assume cloning: bstrdup makes a fresh copy of the text (unit dup); lists are copied as unit clone_list proves; memory does not run out
//@ variant compare -DK=AST_TYPE_COMPARE_EXPR
//@ variant equality -DK=AST_TYPE_EQUALITY_EXPR
//@ variant binary -DK=AST_TYPE_BOOL_EXPR -DG=1
//@ variant not -DK=AST_TYPE_BOOL_EXPR -DG=2
//@ variant leaf -DK=AST_TYPE_BOOL_EXPR -DG=3
//@ variant set -DK=AST_TYPE_SET_EXPR
//@ variant list -DK=AST_TYPE_LIST_EXPR
//@ variant frequency -DK=AST_TYPE_SPECIAL_EXPR -DG=AST_SPECIAL_FREQUENCY
//@ variant segment -DK=AST_TYPE_SPECIAL_EXPR -DG=AST_SPECIAL_SEGMENT
//@ variant geo -DK=AST_TYPE_SPECIAL_EXPR -DG=AST_SPECIAL_GEO
//@ variant string -DK=AST_TYPE_SPECIAL_EXPR -DG=AST_SPECIAL_STRING
//@ variant is_null -DK=AST_TYPE_IS_NULL_EXPR
#include "spec.h"
#include "clone.h"
static struct ast_node N, L, R, CL, CR; static struct betree_integer_list IL, CIL; static struct betree_string_list SL, CSL; static char T0[2], T1[2], T2[2], T3[2];
static char *D0, *D1, *D2, *D3;
/* the copy of each text of the node is known by name */
char* bstrdup(const char* s)
{
    char* d = malloc(2);
    if(s == T0) { ASSERT(D0 == NULL, "a text is copied once"); D0 = d; } else if(s == T1) D1 = d; else if(s == T2) D2 = d; else { ASSERT(s == T3, "only the texts of the original are copied"); D3 = d; }
    return d;
}
struct ast_node* clone_node(const struct ast_node* node)
__CPROVER_requires(node == &N || node == &L || node == &R)
__CPROVER_ensures(IMPLIES(node == &L, __CPROVER_return_value == &CL) && IMPLIES(node == &R, __CPROVER_return_value == &CR))
__CPROVER_assigns(D0, D1, D2, D3);
#include "clone.c"
static struct betree_integer_list* clone_il(struct betree_integer_list* list)
__CPROVER_requires(list == &IL)
__CPROVER_ensures(__CPROVER_return_value == &CIL) __CPROVER_assigns();
static struct betree_string_list* clone_sl(struct betree_string_list* list)
__CPROVER_requires(list == &SL)
__CPROVER_ensures(__CPROVER_return_value == &CSL) __CPROVER_assigns();
#include "ast.c"
#define F(x) { typeof(x) v_; x = v_; }
#define B(x) { bool v_; x = v_ ? true : false; }
#define DBL(x) { double v_; ASSUME(v_ == v_); x = v_; }
#define AV(x, t) { typeof(x.var) v_; x.var = v_; x.attr = t; }
#define E(x) ASSERT(N.x == r->x, "the clone has the same " #x)
#define T(x, t, d) { const char *p_ = r->x; ASSERT(p_ == d && d != NULL, "the text is a copy"); }
#define EAV(x, t, d) { E(x.var); T(x.attr, t, d) }
int main()
{
    N.type = K; F(N.global_id) F(N.memoize_id) D0 = D1 = D2 = D3 = NULL;
#if !defined(G)
#define G -1
#endif
    switch(K) {
        case AST_TYPE_COMPARE_EXPR: { F(N.compare_expr.op) AV(N.compare_expr.attr_var, T0) int vt; ASSUME(vt >= 0 && vt <= AST_COMPARE_VALUE_FLOAT); N.compare_expr.value.value_type = vt;
            if(vt == AST_COMPARE_VALUE_INTEGER) F(N.compare_expr.value.integer_value) else DBL(N.compare_expr.value.float_value) break; }
        case AST_TYPE_EQUALITY_EXPR: { F(N.equality_expr.op) AV(N.equality_expr.attr_var, T0) int vt; ASSUME(vt >= 0 && vt <= AST_EQUALITY_VALUE_INTEGER_ENUM); N.equality_expr.value.value_type = vt;
            if(vt == AST_EQUALITY_VALUE_INTEGER) F(N.equality_expr.value.integer_value) else if(vt == AST_EQUALITY_VALUE_FLOAT) DBL(N.equality_expr.value.float_value)
            else if(vt == AST_EQUALITY_VALUE_STRING) { F(N.equality_expr.value.string_value.str) F(N.equality_expr.value.string_value.var) N.equality_expr.value.string_value.string = T1; }
            else { F(N.equality_expr.value.integer_enum_value.ienum) F(N.equality_expr.value.integer_enum_value.var) F(N.equality_expr.value.integer_enum_value.integer) } break; }
        case AST_TYPE_BOOL_EXPR: { int o; ASSUME(G == 1 ? o == AST_BOOL_OR || o == AST_BOOL_AND : G == 2 ? o == AST_BOOL_NOT : o == AST_BOOL_VARIABLE || o == AST_BOOL_LITERAL); N.bool_expr.op = o;
            if(G == 1) { N.bool_expr.binary.lhs = &L; N.bool_expr.binary.rhs = &R; } else if(G == 2) N.bool_expr.unary.expr = &L; else { AV(N.bool_expr.variable, T0) if(o == AST_BOOL_LITERAL) B(N.bool_expr.literal) } break; }
        case AST_TYPE_SET_EXPR: { F(N.set_expr.op) int l, r; ASSUME(l >= 0 && l <= AST_SET_LEFT_VALUE_VARIABLE); ASSUME(r >= 0 && r <= AST_SET_RIGHT_VALUE_VARIABLE); N.set_expr.left_value.value_type = l; N.set_expr.right_value.value_type = r;
            if(l == AST_SET_LEFT_VALUE_INTEGER) F(N.set_expr.left_value.integer_value) else if(l == AST_SET_LEFT_VALUE_STRING) { F(N.set_expr.left_value.string_value.str) F(N.set_expr.left_value.string_value.var) N.set_expr.left_value.string_value.string = T0; } else AV(N.set_expr.left_value.variable_value, T0)
            if(r == AST_SET_RIGHT_VALUE_INTEGER_LIST) N.set_expr.right_value.integer_list_value = &IL; else if(r == AST_SET_RIGHT_VALUE_STRING_LIST) N.set_expr.right_value.string_list_value = &SL; else AV(N.set_expr.right_value.variable_value, T1) break; }
        case AST_TYPE_LIST_EXPR: { F(N.list_expr.op) AV(N.list_expr.attr_var, T0) int vt; ASSUME(vt >= 0 && vt <= AST_LIST_VALUE_STRING_LIST); N.list_expr.value.value_type = vt;
            if(vt == AST_LIST_VALUE_INTEGER_LIST) N.list_expr.value.integer_list_value = &IL; else N.list_expr.value.string_list_value = &SL; break; }
        case AST_TYPE_SPECIAL_EXPR: { N.special_expr.type = G;
            if(G == AST_SPECIAL_FREQUENCY) { F(N.special_expr.frequency.op) AV(N.special_expr.frequency.attr_var, T0) AV(N.special_expr.frequency.now, T1) F(N.special_expr.frequency.type) F(N.special_expr.frequency.ns.str) F(N.special_expr.frequency.ns.var) N.special_expr.frequency.ns.string = T2; F(N.special_expr.frequency.value) F(N.special_expr.frequency.length) F(N.special_expr.frequency.id) }
            else if(G == AST_SPECIAL_SEGMENT) { F(N.special_expr.segment.op) B(N.special_expr.segment.has_variable) AV(N.special_expr.segment.attr_var, T0) AV(N.special_expr.segment.now, T1) F(N.special_expr.segment.segment_id) F(N.special_expr.segment.seconds) }
            else if(G == AST_SPECIAL_GEO) { F(N.special_expr.geo.op) B(N.special_expr.geo.has_radius) DBL(N.special_expr.geo.latitude) DBL(N.special_expr.geo.longitude) DBL(N.special_expr.geo.radius) AV(N.special_expr.geo.latitude_var, T0) AV(N.special_expr.geo.longitude_var, T1) }
            else { F(N.special_expr.string.op) AV(N.special_expr.string.attr_var, T0) N.special_expr.string.pattern = T1; } break; }
        case AST_TYPE_IS_NULL_EXPR: F(N.is_null_expr.type) AV(N.is_null_expr.attr_var, T0) break;
    }
    struct ast_node* r = clone_node(&N);
    ASSERT(r != NULL && r != &N && r != &L && r != &R && r != &CL && r != &CR, "the clone is an object of its own");
    E(type); E(global_id); E(memoize_id);
    switch(K) {
        case AST_TYPE_COMPARE_EXPR: E(compare_expr.op); EAV(compare_expr.attr_var, T0, D0) E(compare_expr.value.value_type); if(N.compare_expr.value.value_type == AST_COMPARE_VALUE_INTEGER) E(compare_expr.value.integer_value); else E(compare_expr.value.float_value); break;
        case AST_TYPE_EQUALITY_EXPR: { int t = N.equality_expr.value.value_type; E(equality_expr.op); EAV(equality_expr.attr_var, T0, D0) E(equality_expr.value.value_type);
            if(t == AST_EQUALITY_VALUE_INTEGER) E(equality_expr.value.integer_value); else if(t == AST_EQUALITY_VALUE_FLOAT) E(equality_expr.value.float_value);
            else if(t == AST_EQUALITY_VALUE_STRING) { E(equality_expr.value.string_value.str); E(equality_expr.value.string_value.var); T(equality_expr.value.string_value.string, T1, D1) }
            else { E(equality_expr.value.integer_enum_value.ienum); E(equality_expr.value.integer_enum_value.var); E(equality_expr.value.integer_enum_value.integer); } break; }
        case AST_TYPE_BOOL_EXPR: { int o = N.bool_expr.op; E(bool_expr.op);
            if(G == 1) ASSERT(r->bool_expr.binary.lhs == &CL && r->bool_expr.binary.rhs == &CR, "the operands are the clones of the operands"); else if(G == 2) ASSERT(r->bool_expr.unary.expr == &CL, "the operand is the clone of the operand");
            else if(o == AST_BOOL_LITERAL) E(bool_expr.literal); else EAV(bool_expr.variable, T0, D0) break; }
        case AST_TYPE_SET_EXPR: { int lt = N.set_expr.left_value.value_type, rt = N.set_expr.right_value.value_type; E(set_expr.op); E(set_expr.left_value.value_type); E(set_expr.right_value.value_type);
            if(lt == AST_SET_LEFT_VALUE_INTEGER) E(set_expr.left_value.integer_value); else if(lt == AST_SET_LEFT_VALUE_STRING) { E(set_expr.left_value.string_value.str); E(set_expr.left_value.string_value.var); T(set_expr.left_value.string_value.string, T0, D0) } else EAV(set_expr.left_value.variable_value, T0, D0)
            if(rt == AST_SET_RIGHT_VALUE_INTEGER_LIST) ASSERT(r->set_expr.right_value.integer_list_value == &CIL, "the list is a copy"); else if(rt == AST_SET_RIGHT_VALUE_STRING_LIST) ASSERT(r->set_expr.right_value.string_list_value == &CSL, "the list is a copy"); else EAV(set_expr.right_value.variable_value, T1, D1) break; }
        case AST_TYPE_LIST_EXPR: E(list_expr.op); EAV(list_expr.attr_var, T0, D0) E(list_expr.value.value_type);
            if(N.list_expr.value.value_type == AST_LIST_VALUE_INTEGER_LIST) ASSERT(r->list_expr.value.integer_list_value == &CIL, "the list is a copy"); else ASSERT(r->list_expr.value.string_list_value == &CSL, "the list is a copy"); break;
        case AST_TYPE_SPECIAL_EXPR: E(special_expr.type);
            if(G == AST_SPECIAL_FREQUENCY) { E(special_expr.frequency.op); EAV(special_expr.frequency.attr_var, T0, D0) EAV(special_expr.frequency.now, T1, D1) E(special_expr.frequency.type); E(special_expr.frequency.ns.str); E(special_expr.frequency.ns.var); T(special_expr.frequency.ns.string, T2, D2) E(special_expr.frequency.value); E(special_expr.frequency.length); E(special_expr.frequency.id); }
            else if(G == AST_SPECIAL_SEGMENT) { E(special_expr.segment.op); E(special_expr.segment.has_variable); EAV(special_expr.segment.attr_var, T0, D0) EAV(special_expr.segment.now, T1, D1) E(special_expr.segment.segment_id); E(special_expr.segment.seconds); }
            else if(G == AST_SPECIAL_GEO) { E(special_expr.geo.op); E(special_expr.geo.has_radius); E(special_expr.geo.latitude); E(special_expr.geo.longitude); E(special_expr.geo.radius); EAV(special_expr.geo.latitude_var, T0, D0) EAV(special_expr.geo.longitude_var, T1, D1) }
            else { E(special_expr.string.op); EAV(special_expr.string.attr_var, T0, D0) T(special_expr.string.pattern, T1, D1) } break;
        case AST_TYPE_IS_NULL_EXPR: E(is_null_expr.type); EAV(is_null_expr.attr_var, T0, D0) break;
    }
    REACH();
}
