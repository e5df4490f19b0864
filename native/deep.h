/* Field by field comparison of two expressions that must share no memory. */
#ifndef DEEP_H
#define DEEP_H
#include "common.h"
struct ptrs { const void* p[4096]; size_t n; };
static void pt(struct ptrs* a, const void* p) { if(p && a->n < 4096) a->p[a->n++] = p; }
#define DIFF(...) do { snprintf(why, 200, __VA_ARGS__); return false; } while(0)
#define NUM(x, y, what) do { if((x) != (y)) DIFF("%s differs", what); } while(0)
static bool d_text(const char* x, const char* y, struct ptrs* a, struct ptrs* b, const char* what, char* why)
{
    if(!x || !y) { if(x != y) DIFF("%s is there in one only", what); return true; }
    pt(a, x); pt(b, y); if(strcmp(x, y)) DIFF("%s: \"%s\" and \"%s\"", what, x, y); return true;
}
#define TX(x, y, what) do { if(!d_text(x, y, pa, pb, what, why)) return false; } while(0)
#define AV(x, y) do { TX((x).attr, (y).attr, "variable name"); NUM((x).var, (y).var, "variable id"); } while(0)
#define SV(x, y) do { TX((x).string, (y).string, "string"); NUM((x).str, (y).str, "string id"); NUM((x).var, (y).var, "variable of the string"); } while(0)
static bool d_il(const struct betree_integer_list* x, const struct betree_integer_list* y, struct ptrs* pa, struct ptrs* pb, char* why)
{
    pt(pa, x); pt(pb, y); pt(pa, x->integers); pt(pb, y->integers); NUM(x->count, y->count, "list length");
    for(size_t i = 0; i < x->count; i++) NUM(x->integers[i], y->integers[i], "list value"); return true;
}
static bool d_sl(const struct betree_string_list* x, const struct betree_string_list* y, struct ptrs* pa, struct ptrs* pb, char* why)
{
    pt(pa, x); pt(pb, y); pt(pa, x->strings); pt(pb, y->strings); NUM(x->count, y->count, "list length");
    for(size_t i = 0; i < x->count; i++) SV(x->strings[i], y->strings[i]); return true;
}
static bool deep_eq(const struct ast_node* x, const struct ast_node* y, struct ptrs* pa, struct ptrs* pb, char* why)
{
    pt(pa, x); pt(pb, y);
    NUM(x->type, y->type, "kind"); NUM(x->global_id, y->global_id, "global id"); NUM(x->memoize_id, y->memoize_id, "cache slot");
    switch(x->type) {
        case AST_TYPE_COMPARE_EXPR: { const struct ast_compare_expr *p = &x->compare_expr, *q = &y->compare_expr; NUM(p->op, q->op, "operator"); AV(p->attr_var, q->attr_var); NUM(p->value.value_type, q->value.value_type, "type of constant");
            if(p->value.value_type == AST_COMPARE_VALUE_INTEGER) NUM(p->value.integer_value, q->value.integer_value, "constant"); else NUM(p->value.float_value, q->value.float_value, "constant"); return true; }
        case AST_TYPE_EQUALITY_EXPR: { const struct ast_equality_expr *p = &x->equality_expr, *q = &y->equality_expr; NUM(p->op, q->op, "operator"); AV(p->attr_var, q->attr_var); NUM(p->value.value_type, q->value.value_type, "type of constant");
            switch(p->value.value_type) {
                case AST_EQUALITY_VALUE_INTEGER: NUM(p->value.integer_value, q->value.integer_value, "constant"); break;
                case AST_EQUALITY_VALUE_FLOAT: NUM(p->value.float_value, q->value.float_value, "constant"); break;
                case AST_EQUALITY_VALUE_STRING: SV(p->value.string_value, q->value.string_value); break;
                case AST_EQUALITY_VALUE_INTEGER_ENUM: NUM(p->value.integer_enum_value.integer, q->value.integer_enum_value.integer, "constant"); NUM(p->value.integer_enum_value.ienum, q->value.integer_enum_value.ienum, "id of constant"); NUM(p->value.integer_enum_value.var, q->value.integer_enum_value.var, "variable of constant"); break; }
            return true; }
        case AST_TYPE_BOOL_EXPR: { const struct ast_bool_expr *p = &x->bool_expr, *q = &y->bool_expr; NUM(p->op, q->op, "operator");
            switch(p->op) {
                case AST_BOOL_OR: case AST_BOOL_AND: return deep_eq(p->binary.lhs, q->binary.lhs, pa, pb, why) && deep_eq(p->binary.rhs, q->binary.rhs, pa, pb, why);
                case AST_BOOL_NOT: return deep_eq(p->unary.expr, q->unary.expr, pa, pb, why);
                case AST_BOOL_VARIABLE: AV(p->variable, q->variable); return true;
                case AST_BOOL_LITERAL: NUM(p->literal, q->literal, "literal"); return true; }
            return true; }
        case AST_TYPE_SET_EXPR: { const struct ast_set_expr *p = &x->set_expr, *q = &y->set_expr; NUM(p->op, q->op, "operator"); NUM(p->left_value.value_type, q->left_value.value_type, "type of left side"); NUM(p->right_value.value_type, q->right_value.value_type, "type of right side");
            switch(p->left_value.value_type) { case AST_SET_LEFT_VALUE_INTEGER: NUM(p->left_value.integer_value, q->left_value.integer_value, "constant"); break; case AST_SET_LEFT_VALUE_STRING: SV(p->left_value.string_value, q->left_value.string_value); break; case AST_SET_LEFT_VALUE_VARIABLE: AV(p->left_value.variable_value, q->left_value.variable_value); break; }
            switch(p->right_value.value_type) { case AST_SET_RIGHT_VALUE_INTEGER_LIST: return d_il(p->right_value.integer_list_value, q->right_value.integer_list_value, pa, pb, why); case AST_SET_RIGHT_VALUE_STRING_LIST: return d_sl(p->right_value.string_list_value, q->right_value.string_list_value, pa, pb, why); case AST_SET_RIGHT_VALUE_VARIABLE: AV(p->right_value.variable_value, q->right_value.variable_value); break; }
            return true; }
        case AST_TYPE_LIST_EXPR: { const struct ast_list_expr *p = &x->list_expr, *q = &y->list_expr; NUM(p->op, q->op, "operator"); AV(p->attr_var, q->attr_var); NUM(p->value.value_type, q->value.value_type, "type of list");
            return p->value.value_type == AST_LIST_VALUE_INTEGER_LIST ? d_il(p->value.integer_list_value, q->value.integer_list_value, pa, pb, why) : d_sl(p->value.string_list_value, q->value.string_list_value, pa, pb, why); }
        case AST_TYPE_IS_NULL_EXPR: NUM(x->is_null_expr.type, y->is_null_expr.type, "operator"); AV(x->is_null_expr.attr_var, y->is_null_expr.attr_var); return true;
        case AST_TYPE_SPECIAL_EXPR: { const struct ast_special_expr *p = &x->special_expr, *q = &y->special_expr; NUM(p->type, q->type, "kind of special expression");
            switch(p->type) {
                case AST_SPECIAL_FREQUENCY: NUM(p->frequency.op, q->frequency.op, "operator"); AV(p->frequency.attr_var, q->frequency.attr_var); AV(p->frequency.now, q->frequency.now); NUM(p->frequency.type, q->frequency.type, "type of cap"); SV(p->frequency.ns, q->frequency.ns); NUM(p->frequency.value, q->frequency.value, "limit"); NUM(p->frequency.length, q->frequency.length, "window"); NUM(p->frequency.id, q->frequency.id, "id of cap"); break;
                case AST_SPECIAL_SEGMENT: NUM(p->segment.op, q->segment.op, "operator"); NUM(p->segment.has_variable, q->segment.has_variable, "form"); AV(p->segment.attr_var, q->segment.attr_var); AV(p->segment.now, q->segment.now); NUM(p->segment.segment_id, q->segment.segment_id, "segment"); NUM(p->segment.seconds, q->segment.seconds, "seconds"); break;
                case AST_SPECIAL_GEO: NUM(p->geo.op, q->geo.op, "operator"); NUM(p->geo.has_radius, q->geo.has_radius, "form"); NUM(p->geo.latitude, q->geo.latitude, "latitude"); NUM(p->geo.longitude, q->geo.longitude, "longitude"); NUM(p->geo.radius, q->geo.radius, "radius"); AV(p->geo.latitude_var, q->geo.latitude_var); AV(p->geo.longitude_var, q->geo.longitude_var); break;
                case AST_SPECIAL_STRING: NUM(p->string.op, q->string.op, "operator"); AV(p->string.attr_var, q->string.attr_var); TX(p->string.pattern, q->string.pattern, "pattern"); break; }
            return true; }
    }
    return true;
}
#endif
