/* the value gets the type of its variable exactly when it has it already, is a whole number for a float or an integer enum, or is an empty list for any list */
#define IS_LIST(t) ((t) == BETREE_INTEGER_LIST || (t) == BETREE_STRING_LIST || (t) == BETREE_SEGMENTS || (t) == BETREE_FREQUENCY_CAPS)
#define CONVERTS(t, o, empty) ((o) == (t) || ((o) == BETREE_INTEGER && ((t) == BETREE_FLOAT || (t) == BETREE_INTEGER_ENUM)) || (IS_LIST(t) && IS_LIST(o) && (empty)))
bool converts(enum betree_value_type_e type, struct value* value)
__CPROVER_requires(value != NULL)
__CPROVER_requires(type >= BETREE_BOOLEAN && type <= BETREE_INTEGER_ENUM && value->value_type >= BETREE_BOOLEAN && value->value_type <= BETREE_INTEGER_ENUM)
__CPROVER_ensures(__CPROVER_return_value == (CONVERTS(type, __CPROVER_old(value->value_type), IS_EMPTY(value)) ? true : false))
__CPROVER_ensures(value->value_type == (__CPROVER_return_value ? type : __CPROVER_old(value->value_type)))
__CPROVER_ensures(IMPLIES(type == BETREE_FLOAT && __CPROVER_old(value->value_type) == BETREE_INTEGER, value->float_value == (double)__CPROVER_old(value->integer_value)))
__CPROVER_assigns(value->value_type)
__CPROVER_assigns(value->value_type == BETREE_INTEGER && type == BETREE_FLOAT: value->float_value);
