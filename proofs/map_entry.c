//@ what a new entry of a map holds its key whole, its hash and its value, each in a place of its own within the memory asked for, the value aligned, for a key of any length; the hash reads a key up to its end and no further, and always ends
//@ props C13 C08
//@ functions map_newnode map_hash
//@ cut map.c (?<!static unsigned )\bmap_hash\( => hash_of(
//@ rewrite map.c \*str\+\+ => CHAR(str++)
//@ rewrite map.c while \(\*str\) => while (CHAR(str))
//@ loop map.c map_hash 1/1 : __CPROVER_assigns(str, hash) __CPROVER_loop_invariant(__CPROVER_POINTER_OBJECT(str) == __CPROVER_POINTER_OBJECT(KEY) && __CPROVER_POINTER_OFFSET(str) <= LEN) __CPROVER_decreases(LEN - __CPROVER_POINTER_OFFSET(str))
//@ cbmc --unwind 8 --object-bits 9
//@ bounded --unwind 10 --unwinding-assertions --bounds-check --pointer-check --object-bits 9
//@ assume map_entry: CHAR gives the characters of a key of any length and content; a key has fewer than 2^30 characters and a value fewer than 2^30 bytes; memcpy, strlen and the memory given are modelled by what they are asked for; that equal keys get equal hashes is shown for keys of up to four characters (variant same of unit hash_map)
//@ assume map_entry: the bounded stand-in, used when the proof is not accepted: keys of up to four characters
//@ variant entry -DW=0
//@ variant hash -DW=1
#include "spec.h"
#include "alloc.h"
#include "map.h"
unsigned hash_of(const char* k);
#ifdef BOUNDED
#include "map.c"
unsigned hash_of(const char* k) { return map_hash(k); }
int main()
{
    char k9[5], c0, c1, c2, c3; k9[0] = c0; k9[1] = c1; k9[2] = c2; k9[3] = c3; k9[4] = 0; size_t len = strlen(k9); uint64_t big;
#if W == 0
    map_node_t* e = map_newnode(k9, &big, sizeof big);
    ASSERT(__CPROVER_POINTER_OFFSET(e->value) % 8 == 0 && __CPROVER_POINTER_OFFSET(e->value) > sizeof(*e) + len, "the value has a place of its own, aligned");
    ASSERT(*(uint64_t*)e->value == big && strcmp((char*)(e + 1), k9) == 0 && e->hash == map_hash(k9), "the entry has the key, its hash and the value");
#else
    char o[8]; for(int i = 0; i < 8; i++) { char c; o[i] = c; } for(int i = 0; i < 5; i++) if(i <= len) o[i] = k9[i];
    ASSERT(map_hash(k9) == map_hash(o), "equal keys get equal hashes");
#endif
    REACH();
}
#else
static char KEY[1]; static size_t LEN, SIZE, K_AT, V_AT; static bool K_IN, V_IN; static unsigned H; static char VAL[1]; static int VN;
static char character(const char* p);
#define CHAR(p) character(p)
void* malloc_model(size_t n); void* copy_model(void* to, const void* from, size_t n); size_t length_model(const char* s);
#undef bmalloc
#define bmalloc malloc_model
#define memcpy copy_model
#define strlen length_model
#include "map.c"
static map_node_t MEM;
static char character(const char* p)
{
    ASSERT(__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(KEY) && __CPROVER_POINTER_OFFSET(p) <= LEN, "the key is read up to its end");
    char c; ASSUME(c != 0); return __CPROVER_POINTER_OFFSET(p) == LEN ? 0 : c;
}
unsigned hash_of(const char* k) { ASSERT(k == KEY, "the hash is that of the key"); return H; }
void* malloc_model(size_t n) { SIZE = n; return &MEM; }
size_t length_model(const char* s) { ASSERT(s == KEY, "the length is that of the key"); return LEN; }
void* copy_model(void* to, const void* from, size_t n)
{
    size_t at = __CPROVER_POINTER_OFFSET(to); ASSERT(__CPROVER_POINTER_OBJECT(to) == __CPROVER_POINTER_OBJECT(&MEM) && at >= sizeof(MEM) && at <= SIZE && n <= SIZE - at, "what is copied stays within the memory asked for");
    if(from == KEY) { ASSERT(n == LEN + 1 && at == sizeof(MEM), "the key is copied whole to its place"); K_IN = true; K_AT = at; }
    else { ASSERT(from == VAL && n == VN, "the value is copied whole"); V_IN = true; V_AT = at; }
    return to;
}
int main()
{
    size_t len; ASSUME(len < (1u << 30)); LEN = len; unsigned h; H = h; int vn; ASSUME(vn > 0 && vn < (1 << 30)); VN = vn; SIZE = K_AT = V_AT = 0; K_IN = V_IN = false;
#if W == 0
    map_node_t* e = map_newnode(KEY, VAL, vn);
    ASSERT(e == &MEM && e->hash == h && K_IN && V_IN, "the entry has the hash, the key and the value");
    ASSERT(__CPROVER_POINTER_OBJECT(e->value) == __CPROVER_POINTER_OBJECT(&MEM) && __CPROVER_POINTER_OFFSET(e->value) == V_AT, "its value is where it was copied");
    ASSERT(V_AT % sizeof(void*) == 0 && V_AT >= K_AT + LEN + 1, "the value has a place of its own, aligned");
#else
    map_hash(KEY);
#endif
    REACH();
}
#endif
