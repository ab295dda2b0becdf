/* Contract (executable model) of the cJSON functions the library calls.
 *
 * Verifier mode: nodes are real struct cJSON objects with cJSON's documented
 * ownership and list semantics; every creation may fail when the harness asked
 * for allocation failures; vfj_nodes counts live nodes.  Text is abstract:
 *   cJSON_Print*(tree)  lets the harness inspect the tree (vfj_printed) and
 *                       returns a fresh heap string with arbitrary content;
 *   cJSON_Parse*(text)  returns the tree the harness prepared (vfj_next).
 * Native mode: the real libcjson, its allocator hooked to vf_malloc/vf_free.
 */
#ifndef VF_CJSON_H
#define VF_CJSON_H
#include "vf_heap.h"
#undef malloc
#undef calloc
#undef free
#undef realloc
#undef strdup
#undef strndup
#include <cjson/cJSON.h>
static void vfj_printed(const cJSON *tree);          /* harness */
#ifndef VFJ_SMAX
#define VFJ_SMAX 132                                  /* longest string node, with NUL */
#endif
#ifndef VFJ_KMAX
#define VFJ_KMAX 24
#endif
#ifndef VFJ_PMAX
#define VFJ_PMAX 4                                    /* bytes of the abstract text */
#endif
#ifdef VF_NATIVE
static long vfj_nodes;                                /* folded into vf_live */
static void vfj_init(void){ cJSON_Hooks h = { vf_malloc, vf_free }; cJSON_InitHooks(&h); }
/* prepared tree -> text the code under contract will parse */
static char *vfj_text(cJSON *t){
    int f = vf_may_fail; vf_may_fail = 0;
    char *s = cJSON_PrintUnformatted(t), *r; cJSON_Delete(t);
    r = strdup(s); vf_free(s); vf_may_fail = f; return r; }
static void vfj_done(char *s){ free(s); }
/* text the code under contract produced -> checked by the harness */
static void vfj_check_text(const char *s){
    int f = vf_may_fail; vf_may_fail = 0;
    cJSON *t = cJSON_Parse(s); VF_ENSURE(t != NULL, "output is well-formed JSON");
    vfj_printed(t); cJSON_Delete(t); vf_may_fail = f; }
#define VFJ_LIVE() (vf_live)
#else
struct vfj { cJSON c; char s[VFJ_SMAX]; char k[VFJ_KMAX]; };
static long vfj_nodes; static cJSON *vfj_next; static int vfj_prints; static char *vfj_token;
static void vfj_init(void){}
static char *vfj_text(cJSON *t){ vfj_next = t; static char txt[2] = "{"; return txt; }
static void vfj_done(char *s){ (void)s; }
static void vfj_check_text(const char *s){ VF_ENSURE(vfj_prints == 1 && s == vfj_token, "returned text is the printed tree"); }
#define VFJ_LIVE() (vf_live + vfj_nodes)
static cJSON *vfj_new(int type){
    if (vf_fail_now()) return NULL;
    struct vfj *n = malloc(sizeof *n); VF_REQUIRE(n != NULL);
    n->c.next = n->c.prev = n->c.child = NULL; n->c.type = type; n->c.valuestring = NULL; n->c.valueint = 0;
    n->c.valuedouble = 0; n->c.string = NULL; vfj_nodes++;
    return &n->c; }
static void vfj_setkey(cJSON *c, const char *key){
    struct vfj *n = (struct vfj*)c; size_t i = 0;
    for (; i + 1 < VFJ_KMAX && key[i]; i++) n->k[i] = key[i];
    __CPROVER_assert(key[i] == 0, "MODEL key fits");
    n->k[i] = 0; c->string = n->k; }
cJSON *cJSON_CreateArray(void){ return vfj_new(cJSON_Array); }
cJSON *cJSON_CreateObject(void){ return vfj_new(cJSON_Object); }
cJSON *cJSON_CreateNull(void){ return vfj_new(cJSON_NULL); }
cJSON *cJSON_CreateTrue(void){ return vfj_new(cJSON_True); }
cJSON *cJSON_CreateFalse(void){ return vfj_new(cJSON_False); }
cJSON *cJSON_CreateBool(cJSON_bool b){ return vfj_new(b ? cJSON_True : cJSON_False); }
cJSON *cJSON_CreateNumber(double d){ cJSON *c = vfj_new(cJSON_Number); if (c) { c->valuedouble = d;
#ifndef VFJ_NOINT
    c->valueint = d >= INT_MAX ? INT_MAX : d <= (double)INT_MIN ? INT_MIN : (int)d;
#endif
    } return c; }
cJSON *cJSON_CreateString(const char *s){
    cJSON *c = vfj_new(cJSON_String); if (!c) return NULL;
    struct vfj *n = (struct vfj*)c; size_t i = 0;
#ifdef VF_KNOWNLEN
    size_t len = vf_strlen(s);
    for (; i + 1 < VFJ_SMAX && i < len; i++) n->s[i] = s[i];
    vf_setlen(n->s, len);
#else
    for (; i + 1 < VFJ_SMAX && s[i]; i++) n->s[i] = s[i];
#endif
    __CPROVER_assert(s[i] == 0, "MODEL string fits");
    n->s[i] = 0; c->valuestring = n->s; return c; }
cJSON_bool cJSON_AddItemToArray(cJSON *a, cJSON *i){
    if (!a || !i || a == i) return 0;
    if (!a->child) { a->child = i; i->prev = i; i->next = NULL; }
    else { cJSON *l = a->child->prev; l->next = i; i->prev = l; a->child->prev = i; }
    return 1; }
cJSON_bool cJSON_AddItemToObject(cJSON *o, const char *k, cJSON *i){
    if (!o || !k || !i || o == i) return 0;
    if (vf_fail_now()) return 0;
    vfj_setkey(i, k);
    return cJSON_AddItemToArray(o, i); }
static cJSON *vfj_add(cJSON *o, const char *k, cJSON *i);
void cJSON_Delete(cJSON *c);
static cJSON *vfj_add(cJSON *o, const char *k, cJSON *i){
    if (cJSON_AddItemToObject(o, k, i)) return i;
    cJSON_Delete(i); return NULL; }
cJSON *cJSON_AddStringToObject(cJSON *o, const char *k, const char *s){ return vfj_add(o, k, cJSON_CreateString(s)); }
cJSON *cJSON_AddNumberToObject(cJSON *o, const char *k, const double d){ return vfj_add(o, k, cJSON_CreateNumber(d)); }
cJSON *cJSON_AddBoolToObject(cJSON *o, const char *k, const cJSON_bool b){ return vfj_add(o, k, cJSON_CreateBool(b)); }
cJSON *cJSON_AddTrueToObject(cJSON *o, const char *k){ return vfj_add(o, k, cJSON_CreateTrue()); }
cJSON *cJSON_AddFalseToObject(cJSON *o, const char *k){ return vfj_add(o, k, cJSON_CreateFalse()); }
cJSON *cJSON_AddArrayToObject(cJSON *o, const char *k){ return vfj_add(o, k, cJSON_CreateArray()); }
cJSON *cJSON_AddObjectToObject(cJSON *o, const char *k){ return vfj_add(o, k, cJSON_CreateObject()); }
/* trees are at most four levels deep here; deeper ones are outside the model */
#define VFJ_DEL(name, sub) static void name(cJSON *c){ while (c) { cJSON *n = c->next; if (c->child) sub(c->child); vfj_nodes--; free(c); c = n; } }
static void vfj_del9(cJSON *c){ (void)c; __CPROVER_assert(0, "MODEL tree depth"); }
VFJ_DEL(vfj_del3, vfj_del9)
VFJ_DEL(vfj_del2, vfj_del3)
VFJ_DEL(vfj_del1, vfj_del2)
void cJSON_Delete(cJSON *c){ if (!c) return; if (c->child) vfj_del1(c->child); vfj_nodes--; free(c); }
static int vfj_tolower(char c){ return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int vfj_keyeq(const char *a, const char *b, int cs){
    size_t i = 0;
    for (; i < VFJ_KMAX; i++) {
        if (cs ? a[i] != b[i] : vfj_tolower(a[i]) != vfj_tolower(b[i])) return 0;
        if (!a[i]) return 1; }
    return 0; }
static cJSON *vfj_get(const cJSON *o, const char *k, int cs){
    if (!o || !k) return NULL;
    cJSON *c = o->child;
    while (c) { if (c->string && vfj_keyeq(c->string, k, cs)) return c; c = c->next; }
    return NULL; }
cJSON *cJSON_GetObjectItem(const cJSON *o, const char *k){ return vfj_get(o, k, 0); }
cJSON *cJSON_GetObjectItemCaseSensitive(const cJSON *o, const char *k){ return vfj_get(o, k, 1); }
cJSON_bool cJSON_HasObjectItem(const cJSON *o, const char *k){ return vfj_get(o, k, 0) != NULL; }
int cJSON_GetArraySize(const cJSON *a){ int n = 0; if (!a) return 0; for (cJSON *c = a->child; c; c = c->next) n++; return n; }
cJSON *cJSON_GetArrayItem(const cJSON *a, int i){
    if (!a || i < 0) return NULL;
    cJSON *c = a->child;
    while (c && i > 0) { c = c->next; i--; }
    return c; }
#define VFJ_IS(name, t) cJSON_bool name(const cJSON *c){ return c && (c->type & 0xff) == (t); }
VFJ_IS(cJSON_IsString, cJSON_String) VFJ_IS(cJSON_IsNumber, cJSON_Number) VFJ_IS(cJSON_IsArray, cJSON_Array)
VFJ_IS(cJSON_IsObject, cJSON_Object) VFJ_IS(cJSON_IsTrue, cJSON_True) VFJ_IS(cJSON_IsFalse, cJSON_False) VFJ_IS(cJSON_IsNull, cJSON_NULL)
cJSON_bool cJSON_IsBool(const cJSON *c){ return c && (c->type & (cJSON_True | cJSON_False)) != 0; }
char *cJSON_GetStringValue(const cJSON *c){ return cJSON_IsString(c) ? c->valuestring : NULL; }
double cJSON_GetNumberValue(const cJSON *c){ return cJSON_IsNumber(c) ? c->valuedouble : 0.0/0.0; }
static cJSON *vfj_parse(void){ if (vf_fail_now() || !vfj_next) return NULL; cJSON *t = vfj_next; vfj_next = NULL; return t; }
cJSON *cJSON_Parse(const char *s){ (void)s; return vfj_parse(); }
#ifdef VFJ_PARSE_LEN
static void VFJ_PARSE_LEN(const char *s, size_t n);
#else
#define VFJ_PARSE_LEN(s, n) ((void)0)
#endif
cJSON *cJSON_ParseWithLength(const char *s, size_t n){ VFJ_PARSE_LEN(s, n); (void)s; (void)n; return vfj_parse(); }
static char *vfj_print(const cJSON *t){
    if (!t || vf_fail_now()) return NULL;
    vfj_prints++; vfj_printed(t);
    char *p = vf_malloc(VFJ_PMAX); if (!p) return NULL;
    for (size_t i = 0; i + 1 < VFJ_PMAX; i++)
#ifdef VFJ_PCONST
        p[i] = (char)('a' + (vfj_prints + i) % 26);
#else
        p[i] = nondet_vf_char();
#endif
    p[VFJ_PMAX - 1] = 0; vfj_token = p;
    return p; }
char *cJSON_Print(const cJSON *t){ return vfj_print(t); }
char *cJSON_PrintUnformatted(const cJSON *t){ return vfj_print(t); }
void cJSON_free(void *p){ vf_free(p); }
void *cJSON_malloc(size_t n){ return vf_malloc(n); }
#endif
#define malloc  vf_malloc
#define calloc  vf_calloc
#define free    vf_free
#define realloc vf_realloc
#define strdup  vf_strdup
#define strndup vf_strndup
#endif
