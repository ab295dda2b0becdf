/* Contract stubs for the allocator: each call may fail (when vf_may_fail is
 * set) and the number of live blocks is tracked in ghost state vf_live. */
#ifndef VF_HEAP_H
#define VF_HEAP_H
static int vf_may_fail; static long vf_live; static int vf_failed; static unsigned vf_fail_at, vf_alloc_no;
#ifndef FAIL_MAX
#define VF_FAILS ((void)(vf_may_fail = 0))
#define FAIL_CASES 0
#else
#define FAIL_CASES FAIL_MAX   /* one allocation, any of the first FAIL_MAX, fails (or none) */
#define VF_FAILS (vf_may_fail = 1, vf_fail_at = (unsigned)vf_range(1, FAIL_MAX))
#endif
/* the same with the failing allocation a constant (0: none), for VF_CASES(fa, 0, FAIL_CASES) */
#define VF_FAILS_AT(n) (vf_may_fail = (n) != 0, vf_fail_at = (unsigned)(n), vf_alloc_no = 0)
/* A symbolic "fail the n-th allocation" reaches every single-failure schedule */
static int vf_fail_now(void){
    if (!vf_may_fail) return 0;
    vf_alloc_no++;
    if (vf_alloc_no == vf_fail_at) { vf_failed = 1; return 1; }
    return 0;
}
static void *vf_malloc(size_t n){
    if (vf_fail_now()) return NULL;
    void *p = malloc(n ? n : 1); VF_REQUIRE(p != NULL); vf_live++; return p; }
static void *vf_calloc(size_t n, size_t m){
    if (vf_fail_now()) return NULL;
    void *p = calloc(n ? n : 1, m ? m : 1); VF_REQUIRE(p != NULL); vf_live++; return p; }
static void vf_free(void *p){ if (p) vf_live--; free(p); }
static void *vf_realloc(void *p, size_t n){
    if (vf_fail_now()) return NULL;
    void *q = realloc(p, n ? n : 1); VF_REQUIRE(q != NULL); if (!p) vf_live++; return q; }
static char *vf_strdup(const char *s){
    if (vf_fail_now()) return NULL;
    size_t n = strlen(s);
    char *p = malloc(n + 1); VF_REQUIRE(p != NULL); memcpy(p, s, n + 1); vf_live++; return p; }
static char *vf_strndup(const char *s, size_t m){
    if (vf_fail_now()) return NULL;
    size_t n = 0; while (n < m && s[n]) n++;
    char *p = malloc(n + 1); VF_REQUIRE(p != NULL); memcpy(p, s, n); p[n] = 0; vf_live++; return p; }
#define malloc  vf_malloc
#define calloc  vf_calloc
#define free    vf_free
#define realloc vf_realloc
#undef strdup
#define strdup  vf_strdup
#undef strndup
#define strndup vf_strndup
#endif
#ifdef FAIL_MAX
#define VF_REACH_F(n) VF_REACH(n)
#else
#define VF_REACH_F(n) ((void)0)
#endif
