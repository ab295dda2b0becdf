/* contracts of relay_filter.c */
#include "vf.h"
#include "vf_libc.h"
#include "vf_heap.h"
#define VFJ_KMAX 8
#include "vf_cjson.h"
#include <nostr.h>
#include "nostr_relay_protocol.h"
#ifndef VF_NATIVE
#undef isalpha
#define isalpha(c) (((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z'))
#endif
static void vfj_printed(const cJSON *t){ (void)t; }
static nostr_event ev; static char idhex[65], pkhex[65];
#if defined T_MATCH || defined T_CLONE || defined T_PARSE || defined T_ANY
/* contract of nostr_bytes_to_hex (C01) on the two fields it is used for */
void nostr_bytes_to_hex(const uint8_t *p, size_t n, char *o){
    VF_ENSURE((p == ev.id || p == ev.pubkey.data) && n == 32, "hex of the event's id or pubkey");
    for (int i = 0; i <= 64; i++) o[i] = p == ev.id ? idhex[i] : pkhex[i]; }
bool nostr_validate_hex_prefix(const char *p){ (void)p; return false; }
bool nostr_validate_hex64(const char *p){ (void)p; return false; }
#else
/* contracts of the validators (C01), used for the caller nostr_filter_validate */
static const char *g_vp[12]; static int g_v64[12], g_vpre[12]; static int g_vn;
static int flag(const char *p, const int *t){ for (int i = 0; i < g_vn; i++) if (g_vp[i] == p) return t[i]; VF_ENSURE(0, "only the filter's strings are validated"); return 0; }
bool nostr_validate_hex_prefix(const char *p){ return flag(p, g_vpre); }
bool nostr_validate_hex64(const char *p){ return flag(p, g_v64); }
void nostr_bytes_to_hex(const uint8_t *p, size_t n, char *o){ (void)p; (void)n; o[0] = 0; }
#endif
#include "src/relay_filter.c"
#ifdef VF_NATIVE
#define vf_kn_reset() ((void)0)
#else
#define vf_kn_reset() (vf_kn = 0)
#endif
static nostr_filter_t f, f2;
static void common(void){ vf_kn_reset(); vfj_init(); vf_may_fail = 0; vf_live = 0; vf_failed = 0; vf_alloc_no = 0; memset(&f, 0, sizeof f); memset(&f2, 0, sizeof f2); }
static int spec_prefix(const char *hex, const char *p){ size_t i = 0; while (p[i] && i < 64 && hex[i] == p[i]) i++; return p[i] == 0; }

#if defined T_MATCH
static char *ids[3], *aus[3]; static int32_t kinds[3];
static nostr_tag tg[4]; static char *tv[4][3]; static char *ev_[3], *pv[3], *gv[2][3]; static nostr_generic_tag_filter_t gen[2];
static char *pre(const char *near, size_t max){
#ifdef VF_NATIVE
    if (vf_bool()) { char *s = vf_tmp(70); size_t l = vf_range(0, 64); memcpy(s, near, l); s[l] = 0; if (l && vf_bool()) s[vf_range(0, l - 1)] ^= 1; return s; }
#else
    (void)near;
#endif
    return vf_str(max); }
static char *tagname(void){
#ifdef VF_NATIVE
    if (vf_bool()) return vf_bool() ? "e" : vf_bool() ? "p" : "t";
#endif
    return vf_str(2); }
static void mk_event(void){
    memset(&ev, 0, sizeof ev);
#ifdef SYMHEX
    for (int i = 0; i < 64; i++) {
#ifdef VF_NATIVE
        idhex[i] = "0123456789abcdef"[vf_range(0,15)]; pkhex[i] = "0123456789abcdef"[vf_range(0,15)];
#else
        idhex[i] = vf_char(); VF_REQUIRE(sp_islowhex(idhex[i])); pkhex[i] = vf_char(); VF_REQUIRE(sp_islowhex(pkhex[i]));
#endif
    }
#else
    memset(idhex, 'a', 64); memset(pkhex, 'b', 64);
#endif
    idhex[64] = pkhex[64] = 0;
    for (int i = 0; i < 32; i++) { ev.id[i] = (uint8_t)(sp_hexval(idhex[2*i]) * 16 + sp_hexval(idhex[2*i+1])); ev.pubkey.data[i] = (uint8_t)(sp_hexval(pkhex[2*i]) * 16 + sp_hexval(pkhex[2*i+1])); }
    ev.created_at = vf_i64(); ev.kind = vf_u16(); ev.content = "x"; }
static int has_tag(const char *name, char **v, size_t n){
    for (size_t i = 0; i < ev.tags_count; i++) if (tg[i].count >= 2 && sp_eq(tv[i][0], name)) for (size_t j = 0; j < n; j++) if (sp_eq(tv[i][1], v[j])) return 1;
    return 0; }
static void match_case(size_t ni, size_t na, size_t nk, size_t nt, size_t ne, size_t np, size_t ng){
    common(); mk_event();
    for (size_t i = 0; i < ni; i++) ids[i] = pre(idhex, PMAX);
    for (size_t i = 0; i < na; i++) aus[i] = pre(pkhex, PMAX);
    for (size_t i = 0; i < nk; i++) kinds[i] = (int32_t)vf_u32();
    for (size_t i = 0; i < nt; i++) { tv[i][0] = tagname(); tv[i][1] = vf_str(2); tv[i][2] = "z"; tg[i].values = tv[i]; tg[i].count = vf_range(0, 3); }
    for (size_t i = 0; i < ne; i++) ev_[i] = vf_str(2);
    for (size_t i = 0; i < np; i++) pv[i] = vf_str(2);
    for (size_t g = 0; g < ng; g++) { gen[g].tag_name = g == 0 ? 't' : vf_char(); VF_REQUIRE(gen[g].tag_name); gen[g].values = gv[g]; gen[g].values_count = 1 + (size_t)(g == 0 && ng == 1); for (size_t j = 0; j < 2; j++) gv[g][j] = vf_str(2); }
    ev.tags = nt ? tg : NULL; ev.tags_count = nt;
    f.ids = ni ? ids : NULL; f.ids_count = ni; f.authors = na ? aus : NULL; f.authors_count = na; f.kinds = nk ? kinds : NULL; f.kinds_count = nk;
    f.e_tags = ne ? ev_ : NULL; f.e_tags_count = ne; f.p_tags = np ? pv : NULL; f.p_tags_count = np; f.generic_tags = ng ? gen : NULL; f.generic_tags_count = ng;
    f.since = vf_i64(); f.until = vf_i64(); f.limit = vf_int();
#ifdef VF_NATIVE
    if (vf_bool()) ev.kind = (uint16_t)(nk ? kinds[nk - 1] : 0); if (vf_bool()) { f.since = 0; f.until = 0; } else if (vf_bool()) { ev.created_at = 1000; f.since = (int64_t)vf_range(998, 1002); f.until = (int64_t)vf_range(998, 1002); }
#endif
    int m = ni == 0; for (size_t i = 0; i < ni; i++) m |= spec_prefix(idhex, ids[i]);
    int a = na == 0; for (size_t i = 0; i < na; i++) a |= spec_prefix(pkhex, aus[i]);
    int k = nk == 0; for (size_t i = 0; i < nk; i++) k |= kinds[i] == (int32_t)ev.kind;
    int t = (f.since <= 0 || ev.created_at >= f.since) && (f.until <= 0 || ev.created_at <= f.until);
    int e = ne == 0 || has_tag("e", ev_, ne), p = np == 0 || has_tag("p", pv, np), g = 1;
    for (size_t i = 0; i < ng; i++) { char nm[2] = { gen[i].tag_name, 0 }; g = g && has_tag(nm, gv[i], gen[i].values_count); }
    int want = m && a && k && t && e && p && g;
    bool r = nostr_filter_matches(&f, &ev);
    VF_REACH("matched");
    VF_ENSURE(!r || m, "a match has an id with one of the ids as prefix");
    VF_ENSURE(!r || a, "a match has an author with one of the authors as prefix");
    VF_ENSURE(!r || k, "a match is of one of the kinds");
    VF_ENSURE(!r || t, "a match lies in [since, until]");
    VF_ENSURE(!r || (e && p && g), "a match has one of the values for every tag filter");
    VF_ENSURE(r || !want, "an event that satisfies every condition matches");
    VF_ENSURE(!nostr_filter_matches(NULL, &ev) && !nostr_filter_matches(&f, NULL), "NULL never matches"); }
static void h1(size_t sh){ (void)sh;
#if MODE == 1   /* ids and authors */
    VF_CASES(ni, 0, 2) VF_CASES(na, 0, 2) if (ni + na == 2) match_case(ni, na, 0, 0, 0, 0, 0);
#elif MODE == 2 /* kinds, since, until */
    VF_CASES(nk, 0, 3) match_case(0, 0, nk, 0, 0, 0, 0);
#elif MODE == 3 /* tags */
    VF_CASES(nt, 0, 2) VF_CASES(ne, 0, 2) match_case(0, 0, 0, nt, ne, 0, 0);
#elif MODE == 6
    VF_CASES(nt, 0, 2) VF_CASES(np, 1, 2) match_case(0, 0, 0, nt, 0, np, 0);
#elif MODE == 7
    VF_CASES(nt, 0, 2) VF_CASES(ng, 1, 2) match_case(0, 0, 0, nt, 0, 0, ng);
#elif MODE == 4 /* everything at once */
    match_case(1, 1, 1, 2, 1, 1, 1);
#elif MODE == 5 /* since and until only, all values: complete */
    match_case(0, 0, 0, 0, 0, 0, 0);
#endif
}
#elif defined T_ANY
/* contract of nostr_filter_matches (T_MATCH), used for its callers */
static nostr_filter_t fs[4]; static int g_m[4], g_s[4], g_cb;
bool match_contract(const nostr_filter_t *p, const nostr_event *e){ VF_ENSURE(p >= fs && p < fs + 4 && e == &ev, "this event against these filters"); return g_m[p - fs]; }
static int tok; static int32_t yes, no = 7;
static bool cb(const char *q, const nostr_event *e, void *ud){ VF_ENSURE(e == &ev && ud == &tok, "callback arguments"); int k = -1; for (int i = 0; i < 4; i++) if (fs[i].search == q) k = i; VF_ENSURE(k >= 0, "the filter's query"); g_cb++; return k < 0 ? false : g_s[k]; }
static void h1(size_t n){
    common(); int any = 0, anys = 0, hascb = vf_bool();
    for (size_t i = 0; i < n; i++) { memset(&fs[i], 0, sizeof fs[i]); g_m[i] = vf_bool(); g_s[i] = vf_bool(); fs[i].search = vf_bool() ? vf_str(2) : NULL; fs[i].kinds = g_m[i] ? &yes : &no; fs[i].kinds_count = 1;
        int sq = !fs[i].search || !fs[i].search[0] || (hascb && g_s[i]); any |= g_m[i]; anys |= g_m[i] && sq; 
        VF_ENSURE(nostr_filter_matches_with_search(&fs[i], &ev, hascb ? cb : NULL, &tok) == (g_m[i] && sq), "search is an additional condition"); }
    VF_REACH("any");
    VF_ENSURE(nostr_filters_match(fs, n, &ev) == any, "several filters match iff one of them does");
    VF_ENSURE(nostr_filters_match_with_search(fs, n, &ev, hascb ? cb : NULL, &tok) == anys, "also with search");
    VF_ENSURE(!nostr_filters_match(NULL, n, &ev) && !nostr_filters_match(fs, n, NULL) && !nostr_filters_match_with_search(fs, 0, &ev, cb, &tok), "nothing never matches"); }
#define H1N 4
#elif defined T_VALIDATE
static char *a[4][2]; static nostr_validation_result_t res;
static void h1(size_t sh){ (void)sh;
    common(); g_vn = 0; size_t n[4]; int ok[4];
    for (int k = 0; k < 4; k++) { n[k] = vf_range(0, 2); ok[k] = 1; for (size_t i = 0; i < 2; i++) { a[k][i] = vf_tmp(2); g_vp[g_vn] = a[k][i]; g_v64[g_vn] = vf_bool(); g_vpre[g_vn] = vf_bool(); if (i < n[k] && !(k < 2 ? g_vpre[g_vn] : g_v64[g_vn])) ok[k] = 0; g_vn++; } }
    f.ids = a[0]; f.ids_count = n[0]; f.authors = a[1]; f.authors_count = n[1]; f.e_tags = a[2]; f.e_tags_count = n[2]; f.p_tags = a[3]; f.p_tags_count = n[3];
    f.search = vf_bool() ? vf_str(2) : NULL;
    nostr_relay_error_t r = nostr_filter_validate(&f, &res);
    VF_REACH("validated");
    VF_ENSURE((r == NOSTR_RELAY_OK) == (ok[0] && ok[1] && ok[2] && ok[3]), "valid iff every id, author, #e and #p value is");
    VF_ENSURE(res.valid == (r == NOSTR_RELAY_OK) && (r == NOSTR_RELAY_OK || res.error_code == r), "the result agrees with the return value");
    VF_ENSURE(nostr_filter_validate(NULL, &res) != NOSTR_RELAY_OK && !res.valid && nostr_filter_validate(&f, NULL) != NOSTR_RELAY_OK, "NULL is refused"); }
#elif defined T_PARSE || defined T_CLONE
/* one member at a time, plus all at once in MODE 0 */
static const char *const KEYS[] = { "ids", "authors", "#e", "#p", "#t", "#X", "kinds", "since", "until", "limit", "search", "#", "#ee", "#1", "other" };
enum { K_KINDS = 6, K_SINCE, K_UNTIL, K_LIMIT, K_SEARCH, K_UNK };
static const char *mv[16][3]; static size_t mn[16]; static int32_t mk_[3]; static double mnum[16]; static int mpres[16], mbad[16];
static char *dup0(const char *s){ size_t n = sp_len(s); char *p = vf_tmp(n + 1); for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
static void strs(cJSON *root, int k, size_t n, size_t badat, int form){   /* form 0 array, 1 string, 2 null, 3 number */
    mpres[k] = 1; mbad[k] = form != 0; mn[k] = n;
    if (form) { cJSON_AddItemToObject(root, KEYS[k], form == 1 ? cJSON_CreateString("a") : form == 2 ? cJSON_CreateNull() : cJSON_CreateNumber(1)); return; }
    cJSON *a = cJSON_CreateArray(); cJSON_AddItemToObject(root, KEYS[k], a);
    for (size_t i = 0; i < n; i++) { if (i == badat) { mbad[k] = 1; cJSON_AddItemToArray(a, n == 1 ? cJSON_CreateNull() : cJSON_CreateNumber(3)); continue; }
        char *s = vf_strn((i + (size_t)k) % 3); mv[k][i] = s; cJSON_AddItemToArray(a, cJSON_CreateString(s)); } }
#ifdef VF_NATIVE
#define NUMMAX ((size_t)100000000000000)
#else
#define NUMMAX ((size_t)1 << 60)
#endif
static size_t g_fa; static int g_const;
static double num(void){ if (g_const) return 1700000000.0;  int64_t n = (int64_t)(vf_bool() ? vf_range(0, 70000) : vf_range(0, NUMMAX)); return (double)(vf_bool() ? -n : n) * (vf_bool() ? 1.0 : 0.5); }
static size_t g_nf;
static double numk(size_t nf){ /* any int32; any int32 plus a half; a value beyond int32 */
    static const double odd[] = { 0.5, -1.5, 65535.25, 1e300 }; if (g_const) return 30023.0;
    if (nf >= 4) return odd[nf - 4]; if (nf == 1) return 7.0;
    return nf == 2 ? 2147483648.0 : nf == 3 ? -2147483649.0 : 1e15; }
static int isint32(double d){ return d >= -2147483648.0 && d <= 2147483647.0 && d == (double)(int64_t)d; }
static void ints(cJSON *root, size_t n, int form, size_t badat){
    mpres[K_KINDS] = 1; mn[K_KINDS] = n;
    if (form) { mbad[K_KINDS] = 1; cJSON_AddItemToObject(root, "kinds", form == 1 ? cJSON_CreateNumber(1) : cJSON_CreateString("1")); return; }
    cJSON *a = cJSON_CreateArray(); cJSON_AddItemToObject(root, "kinds", a);
    for (size_t i = 0; i < n; i++) { if (i == badat) { mbad[K_KINDS] = 1; cJSON_AddItemToArray(a, cJSON_CreateString("1")); continue; }
        if (i > 0 || (g_nf == 0 && !g_const)) { int32_t v = i > 0 ? 7 : (int32_t)vf_u32(); mk_[i] = v; cJSON *c = cJSON_CreateNumber(0); c->valueint = v; c->valuedouble = (double)v; cJSON_AddItemToArray(a, c); continue; }
        double d = numk(g_nf); if (!isint32(d)) mbad[K_KINDS] = 1; else mk_[i] = (int32_t)d; cJSON_AddItemToArray(a, cJSON_CreateNumber(d)); } }
static void single(cJSON *root, int k, int form){   /* 0 number 1 string 2 null */
    mpres[k] = 1;
    if (form == 0) { mnum[k] = num(); cJSON_AddItemToObject(root, KEYS[k], cJSON_CreateNumber(mnum[k])); if (k == K_SEARCH) mbad[k] = 1;
        if (k == K_SINCE || k == K_UNTIL) mbad[k] = !(mnum[k] >= -9007199254740991.0 && mnum[k] <= 9007199254740991.0 && mnum[k] == (double)(int64_t)mnum[k]); }
    else if (form == 1) { char *s = vf_strn(2); mv[k][0] = s; cJSON_AddItemToObject(root, KEYS[k], cJSON_CreateString(s)); mbad[k] = k != K_SEARCH; }
    else { cJSON_AddItemToObject(root, KEYS[k], cJSON_CreateNull()); mbad[k] = 1; } }
static void chk_strs(int k, char **v, size_t n){
    size_t w = mpres[k] ? mn[k] : 0;
    VF_ENSURE(n == w && (n == 0) == (v == NULL), "exactly the given values");
    for (size_t i = 0; i < w && i < n && i < 3; i++) VF_ENSURE(v && v[i] && v[i] != mv[k][i] && sp_eq(v[i], mv[k][i]), "the values in order, copied"); }
static void chk(const nostr_filter_t *q){
    chk_strs(0, q->ids, q->ids_count); chk_strs(1, q->authors, q->authors_count); chk_strs(2, q->e_tags, q->e_tags_count); chk_strs(3, q->p_tags, q->p_tags_count);
    VF_ENSURE(q->kinds_count == (mpres[K_KINDS] ? mn[K_KINDS] : 0) && (q->kinds_count == 0) == (q->kinds == NULL), "exactly the given kinds");
    for (size_t i = 0; i < q->kinds_count && i < 3; i++) VF_ENSURE(q->kinds[i] == mk_[i], "the kinds in order");
    size_t g = 0;
    for (int k = 4; k <= 5; k++) if (mpres[k]) { VF_ENSURE(g < q->generic_tags_count, "every single-letter tag filter is kept"); if (g < q->generic_tags_count) { VF_ENSURE(q->generic_tags[g].tag_name == KEYS[k][1], "tag filter name"); chk_strs(k, q->generic_tags[g].values, q->generic_tags[g].values_count); } g++; }
    VF_ENSURE(q->generic_tags_count == g, "no tag filter is invented");
    VF_ENSURE(!mpres[K_SINCE] ? q->since == 0 : (double)q->since == mnum[K_SINCE], "since"); VF_ENSURE(!mpres[K_UNTIL] ? q->until == 0 : (double)q->until == mnum[K_UNTIL], "until");
    if (!mpres[K_LIMIT] || isint32(mnum[K_LIMIT])) VF_ENSURE(!mpres[K_LIMIT] ? q->limit == 0 : (double)q->limit == mnum[K_LIMIT], "limit");
    VF_ENSURE(mpres[K_SEARCH] ? q->search && q->search != mv[K_SEARCH][0] && sp_eq(q->search, mv[K_SEARCH][0]) : q->search == NULL, "search"); }
static void acc(const nostr_filter_t *q){   /* accessors return the fields */
    size_t n = 99; VF_ENSURE(nostr_filter_get_ids(q, &n) == (const char**)q->ids && n == q->ids_count, "get_ids");
    VF_ENSURE(nostr_filter_get_authors(q, &n) == (const char**)q->authors && n == q->authors_count, "get_authors");
    VF_ENSURE(nostr_filter_get_kinds(q, &n) == q->kinds && n == q->kinds_count, "get_kinds");
    VF_ENSURE(nostr_filter_get_e_tags(q, &n) == (const char**)q->e_tags && n == q->e_tags_count, "get_e_tags");
    VF_ENSURE(nostr_filter_get_p_tags(q, &n) == (const char**)q->p_tags && n == q->p_tags_count, "get_p_tags");
    VF_ENSURE(nostr_filter_get_tag_values(q, 'e', &n) == (const char**)q->e_tags && n == q->e_tags_count && nostr_filter_get_tag_values(q, 'p', &n) == (const char**)q->p_tags && n == q->p_tags_count, "get_tag_values e, p");
    for (size_t g = 0; g < q->generic_tags_count; g++) VF_ENSURE(nostr_filter_get_tag_values(q, q->generic_tags[g].tag_name, &n) == (const char**)q->generic_tags[g].values && n == q->generic_tags[g].values_count, "get_tag_values");
    VF_ENSURE(nostr_filter_get_tag_values(q, 'q', &n) == NULL && n == 0, "an absent tag filter has no values");
    VF_ENSURE(nostr_filter_has_tag_filters(q) == (q->e_tags_count || q->p_tags_count || q->generic_tags_count), "has_tag_filters");
    VF_ENSURE(nostr_filter_get_since(q) == q->since && nostr_filter_get_until(q) == q->until && nostr_filter_get_limit(q) == q->limit && nostr_filter_get_search(q) == q->search && nostr_filter_has_search(q) == (q->search && q->search[0]), "scalar accessors"); }
static void empty(const nostr_filter_t *q){ VF_ENSURE(!q->ids && !q->authors && !q->kinds && !q->e_tags && !q->p_tags && !q->generic_tags && !q->search && !q->ids_count && !q->authors_count && !q->kinds_count && !q->e_tags_count && !q->p_tags_count && !q->generic_tags_count, "an empty filter owns nothing"); }
static void reset(void){ common(); memset(mpres, 0, sizeof mpres); memset(mbad, 0, sizeof mbad); memset(mn, 0, sizeof mn); memset(mnum, 0, sizeof mnum); }
static void run(cJSON *root, int notobj){
    char *txt = vfj_text(root); int bad = notobj; for (int k = 0; k < K_UNK; k++) bad |= mpres[k] && mbad[k];
#ifdef VF_NATIVE
    vf_live = 0;
#endif
    VF_FAILS_AT(g_fa);
    memset(&f, 0x55, sizeof f);
    nostr_relay_error_t r = nostr_filter_parse(txt, vf_bool() ? strlen(txt) : 0, &f);
    vf_may_fail = 0;
    if (r == NOSTR_RELAY_OK) {
        VF_REACH("parsed");
        VF_ENSURE(!bad, "a malformed member is refused, never ignored");
        chk(&f); acc(&f);
        nostr_filter_free(&f);
    } else { VF_REACH_F("refused"); VF_ENSURE(bad || vf_failed, "a well-formed filter is accepted"); }
    empty(&f);
    vfj_done(txt);
#ifndef VF_NATIVE
    if (vfj_next) { cJSON_Delete(vfj_next); vfj_next = NULL; }
#endif
    VF_ENSURE(VFJ_LIVE() == 0, "no leak, no double free"); }
#ifdef T_PARSE
#define OOMSEL (!FAIL_CASES || (form == 0 && n == 2 && b == 2))
static void h1(size_t sh){ (void)sh;
#if MODE == 1        /* one string-array member, every form and size */
    VF_CASES(k, KLO, KHI) VF_CASES(form, 0, 3) VF_CASES(n, 0, form ? 0 : 2) VF_CASES(b, 0, n) if (OOMSEL) { reset(); cJSON *root = cJSON_CreateObject(); strs(root, (int)k, n, b, (int)form); run(root, 0); }
#elif MODE == 2      /* kinds */
    VF_CASES(form, 0, 2) VF_CASES(n, 0, form ? 0 : 2) VF_CASES(b, 0, n) VF_CASES(nf, 0, !FAIL_CASES && n > 0 && b == n ? 7 : 0) if (OOMSEL) { reset(); g_nf = nf; cJSON *root = cJSON_CreateObject(); ints(root, n, (int)form, b); run(root, 0); }
#elif MODE == 3      /* since, until, limit, search */
    VF_CASES(k, K_SINCE, K_SEARCH) VF_CASES(form, 0, 2) { reset(); cJSON *root = cJSON_CreateObject(); single(root, (int)k, (int)form); run(root, 0); }
#elif MODE == 4      /* unknown members are ignored; a root that is no object is refused */
    VF_CASES(k, K_UNK, 14) VF_CASES(form, 0, 2) { reset(); cJSON *root = cJSON_CreateObject(); cJSON_AddItemToObject(root, KEYS[k], form == 0 ? cJSON_CreateNumber(1) : form == 1 ? cJSON_CreateString("x") : cJSON_CreateArray()); run(root, 0); }
    VF_CASES(form2, 0, 3) { reset(); cJSON *root = form2 == 0 ? cJSON_CreateArray() : form2 == 1 ? cJSON_CreateString("ids") : form2 == 2 ? cJSON_CreateNumber(3) : cJSON_CreateNull(); run(root, 1); }
#else                /* everything at once */
    VF_CASES(late, FAIL_CASES ? 1 : 0, 1) { g_const = 1; reset(); cJSON *root = cJSON_CreateObject(); if (late) strs(root, 4, 1, 9, 0);
    strs(root, 0, 1, 9, 0); strs(root, 1, 1, 9, 0); ints(root, 1, 0, 9); strs(root, 2, 1, 9, 0); strs(root, 3, 1, 9, 0); strs(root, 5, 1, late ? 9 : 0, 0); single(root, K_SINCE, 0); single(root, K_UNTIL, 0); single(root, K_LIMIT, 0); single(root, K_SEARCH, 1);
    run(root, 0); }
#endif
}
#else
static char *sv[8][3]; static nostr_generic_tag_filter_t gen[2];
static void h1(size_t n){
    if (FAIL_CASES && n == 0) return;
    reset(); for (int k = 0; k < 6; k++) { mpres[k] = k < 4 || n > 0; mn[k] = (n + (size_t)k) % 3; for (size_t i = 0; i < mn[k]; i++) { sv[k][i] = vf_strn((i + (size_t)k) % 2); mv[k][i] = sv[k][i]; } }
#define S(k) (mn[k] ? sv[k] : NULL)
    f.ids = S(0); f.ids_count = mn[0]; f.authors = S(1); f.authors_count = mn[1]; f.e_tags = S(2); f.e_tags_count = mn[2]; f.p_tags = S(3); f.p_tags_count = mn[3];
    for (int g = 0; g < 2; g++) { gen[g].tag_name = KEYS[4 + g][1]; gen[g].values = S(4 + g); gen[g].values_count = mn[4 + g]; }
    f.generic_tags = n ? gen : NULL; f.generic_tags_count = n ? 2 : 0; mpres[K_KINDS] = 1; mn[K_KINDS] = n; static int32_t kk[3]; for (size_t i = 0; i < n; i++) mk_[i] = kk[i] = (int32_t)vf_u32(); f.kinds = n ? kk : NULL; f.kinds_count = n;
    f.since = (int64_t)vf_u32(); f.until = (int64_t)vf_u32(); f.limit = vf_int(); mpres[K_SINCE] = mpres[K_UNTIL] = mpres[K_LIMIT] = 1; mnum[K_SINCE] = (double)f.since; mnum[K_UNTIL] = (double)f.until; mnum[K_LIMIT] = (double)f.limit;
    if (n) { f.search = vf_strn(1); mpres[K_SEARCH] = 1; mv[K_SEARCH][0] = f.search; }
    VF_FAILS_AT(g_fa); memset(&f2, 0x55, sizeof f2);
    nostr_filter_t f0 = f;
    nostr_relay_error_t r = nostr_filter_clone(&f2, &f);
    vf_may_fail = 0;
    VF_ENSURE(sp_memeq(&f0, &f, sizeof f), "the source is not modified");
    if (r == NOSTR_RELAY_OK) { VF_REACH("cloned"); chk(&f2);
        VF_ENSURE((!f.kinds || f2.kinds != f.kinds) && (!f.ids || f2.ids != f.ids), "nothing is shared"); nostr_filter_free(&f2); }
    else { VF_REACH_F("no memory"); VF_ENSURE(vf_failed, "only memory makes it fail"); }
    empty(&f2); VF_ENSURE(vf_live == 0, "no leak, no double free");
    VF_ENSURE(nostr_filter_clone(NULL, &f) != NOSTR_RELAY_OK && nostr_filter_clone(&f2, NULL) != NOSTR_RELAY_OK, "NULL is refused"); }
#ifdef FAIL_MAX
#define H1N 1
#else
#define H1N 2
#endif
#endif
#endif
#ifndef H1N
#define H1N 0
#endif
static void h(void){ VF_CASES(sh, 0, H1N)
#if defined T_PARSE || defined T_CLONE
    VF_CASES(fa, 0, FAIL_CASES) { g_fa = fa; h1(sh); }
#else
    h1(sh);
#endif
}
VF_MAIN(h)
