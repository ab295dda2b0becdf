/* contracts of relay_message.c */
#include "vf.h"
#include "vf_libc.h"
#include "vf_heap.h"
#define VFJ_KMAX 12
#ifndef VFJ_SMAX
#define VFJ_SMAX 72
#endif
static const char *g_txt; static size_t g_txt_len;
#define VFJ_PARSE_LEN parse_len
#include "vf_cjson.h"
#include <nostr.h>
#ifndef VF_NATIVE   /* verifier only: the members of the two message unions do not overlap (native runs use the real layout) */
#define union struct
#endif
#include "nostr_relay_protocol.h"
#undef union
#ifndef VF_NATIVE
static void parse_len(const char *s, size_t n){ if (g_txt) VF_ENSURE(s == g_txt && n == g_txt_len, "exactly json_len bytes are parsed"); }
#endif
static void vfj_printed(const cJSON *t){ (void)t; }
/* every printed text is recorded with its tree */
static const cJSON *g_pt; 
#ifdef VF_NATIVE
static char g_ptext[4096];
#else
static char g_ptext[8];
#endif
static size_t g_plen; static int g_prints; static int g_tree_ok, g_check_tree;
static void check_tree(const cJSON *t);
static char *m_print(const cJSON *t){
    if (g_check_tree) check_tree(t);
    char *p = cJSON_PrintUnformatted(t); g_prints++; g_pt = t;
    if (p) { size_t i = 0; for (; i < sizeof g_ptext - 1 && p[i]; i++) g_ptext[i] = p[i]; g_ptext[i] = 0; g_plen = i; }
    return p; }
#define cJSON_PrintUnformatted m_print
#define cJSON_Print m_print
/* contracts of the callees (C04/C07, C10/C11, C14), used for the caller */
static nostr_event ev; static int g_ej_ok, g_ej_calls, g_destroyed, g_fp_calls, g_fp_bad, g_fv_bad, g_ff_calls;
static const cJSON *g_item[16]; static cJSON *g_evtree;
static void is_text(const char *s, const cJSON *item){
#ifdef VF_NATIVE
    item = g_pt;
#endif
    int same = s != NULL; for (size_t i = 0; same && i <= g_plen; i++) same = s[i] == g_ptext[i];
    VF_ENSURE(g_pt == item && same, "the text of this array item is parsed"); }
#if defined T_CLIENT
static void check_tree(const cJSON *t){ (void)t; }
nostr_error_t nostr_event_from_json(const char *s, nostr_event **e){ is_text(s, g_item[1]); g_ej_calls++; if (!g_ej_ok) { *e = NULL; return NOSTR_ERR_INVALID_EVENT; } *e = vf_malloc(sizeof **e); if (!*e) return NOSTR_ERR_MEMORY; return NOSTR_OK; }
void nostr_event_destroy(nostr_event *e){ g_destroyed++; vf_free(e); }
nostr_relay_error_t nostr_filter_parse(const char *s, size_t n, nostr_filter_t *f){
    is_text(s, g_item[2 + g_fp_calls]); VF_ENSURE(n == 0 || n == sp_len(s), "whole item"); int k = g_fp_calls++; memset(f, 0, sizeof *f);
    if (k == g_fp_bad) return NOSTR_RELAY_ERR_INVALID_JSON;
    f->search = vf_malloc(2); if (!f->search) return NOSTR_RELAY_ERR_MEMORY; f->limit = 100 + k;
#ifdef VF_NATIVE
    f->limit = atoi(strchr(s, ':') + 1);
#endif
    return NOSTR_RELAY_OK; }
nostr_relay_error_t nostr_filter_validate(const nostr_filter_t *f, nostr_validation_result_t *r){ int bad = f->limit == 100 + g_fv_bad; VF_ENSURE(f->search != NULL && r, "a parsed filter is validated"); r->valid = !bad; return bad ? NOSTR_RELAY_ERR_INVALID_ID : NOSTR_RELAY_OK; }
void nostr_filter_free(nostr_filter_t *f){ vf_free(f->search); memset(f, 0, sizeof *f); }
static int spec_sub(const char *u){ size_t n = sp_len(u); if (n < 1 || n > 64) return 0; for (size_t k = 0; k < n; k++) if ((unsigned char)u[k] < 32 || (unsigned char)u[k] > 126) return 0; return 1; }
static const char *g_sub; static int g_subok;
bool nostr_validate_subscription_id(const char *u){
#ifndef VF_NATIVE
    if (u == g_sub) return g_subok;
#endif
    return u && spec_sub(u); }
nostr_error_t nostr_event_to_json(const nostr_event *e, char **o){ (void)e; (void)o; return NOSTR_ERR_MEMORY; }
#else
nostr_error_t nostr_event_from_json(const char *s, nostr_event **e){ (void)s; (void)e; return NOSTR_ERR_MEMORY; }
void nostr_event_destroy(nostr_event *e){ (void)e; }
nostr_relay_error_t nostr_filter_parse(const char *s, size_t n, nostr_filter_t *f){ (void)s; (void)n; (void)f; return NOSTR_RELAY_ERR_MEMORY; }
nostr_relay_error_t nostr_filter_validate(const nostr_filter_t *f, nostr_validation_result_t *r){ (void)f; (void)r; return NOSTR_RELAY_OK; }
void nostr_filter_free(nostr_filter_t *f){ (void)f; }
bool nostr_validate_subscription_id(const char *u){ (void)u; return 1; }
nostr_error_t nostr_event_to_json(const nostr_event *e, char **out){
    VF_ENSURE(e == &ev, "this event is serialized"); g_ej_calls++;
    if (!g_ej_ok) return NOSTR_ERR_MEMORY;
    char *p = vf_malloc(10); if (!p) return NOSTR_ERR_MEMORY; memcpy(p, "{\"e\":1.5}", 10); *out = p;
#ifndef VF_NATIVE
    int f = vf_may_fail; vf_may_fail = 0; vfj_next = cJSON_CreateObject(); cJSON_AddNumberToObject(vfj_next, "e", 1.5); vf_may_fail = f;
#endif
    return NOSTR_OK; }
#endif
#include "src/relay_message.c"
#undef cJSON_PrintUnformatted
#undef cJSON_Print
#ifdef VF_NATIVE
#define vf_kn_reset() ((void)0)
#else
#define vf_kn_reset() (vf_kn = 0)
#endif
static void common(void){ vf_kn_reset(); vfj_init(); vf_may_fail = 0; vf_live = 0; vf_failed = 0; vf_alloc_no = 0; g_ej_calls = g_destroyed = g_fp_calls = g_ff_calls = g_prints = 0; g_fp_bad = g_fv_bad = -1; g_ej_ok = 1; g_pt = NULL; g_txt = NULL; g_check_tree = 0; }

#ifndef TLO
#define TLO 0
#define THI 6
#endif
#ifndef MODE
#define MODE 0
#endif
#if defined T_CLIENT
static int eqn(const char *a, const char *b, size_t n){ int ok = a[n] == 0; for (size_t i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
static nostr_client_msg_t m;
static const char *const TY[] = { "EVENT", "REQ", "CLOSE", "AUTH", "COUNT", "event", "EVENTS", "REQS", "CLOSED", "AUTHS", "COUNTS", "", "RE" };
/* ty: the type string; sub: form of the second item; nf: further items */
static void client(size_t ty, size_t sub, size_t nf, size_t badp, size_t badv, size_t fa, size_t uselen, size_t ejok){
    common(); cJSON *root = cJSON_CreateArray(); int n = 0; const char *sid = NULL; size_t sidl = 0;
    if (ty < 12) { cJSON_AddItemToArray(root, cJSON_CreateString(TY[ty])); n++; }
    else if (ty == 12) { cJSON_AddItemToArray(root, cJSON_CreateNumber(1)); n++; }
    if (sub) { cJSON *c = NULL;
        static const size_t L[] = { 0, 0, 0, 1, 2, 64, 65, 70, 2, 1 };
        if (sub == 1) c = cJSON_CreateObject(); else if (sub == 2) c = cJSON_CreateNumber(7); else { char *q = vf_strn(L[sub]); sidl = L[sub]; sid = q; g_subok = L[sub] >= 1 && L[sub] <= 64 && sub < 8;
            for (size_t k = 0; k < L[sub]; k++) {
#ifdef VF_NATIVE
                q[k] = (char)(32 + (unsigned char)q[k] % 95);
#else
                if (MODE != 1 || (k > 1 && k + 2 < L[sub])) q[k] = 'a'; else VF_REQUIRE(q[k] >= 32 && q[k] <= 126);
#endif
            }
            if (sub == 8) q[1] = 0x7f; if (sub == 9) q[0] = 0x1f;
            c = cJSON_CreateString(sid); g_sub = c->valuestring; }
        cJSON_AddItemToArray(root, c); n++; }
    for (size_t i = 0; i < nf; i++) { cJSON *c = cJSON_CreateObject(); cJSON_AddNumberToObject(c, "limit", (double)(100 + i)); cJSON_AddItemToArray(root, c); }
#ifndef VF_NATIVE
    for (size_t i = 0; i < (size_t)n + nf && i < 16; i++) g_item[i] = cJSON_GetArrayItem(root, (int)i);
#endif
    g_fp_bad = (int)badp - 1; g_fv_bad = (int)badv - 1; g_ej_ok = (int)ejok;
    char *txt = vfj_text(root); g_txt_len = sp_len(txt);
#ifdef VF_NATIVE
    vf_live = 0;
#else
    g_txt = txt;
#endif
    VF_FAILS_AT(fa); memset(&m, 0x55, 80);
    nostr_relay_error_t r = nostr_client_msg_parse(txt, uselen ? g_txt_len : 0, &m);
    vf_may_fail = 0; g_txt = NULL;
    int evt = ty == 0 || ty == 3, flt = ty == 1 || ty == 4, subok = sid && g_subok;
    int ok = evt ? sub && g_ej_ok : flt ? subok && nf <= 10 && !(badp && badp <= nf) && !(badv && badv <= nf) : ty == 2 ? subok : 0;
    if (r == NOSTR_RELAY_OK) {
#ifndef VF_NOACC
        VF_REACH("accepted");
#endif
        VF_ENSURE(ok, "a malformed message is refused");
        static const nostr_client_msg_type_t want[] = { NOSTR_CLIENT_MSG_EVENT, NOSTR_CLIENT_MSG_REQ, NOSTR_CLIENT_MSG_CLOSE, NOSTR_CLIENT_MSG_AUTH, NOSTR_CLIENT_MSG_COUNT };
        if (ty < 5) VF_ENSURE(m.type == want[ty] && nostr_client_msg_get_type(&m) == want[ty], "the type is the type named");
        const nostr_event *e = nostr_client_msg_get_event(&m); const char *s = nostr_client_msg_get_subscription_id(&m); size_t fc = 99; const nostr_filter_t *fs = nostr_client_msg_get_filters(&m, &fc);
        VF_ENSURE(evt ? e != NULL && g_ej_calls == 1 : e == NULL, "the event is the parsed event");
        VF_ENSURE(evt ? s == NULL : s && sid && eqn(s, sid, sidl), "the subscription id is kept whole");
        VF_ENSURE(fc == (flt ? nf : 0) && (fc > 0) == (fs != NULL), "every filter is kept");
        for (size_t i = 0; i < fc && i < nf; i++) VF_ENSURE(fs[i].limit == (int32_t)(100 + i) && fs[i].search, "the filters in order");
    } else { VF_REACH("refused"); VF_ENSURE(!ok || vf_failed, "a well-formed message is accepted"); VF_ENSURE(r == NOSTR_RELAY_ERR_TOO_MANY_FILTERS ? flt && nf > 10 : 1, "too many filters only if so"); }
    nostr_client_msg_free(&m);
    VF_ENSURE(!nostr_client_msg_get_event(&m) && !nostr_client_msg_get_filters(&m, NULL), "free empties the message");
    vfj_done(txt);
#ifndef VF_NATIVE
    if (vfj_next) { cJSON_Delete(vfj_next); vfj_next = NULL; }
#endif
    VF_ENSURE(VFJ_LIVE() == 0, "no leak, no double free"); }
static void h1(void){
#ifdef FAIL_MAX
    VF_CASES(fa, 1, FAIL_MAX) VF_CASES(ty, 0, 4) client(ty, ty == 0 || ty == 3 ? 1 : 4, ty == 1 || ty == 4 ? 2 : 0, 0, 0, fa, 1, 1);
#elif MODE == 1   /* types and second items */
    VF_CASES(ty, TLO, THI) VF_CASES(sub, ty >= 5 ? 3 : 0, ty >= 5 ? 4 : 9) VF_CASES(ej, ty == 0 || ty == 3 ? 0 : 1, 1) client(ty, sub, 0, 0, 0, 0, (ty + sub) & 1, ej);
    client(13, 0, 0, 0, 0, 0, 0, 1);
#elif MODE == 2   /* filters */
    VF_CASES(ty, 0, 1) VF_CASES(nf, 0, 2) VF_CASES(badp, 0, nf) VF_CASES(badv, 0, badp ? 0 : nf) client(ty ? 4 : 1, 4, nf, badp, badv, 0, 1, 1);
#else
    VF_CASES(ty, 0, 1) VF_CASES(nf, 10, 11) client(ty ? 4 : 1, 4, nf, 0, 0, 0, 1, 1);
#endif
    nostr_client_msg_t *z = NULL; VF_ENSURE(nostr_client_msg_parse(NULL, 0, &m) != NOSTR_RELAY_OK && nostr_client_msg_parse("[", 0, z) != NOSTR_RELAY_OK && !nostr_client_msg_get_event(NULL) && !nostr_client_msg_get_subscription_id(NULL), "NULL is refused"); nostr_client_msg_free(NULL); }
#else
static nostr_relay_msg_t m; static size_t ty; static const char *s1, *s2; static int64_t cnt; static int flg;
static void node_str(const cJSON *c, const char *want, size_t max){ VF_ENSURE(c && (c->type & 0xff) == cJSON_String, "string item"); const char *g = c->valuestring; size_t i = 0;
    if (want) while (i < max && want[i] && want[i] == g[i]) i++;
    VF_ENSURE(g[i] == 0 && (!want || i == max || want[i] == 0), "string item is exact"); }
static const char *const NM[] = { "EVENT", "OK", "EOSE", "CLOSED", "NOTICE", "AUTH", "COUNT" };
static void check_tree(const cJSON *t){
    VF_ENSURE(t && (t->type & 0xff) == cJSON_Array, "a message is an array"); const cJSON *c = t->child; node_str(c, NM[ty], 9); c = c->next; int n = 2;
    if (ty == 4) node_str(c, s1, 255); else if (ty == 5) node_str(c, s1, 127); else node_str(c, s1, 64);
    if (ty == 0) { n = 3; c = c->next; VF_ENSURE(c && (c->type & 0xff) == cJSON_Object && c->child && c->child->valuedouble == 1.5 && !c->child->next, "third item is the event"); }
    if (ty == 1) { n = 4; c = c->next; VF_ENSURE(c && (c->type & 0xff) == (flg ? cJSON_True : cJSON_False), "third item is the verdict"); c = c->next; node_str(c, s2, 255); }
    if (ty == 3) { n = 3; c = c->next; node_str(c, s2, 255); }
    if (ty == 6) { n = 3; c = c->next; VF_ENSURE(c && (c->type & 0xff) == cJSON_Object && c->child && sp_eq(c->child->string, "count") && (c->child->type & 0xff) == cJSON_Number && c->child->valuedouble == (double)(cnt < 0 ? 0 : cnt), "third item is the count");
        const cJSON *a = c->child->next; VF_ENSURE(flg ? a && sp_eq(a->string, "approximate") && (a->type & 0xff) == cJSON_True && !a->next : !a, "approximate is announced iff so"); }
    VF_ENSURE(c && !c->next && n == cJSON_GetArraySize(t), "no item is missing or invented"); g_tree_ok = 1; }
static void build(void){
    switch (ty) {
    case 0: nostr_relay_msg_event(&m, s1, &ev); break; case 1: nostr_relay_msg_ok(&m, s1, flg, s2); break; case 2: nostr_relay_msg_eose(&m, s1); break;
    case 3: nostr_relay_msg_closed(&m, s1, s2); break; case 4: nostr_relay_msg_notice(&m, s1); break; case 5: nostr_relay_msg_auth(&m, s1); break; default: nostr_relay_msg_count(&m, s1, cnt, flg); } }
static char *strk(size_t n){ char *q = vf_strn(n); for (size_t k = 2; k + 2 < n; k++) q[k] = (char)('a' + k % 26); return q; }
static void ser(size_t t, size_t l1, size_t l2, size_t cap, size_t fa, size_t wantlen){
    common(); ty = t; g_check_tree = 1; g_tree_ok = 0; g_prints = 0; s1 = l1 ? strk(l1 - 1) : NULL; s2 = l2 ? strk(l2 - 1) : NULL; flg = (int)(t + cap) & 1;
#ifdef VF_NATIVE
    for (int q = 0; q < 2; q++) { char *s = (char*)(q ? s2 : s1); for (size_t i = 0; s && s[i]; i++) s[i] &= 0x7f, s[i] |= 0x40; }   /* libcjson needs UTF-8 */
#endif
    cnt = (int64_t)vf_range(0, (size_t)1 << 52); if (vf_bool()) cnt = -cnt; g_ej_ok = cap != 2 || fa;
    
#ifdef VF_NATIVE
    memset(&m, 0x55, sizeof m); build();
#else   /* the fields as the constructors leave them (unit build) */
    static const nostr_relay_msg_t zero; m = zero; m.type = (nostr_relay_msg_type_t)t; size_t n1 = l1 ? l1 - 1 : 0, n2 = l2 ? l2 - 1 : 0;
    for (size_t i = 0; i < n1; i++) switch (t) { case 0: m.data.event.subscription_id[i] = s1[i]; break; case 1: m.data.ok.event_id[i] = s1[i]; break; case 2: m.data.eose.subscription_id[i] = s1[i]; break; case 3: m.data.closed.subscription_id[i] = s1[i]; break; case 4: m.data.notice.message[i] = s1[i]; break; case 5: m.data.auth.challenge[i] = s1[i]; break; default: m.data.count.query_id[i] = s1[i]; }
    for (size_t i = 0; i < n2; i++) if (t == 1) m.data.ok.message[i] = s2[i]; else if (t == 3) m.data.closed.message[i] = s2[i];
    m.data.event.event = &ev; m.data.ok.success = flg; m.data.count.count = cnt < 0 ? 0 : cnt; m.data.count.approximate = flg;
#endif
#ifdef VF_NATIVE
    if (cap == 9) cap = 2000; else cap = 1 + cap * 9; /* texts are a few dozen bytes here */
#endif
    char *buf = vf_tmp(cap ? cap : 1); size_t out = 77;
    VF_FAILS_AT(fa);
    nostr_relay_error_t r = nostr_relay_msg_serialize(&m, buf, cap, wantlen ? &out : NULL);
    vf_may_fail = 0; VF_REACH("serialized");
    if (cap == 0) VF_ENSURE(r != NOSTR_RELAY_OK, "an empty buffer is refused");
    else if (r == NOSTR_RELAY_OK || r == NOSTR_RELAY_ERR_BUFFER_TOO_SMALL) {
        VF_ENSURE(g_prints == 1 && g_tree_ok, "the whole message is serialized"); size_t n = g_plen;
        VF_ENSURE((r == NOSTR_RELAY_OK) == (n < cap), "succeeds iff text and terminator fit");
        VF_ENSURE(!wantlen || out == n, "the length is reported");
        if (r == NOSTR_RELAY_OK) VF_ENSURE(sp_memeq(buf, g_ptext, n + 1), "the text is copied whole");
    } else VF_ENSURE(vf_failed || (ty == 0 && !g_ej_ok), "only memory makes it fail");
#ifndef VF_NATIVE
    if (vfj_next) { cJSON_Delete(vfj_next); vfj_next = NULL; }   /* prepared but never parsed */
#endif
    VF_ENSURE(VFJ_LIVE() == 0, "no leak"); }
#ifdef T_BUILD
static void fld(const char *f, const char *s, size_t len, size_t max){ int ok = 1; size_t n = len < max ? len : max;
    for (size_t i = 0; i < n; i++) ok &= f[i] == s[i];
    VF_ENSURE(ok && f[n] == 0, "a field is its argument, cut to its size and terminated"); }
static void h1(void){
    VF_CASES(t, 0, 6) VF_CASES(l, 0, 2) { common(); ty = t; size_t m1 = t == 4 ? 255 : t == 5 ? 127 : 64, n1 = m1 - 1 + l, n2 = 254 + l; s1 = strk(n1); s2 = strk(n2); flg = vf_bool(); cnt = vf_i64();
        m.type = (nostr_relay_msg_type_t)9; build(); VF_REACH("built");
        static const nostr_relay_msg_type_t want[] = { NOSTR_RELAY_MSG_EVENT, NOSTR_RELAY_MSG_OK, NOSTR_RELAY_MSG_EOSE, NOSTR_RELAY_MSG_CLOSED, NOSTR_RELAY_MSG_NOTICE, NOSTR_RELAY_MSG_AUTH, NOSTR_RELAY_MSG_COUNT };
        VF_ENSURE(m.type == want[t], "type");
        const char *f1 = t == 0 ? m.data.event.subscription_id : t == 1 ? m.data.ok.event_id : t == 2 ? m.data.eose.subscription_id : t == 3 ? m.data.closed.subscription_id : t == 4 ? m.data.notice.message : t == 5 ? m.data.auth.challenge : m.data.count.query_id;
        fld(f1, s1, n1, m1);
        if (t == 0) VF_ENSURE(m.data.event.event == &ev, "event"); if (t == 1) { VF_ENSURE(m.data.ok.success == flg, "verdict"); fld(m.data.ok.message, s2, n2, 255); } if (t == 3) fld(m.data.closed.message, s2, n2, 255);
        if (t == 6) VF_ENSURE(m.data.count.count == (cnt < 0 ? 0 : cnt) && m.data.count.approximate == flg, "count is never negative"); }
    common(); memset(&m, 0, sizeof m); char b[4]; m.type = (nostr_relay_msg_type_t)77; VF_ENSURE(nostr_relay_msg_serialize(&m, b, 4, NULL) != NOSTR_RELAY_OK && VFJ_LIVE() == 0, "an unknown type is refused");
    g_check_tree = 0; nostr_relay_msg_event(&m, "a", NULL); VF_ENSURE(nostr_relay_msg_serialize(&m, b, 4, NULL) != NOSTR_RELAY_OK && VFJ_LIVE() == 0, "a message without event is refused");
    VF_ENSURE(nostr_relay_msg_serialize(NULL, b, 4, NULL) != NOSTR_RELAY_OK && nostr_relay_msg_serialize(&m, NULL, 4, NULL) != NOSTR_RELAY_OK, "NULL is refused"); nostr_relay_msg_ok(NULL, "a", 1, "b"); nostr_relay_msg_count(NULL, "a", 1, 1); }
#else
static void h1(void){
#ifdef FAIL_MAX
    VF_CASES(fa, 1, FAIL_MAX) VF_CASES(t, TLO, THI) ser(t, 3, 2, 9, fa, 1);
#else
    VF_CASES(t, TLO, THI) VF_CASES(cap, 0, 4) VF_CASES(v, 0, 2) ser(t, v ? 1 + v : 0, v ? 4 - v : 0, cap == 4 ? 9 : cap, 0, (t + cap) & 1);
#endif
}
#endif
#endif
static void h(void){ h1(); }
VF_MAIN(h)
