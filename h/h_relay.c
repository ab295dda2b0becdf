/* contracts of relay_protocol.c */
#include "vf.h"
#include "vf_libc.h"
#include "vf_heap.h"
#include "vf_cjson.h"
#include <nostr.h>
#include "nostr_relay_protocol.h"
static void vfj_printed(const cJSON *t){ (void)t; }
#include "src/utils.c"
/* callees in other translation units: their contracts (C04, C05) */
static nostr_event ev, ev0; static const nostr_event *g_ev; static int64_t g_now, g_exp;
static int g_cid_calls, g_cid_ok, g_ver_calls, g_ver_ok; static uint8_t g_hash[32];
#define nostr_event_compute_id rp_cid
#define nostr_event_verify rp_verify
#define time(x) rp_time(x)
#define nostr_event_from_json rp_from_json
#define nostr_event_to_json rp_to_json
#define nostr_event_json_complete rp_complete
static time_t rp_time(time_t *t){ if (t) *t = (time_t)g_now; return (time_t)g_now; }
static nostr_error_t rp_cid(nostr_event *e){
    VF_ENSURE(e && e->created_at == g_ev->created_at && e->kind == g_ev->kind && e->tags == g_ev->tags && e->tags_count == g_ev->tags_count && e->content == g_ev->content && sp_memeq(&e->pubkey, &g_ev->pubkey, 32), "the id is computed over this event");
    VF_ENSURE(e != g_ev, "the validated event itself is not written to");
    g_cid_calls++; g_cid_ok = vf_bool() || vf_bool();
    if (!g_cid_ok) return NOSTR_ERR_MEMORY;
    for (int i = 0; i < 32; i++) e->id[i] = g_hash[i];
    return NOSTR_OK; }
static nostr_error_t rp_verify(const nostr_event *e){ VF_ENSURE(e == g_ev, "this event is verified"); g_ver_calls++; g_ver_ok = vf_bool(); return g_ver_ok ? NOSTR_OK : NOSTR_ERR_INVALID_SIGNATURE; }
static nostr_error_t g_fj_ret; static size_t g_fj_len; static char g_fj_first[4]; static nostr_event **g_fj_arg;
static nostr_error_t rp_from_json(const char *s, nostr_event **e){
    size_t i = 0; while (s[i]) { if (i < 3) g_fj_first[i] = s[i]; i++; }
    g_fj_len = i; g_fj_arg = e; *e = g_fj_ret == NOSTR_OK ? &ev : NULL; return g_fj_ret; }
static char *g_tj_text; static nostr_error_t g_tj_ret;
static nostr_error_t rp_to_json(const nostr_event *e, char **out){ VF_ENSURE(e == g_ev, "this event is serialized"); if (g_tj_ret == NOSTR_OK) *out = g_tj_text; return g_tj_ret; }
int rp_complete(const cJSON *r, int f, const cJSON *t, const nostr_event *e){ (void)r; (void)f; (void)t; (void)e; return 1; }
#include "src/relay_protocol.c"
#undef time
#ifndef VFE_SHAPES
#define VFE_SHAPES {0}
#endif
#include "vf_event.h"
#ifdef VF_NATIVE
#define vf_kn_reset() ((void)0)
#else
#define vf_kn_reset() (vf_kn = 0)
#endif
static void common(void){ vf_kn_reset(); vfj_init(); vf_may_fail = 0; vf_live = 0; vf_failed = 0; vf_alloc_no = 0; g_cid_calls = g_cid_ok = g_ver_calls = g_ver_ok = 0; }

#if defined T_KIND
static void h1(size_t sh){ (void)sh;
    int32_t k = (int32_t)vf_u32();
#ifdef VF_NATIVE
    if (vf_bool()) k = (int32_t)(vf_range(0, 45000));
#endif
    nostr_kind_type_t want = (k >= 20000 && k <= 29999) ? NOSTR_KIND_EPHEMERAL : (k >= 30000 && k <= 39999) ? NOSTR_KIND_ADDRESSABLE :
        (k == 0 || k == 3 || (k >= 10000 && k <= 19999)) ? NOSTR_KIND_REPLACEABLE : NOSTR_KIND_REGULAR;
    VF_REACH("kind");
    VF_ENSURE(nostr_kind_get_type(k) == want, "kind class follows the NIP-01 ranges");
    VF_ENSURE(nostr_kind_is_regular(k) == (want == NOSTR_KIND_REGULAR) && nostr_kind_is_replaceable(k) == (want == NOSTR_KIND_REPLACEABLE) &&
              nostr_kind_is_ephemeral(k) == (want == NOSTR_KIND_EPHEMERAL) && nostr_kind_is_addressable(k) == (want == NOSTR_KIND_ADDRESSABLE), "the predicates agree with the class");
    ev.kind = vf_u16(); VF_ENSURE(nostr_event_is_deletion(&ev) == (ev.kind == 5) && !nostr_event_is_deletion(NULL), "kind 5 is deletion"); }
#elif defined T_CMP
static nostr_event b, c;
static int spec_newer(const nostr_event *x, const nostr_event *y){   /* 1: x wins, 0: same, -1: y wins */
    if (x->created_at != y->created_at) return x->created_at > y->created_at ? 1 : -1;
    for (int i = 0; i < 32; i++) if (x->id[i] != y->id[i]) return x->id[i] < y->id[i] ? 1 : -1;
    return 0; }
static int sgn(int x){ return x > 0 ? 1 : x < 0 ? -1 : 0; }
static void mk(nostr_event *e, int near){ memset(e, 0, sizeof *e);
#ifdef VF_NATIVE
    e->created_at = near ? (int64_t)vf_range(0, 1) : vf_i64(); vf_fill(e->id, 32); if (near) for (int i = 0; i < 31; i++) e->id[i] = 7;
#else
    (void)near; e->created_at = vf_i64(); vf_fill(e->id, 32);
#endif
}
static void h1(size_t sh){ (void)sh;
    int near = vf_bool(); mk(&ev, near); mk(&b, near); mk(&c, near);
    int ab = nostr_event_compare_replaceable(&ev, &b), ba = nostr_event_compare_replaceable(&b, &ev), bc = nostr_event_compare_replaceable(&b, &c), ac = nostr_event_compare_replaceable(&ev, &c);
    VF_REACH("compared");
    VF_ENSURE(sgn(ab) == spec_newer(&ev, &b), "newest created_at wins; on a tie the lower id wins");
    VF_ENSURE(sgn(ab) == -sgn(ba), "the order is antisymmetric");
    VF_ENSURE(!(ab > 0 && bc > 0) || ac > 0, "the order is transitive");
    VF_ENSURE((ab == 0) == (ev.created_at == b.created_at && sp_memeq(ev.id, b.id, 32)), "only the same version compares equal");
    VF_ENSURE(sgn(nostr_event_compare_addressable(&ev, &b)) == sgn(ab), "addressable events follow the same order");
    VF_ENSURE(nostr_event_compare_replaceable(NULL, &b) == 0 && nostr_event_compare_replaceable(&ev, NULL) == 0, "NULL compares equal"); }
#elif defined T_VALIDATE
/* contract of nostr_event_get_expiration (T_EXP), used for the caller */
int64_t exp_contract(const nostr_event *e){ VF_ENSURE(e == g_ev, "expiration of this event"); return g_exp; }
static nostr_validation_result_t res;
static void h1(size_t sh){ (void)sh;
    common(); memset(&ev, 0, sizeof ev); vf_fill(ev.id, 32); vf_fill(ev.pubkey.data, 32); vf_fill(ev.sig, 64); vf_fill(g_hash, 32);
    ev.created_at = vf_i64(); ev.kind = vf_u16(); g_now = (int64_t)(vf_u64() >> 1); g_exp = (int64_t)(vf_u64() >> 1); int64_t fut = vf_i64();
#ifdef VF_NATIVE
    static char buf[40]; static char *vals[2] = { "expiration", buf }; static nostr_tag tg;
    if (vf_bool()) { g_now = 1700000000; fut = (int64_t)vf_range(0, 900); ev.created_at = g_now + fut - 3 + (int64_t)vf_range(0, 6); g_exp = vf_bool() ? 0 : g_now - 2 + (int64_t)vf_range(0, 4); }
    sprintf(buf, "%lld", (long long)g_exp); tg.values = vals; tg.count = 2; ev.tags = &tg; ev.tags_count = g_exp ? 1 : 0;
    if (vf_bool()) memcpy(ev.id, g_hash, 32);
#endif
    /* fut >= 0: an allowance; created_at any value */
    VF_REQUIRE(fut >= 0);
    g_ev = &ev; ev0 = ev; vf_fill(&res, 8);
    int nul = (int)vf_range(0, 6);
    nostr_relay_error_t r = nostr_event_validate_full(nul == 1 ? NULL : &ev, fut, nul == 2 ? NULL : &res);
    if (nul == 1 || nul == 2) { VF_ENSURE(r != NOSTR_RELAY_OK, "NULL is refused"); if (nul == 1) VF_ENSURE(!res.valid, "NULL event is not valid"); return; }
    int future = ev.created_at > 0 && (uint64_t)ev.created_at > (uint64_t)g_now + (uint64_t)fut;
    int expired = g_exp != 0 && g_now > g_exp;
    VF_ENSURE(sp_memeq(&ev, &ev0, sizeof ev), "validation does not modify the event");
    VF_ENSURE(res.valid == (r == NOSTR_RELAY_OK), "result.valid agrees with the return value");
    VF_ENSURE(r == NOSTR_RELAY_OK ? res.error_code == NOSTR_RELAY_OK : res.error_code == r, "result.error_code agrees with the return value");
    if (r == NOSTR_RELAY_OK) {
        VF_REACH("valid");
        VF_ENSURE(!future, "an accepted event is not too far in the future");
        VF_ENSURE(!expired, "an accepted event has not expired");
        VF_ENSURE(g_cid_calls && g_cid_ok && sp_memeq(ev.id, g_hash, 32), "an accepted event's id is its hash");
        VF_ENSURE(g_ver_calls && g_ver_ok, "an accepted event's signature verifies");
    } else {
        VF_REACH("invalid");
        VF_ENSURE(future || expired || (g_cid_calls && !g_cid_ok) || (g_cid_calls && !sp_memeq(ev.id, g_hash, 32)) || (g_ver_calls && !g_ver_ok), "an event that satisfies every rule is accepted");
        VF_ENSURE(r != NOSTR_RELAY_ERR_FUTURE_EVENT || future, "future error only for a future event");
        VF_ENSURE(r != NOSTR_RELAY_ERR_EXPIRED_EVENT || expired, "expired error only for an expired event");
        VF_ENSURE(r != NOSTR_RELAY_ERR_ID_MISMATCH || (g_cid_ok && !sp_memeq(ev.id, g_hash, 32)), "id mismatch error only for a wrong id");
        VF_ENSURE(r != NOSTR_RELAY_ERR_SIG_MISMATCH || (g_ver_calls && !g_ver_ok), "signature error only for a bad signature");
        VF_ENSURE(!future || r == NOSTR_RELAY_ERR_FUTURE_EVENT || expired || g_cid_calls, "a future event is reported as such");
    }
    VF_ENSURE(nostr_validate_timestamp(ev.created_at, fut) == !future, "timestamp check is created_at <= now + allowance");
    VF_ENSURE(nostr_event_is_expired(&ev, g_now) == expired, "expired means strictly after the expiration time");
}
#elif defined T_EXP
#ifndef EL
#define EL 20
#endif
static char *nm[3], *vl[3]; static char *vals[3][2]; static nostr_tag tg[3];
static const char *const consts[] = { "1700000000", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999999", "1700000000x", "1700000000 ", "-1700000000", "007", "12.5" };
#define NCONST (sizeof consts / sizeof consts[0])
static void exp_case(size_t nt, size_t l0, size_t l1, size_t d0){
    common(); memset(&ev, 0, sizeof ev); ev.tags = tg; ev.tags_count = nt; g_ev = &ev;
    int pick = -1;
    for (size_t i = 0; i < nt; i++) {
        size_t l = i ? l1 : l0; int named = vf_bool(); nm[i] = named ? "expiration" : vf_str(3);
        vl[i] = i == 0 && d0 < NCONST ? (char*)consts[d0] : vf_strn(l);
#ifdef VF_NATIVE
        if (d0 >= NCONST && vf_bool()) for (size_t k = 0; k < l; k++) vl[i][k] = (char)vf_rec(48 + (unsigned char)vl[i][k] % 10);
#endif
        vals[i][0] = nm[i]; vals[i][1] = vl[i]; tg[i].values = vals[i]; tg[i].count = vf_bool() ? 2 : 1;
        if (pick < 0 && named && tg[i].count >= 2) pick = (int)i; }
    int64_t r = nostr_event_get_expiration(&ev);
    VF_REACH("expiration");
    if (pick < 0) { VF_ENSURE(r == 0, "no expiration tag: no expiration"); return; }
    const char *s = vl[pick]; size_t n = sp_len(s); int alld = n > 0, other = 0; uint64_t v = 0; int ovf = 0;
    for (size_t i = 0; i < n; i++) { int d = s[i] - '0'; if (d < 0 || d > 9) { alld = 0; if (s[i] != ' ' && !(s[i] >= '\t' && s[i] <= '\r') && s[i] != '+') other = 1; }
        else if (v > INT64_MAX / 10u || (v == INT64_MAX / 10u && d > (int)(INT64_MAX % 10u))) ovf = 1; else v = v * 10 + (uint64_t)d; }
    if (alld && !ovf) VF_ENSURE(r == (int64_t)v, "expiration is the decimal value of the first expiration tag");
    if (alld && ovf) VF_ENSURE(r == 0 || r == INT64_MAX, "an out-of-range expiration never expires the event early");
    if (other || n == 0) VF_ENSURE(r == 0, "a malformed expiration is no expiration");
    VF_ENSURE(r >= 0, "expiration is never negative");
    int64_t now = vf_i64(); VF_ENSURE(nostr_event_is_expired(&ev, now) == (r != 0 && now > r), "expired iff strictly after it");
    g_now = now; VF_ENSURE(nostr_event_is_expired_now(&ev) == (r != 0 && now > r), "expired_now uses the clock"); }
static void h1(size_t sh){ (void)sh; 
#ifdef EDIG
    VF_CASES(d0, 0, NCONST - 1) exp_case(1, 1, 0, d0);
#else
    VF_CASES(nt, 0, NTX) VF_CASES(l0, 0, nt ? EL : 0) VF_CASES(l1, 0, nt > 1 ? 1 : 0) exp_case(nt, l0, l1, 99);
#endif
}
#elif defined T_PARSE
static void h1(size_t sh){ (void)sh;
    common(); size_t n = vf_range(0, 4), lim = vf_range(0, 4); char *s = vf_tmp(5); size_t i;
    /* a text of n bytes; NUL-terminated only when json_len is not given */
    VF_REQUIRE(lim <= n); for (i = 0; i < n; i++) { s[i] = vf_char(); VF_REQUIRE(s[i]); } s[n] = lim ? (char)'x' : 0;
    char *exact = vf_tmp(lim ? lim : n + 1); for (i = 0; i < (lim ? lim : n + 1); i++) exact[i] = s[i];
    static const nostr_error_t rets[] = { NOSTR_OK, NOSTR_ERR_JSON_PARSE, NOSTR_ERR_MEMORY, NOSTR_ERR_INVALID_EVENT, NOSTR_ERR_INVALID_PARAM };
    g_fj_ret = rets[vf_range(0, 4)]; g_fj_arg = NULL;
    VF_FAILS;
    nostr_event *e = &ev;
    nostr_relay_error_t r = nostr_event_parse(exact, lim, &e);
    VF_REACH("parse");
    if (g_fj_arg) {
        VF_ENSURE(g_fj_len == (lim ? lim : n), "exactly json_len bytes are parsed");
        for (i = 0; i < 3 && i < g_fj_len; i++) VF_ENSURE(g_fj_first[i] == s[i], "the given text is parsed");
        VF_ENSURE((r == NOSTR_RELAY_OK) == (g_fj_ret == NOSTR_OK), "success iff the event parses");
        VF_ENSURE(g_fj_ret != NOSTR_ERR_MEMORY || r == NOSTR_RELAY_ERR_MEMORY, "out of memory is reported as such");
    } else VF_ENSURE(vf_failed && r != NOSTR_RELAY_OK, "only memory keeps it from parsing");
    VF_ENSURE(r == NOSTR_RELAY_OK ? e != NULL : e == NULL, "a refused text hands back no event");
    VF_ENSURE(vf_live == 0, "no leak");
    VF_ENSURE(nostr_event_parse(NULL, 0, &e) != NOSTR_RELAY_OK && nostr_event_parse("{}", 2, NULL) != NOSTR_RELAY_OK, "NULL is refused"); }
#elif defined T_SERIALIZE
static void h1(size_t sh){ (void)sh;
    common(); g_ev = &ev; size_t n = vf_range(0, 5), cap = vf_range(0, 7); char *t = vf_malloc(6); size_t i;
    for (i = 0; i < 5; i++) { t[i] = vf_char(); if (i < n) VF_REQUIRE(t[i]); else t[i] = 0; } t[5] = 0; char *copy = vf_tmp(6); memcpy(copy, t, 6);
    char *buf = vf_tmp(cap ? cap : 1); size_t out = 77; int wantlen = vf_bool();
    g_tj_ret = vf_bool() || vf_bool() ? NOSTR_OK : NOSTR_ERR_MEMORY; g_tj_text = t;
    nostr_relay_error_t r = nostr_event_serialize(&ev, buf, cap, wantlen ? &out : NULL);
    VF_REACH("serialize");
    if (cap == 0) { VF_ENSURE(r != NOSTR_RELAY_OK, "an empty buffer is refused"); return; }
    if (g_tj_ret != NOSTR_OK) { VF_ENSURE(r != NOSTR_RELAY_OK, "failure is passed on"); return; }
    VF_ENSURE((r == NOSTR_RELAY_OK) == (n < cap), "succeeds iff text and terminator fit");
    VF_ENSURE(r == NOSTR_RELAY_OK || r == NOSTR_RELAY_ERR_BUFFER_TOO_SMALL, "a short buffer is reported as such");
    VF_ENSURE(!wantlen || out == n, "the needed length is reported");
    if (r == NOSTR_RELAY_OK) VF_ENSURE(sp_memeq(buf, copy, n) && buf[n] == 0, "the text is copied whole");
    VF_ENSURE(vf_live == 0, "the text is released"); }
#elif defined T_DELPARSE
/* contracts of the validators (T_ADDR here, C01 for hex64), used for the caller */
static const char *g_valid_p[8]; static int g_valid_n, g_valid_v[8];
static bool flagged(const char *p){ for (int i = 0; i < g_valid_n; i++) if (g_valid_p[i] == p) return g_valid_v[i]; return false; }
bool hex64_contract(const char *p){ return flagged(p); }
bool addr_contract(const char *p){ return flagged(p); }
static char *vals[NT + 1][3]; static nostr_tag tg[NT + 1]; static int isv[NT + 1], cls[NT + 1];
static char *value(int valid, int addr){
#ifdef VF_NATIVE
    char *s = vf_tmp(80); int i = 0; if (!valid) { strcpy(s, vf_bool() ? "zz" : addr ? "5:ab:c" : "abcdef"); return s; }
    if (addr) i = sprintf(s, "30000:");
    for (int k = 0; k < 64; k++) s[i++] = "0123456789abcdef"[vf_range(0, 15)];
    if (addr) { s[i++] = ':'; s[i++] = 'd'; } s[i] = 0; return s;
#else
    (void)addr; char *s = vf_strn(1); g_valid_p[g_valid_n] = s; g_valid_v[g_valid_n++] = valid; return s;
#endif
}
static void del_case(size_t nt, size_t hc, size_t c0, size_t c1, size_t v0, size_t v1, size_t k5){
    common(); g_valid_n = 0; memset(&ev, 0, sizeof ev); ev.tags = tg; ev.tags_count = nt; if (nt == 0) vf_fill(ev.pubkey.data, 32); else memset(ev.pubkey.data, 0x5a + (int)nt, 32); ev.kind = vf_u16(); if (k5) ev.kind = 5; else VF_REQUIRE(ev.kind != 5);
    ev.content = hc ? vf_strn(hc - 1) : NULL;
    for (size_t i = 0; i < nt; i++) {
        size_t c = i ? c1 : c0; cls[i] = (int)c; vals[i][0] = c == 0 ? "e" : c == 1 ? "a" : vf_strn(1);
        size_t v = i ? v1 : v0; isv[i] = (int)(v & 1); vals[i][1] = value(isv[i], cls[i] == 1); tg[i].values = vals[i]; tg[i].count = 1 + (v >> 1); vals[i][2] = "x";
        if (cls[i] == 2) { VF_REQUIRE(!sp_eq(vals[i][0], "e") && !sp_eq(vals[i][0], "a")); }
    }
    uint16_t k0 = ev.kind; char *ct0 = ev.content; static nostr_deletion_request_t rq; rq.event_ids_count = 3; rq.reason = "x";
    VF_FAILS;
    nostr_relay_error_t r = nostr_deletion_parse(&ev, &rq);
    VF_ENSURE(ev.kind == k0 && ev.content == ct0 && ev.tags == tg && ev.tags_count == nt, "the event is not modified");
    if (ev.kind != 5) VF_ENSURE(r != NOSTR_RELAY_OK, "only kind 5 is a deletion");
    vf_may_fail = 0;
    if (r == NOSTR_RELAY_OK) {
        VF_REACH("parsed");
        for (int i = 0; i < 32; i++) VF_ENSURE(sp_islowhex(rq.pubkey[2*i]) && sp_islowhex(rq.pubkey[2*i+1]) && sp_hexval(rq.pubkey[2*i]) * 16 + sp_hexval(rq.pubkey[2*i+1]) == ev.pubkey.data[i], "the author is the event's pubkey");
        VF_ENSURE(rq.pubkey[64] == 0, "author terminated");
        VF_ENSURE(ev.content && ev.content[0] ? rq.reason && sp_eq(rq.reason, ev.content) : rq.reason == NULL, "reason is the content");
        size_t ne = 0, na = 0;
        for (size_t i = 0; i < nt; i++) if (tg[i].count >= 2 && isv[i]) {
            if (cls[i] == 0) { VF_ENSURE(ne < rq.event_ids_count && sp_eq(rq.event_ids[ne], vals[i][1]), "every valid e tag is listed, in order"); ne++; }
            if (cls[i] == 1) { VF_ENSURE(na < rq.addresses_count && sp_eq(rq.addresses[na], vals[i][1]), "every valid a tag is listed, in order"); na++; } }
        VF_ENSURE(rq.event_ids_count == ne && rq.addresses_count == na, "nothing else is listed");
        nostr_deletion_free(&rq);
        VF_ENSURE(!rq.event_ids && !rq.addresses && !rq.reason && !rq.event_ids_count && !rq.addresses_count, "free leaves an empty request");
    } else { VF_REACH_F("refused"); VF_ENSURE(ev.kind != 5 || vf_failed, "a kind 5 event is accepted");
        VF_ENSURE(!rq.event_ids && !rq.addresses && !rq.reason, "a refused request owns nothing"); }
    VF_ENSURE(vf_live == 0, "no leak, no double free");
    VF_ENSURE(nostr_deletion_parse(NULL, &rq) != NOSTR_RELAY_OK && nostr_deletion_parse(&ev, NULL) != NOSTR_RELAY_OK, "NULL is refused"); }
#ifndef DEL_BAD
#define DEL_BAD 0   /* two tags, the first of them malformed */
#endif
static void h1(size_t nt){
#ifdef FAIL_MAX
    VF_CASES(c0, 0, 1) VF_CASES(c1, 0, nt > 1 ? 1 : 0) if (nt) del_case(nt, 2, c0, c1, 3, 3, 1);
#else
    VF_CASES(c0, 0, nt > 0 ? 2 : 0) VF_CASES(c1, 0, nt > 1 ? 1 : 0) VF_CASES(v0, 1, nt == 1 ? 5 : nt ? 3 : 1) VF_CASES(k5, c0 == 1 && nt == 1 && v0 == 3 ? 0 : 1, 1) if ((nt == 2) == (NT == 2) && (nt != 2 || (v0 == 2) == DEL_BAD)) del_case(nt, (c0 + c1 + v0) % 3, c0, c1, v0, 3, k5);
#endif
}
#elif defined T_DELAUTH
static nostr_deletion_request_t rq; static char *ids[2];
static char g_hexid[65];
static char *cand(const char *near, size_t max){
#ifdef VF_NATIVE
    if (vf_bool()) { char *s = vf_tmp(200); strcpy(s, near); if (!vf_bool()) { size_t k = vf_range(0, strlen(s) - 1); s[k] ^= (char)vf_range(0, 1); } return s; }
#else
    (void)near;
#endif
    return vf_str(max); }
static void h1(size_t n){
    common(); memset(&ev, 0, sizeof ev); vf_fill(ev.id, 32); vf_fill(ev.pubkey.data, 32); ev.kind = vf_u16();
    char pk[65]; for (int i = 0; i < 32; i++) { pk[2*i] = "0123456789abcdef"[ev.pubkey.data[i] >> 4]; pk[2*i+1] = "0123456789abcdef"[ev.pubkey.data[i] & 15]; } pk[64] = 0;
    for (int i = 0; i < 32; i++) { g_hexid[2*i] = "0123456789abcdef"[ev.id[i] >> 4]; g_hexid[2*i+1] = "0123456789abcdef"[ev.id[i] & 15]; } g_hexid[64] = 0;
    memset(&rq, 0, sizeof rq); char *pc = cand(pk, 64); for (int i = 0; i < 64; i++) { rq.pubkey[i] = pc[i]; if (!pc[i]) break; } rq.pubkey[64] = 0;
    for (size_t i = 0; i < n; i++) ids[i] = cand(g_hexid, 65);
    rq.event_ids = ids; rq.event_ids_count = n;
    int listed = 0; for (size_t i = 0; i < n; i++) listed |= sp_eq(ids[i], g_hexid);
    bool r = nostr_deletion_authorized(&rq, &ev);
    VF_REACH("auth");
    VF_ENSURE(r == (sp_eq(rq.pubkey, pk) && listed), "authorized iff same author and the id is listed");
    VF_ENSURE(!nostr_deletion_authorized(NULL, &ev) && !nostr_deletion_authorized(&rq, NULL), "NULL is refused"); }
#elif defined T_DELADDR
static nostr_deletion_request_t rq; static char pk[65];
#ifndef VF_NATIVE   /* contract of "%d" on a five-digit number */
static void dec5(char *buf, size_t cap, size_t *pos, uint64_t v, int neg){ __CPROVER_assert(!neg && v >= 10000 && v <= 99999, "MODEL five-digit number");
    for (unsigned q = 10000; q; q /= 10) vfm_emit(buf, cap, pos, (char)('0' + (unsigned)v / q % 10)); }
#endif
/* contract of nostr_bytes_to_hex (C01), used for the caller: pk is the hex text of the event's pubkey */
void tohex_contract(const uint8_t *p, size_t n, char *o){ VF_ENSURE(p == ev.pubkey.data && n == 32, "the target's pubkey"); for (int i = 0; i <= 64; i++) o[i] = pk[i]; } static char *ids[2]; static char *dv[2] = { "d", NULL }; static nostr_tag tg;
#ifdef VF_NATIVE
static char *cand(const char *near){ char *s = vf_tmp(200); strcpy(s, near); if (!vf_bool()) { size_t k = vf_range(0, strlen(s) - 1); s[k] ^= (char)vf_range(0, 1); } return s; }
#endif
static void addr_case(size_t n, size_t sym, size_t hd){
    common(); (void)sym; memset(&ev, 0, sizeof ev); vf_fill(ev.pubkey.data, 32); ev.kind = (uint16_t)(vf_bool() ? 30000 + vf_range(0, 9999) : vf_u16());
    size_t dl = hd >= 2 ? hd - 2 : 0;   /* no d tag, a d tag without value, or a value of dl characters */
    ev.tags = &tg; ev.tags_count = hd > 0; tg.values = dv; tg.count = hd > 2 ? 2 : hd; dv[1] = vf_strn(dl); const char *d = hd >= 2 ? dv[1] : "";
#ifndef VF_NATIVE
    for (int i = 0; i < 64; i++) { pk[i] = vf_char(); VF_REQUIRE(sp_islowhex(pk[i])); } pk[64] = 0;
#else
    for (int i = 0; i < 32; i++) { pk[2*i] = "0123456789abcdef"[ev.pubkey.data[i] >> 4]; pk[2*i+1] = "0123456789abcdef"[ev.pubkey.data[i] & 15]; } pk[64] = 0;
#endif
    char want[5 + 1 + 64 + 1 + 3 + 1]; unsigned k = ev.kind; size_t p = 0;
    for (unsigned q = 10000; q; q /= 10) want[p++] = (char)('0' + k / q % 10);   /* five digits for the addressable range */
    want[p++] = ':'; for (int i = 0; i < 64; i++) want[p++] = pk[i]; want[p++] = ':'; for (size_t i = 0; i < dl; i++) want[p++] = d[i]; want[p] = 0;
    memset(&rq, 0, sizeof rq);
    char *pc = vf_bool() ? pk : vf_str(64); for (int i = 0; i < 64; i++) { rq.pubkey[i] = pc[i]; if (!pc[i]) break; } rq.pubkey[64] = 0;
#ifdef VF_NATIVE
    for (size_t i = 0; i < n; i++) ids[i] = cand(want);
#else
    for (size_t i = 0; i < n; i++) ids[i] = i == sym ? vf_str(75) : "x";
#endif
    rq.addresses = ids; rq.addresses_count = n;
    int listed = 0; for (size_t i = 0; i < n; i++) listed |= sp_eq(ids[i], want);
    bool r = nostr_deletion_authorized_address(&rq, &ev);
    VF_REACH("auth address");
    VF_ENSURE(r == (ev.kind >= 30000 && ev.kind < 40000 && sp_eq(rq.pubkey, pk) && listed), "authorized iff addressable, same author and the address is listed"); }
static void h1(size_t n){ VF_CASES(sym, 0, n ? n - 1 : 0) VF_CASES(hd, 0, 4) { if (n == 1 || (hd == 4 && sym + 1 == n)) addr_case(n, sym, hd); } }
#elif defined T_ADDR
#ifndef AMAX
#define AMAX 72
#endif
static void h1(size_t sh){ (void)sh;
#ifdef VF_NATIVE
    char *s = vf_tmp(100); int i = sprintf(s, "%d:", (int)vf_range(0, 40000)); for (int k = 0; k < 64; k++) s[i++] = "0123456789abcdef"[vf_range(0, 15)]; s[i++] = ':'; s[i++] = 'x'; s[i] = 0;
    if (vf_bool()) s[vf_range(0, (size_t)i - 1)] = vf_char();
#else
    char *s = vf_str(AMAX);
#endif
    size_t c1 = 0; while (s[c1] >= '0' && s[c1] <= '9') c1++;
    int ok = c1 > 0 && s[c1] == ':';
    if (ok) { for (size_t k = 1; k <= 64 && ok; k++) ok = sp_islowhex(s[c1 + k]); ok = ok && s[c1 + 65] == ':'; }
    VF_REACH("address");
    VF_ENSURE(nostr_validate_address(s) == ok, "address is digits ':' 64 lower-case hex ':' anything");
    VF_ENSURE(!nostr_validate_address(NULL), "NULL is refused");
    char *u = vf_str(66); size_t n = sp_len(u); int uo = n >= 1 && n <= 64; for (size_t k = 0; k < n; k++) if ((unsigned char)u[k] < 32 || (unsigned char)u[k] > 126) uo = 0;
    VF_ENSURE(nostr_validate_subscription_id(u) == uo, "a subscription id is 1 to 64 printable characters"); }
#elif defined T_TAGS
static void h1(size_t sh){
    common(); vfe_build(&ev, sh); g_ev = &ev; size_t nt = ev.tags_count; const nostr_tag *t = ev.tags;
    char *name = vf_str(NL); size_t max = vf_range(0, 3);
    int first2 = -1, first1 = -1; size_t n2 = 0;
    for (size_t i = 0; i < nt; i++) { if (t[i].count >= 1 && sp_eq(t[i].values[0], name)) { if (first1 < 0) first1 = (int)i; if (t[i].count >= 2) { if (first2 < 0) first2 = (int)i; n2++; } } }
    VF_REACH("tags");
    VF_ENSURE(nostr_event_get_tag_value(&ev, name) == (first2 < 0 ? NULL : t[first2].values[1]), "value of the first such tag that has one");
    VF_ENSURE(nostr_event_has_tag(&ev, name) == (first1 >= 0), "has_tag");
    VF_ENSURE(nostr_event_find_tag(&ev, name) == (first1 < 0 ? NULL : &t[first1]), "find_tag is the first such tag");
    const char *got[3] = { 0 }; size_t n = nostr_event_get_tag_values(&ev, name, got, max);
    VF_ENSURE(n == (n2 < max ? n2 : max), "as many values as there are, at most max");
    size_t k = 0; for (size_t i = 0; i < nt && k < n; i++) if (t[i].count >= 2 && sp_eq(t[i].values[0], name)) { VF_ENSURE(got[k] == t[i].values[1], "the values in tag order"); k++; }
    size_t at = vf_range(0, 4), oc = 9; const char **v = nostr_event_get_tag_at(&ev, at, &oc);
    VF_ENSURE(at < nt ? v == (const char**)t[at].values && oc == t[at].count : v == NULL && oc == 0, "tag_at is that tag");
    VF_ENSURE(nostr_event_get_tag(&ev, at) == (at < nt ? &t[at] : NULL) && nostr_event_get_tag_count(&ev) == nt, "get_tag is bounds-checked");
    if (at < nt) { size_t ix = vf_range(0, 4);
        VF_ENSURE(nostr_tag_get_value(&t[at], ix) == (ix < t[at].count ? t[at].values[ix] : NULL) && nostr_tag_get_value_count(&t[at]) == t[at].count, "tag values are bounds-checked");
        VF_ENSURE(nostr_tag_get_name(&t[at]) == (t[at].count ? t[at].values[0] : NULL), "tag name"); }
    nostr_tag_iterator_t it; nostr_tag_iterator_init(&it, &ev);
    for (size_t i = 0; i < nt; i++) { const char **w = nostr_tag_iterator_next(&it, &oc); VF_ENSURE(w == (const char**)t[i].values && oc == t[i].count, "the iterator visits every tag in order"); }
    VF_ENSURE(nostr_tag_iterator_next(&it, &oc) == NULL && oc == 0 && nostr_tag_iterator_next(&it, NULL) == NULL, "and then ends");
    nostr_tag_iterator_init(&it, &ev); nostr_tag_info_t inf;
    for (size_t i = 0; i < nt && t[i].count > 0; i++) { bool b = nostr_tag_iterator_next_info(&it, &inf);
        VF_ENSURE(b && inf.name == t[i].values[0] && inf.values_count == t[i].count - 1 && (t[i].count > 1 ? inf.values == (const char**)t[i].values + 1 : inf.values == NULL), "tag info is name and the remaining values"); }
    VF_ENSURE(nostr_tag_is_indexable(name) == (sp_len(name) == 1 && ((name[0] >= 'a' && name[0] <= 'z') || (name[0] >= 'A' && name[0] <= 'Z'))), "indexable means a single letter");
    VF_ENSURE(!nostr_event_get_tag_value(NULL, name) && !nostr_event_has_tag(NULL, name) && !nostr_event_find_tag(&ev, NULL) && !nostr_event_get_tag(NULL, 0) && !nostr_tag_get_value(NULL, 0) && !nostr_event_get_tag_values(&ev, name, NULL, 2), "NULL is refused"); }
#elif defined T_BIN
static char *vals[2][2]; static nostr_tag tg[2];
static void h1(size_t nt){
    common(); memset(&ev, 0, sizeof ev); ev.tags = tg; ev.tags_count = nt; char *s[2]; int ok[2] = {0}; size_t want = 0;
    for (size_t i = 0; i < nt; i++) {
        vals[i][0] = vf_bool() ? "e" : vf_bool() ? "p" : vf_str(2); s[i] = vf_str(65);
#ifdef VF_NATIVE
        if (vf_bool()) { for (int k = 0; k < 64; k++) s[i][k] = "0123456789abcdef"[vf_range(0, 15)]; s[i][64] = 0; }
#endif
        vals[i][1] = s[i]; tg[i].values = vals[i]; tg[i].count = 1 + (size_t)vf_bool();
        ok[i] = tg[i].count == 2 && sp_eq(vals[i][0], PFX); for (int k = 0; ok[i] && k < 64; k++) ok[i] = sp_islowhex(s[i][k]);
        ok[i] = ok[i] && s[i][64] == 0; want += (size_t)ok[i]; }
    VF_FAILS; size_t n = 9;
    uint8_t (*r)[32] = sp_eq(PFX, "e") ? nostr_event_get_e_tags_binary(&ev, &n) : nostr_event_get_p_tags_binary(&ev, &n);
    VF_REACH("binary tags");
    if (!r) VF_ENSURE(n == 0 && (want == 0 || vf_failed), "nothing only if there is nothing");
    else { VF_ENSURE(n == want, "one entry per well-formed tag"); size_t q = 0;
        for (size_t i = 0; i < nt; i++) if (ok[i] && q < n) { for (int k = 0; k < 32; k++) VF_ENSURE(r[q][k] == sp_hexval(s[i][2*k]) * 16 + sp_hexval(s[i][2*k+1]), "entry is the tag's 32 bytes"); q++; }
        nostr_free(r); }
    VF_ENSURE(vf_live == 0, "no leak"); }
#endif
#ifndef H1N
#define H1N VFE_NSH - 1
#endif
static void h(void){ VF_CASES(sh, 0, H1N) h1(sh); }
VF_MAIN(h)
