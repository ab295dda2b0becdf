/* contracts of event.c */
#include "vf.h"
#include "vf_libc.h"
#include "vf_heap.h"
#include "vf_cjson.h"
#include <nostr.h>
#include "vf_secp.h"
#ifdef HAVE_MBEDTLS
#include <mbedtls/sha256.h>
#else
#include <openssl/sha.h>
#endif
/* nostr_hex_decode and nostr_constant_time_memcmp: the real code (C01 proves it) */
#include "src/utils.c"
/* callees in other translation units: their contracts */
#define secure_wipe vfs_wipe
#define nostr_random_bytes vfs_random
#define nostr_init vfe_init
static nostr_error_t vfe_init(void){ g_init_calls++; if (vf_bool()) { secp256k1_ctx = g_ctx_real; return NOSTR_OK; } return NOSTR_ERR_MEMORY; }
#define nostr_config_get_current vfe_config
static nostr_config g_cfg; static int g_cfg_null;
static const nostr_config *vfe_config(void){ return g_cfg_null ? NULL : &g_cfg; }
#define time(x) vfe_time(x)
static time_t g_now; static time_t vfe_time(time_t *t){ if (t) *t = g_now; return g_now; }
#include "src/event.c"
#undef time
#include "vf_event.h"

static nostr_event ev; static const nostr_event *g_ev; static int g_tree_mode, g_tree_ok;
/* ------------------------------------------------------- the NIP-01 hash spec */
static uint8_t g_hash[32];
#ifdef VF_NATIVE
#include <openssl/sha.h>
static char rb[1 << 16]; static size_t rn;
static void rput(const char *s){ while (*s) rb[rn++] = *s++; }
static void rstr(const char *s){
    char t[8]; rb[rn++] = '"';
    for (; *s; s++) { unsigned char c = *s;
        switch (c) { case '"': rput("\\\""); break; case '\\': rput("\\\\"); break; case '\b': rput("\\b"); break; case '\f': rput("\\f"); break;
        case '\n': rput("\\n"); break; case '\r': rput("\\r"); break; case '\t': rput("\\t"); break;
        default: if (c < 32) { sprintf(t, "\\u%04x", c); rput(t); } else rb[rn++] = c; } }
    rb[rn++] = '"'; }
static void spec_hash(const nostr_event *e, uint8_t *out){
    char t[80]; rn = 0; rput("[0,\"");
    for (int i = 0; i < 32; i++) { sprintf(t, "%02x", e->pubkey.data[i]); rput(t); }
    sprintf(t, "\",%lld,%d,[", (long long)e->created_at, (int)e->kind); rput(t);
    for (size_t i = 0; i < e->tags_count; i++) { if (i) rput(","); rput("[");
        for (size_t j = 0; j < e->tags[i].count; j++) { if (j) rput(","); rstr(e->tags[i].values[j] ? e->tags[i].values[j] : ""); }
        rput("]"); }
    rput("],"); rstr(e->content ? e->content : ""); rput("]");
    SHA256((uint8_t*)rb, rn, out); }
#endif
/* ------------------------------------------------------------- tree contracts */
static int tree_str(const cJSON *c, const char *s){ return c && cJSON_IsString(c) && sp_eq(c->valuestring, s); }
static int tree_hex(const cJSON *c, const uint8_t *b, size_t n){
    if (!c || !cJSON_IsString(c)) return 0;
    int ok = 1;
    for (size_t i = 0; i < n; i++) {
        if (!sp_islowhex(c->valuestring[2*i]) || !sp_islowhex(c->valuestring[2*i+1])) return 0;
        ok &= sp_hexval(c->valuestring[2*i]) * 16 + sp_hexval(c->valuestring[2*i+1]) == b[i]; }
    return ok && c->valuestring[2*n] == 0; }
static int tree_num(const cJSON *c, double d){ return c && cJSON_IsNumber(c) && c->valuedouble == d; }
static int tree_tags(const cJSON *a, const nostr_event *e){
    if (!a || !cJSON_IsArray(a)) return 0;
    const cJSON *t = a->child;
    for (size_t i = 0; i < e->tags_count; i++, t = t->next) {
        if (!t || !cJSON_IsArray(t)) return 0;
        const cJSON *v = t->child;
        for (size_t j = 0; j < e->tags[i].count; j++, v = v->next) if (!tree_str(v, e->tags[i].values[j] ? e->tags[i].values[j] : "")) return 0;
        if (v) return 0;
    }
    return t == NULL; }
static const cJSON *nth(const cJSON *a, int n){ const cJSON *c = a->child; while (n-- && c) c = c->next; return c; }
static void vfj_printed(const cJSON *t){
    if (g_tree_mode == 1) {
        VF_ENSURE(t && cJSON_IsArray(t) && nth(t, 5) && !nth(t, 6), "serialization is an array of exactly six items");
        VF_ENSURE(tree_num(nth(t, 0), 0), "item 0 is the version 0");
        VF_ENSURE(tree_hex(nth(t, 1), g_ev->pubkey.data, 32), "item 1 is the lower-case hex pubkey");
        VF_ENSURE(tree_num(nth(t, 2), (double)g_ev->created_at), "item 2 is created_at");
        VF_ENSURE(tree_num(nth(t, 3), g_ev->kind), "item 3 is kind");
        VF_ENSURE(tree_tags(nth(t, 4), g_ev), "item 4 holds every tag and value in order");
        VF_ENSURE(tree_str(nth(t, 5), g_ev->content ? g_ev->content : ""), "item 5 is the content");
    } else {
        VF_ENSURE(t && cJSON_IsObject(t) && nth(t, 6) && !nth(t, 7), "event object has exactly seven members");
        VF_ENSURE(tree_hex(cJSON_GetObjectItem(t, "id"), g_ev->id, 32), "id member");
        VF_ENSURE(tree_hex(cJSON_GetObjectItem(t, "pubkey"), g_ev->pubkey.data, 32), "pubkey member");
        VF_ENSURE(tree_num(cJSON_GetObjectItem(t, "created_at"), (double)g_ev->created_at), "created_at member");
        VF_ENSURE(tree_num(cJSON_GetObjectItem(t, "kind"), g_ev->kind), "kind member");
        VF_ENSURE(tree_tags(cJSON_GetObjectItem(t, "tags"), g_ev), "tags member holds every tag and value in order");
        VF_ENSURE(tree_str(cJSON_GetObjectItem(t, "content"), g_ev->content ? g_ev->content : ""), "content member");
        VF_ENSURE(tree_hex(cJSON_GetObjectItem(t, "sig"), g_ev->sig, 64), "sig member");
    }
    g_tree_ok = 1;
}
#ifndef VF_NATIVE
static int g_hashed;
#ifndef HASH_FREE
static void sha_contract(const uint8_t *d, size_t n, uint8_t *out){
    VF_ENSURE(vfj_prints == 1 && (const char*)d == vfj_token, "the hash input is the serialization");
    VF_ENSURE(n == sp_len(vfj_token), "the hash input is the whole serialization");
    g_hashed++;
    for (int i = 0; i < 32; i++) { g_hash[i] = nondet_vf_u8(); out[i] = g_hash[i]; } }
#ifdef HAVE_MBEDTLS
void mbedtls_sha256(const unsigned char *d, size_t n, unsigned char *o, int is224){ VF_ENSURE(is224 == 0, "SHA-256, not SHA-224"); sha_contract(d, n, o); }
#else
unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *md){ sha_contract(d, n, md); return md; }
#endif
#endif
#endif
/* ------------------------------------------- contract of nostr_event_compute_id
 * (proved by T_ID), used for the callers */
static int g_cid_calls, g_cid_ok; static uint8_t g_cid_pub[32];
nostr_error_t cid_contract(nostr_event *e){
    VF_ENSURE(e != NULL, "compute_id gets an event");
    g_cid_calls++;
    VF_ENSURE(e->created_at == g_ev->created_at && e->kind == g_ev->kind && e->tags == g_ev->tags && e->tags_count == g_ev->tags_count && e->content == g_ev->content, "the id is computed over this event's fields");
    for (int i = 0; i < 32; i++) g_cid_pub[i] = e->pubkey.data[i];
    g_cid_ok = vf_bool();
    if (!g_cid_ok) return NOSTR_ERR_MEMORY;
    for (int i = 0; i < 32; i++) { g_hash[i] = vf_u8(); e->id[i] = g_hash[i]; }
    return NOSTR_OK; }
/* is id the NIP-01 hash of e? */
static int id_is_hash(const nostr_event *e, const uint8_t *id){
#ifdef VF_NATIVE
    uint8_t h[32]; spec_hash(e, h); return sp_memeq(h, id, 32);
#else
    return g_cid_calls && g_cid_ok && sp_memeq(g_hash, id, 32) && sp_memeq(g_cid_pub, e->pubkey.data, 32);
#endif
}
#ifdef VF_NATIVE
#define vf_kn_reset() ((void)0)
#else
#define vf_kn_reset() (vf_kn = 0)
#endif
static void common(void){ vf_kn_reset();
    vfs_reset(); vfj_init(); vf_may_fail = 0; vf_live = 0; vf_failed = 0; vf_alloc_no = 0; g_cid_calls = g_cid_ok = 0; g_tree_ok = 0;
    vf_fill(&g_cfg, sizeof g_cfg); g_cfg_null = vf_bool(); }

#if defined T_VERIFY
static nostr_event before;
static void h1(size_t sh){
    common(); vfe_build(&ev, sh); g_ev = &ev;
#ifdef VF_NATIVE
    VF_REQUIRE(ev.created_at > -1000000000000000 && ev.created_at < 1000000000000000);
    if (vf_bool()) spec_hash(&ev, ev.id);
#endif
    before = ev;
    int nul = vf_bool() && vf_bool();
    nostr_error_t r = nostr_event_verify(nul ? NULL : &ev);
    if (nul) { VF_ENSURE(r != NOSTR_OK, "NULL event is rejected"); return; }
    if (r == NOSTR_OK) {
        VF_REACH("accept");
        VF_ENSURE(id_is_hash(&ev, before.id), "accepted event: id is the hash of the event");
        VF_ENSURE(g_ver_calls >= 1 && g_ver_ret == 1, "accepted event: the signature check said yes");
        VF_ENSURE(g_ver_len == 32 && sp_memeq(g_ver_msg, before.id, 32), "accepted event: the signature is over the id");
        VF_ENSURE(sp_memeq(g_ver_sig, before.sig, 64), "accepted event: the event's signature was checked");
        VF_ENSURE(g_parse_ret == 1 && sp_memeq(g_parse_in, before.pubkey.data, 32) && sp_memeq(g_ver_pk, before.pubkey.data, 32), "accepted event: checked under the event's pubkey");
    } else {
        VF_REACH("reject");
        VF_ENSURE(!(g_cid_ok && id_is_hash(&ev, before.id) && g_parse_calls && g_parse_ret && g_ver_calls && g_ver_ret), "a valid event is accepted");
        VF_ENSURE(!g_ver_calls || g_ver_ret || r == NOSTR_ERR_INVALID_SIGNATURE, "a bad signature is reported as such");
    }
    VF_ENSURE(sp_memeq(&before, &ev, sizeof ev), "verification does not modify the event");
}
#elif defined T_SIGN
static nostr_event before; static nostr_privkey sk, sk0;
static void h1(size_t sh){
    common(); vfe_build(&ev, sh); g_ev = &ev; vf_fill(&sk, 32); sk0 = sk;
#ifdef VF_NATIVE
    VF_REQUIRE(ev.created_at > -1000000000000000 && ev.created_at < 1000000000000000);
#endif
    before = ev;
    int nul = (int)vf_range(0, 3);
    nostr_error_t r = nostr_event_sign(nul == 1 ? NULL : &ev, nul == 2 ? NULL : &sk);
    VF_ENSURE(!g_kp_live, "the keypair holding the secret is wiped on every path");
    VF_ENSURE(!g_aux_live, "the nonce randomness is wiped on every path");
    if (nul == 1 || nul == 2) { VF_ENSURE(r != NOSTR_OK, "NULL argument is rejected"); return; }
    VF_ENSURE(sp_memeq(&sk, &sk0, 32), "the private key is not modified");
    VF_ENSURE(ev.created_at == before.created_at && ev.kind == before.kind && ev.tags == before.tags && ev.tags_count == before.tags_count && ev.content == before.content, "signing leaves the signed fields alone");
    if (r == NOSTR_OK) {
        VF_REACH("signed");
        VF_ENSURE(g_kp_ok && sp_memeq(g_kp_sec, sk0.data, 32), "the keypair is that of the given private key");
        VF_ENSURE(sp_memeq(ev.pubkey.data, g_kp_pub, 32), "event pubkey is the signer's");
        VF_ENSURE(id_is_hash(&ev, ev.id), "id is the hash of the event with the signer's pubkey");
        VF_ENSURE(g_sig_made == 1 && sp_memeq(g_sig_msg, ev.id, 32) && sp_memeq(g_sig_sec, sk0.data, 32), "the signature is over the final id, by the given key");
        VF_ENSURE(sp_memeq(g_sig_out, ev.sig, 64), "the event carries the signature");
        VF_ENSURE(g_rng_ok == 1 && !g_sig_auxnull && sp_memeq(g_sig_aux, g_rng_out, 32), "nonce derivation is hedged with fresh randomness");
    } else VF_REACH("failed");
}
#elif defined T_ID || defined T_TOJSON
static nostr_event before;
static void h1(size_t sh){
    common(); vfe_build(&ev, sh); g_ev = &ev;
#ifndef T_CONTENT
#endif
    VF_REQUIRE(ev.created_at > -1000000000000000 && ev.created_at < 1000000000000000);
    before = ev;
    VF_FAILS;
#ifdef T_ID
    g_tree_mode = 1;
    nostr_error_t r = nostr_event_compute_id(&ev);
    if (r == NOSTR_OK) {
        VF_REACH("id computed");
#ifdef VF_NATIVE
        uint8_t hh[32]; spec_hash(&before, hh); VF_ENSURE(sp_memeq(hh, ev.id, 32), "id is SHA-256 of the NIP-01 serialization");
#else
        VF_ENSURE(g_tree_ok && g_hashed == 1 && sp_memeq(g_hash, ev.id, 32), "id is SHA-256 of the NIP-01 serialization");
#endif
        for (int i = 0; i < 32; i++) before.id[i] = ev.id[i];
    } else {
        VF_REACH_F("no memory");
        VF_ENSURE(vf_failed, "only an allocation failure makes it fail");
    }
    VF_ENSURE(sp_memeq(&before, &ev, sizeof ev), "only the id changes");
    VF_ENSURE(VFJ_LIVE() == 0, "no leak");
#else
    g_tree_mode = 2;
    char *out = NULL;
    nostr_error_t r = nostr_event_to_json(&ev, &out);
    if (r == NOSTR_OK) {
        VF_REACH("serialized");
        VF_ENSURE(out != NULL, "text returned");
        vfj_check_text(out);
        VF_ENSURE(g_tree_ok, "every field was serialized");
        vf_free(out);
    } else { VF_REACH_F("no memory"); VF_ENSURE(vf_failed, "only an allocation failure makes it fail"); }
    VF_ENSURE(sp_memeq(&before, &ev, sizeof ev), "event unchanged");
    VF_ENSURE(VFJ_LIVE() == 0, "no leak");
#endif
}
#elif defined T_CREATE
static void h1(size_t sh){
    common(); (void)sh; VF_FAILS; g_now = (time_t)vf_i64();
    nostr_event *e = (nostr_event*)&ev;
    nostr_error_t r = nostr_event_create(&e);
    if (r == NOSTR_OK) {
        VF_REACH("created");
        VF_ENSURE(e && e->tags_count == 0 && !e->tags && !e->content && e->kind == 0 && e->created_at == g_now, "a new event is empty and stamped now");
        VF_ENSURE(e->tag_arena && e->tag_arena->used == 0 && e->tag_arena->memory, "arena ready");
        ((char*)e->tag_arena->memory)[e->tag_arena->capacity - 1] = 0;
        const char *c = vf_str(2);
        nostr_error_t q = nostr_event_set_content(e, c);
        VF_ENSURE(q == NOSTR_OK ? e->content && e->content != c && sp_eq(e->content, c) : vf_failed, "content is copied");
        c = vf_str(1);
        q = nostr_event_set_content(e, c);
        VF_ENSURE(q == NOSTR_OK ? e->content && sp_eq(e->content, c) : !e->content || vf_failed, "content is replaced");
        VF_ENSURE(nostr_event_set_content(e, NULL) == NOSTR_ERR_INVALID_PARAM && nostr_event_set_content(NULL, c) == NOSTR_ERR_INVALID_PARAM, "NULL arguments are rejected");
        nostr_event_destroy(e);
    } else { VF_REACH_F("no memory"); VF_ENSURE(vf_failed && e == NULL, "failure hands back no event"); }
    nostr_event_destroy(NULL);
    VF_ENSURE(vf_live == 0, "no leak, no double free");
}
#elif defined T_ADDTAG
/* The arena invariant: pre-state is any event whose tags live in its arena */
#ifndef CAP
#define CAP 64
#endif
static char *old_v[NT + 1][NV + 1]; static size_t old_l[NT + 1][NV + 1];
static void arena_tag(const nostr_tag_arena *a, const nostr_tag *t, size_t cnt, char *const *v, const size_t *l, const char *name){
    VF_ENSURE(t->count == cnt, "tag keeps its number of values");
    VF_ENSURE((uintptr_t)t->values % sizeof(char*) == 0, "value arrays are aligned");
#ifndef VF_NATIVE
    VF_ENSURE(__CPROVER_same_object(t->values, a->memory), "value arrays live in the arena");
#endif
    VF_ENSURE((char*)t->values >= (char*)a->memory && (char*)(t->values + cnt) <= (char*)a->memory + a->used, "value array inside the used part");
    for (size_t j = 0; j < cnt; j++) {
        const char *s = t->values[j]; int eq = 1;
        VF_ENSURE(s != NULL, "value present");
#ifndef VF_NATIVE
        VF_ENSURE(__CPROVER_same_object(s, a->memory), "values live in the arena");
#endif
        VF_ENSURE(s >= (char*)a->memory && s + l[j] < (char*)a->memory + a->used, "values inside the used part");
        for (size_t k = 0; k <= l[j]; k++) eq &= s[k] == v[j][k];
        VF_ENSURE(eq, "value text is intact");
    } }
static void add_tag_case(size_t sh, size_t gap, size_t cnt, size_t l0, size_t l1, size_t nulat){
    common(); memset(&ev, 0, sizeof ev);
    /* any pre-state: nt tags laid out in an arena of CAP bytes, behind a gap */
    nostr_tag_arena *a = vf_malloc(sizeof *a); char *m = vf_malloc(CAP); ev.tag_arena = a; a->memory = m; a->capacity = CAP;
    size_t used = 8 * gap, nt = (size_t)vfe_sh[sh][0];
    ev.tags = nt ? vf_malloc(nt * sizeof(nostr_tag)) : NULL; ev.tags_count = nt;
    for (size_t i = 0; i < nt; i++) {
        size_t c = (size_t)vfe_sh[sh][1 + i];
        ev.tags[i].values = (char**)(m + used); ev.tags[i].count = c; used += 8 * c;
        for (size_t j = 0; j < c; j++) {
            size_t l = (i + j) % (NL + 1);
            char *s = vf_strn(l); old_v[i][j] = s; old_l[i][j] = l; ev.tags[i].values[j] = m + used;
            for (size_t k = 0; k <= l; k++) m[used + k] = s[k];
            used += l + 1; }
        used = (used + 7) / 8 * 8;
    }
    a->used = used;
    if (used > CAP) { vf_free(a->memory); vf_free(a); vf_free(ev.tags); return; }
    const char *nv[NV + 1]; char *in[NV + 1]; size_t il[NV + 1];
    for (size_t j = 0; j < cnt; j++) { il[j] = j ? l1 : l0; in[j] = vf_strn(il[j]); nv[j] = j == nulat ? NULL : in[j]; }
    int nul = nulat < cnt;
    int full = !g_cfg_null && nt >= g_cfg.max_tags;
    VF_FAILS;
    nostr_error_t r = nostr_event_add_tag(&ev, nv, cnt);
    VF_ENSURE(ev.tag_arena == a && a->used <= a->capacity, "arena: used <= capacity");
    for (size_t i = 0; i < nt; i++) arena_tag(a, &ev.tags[i], (size_t)vfe_sh[sh][1 + i], old_v[i], old_l[i], "earlier");
    if (r == NOSTR_OK) {
        VF_REACH("added");
        VF_ENSURE(cnt > 0 && !nul && !full, "an empty tag, a NULL value or a tag beyond the configured limit is refused");
        VF_ENSURE(ev.tags_count == nt + 1, "exactly one tag is appended");
        arena_tag(a, &ev.tags[nt], cnt, in, il, "new");
    } else {
        VF_ENSURE(cnt == 0 || nul || full || vf_failed, "a valid tag within the limit is accepted");
        VF_ENSURE(ev.tags_count == nt, "a refused tag leaves the tag list as it was");
    }
    vf_free(a->memory); vf_free(a); vf_free(ev.tags);
    VF_ENSURE(vf_live == 0, "nothing leaks");
}
#ifndef CNT
#define CNT NV
#endif
static void h1(size_t sh){
    VF_CASES(gap, 0, GAP) VF_CASES(cnt, 0, CNT) VF_CASES(l0, 0, cnt ? NL : 0) VF_CASES(na, 0, cnt) add_tag_case(sh, gap, cnt, l0, (l0 + gap) % (NL + 1), na);
}
#elif defined T_FROMJSON
static char *fs; 
#ifdef VF_NATIVE   /* libcjson's text form is exact only up to 15 digits */
#define NUMMAX ((size_t)100000000000000)
#else
#define NUMMAX ((size_t)1 << 60)
#endif
static cJSON *mk(int kind, size_t sl){           /* 0 absent 1 string 2 number 3 null */
    if (kind == 1) return cJSON_CreateString(vf_str(sl));
    if (kind == 2) { int64_t n = (int64_t)vf_range(0, NUMMAX); return cJSON_CreateNumber((double)(vf_bool() ? -n : n) * (vf_bool() ? 1.0 : 0.5)); }
    return cJSON_CreateNull(); }
static int hexok(const char *s, size_t n){
    for (size_t i = 0; i < 2 * n; i++) if (sp_hexval(s[i]) < 0) return 0;
    return s[2*n] == 0; }
static int hexeq(const char *s, const uint8_t *b, size_t n){
    int ok = 1; for (size_t i = 0; i < n; i++) ok &= sp_hexval(s[2*i]) * 16 + sp_hexval(s[2*i+1]) == b[i];
    return ok; }
#ifndef FIELD
#define FIELD 0
#endif
static const char *copy(const cJSON *c){ size_t n = sp_len(c->valuestring); char *p = vf_tmp(VFJ_SMAX); size_t i = 0; for (; c->valuestring[i]; i++) p[i] = c->valuestring[i]; p[i] = 0; (void)n; return p; }
/* contract of nostr_event_add_tag (C06), used for the caller: appends a copy of
 * exactly these values, or refuses and changes nothing */
static size_t g_at_n, x_cnt[5], x_len[5][4]; static const char *x_v[5][4]; static int g_at_fail, g_at_ok = 1;
nostr_error_t at_contract(nostr_event *e, const char **values, size_t count){
    VF_ENSURE(e && values && count > 0, "add_tag precondition");
    if (vf_bool()) { g_at_fail = 1; return NOSTR_ERR_MEMORY; }
    VF_ENSURE(g_at_n < 4, "MODEL at most 4 tags"); VF_REQUIRE(g_at_n < 4);
    VF_ENSURE(count == x_cnt[g_at_n], "every tag is kept, in order, with its size");
    for (size_t j = 0; j < x_cnt[g_at_n] && j < count; j++) { int eq = values[j] != NULL; for (size_t q = 0; eq && q <= x_len[g_at_n][j]; q++) eq &= values[j][q] == x_v[g_at_n][j][q]; VF_ENSURE(eq, "every tag value is kept"); }
    g_at_n++; e->tags_count++;
    return NOSTR_OK; }
static void h1(size_t sh){
    common(); (void)sh; g_cfg.max_tags = (uint32_t)vf_range(0, 10000); g_cfg.max_content_size = vf_u32(); g_at_n = 0; g_at_fail = 0;
    cJSON *root = cJSON_CreateObject();
    const char *s_id = NULL, *s_pk = NULL, *s_sig = NULL, *s_ct = NULL; double d_at = 0, d_kind = 0; int h_at = 0, h_kind = 0;
    cJSON *c;
#if FIELD == 1
    VF_CASES(k1, 0, 2) { if (k1) { c = mk((int)k1, 66); if (k1 == 1) s_id = copy(c); cJSON_AddItemToObject(root, "id", c); } }
#endif
#if FIELD == 2
    VF_CASES(k2, 0, 2) { if (k2) { c = mk((int)k2, 66); if (k2 == 1) s_pk = copy(c); cJSON_AddItemToObject(root, "pubkey", c); } }
#endif
#if FIELD == 3
    VF_CASES(k3, 0, 2) { if (k3) { c = mk((int)k3, 130); if (k3 == 1) s_sig = copy(c); cJSON_AddItemToObject(root, "sig", c); } }
#endif
#if FIELD == 4
    VF_CASES(k4, 0, 2) { if (k4) { c = mk((int)k4, 3); if (k4 == 2) { h_at = 1; d_at = c->valuedouble; } cJSON_AddItemToObject(root, "created_at", c); } }
    VF_CASES(k5, 0, 2) { if (k5) { c = mk((int)k5, 3); if (k5 == 2) { h_kind = 1; d_kind = c->valuedouble; } cJSON_AddItemToObject(root, "kind", c); } }
#endif
#if FIELD == 5
    VF_CASES(k6, 0, 2) { if (k6) { c = mk((int)k6, 3); if (k6 == 1) s_ct = copy(c); cJSON_AddItemToObject(root, "content", c); } }
#endif
    size_t nt = 0; const char *tv[3][3]; size_t tl[3][3], tc[3] = {0}, kept = 0;
#if FIELD == 6
    {
        cJSON *ta = cJSON_CreateArray(); cJSON_AddItemToObject(root, "tags", ta); nt = (size_t)vfe_sh[sh][0];
        for (size_t i = 0; i < nt; i++) {
            int cnt = vfe_sh[sh][1 + i]; tc[i] = cnt < 0 ? 0 : (size_t)cnt; kept += cnt > 0;
            if (cnt < 0) { cJSON_AddItemToArray(ta, cJSON_CreateNull()); continue; }
            cJSON *t = cJSON_CreateArray(); cJSON_AddItemToArray(ta, t);
            for (int j = 0; j < cnt; j++) {
                size_t l = (i + (size_t)j + 1) % 3;
                if (j == 2) { tv[i][j] = ""; l = 0; c = cJSON_CreateNumber(1); }
                else { tv[i][j] = vf_strn(l); c = cJSON_CreateString(tv[i][j]); }
                tl[i][j] = l; cJSON_AddItemToArray(t, c); x_len[kept - 1][j] = l; x_v[kept - 1][j] = tv[i][j]; }
            if (cnt > 0) x_cnt[kept - 1] = tc[i];
        }
    }
#endif
    char *txt = vfj_text(root);
#ifdef VF_NATIVE
    vf_live = 0;
#endif
    VF_FAILS;
    nostr_event *e = &ev;
    nostr_error_t r = nostr_event_from_json(txt, &e);
    int badid = s_id && !hexok(s_id, 32), badpk = s_pk && !hexok(s_pk, 32), badsig = s_sig && !hexok(s_sig, 64);
    int badat = h_at && !(d_at >= -9007199254740991.0 && d_at <= 9007199254740991.0 && d_at == (double)(int64_t)d_at);
    int badk = h_kind && !(d_kind >= 0 && d_kind <= 65535 && d_kind == (double)(int64_t)d_kind);
    int toolong = !g_cfg_null && s_ct && sp_len(s_ct) > g_cfg.max_content_size;
    int toomany = !g_cfg_null && nt > g_cfg.max_tags;
    vf_may_fail = 0;
    if (r == NOSTR_OK) {
        VF_REACH("parsed");
        VF_ENSURE(!badid && !badpk && !badsig, "malformed hex in id, pubkey or sig is rejected");
        VF_ENSURE(!badat, "a created_at that is not an integer is rejected");
        VF_ENSURE(!badk, "a kind outside 0..65535 is rejected");
        VF_ENSURE(!toolong && !toomany, "configured limits on content and tags hold");
        VF_ENSURE(e && e != &ev, "an event is handed over");
        static const uint8_t z[64];
        VF_ENSURE(s_id ? hexeq(s_id, e->id, 32) : sp_memeq(e->id, z, 32), "id is the id member");
        VF_ENSURE(s_pk ? hexeq(s_pk, e->pubkey.data, 32) : sp_memeq(e->pubkey.data, z, 32), "pubkey is the pubkey member");
        VF_ENSURE(s_sig ? hexeq(s_sig, e->sig, 64) : sp_memeq(e->sig, z, 64), "sig is the sig member");
        VF_ENSURE((double)e->created_at == d_at, "created_at is the created_at member");
        VF_ENSURE((double)e->kind == d_kind, "kind is the kind member");
        VF_ENSURE(s_ct ? e->content && sp_eq(e->content, s_ct) : e->content == NULL, "content is the content member");
        VF_ENSURE(e->tags_count == kept, "no tag is invented or dropped");
#ifdef VF_NATIVE
        size_t k = 0;
        for (size_t i = 0; i < nt; i++) if (tc[i] > 0) {
            VF_ENSURE(e->tags[k].count == tc[i], "every tag is kept, in order, with its size");
            for (size_t j = 0; j < tc[i]; j++) VF_ENSURE(sp_eq(e->tags[k].values[j], tv[i][j]), "every tag value is kept");
            k++; }
#else
        VF_ENSURE(g_at_n == kept && g_at_ok, "every tag is kept, in order, with its size and its values");
#endif
        nostr_event_destroy(e);
    } else {
        VF_REACH("rejected");
        VF_ENSURE(badid || badpk || badsig || badat || badk || toolong || toomany || vf_failed || g_at_fail, "a well-formed event within the limits is accepted");
        VF_ENSURE(e == NULL, "a rejected event hands back no pointer");
    }
    vfj_done(txt);
#ifndef VF_NATIVE
    if (vfj_next) { cJSON_Delete(vfj_next); vfj_next = NULL; }
#endif
    VF_ENSURE(VFJ_LIVE() == 0, "no leak, no double free");
}
#endif
static void h(void){ VF_CASES(sh, 0, VFE_NSH - 1) h1(sh); }
VF_MAIN(h)
