/* C02 - contracts of the bech32 key/id codec (bech32.c).
 *
 * bech32_polymod is proved equal to the BIP-173 polynomial (T_POLY, unbounded
 * loop contract).  Its callers are then checked against this contract:
 *     polymod(pre || c0..c5) = S(pre) ^ pack(c0..c5)
 * (lemma T_LEMMA: true of the BIP-173 polynomial for every state), where S is an
 * arbitrary function; g_pre/g_s are S at one arbitrary-but-fixed prefix. */
#include "vf.h"
#include "vf_libc.h"
#include "nostr.h"
#define MAXV 200
static const char SP_CHARSET[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static int sp_cs(char c){ int r = -1; for (int i = 0; i < 32; i++) if (SP_CHARSET[i] == c) r = i; return r; }
static uint32_t sp_step(uint32_t chk, uint8_t v){   /* BIP-173 */
    uint8_t b = (uint8_t)(chk >> 25);
    chk = ((chk & 0x1ffffff) << 5) ^ v;
    if (b & 1) chk ^= 0x3b6a57b2; if (b & 2) chk ^= 0x26508e6d; if (b & 4) chk ^= 0x1ea119fa;
    if (b & 8) chk ^= 0x3d4233dd; if (b & 16) chk ^= 0x2a1462b3;
    return chk; }
static uint32_t sp_pack6(const uint8_t *c){
    return ((uint32_t)c[0] << 25) ^ ((uint32_t)c[1] << 20) ^ ((uint32_t)c[2] << 15) ^ ((uint32_t)c[3] << 10) ^ ((uint32_t)c[4] << 5) ^ c[5]; }
uint32_t g_s; uint8_t g_pre[MAXV]; size_t g_n;   /* ghost: S(g_pre[0..g_n)) = g_s */
uint32_t g_chk;                                  /* ghost: BIP-173 state during T_POLY */
#ifndef VF_NATIVE
static _Bool poly_post(const uint8_t *v, size_t n, uint32_t ret){
    if (ret >> 30) return 0;
    if (n != g_n + 6) return 1;
    for (size_t i = 0; i < MAXV; i++) if (i < g_n && v[i] != g_pre[i]) return 1;
    return ret == (g_s ^ sp_pack6(v + g_n)); }
#ifdef VF_STUB_POLY
uint32_t polymod_contract(const uint8_t *values, size_t len){   /* contract used for calls of bech32_polymod */
    __CPROVER_assert(__CPROVER_r_ok(values, len), "polymod precondition: values[0..len) readable");
    uint32_t r = (uint32_t)nondet_vf_u64(); __CPROVER_assume(poly_post(values, len, r)); return r; }
#endif
#endif
#include "src/bech32.c"

/* spec bech32 state of hrp||data, used to define S at the fixed prefix natively */
static void set_prefix(const char *hrp, size_t hl, const uint8_t *data, size_t n){
    g_n = 2 * hl + 1 + n;
    for (size_t i = 0; i < hl; i++) { g_pre[i] = (uint8_t)hrp[i] >> 5; g_pre[hl + 1 + i] = hrp[i] & 31; }
    g_pre[hl] = 0;
    for (size_t i = 0; i < n; i++) g_pre[2 * hl + 1 + i] = data[i];
#ifdef VF_NATIVE
    uint32_t s = 1; for (size_t i = 0; i < g_n; i++) s = sp_step(s, g_pre[i]);
    for (int i = 0; i < 6; i++) s = sp_step(s, 0); g_s = s;
#else
    g_s = (uint32_t)nondet_vf_u64(); __CPROVER_assume(!(g_s >> 30));
#endif
}
/* bit j (msb first) of a byte string / of a 5-bit string */
#define BIT8(p, j) (((p)[(j) / 8] >> (7 - (j) % 8)) & 1)
#define BIT5(p, j) (((p)[(j) / 5] >> (4 - (j) % 5)) & 1)

#if defined(T_POLY)
static void h(void){
    size_t n = nondet_vf_size(); VF_REQUIRE(n <= ((size_t)1 << 28));
    const uint8_t *v = malloc(n); g_chk = 1;
    uint32_t r = bech32_polymod(v, n);
    VF_REACH("polymod returns");
    VF_ENSURE(r == g_chk, "polymod computes the BIP-173 checksum polynomial");
    VF_ENSURE(r >> 30 == 0, "polymod stays within 30 bits");
}
#elif defined(T_BPOLY)
static void h(void){
    uint8_t v[8]; size_t n = vf_range(0, 8); vf_fill(v, 8);
    for (int i = 0; i < 8; i++) VF_REQUIRE(v[i] < 32);
    uint32_t r = bech32_polymod(v, n), s = 1;
    for (size_t i = 0; i < 8; i++) if (i < n) s = sp_step(s, v[i]);
    VF_REACH("polymod returns");
    VF_ENSURE(r == s, "polymod computes the BIP-173 checksum polynomial");
}
#elif defined(T_LEMMA)
static void h(void){
    /* one step: a difference confined to the low 25 bits never reaches the feedback */
    uint32_t s = vf_u32(), d = vf_u32(); uint8_t c = vf_u8();
    VF_REQUIRE(!(s >> 30) && !(d >> 25) && c < 32);
    VF_REACH("lemma");
    VF_ENSURE(sp_step(s ^ d, c) == (sp_step(s, 0) ^ (d << 5) ^ c) && sp_step(s, 0) >> 30 == 0, "step(s ^ d, c) == step(s, 0) ^ (d << 5) ^ c for d < 2^25");
    /* six steps from d = 0: instantiate the step lemma with d0 = 0, d(i+1) = (di << 5) ^ ci */
    uint8_t k[6]; vf_fill(k, 6); uint32_t di = 0;
    for (int i = 0; i < 6; i++) { VF_REQUIRE(k[i] < 32); VF_ENSURE(!(di >> 25), "each of the six instances meets d < 2^25"); di = (di << 5) ^ k[i]; }
    VF_ENSURE(di == sp_pack6(k), "after six steps the difference is pack(c0..c5)");
}
#elif defined(T_ENC)   /* the three encoders; T_HRP: nostr_key_to_bech32 with any prefix of 1..HMAX chars */
#ifndef HMAX
#define HMAX 4
#endif
static void h(void){
    uint8_t id[32]; vf_fill(id, 32);
    char out[HMAX + 60 + 8]; size_t k = vf_range(0, 259), sz = vf_range(0, SIZE_MAX);
    out[0] = 'Z'; for (int i = 0; i < 8; i++) out[HMAX + 60 + i] = 'G';
    nostr_error_t e;
#if T_ENC == 0
    char hrp[HMAX + 1]; const size_t hl = HMAX;
    for (size_t i = 0; i < HMAX; i++) { hrp[i] = vf_char(); VF_REQUIRE(i >= hl || (hrp[i] >= 33 && hrp[i] < 127)); }
    hrp[hl] = 0; hrp[HMAX] = 0;
#elif T_ENC == 1
    const char *hrp = "nsec"; size_t hl = 4;
#else
    const char *hrp = "note"; size_t hl = 4;
#endif
    uint8_t d5[52];
    for (int i = 0; i < 52; i++) { unsigned v = 0; for (int b = 0; b < 5; b++) v = v * 2 + (5 * i + b < 256 ? BIT8(id, 5 * i + b) : 0); d5[i] = (uint8_t)v; }
    set_prefix(hrp, hl, d5, 52);
#if T_ENC == 0
    nostr_key key; memcpy(key.data, id, 32);
    e = nostr_key_to_bech32(&key, hrp, out, sz);
    VF_ENSURE(nostr_key_to_bech32(NULL, hrp, out, 64) != NOSTR_OK && nostr_key_to_bech32(&key, NULL, out, 64) != NOSTR_OK && nostr_key_to_bech32(&key, hrp, NULL, 64) != NOSTR_OK, "NULL rejected");
#elif T_ENC == 1
    nostr_privkey key; memcpy(key.data, id, 32);
    e = nostr_privkey_to_bech32(&key, out, sz);
    VF_ENSURE(nostr_privkey_to_bech32(NULL, out, 64) != NOSTR_OK && nostr_privkey_to_bech32(&key, NULL, 64) != NOSTR_OK, "NULL rejected");
#else
    e = nostr_event_id_to_bech32(id, out, sz);
    VF_ENSURE(nostr_event_id_to_bech32(NULL, out, 64) != NOSTR_OK && nostr_event_id_to_bech32(id, NULL, 64) != NOSTR_OK, "NULL rejected");
#endif
    VF_ENSURE((e == NOSTR_OK) == (hl > 0 && sz >= hl + 60), "encode succeeds exactly when the buffer holds the whole string");
    if (e == NOSTR_OK) {
#if HMAX > 0
        VF_REACH("encoded");
#endif
        size_t i = vf_range(0, 51), c = vf_range(0, 5);
        if (hl) VF_ENSURE(sp_memeq(out, hrp, hl), "human-readable part first");
        VF_ENSURE(out[hl] == '1', "separator");
        VF_ENSURE(out[hl + 1 + i] == SP_CHARSET[d5[i]], "data character i is the i-th 5-bit group of the 32 bytes");
        VF_ENSURE(out[hl + 53 + c] == SP_CHARSET[((g_s ^ 1) >> (5 * (5 - c))) & 31], "checksum character c makes the polynomial 1");
        VF_ENSURE(out[hl + 59] == 0, "terminated");
    } else { VF_REACH("refused"); VF_ENSURE(out[0] == 'Z', "a refused call writes nothing"); }
    VF_ENSURE(out[HMAX + 60] == 'G', "frame");
}
#elif defined(T_DEC)   /* decoders on strings of the only acceptable length */
static void h(void){
#if T_DEC == 0
#ifndef HL
#define HL 4
#endif
    char s[HL + 60]; const size_t hl = HL;
    for (size_t i = 0; i < HL; i++) { s[i] = vf_char(); VF_REQUIRE(s[i] >= 33 && s[i] < 127); }
    s[hl] = '1';
#elif T_DEC == 1
    char s[64] = "nsec1"; const size_t hl = 4;
#else
    char s[64] = "note1"; const size_t hl = 4;
#endif
    uint8_t d[58]; int valid = 1;
    for (int i = 0; i < 58; i++) {
        char c = vf_char();
#ifdef VF_NATIVE
        c = SP_CHARSET[(uint8_t)c % 32]; if (i == 51 && vf_bool()) c = SP_CHARSET[sp_cs(c) & 16];
#else
        VF_REQUIRE(c != 0);
#endif
        s[hl + 1 + i] = c; }
    s[hl + 59] = 0;
    for (int i = 0; i < 58; i++) { int v = sp_cs(s[hl + 1 + i]); if (v < 0) { valid = 0; v = 0; } d[i] = (uint8_t)v; }
#if T_DEC == 0
    for (int i = 0; i < 58; i++) VF_REQUIRE(s[hl + 1 + i] != '1');   /* the last '1' is the separator: other splits have another length */
#endif
    set_prefix(s, hl, d, 52);
#ifdef VF_NATIVE
    if (vf_range(0, 9)) for (int c = 0; c < 6; c++) { d[52 + c] = ((g_s ^ 1) >> (5 * (5 - c))) & 31; s[hl + 53 + c] = SP_CHARSET[d[52 + c]]; }
#endif
    int ck = (g_s ^ sp_pack6(d + 52)) == 1, pad = (d[51] & 15) == 0;
    uint8_t out[40]; for (int i = 0; i < 40; i++) out[i] = 0xEE;
    nostr_error_t e;
#if T_DEC == 0
    e = nostr_key_from_bech32(s, (nostr_key*)out);
#elif T_DEC == 1
    e = nostr_privkey_from_bech32(s, (nostr_privkey*)out);
#else
    e = nostr_event_id_from_bech32(s, out);
#endif
    VF_ENSURE((e == NOSTR_OK) == (valid && ck && pad), "decode accepts exactly charset + valid checksum + zero padding");
    size_t k = vf_range(0, 255);
    if (e == NOSTR_OK) { VF_REACH("accepted"); VF_ENSURE(BIT8(out, k) == BIT5(d, k), "decoded bit k is data bit k"); }
    else { VF_REACH("rejected"); VF_ENSURE(out[0] == 0xEE, "a rejected string leaves the destination unchanged"); }
    VF_ENSURE(out[32] == 0xEE, "frame");
}
#elif defined(T_ANY)   /* every string: no out-of-bounds access; wrong length or prefix rejected */
#ifndef LMAX
#define LMAX 92
#endif
static void h(void){
    char s[LMAX + 1]; size_t len = vf_range(0, LMAX);
    for (size_t i = 0; i < LMAX; i++) { s[i] = vf_char(); VF_REQUIRE(i >= len || s[i] != 0); }
    s[LMAX] = 0; s[len] = 0;
#ifdef VF_NATIVE
    int shape = vf_range(0, 3);   /* bias: charset characters with an early separator, valid checksum length */
    if (shape) { for (size_t i = 0; i < len; i++) s[i] = SP_CHARSET[(uint8_t)s[i] % 32]; size_t p = vf_range(1, 6); if (p < len) s[p] = '1';
        if (shape > 1 && len > 5) memcpy(s, T_ANY == 1 ? "nsec1" : T_ANY == 2 ? "note1" : "npub1", 5); }
#endif
    g_n = MAXV;   /* the checksum outcome is arbitrary */
    nostr_error_t e;
#if T_ANY == 0
    nostr_key k; e = nostr_key_from_bech32(s, &k);
    size_t sep = SIZE_MAX; for (size_t i = 0; i < LMAX; i++) if (i < len && s[i] == '1') sep = i;
    VF_ENSURE(e == NOSTR_OK ? (sep != SIZE_MAX && sep >= 1 && len == sep + 59) : e == NOSTR_ERR_ENCODING, "only a non-empty prefix, separator and 58 data characters can be accepted");
    VF_ENSURE(nostr_key_from_bech32(NULL, &k) != NOSTR_OK && nostr_key_from_bech32(s, NULL) != NOSTR_OK, "NULL rejected");
#elif T_ANY == 1
    nostr_privkey k; e = nostr_privkey_from_bech32(s, &k);
    VF_ENSURE(e == NOSTR_OK ? (len == 63 && sp_memeq(s, "nsec1", 5)) : e == NOSTR_ERR_ENCODING, "only nsec1 + 58 characters can be accepted");
    VF_ENSURE(nostr_privkey_from_bech32(NULL, &k) != NOSTR_OK && nostr_privkey_from_bech32(s, NULL) != NOSTR_OK, "NULL rejected");
#else
    uint8_t k[32]; e = nostr_event_id_from_bech32(s, k);
    VF_ENSURE(e == NOSTR_OK ? (len == 63 && sp_memeq(s, "note1", 5)) : e == NOSTR_ERR_ENCODING, "only note1 + 58 characters can be accepted");
    VF_ENSURE(nostr_event_id_from_bech32(NULL, k) != NOSTR_OK && nostr_event_id_from_bech32(s, NULL) != NOSTR_OK, "NULL rejected");
#endif
    if (e == NOSTR_OK) VF_REACH("accepted"); else VF_REACH("rejected");
}
#endif
VF_MAIN(h)
