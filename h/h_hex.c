/* C01 - contracts of the hex codec: utils.c (nostr_hex_*), key.c
 * (nostr_key_from_hex ...), relay_protocol.c (nostr_hex_to_bytes,
 * nostr_bytes_to_hex, nostr_validate_hex64, nostr_validate_hex_prefix). */
#include "vf.h"
#define ISHX(c) (((c) >= '0' && (c) <= '9') || ((c) >= 'a' && (c) <= 'f') || ((c) >= 'A' && (c) <= 'F'))
#define HXV(c)  ((c) <= '9' ? (c) - '0' : (c) >= 'a' ? (c) - 'a' + 10 : (c) - 'A' + 10)
#define HXD(n)  ((char)((n) < 10 ? '0' + (n) : 'a' + (n) - 10))

#ifdef T_UNB     /* ------------------------------------- unbounded, loop contracts */
#define MAXN ((size_t)1 << 28)
size_t g_len, g_k;   /* ghost: length of the input string, arbitrary witness index */
size_t strlen(const char *s){ return g_len; }               /* contract of strlen on that string */
/* contract of sprintf(o, "%02x", byte) */
static int vf_sprintf(char *o, const char *fmt, unsigned v){
    __CPROVER_assert(fmt[0] == '%' && fmt[1] == '0' && fmt[2] == '2' && fmt[3] == 'x' && fmt[4] == 0, "MODEL only %02x is specified here");
    __CPROVER_assert(v < 256, "MODEL %02x of a byte");
    o[0] = HXD(v >> 4); o[1] = HXD(v & 15); o[2] = 0; return 2; }
#define sprintf vf_sprintf
#else
#include "vf_libc.h"
#endif
#include "nostr.h"
#include "nostr_relay_protocol.h"
#include "src/utils.c"
#if defined(T_KEY)
#include "src/key.c"
#endif
#if defined(T_RELAY)
#include "src/relay_protocol.c"
#endif

#ifdef T_UNB
static void h(void){
    g_len = nondet_vf_size(); g_k = nondet_vf_size();
    size_t cap = nondet_vf_size();
    VF_REQUIRE(g_len <= MAXN && cap <= MAXN);
#if defined(T_DEC)
    const char *hex = malloc(g_len + 1); uint8_t *out = malloc(cap);
    /* T_VALID: every character of hex is a hex digit, instantiated in the loop body at the indices it reads */
# ifdef T_RELAY
    nostr_relay_error_t e = nostr_hex_to_bytes(hex, g_len, out, cap);
    int r = e == NOSTR_RELAY_OK ? (int)(g_len / 2) : -1;
# else
    int r = nostr_hex_decode(hex, out, cap);
# endif
    VF_REACH("decode returns");
# ifdef T_VALID
    VF_ENSURE(!(g_len % 2 == 0 && g_len / 2 <= cap) || r == (int)(g_len / 2), "decode accepts every even-length all-hex string that fits");
# else
    VF_ENSURE(r == -1 || r == (int)(g_len / 2), "decode returns the byte count or -1");
    VF_ENSURE(r == -1 || (g_len % 2 == 0 && g_len / 2 <= cap), "decode rejects odd lengths and outputs that do not fit");
    VF_ENSURE(r == -1 || g_k >= g_len / 2 || (ISHX(hex[2*g_k]) && ISHX(hex[2*g_k+1])), "decode rejects any non-hex character");
    VF_ENSURE(r == -1 || g_k >= g_len / 2 || out[g_k] == HXV(hex[2*g_k]) * 16 + HXV(hex[2*g_k+1]), "decoded byte k is the value of digit pair k");
# endif
#elif defined(T_ENC)
    size_t n = g_len;
    const uint8_t *in = malloc(n); char *out = malloc(2 * n + 1);
# ifdef T_RELAY
    nostr_bytes_to_hex(in, n, out);
# else
    nostr_hex_encode(in, n, out);
# endif
    VF_REACH("encode returns");
    VF_ENSURE(out[2 * n] == 0, "encode terminates the string at 2n");
    VF_ENSURE(g_k >= n || (out[2*g_k] == HXD(in[g_k] >> 4) && out[2*g_k+1] == HXD(in[g_k] & 15)), "encode writes the two lower-case digits of byte k");
#endif
}
#elif defined(T_FIXED)
/* functions whose domain is a fixed 64-character string: complete */
#ifdef VF_NATIVE
#define mk(sz) malloc(sz)
#else
#define mk(sz) malloc(sz)
#endif
static char hexbuf[80];
static void h(void){
    /* every string of length <= 66 (longer ones are settled by the length test, see unit *_len) */
    size_t n = 66;
    for (size_t i = 0; i < n; i++) hexbuf[i] = vf_char();
    hexbuf[n] = 0;
    int all = 1, low = 1; size_t len = n;
    for (size_t i = n; i-- > 0; ) if (hexbuf[i] == 0) len = i;
    for (size_t i = 0; i < 64; i++) { if (!ISHX(hexbuf[i])) all = 0; if (!sp_islowhex(hexbuf[i])) low = 0; }
    int ok = len == 64 && all;
    size_t k = vf_range(0, 31);
#ifdef T_KEY
    struct { nostr_key key; uint8_t guard[8]; } o; nostr_privkey p;
    uint8_t g = vf_u8(); o.guard[0] = g;
    nostr_error_t e = nostr_key_from_hex(hexbuf, &o.key);
    nostr_error_t e2 = nostr_privkey_from_hex(hexbuf, &p);
    VF_ENSURE((e == NOSTR_OK) == ok && (ok || e == NOSTR_ERR_INVALID_KEY), "key_from_hex accepts exactly 64 hex digits");
    VF_ENSURE((e2 == NOSTR_OK) == ok && (ok || e2 == NOSTR_ERR_INVALID_KEY), "privkey_from_hex accepts exactly 64 hex digits");
    if (ok) { VF_REACH("accepted");
        VF_ENSURE(o.key.data[k] == HXV(hexbuf[2*k]) * 16 + HXV(hexbuf[2*k+1]), "key byte k is digit pair k");
        VF_ENSURE(p.data[k] == HXV(hexbuf[2*k]) * 16 + HXV(hexbuf[2*k+1]), "privkey byte k is digit pair k"); }
    else VF_REACH("rejected");
    VF_ENSURE(o.guard[0] == g, "frame");
    VF_ENSURE(nostr_key_from_hex(NULL, &o.key) == NOSTR_ERR_INVALID_PARAM && nostr_key_from_hex(hexbuf, NULL) == NOSTR_ERR_INVALID_PARAM, "NULL rejected");
    VF_ENSURE(nostr_privkey_from_hex(NULL, &p) == NOSTR_ERR_INVALID_PARAM && nostr_privkey_from_hex(hexbuf, NULL) == NOSTR_ERR_INVALID_PARAM, "NULL rejected (priv)");
#else
    VF_ENSURE(nostr_validate_hex64(hexbuf) == (len == 64 && low), "validate_hex64 accepts exactly 64 lower-case hex digits");
    int plow = 1; for (size_t i = 0; i < 66; i++) if (i < len && !sp_islowhex(hexbuf[i])) plow = 0;
    VF_ENSURE(nostr_validate_hex_prefix(hexbuf) == (len >= 1 && len <= 64 && plow), "validate_hex_prefix accepts exactly 1..64 lower-case hex digits");
    VF_ENSURE(!nostr_validate_hex64(NULL) && !nostr_validate_hex_prefix(NULL), "NULL rejected");
    if (len == 64 && low) VF_REACH("accepted"); else VF_REACH("rejected");
#endif
}
#elif defined(T_TOHEX)
static void h(void){
    nostr_key key; nostr_privkey priv; char *o = malloc(65), *p = malloc(65);
    VF_REQUIRE(o && p);
    vf_fill(key.data, 32); memcpy(priv.data, key.data, 32);
    size_t sz = vf_range(0, SIZE_MAX), k = vf_range(0, 31);
    o[0] = 'Z'; p[0] = 'Z';
    nostr_error_t e = nostr_key_to_hex(&key, o, sz), e2 = nostr_privkey_to_hex(&priv, p, sz);
    VF_ENSURE(e == (sz < 65 ? NOSTR_ERR_INVALID_PARAM : NOSTR_OK) && e2 == e, "to_hex succeeds exactly when the buffer holds 65 bytes");
    if (e == NOSTR_OK) { VF_REACH("encoded");
        VF_ENSURE(o[64] == 0 && o[2*k] == HXD(key.data[k] >> 4) && o[2*k+1] == HXD(key.data[k] & 15), "pubkey digit pair k is byte k");
        VF_ENSURE(p[64] == 0 && p[2*k] == HXD(key.data[k] >> 4) && p[2*k+1] == HXD(key.data[k] & 15), "privkey digit pair k is byte k");
        nostr_key back; nostr_privkey bp;
        VF_ENSURE(nostr_key_from_hex(o, &back) == NOSTR_OK && back.data[k] == key.data[k], "from_hex(to_hex(key)) == key");
        VF_ENSURE(nostr_privkey_from_hex(p, &bp) == NOSTR_OK && bp.data[k] == key.data[k], "from_hex(to_hex(privkey)) == privkey");
    } else { VF_REACH("too small"); VF_ENSURE(o[0] == 'Z' && p[0] == 'Z', "a rejected call writes nothing"); }
    VF_ENSURE(nostr_key_to_hex(NULL, o, 65) == NOSTR_ERR_INVALID_PARAM && nostr_key_to_hex(&key, NULL, 65) == NOSTR_ERR_INVALID_PARAM, "NULL rejected");
    VF_ENSURE(nostr_privkey_to_hex(NULL, o, 65) == NOSTR_ERR_INVALID_PARAM && nostr_privkey_to_hex(&priv, NULL, 65) == NOSTR_ERR_INVALID_PARAM, "NULL rejected (priv)");
}
#elif defined(T_BDEC)   /* bounded companion, also the replay harness */
#define N 10
static void h(void){
    char hex[N + 1]; uint8_t out[N];
    size_t cap = vf_range(0, N / 2 + 1);
    for (size_t i = 0; i < N; i++) hex[i] = vf_char();
    hex[N] = 0;
    size_t len = sp_len(hex);
    for (size_t i = 0; i < N; i++) out[i] = 0xA5;
#ifdef T_RELAY
    nostr_relay_error_t e = nostr_hex_to_bytes(hex, len, out, cap);
    int r = e == NOSTR_RELAY_OK ? (int)(len / 2) : -1;
    VF_ENSURE(nostr_hex_to_bytes(NULL, len, out, cap) != NOSTR_RELAY_OK && nostr_hex_to_bytes(hex, len, NULL, cap) != NOSTR_RELAY_OK, "decode rejects NULL");
#else
    int r = nostr_hex_decode(hex, out, cap);
    VF_ENSURE(nostr_hex_decode(NULL, out, cap) == -1 && nostr_hex_decode(hex, NULL, cap) == -1, "decode rejects NULL");
#endif
    int allhex = 1;
    for (size_t i = 0; i < N; i++) if (i < len && !ISHX(hex[i])) allhex = 0;
    int ok = len % 2 == 0 && len / 2 <= cap && allhex;
    VF_ENSURE(ok ? r == (int)(len / 2) : r == -1, "decode accepts exactly even-length all-hex strings that fit");
    for (size_t k = 0; k < N / 2; k++)
        if (ok && k < len / 2) VF_ENSURE(out[k] == HXV(hex[2*k]) * 16 + HXV(hex[2*k+1]), "decoded byte k is the value of digit pair k");
    for (size_t k = 0; k < N; k++) if (k >= cap) VF_ENSURE(out[k] == 0xA5, "decode writes nothing past the destination");
    if (ok) VF_REACH("accepts"); else VF_REACH("rejects");
}
#elif defined(T_BENC)
#define N 5
static void h(void){
    uint8_t in[N]; size_t n = vf_range(0, N);
    char out[2 * N + 2];
    for (size_t i = 0; i < N; i++) in[i] = vf_u8();
    for (size_t i = 0; i < sizeof out; i++) out[i] = 'Z';
#ifdef T_RELAY
    nostr_bytes_to_hex(in, n, out);
#else
    nostr_hex_encode(in, n, out);
#endif
    VF_REACH("encode returns");
    for (size_t k = 0; k < N; k++) if (k < n) VF_ENSURE(out[2*k] == HXD(in[k] >> 4) && out[2*k+1] == HXD(in[k] & 15), "encode writes the two lower-case digits of byte k");
    VF_ENSURE(out[2*n] == 0 && out[2*n+1] == 'Z', "encode terminates at 2n and writes nothing past it");
    uint8_t back[N];
#ifdef T_RELAY
    VF_ENSURE(nostr_hex_to_bytes(out, 2 * n, back, n) == NOSTR_RELAY_OK, "decode(encode(x)) accepted");
#else
    VF_ENSURE(nostr_hex_decode(out, back, n) == (int)n, "decode(encode(x)) has the length of x");
#endif
    for (size_t k = 0; k < N; k++) if (k < n) VF_ENSURE(back[k] == in[k], "decode(encode(x)) == x");
}
#endif
VF_MAIN(h)
