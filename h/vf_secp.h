/* Contracts of the libsecp256k1 / RNG / wipe primitives, as executable ghosts
 * (both modes): each may fail, each output is arbitrary, and the ghost state
 * records what was asked so that the postcondition can be stated. */
#ifndef VF_SECP_H
#define VF_SECP_H
#include <secp256k1.h>
#include <secp256k1_extrakeys.h>
#include <secp256k1_schnorrsig.h>
static int g_init_ok, g_init_calls;
static secp256k1_context *g_ctx_real = (secp256k1_context*)&g_ctx_real;
secp256k1_context *secp256k1_ctx;
static int g_kp_made, g_kp_ok, g_kp_live; static const void *g_kp_ptr; static uint8_t g_kp_sec[32], g_kp_pub[32];
static int g_sig_made; static uint8_t g_sig_msg[32], g_sig_out[64], g_sig_aux[32], g_sig_sec[32]; static int g_sig_auxnull;
static int g_ver_calls, g_ver_ret; static uint8_t g_ver_sig[64], g_ver_msg[32], g_ver_pk[32]; static size_t g_ver_len;
static int g_parse_ret, g_parse_calls; static uint8_t g_parse_in[32];
static int g_rng_calls, g_rng_ok; static const uint8_t *g_rng_ptr; static uint8_t g_rng_out[32]; static int g_aux_live;
static void vfs_reset(void){ g_init_ok = g_init_calls = g_kp_made = g_kp_ok = g_kp_live = g_sig_made = g_ver_calls = g_ver_ret = g_parse_ret = g_parse_calls = g_rng_calls = g_rng_ok = g_aux_live = 0; g_rng_ptr = NULL; g_kp_ptr = NULL; g_sig_auxnull = 0;
    secp256k1_ctx = vf_bool() ? g_ctx_real : NULL; }
static void vfs_ctx(const void *c){ VF_ENSURE(c == g_ctx_real, "secp256k1 is only called with an initialised context"); }
static int vfs_keypair_create(const secp256k1_context *c, secp256k1_keypair *kp, const unsigned char *sk){
    vfs_ctx(c); g_kp_made++; g_kp_ok = vf_bool();
    if (!g_kp_ok) { memset(kp->data, 0, 96); return 0; }
    for (int i = 0; i < 32; i++) { g_kp_sec[i] = sk[i]; g_kp_pub[i] = vf_u8(); kp->data[i] = sk[i]; kp->data[32+i] = g_kp_pub[i]; }
    g_kp_live = 1; g_kp_ptr = kp; return 1; }
static int vfs_keypair_xonly_pub(const secp256k1_context *c, secp256k1_xonly_pubkey *pk, int *par, const secp256k1_keypair *kp){
    vfs_ctx(c); if (!vf_bool()) return 0;
    for (int i = 0; i < 32; i++) pk->data[i] = kp->data[32+i];
    if (par) *par = vf_bool(); return 1; }
static int vfs_xonly_serialize(const secp256k1_context *c, unsigned char *o, const secp256k1_xonly_pubkey *pk){
    vfs_ctx(c); if (!vf_bool()) return 0;
    for (int i = 0; i < 32; i++) o[i] = pk->data[i];
    return 1; }
static int vfs_xonly_parse(const secp256k1_context *c, secp256k1_xonly_pubkey *pk, const unsigned char *in){
    vfs_ctx(c); g_parse_calls++; g_parse_ret = vf_bool();
    for (int i = 0; i < 32; i++) { g_parse_in[i] = in[i]; pk->data[i] = g_parse_ret ? in[i] : 0; }
    return g_parse_ret; }
static int vfs_sign32(const secp256k1_context *c, unsigned char *sig, const unsigned char *msg, const secp256k1_keypair *kp, const unsigned char *aux){
    vfs_ctx(c); if (!vf_bool()) return 0;
    g_sig_made++; g_sig_auxnull = aux == NULL;
    for (int i = 0; i < 32; i++) { g_sig_msg[i] = msg[i]; g_sig_sec[i] = kp->data[i]; g_sig_aux[i] = aux ? aux[i] : 0; }
    for (int i = 0; i < 64; i++) { g_sig_out[i] = vf_u8(); sig[i] = g_sig_out[i]; }
    return 1; }
static int vfs_verify(const secp256k1_context *c, const unsigned char *sig, const unsigned char *msg, size_t len, const secp256k1_xonly_pubkey *pk){
    vfs_ctx(c); g_ver_calls++; g_ver_len = len; g_ver_ret = vf_bool();
    for (int i = 0; i < 64; i++) g_ver_sig[i] = sig[i];
    if (len == 32) for (int i = 0; i < 32; i++) g_ver_msg[i] = msg[i];
    for (int i = 0; i < 32; i++) g_ver_pk[i] = pk->data[i];
    return g_ver_ret; }
static int vfs_random(uint8_t *b, size_t n){
    g_rng_calls++; g_rng_ok = vf_bool() ? 1 : 0;
    if (!g_rng_ok) return vf_bool() ? 0 : -1;
    g_rng_ptr = b; g_aux_live = 1;
    for (size_t i = 0; i < n; i++) { uint8_t v = vf_u8(); b[i] = v; if (i < 32) g_rng_out[i] = v; }
    return 1; }
static void vfs_wipe(void *p, size_t n){
    for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = 0;
    if (p == g_kp_ptr && n >= sizeof(secp256k1_keypair)) g_kp_live = 0;
    if (p == g_rng_ptr && n >= 32) g_aux_live = 0; }
#define secp256k1_keypair_create vfs_keypair_create
#define secp256k1_keypair_xonly_pub vfs_keypair_xonly_pub
#define secp256k1_xonly_pubkey_serialize vfs_xonly_serialize
#define secp256k1_xonly_pubkey_parse vfs_xonly_parse
#define secp256k1_schnorrsig_sign32 vfs_sign32
#define secp256k1_schnorrsig_verify vfs_verify
#endif
