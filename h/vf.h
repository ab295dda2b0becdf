/* vf.h - the two-mode contract harness layer.
 *
 * Every harness is one translation unit that #includes the real /repo source
 * file, states the precondition of the function under contract with
 * VF_REQUIRE, calls it, and states the postcondition with VF_ENSURE.
 *
 *  - Verifier mode (CBMC): inputs are nondeterministic, VF_REQUIRE is an
 *    assumption, VF_ENSURE is a proof obligation, and every value that was
 *    chosen is logged through vf_log so that a counterexample can be replayed.
 *  - Native mode (-DVF_NATIVE, gcc + ASan/UBSan): the same harness runs the
 *    same real code on values read from a replay file, or on random values.
 */
#ifndef VF_H
#define VF_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <limits.h>
#include <time.h>
#include <errno.h>
#include <ctype.h>

#ifndef VF_NATIVE
/* ------------------------------------------------------------ verifier mode */
uint64_t nondet_vf_u64(void);
int64_t  nondet_vf_i64(void);
uint8_t  nondet_vf_u8(void);
char     nondet_vf_char(void);
_Bool    nondet_vf_bool(void);
size_t   nondet_vf_size(void);

uint64_t vf_log;
static inline uint64_t vf_u64(void){ uint64_t v = nondet_vf_u64(); vf_log = v; return v; }
static inline int64_t  vf_i64(void){ int64_t v = nondet_vf_i64(); vf_log = (uint64_t)v; return v; }
static inline uint32_t vf_u32(void){ uint32_t v = (uint32_t)nondet_vf_u64(); vf_log = v; return v; }
static inline uint16_t vf_u16(void){ uint16_t v = (uint16_t)nondet_vf_u64(); vf_log = v; return v; }
static inline uint8_t  vf_u8(void){ uint8_t v = nondet_vf_u8(); vf_log = v; return v; }
static inline char     vf_char(void){ char v = nondet_vf_char(); vf_log = (uint8_t)v; return v; }
static inline int      vf_bool(void){ _Bool v = nondet_vf_bool(); vf_log = v; return v; }
static inline int      vf_int(void){ int v = (int)nondet_vf_u64(); vf_log = (uint64_t)(int64_t)v; return v; }
/* an integer in [lo,hi] */
static inline size_t vf_range(size_t lo, size_t hi){ size_t v = nondet_vf_size(); __CPROVER_assume(v >= lo && v <= hi); vf_log = v; return v; }

#define VF_REQUIRE(c)   __CPROVER_assume(c)
#define VF_ENSURE(c, name) __CPROVER_assert(c, name)
#ifdef VF_NOREACH
#define VF_REACH(name)  ((void)0)
#else
#define VF_REACH(name)  __CPROVER_assert(0, "REACH " name)
#endif
#define VF_MAIN(fn)     void vf_entry(void){ fn(); }
/* harness-owned memory, one object per call */
static inline void *vf_tmp(size_t n){ void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
#else
/* -------------------------------------------------------------- native mode */
#include "vf_native.h"
#endif

/* ----------------------------------------------------------- common helpers */
/* case split: the body is executed once per value, with that value a constant
 * for the verifier's symbolic execution */
#define VF_CASES(n, lo, hi) for (size_t n = (lo), vf_pick_##n = vf_range(lo, hi); n <= (hi); n++) if (vf_pick_##n == n)

static inline void vf_fill(void *p, size_t n){ for (size_t vf_i = 0; vf_i < n; vf_i++) ((uint8_t*)p)[vf_i] = vf_u8(); }
/* buffer of exactly max+1 bytes holding an arbitrary string of length <= max */
#ifdef VF_NATIVE
static inline char *vf_str(size_t max){
    char *s = vf_tmp(max + 1); static const char hx[] = "0123456789abcdef";
    uint64_t r = vf_rnd() >> 20; size_t stop = max;
    int mode = vf_replaying ? 0 : r % 3;
    if (mode == 1) stop = max >= 2 && (r / 3) % 2 ? (max & ~(size_t)1) - (max % 2 ? 0 : 2) : max;
    if (mode == 2) stop = (r / 8) % (max + 1);
    for (size_t vf_i = 0; vf_i < max; vf_i++) {
        if (mode == 0) s[vf_i] = vf_char();
        else if (vf_i >= stop) s[vf_i] = (char)vf_rec(0);
        else if (mode == 1) s[vf_i] = (char)vf_rec((uint8_t)hx[(vf_rnd() >> 20) % 16]);
        else s[vf_i] = vf_char();
    }
    s[max] = 0;
    return s;
}
#else
static inline char *vf_str(size_t max){
    char *s = vf_tmp(max + 1);
    for (size_t vf_i = 0; vf_i < max; vf_i++) s[vf_i] = vf_char();
    s[max] = 0;
    return s;
}
#endif
/* a string of exactly n characters (n a constant in each case) */
#ifdef VF_NATIVE
static inline char *vf_strn(size_t n){ char *s = vf_tmp(n + 1);
    for (size_t vf_i = 0; vf_i < n; vf_i++) { s[vf_i] = vf_char(); if (!s[vf_i] && !vf_replaying) { s[vf_i] = 'a'; if (vf_tn <= (1<<16) && vf_tn) vf_trace[vf_tn-1] = 'a'; } VF_REQUIRE(s[vf_i]); }
    s[n] = 0; return s; }
#define vf_setlen(p, n) ((void)0)
#else
/* contract of strlen on strings whose length the harness fixed: keeps lengths
 * constant for the symbolic execution; any other string is measured */
#define VF_KN 24
static const char *vf_kp[VF_KN]; static size_t vf_kl[VF_KN]; static unsigned vf_kn;
static inline void vf_setlen(const char *p, size_t n){ if (vf_kn < VF_KN) { vf_kp[vf_kn] = p; vf_kl[vf_kn] = n; vf_kn++; } }
static inline char *vf_strn(size_t n){ char *s = vf_tmp(n + 1);
    for (size_t vf_i = 0; vf_i < n; vf_i++) { s[vf_i] = vf_char(); __CPROVER_assume(s[vf_i] != 0); }
    s[n] = 0; vf_setlen(s, n); return s; }
static inline size_t vf_strlen(const char *p){
    for (unsigned k = 0; k < vf_kn; k++) if (p == vf_kp[k]) return vf_kl[k];
    size_t n = 0; while (p[n]) n++;
    return n; }
#ifdef VF_KNOWNLEN
#define strlen vf_strlen
#endif
#endif
/* Ghost heap: the code under contract allocates through these when a harness
 * includes vf_heap.h; failures are injected and the balance is tracked. */

/* spec-side reimplementations (never the code under test) */
static inline size_t sp_len(const char *s){ size_t n = 0; while (s[n]) n++; return n; }
static inline int sp_eq(const char *a, const char *b){
    size_t i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
static inline int sp_hexval(char c){
    return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 :
           (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
static inline int sp_islowhex(char c){ return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'); }
static inline int sp_memeq(const void *a, const void *b, size_t n){
    int eq = 1;
    for (size_t i = 0; i < n; i++) if (((const uint8_t*)a)[i] != ((const uint8_t*)b)[i]) eq = 0;
    return eq; }
#endif
