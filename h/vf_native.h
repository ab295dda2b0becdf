/* native side of vf.h: replay of logged values, or seeded random values */
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
static uint64_t *vf_vals; static size_t vf_nvals, vf_pos; static int vf_replaying;
static uint64_t vf_rs; static jmp_buf vf_jb; static unsigned long vf_reached, vf_iters, vf_rejected;
static int vf_cur_fd = -1;
static uint64_t vf_trace[1<<16]; static size_t vf_tn;
static uint64_t vf_rnd(void){ vf_rs ^= vf_rs << 13; vf_rs ^= vf_rs >> 7; vf_rs ^= vf_rs << 17; return vf_rs * 2685821657736338717ull; }
static uint64_t vf_next(int kind, size_t lo, size_t hi){
    uint64_t v;
    if (vf_replaying) { v = vf_pos < vf_nvals ? vf_vals[vf_pos] : 0; vf_pos++; return v; }
    uint64_t r = vf_rnd() >> 11;
    switch (kind) {
    case 0: { static const uint64_t sp[] = {0,1,2,0xffffffffull,0x100000000ull,0x7fffffffffffffffull,~0ull,0x8000000000000000ull,65535,65536,86400,1000};
        v = (r % 4 == 0) ? sp[(r/4) % 12] : (r % 4 == 1) ? (r/4) % 16 : (r % 4 == 2) ? (r/4) % 70000 : vf_rnd(); break; }
    case 1: { static const uint8_t sp[] = {0,1,0x7f,0x80,0xff,2,3,32};
        v = (r % 3 == 0) ? sp[(r/3) % 8] : (r/3) & 0xff; break; }
    case 2: { static const char sp[] = "0123456789abcdefABCDEF\0aep1:,;&<>=/\"\\ _-.@+'\n\0zqn9";
        v = (r % 8 == 0) ? ((r/8) & 0xff) : (uint8_t)sp[(r/8) % (sizeof sp - 1)]; break; }
    case 3: v = r & 1; break;
    default: v = (hi - lo == SIZE_MAX) ? r : lo + r % (hi - lo + 1); if ((vf_rnd()>>20) % 8 == 0) v = hi; break;
    }
    return v;
}
static uint64_t vf_rec(uint64_t v){ if (vf_tn < (1<<16)) vf_trace[vf_tn++] = v; return v; }
static inline uint64_t vf_u64(void){ return vf_rec(vf_next(0,0,0)); }
static inline int64_t  vf_i64(void){ return (int64_t)vf_rec(vf_next(0,0,0)); }
static inline uint32_t vf_u32(void){ return (uint32_t)vf_rec((uint32_t)vf_next(0,0,0)); }
static inline uint16_t vf_u16(void){ return (uint16_t)vf_rec((uint16_t)vf_next(0,0,0)); }
static inline uint8_t  vf_u8(void){ return (uint8_t)vf_rec((uint8_t)vf_next(1,0,0)); }
static inline char     vf_char(void){ return (char)vf_rec((uint8_t)vf_next(2,0,0)); }
static inline int      vf_bool(void){ return (int)vf_rec(vf_next(3,0,0) & 1); }
static inline int      vf_int(void){ return (int)vf_rec((uint64_t)(int64_t)(int)vf_next(0,0,0)); }
static inline size_t vf_range(size_t lo, size_t hi){ size_t v = (size_t)vf_next(4,lo,hi); if (v < lo || v > hi) { vf_rejected++; longjmp(vf_jb, 1);} return vf_rec(v); }
static void vf_dump(FILE *f){ for (size_t i = 0; i < vf_tn; i++) fprintf(f, "%llu\n", (unsigned long long)vf_trace[i]); }
static void *vf_tmps[4096]; static size_t vf_ntmps;
static void *vf_tmp(size_t n){ void *p = malloc(n); if (!p) abort(); if (vf_ntmps < 4096) vf_tmps[vf_ntmps++] = p; return p; }
static void vf_tmps_free(void){ while (vf_ntmps) free(vf_tmps[--vf_ntmps]); }
#define VF_REQUIRE(c) do { if (!(c)) { vf_rejected++; longjmp(vf_jb, 1); } } while (0)
#define VF_ENSURE(c, name) do { if (!(c)) vf_fail(name, __FILE__, __LINE__); } while (0)
#define VF_REACH(name) (vf_reached++)
static const char *vf_dumpfile;
static void vf_fail(const char *name, const char *file, int line){
    printf("NATIVE-FAIL obligation=\"%s\" at %s:%d\n", name, file, line);
    if (vf_dumpfile && !vf_replaying) { FILE *f = fopen(vf_dumpfile, "w"); if (f) { vf_dump(f); fclose(f); } }
    fflush(stdout); _exit(3);
}
void __asan_set_death_callback(void (*cb)(void));
void __sanitizer_set_death_callback(void (*cb)(void));
static void vf_death(void){
    printf("NATIVE-FAIL obligation=\"memory safety / undefined behaviour (sanitizer)\"\n");
    if (vf_dumpfile && !vf_replaying) { FILE *f = fopen(vf_dumpfile, "w"); if (f) { vf_dump(f); fclose(f); } }
    fflush(stdout);
}
static void vf_abrt(int s){ (void)s; vf_death(); _exit(3); }
/* called by libubsan after it printed a report */
void __ubsan_on_report(void){ fflush(stderr); vf_death(); _exit(3); }
static void vf_hang(int s){ (void)s; vf_fail("termination (no answer within 20 s)", __FILE__, __LINE__); }
#include <signal.h>
/* usage: prog replay FILE | prog fuzz SEED SECONDS DUMPFILE */
static int vf_native_main(int argc, char **argv, void (*fn)(void)){
    __sanitizer_set_death_callback(vf_death);
    signal(SIGABRT, vf_abrt); signal(SIGALRM, vf_hang);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        FILE *f = fopen(argv[2], "r"); unsigned long long x; size_t cap = 1<<20;
        vf_vals = malloc(cap * sizeof *vf_vals); vf_replaying = 1;
        while (f && vf_nvals < cap && fscanf(f, "%llu", &x) == 1) vf_vals[vf_nvals++] = x;
        if (f) fclose(f);
        if (setjmp(vf_jb) == 0) { alarm(20); fn(); printf("NATIVE-PASS reached=%lu\n", vf_reached); return 0; }
        printf("NATIVE-INCONCLUSIVE precondition not met\n"); return 0;
    }
    uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1; double secs = argc > 3 ? atof(argv[3]) : 5;
    vf_dumpfile = argc > 4 ? argv[4] : NULL;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    volatile uint64_t it = 0;
    for (;; it++) {
        if (it % 64 == 0) { alarm(20); clock_gettime(CLOCK_MONOTONIC, &t1);
            if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 > secs) break; }
        vf_rs = (seed + 1) * 0x9E3779B97F4A7C15ull + (it + 1) * 0xD1B54A32D192ED03ull; if (!vf_rs) vf_rs = 1;
        for (int k = 0; k < 4; k++) vf_rnd();
        vf_tn = 0; vf_tmps_free();
        if (setjmp(vf_jb) == 0) fn();
    }
    printf("NATIVE-PASS iterations=%llu rejected=%lu reached=%lu\n", (unsigned long long)it, vf_rejected, vf_reached);
    return 0;
}
#define VF_MAIN(fn) int main(int argc, char **argv){ return vf_native_main(argc, argv, fn); }
