/* Contracts (executable models) of libc functions the verifier's own library
 * leaves without a body.  Only used in verifier mode; native runs use glibc. */
#ifndef VF_LIBC_H
#define VF_LIBC_H
#ifndef VF_NATIVE
#include <stdarg.h>
static void vfm_emit(char *buf, size_t cap, size_t *pos, char c){ if (buf && *pos + 1 < cap) buf[*pos] = c; (*pos)++; }
static void vfm_str(char *buf, size_t cap, size_t *pos, const char *s, int prec){
    for (size_t i = 0; (prec < 0 || i < (size_t)prec) && s[i]; i++) vfm_emit(buf, cap, pos, s[i]); }
static void vfm_dec(char *buf, size_t cap, size_t *pos, uint64_t v, int neg){
    /* decimal digits, most significant first: the unique canonical digits */
    char t[20]; int n = 0;
    do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v && n < 20);
    if (neg) vfm_emit(buf, cap, pos, '-');
    while (n > 0) vfm_emit(buf, cap, pos, t[--n]); }
static void vfm_hex(char *buf, size_t cap, size_t *pos, uint64_t v, int width, int upper){
    int n = 1; uint64_t w = v; while (w >>= 4) n++;
    for (int k = (n > width ? n : width) - 1; k >= 0; k--) {
        unsigned d = k >= 16 ? 0 : (unsigned)((v >> (4 * k)) & 15);
        vfm_emit(buf, cap, pos, (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10)); } }
/* 2-digit byte is by far the common case: keep it branch-free */
static void vfm_hexbyte(char *buf, size_t cap, size_t *pos, unsigned v, int upper){
    unsigned hi = (v >> 4) & 15, lo = v & 15;
    vfm_emit(buf, cap, pos, (char)(hi < 10 ? '0' + hi : (upper ? 'A' : 'a') + hi - 10));
    vfm_emit(buf, cap, pos, (char)(lo < 10 ? '0' + lo : (upper ? 'A' : 'a') + lo - 10)); }
#ifdef VFM_DEC_HOOK
static void VFM_DEC_HOOK(char *buf, size_t cap, size_t *pos, uint64_t v, int neg);
#else
#define VFM_DEC_HOOK vfm_dec
#endif
/* The verifier passes variadic arguments without the default promotions, so the
 * model reads each argument at the size it was passed with. */
static int64_t vfm_sarg(va_list *app){
    size_t sz = __CPROVER_OBJECT_SIZE(*(void**)*app);
    if (sz == 1) return (int64_t)va_arg(*app, uint8_t);
    if (sz == 2) return (int64_t)va_arg(*app, uint16_t);
    if (sz == 4) return (int64_t)va_arg(*app, int);
    return va_arg(*app, int64_t); }
static uint64_t vfm_uarg(va_list *ap, int lng){ uint64_t v = (uint64_t)vfm_sarg(ap); return lng ? v : (uint32_t)v; }
static int vfm_vfmt(char *buf, size_t cap, const char *f, va_list ap){
    size_t pos = 0;
    for (size_t i = 0; f[i]; i++) {
        if (f[i] != '%') { vfm_emit(buf, cap, &pos, f[i]); continue; }
        i++;
        int zero = 0, width = 0, prec = -1, lng = 0, hh = 0;
        if (f[i] == '0') { zero = 1; i++; }
        while (f[i] >= '0' && f[i] <= '9') { width = width * 10 + (f[i] - '0'); i++; }
        if (f[i] == '.') { i++; if (f[i] == '*') { prec = (int)vfm_sarg(&ap); i++; } else { prec = 0; while (f[i] >= '0' && f[i] <= '9') { prec = prec * 10 + (f[i] - '0'); i++; } } }
        while (f[i] == 'l' || f[i] == 'z' || f[i] == 'h' || f[i] == 'j') { if (f[i] == 'h') hh++; else lng++; i++; }
        switch (f[i]) {
        case 's': vfm_str(buf, cap, &pos, va_arg(ap, const char *), prec); break;
        case 'c': vfm_emit(buf, cap, &pos, (char)vfm_sarg(&ap)); break;
        case '%': vfm_emit(buf, cap, &pos, '%'); break;
        case 'd': case 'i': { int64_t v = vfm_sarg(&ap); if (!lng) v = (int)v;
            VFM_DEC_HOOK(buf, cap, &pos, v < 0 ? (uint64_t)0 - (uint64_t)v : (uint64_t)v, v < 0); break; }
        case 'u': { uint64_t v = vfm_uarg(&ap, lng);
            VFM_DEC_HOOK(buf, cap, &pos, v, 0); break; }
        case 'x': case 'X': { uint64_t v = vfm_uarg(&ap, lng);
            if (hh == 2) v &= 0xff;
            if (zero && width == 2 && v < 256) vfm_hexbyte(buf, cap, &pos, (unsigned)v, f[i] == 'X');
            else vfm_hex(buf, cap, &pos, v, zero ? width : 0, f[i] == 'X'); break; }
        default: __CPROVER_assert(0, "MODEL unsupported printf conversion"); break;
        }
    }
    if (buf && cap) buf[pos < cap ? pos : cap - 1] = 0;
    return (int)pos;
}
int sprintf(char *buf, const char *fmt, ...){ va_list ap; va_start(ap, fmt);
    if (fmt[0] == '%' && fmt[1] == '0' && fmt[2] == '2' && fmt[3] == 'x' && fmt[4] == 0 && __CPROVER_OBJECT_SIZE(*(void**)ap) == 1) {
        unsigned v = va_arg(ap, uint8_t), hi = v >> 4, lo = v & 15; va_end(ap);
        buf[0] = (char)(hi < 10 ? '0' + hi : 'a' + hi - 10); buf[1] = (char)(lo < 10 ? '0' + lo : 'a' + lo - 10); buf[2] = 0; return 2; }
    int r = vfm_vfmt(buf, SIZE_MAX, fmt, ap); va_end(ap); return r; }
int snprintf(char *buf, size_t n, const char *fmt, ...){ va_list ap; va_start(ap, fmt); int r = vfm_vfmt(buf, n, fmt, ap); va_end(ap); return r; }

#ifdef VF_KNOWNLEN
char *strncpy(char *d, const char *s, size_t n){
    __CPROVER_assert(__CPROVER_w_ok(d, n), "strncpy destination has room for n");
    size_t l = vf_strlen(s); for (size_t i = 0; i < n; i++) d[i] = i < l ? s[i] : 0;
    if (l < n) vf_setlen(d, l);
    return d; }
#endif
char *strstr(const char *h, const char *n){
    for (size_t i = 0;; i++) {
        size_t j = 0; while (n[j] && h[i + j] == n[j]) j++;
        if (!n[j]) return (char*)h + i;
        if (!h[i]) return NULL; } }
void *memchr(const void *p, int c, size_t n){
    for (size_t i = 0; i < n; i++) if (((const unsigned char*)p)[i] == (unsigned char)c) return (char*)p + i;
    return NULL; }
static int vfm_isspace(char c){ return c == ' ' || (c >= '\t' && c <= '\r'); }
static unsigned long long vfm_strtoull(const char *s, char **end, int base, int *neg, int *ovf){
    size_t i = 0; *neg = 0; *ovf = 0;
    while (vfm_isspace(s[i])) i++;
    if (s[i] == '+' || s[i] == '-') { *neg = s[i] == '-'; i++; }
    if ((base == 0 || base == 16) && s[i] == '0' && (s[i+1] == 'x' || s[i+1] == 'X') && sp_hexval(s[i+2]) >= 0) { i += 2; base = 16; }
    else if (base == 0) base = s[i] == '0' ? 8 : 10;
    unsigned long long v = 0; int any = 0;
    for (;; i++) {
        int d = sp_hexval(s[i]);   /* bases up to 16 only */
        if (d < 0 || d >= base) break;
        any = 1;
        if (v > ULLONG_MAX / (unsigned)base || (v == ULLONG_MAX / (unsigned)base && (unsigned)d > ULLONG_MAX % (unsigned)base)) *ovf = 1;
        else v = v * (unsigned)base + (unsigned)d; }
    if (end) *end = (char*)(any ? s + i : s);
    return v; }
unsigned long long strtoull(const char *s, char **end, int base){ int neg, o; unsigned long long v = vfm_strtoull(s, end, base, &neg, &o);
    if (o) { errno = ERANGE; return ULLONG_MAX; } return neg ? 0ull - v : v; }
unsigned long strtoul(const char *s, char **end, int base){ return strtoull(s, end, base); }
long long strtoll(const char *s, char **end, int base){ int neg, o; unsigned long long v = vfm_strtoull(s, end, base, &neg, &o);
    if (!neg && (o || v > LLONG_MAX)) { errno = ERANGE; return LLONG_MAX; }
    if (neg && (o || v > (unsigned long long)LLONG_MAX + 1)) { errno = ERANGE; return LLONG_MIN; }
    return neg ? (long long)(0ull - v) : (long long)v; }
long strtol(const char *s, char **end, int base){ return strtoll(s, end, base); }
int atoi(const char *s){ return (int)strtoll(s, NULL, 10); }
size_t strspn(const char *s, const char *set){ size_t i = 0; for (; s[i]; i++) { size_t j = 0; while (set[j] && set[j] != s[i]) j++; if (!set[j]) break; } return i; }
size_t strcspn(const char *s, const char *set){ size_t i = 0; for (; s[i]; i++) { size_t j = 0; while (set[j] && set[j] != s[i]) j++; if (set[j]) break; } return i; }
char *strpbrk(const char *s, const char *set){ size_t i = strcspn(s, set); return s[i] ? (char*)s + i : NULL; }
char *strtok_r(char *s, const char *d, char **save){
    if (!s) s = *save;
    s += strspn(s, d); if (!*s) { *save = s; return NULL; }
    size_t n = strcspn(s, d); char *e = s + n; if (*e) { *e = 0; *save = e + 1; } else *save = e; return s; }
void explicit_bzero(void *p, size_t n){ memset(p, 0, n); }
#endif
#endif
