/* Simulator host for the 32-bit image loader: a freestanding 32-bit program that owns everything the loader can see -
 * memory (every access of the instrumented loader is checked against live allocations), files, output, failures.
 * One scenario from standard input, one result to standard output (same formats as simrt.c). */
#include "smokerand/pe32loader.h"
#include <stdlib.h>
#include <string.h>
typedef unsigned long long u64; typedef unsigned int u32; typedef unsigned char u8;
/* no 32-bit libgcc here: 64-bit division by shifting */
static u64 divmod(u64 a, u64 b, u64 *r) { u64 q = 0, m = 0; for (int i = 63; i >= 0; i--) { m = m << 1 | (a >> i & 1); if (m >= b) { m -= b; q |= 1ull << i; } } *r = m; return q; }
u64 __udivdi3(u64 a, u64 b) { u64 r; return divmod(a, b, &r); }
u64 __umoddi3(u64 a, u64 b) { u64 r; divmod(a, b, &r); return r; }
long long __divdi3(long long a, long long b) { u64 r, q = divmod(a < 0 ? -(u64)a : a, b < 0 ? -(u64)b : b, &r); return (a < 0) != (b < 0) ? -(long long)q : (long long)q; }
long long __moddi3(long long a, long long b) { u64 r; divmod(a < 0 ? -(u64)a : a, b < 0 ? -(u64)b : b, &r); return a < 0 ? -(long long)r : (long long)r; }
static int sys(int n, int a, int b, int c, int d, int e) { int r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c), "S"(d), "D"(e) : "memory"); return r; }
static void wr(const void *p, u32 n) { const char *q = p; while (n) { int k = sys(4, 1, (int)q, n, 0, 0); if (k <= 0) sys(1, 9, 0, 0, 0, 0); q += k; n -= k; } }
extern char __executable_start[], _end[];
static u32 stack_top;
/* ---- scenario */
static char req[8u << 20]; static u32 reqlen;
static int eqn(const char *a, const char *b, u32 n) { for (u32 i = 0; i < n; i++) if (a[i] != b[i]) return 0; return b[n] == 0; }
static const char *sc(const char *key, int idx, u32 *len) {
    const char *p = req, *e = req + reqlen;
    while (p < e) {
        const char *k = p; while (p < e && *p != ' ') p++;
        u32 kl = p - k, n = 0; p++; while (p < e && *p >= '0' && *p <= '9') n = n * 10 + (*p++ - '0');
        p++;
        if (eqn(k, key, kl) && idx-- == 0) { *len = n; return p; }
        p += n + 1;
    }
    return 0;
}
static long num(const char **p, const char *e) { long v = 0; int neg = 0; while (*p < e && **p == ' ') ++*p; if (*p < e && **p == '-') neg = 1, ++*p; while (*p < e && **p >= '0' && **p <= '9') v = v * 10 + (*(*p)++ - '0'); return neg ? -v : v; }
static long sci(const char *k, long d) { u32 n; const char *v = sc(k, 0, &n); return v ? num(&v, v + n) : d; }
/* ---- result */
static char out[1u << 20], err[65536], aux[4u << 20], note[256]; static u32 nout, nerr, naux, out_total;
static u64 hash = 0xcbf29ce484222325ull, steps, max_steps;
enum { F_ALLOC, F_OPEN, F_READ, F_SEEK, NF }; static const char *fname[NF] = {"alloc", "open", "read_file", "seek_file"}; static u32 cnt[NF], fired[NF];
static void ev(u32 k, u32 v) { hash = (hash ^ k) * 1099511628211ull; hash = (hash ^ v) * 1099511628211ull; }
static void put(char *b, u32 cap, u32 *n, const char *s, u32 l) { for (u32 i = 0; i < l && *n < cap; i++) b[(*n)++] = s[i]; }
static u32 utoa(u64 v, int base, int up, char *b) { char t[24]; u32 n = 0; do { u32 d = (u32)(v % base); v /= base; t[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; } while (v); for (u32 i = 0; i < n; i++) b[i] = t[n - 1 - i]; return n; }
static char hb[8192]; static u32 nh;
static void hs(const char *s) { while (*s) hb[nh++] = *s++; }
static void hn(const char *k, u64 v) { hs(k); hs(" "); nh += utoa(v, 10, 0, hb + nh); hs("\n"); }
static void finish(const char *kind, int code, const char *why) {
    hs("kind "); hs(kind); hs("\ncode "); nh += utoa((u32)code, 10, 0, hb + nh); hs("\n");
    hn("steps", steps); hn("points", 0); hn("switches", 0); hn("vns", 0); hn("nclk", 0); hn("maxlive", 0); hn("nthreads", 0); hn("out_total", out_total); hn("err_total", nerr); hn("out_fail_pos", 0); hn("work_after_fail", 0); hn("stdin_pos", 0);
    hs("hash "); nh += utoa(hash, 16, 0, hb + nh); hs("\nilv 0\nout_hash 0\n");
    for (int i = 0; i < NF; i++) if (cnt[i]) { hs("f:"); hs(fname[i]); hs(" "); nh += utoa(cnt[i], 10, 0, hb + nh); hs(" "); nh += utoa(fired[i], 10, 0, hb + nh); hs("\n"); }
    hn("nsw", 0); hn("nhot", 0); hn("out_len", nout); hn("err_len", nerr); hn("aux_len", naux);
    hs("note "); hs(why); hs("\n");
    wr(&nh, 4); wr(hb, nh); wr(out, nout); wr(err, nerr); wr(aux, naux); sys(252, 0, 0, 0, 0, 0); for (;;) ;
}
static void bad(const char *what, u32 a, u32 n) { u32 k = 0; char t[24]; for (const char *s = what; *s; ) note[k++] = *s++; note[k++] = ' '; k += utoa(n, 10, 0, note + k); for (const char *s = " bytes at offset "; *s; ) note[k++] = *s++; (void) t; k += utoa(a, 16, 0, note + k); note[k] = 0; finish("asan", 0, note); }
static int fault(int c) {
    u32 k = cnt[c]++, n; const char *v; ev(100 + c, k);
    for (int i = 0; (v = sc("fault", i, &n)); i++) {
        const char *e = v + n; u32 l = 0; while (v + l < e && v[l] != ' ') l++;
        if (!eqn(v, fname[c], l)) continue;
        v += l; long from = num(&v, e), m = num(&v, e); while (v < e && *v == ' ') v++;
        if ((long)k >= from && (m < 0 || (long)k < from + m)) { fired[c]++; return e - v >= 5 && v[0] == 's' && v[1] == 'h' ? 2 : 1; }
    }
    return 0;
}
/* ---- memory */
#define ARENA 0x20000000u
#define ARENA_LEN 0x30000000u
typedef struct { u32 a, n; int live; } blk; static blk B[4096]; static int nb; static u32 brk_ = ARENA + 4096; static u32 mem_used, mem_limit;
static int is_mem(u32 a, u32 n) {
    if (n == 0) return 1;
    if (a + n - 1 < a) return 0;
    for (int i = nb - 1; i >= 0; i--) if (a >= B[i].a && a - B[i].a < B[i].n) return B[i].live && n <= B[i].n - (a - B[i].a);
    if (a >= (u32)__executable_start && a + n <= (u32)_end) return 1;
    u32 here; here = (u32)&here; return a >= here - 256 && a + n <= stack_top;
}
static void acc(u32 a, u32 n, int w) { steps++; if (max_steps && steps > max_steps) finish("budget", 0, "step budget exhausted"); ev(w, a >= 0x60000000u ? 1 : a); if (!is_mem(a, n)) bad(w ? "write outside of any live memory:" : "read outside of any live memory:", a, n); }
#define CB(k) void __asan_load##k##_noabort(u32 a) { acc(a, k, 0); } void __asan_store##k##_noabort(u32 a) { acc(a, k, 1); } void __asan_load##k(u32 a) { acc(a, k, 0); } void __asan_store##k(u32 a) { acc(a, k, 1); }
CB(1) CB(2) CB(4) CB(8) CB(16)
void __asan_loadN_noabort(u32 a, u32 n) { acc(a, n, 0); } void __asan_storeN_noabort(u32 a, u32 n) { acc(a, n, 1); }
void __asan_handle_no_return(void) {}
static void *raw(u32 n) {
    if (fault(F_ALLOC)) return 0;
    if (n > mem_limit || mem_used > mem_limit - n) return 0;
    if (nb == 4096 || n + 4096 > ARENA + ARENA_LEN - brk_) return 0;
    B[nb].a = brk_; B[nb].n = n; B[nb].live = 1; nb++; mem_used += n; u32 p = brk_; brk_ = (brk_ + n + 64 + 4095) & ~63u; return (void *)p;
}
void *calloc(size_t n, size_t m) { if (m && n > 0xffffffffu / m) { fault(F_ALLOC); return 0; } return raw(n * m); }       /* fresh pages are zero */
void *malloc(size_t n) { u8 *p = raw(n); if (p) for (u32 i = 0; i < n && i < 65536; i++) p[i] = 0xA5; return p; }
void free(void *p) { if (!p) return; for (int i = 0; i < nb; i++) if (B[i].a == (u32)p) { if (!B[i].live) bad("freed twice:", (u32)p, 0); B[i].live = 0; mem_used -= B[i].n; return; } bad("free of something not allocated:", (u32)p, 0); }
void *realloc(void *p, size_t n) { u8 *q = malloc(n); if (q && p) { for (int i = 0; i < nb; i++) if (B[i].a == (u32)p) { for (u32 j = 0; j < n && j < B[i].n; j++) q[j] = ((u8 *)p)[j]; } free(p); } return q; }
static const u8 *rd(const void *p, u32 n) { if (n) acc((u32)p, n, 0); return p; }
static u8 *wrp(void *p, u32 n) { if (n) acc((u32)p, n, 1); return p; }
static u32 slen(const char *s) { u32 n = 0; for (;;) { if (!is_mem((u32)s + n, 1)) bad("text is not terminated inside its memory:", (u32)s + n, 1); if (!s[n]) return n; n++; } }
void *memcpy(void *d, const void *s, size_t n) { rd(s, n); wrp(d, n); for (size_t i = 0; i < n; i++) ((volatile u8 *)d)[i] = ((u8 *)s)[i]; return d; }
void *memmove(void *d, const void *s, size_t n) { rd(s, n); wrp(d, n); if ((u32)d < (u32)s) for (size_t i = 0; i < n; i++) ((volatile u8 *)d)[i] = ((u8 *)s)[i]; else while (n--) ((volatile u8 *)d)[n] = ((u8 *)s)[n]; return d; }
void *memset(void *d, int c, size_t n) { wrp(d, n); for (size_t i = 0; i < n; i++) ((volatile u8 *)d)[i] = c; return d; }
void *memchr(const void *s, int c, size_t n) { for (size_t i = 0; i < n; i++) { rd((u8 *)s + i, 1); if (((u8 *)s)[i] == (u8)c) return (u8 *)s + i; } return 0; }
int memcmp(const void *a, const void *b, size_t n) { rd(a, n); rd(b, n); for (size_t i = 0; i < n; i++) if (((u8 *)a)[i] != ((u8 *)b)[i]) return ((u8 *)a)[i] - ((u8 *)b)[i]; return 0; }
size_t strlen(const char *s) { return slen(s); }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m) { rd(s + n, 1); if (!s[n]) break; n++; } return n; }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { rd(a + i, 1); rd(b + i, 1); if (a[i] != b[i] || !a[i]) return (u8)a[i] - (u8)b[i]; } return 0; }
int strcmp(const char *a, const char *b) { for (size_t i = 0; ; i++) { rd(a + i, 1); rd(b + i, 1); if (a[i] != b[i] || !a[i]) return (u8)a[i] - (u8)b[i]; } }
char *strcpy(char *d, const char *s) { memcpy(d, s, slen(s) + 1); return d; }
char *strcat(char *d, const char *s) { strcpy(d + slen(d), s); return d; }
char *strncpy(char *d, const char *s, size_t n) { wrp(d, n); size_t l = strnlen(s, n); for (size_t i = 0; i < n; i++) d[i] = i < l ? s[i] : 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { rd(s, 1); if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { rd(s, 1); if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strstr(const char *a, const char *b) { u32 n = slen(b); for (;; a++) { if (!strncmp(a, b, n)) return (char *)a; if (!*a) return 0; } }
int errno;
int abs(int x) { return x < 0 ? -x : x; }
void exit(int c) { finish("exit", c & 255, "exit"); for (;;) ; }
void abort(void) { finish("signal", 6, "abort()"); for (;;) ; }
/* ---- files and output */
struct p32_file { int kind; const u8 *d; u32 n; u64 pos; int eof, er, open; };
static FILE F0 = {0, 0, 0, 0, 0, 0, 1}, F1 = {1, 0, 0, 0, 0, 0, 1}, F2 = {2, 0, 0, 0, 0, 0, 1}, FF[16]; static int nf; static int live_files;
FILE *stdin = &F0, *stdout = &F1, *stderr = &F2;
static void chk(FILE *f) { if (f != &F1 && f != &F2 && f != &F0 && (f < FF || f >= FF + nf || !f->open)) bad("use of a file that is not open:", (u32)f, 0); }
FILE *fopen(const char *p, const char *m) {
    if (fault(F_OPEN)) return 0;
    char k[300] = "file:"; u32 l = slen(p), n; if (l > 290) return 0;
    for (u32 i = 0; i <= l; i++) k[5 + i] = p[i];
    if (m[0] != 'r') { if (nf == 16) return 0; FF[nf] = (FILE){4, 0, 0, 0, 0, 0, 1}; live_files++; return &FF[nf++]; }
    const char *v = sc(k, 0, &n); if (!v || nf == 16) return 0;
    FF[nf] = (FILE){3, (const u8 *)v, n, 0, 0, 0, 1}; live_files++; return &FF[nf++];
}
int fclose(FILE *f) { chk(f); f->open = 0; live_files--; return 0; }
int fseek(FILE *f, long o, int w) { chk(f); if (fault(F_SEEK)) return -1; long long p = w == SEEK_SET ? o : w == SEEK_CUR ? (long long)f->pos + o : (long long)f->n + o; if (p < 0) return -1; f->pos = p; f->eof = 0; return 0; }
long ftell(FILE *f) { chk(f); return (long)f->pos; }
void rewind(FILE *f) { fseek(f, 0, SEEK_SET); }
int feof(FILE *f) { return f->eof; } int ferror(FILE *f) { return f->er; } void clearerr(FILE *f) { f->eof = f->er = 0; } int fflush(FILE *f) { (void) f; return 0; }
size_t fread(void *b, size_t s, size_t n, FILE *f) {
    chk(f); int q = fault(F_READ); if (s == 0 || n == 0) return 0;
    if (n > 0xffffffffu / s) { bad("read larger than the address space:", (u32)b, s); }
    u32 want = s * n, have = f->pos >= f->n ? 0 : f->n - (u32)f->pos; wrp(b, want);
    if (q == 1) { f->er = 1; return 0; }
    if (q == 2 && want > 1) { u32 h = want / 2; if (have > h) have = h; }
    u32 k = want < have ? want : have; for (u32 i = 0; i < k; i++) ((volatile u8 *)b)[i] = f->d[f->pos + i];
    f->pos += k; if (k < want) f->eof = 1; return k / s;
}
int fgetc(FILE *f) { u8 c; return fread(&c, 1, 1, f) == 1 ? c : EOF; } int getc(FILE *f) { return fgetc(f); }
static void emit(FILE *f, const char *s, u32 n) { chk(f); if (f == &F1) { out_total += n; put(out, sizeof out, &nout, s, n); } else if (f == &F2) put(err, sizeof err, &nerr, s, n); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { rd(b, s * n); emit(f, b, s * n); return n; }
typedef struct { FILE *f; char *b; u32 cap, n; } snk;
static void o1(snk *k, char c) { if (k->f) emit(k->f, &c, 1); else if (k->cap && k->n < k->cap - 1) { wrp(k->b + k->n, 1); ((volatile char *)k->b)[k->n] = c; } k->n++; steps++; if (max_steps && steps > max_steps) finish("budget", 0, "step budget exhausted"); }
static void fmt(snk *k, const char *f, va_list ap) {
    for (; *f; f++) {
        if (*f != '%') { o1(k, *f); continue; }
        int zero = 0, left = 0, w = 0, pr = -1, lng = 0; f++;
        for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+' || *f == ' ' || *f == '#') ; else break; }
        if (*f == '*') { w = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
        if (*f == '.') { pr = 0; f++; if (*f == '*') { pr = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') pr = pr * 10 + *f++ - '0'; }
        while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f == 'l') lng++; if (*f == 'j') lng = 2; f++; }
        char t[40]; u32 n = 0; const char *s = t;
        switch (*f) {
        case 'd': case 'i': { long long v = lng > 1 ? va_arg(ap, long long) : va_arg(ap, int); if (v < 0) { t[n++] = '-'; v = -v; } n += utoa(v, 10, 0, t + n); break; }
        case 'u': case 'x': case 'X': { u64 v = lng > 1 ? va_arg(ap, u64) : va_arg(ap, u32); n = utoa(v, *f == 'u' ? 10 : 16, *f == 'X', t); break; }
        case 'p': n = utoa((u32)va_arg(ap, void *), 16, 0, t); break;
        case 'c': t[n++] = (char)va_arg(ap, int); break;
        case 's': s = va_arg(ap, const char *); if (pr >= 0) n = strnlen(s, pr); else n = slen(s); pr = -1; break;
        case '%': t[n++] = '%'; break;
        default: finish("internal", 3, "printf format");
        }
        int z = pr > (int)n ? pr - (int)n : 0, pad = w - (int)n - z; if (*f == 's' || pr >= 0) zero = 0;
        if (!left) while (pad-- > 0) o1(k, zero ? '0' : ' ');
        while (z-- > 0) o1(k, '0');
        for (u32 i = 0; i < n; i++) o1(k, s[i]);
        if (left) while (pad-- > 0) o1(k, ' ');
    }
    if (!k->f && k->cap) { u32 e = k->n < k->cap ? k->n : k->cap - 1; wrp(k->b + e, 1); k->b[e] = 0; }
}
int vfprintf(FILE *f, const char *m, va_list ap) { snk k = {f, 0, 0, 0}; fmt(&k, m, ap); return k.n; }
int vprintf(const char *m, va_list ap) { return vfprintf(stdout, m, ap); }
int vsnprintf(char *b, size_t n, const char *m, va_list ap) { snk k = {0, b, n, 0}; fmt(&k, m, ap); return k.n; }
int printf(const char *m, ...) { va_list ap; va_start(ap, m); int r = vprintf(m, ap); va_end(ap); return r; }
int fprintf(FILE *f, const char *m, ...) { va_list ap; va_start(ap, m); int r = vfprintf(f, m, ap); va_end(ap); return r; }
int snprintf(char *b, size_t n, const char *m, ...) { va_list ap; va_start(ap, m); int r = vsnprintf(b, n, m, ap); va_end(ap); return r; }
int sprintf(char *b, const char *m, ...) { va_list ap; va_start(ap, m); int r = vsnprintf(b, 0x7fffffff, m, ap); va_end(ap); return r; }
int fputs(const char *s, FILE *f) { emit(f, s, slen(s)); return 0; } int puts(const char *s) { fputs(s, stdout); emit(stdout, "\n", 1); return 0; }
int fputc(int c, FILE *f) { char b = c; emit(f, &b, 1); return c; } int putchar(int c) { return fputc(c, stdout); } void perror(const char *s) { fputs(s, stderr); }
/* ---- driver: open, look symbols up, dump the image, close */
static void ax(const char *s) { u32 n = 0; while (s[n]) n++; put(aux, sizeof aux, &naux, s, n); }
static void axn(u64 v, int base) { char t[24]; u32 n = utoa(v, base, 0, t); put(aux, sizeof aux, &naux, t, n); }
static void drive(void) {
    static char name[300]; u32 n; const char *v;
    void *h = dlopen_pe32dos("lib.dll", 0);
    ax("FILES "); axn(live_files, 10); ax("\n");
    if (h == 0) { const char *e = dlerror_pe32dos(); ax("ERR "); if (e) put(aux, sizeof aux, &naux, e, slen(e)); ax("\n"); }
    else {
        PE32MemoryImage *im = h; ax("IMG "); axn((u32)im->img, 16); ax(" "); axn(im->imgsize, 10); ax("\n");
        u32 base = (u32)im->img;
        if (!is_mem(base, im->imgsize ? im->imgsize : 1)) bad("the image is not live memory:", base, im->imgsize);
        for (int i = 0; (v = sc("sym", i, &n)); i++) {
            u32 k = 0; for (; k < n && k < 299; k++) name[k] = v[k]; name[k] = 0;
            u32 p = (u32)dlsym_pe32dos(h, name);
            ax("SYM "); put(aux, sizeof aux, &naux, name, k); ax(" "); if (p == 0) ax("none"); else axn(p - base, 10); ax("\n");
        }
        if (im->imgsize <= 200000) { ax("DUMP "); axn(im->imgsize, 10); ax("\n"); put(aux, sizeof aux, &naux, (const char *)im->img, im->imgsize); ax("\n"); }
        dlclose_pe32dos(h);
    }
    int lv = 0; for (int i = 0; i < nb; i++) lv += B[i].live;
    ax("LIVE "); axn(lv, 10); ax("\n");
}
void start32(u32 sp) {
    stack_top = 0xffffffffu; stack_top = (sp | 0xfffu) + 0x20000u; if (stack_top < sp) stack_top = 0xfffff000u;
    for (;;) { int k = sys(3, 0, (int)(req + reqlen), sizeof req - reqlen, 0, 0); if (k <= 0) break; reqlen += k; }
    int lim[2] = {10, 12}; sys(75, 0, (int)lim, 0, 0, 0);           /* processor time */
    struct { u32 a, l, p, f, fd, o; } mm = {ARENA, ARENA_LEN, 3, 0x32 | 0x4000, (u32)-1, 0};
    if ((u32)sys(90, (int)&mm, 0, 0, 0, 0) != ARENA) finish("internal", 3, "no memory for the arena");
    mem_limit = sci("memlimit", 256 << 20); max_steps = sci("max_steps", 50000000);
    drive(); finish("exit", 0, "end");
}
__asm__(".globl _start\n_start:\n xor %ebp,%ebp\n mov %esp,%eax\n and $-16,%esp\n sub $12,%esp\n push %eax\n call start32\n");
