/* Deterministic simulator runtime.
 *
 * Linked into one executable with the objects of SmokeRand, whose references to
 * libc / pthread functions were renamed to sim_* by objcopy.  A run is a forked
 * child of a zygote: it gets one scenario (arguments, files, standard input,
 * fault plan, schedule policy and seed), executes the program's real code under a
 * scheduler that lets exactly one thread run at a time, and leaves outcome,
 * outputs, event hash and the list of scheduling decisions in shared memory. */
#define _GNU_SOURCE
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <sched.h>
#include <malloc.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <linux/futex.h>

/* ------------------------------------------------------------------ shared */
enum { K_NONE, K_EXIT, K_SIGNAL, K_DEADLOCK, K_BUDGET, K_ASAN, K_TIMEOUT, K_UB, K_INTERNAL };
static const char *kind_name[] = {"none","exit","signal","deadlock","budget","asan","timeout","ub","internal"};

enum { F_ALLOC, F_ALLOCSZ, F_MEMLIM, F_THREAD, F_OPEN, F_RSTDIN, F_RFILE, F_RURANDOM, F_WSTDOUT, F_WSTDERR,
       F_WFILE, F_DLOPEN, F_DLSYM, F_MUTEXINIT, F_CLKJUMP, F_CLKFREEZE, F_CLKFAIL, F_CHUNK, F_SYSCONF, F_STALL, F_SPURIOUS, F_USER, NF };
static const char *fname[NF] = {"alloc","alloc_size","memlimit","thread_create","open","read_stdin","read_file",
    "read_urandom","write_stdout","write_stderr","write_file","dlopen","dlsym","mutex_init","clock_jump",
    "clock_freeze","clock_fail","io_chunk","sysconf","thread_stall","spurious_wakeup","user"};

#define MAXSW 200000
#define MAXHOT 100000
#define OUTCAP (96u << 20)
#define ERRCAP (4u << 20)
#define AUXCAP (64u << 20)
typedef struct {
    volatile uint32_t kind; int32_t code;
    uint64_t steps, points, nsw_done, hash, ilv, vns, nclk, maxlive, rng_draws, left_n, left_bytes, left_fd, left_dl, left_thr, returned;
    uint64_t fired[NF], cnt[NF];
    uint64_t out_total, out_hash, err_total;
    uint64_t out_fail_pos;       /* bytes accepted when the first write fault fired + 1 */
    uint64_t work_after_fail;    /* sim_work units after the first failed write */
    uint64_t stdin_pos, in_fail_pos;
    uint64_t nthreads;
    uint32_t nsw, nhot;
    struct { uint64_t step; uint32_t tid; } sw[MAXSW];
    struct { uint64_t step; uint32_t tid; } hot[MAXHOT];
    size_t out_len, err_len, aux_len;
    char note[4096];
} shm_t;
static shm_t *S; static char *S_out, *S_err, *S_aux;

/* ------------------------------------------------------------------ scenario */
#define MAXKV 65536
static struct kv { const char *k; const char *v; size_t n; } KV[MAXKV]; static int nkv;
const char *sc_nth(const char *key, int i, size_t *len) {
    for (int j = 0; j < nkv; j++) if (!strcmp(KV[j].k, key) && i-- == 0) { if (len) *len = KV[j].n; return KV[j].v; }
    return NULL;
}
const char *sc_str(const char *key, const char *d) { const char *v = sc_nth(key, 0, NULL); return v ? v : d; }
long long sc_int(const char *key, long long d) { const char *v = sc_nth(key, 0, NULL); return v ? strtoll(v, NULL, 0) : d; }
static void parse_scenario(char *p, char *end) {
    nkv = 0;
    while (p < end && nkv < MAXKV) {   /* "key length\n" bytes "\n" */
        char *nl = memchr(p, '\n', end - p); if (!nl) break;
        *nl = 0; char *sp = strrchr(p, ' '); if (!sp) break;
        *sp = 0; size_t n = strtoull(sp + 1, NULL, 10);
        char *v = nl + 1; if (v + n > end) break;
        KV[nkv].k = p; KV[nkv].v = v; KV[nkv].n = n; nkv++;
        v[n] = 0; p = v + n + 1;
    }
}

/* ------------------------------------------------------------------ misc */
static uint64_t fnv(uint64_t h, uint64_t x) { h ^= x; h *= 0x100000001b3ull; h ^= h >> 29; return h; }
static uint64_t splitmix(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t rng_sched, rng_drv, rng_io;
static inline uint64_t rnd(void) { S->rng_draws++; return splitmix(&rng_sched); }
uint64_t sim_rng(void) { return splitmix(&rng_drv); }
void aux_write(const void *p, size_t n) { if (S->aux_len + n > AUXCAP) n = AUXCAP - S->aux_len; memcpy(S_aux + S->aux_len, p, n); S->aux_len += n; }
void aux_printf(const char *fmt, ...) { char b[8192]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (n > (int)sizeof b - 1) n = sizeof b - 1; if (n > 0) aux_write(b, n); }
static void finish(int kind, int code, const char *fmt, ...) __attribute__((noreturn, format(printf, 3, 4)));
static void collect_hot(void);
static volatile int finishing;
static void finish(int kind, int code, const char *fmt, ...) {
    if (!finishing) {
        finishing = 1;
        va_list a; va_start(a, fmt); vsnprintf(S->note, sizeof S->note, fmt, a); va_end(a);
        S->steps = sim_steps; S->code = code;
        collect_hot();
        __sync_synchronize();
        S->kind = kind;
    }
    _exit(0);
}
uint64_t sim_out_pos(void) { fflush(stdout); return S->out_total; }
void sim_fatal(const char *fmt, ...) { char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); finish(K_INTERNAL, 0, "%s", b); }

/* ------------------------------------------------------------------ faults */
typedef struct { int cls; long long from, count; char act[16]; char arg[256]; long long narg; } fault_t;
static fault_t FL[4096]; static int nfl;
static int have_fault[NF];
static void parse_faults(void) {
    size_t n; const char *v; nfl = 0;
    for (int i = 0; (v = sc_nth("fault", i, &n)) && nfl < 4096; i++) {
        fault_t *f = &FL[nfl]; char cls[64]; memset(f, 0, sizeof *f);
        int k = sscanf(v, "%63s %lld %lld %15s %255s", cls, &f->from, &f->count, f->act, f->arg);
        if (k < 4) sim_fatal("bad fault '%s'", v);
        f->cls = -1; for (int j = 0; j < NF; j++) if (!strcmp(fname[j], cls)) f->cls = j;
        if (f->cls < 0) sim_fatal("bad fault class '%s'", cls);
        f->narg = strtoll(f->arg, NULL, 0); have_fault[f->cls] = 1; nfl++;
    }
}
/* next operation of the class: returns the fault that hits it, or NULL */
static fault_t *fault_at(int cls, const char *name) {
    uint64_t idx = S->cnt[cls]++;
    if (!have_fault[cls]) return NULL;
    for (int i = 0; i < nfl; i++) {
        fault_t *f = &FL[i];
        if (f->cls != cls || (long long)idx < f->from) continue;
        if (f->count >= 0 && (long long)idx >= f->from + f->count) continue;
        if (name && f->arg[0] && f->arg[0] != '-' && !strstr(name, f->arg)) continue;
        S->fired[cls]++; S->hash = fnv(S->hash, 0xF00 + cls); return f;
    }
    return NULL;
}
static int errno_of(const char *a) {
    if (!strcmp(a, "eio")) return EIO; if (!strcmp(a, "enospc")) return ENOSPC; if (!strcmp(a, "epipe")) return EPIPE;
    if (!strcmp(a, "eintr")) return EINTR; if (!strcmp(a, "eagain")) return EAGAIN; if (!strcmp(a, "enoent")) return ENOENT;
    if (!strcmp(a, "eacces")) return EACCES; if (!strcmp(a, "emfile")) return EMFILE; if (!strcmp(a, "enomem")) return ENOMEM;
    if (!strcmp(a, "edquot")) return EDQUOT; if (!strcmp(a, "efbig")) return EFBIG; if (!strcmp(a, "ebadf")) return EBADF;
    return EIO;
}

/* ------------------------------------------------------------------ virtual time */
uint64_t vns; static uint64_t tick_ns, step_ns_per_k, work_ps; static uint64_t work_acc, step_seen;
typedef struct { long long base, rate_pm, gran, off; uint64_t calls; long long last; } vclk_t;
static vclk_t CK[4]; /* 0 wall, 1 cpu, 2 tsc, 3 monotonic */
static uint64_t clk_calls_max, calls_total;
static int write_failed_seen;
void sim_work(uint64_t n) { work_acc += n * work_ps; if (work_acc >= 1000) { vns += work_acc / 1000; work_acc %= 1000; }
    if (write_failed_seen) { S->work_after_fail += n; if (S->work_after_fail > 200000000ull) finish(K_BUDGET, 1, "unbounded work after a failed write"); } }
static uint64_t bb_ps, bb_acc; /* simulated time of a basic block, code compiled with -fsanitize-coverage=trace-pc */
void __sanitizer_cov_trace_pc(void) { bb_acc += bb_ps; }
uint64_t sim_vns(void) { return vns + (sim_steps - step_seen) * step_ns_per_k / 1000 + bb_acc / 1000; }
static void call_budget(void) { if (++calls_total > clk_calls_max) finish(K_BUDGET, 2, "call budget exhausted"); }
static int clk_fail_now;
static long long clk_read(int w) {
    sim_point(PK_CLOCK, w); call_budget();
    vns += bb_acc / 1000; bb_acc %= 1000; vns += tick_ns; vns += (sim_steps - step_seen) * step_ns_per_k / 1000; step_seen = sim_steps; S->nclk++; S->vns = vns;
    vclk_t *c = &CK[w]; uint64_t idx = c->calls++; size_t n; const char *v; int frozen = 0; clk_fail_now = 0;
    for (int i = 0; (v = sc_nth("clk", i, &n)); i++) {
        int cw; char what[16]; long long a = 0, b = 0;
        if (sscanf(v, "%d %15s %lld %lld", &cw, what, &a, &b) < 3 || (cw != w && cw != 9)) continue;
        if (!strcmp(what, "jump") && (long long)idx == a) { c->off += b; S->fired[F_CLKJUMP]++; }
        else if (!strcmp(what, "freeze") && (long long)idx >= a && (b < 0 || (long long)idx < a + b)) { frozen = 1; S->fired[F_CLKFREEZE]++; }
        else if (!strcmp(what, "fail") && (long long)idx >= a && (b < 0 || (long long)idx < a + b)) { clk_fail_now = 1; S->fired[F_CLKFAIL]++; }
    }
    if (!(frozen && idx > 0)) {
        long long t = c->base + (long long)((__int128)vns * c->rate_pm / 1000) + c->off;
        if (c->gran > 1) { long long q = t / c->gran; if (t < 0 && q * c->gran != t) q--; t = q * c->gran; }
        c->last = t;
    }
    return c->last;
}
static void clk_init(void) {
    tick_ns = sc_int("tick_ns", 1000); step_ns_per_k = sc_int("step_ns_per_k", 1000); work_ps = sc_int("work_ps", 1000); bb_ps = sc_int("bb_ps", 0);
    clk_calls_max = sc_int("max_calls", 20000000);
    CK[0].base = sc_int("wall_base", 1700000000123456789ll); CK[1].base = sc_int("cpu_base", 5000000);
    CK[2].base = sc_int("tsc_base", 111222333444ll); CK[3].base = 777000000000ll;
    for (int i = 0; i < 4; i++) { CK[i].rate_pm = 1000; CK[i].gran = 1; }
    size_t n; const char *v;
    for (int i = 0; (v = sc_nth("clk", i, &n)); i++) {
        int cw; char what[16]; long long a = 0;
        if (sscanf(v, "%d %15s %lld", &cw, what, &a) < 3) continue;
        for (int k = 0; k < 4; k++) if (cw == k || cw == 9) {
            if (!strcmp(what, "gran")) CK[k].gran = a; else if (!strcmp(what, "rate")) CK[k].rate_pm = a; }
    }
}

/* ------------------------------------------------------------------ threads */
enum { T_FREE, T_RUN, T_BLOCK, T_ZOMBIE };
#define MAXT 600
#define MAXID 20000
typedef struct { int slot, id, state; void *wobj; uint64_t wake; int timed_out; long long prio; int detached, joined;
    void *(*fn)(void *); void *arg, *ret; volatile int go; pthread_t real; int real_live; char *lo, *hi; jmp_buf jb; uint64_t consec; uint64_t stall_until; } thr_t;
static thr_t T[MAXT]; static int cur, nlive = 1, next_id = 1; static int hi_slot = 1; static int id2slot[MAXID];
int sim_mt; uint64_t sim_steps; uint64_t sim_next_event = UINT64_MAX; int sim_acc_mode;
static uint64_t max_steps; static int count_st;
enum { POL_RR, POL_RAND, POL_PCT, POL_EXPL };
static int pol; static int p_call, p_conf, p_stall; static uint64_t mean_mem; static int pct_d; static uint64_t pct_len;
static uint64_t chg[64]; static int nchg, chg_pos; static long long prio_low = 0;
static struct { uint64_t step; uint32_t tid; } *XS; static size_t nxs, xpos;
#define VBASE 0x7f1200000000ull
int sim_self(void) { return T[cur].id; }

static void futex_wait_(volatile int *a) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); }
static void futex_wake_(volatile int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }
static void park(thr_t *me) { while (!__atomic_load_n(&me->go, __ATOMIC_ACQUIRE)) futex_wait_(&me->go); __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED); }
static void hand_over(thr_t *n) { cur = n->slot; n->consec = 0; __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE); futex_wake_(&n->go); }
static uint64_t last_switch;
#define SPIN_GUARD 30000000ull   /* a thread that runs this long without a switch is treated as spinning */
static void switch_to(thr_t *n) { thr_t *me = &T[cur]; if (n == me) return; S->nsw_done++; last_switch = sim_steps; hand_over(n); park(me); }
static void record(uint32_t id) { if (S->nsw < MAXSW) { S->sw[S->nsw].step = sim_steps; S->sw[S->nsw].tid = id; S->nsw++; } }

static thr_t *dflt_pick(int yield) {  /* continue the current thread; else the lowest runnable; on yield the next one */
    if (!yield && T[cur].state == T_RUN) return &T[cur];
    if (yield) for (int d = 1; d < hi_slot; d++) { int i = (cur + d) % hi_slot; if (T[i].state == T_RUN) return &T[i]; }
    thr_t *b = NULL; for (int i = 0; i < hi_slot; i++) if (T[i].state == T_RUN && (!b || T[i].id < b->id)) b = &T[i];
    return b;
}
static thr_t *rand_pick(int exclude_cur) {
    int n = 0, c[MAXT]; int stalled = 0;
    for (int i = 0; i < hi_slot; i++) if (T[i].state == T_RUN && !(exclude_cur && i == cur)) {
        if (T[i].stall_until > sim_steps) { stalled++; continue; } c[n++] = i; }
    if (!n && stalled) for (int i = 0; i < hi_slot; i++) if (T[i].state == T_RUN && !(exclude_cur && i == cur)) c[n++] = i;
    if (!n) return NULL;
    return &T[c[rnd() % n]];
}
static void arm(void) {   /* when must memory accesses look at the schedule again? */
    uint64_t e = max_steps;
    if (pol == POL_RAND && mean_mem) { uint64_t g = 1 + rnd() % (2 * mean_mem); if (sim_steps + g < e) e = sim_steps + g; }
    else if (pol == POL_PCT) { if (chg_pos < nchg && chg[chg_pos] < e) e = chg[chg_pos]; }
    else if (pol == POL_EXPL) { if (xpos < nxs && XS[xpos].step < e) e = XS[xpos].step; }
    if (nlive > 1 && last_switch + SPIN_GUARD < e) e = last_switch + SPIN_GUARD;
    sim_next_event = e < sim_steps + 1 ? sim_steps + 1 : e;
}
static thr_t *by_id(uint32_t id) { if (id >= (uint32_t)next_id) return NULL; thr_t *t = &T[id2slot[id]]; return t->id == (int)id ? t : NULL; }
static thr_t *expl_pick(thr_t *d) {
    while (xpos < nxs && XS[xpos].step < sim_steps) xpos++;
    if (xpos < nxs && XS[xpos].step == sim_steps) { thr_t *t = by_id(XS[xpos].tid); xpos++; arm(); if (t && t->state == T_RUN) return t; }
    return d;
}
static thr_t *pct_pick(void) { thr_t *b = NULL; for (int i = 0; i < hi_slot; i++) if (T[i].state == T_RUN && (!b || T[i].prio > b->prio)) b = &T[i]; return b; }
static void maybe_stall(void) { if (p_stall && (int)(rnd() % 1000) < p_stall) { T[cur].stall_until = sim_steps + rnd() % 200000; S->fired[F_STALL]++; } }
/* a decision; forced: the current thread cannot go on; yield: it asks not to */
static void decide(int forced, int yield) {
    thr_t *d = dflt_pick(yield), *p = d;
    if (!d) return;
    switch (pol) {
    case POL_RR: break;
    case POL_RAND:
        if (forced || yield) p = rand_pick(yield && !forced);
        else if ((int)(rnd() % 1000) < p_call) { maybe_stall(); p = rand_pick(0); }
        if (!p) p = d;
        break;
    case POL_PCT: if (yield) T[cur].prio = --prio_low; p = pct_pick(); break;
    case POL_EXPL: p = expl_pick(d); break;
    }
    if (p != d) record(p->id);
    if (p != &T[cur]) switch_to(p);
}
void sim_stop(const char *why) { finish(K_BUDGET, 9, why); }
static void check_steps(void) { if (sim_steps >= max_steps) finish(K_BUDGET, 0, "step budget exhausted"); }
void sim_mem_event(void) {
    check_steps();
    if (nlive < 2) { sim_next_event = max_steps; return; }
    if (sim_steps >= last_switch + SPIN_GUARD) { last_switch = sim_steps; arm(); decide(0, 1); return; }
    thr_t *d = &T[cur], *p = d;
    if (pol == POL_RAND) { maybe_stall(); p = rand_pick(1); if (!p) p = d; }
    else if (pol == POL_PCT) { while (chg_pos < nchg && chg[chg_pos] <= sim_steps) { T[cur].prio = --prio_low; chg_pos++; } p = pct_pick(); }
    else if (pol == POL_EXPL) p = expl_pick(d);
    arm();
    if (p != d) { record(p->id); switch_to(p); }
}
void sim_point(int kind, uint64_t arg) {
    if (finishing) { if (T[cur].id) for (;;) pause(); return; }
    S->points++;
    S->hash = fnv(fnv(fnv(S->hash, kind), T[cur].id), arg);
    if (!sim_mt) return;
    S->ilv = fnv(fnv(S->ilv, kind), T[cur].id);
    sim_steps++; if (sim_steps >= max_steps) check_steps();
    if (nlive > 1) decide(0, 0);
}
static void yield_point(void) { S->points++; S->hash = fnv(S->hash, PK_YIELD); if (!sim_mt) return; sim_steps++; check_steps(); if (nlive > 1) decide(0, 1); }
void sim_atomic_point(void) { if (!sim_mt || nlive < 2) return; sim_steps++; if (sim_steps >= sim_next_event) sim_mem_event();
    if (++T[cur].consec > 2000) { T[cur].consec = 0; yield_point(); } }
/* block the current thread on an object (NULL object with a wake time: sleep) */
static void block_on(void *obj, uint64_t wake) {
    thr_t *me = &T[cur];
    me->state = T_BLOCK; me->wobj = obj; me->wake = wake; me->timed_out = 0;
    for (;;) {
        sim_steps++;
        thr_t *any = NULL; for (int i = 0; i < hi_slot; i++) if (T[i].state == T_RUN) { any = &T[i]; break; }
        if (any) { decide(1, 0); if (me->state == T_RUN) return; sim_fatal("scheduler: blocked thread resumed"); }
        thr_t *w = NULL; for (int i = 0; i < hi_slot; i++) if (T[i].state == T_BLOCK && T[i].wake && (!w || T[i].wake < w->wake)) w = &T[i];
        if (!w) finish(K_DEADLOCK, 0, "deadlock: every thread is blocked (thread %d waits)", me->id);
        if (w->wake > vns) vns = w->wake;
        w->state = T_RUN; w->timed_out = 1; w->wobj = NULL; w->wake = 0;
        if (w == me) return;
    }
}
static void wake_all(void *obj) { for (int i = 0; i < hi_slot; i++) if (T[i].state == T_BLOCK && T[i].wobj == obj) { T[i].state = T_RUN; T[i].wobj = NULL; T[i].wake = 0; } }
static void set_mt(void) { sim_mt = nlive > 1 || count_st; }

/* --- conflict shadow and access log --- */
#define SHN (1u << 18)
static struct { uintptr_t g; uint16_t tid; uint8_t wr, hot; } *SH;
typedef struct { uint64_t g; uint64_t step; uint16_t tid; uint8_t wr; } acc_t;
#define ACCN (3u << 20)
static acc_t *AL; static size_t nal;
/* address relative to its region, so that nothing depends on where the kernel put the process */
extern char __executable_start; static uintptr_t heap0;
static inline uintptr_t norm(uintptr_t a) { uintptr_t e = (uintptr_t)&__executable_start;
    if (a >= e && a < e + (256u << 20)) return a - e;
    if (a + (64u << 20) >= heap0 && a < heap0 + (64ull << 30)) return a - heap0 + (1ull << 40);
    return a - (uintptr_t)S + (1ull << 46); }
void sim_acc(uintptr_t a, unsigned size, int wr) {
    (void) size;
    if (nlive < 2) return;
    thr_t *me = &T[cur];
    if (a >= (uintptr_t)me->lo && a < (uintptr_t)me->hi) return;
    uintptr_t g = norm(a) >> 3;
    if ((sim_acc_mode & 2) && nal < ACCN) { AL[nal].g = g; AL[nal].step = sim_steps; AL[nal].tid = me->id; AL[nal].wr = wr; nal++; }
    if (sim_acc_mode & 1) {
        unsigned h = (g * 0x9e3779b97f4a7c15ull) >> 46;
        if (SH[h].g != g) { SH[h].g = g; SH[h].tid = me->id; SH[h].wr = wr; SH[h].hot = 0; return; }
        int conflict = SH[h].hot || (SH[h].tid != me->id && (SH[h].wr || wr));
        if (SH[h].tid != me->id && (SH[h].wr || wr)) SH[h].hot = 1;
        SH[h].tid = me->id; SH[h].wr |= wr;
        if (conflict && pol == POL_RAND && (int)(rnd() % 1000) < p_conf) {
            sim_steps++; check_steps();
            thr_t *p = rand_pick(1); if (p) { record(p->id); switch_to(p); }
        } else if (conflict) { sim_steps++; if (pol == POL_EXPL) { thr_t *p = expl_pick(me); if (p != me) { record(p->id); switch_to(p); } } }
    }
}
static int acc_cmp(const void *x, const void *y) { const acc_t *a = x, *b = y; return a->g < b->g ? -1 : a->g > b->g ? 1 : a->step < b->step ? -1 : a->step > b->step; }
static int hot_cmp(const void *x, const void *y) { uint64_t a = *(const uint64_t *)x, b = *(const uint64_t *)y; return a < b ? -1 : a > b; }
static void collect_hot(void) {
    if (!nal) return;
    qsort(AL, nal, sizeof *AL, acc_cmp);
    for (size_t i = 0; i < nal;) {
        size_t j = i; int multi = 0, w = 0;
        while (j < nal && AL[j].g == AL[i].g) { multi |= AL[j].tid != AL[i].tid; w |= AL[j].wr; j++; }
        if (multi && w) for (size_t k = i; k < j && S->nhot < MAXHOT; k++) {
            /* long runs by one thread: keep the accesses near a change of thread */
            if (k > i + 1 && k + 2 < j && AL[k].tid == AL[k-1].tid && AL[k].tid == AL[k+1].tid && AL[k-1].tid == AL[k-2].tid && AL[k+1].tid == AL[k+2].tid && (k - i) > 64) continue;
            S->hot[S->nhot].step = AL[k].step; S->hot[S->nhot].tid = AL[k].tid; S->nhot++; }
        i = j;
    }
    qsort(S->hot, S->nhot, sizeof S->hot[0], hot_cmp);
}

static void sched_init(void) {
    rng_sched = sc_int("seed", 1) * 0x9e3779b97f4a7c15ull + 77; rng_drv = sc_int("seed", 1) * 31337 + 5; rng_io = sc_int("ioseed", 1) * 7919 + 3;
    const char *p = sc_str("pol", "rr");
    pol = !strcmp(p, "rand") ? POL_RAND : !strcmp(p, "pct") ? POL_PCT : !strcmp(p, "expl") ? POL_EXPL : POL_RR;
    p_call = sc_int("p_call", 300); mean_mem = sc_int("mean_mem", 0); p_conf = sc_int("p_conf", 0); p_stall = sc_int("p_stall", 0);
    pct_d = sc_int("pct_d", 3); pct_len = sc_int("pct_len", 10000); if (!pct_len) pct_len = 1;
    max_steps = sc_int("max_steps", 2000000000ll); count_st = sc_int("count_st", 0);
    if (pct_d > 60) pct_d = 60;
    if (pol == POL_PCT) { for (int i = 0; i < pct_d; i++) chg[nchg++] = 1 + rnd() % pct_len; qsort(chg, nchg, 8, hot_cmp); }
    size_t n; const char *v = sc_nth("switches", 0, &n);
    if (v) { /* "step tid step tid ..." */
        size_t cap = 16; const char *q = v; XS = malloc(cap * sizeof *XS);
        for (;;) { char *e; unsigned long long st = strtoull(q, &e, 10); if (e == q) break; q = e; unsigned long id = strtoul(q, &e, 10); if (e == q) break; q = e;
            if (nxs == cap) XS = realloc(XS, (cap *= 2) * sizeof *XS); XS[nxs].step = st; XS[nxs].tid = id; nxs++; }
    }
    sim_acc_mode = (int)sc_int("acc", 0);
    if (sim_acc_mode & 1) SH = mmap(NULL, SHN * sizeof *SH, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (sim_acc_mode & 2) AL = mmap(NULL, ACCN * sizeof *AL, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    T[0].state = T_RUN; T[0].slot = 0; T[0].id = 0; T[0].prio = (long long)(rnd() >> 8);
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0); T[0].lo = (char *)(sp - (8u << 20)); T[0].hi = (char *)(sp + (1u << 20));
    if (!max_steps) max_steps = UINT64_MAX;
    sim_next_event = max_steps; arm(); set_mt();
}

/* --- pthread API --- */
#define STK (2u << 20)
static void thr_exit_common(thr_t *me);
static void *trampoline(void *p) {
    thr_t *me = p;
    park(me);
    if (!setjmp(me->jb)) { sim_point(PK_THR_START, me->id); me->ret = me->fn(me->arg); }
    thr_exit_common(me);
    return NULL;
}
static void thr_exit_common(thr_t *me) {
    sim_point(PK_THR_EXIT, me->id);
    me->state = T_ZOMBIE; nlive--; wake_all(&me->joined);
    int det = me->detached;
    if (det) me->joined = 1;
    /* choose who goes on; this thread is done with simulated execution */
    sim_steps++;
    thr_t *d = dflt_pick(0), *p = d;
    if (!d) { thr_t *w = NULL; for (int i = 0; i < hi_slot; i++) if (T[i].state == T_BLOCK && T[i].wake && (!w || T[i].wake < w->wake)) w = &T[i];
        if (!w) finish(K_DEADLOCK, 0, "deadlock: all remaining threads are blocked after thread %d ended", me->id);
        if (w->wake > vns) vns = w->wake;
        w->state = T_RUN; w->timed_out = 1; w->wobj = NULL; w->wake = 0; d = p = w; }
    else switch (pol) { case POL_RAND: p = rand_pick(0); break; case POL_PCT: p = pct_pick(); break; case POL_EXPL: p = expl_pick(d); break; default: break; }
    if (!p) p = d;
    if (p != d) record(p->id);
    set_mt(); S->nsw_done++;
    hand_over(p);
}
int sim_pthread_create(pthread_t *out, const void *attr, void *(*fn)(void *), void *arg) {
    (void) attr;
    sim_point(PK_CREATE, 0); call_budget();
    fault_t *f = fault_at(F_THREAD, NULL);
    if (f) return errno_of(f->act);
    int s; for (s = 1; s < MAXT; s++) if (T[s].state == T_FREE || (T[s].state == T_ZOMBIE && T[s].joined)) break;
    static uint64_t tidrng; if (sc_int("tid_reuse", 0)) { /* identifiers of finished threads come back in any order */
        if (!tidrng) tidrng = (uint64_t)sc_int("tid_reuse", 0);
        int nc = 0, pick = 0; for (int q = 1; q < hi_slot; q++) if (T[q].state == T_ZOMBIE && T[q].joined) { nc++; if (splitmix(&tidrng) % nc == 0) pick = q; }
        if (pick && splitmix(&tidrng) % 8) s = pick;
    }
    if (s == MAXT || next_id >= MAXID) return EAGAIN;
    thr_t *t = &T[s]; if (s >= hi_slot) hi_slot = s + 1;
    if (t->real_live) { pthread_join(t->real, NULL); t->real_live = 0; }
    char *lo = t->lo, *hi = t->hi; memset(t, 0, sizeof *t);
    if (!lo) { lo = mmap(NULL, STK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (lo == MAP_FAILED) sim_fatal("stack mmap"); hi = lo + STK; }
    t->lo = lo; t->hi = hi; t->slot = s; t->id = next_id; id2slot[next_id] = s; next_id++; t->fn = fn; t->arg = arg; t->prio = (long long)(rnd() >> 8);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, lo, STK);
    if (pthread_create(&t->real, &a, trampoline, t)) sim_fatal("real pthread_create failed");
    pthread_attr_destroy(&a); t->real_live = 1; t->state = T_RUN; nlive++; S->nthreads++; set_mt(); arm();
    *out = (pthread_t)(VBASE + (uint64_t)s * 0x1000);
    sim_point(PK_CREATE, t->id);
    return 0;
}
static thr_t *by_vid(pthread_t v) { uint64_t x = (uint64_t)v; if (x < VBASE || (x - VBASE) % 0x1000) return NULL; x = (x - VBASE) / 0x1000; if (x >= MAXT) return NULL; return T[x].state == T_FREE ? NULL : &T[x]; }
int sim_pthread_join(pthread_t v, void **ret) {
    sim_point(PK_JOIN, 0);
    thr_t *t = by_vid(v);
    if (!t || t->joined || t->detached) finish(K_UB, 1, "join of a thread that does not exist, was joined, or is detached (undefined behaviour)");
    if (t == &T[cur]) return EDEADLK;
    while (t->state != T_ZOMBIE) block_on(&t->joined, 0);
    t->joined = 1; if (ret) *ret = t->ret;
    sim_point(PK_JOIN, t->id);
    return 0;
}
int sim_pthread_tryjoin_np(pthread_t v, void **ret) { thr_t *t = by_vid(v); if (t && t->state != T_ZOMBIE) { yield_point(); return EBUSY; } return sim_pthread_join(v, ret); }
int sim_pthread_detach(pthread_t v) { thr_t *t = by_vid(v); if (!t) return ESRCH; t->detached = 1; if (t->state == T_ZOMBIE) t->joined = 1; return 0; }
pthread_t sim_pthread_self(void) { if (sim_mt) sim_point(PK_SELF, 0); return (pthread_t)(VBASE + (uint64_t)cur * 0x1000); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void sim_pthread_exit(void *r) { thr_t *me = &T[cur]; me->ret = r; if (!me->id) { /* main leaves, others go on */ while (nlive > 1) block_on(me, 0); finish(K_EXIT, 0, "pthread_exit in main"); } longjmp(me->jb, 1); }
int sim_sched_yield(void) { yield_point(); return 0; }

#define MXN 8192
static struct mx { const void *a; int owner, cnt, type, alive; } MX[MXN]; static int nmx;
static struct mx *mx_get(const void *a) {
    unsigned h = ((uintptr_t)a * 0x9e3779b97f4a7c15ull) >> 51;
    for (unsigned i = 0; i < MXN; i++) { struct mx *m = &MX[(h + i) % MXN]; if (m->a == a) return m; if (!m->a) { if (++nmx > MXN / 2) sim_fatal("too many mutexes"); m->a = a; return m; } }
    sim_fatal("mutex table"); return NULL;
}
static int rec_attr(const pthread_mutexattr_t *at) { int t = 0; if (at) pthread_mutexattr_gettype(at, &t); return t; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at) { sim_point(PK_MISC, 1); fault_t *f = fault_at(F_MUTEXINIT, NULL); if (f) return errno_of(f->act);
    struct mx *x = mx_get(m); x->owner = x->cnt = 0; x->type = rec_attr(at); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { sim_point(PK_MISC, 2); struct mx *x = mx_get(m); if (x->owner) return EBUSY; return 0; }
static int lock_impl(const void *m, int rec, int try, uint64_t wake) {
    struct mx *x = mx_get(m); int me = cur + 1;
    if (x->owner == me) { if (rec || x->type == PTHREAD_MUTEX_RECURSIVE) { x->cnt++; return 0; } if (try) return EBUSY; if (x->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
    while (x->owner) { if (try) return EBUSY; block_on((void *)m, wake); if (T[cur].timed_out) return ETIMEDOUT; }
    x->owner = cur + 1; x->cnt = 1; return 0;
}
static int unlock_impl(const void *m) {
    struct mx *x = mx_get(m);
    if (x->owner != cur + 1) { if (x->type == PTHREAD_MUTEX_ERRORCHECK || x->type == PTHREAD_MUTEX_RECURSIVE) return EPERM; /* default mutex: glibc just releases it */ }
    if (--x->cnt > 0) return 0;
    x->cnt = 0; x->owner = 0; wake_all((void *)m); return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) { sim_point(PK_LOCK, 0); return lock_impl(m, 0, 0, 0); }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { sim_point(PK_LOCK, 1); int r = lock_impl(m, 0, 1, 0); if (r == EBUSY && ++T[cur].consec > 200) { T[cur].consec = 0; yield_point(); } return r; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { int r = unlock_impl(m); sim_point(PK_UNLOCK, 0); return r; }
static uint64_t abs_to_vns(const struct timespec *t) { long long w = (long long)t->tv_sec * 1000000000ll + t->tv_nsec - CK[0].base; return w <= 0 ? 1 : (uint64_t)w; }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { sim_point(PK_LOCK, 2); return lock_impl(m, 0, 0, abs_to_vns(t)); }
int sim_pthread_spin_init(pthread_spinlock_t *m, int s) { (void) s; struct mx *x = mx_get((void *)m); x->owner = x->cnt = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *m) { (void) m; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *m) { sim_point(PK_LOCK, 3); return lock_impl((void *)m, 0, 0, 0); }
int sim_pthread_spin_trylock(pthread_spinlock_t *m) { sim_point(PK_LOCK, 4); return lock_impl((void *)m, 0, 1, 0); }
int sim_pthread_spin_unlock(pthread_spinlock_t *m) { int r = unlock_impl((void *)m); sim_point(PK_UNLOCK, 3); return r; }

int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) c; (void) a; return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { (void) c; return 0; }
static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, uint64_t wake) {
    unlock_impl(m); S->points++;
    if (pol == POL_RAND && sc_int("spurious", 0) && rnd() % 8 == 0) { S->fired[F_SPURIOUS]++; sim_point(PK_COND, 9); lock_impl(m, 0, 0, 0); return 0; }
    block_on(c, wake); int to = T[cur].timed_out; T[cur].timed_out = 0;
    lock_impl(m, 0, 0, 0); return to ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { sim_point(PK_COND, 0); return cond_wait_impl(c, m, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { sim_point(PK_COND, 1); return cond_wait_impl(c, m, abs_to_vns(t)); }
int sim_pthread_cond_signal(pthread_cond_t *c) {
    int w[MAXT], n = 0; for (int i = 0; i < hi_slot; i++) if (T[i].state == T_BLOCK && T[i].wobj == c) w[n++] = i;
    if (n) { int k = w[0]; T[k].state = T_RUN; T[k].wobj = NULL; T[k].wake = 0; }
    sim_point(PK_COND, 2); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { wake_all(c); sim_point(PK_COND, 3); return 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { sim_point(PK_MISC, 3); struct mx *x = mx_get(o); 
    while (x->alive == 1) block_on(o, 0);
    if (x->alive == 0) { x->alive = 1; f(); x->alive = 2; wake_all(o); sim_point(PK_MISC, 4); } return 0; }
/* rwlock: owner<0 readers */
int sim_pthread_rwlock_init(pthread_rwlock_t *r, const void *a) { (void) a; struct mx *x = mx_get(r); x->owner = x->cnt = 0; return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *r) { (void) r; return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *r) { sim_point(PK_LOCK, 5); struct mx *x = mx_get(r); while (x->owner > 0) block_on(r, 0); x->cnt++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *r) { sim_point(PK_LOCK, 6); struct mx *x = mx_get(r); while (x->owner > 0 || x->cnt > 0) block_on(r, 0); x->owner = cur + 1; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *r) { struct mx *x = mx_get(r); if (x->owner > 0) x->owner = 0; else if (x->cnt > 0) x->cnt--; wake_all(r); sim_point(PK_UNLOCK, 5); return 0; }
static struct { void *a; unsigned need, have, gen; } BR[64];
static int br_find(void *b) { for (int i = 0; i < 64; i++) if (BR[i].a == b) return i; for (int i = 0; i < 64; i++) if (!BR[i].a) { BR[i].a = b; return i; } sim_fatal("barriers"); return 0; }
int sim_pthread_barrier_init(pthread_barrier_t *b, const void *a, unsigned n) { (void) a; int i = br_find(b); BR[i].need = n; BR[i].have = 0; return 0; }
int sim_pthread_barrier_destroy(pthread_barrier_t *b) { BR[br_find(b)].a = NULL; return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t *b) { sim_point(PK_LOCK, 7); int i = br_find(b); unsigned g = BR[i].gen;
    if (++BR[i].have == BR[i].need) { BR[i].have = 0; BR[i].gen++; wake_all(b); sim_point(PK_UNLOCK, 7); return PTHREAD_BARRIER_SERIAL_THREAD; }
    while (BR[i].gen == g) block_on(b, 0); return 0; }
static struct { void *a; long v; } SM[256];
static long *sem_v(void *s) { for (int i = 0; i < 256; i++) if (SM[i].a == s) return &SM[i].v; for (int i = 0; i < 256; i++) if (!SM[i].a) { SM[i].a = s; return &SM[i].v; } sim_fatal("sems"); return NULL; }
int sim_sem_init(sem_t *s, int p, unsigned v) { (void) p; *sem_v(s) = v; return 0; }
int sim_sem_destroy(sem_t *s) { (void) s; return 0; }
int sim_sem_post(sem_t *s) { ++*sem_v(s); wake_all(s); sim_point(PK_UNLOCK, 8); return 0; }
int sim_sem_wait(sem_t *s) { sim_point(PK_LOCK, 8); long *v = sem_v(s); while (*v <= 0) block_on(s, 0); --*v; return 0; }
int sim_sem_trywait(sem_t *s) { sim_point(PK_LOCK, 9); long *v = sem_v(s); if (*v <= 0) { errno = EAGAIN; return -1; } --*v; return 0; }
int sim_sem_getvalue(sem_t *s, int *o) { *o = (int)*sem_v(s); return 0; }

/* ------------------------------------------------------------------ memory */
static uint64_t live_bytes, live_n, mem_limit; static int dirty = 0xA5;
static int alloc_denied(size_t n) {
    call_budget();
    if (fault_at(F_ALLOC, NULL)) return 1;
    if (have_fault[F_ALLOCSZ]) for (int i = 0; i < nfl; i++) if (FL[i].cls == F_ALLOCSZ && (long long)n >= FL[i].narg && n <= (size_t)INT64_MAX) {
        uint64_t idx = S->cnt[F_ALLOCSZ]++; if ((long long)idx >= FL[i].from && (FL[i].count < 0 || (long long)idx < FL[i].from + FL[i].count)) { S->fired[F_ALLOCSZ]++; return 1; } break; }
    if (live_bytes + n > mem_limit || n > mem_limit) { S->fired[F_MEMLIM]++; return 1; }
    return 0;
}
/* The heap of the program under test.  With the address sanitizer it is the sanitizer's.  Otherwise it is a heap of
   our own at a fixed address, so that a run depends on nothing but its scenario even if the program corrupts memory,
   and wrong releases and writes over the end of a block are recognised. */
#ifdef SIM_ASAN
#define h_malloc malloc
#define h_free free
#define h_size malloc_usable_size
static void *h_memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
#else
#define H_BASE ((char *)0x210000000000)
#define H_SPAN (1ull << 38)
#define H_LIVE 0x4c49564542313631ull
#define H_DEAD 0x4445414442313631ull
#define H_TAIL 0x5441494c42313631ull
typedef struct { uint64_t size, state; } hblk_t;      /* before every block; after it: the tail mark */
static char *h_top; static struct { size_t cap; void *p; } *h_list; static size_t h_n, h_m;
static int h_mine(void *p) { return (char *)p >= H_BASE && (char *)p < H_BASE + H_SPAN; }
static size_t h_cap(size_t n) { size_t c = (n + sizeof(hblk_t) + 8 + 31) & ~(size_t)31; return c >= 65536 ? (c + 4095) & ~(size_t)4095 : c; }
static void *h_malloc(size_t n) {
    if (n > H_SPAN) { errno = ENOMEM; return NULL; }
    size_t c = h_cap(n); hblk_t *b = NULL;
    if (!h_top) { void *m = mmap(H_BASE, H_SPAN, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
        if (m != H_BASE) sim_fatal("heap: %s", strerror(errno)); h_top = H_BASE + 4096; }
    for (size_t i = h_n; i-- > 0;) if (h_list[i].cap == c) { b = h_list[i].p; memmove(h_list + i, h_list + i + 1, (h_n - i - 1) * sizeof *h_list); h_n--; break; }
    if (!b) { if (c > (size_t)(H_BASE + H_SPAN - h_top)) { errno = ENOMEM; return NULL; } b = (hblk_t *)h_top; h_top += c; }
    b->size = n; b->state = H_LIVE; uint64_t t = H_TAIL; memcpy((char *)(b + 1) + n, &t, 8);
    return b + 1;
}
static void *h_memalign(size_t al, size_t n) { (void) al; return h_malloc(n); }     /* blocks are aligned to 16 bytes */
static hblk_t *h_check(void *p, const char *what) {
    hblk_t *b = (hblk_t *)p - 1; uint64_t t;
    if ((size_t)p % 16 || (char *)p > h_top || (b->state != H_LIVE && b->state != H_DEAD)) finish(K_SIGNAL, SIGABRT, "%s of a pointer that is no block of memory", what);
    if (b->state == H_DEAD) finish(K_SIGNAL, SIGABRT, "%s of a block of memory that was released before", what);
    memcpy(&t, (char *)p + b->size, 8); if (t != H_TAIL) finish(K_SIGNAL, SIGABRT, "a block of %llu bytes of memory was written over its end", (unsigned long long)b->size);
    return b;
}
static size_t h_size(void *p) { return h_mine(p) ? h_check(p, "use")->size : malloc_usable_size(p); }
static void h_free(void *p) {
    if (!h_mine(p)) { free(p); return; }
    hblk_t *b = h_check(p, "release"); size_t n = b->size, c = h_cap(n); b->state = H_DEAD;
    if (n > (1u << 20)) { char *lo = (char *)(((size_t)p + 4095) & ~(size_t)4095); madvise(lo, ((size_t)((char *)p + n - lo)) & ~(size_t)4095, MADV_DONTNEED); }
    if (h_n == h_m) { h_m = h_m ? 2 * h_m : 256; h_list = realloc(h_list, h_m * sizeof *h_list); if (!h_list) sim_fatal("heap"); }
    h_list[h_n].cap = c; h_list[h_n++].p = b;
}
#endif
static void *track(void *p, int fill) {
    if (p) { size_t u = h_size(p); live_n++; live_bytes += u; if (live_bytes > S->maxlive) S->maxlive = live_bytes;
        if (fill) memset(p, dirty, u <= (4u << 20) ? u : 65536); }
    return p;
}
static void note_alloc(size_t n) { static int on = -1; if (on < 0) on = (int)sc_int("trace_alloc", 0); if (on && n >= 64) aux_printf("AL %llu\n", (unsigned long long)n); }
void *sim_malloc(size_t n) { note_alloc(n); sim_point(PK_ALLOC, n); if (alloc_denied(n)) { errno = ENOMEM; return NULL; } return track(h_malloc(n), 1); }
void *sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; } note_alloc(n); sim_point(PK_ALLOC, n);
    if (alloc_denied(n)) { errno = ENOMEM; return NULL; }
#ifdef SIM_ASAN
    return track(calloc(a, b), 0);
#else
    char *was = h_top; char *p = h_malloc(n);
    if (p && p < was) { if (n > (1u << 20)) { char *lo = (char *)(((size_t)p + 4095) & ~(size_t)4095), *hi = (char *)((size_t)(p + n) & ~(size_t)4095); memset(p, 0, (size_t)(lo - p)); memset(hi, 0, (size_t)(p + n - hi)); if (hi > lo) madvise(lo, (size_t)(hi - lo), MADV_DONTNEED); }
        else memset(p, 0, n); }                    /* fresh memory of the heap is zero */
    return track(p, 0);
#endif
}
void sim_free(void *p) { if (!p) return; sim_point(PK_FREE, 0); size_t u = h_size(p); live_n--; live_bytes -= u < live_bytes ? u : live_bytes;
#ifndef SIM_ASAN
    if (u <= (1u << 20)) memset(p, 0xDB, u);
#endif
    h_free(p); }
void *sim_realloc(void *p, size_t n) { note_alloc(n); sim_point(PK_ALLOC, n); if (alloc_denied(n)) { errno = ENOMEM; return NULL; }
    size_t old = p ? h_size(p) : 0; void *q = h_malloc(n ? n : 1); if (!q) return NULL;
    if (!p) live_n++;
    memset(q, dirty, n <= (4u << 20) ? n : 65536); if (p) memcpy(q, p, old < n ? old : n); live_bytes += h_size(q); if (live_bytes > S->maxlive) S->maxlive = live_bytes;
    if (p) { live_bytes -= old < live_bytes ? old : live_bytes;
#ifndef SIM_ASAN
        if (old <= (1u << 20)) memset(p, 0xDB, old);
#endif
        h_free(p); } return q; }
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; } return sim_realloc(p, n); }
void *sim_aligned_alloc(size_t al, size_t n) { sim_point(PK_ALLOC, n); if (alloc_denied(n)) { errno = ENOMEM; return NULL; } return track(h_memalign(al, n), 0); }
int sim_posix_memalign(void **o, size_t al, size_t n) { sim_point(PK_ALLOC, n); if (alloc_denied(n)) return ENOMEM; void *r = h_memalign(al, n); if (!r) return ENOMEM; *o = track(r, 0); return 0; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

/* ------------------------------------------------------------------ files and streams */
typedef struct { char path[512]; char *data; size_t len, cap; int exists, writable; } vfile_t;
static vfile_t VF[256]; static int nvf;
typedef struct { int used, kind; vfile_t *f; size_t pos; int wr, append; } vfd_t;   /* kind: 0 stdin 1 stdout 2 stderr 3 file 4 urandom 5 null */
static vfd_t FD[128];
static const unsigned char *in_data; static size_t in_len; static uint64_t in_pos; static int in_gen; static uint64_t in_gen_seed;
static int in_chunk_max, out_chunk_max;
static vfile_t *vf_find(const char *p) { for (int i = 0; i < nvf; i++) if (VF[i].exists && !strcmp(VF[i].path, p)) return &VF[i]; return NULL; }
static vfile_t *vf_new(const char *p) { if (nvf == 256) return NULL; vfile_t *f = &VF[nvf++]; memset(f, 0, sizeof *f); snprintf(f->path, sizeof f->path, "%s", p); f->exists = 1; return f; }
static void fs_init(void) {
    for (int i = 0; i < nkv; i++) if (!strncmp(KV[i].k, "file:", 5)) { vfile_t *f = vf_new(KV[i].k + 5); if (!f) sim_fatal("files"); f->data = (char *)KV[i].v; f->len = KV[i].n; }
    size_t n; const char *v = sc_nth("stdin", 0, &n); if (v) { in_data = (const unsigned char *)v; in_len = n; }
    if ((v = sc_str("stdin_file", NULL))) { int fd = open(v, O_RDONLY); off_t l = fd < 0 ? -1 : lseek(fd, 0, SEEK_END); if (l < 0) sim_fatal("stdin_file %s", v);
        if (l) in_data = mmap(NULL, l, PROT_READ, MAP_PRIVATE, fd, 0); in_len = l; }
    long long lim = sc_int("stdin_len", -1); if (lim >= 0 && (size_t)lim < in_len) in_len = lim;
    if (sc_nth("stdin_gen", 0, NULL)) { in_gen = 1; in_gen_seed = sc_int("stdin_gen", 1); in_len = sc_int("stdin_len", 1 << 20); }
    in_chunk_max = sc_int("in_chunk", 0); out_chunk_max = sc_int("out_chunk", 0);
    for (int i = 0; i < 3; i++) { FD[i].used = 1; FD[i].kind = i; }
}
static ssize_t sys_read(vfd_t *d, void *buf, size_t n) {
    int cls = d->kind == 0 ? F_RSTDIN : d->kind == 4 ? F_RURANDOM : F_RFILE;
    sim_point(PK_READ, n); call_budget();
    fault_t *f = fault_at(cls, d->kind == 3 ? d->f->path : NULL);
    size_t cap = n;
    if (f) {
        if (!strcmp(f->act, "eof")) return 0;
        if (!strcmp(f->act, "short")) { long long a = f->narg > 0 ? f->narg : (long long)(n / 2); if ((size_t)a < cap) cap = a; if (!cap && n) cap = 1; }
        else { if (!d->kind && !S->in_fail_pos) S->in_fail_pos = S->stdin_pos + 1; errno = errno_of(f->act); return -1; }
    }
    size_t got = 0;
    if (d->kind == 0) {
        uint64_t left = in_pos < in_len ? in_len - in_pos : 0;
        if (in_chunk_max > 0 && cap > 1) { size_t c = 1 + splitmix(&rng_io) % in_chunk_max; if (c < cap) { cap = c; S->fired[F_CHUNK]++; } vns += splitmix(&rng_io) % 1000000; }
        got = cap < left ? cap : left;
        if (in_gen) for (size_t i = 0; i < got; i++) { uint64_t p = in_pos + i, s = in_gen_seed + (p >> 3); ((unsigned char *)buf)[i] = (unsigned char)(splitmix(&s) >> (8 * (p & 7))); }
        else memcpy(buf, in_data + in_pos, got);
        in_pos += got; S->stdin_pos = in_pos;
    } else if (d->kind == 4 && sc_int("urandom_stream", 0)) {   /* one long known stream, whoever reads it */
        static uint64_t upos; uint64_t base = (uint64_t)sc_int("urandom_stream", 0);
        got = cap; for (size_t i = 0; i < got; i++, upos++) { uint64_t s = base + (upos >> 3); ((unsigned char *)buf)[i] = (unsigned char)(splitmix(&s) >> (8 * (upos & 7))); }
        aux_printf("DEV %llu\n", (unsigned long long)got);
    } else if (d->kind == 4) { const char *z = sc_str("urandom", NULL); static uint64_t us; if (!us) us = sc_int("urandom_seed", 99); 
        size_t hn; const char *hx = sc_nth("urandom_hex", 0, &hn);
        got = cap; for (size_t i = 0; i < got; i++) if (hx) { unsigned v; char t[3] = {hx[2 * i % hn], hx[(2 * i + 1) % hn], 0}; sscanf(t, "%x", &v); ((unsigned char *)buf)[i] = v; } else ((unsigned char *)buf)[i] = z ? (unsigned char)atoi(z) : (unsigned char)splitmix(&us);
    } else if (d->kind == 3) {
        size_t left = d->f->len > d->pos ? d->f->len - d->pos : 0; got = cap < left ? cap : left; if (got) memcpy(buf, d->f->data + d->pos, got); d->pos += got;
    }
    S->hash = fnv(S->hash, got);
    return (ssize_t) got;
}
static void sink(int kind, const char *b, size_t n) {
    if (kind == 1) { S->out_total += n; uint64_t h = S->out_hash; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)b[i]) * 0x100000001b3ull; S->out_hash = h;
        size_t k = S->out_len + n > OUTCAP ? OUTCAP - S->out_len : n; memcpy(S_out + S->out_len, b, k); S->out_len += k; }
    else { S->err_total += n; size_t k = S->err_len + n > ERRCAP ? ERRCAP - S->err_len : n; memcpy(S_err + S->err_len, b, k); S->err_len += k; }
}
static int sigpipe_ignored;
static uint64_t stdout_limit;
static ssize_t sys_write(vfd_t *d, const char *b, size_t n) {
    int cls = d->kind == 1 ? F_WSTDOUT : d->kind == 2 ? F_WSTDERR : F_WFILE;
    call_budget(); S->points++; S->hash = fnv(fnv(S->hash, PK_WRITE), n);
    fault_t *f = fault_at(cls, NULL); size_t cap = n;
    if (d->kind == 1 && S->out_total + n > stdout_limit) {    /* the disk behind standard output has this many bytes left */
        S->fired[F_WSTDOUT]++; cap = stdout_limit > S->out_total ? stdout_limit - S->out_total : 0;
        if (!write_failed_seen && !cap) { write_failed_seen = 1; S->out_fail_pos = S->out_total + 1; }
        if (!cap) { errno = ENOSPC; return -1; }
    }
    if (f) {
        if (!strcmp(f->act, "short")) { long long a = f->narg > 0 ? f->narg : (long long)(n / 2); if ((size_t)a < cap) cap = a; if (!cap && n) cap = 1; }
        else if (!strcmp(f->act, "lost")) { return (ssize_t) n; }
        else { if (!write_failed_seen && d->kind == 1) { write_failed_seen = 1; S->out_fail_pos = S->out_total + 1; }
            if (!strcmp(f->act, "sigpipe") && !sigpipe_ignored) finish(K_SIGNAL, SIGPIPE, "SIGPIPE");
            errno = errno_of(!strcmp(f->act, "sigpipe") ? "epipe" : f->act); return -1; }
    }
    if (out_chunk_max > 0 && d->kind == 1 && cap > 1) { size_t c = 1 + splitmix(&rng_io) % out_chunk_max; if (c < cap) { cap = c; S->fired[F_CHUNK]++; } }
    if (d->kind == 1 || d->kind == 2) sink(d->kind, b, cap);
    else if (d->kind == 3) { vfile_t *v = d->f; if (!v->writable) { v->writable = 1; char *q = malloc(v->len + 1); if (v->len) memcpy(q, v->data, v->len); v->data = q; v->cap = v->len + 1; }
        size_t p = d->append ? v->len : d->pos; if (p + cap > v->cap) { v->cap = (p + cap) * 2; v->data = realloc(v->data, v->cap); } memcpy(v->data + p, b, cap); if (p + cap > v->len) v->len = p + cap; d->pos = p + cap; }
    return (ssize_t) cap;
}
/* stdio on top of the simulated system calls, retrying partial writes as glibc does */
static ssize_t ck_read(void *c, char *b, size_t n) { return sys_read(c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { size_t done = 0; while (done < n) { ssize_t k = sys_write(c, b + done, n - done); if (k < 0) return (ssize_t) done; done += k; } return (ssize_t) done; }
static int ck_seek(void *c, off64_t *off, int wh) { vfd_t *d = c;
    if (d->kind == 0 && sc_int("stdin_seek", 0)) { long long p = wh == SEEK_SET ? *off : wh == SEEK_CUR ? (long long)in_pos + *off : (long long)in_len + *off;
        if (p < 0) { errno = EINVAL; return -1; } in_pos = p; *off = p; return 0; }
    if (d->kind != 3) { errno = ESPIPE; return -1; }
    long long p = wh == SEEK_SET ? *off : wh == SEEK_CUR ? (long long)d->pos + *off : (long long)d->f->len + *off; if (p < 0) { errno = EINVAL; return -1; } d->pos = p; *off = p; return 0; }
static int ck_close(void *c) { ((vfd_t *)c)->used = 0; return 0; }
static FILE *mkfile(vfd_t *d, const char *mode) { cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; return fopencookie(d, mode, io); }
static int vfd_open(const char *path, int wr, int trunc, int append, int creat) {
    sim_point(PK_OPEN, 0); call_budget();
    fault_t *f = fault_at(F_OPEN, path); if (f) { errno = errno_of(f->act); return -1; }
    int s; for (s = 3; s < 128; s++) if (!FD[s].used) break;
    if (s == 128) { errno = EMFILE; return -1; }
    memset(&FD[s], 0, sizeof FD[s]);
    if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) { if (sc_int("no_urandom", 0)) { errno = ENOENT; return -1; } FD[s].kind = 4; }
    else if (!strcmp(path, "/dev/null")) FD[s].kind = 5;
    else { vfile_t *v = vf_find(path); if (!v) { if (!wr || !creat) { errno = ENOENT; return -1; } v = vf_new(path); if (!v) { errno = ENOSPC; return -1; } v->writable = 1; v->cap = 64; v->data = malloc(64); }
        if (trunc && wr) { v->writable = 1; v->cap = 64; v->data = malloc(64); v->len = 0; } FD[s].kind = 3; FD[s].f = v; FD[s].append = append; }
    FD[s].used = 1; FD[s].wr = wr; return s;
}
FILE *sim_fopen(const char *path, const char *mode) {
    int s = vfd_open(path, mode[0] != 'r' || strchr(mode, '+'), mode[0] == 'w', mode[0] == 'a', mode[0] != 'r'); if (s < 0) return NULL;
    return mkfile(&FD[s], mode);
}
int sim_open(const char *path, int flags, ...) { int s = vfd_open(path, (flags & 3) != O_RDONLY, !!(flags & O_TRUNC), !!(flags & O_APPEND), !!(flags & O_CREAT)); return s < 0 ? -1 : s >= 3 ? s + 1000 : s; }
static vfd_t *fd_of(int fd) { if (fd >= 1003) fd -= 1000; if (fd < 0 || fd >= 128 || !FD[fd].used) { errno = EBADF; return NULL; } return &FD[fd]; }
ssize_t sim_read(int fd, void *b, size_t n) { vfd_t *d = fd_of(fd); return d ? sys_read(d, b, n) : -1; }
ssize_t sim_write(int fd, const void *b, size_t n) { vfd_t *d = fd_of(fd); return d ? sys_write(d, b, n) : -1; }
int sim_close(int fd) { vfd_t *d = fd_of(fd); if (!d) return -1; sim_point(PK_OPEN, 1); d->used = 0; return 0; }
long sim_lseek(int fd, long off, int wh) { vfd_t *d = fd_of(fd); if (!d) return -1; off64_t o = off; return ck_seek(d, &o, wh) ? -1 : (long)o; }
static FILE *sin, *sout, *serr;
int sim_fileno(FILE *f) { if (f == sin) return 0; if (f == sout) return 1; if (f == serr) return 2; return 1999; }
int sim_isatty(int fd) { return sc_int("tty", 0) && fd < 3; }
ssize_t sim_getrandom(void *b, size_t n, unsigned fl) { (void) fl; vfd_t d = {1, 4, NULL, 0, 0, 0}; if (sc_int("no_urandom", 0)) { errno = ENOSYS; return -1; } return sys_read(&d, b, n); }
int sim_getentropy(void *b, size_t n) { return sim_getrandom(b, n, 0) == (ssize_t) n ? 0 : -1; }

/* printing: scheduling points before and after, honouring flockfile() */
static void pr_in(FILE *f) { sim_point(PK_PRINT, 0); if (sim_mt) while (mx_get(f)->owner && mx_get(f)->owner != cur + 1) block_on(f, 0); }
static void pr_out(void) { sim_point(PK_PRINT, 1); }
int sim_vfprintf(FILE *f, const char *fmt, va_list a) { pr_in(f); int r = vfprintf(f, fmt, a); S->hash = fnv(S->hash, r); pr_out(); return r; }
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vfprintf(f, fmt, a); va_end(a); return r; }
int sim_vprintf(const char *fmt, va_list a) { return sim_vfprintf(stdout, fmt, a); }
int sim_printf(const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vfprintf(stdout, fmt, a); va_end(a); return r; }
int sim_puts(const char *s) { pr_in(stdout); int r = puts(s); pr_out(); return r; }
int sim_fputs(const char *s, FILE *f) { pr_in(f); int r = fputs(s, f); pr_out(); return r; }
int sim_putchar(int c) { pr_in(stdout); int r = putchar(c); pr_out(); return r; }
int sim_fputc(int c, FILE *f) { pr_in(f); int r = fputc(c, f); pr_out(); return r; }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { pr_in(f); size_t r = fwrite(p, a, b, f); pr_out(); return r; }
int sim_fflush(FILE *f) { pr_in(f ? f : stdout); int r = fflush(f); pr_out(); return r; }
void sim_perror(const char *s) { sim_fprintf(stderr, "%s: %s\n", s, strerror(errno)); }
void sim_flockfile(FILE *f) { sim_point(PK_LOCK, 10); lock_impl(f, 1, 0, 0); }
int sim_ftrylockfile(FILE *f) { sim_point(PK_LOCK, 10); return lock_impl(f, 1, 1, 0); }
void sim_funlockfile(FILE *f) { unlock_impl(f); sim_point(PK_UNLOCK, 10); }
int sim_fclose(FILE *f) { sim_point(PK_OPEN, 2); return fclose(f); }

/* ------------------------------------------------------------------ time, system */
time_t sim_time(time_t *o) { long long t = clk_read(0); time_t r = clk_fail_now ? (time_t) -1 : (time_t)(t / 1000000000ll); if (o) *o = r; return r; }
clock_t sim_clock(void) { long long t = clk_read(1); return clk_fail_now ? (clock_t) -1 : (clock_t)(t / 1000); }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { int w = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? 0 : c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? 1 : 3;
    long long t = clk_read(w); if (clk_fail_now) { errno = EINVAL; return -1; } ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll; return 0; }
int sim_gettimeofday(struct timeval *tv, void *z) { (void) z; long long t = clk_read(0); tv->tv_sec = t / 1000000000ll; tv->tv_usec = (t % 1000000000ll) / 1000; return 0; }
int sim_timespec_get(struct timespec *ts, int base) { return sim_clock_gettime(CLOCK_REALTIME, ts) ? 0 : base; }
uint64_t sim_cpuclock(void) { return (uint64_t)((__int128)clk_read(2) * 3); }
uint64_t sim_call_rdseed(void) { static uint64_t s; if (!sc_nth("rdseed", 0, NULL)) return 0; if (!s) s = (uint64_t)sc_int("rdseed", 0); uint64_t v = splitmix(&s); static int nc; const char *fl = sc_nth("rdseed_flip", 0, NULL); int a, b; if (fl && sscanf(fl, "%d %d", &a, &b) == 2 && a == nc) v ^= 1ull << (b & 63); nc++; return v; }
static int do_sleep(uint64_t ns) { sim_point(PK_YIELD, ns); call_budget(); if (nlive > 1) block_on(NULL, vns + ns + 1); else vns += ns; S->vns = vns; return 0; }
int sim_nanosleep(const struct timespec *r, struct timespec *m) { (void) m; return do_sleep((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec); }
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *m) { (void) c; (void) fl; return sim_nanosleep(r, m); }
int sim_usleep(unsigned u) { return do_sleep((uint64_t)u * 1000); }
unsigned sim_sleep(unsigned s) { do_sleep((uint64_t)s * 1000000000ull); return 0; }
pid_t sim_getpid(void) { return (pid_t) sc_int("pid", 4242); }
static long sysconf_dflt(int n) { switch (n) { case _SC_NPROCESSORS_ONLN: case _SC_NPROCESSORS_CONF: return 8; case _SC_PAGESIZE: return 4096; case _SC_PHYS_PAGES: return 4194304; case _SC_AVPHYS_PAGES: return 2097152; default: return sysconf(n); } }
long sim_sysconf(int n) { sim_point(PK_MISC, 5); size_t l; const char *v;
    for (int i = 0; (v = sc_nth("sysconf", i, &l)); i++) { int k; long x; if (sscanf(v, "%d %ld", &k, &x) == 2 && k == n) { S->fired[F_SYSCONF]++; return x; } }
    return sysconf_dflt(n); }
int sim_get_nprocs(void) { return (int) sim_sysconf(_SC_NPROCESSORS_ONLN); }
static void (*atex[64])(void); static int natex;
int sim_atexit(void (*f)(void)) { if (natex == 64) return -1; atex[natex++] = f; return 0; }
void sim_exit(int code) __attribute__((noreturn));
static int exiting;
void sim_exit(int code) {
    sim_point(PK_EXIT, code);
    if (exiting++ == 0) { while (natex > 0) atex[--natex](); }
    /* exit() flushes and ends the whole process; other threads stay where they are */
    pol = POL_RR; nlive = 1; sim_mt = 0;
    fflush(NULL);
    for (int i = 0; i < nvf; i++) if (VF[i].writable) { aux_printf("\nVFILE %s %zu\n", VF[i].path, VF[i].len); aux_write(VF[i].data, VF[i].len); }
    finish(K_EXIT, code & 0xff, "exit by thread %d", T[cur].id);
}
void sim__exit(int code) { finish(K_EXIT, code & 0xff, "_exit by thread %d", T[cur].id); }
void sim_abort(void) { fflush(NULL); finish(K_SIGNAL, SIGABRT, "abort() by thread %d", T[cur].id); }
void (*sim_signal(int s, void (*h)(int)))(int) { if (s == SIGPIPE) sigpipe_ignored = h == SIG_IGN; return SIG_DFL; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { (void) o; if (s == SIGPIPE && a) sigpipe_ignored = a->sa_handler == SIG_IGN; return 0; }
int sim_raise(int s) { finish(K_SIGNAL, s, "raise"); return 0; }

/* ------------------------------------------------------------------ dynamic libraries */
static int dl_err; static int dl_open_count; static struct { void *h; int n; } DLH[256]; static int ndlh;
void *sim_dlopen(const char *path, int fl) { sim_point(PK_DL, 0); fault_t *f = fault_at(F_DLOPEN, path); if (f) { dl_err = 1; return NULL; }
    char key[600]; snprintf(key, sizeof key, "so:%s", path ? path : ""); const char *real = sc_str(key, path);
    void *h = dlopen(real, fl); if (!h) { dl_err = 1; return NULL; }
    dl_open_count++; int i; for (i = 0; i < ndlh && DLH[i].h != h; i++) ; if (i == ndlh && ndlh < 256) { DLH[i].h = h; DLH[i].n = 0; ndlh++; } if (i < 256) DLH[i].n++;
    return h; }
static int dl_live(void *h) { for (int i = 0; i < ndlh; i++) if (DLH[i].h == h) return DLH[i].n > 0 ? i + 1 : 0; return 0; }
void *sim_dlsym(void *h, const char *n) { sim_point(PK_DL, 1); if (!dl_live(h)) finish(K_UB, 2, "dlsym on a library that is not open"); fault_t *f = fault_at(F_DLSYM, n); if (f) { dl_err = 1; return NULL; } void *r = dlsym(h, n); if (!r) dl_err = 1; return r; }
int sim_dlclose(void *h) { sim_point(PK_DL, 2); int i = dl_live(h); if (!i) finish(K_UB, 3, "dlclose of a library that is not open"); DLH[i - 1].n--; dl_open_count--; dlclose(h); return 0; }
char *sim_dlerror(void) { static char m[] = "simulated loader error"; if (!dl_err) return NULL; dl_err = 0; return m; }

/* ------------------------------------------------------------------ run */
static char altstk[65536];
static void on_sig(int s, siginfo_t *si, void *u) { (void) u; static char b[96]; snprintf(b, sizeof b, "signal %d at address %p, thread %d", s, si && si->si_code > 0 ? si->si_addr : NULL, T[cur].id); finish(K_SIGNAL, s, "%s", b); }
#ifdef SIM_ASAN
void __asan_set_error_report_callback(void (*cb)(const char *));
static void asan_cb(const char *rep) { finish(K_ASAN, 0, "%.4000s", rep); }
const char *__asan_default_options(void) { return "detect_leaks=0:allocator_may_return_null=1:handle_segv=1:handle_abort=0:symbolize=0:detect_stack_use_after_return=0:max_allocation_size_mb=6000:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=64"; }
#endif
static int run_prog(void) {
    static char *av[256]; int ac = 0; size_t n; const char *v;
    for (int i = 0; ac < 255 && (v = sc_nth("arg", i, &n)); i++) av[ac++] = (char *)v;
    av[ac] = NULL;
    const char *p = sc_str("prog", "smokerand");
    if (!strcmp(p, "smokerand")) return sut_smokerand_main(ac, av);
    if (!strcmp(p, "sr_speed")) return sut_sr_speed_main(ac, av);
    if (!strcmp(p, "sr_tiny")) return sut_sr_tiny_main(ac, av);
    if (!strcmp(p, "test_syscrypto")) return sut_test_syscrypto_main(ac, av);
    if (!strcmp(p, "api")) return api_driver_main(ac, av);
    if (!strcmp(p, "inst")) return inst_driver_main(ac, av);
    if (!strcmp(p, "unit")) return unit_driver_main(ac, av);
    sim_fatal("unknown prog %s", p); return 0;
}
static char buf_out[1 << 16];
static void child_run(void) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    stack_t ss = {.ss_sp = altstk, .ss_size = sizeof altstk}; sigaltstack(&ss, NULL);
    int sg[] = {SIGFPE, SIGILL, SIGABRT, SIGBUS,
#ifndef SIM_ASAN
        SIGSEGV,
#endif
    }; for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, NULL);
#ifdef SIM_ASAN
    __asan_set_error_report_callback(asan_cb);
#endif
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    long long cpu = sc_int("cpu_s", 60); rl.rlim_cur = cpu; rl.rlim_max = cpu + 2; setrlimit(RLIMIT_CPU, &rl);
    mem_limit = sc_int("memlimit", 4ll << 30); dirty = sc_int("dirty", 0xA5); stdout_limit = (uint64_t)sc_int("stdout_limit", INT64_MAX);
    sigpipe_ignored = sc_int("sigpipe_ignored", 0);
    parse_faults(); fs_init(); clk_init();
    sin = mkfile(&FD[0], "r"); sout = mkfile(&FD[1], "w"); serr = mkfile(&FD[2], "w");
    setvbuf(sin, malloc(4096), _IOFBF, 4096); setvbuf(serr, NULL, _IONBF, 0);
    const char *ob = sc_str("outbuf", "full"); setvbuf(sout, buf_out, !strcmp(ob, "line") ? _IOLBF : !strcmp(ob, "none") ? _IONBF : _IOFBF, 4096);
    stdin = sin; stdout = sout; stderr = serr;
    if (!sc_nth("no_nl_flush", 0, NULL)) { }
    sched_init();
    int rc = run_prog();
    S->returned = 1; S->left_n = live_n; S->left_bytes = live_bytes; S->left_dl = (uint64_t)dl_open_count; S->left_thr = (uint64_t)(nlive - 1);
    for (int i = 3; i < 128; i++) S->left_fd += FD[i].used;
    sim_exit(rc);
}
static int read_full(int fd, void *b, size_t n) { char *p = b; while (n) { ssize_t k = read(fd, p, n); if (k <= 0) return -1; p += k; n -= k; } return 0; }
static int write_full(int fd, const void *b, size_t n) { const char *p = b; while (n) { ssize_t k = write(fd, p, n); if (k <= 0) return -1; p += k; n -= k; } return 0; }
static void *shmap(size_t n) { void *p = mmap(NULL, n, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }
static void run_one(char *req, size_t len, int wall) {
    uint64_t z = S->nsw, h = S->nhot; (void) z; (void) h;
    size_t hdr = offsetof(shm_t, sw); memset(S, 0, hdr); S->nsw = S->nhot = 0; S->out_len = S->err_len = S->aux_len = 0; S->note[0] = 0; S->hash = 0xcbf29ce484222325ull; S->ilv = 0x84222325cbf29ce4ull; S->out_hash = 0xcbf29ce484222325ull;
    pid_t p = fork();
    if (p == 0) { parse_scenario(req, req + len); child_run(); _exit(0); }
    if (p < 0) { S->kind = K_INTERNAL; snprintf(S->note, sizeof S->note, "fork failed"); return; }
    int st = 0; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD);
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break;
        clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec >= wall) { kill(p, SIGKILL); waitpid(p, &st, 0); if (S->kind == K_NONE) { S->kind = K_TIMEOUT; snprintf(S->note, sizeof S->note, "wall limit %d s", wall); } break; }
        struct timespec w = {0, 50000000}; sigtimedwait(&ss, NULL, &w);
    }
    if (S->kind == K_NONE) {
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { S->kind = K_TIMEOUT; snprintf(S->note, sizeof S->note, "cpu limit (signal %d)", WTERMSIG(st)); }
        else if (WIFSIGNALED(st)) { S->kind = K_SIGNAL; S->code = WTERMSIG(st); snprintf(S->note, sizeof S->note, "killed by signal %d", WTERMSIG(st)); }
        else { S->kind = K_INTERNAL; S->code = WEXITSTATUS(st); snprintf(S->note, sizeof S->note, "child left without a result, status %d", WEXITSTATUS(st)); }
    }
}
static void reply(void) {
    static char hb[65536]; size_t n = 0;
#define P(...) n += snprintf(hb + n, sizeof hb - n, __VA_ARGS__)
    P("kind %s\ncode %d\nsteps %llu\npoints %llu\nswitches %llu\nhash %016llx\nilv %016llx\nvns %llu\nnclk %llu\nmaxlive %llu\nreturned %llu\nleft_n %llu\nleft_bytes %llu\nleft_fd %llu\nleft_dl %llu\nleft_thr %llu\nnthreads %llu\nout_total %llu\nout_hash %016llx\nerr_total %llu\nout_fail_pos %llu\nwork_after_fail %llu\nstdin_pos %llu\nin_fail_pos %llu\n",
      kind_name[S->kind], S->code, (unsigned long long)S->steps, (unsigned long long)S->points, (unsigned long long)S->nsw_done, (unsigned long long)S->hash, (unsigned long long)S->ilv, (unsigned long long)S->vns,
      (unsigned long long)S->nclk, (unsigned long long)S->maxlive, (unsigned long long)S->returned, (unsigned long long)S->left_n, (unsigned long long)S->left_bytes, (unsigned long long)S->left_fd, (unsigned long long)S->left_dl, (unsigned long long)S->left_thr, (unsigned long long)S->nthreads, (unsigned long long)S->out_total, (unsigned long long)S->out_hash, (unsigned long long)S->err_total, (unsigned long long)S->out_fail_pos,
      (unsigned long long)S->work_after_fail, (unsigned long long)S->stdin_pos, (unsigned long long)S->in_fail_pos);
    for (int i = 0; i < NF; i++) if (S->cnt[i] || S->fired[i]) P("f:%s %llu %llu\n", fname[i], (unsigned long long)S->cnt[i], (unsigned long long)S->fired[i]);
    P("nsw %u\nnhot %u\nout_len %zu\nerr_len %zu\naux_len %zu\n", S->nsw, S->nhot, S->out_len, S->err_len, S->aux_len);
    for (char *q = S->note; *q; q++) if (*q == '\n') *q = '|';
    P("note %s\n", S->note);
    uint32_t l = n; write_full(1, &l, 4); write_full(1, hb, n);
    write_full(1, S->sw, S->nsw * sizeof S->sw[0]); write_full(1, S->hot, S->nhot * sizeof S->hot[0]);
    write_full(1, S_out, S->out_len); write_full(1, S_err, S->err_len); write_full(1, S_aux, S->aux_len);
}
int main(int argc, char **argv) {
    (void) argc;
    if (!getenv("SIM_NOASLR_TRIED")) {
        setenv("SIM_NOASLR_TRIED", "1", 1); int old = personality(0xffffffff);
        if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (getenv("SIM_CPU")) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(atoi(getenv("SIM_CPU")), &cs); sched_setaffinity(0, sizeof cs, &cs); }
    heap0 = (uintptr_t)sbrk(0); S = shmap(sizeof(shm_t)); S_out = shmap(OUTCAP); S_err = shmap(ERRCAP); S_aux = shmap(AUXCAP);
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, NULL);
    char *req = NULL; size_t cap = 0;
    for (;;) {
        uint32_t h[2]; if (read_full(0, h, 8)) return 0;   /* length, wall limit */
        if (h[0] + 16u > cap) { if (req) munmap(req, cap); cap = ((size_t)h[0] + (1u << 20)) & ~(size_t)4095; req = mmap(NULL, cap, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); }
        if (read_full(0, req, h[0])) return 0;
        req[h[0]] = 0;
        run_one(req, h[0], (int)h[1]); reply();
    }
}
