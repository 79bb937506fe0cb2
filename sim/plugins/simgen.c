/* Generator library of the harness; --param may contain: bits=32, failinit, failcreate=<k>, seeds=<n>, print, stopat=<n> (outputs of all instances), selftest=<0|1>,
 * cost=<ps> (simulated time of an output, work_ps=1), sparse=<k> (one output in four moved right by k bits), lowzero=<k> (output shifted by k bits), counter (distinct ordered values before the shift), fastsum (sums take no real time) */
#include "smokerand_core.h"
#include "sim.h"
#include <string.h>
#include <stdlib.h>
typedef struct { uint64_t magic, key, ctr; int inst; void *big; } SG;
static uint64_t cost; static int ninst, bits = 64, lowzero, sparse, counter, fastsum; static uint64_t stopat, outputs;
static long opt(const char *s, const char *k, long d) { const char *p = s ? strstr(s, k) : NULL; if (!p) return d; p += strlen(k); return *p == '=' ? strtol(p + 1, NULL, 10) : 1; }
static const char *par;
static void *create(const GeneratorInfo *gi, const CallerAPI *intf) {
    (void) gi; int id = ninst++; long k = opt(par, "failcreate", -1);
    if (k >= 0 && id >= k) { aux_printf("GCF %d\n", id); return NULL; }
    SG *s = intf->malloc(sizeof *s); if (!s) { aux_printf("GCN %d\n", id); return NULL; }
    memset(s, 0, sizeof *s); s->magic = 0x51D0BA5E; s->inst = id;
    for (long i = opt(par, "seeds", 1); i > 0; i--) s->key = s->key * 0x9e3779b97f4a7c15ull + intf->get_seed64();
    if (opt(par, "print", 0)) intf->printf("SIMGEN instance %d\n", id);
    aux_printf("GC %d %016llx %d\n", id, (unsigned long long)s->key, sim_self());
    return s;
}
static void gfree(void *st, const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; SG *s = st; aux_printf("GF %d %llu %s\n", s->inst, (unsigned long long)s->ctr, s->magic == 0x51D0BA5E ? "ok" : "BAD"); s->magic = 0; intf->free(s); }
static uint64_t get(void *st) {
    SG *s = st; uint64_t z = s->key + (s->ctr++) * 0x9e3779b97f4a7c15ull;
    if (s->magic != 0x51D0BA5E) aux_printf("GUSEFREED %d\n", s->inst);
    if (stopat && ++outputs >= stopat) sim_stop("enough outputs");
    if (cost) sim_work(cost); else if (!(s->ctr & 255)) sim_work(256);
    if (counter) z = s->key + s->ctr; else { z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; }
    if (sparse && !(((s->ctr * 0x9e3779b97f4a7c15ull) >> 40) & 3)) z = bits == 32 ? (sparse >= 32 ? 0 : (z >> 32 >> sparse) << 32) : sparse >= 64 ? 0 : z >> sparse;
    if (bits == 32) { z = counter ? z : z >> 32; return (uint32_t)((s->ctr & 1) ? z << lowzero : counter ? z >> 1 : z); }
    return z << lowzero;
}
static uint64_t sum(void *st, size_t n) { uint64_t r = 0; if (fastsum && !stopat) { sim_work(n); ((SG *)st)->ctr += n; return ((SG *)st)->key * n; } while (n--) r += get(st); return r; }
static int selftest(const CallerAPI *intf) { intf->printf("SIMGEN self-test\n"); return (int)opt(par, "selftest", 1); }
int EXPORT gen_getinfo(GeneratorInfo *gi, const CallerAPI *intf) {
    par = intf->get_param(); aux_printf("GI\n"); aux_printf("PAR %s\n", par);
    bits = (int)opt(par, "bits", 64); stopat = (uint64_t)opt(par, "stopat", 0);
    cost = (uint64_t)opt(par, "cost", 0); lowzero = (int)opt(par, "lowzero", 0); sparse = (int)opt(par, "sparse", 0); counter = (int)opt(par, "counter", 0); fastsum = (int)opt(par, "fastsum", 0);
    gi->name = "simgen"; gi->description = NULL; gi->nbits = (unsigned)bits; gi->create = create; gi->free = gfree; gi->get_bits = get; gi->get_sum = sum;
    gi->self_test = opt(par, "selftest", -1) >= 0 ? selftest : NULL; gi->parent = NULL;
    return !opt(par, "failinit", 0);
}
