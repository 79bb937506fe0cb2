/* Generator library of the harness whose calls take known simulated time. The scenario key "cost_<file name without .so>" holds
 * "<bits> <picoseconds per output> <picoseconds per word of a sum> <1: has get_sum>"; one unit of work must be one picosecond (work_ps=1). */
#define _GNU_SOURCE
#include "smokerand_core.h"
#include "sim.h"
#include <dlfcn.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define QUIET __attribute__((no_sanitize("thread"), noinline))
typedef struct { uint64_t ctr; } ST;
static int bits = 64, hassum = 1; static uint64_t u_ps, s_ps; static char myname[64];
static void *create(const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; ST *s = intf->malloc(sizeof *s); s->ctr = intf->get_seed64(); return s; }
static void gfree(void *st, const GeneratorInfo *gi, const CallerAPI *intf) { (void) gi; intf->free(st); }
static QUIET uint64_t next(ST *s) { uint64_t z = s->ctr += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; return bits == 32 ? (uint32_t)z : z; }
static QUIET uint64_t get(void *st) { sim_work(u_ps); return next(st); }
static QUIET uint64_t sum(void *st, size_t n) { sim_work(s_ps * n); return next(st) * n; }
int EXPORT gen_getinfo(GeneratorInfo *gi, const CallerAPI *intf) {
    (void) intf; Dl_info di; char key[96]; const char *v; unsigned long long a = 0, b = 0;
    if (!dladdr((void *)create, &di)) return 0;
    const char *p = strrchr(di.dli_fname, '/'); p = p ? p + 1 : di.dli_fname;
    snprintf(myname, sizeof myname, "%.*s", (int)strcspn(p, "."), p); snprintf(key, sizeof key, "cost_%s", myname);
    v = sc_str(key, "64 1000 1000 1"); sscanf(v, "%d %llu %llu %d", &bits, &a, &b, &hassum); u_ps = a; s_ps = b;
    gi->name = myname; gi->description = NULL; gi->nbits = (unsigned)bits; gi->create = create; gi->free = gfree; gi->get_bits = get; gi->get_sum = hassum ? sum : NULL;
    gi->self_test = NULL; gi->parent = NULL;
    return 1;
}
