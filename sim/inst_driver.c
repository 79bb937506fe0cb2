/* Several instances of one generator library at the same time.
 * Scenario: th="<ops>" repeated; the first line is run by the main thread before the others start, the last one after
 * they ended, those between by a thread each. filter=<n>, param=<text>.
 * Ops: C<slot>:<seed> create, D<slot>:<n> take n outputs, S<slot>:<n> take a sum of n outputs, F<slot> release,
 *      R<slot>:<k> run the k-th "test" line (testdefs.h) on the instance, T0 internal self-test, U<k> scheduling point. */
#include "smokerand_core.h"
#include "sim.h"
#include "testdefs.h"
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
int sim_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int sim_pthread_join(pthread_t, void **);
#define NSLOT 64
typedef struct { void *st; uint64_t pos; int dead; } Slot;
static Slot slots[NSLOT];
static uint64_t seed_of[256], seed_k[256];
static GeneratorInfo base_gi, env_gi[2]; static const GeneratorInfo *G; static CallerAPI intf; static const char *param;
static uint64_t mix(uint64_t a, uint64_t c) { uint64_t z = a * 0xda942042e4dd58b5ull + c * 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t my_seed64(void) { int s = sim_self() & 255; return mix(seed_of[s], ++seed_k[s]); }
static uint32_t my_seed32(void) { return (uint32_t)(my_seed64() >> 32); }
static const char *my_param(void) { return param; }
static TestDescription tests[NSLOT]; static int ntests;
static void run_ops(const char *p, const char *e) {
    while (p < e) {
        char op = *p++; char *q; int k = (int)strtol(p, &q, 10); uint64_t n = 0; p = q;
        if (*p == ':') n = strtoull(p + 1, &q, 0), p = q;
        while (p < e && *p == ' ') p++;
        Slot *s = &slots[k & (NSLOT - 1)];
        switch (op) {
        case 'C':
            seed_of[sim_self() & 255] = n; seed_k[sim_self() & 255] = 0; s->pos = 0; s->dead = 0;
            s->st = G->create(G, &intf);
            if (s->st == NULL) { s->dead = 1; aux_printf("N %d\n", k); }
            break;
        case 'D': case 'S': {
            if (s->dead) break;
            uint64_t h = 1469598103934665603ull, first = 0, v = 0, bad = 0, start = s->pos;
            if (op == 'D') for (uint64_t i = 0; i < n; i++) { v = G->get_bits(s->st); if (G->nbits == 32 && v >> 32) bad++; if (i == 0) first = v; h = (h ^ v) * 1099511628211ull; }
            else if (G->get_sum) first = v = h = G->get_sum(s->st, n);
            else { for (uint64_t i = h = 0; i < n; i++) h += G->get_bits(s->st); }
            s->pos += n;
            aux_printf("O %d %c %llu %llu %016llx %llx %llx %llu\n", k, op, (unsigned long long)start, (unsigned long long)n, (unsigned long long)h, (unsigned long long)first, (unsigned long long)v, (unsigned long long)bad);
            break; }
        case 'F':
            if (s->dead) break;
            G->free(s->st, G, &intf); s->st = NULL; s->dead = 1; break;
        case 'R': {
            if (s->dead || n >= (uint64_t)ntests) break;
            GeneratorState gs; memset(&gs, 0, sizeof gs); gs.gi = G; gs.state = s->st; gs.intf = &intf;
            TestResults r = tests[n].run(&gs, tests[n].udata);
            aux_printf("R %d %d %a %a %a\n", k, (int)n, r.x, r.p, r.alpha);
            break; }
        case 'T': if (base_gi.self_test) aux_printf("T %d %d\n", k, base_gi.self_test(&intf)); break;
        case 'U': sim_point(PK_USER, (uint64_t)k); break;
        default: sim_fatal("inst driver: operation '%c'", op);
        }
    }
}
typedef struct { const char *p; size_t n; } Th;
static void *thr(void *a) { Th *t = a; run_ops(t->p, t->p + t->n); return NULL; }
int inst_driver_main(int argc, char **argv) {
    (void) argc; (void) argv;
    param = sc_str("param", ""); intf = CallerAPI_init();
    intf.get_seed64 = my_seed64; intf.get_seed32 = my_seed32; intf.get_param = my_param;
    GeneratorModule mod = GeneratorModule_load("gen.so", &intf);
    if (!mod.valid) { aux_printf("L 0\n"); return 3; }
    base_gi = mod.gen; G = &base_gi;
    switch (sc_int("filter", 0)) {
    case 1: env_gi[0] = define_reversed_generator(G); G = &env_gi[0]; break;
    case 2: env_gi[0] = define_interleaved_generator(G); G = &env_gi[0]; break;
    case 3: env_gi[0] = define_high32_generator(G); G = &env_gi[0]; break;
    case 4: env_gi[0] = define_low32_generator(G); G = &env_gi[0]; break;
    }
    aux_printf("L 1 %u %d\n", G->nbits, base_gi.self_test != NULL);
    static Th th[NSLOT]; int n = 0; size_t len; const char *l;
    for (ntests = 0; ntests < NSLOT && (l = sc_nth("test", ntests, &len)); ntests++) {
        char b[256], *sv; long long v[8] = {0}; int m = 0; snprintf(b, sizeof b, "%.*s", (int)len, l);
        char *nm = strtok_r(b, ":", &sv);
        for (char *x; m < 8 && (x = strtok_r(NULL, ":", &sv)); m++) v[m] = strtoll(x, NULL, 10);
        if (!build_test(nm, v, &tests[ntests])) sim_fatal("inst driver: test '%s'", nm);
    }
    while (n < NSLOT && (l = sc_nth("th", n, &len))) { th[n].p = l; th[n].n = len; n++; }
    if (n == 0) return 0;
    run_ops(th[0].p, th[0].p + th[0].n);
    static pthread_t id[NSLOT]; int up[NSLOT] = {0};
    for (int i = 1; i < n - 1; i++) up[i] = sim_pthread_create(&id[i], NULL, thr, &th[i]) == 0;
    for (int i = 1; i < n - 1; i++) if (up[i]) sim_pthread_join(id[i], NULL);
    if (n > 1) run_ops(th[n - 1].p, th[n - 1].p + th[n - 1].n);
    GeneratorModule_unload(&mod); CallerAPI_free();
    aux_printf("END\n");
    return 0;
}
