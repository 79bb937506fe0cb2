/* Battery library of the harness: tests that record exactly which words they were given.
 * batparam: test,test,... ; a test: <draws>[w][s<k>][m<mode>][a<bytes>]
 *   w: all words to the aux stream; s<k>: every k-th step takes the sum of k words through get_sum;
 *   m: result mode as in api_driver (1,2,5 failed; 3,6 suspicious; 4 NaN; 7 p>1; 8 p<0; 9 alpha NaN, 10 extreme); g<n>: penalty in hundredths; p: print a line; *<n>: that many such tests. A leading "=<text>," is put before all names. */
#include "smokerand_core.h"
#include "smokerand/plugindefs.h"
#include "sim.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>
typedef struct { int idx, draws, words, mode, prints, sum, pen; } TU;
static TestResults run_test(GeneratorState *obj, const void *ud) {
    const TU *u = ud; TestResults r = TestResults_create("sim");
    uint64_t h = 1469598103934665603ull; int nb = obj->gi->nbits / 4;
    aux_printf("TB %d %d %u\n", u->idx, sim_self(), obj->gi->nbits);
    if (sc_int("trace_time", 0)) aux_printf("TV %llu\n", (unsigned long long)sim_vns());
    char line[1100]; int l = 0;
    for (int i = 0; i < u->draws; i++) {
        uint64_t v;
        if (u->sum && i % u->sum == 0) {
            if (l) { aux_printf("W %d %s\n", u->idx, line); l = 0; }
            if (obj->gi->get_sum) v = obj->gi->get_sum(obj->state, u->sum);
            else { v = 0; for (int k = 0; k < u->sum; k++) v += obj->gi->get_bits(obj->state); }
            aux_printf("S %d %d %d %016llx\n", u->idx, i, u->sum, (unsigned long long)v);
        } else {
            v = obj->gi->get_bits(obj->state);
            if (u->words) { l += sprintf(line + l, "%0*llx", nb, (unsigned long long)v); if (l > 1000) { aux_printf("W %d %s\n", u->idx, line); l = 0; } }
        }
        if (!(i & 1023)) sim_work(1024);
        h = (h ^ v) * 1099511628211ull;
        if (u->prints && i % u->prints == 0) obj->intf->printf("SIMBAT test %d at %d\n", u->idx, i);
    }
    if (l) aux_printf("W %d %s\n", u->idx, line);
    if (sc_int("trace_time", 0)) aux_printf("TV %llu\n", (unsigned long long)sim_vns());
    aux_printf("TE %d %d %016llx\n", u->idx, sim_self(), (unsigned long long)h);
    r.x = (double)(h >> 12); r.p = 0.002 + 0.99 * ((double)(h >> 40) / 16777216.0); r.alpha = 1.0 - r.p; r.penalty = u->pen / 100.0;
    switch (u->mode) {
    case 1: r.p = 1e-30; r.alpha = 1.0; break;
    case 2: r.p = 1.0; r.alpha = 1e-40; break;
    case 3: r.p = 1e-5; r.alpha = 1 - 1e-5; break;
    case 4: r.p = r.alpha = r.x = NAN; break;
    case 5: r.p = 0.0; r.alpha = 1.0; break;
    case 6: r.alpha = 1e-5; r.p = 1 - 1e-5; break;
    case 7: r.p = 1.5; r.alpha = 0.5; break;
    case 8: r.p = -0.5; r.alpha = 1.0; break;
    case 10: r.p = pow(10.0, -1.0 - 20.0 * ((double)(h & 0xffff) / 65536.0)); if (h & 0x10000) { r.alpha = r.p; r.p = 1.0 - r.p; } else r.alpha = 1.0 - r.p; break;
    case 9: r.alpha = NAN; r.p = NAN; r.x = 1.0; break;
    }
    return r;
}
#define MAXT 1024
static TU tu[MAXT]; static TestDescription td[MAXT + 1]; static char names[MAXT][64];
BatteryExitCode EXPORT battery_func(const GeneratorInfo *gen, const CallerAPI *intf, const BatteryOptions *opts) {
    const char *p = opts->param; int n = 0;
    aux_printf("BATTERY %s\n", p);
    aux_printf("OPT %u\t%s\t%u\t%d\t%s\t%s\n", opts->test.id, opts->test.name ? opts->test.name : "-", opts->nthreads, (int)opts->report_type, opts->param, gen->name);
    const char *pfx = ""; int pl = 0;
    if (*p == '=') { pfx = ++p; while (*p && *p != ',') p++, pl++; if (pl > 40) pl = 40; if (*p) p++; }
    while (*p && n < MAXT) {
        int copies = 1; TU *u = &tu[n]; memset(u, 0, sizeof *u); u->idx = n; u->pen = 50; u->draws = (int)strtol(p, (char **)&p, 10);
        while (*p && *p != ',') {
            char c = *p++;
            if (c == 'w') u->words = 1;
            else if (c == 's') u->sum = (int)strtol(p, (char **)&p, 10);
            else if (c == 'm') u->mode = (int)strtol(p, (char **)&p, 10);
            else if (c == 'g') u->pen = (int)strtol(p, (char **)&p, 10);
            else if (c == '*') copies = (int)strtol(p, (char **)&p, 10);
            else if (c == 'p') u->prints = (int)strtol(p, (char **)&p, 10);
        }
        if (*p == ',') p++;
        TU proto = *u;
        for (int k = 0; k < copies && n < MAXT; k++) {
            tu[n] = proto; tu[n].idx = n; snprintf(names[n], sizeof names[n], "%.*ss%02d", pl, pfx, n); td[n].name = names[n]; td[n].run = run_test; td[n].udata = &tu[n]; n++;
        }
    }
    td[n].name = NULL; td[n].run = NULL; td[n].udata = NULL;
    TestsBattery bat; memset(&bat, 0, sizeof bat); bat.name = "SIMBAT"; bat.tests = td;
    return TestsBattery_run(&bat, gen, intf, opts);
}
