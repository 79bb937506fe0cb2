#define _GNU_SOURCE
/* Reference battery: builds the test list directly from the public option structures.
 * batparam: <name>:<test>:<v1>:<v2>...;<name>:... ; the values in the fixed order below. "@<battery name>;" may come first. */
#include "smokerand_core.h"
#include "smokerand/plugindefs.h"
#include <string.h>
#include <stdlib.h>
#include "sim.h"
#include "testdefs.h"
#define N 512
/* exact results to the aux stream */
typedef struct { TestResults (*run)(GeneratorState *, const void *); const void *ud; int i; } WR;
static WR wr[N];
static TestResults traced(GeneratorState *obj, const void *ud) {
    const WR *w = ud; TestResults r = w->run(obj, w->ud); aux_printf("TR %d %a %a %a\n", w->i, r.x, r.p, r.alpha); return r; }
static TestDescription td[N + 1]; static char text[65536], bname[80];
BatteryExitCode EXPORT battery_func(const GeneratorInfo *gen, const CallerAPI *intf, const BatteryOptions *opts) {
    int n = 0; char *sv1, *sv2; strncpy(text, opts->param, sizeof text - 1); strcpy(bname, "CUSTOM");
    for (char *e = strtok_r(text, ";", &sv1); e && n < N; e = strtok_r(NULL, ";", &sv1)) {
        if (*e == '@') { strncpy(bname, e + 1, 79); continue; }
        char *name = strtok_r(e, ":", &sv2), *t = strtok_r(NULL, ":", &sv2); long long v[8] = {0}; int k = 0;
        for (char *x; k < 8 && (x = strtok_r(NULL, ":", &sv2)); k++) v[k] = strtoll(x, NULL, 10);
        td[n].name = name;
        if (!build_test(t, v, &td[n])) return BATTERY_ERROR;
        wr[n].run = td[n].run; wr[n].ud = td[n].udata; wr[n].i = n; td[n].run = traced; td[n].udata = &wr[n];
        n++;
    }
    memset(&td[n], 0, sizeof td[n]);
    TestsBattery bat; memset(&bat, 0, sizeof bat); bat.name = bname; bat.tests = td;
    BatteryExitCode r = TestsBattery_run(&bat, gen, intf, opts);
    for (int i = 0; i < n; i++) free((void *) wr[i].ud);
    return r;
}
