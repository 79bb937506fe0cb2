/* Batteries called by apps/test_syscrypto.c: the real ones, or (scenario key sysplan) one that records what it draws.
   sysplan: instances separated by ','; each "<words>" or "<words>+<words>" for two instances that live at the same time;
   "F<bytes>" is a direct request to fill_from_random_device. */
#include "sim.h"
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include "smokerand_core.h"
#include "smokerand_bat.h"

static void draw(GeneratorState *g, int inst, long n) {
    char line[1100]; int l = 0;
    for (long i = 0; i < n; i++) {
        uint64_t v = g->gi->get_bits(g->state);
        l += sprintf(line + l, "%016llx", (unsigned long long)v);
        if (l >= 1024 || i == n - 1) { aux_printf("DW %d %s\n", inst, line); l = 0; }
    }
}
static BatteryExitCode recorded(const char *name, const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *o) {
    const char *p = sc_str("sysplan", ""); int inst = 0;
    aux_printf("SYSBAT %s %u %u %s\n", name, gi->nbits, o ? o->nthreads : 0, o && (o->test.id || o->test.name) ? "part" : "all");
    while (*p) {
        if (*p == 'F') {                                            /* the function behind the program: F<bytes> */
            static unsigned char buf[1 << 16]; long n = strtol(p + 1, (char **)&p, 10); char line[1100];
            memset(buf, 0x5A, sizeof buf);
            int ok = fill_from_random_device(buf, (size_t) n);
            for (long i = n; i < (long) sizeof buf; i++) if (buf[i] != 0x5A) { ok = 99; break; }
            aux_printf("FI %d %ld\n", ok, n);
            for (long i = 0; ok && i < n; i += 512) { int l = 0; for (long k = i; k < n && k < i + 512; k++) l += sprintf(line + l, "%02x", buf[k]); aux_printf("FD %s\n", line); }
            if (*p == ',') p++;
            continue;
        }
        long a = strtol(p, (char **)&p, 10), b = -1;
        if (*p == '+') b = strtol(p + 1, (char **)&p, 10);
        GeneratorState g = GeneratorState_create(gi, intf), h; int i0 = inst++;
        if (b >= 0) { h = GeneratorState_create(gi, intf); int i1 = inst++;
            while (a > 0 || b > 0) { long k = a < 1500 ? a : 1500; draw(&g, i0, k); a -= k; k = b < 1700 ? b : 1700; draw(&h, i1, k); b -= k; }
            GeneratorState_destruct(&h);
        } else draw(&g, i0, a);
        GeneratorState_destruct(&g);
        if (*p == ',') p++;
    }
    intf->printf("recorded\n");
    aux_printf("SYSEND\n");
    return (BatteryExitCode) sc_int("sysret", 0);
}
#define W(n) BatteryExitCode sysw_##n(const GeneratorInfo *gi, const CallerAPI *intf, const BatteryOptions *o) { return sc_str("sysplan", NULL) ? recorded(#n, gi, intf, o) : battery_##n(gi, intf, o); }
W(express) W(brief) W(default) W(full)
BatteryExitCode sysw_speed(const GeneratorInfo *gi, const CallerAPI *intf) { return sc_str("sysplan", NULL) ? recorded("speed", gi, intf, NULL) : battery_speed(gi, intf); }
