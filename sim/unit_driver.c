/* Drives single parts of the library: unit <command> ... */
#include "sim.h"
#include <string.h>
#include <stdint.h>
double get_cpu_freq(void); uint64_t emulate_cpuclock(void);
int unit_driver_main(int argc, char **argv) {
    const char *c = argc > 1 ? argv[1] : "";
    if (!strcmp(c, "cpufreq")) {
        aux_printf("FREQ %g\n", get_cpu_freq());
        uint64_t a = emulate_cpuclock(), b = emulate_cpuclock();
        aux_printf("CLK %llu\n", (unsigned long long)(b - a));
        return 0;
    }
    sim_fatal("unit driver: unknown command '%s'", c); return 2;
}
