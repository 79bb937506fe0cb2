/* Workload W1: the public battery interface of the core library with a synthetic
 * generator and synthetic tests that observe exactly what they were given. */
#include "smokerand_core.h"
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>

typedef struct { uint64_t magic; int inst; uint64_t key[2]; uint64_t ctr; int busy; } SG;
#define MAGIC 0x51D0BA5Eu
static int ninst;
static SG *live[4096];
static int sg_nseeds = 2, sg_print = 0, sg_bits = 64, sg_create_fail = -1;
static uint64_t mix(uint64_t a, uint64_t b, uint64_t c) { uint64_t z = a + c * 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z ^= b; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void *sg_create(const GeneratorInfo *gi, const CallerAPI *intf) {
    (void) gi;
    int id = ninst++;
    if (id == sg_create_fail) { aux_printf("CF %d %d\n", id, sim_self()); return NULL; }
    SG *s = intf->malloc(sizeof *s);
    if (s == NULL) { aux_printf("CN %d %d\n", id, sim_self()); return NULL; }
    s->magic = MAGIC; s->inst = id; s->ctr = 0; s->busy = 0; s->key[0] = s->key[1] = 0;
    for (int i = 0; i < sg_nseeds; i++) { uint64_t v = intf->get_seed64(); s->key[i & 1] ^= v * (uint64_t)(2 * i + 1); aux_printf("GS %d %016llx %d\n", id, (unsigned long long)v, sim_self()); }
    aux_printf("C %d %016llx %016llx %d\n", id, (unsigned long long)s->key[0], (unsigned long long)s->key[1], sim_self());
    if (id < 4096) live[id] = s;
    if (sg_print) intf->printf("SG instance %d created\n", id);
    return s;
}
static void sg_free(void *st, const GeneratorInfo *gi, const CallerAPI *intf) {
    (void) gi; SG *s = st;
    if (s->magic != MAGIC) { aux_printf("BADFREE %d\n", sim_self()); return; }
    aux_printf("F %d %llu %d\n", s->inst, (unsigned long long)s->ctr, sim_self());
    s->magic = 0xDEADDEAD; if (s->inst < 4096) live[s->inst] = NULL; intf->free(s);
}
static uint64_t sg_value(const SG *s, uint64_t ctr) { uint64_t v = mix(s->key[0], s->key[1], ctr); return sg_bits == 32 ? v >> 32 : v; }
static uint64_t sg_bits_fn(void *st) {
    SG *s = st;
    if (s->magic != MAGIC) { aux_printf("USEFREED %d\n", sim_self()); return 0; }
    sim_work(3);
    uint64_t c = s->ctr; uint64_t v = sg_value(s, c); s->ctr = c + 1;
    return v;
}
/* the synthetic generator behind a state pointer: itself, or what an enveloping generator points to */

static int is_live(const void *p) { for (int i = 0; i < ninst && i < 4096; i++) if (live[i] == p && p) return 1; return 0; }
static SG *unwrap(void *st) {
    if (is_live(st)) return st;
    void **w = st;
    for (int i = 0; i < 3; i++) if (is_live(w[i])) return w[i];
    return NULL;
}
static uint64_t rev(uint64_t v, int n) { uint64_t r = 0; for (int i = 0; i < n; i++) r |= (v >> i & 1) << (n - 1 - i); return r; }
static int sg_rev;
static uint64_t sg_sum(void *st, size_t n) { uint64_t r = 0; for (size_t i = 0; i < n; i++) r += sg_bits_fn(st); return r; }

typedef struct { int idx, run, draws, prints, seeds, mode, points, plen; } TU;
static TestResults test_fn(GeneratorState *obj, const void *udata) {
    const TU *u = udata; SG *s = unwrap(obj->state);
    TestResults r = TestResults_create("synthetic");
    uint64_t h = 1469598103934665603ull; int bad = 0;
    if (s == NULL || s->magic != MAGIC) { aux_printf("USEFREED %d\n", sim_self()); return r; }
    if (s->busy) aux_printf("SHARED %d %d\n", s->inst, sim_self());
    s->busy = 1;
    const uint64_t k0 = s->key[0], k1 = s->key[1], start = s->ctr; const int inst = s->inst;
    aux_printf("TB %d %d %d %llu %d\n", u->run, u->idx, inst, (unsigned long long)start, sim_self());
    for (int i = 0, pr = 0, sd = 0; i < u->draws; i++) {
        uint64_t v = obj->gi->get_bits(obj->state);
        uint64_t e = mix(k0, k1, start + i); if (sg_bits == 32) e >>= 32; if (sg_rev) e = rev(e, sg_bits);
        if (v != e) bad++;
        h = (h ^ v) * 1099511628211ull;
        if (u->points && i % u->points == 0) sim_point(PK_USER, i);
        if (pr < u->prints && i * u->prints >= pr * u->draws) {
            char pad[600]; int l = u->plen > 580 ? 580 : u->plen; memset(pad, 'a' + u->idx % 26, l); pad[l] = 0;
            obj->intf->printf("MSG run=%d test=%d n=%d self=%d pad=%s end\n", u->run, u->idx, pr, sim_self(), pad); pr++;
        }
        if (sd < u->seeds && i * u->seeds >= sd * u->draws) {
            if (sd & 1) { uint32_t v32 = obj->intf->get_seed32(); aux_printf("TS3 %d %d %08x %d\n", u->run, u->idx, v32, sim_self()); }
            else { uint64_t v64 = obj->intf->get_seed64(); aux_printf("TS %d %d %016llx %d\n", u->run, u->idx, (unsigned long long)v64, sim_self()); }
            sd++;
        }
    }
    s->busy = 0;
    r.x = (double)(h >> 12); r.p = 0.002 + 0.99 * ((double)(h >> 40) / 16777216.0); r.alpha = 1.0 - r.p; r.penalty = 0.5;
    if (u->mode == 1) { r.p = 1e-30; r.alpha = 1.0; } else if (u->mode == 2) { r.p = 1.0; r.alpha = 1e-40; }
    else if (u->mode == 3) { r.p = 1e-5; r.alpha = 1 - 1e-5; } else if (u->mode == 4) { r.p = r.alpha = r.x = NAN; }
    else if (u->mode == 5) { r.p = 0.0; r.alpha = 1.0; } else if (u->mode == 6) { r.alpha = 1e-5; r.p = 1 - 1e-5; }
    aux_printf("TE %d %d %d %llu %d %d %016llx\n", u->run, u->idx, inst, (unsigned long long)s->ctr, sim_self(), bad, (unsigned long long)h);
    return r;
}

static long long kvi(const char *line, const char *k, long long d) {
    size_t n = strlen(k);
    for (const char *p = line; *p; ) { while (*p == ' ') p++; if (!strncmp(p, k, n) && p[n] == '=') return strtoll(p + n + 1, NULL, 0); while (*p && *p != ' ') p++; }
    return d;
}
static const char *kvs(const char *line, const char *k, char *buf, size_t m) {
    size_t n = strlen(k);
    for (const char *p = line; *p; ) { while (*p == ' ') p++; if (!strncmp(p, k, n) && p[n] == '=') { p += n + 1; size_t i = 0; while (*p && *p != ' ' && i + 1 < m) buf[i++] = *p++; buf[i] = 0; return buf; } while (*p && *p != ' ') p++; }
    return NULL;
}
#define MAXTESTS 600
int api_driver_main(int argc, char **argv) {
    (void) argc; (void) argv;
    const char *line; size_t len; int rc = 0;
    for (int run = 0; (line = sc_nth("run", run, &len)); run++) {
        static TU tu[MAXTESTS]; static TestDescription td[MAXTESTS + 1]; static char names[MAXTESTS][64];
        char sb[256], nb[64], mb[1024], bn[32];
        int nt = (int)kvi(line, "t", 5), thr = (int)kvi(line, "n", 2);
        sg_bits = (int)kvi(line, "bits", 64); sg_nseeds = (int)kvi(line, "gseeds", 2); sg_print = (int)kvi(line, "gprint", 0);
        sg_create_fail = (int)kvi(line, "cfail", -1); if (sg_create_fail >= 0) sg_create_fail += ninst;
        const char *modes = kvs(line, "modes", mb, sizeof mb);
        uint64_t ts = (uint64_t)kvi(line, "tseed", 1);
        for (int i = 0; i < nt && i < MAXTESTS; i++) {
            uint64_t q = mix(ts, 7, i);
            tu[i].idx = i; tu[i].run = run; tu[i].draws = (int)(kvi(line, "draws", 6) + q % (uint64_t)kvi(line, "spread", 8));
            tu[i].prints = (int)kvi(line, "prints", 0); tu[i].seeds = (int)kvi(line, "seeds", 0); tu[i].points = (int)kvi(line, "points", 0);
            tu[i].plen = (int)((q >> 20) % (uint64_t)kvi(line, "plen", 40)); tu[i].mode = modes && (size_t)i < strlen(modes) ? modes[i] - '0' : 0;
            snprintf(names[i], sizeof names[i], "%.*st%03d", (int)kvi(line, "pfx", 0), "a_common_beginning_of_all_names_", (int)(kvi(line, "dupnames", 0) ? i / 2 : i));
            td[i].name = names[i]; td[i].run = test_fn; td[i].udata = &tu[i];
        }
        td[nt].name = NULL; td[nt].run = NULL; td[nt].udata = NULL;
        snprintf(bn, sizeof bn, "simbat%d", run);
        TestsBattery bat = {bn, td};
        GeneratorInfo gi = {.name = "simgen", .description = NULL, .nbits = (unsigned)sg_bits, .create = sg_create, .free = sg_free,
            .get_bits = sg_bits_fn, .self_test = NULL, .get_sum = sg_sum, .parent = NULL};
        set_use_stderr_for_printf((int)kvi(line, "toerr", 0));
        aux_printf("RUN %d %llu\n", run, (unsigned long long)sim_out_pos());
        CallerAPI intf = kvi(line, "mthr", thr > 1) ? CallerAPI_init_mthr() : CallerAPI_init();
        const char *sd = kvs(line, "seed", sb, sizeof sb), *b64 = sd ? NULL : kvs(line, "b64", sb, sizeof sb);
        if (sd) set_entropy_textseed(sd); else if (b64) set_entropy_base64_seed(b64);
        int ndir = (int)kvi(line, "direct", 0);     /* direct seed requests before the battery */
        for (int i = 0; i < ndir; i++) { uint64_t v = intf.get_seed64(); aux_printf("D %d %016llx\n", run, (unsigned long long)v); }
        BatteryOptions o; memset(&o, 0, sizeof o);
        o.test.id = (unsigned)kvi(line, "id", 0); o.test.name = kvs(line, "name", nb, sizeof nb); o.nthreads = (unsigned)thr;
        o.report_type = kvi(line, "rep", 1) ? REPORT_FULL : REPORT_BRIEF; o.param = "";
        const GeneratorInfo *g = &gi; GeneratorInfo env; int filt = (int)kvi(line, "filter", 0); sg_rev = filt;
        if (filt) { env = define_reversed_generator(&gi); g = &env; }
        rc = (int)TestsBattery_run(&bat, g, &intf, &o);
        aux_printf("RET %d %d %llu\n", run, rc, (unsigned long long)sim_out_pos());
        if (kvi(line, "free", 1)) CallerAPI_free();
    }
    return rc;
}
