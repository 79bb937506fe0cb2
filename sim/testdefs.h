/* Builds a test from "<test>:<v1>:<v2>..." using the public option structures only. */
#ifndef TESTDEFS_H
#define TESTDEFS_H
#include "smokerand_core.h"
#include "smokerand/coretests.h"
#include "smokerand/lineardep.h"
#include "smokerand/hwtests.h"
#include "smokerand/extratests.h"
#include <string.h>
#include <stdlib.h>
static TestResults birthday_wrap(GeneratorState *obj, const void *ud) { return birthday_test(obj, ud); }
static int build_test(const char *t, const long long *v, TestDescription *td) {
    td->run = NULL; td->udata = NULL;
#define T(nm, type, fn, ...) if (!strcmp(t, nm)) { type o = { __VA_ARGS__ }; type *p = malloc(sizeof o); *p = o; td->run = fn; td->udata = p; }
    T("bspace_nd", BSpaceNDOptions, bspace_nd_test_wrap, .nbits_per_dim = v[0], .ndims = v[1], .nsamples = v[2], .get_lower = v[3])
    T("collisionover", CollOverNDOptions, collisionover_test_wrap, .nbits_per_dim = v[0], .ndims = v[1], .nsamples = v[2], .n = v[4], .get_lower = v[3])
    T("bspace4_8d_decimated", BSpace4x8dDecimatedOptions, bspace4_8d_decimated_test_wrap, .step = v[0])
    T("gap", GapOptions, gap_test_wrap, .shl = v[0], .ngaps = v[1])
    T("gap16_count0", Gap16Count0Options, gap16_count0_test_wrap, .ngaps = v[0])
    T("hamming_distr", HammingDistrOptions, hamming_distr_test_wrap, .nvalues = v[0], .nlevels = v[1])
    T("hamming_ot", HammingOtOptions, hamming_ot_test_wrap, .nbytes = v[0],
        .mode = v[1] == 0 ? HAMMING_OT_VALUES : v[1] == 1 ? HAMMING_OT_BYTES : v[1] == 2 ? HAMMING_OT_BYTES_LOW8 : HAMMING_OT_BYTES_LOW1)
    T("hamming_ot_long", HammingOtLongOptions, hamming_ot_long_test_wrap, .nvalues = v[0],
        .wordsize = v[1] == 0 ? HAMMING_OT_W128 : v[1] == 1 ? HAMMING_OT_W256 : v[1] == 2 ? HAMMING_OT_W512 : HAMMING_OT_W1024)
    T("ising2d", Ising2DOptions, ising2d_test_wrap, .sample_len = v[0], .nsamples = v[1], .algorithm = v[2] == 0 ? ISING_WOLFF : ISING_METROPOLIS)
    T("linearcomp", LinearCompOptions, linearcomp_test_wrap, .nbits = v[0],
        .bitpos = v[1] == -1 ? LINEARCOMP_BITPOS_LOW : v[1] == -2 ? LINEARCOMP_BITPOS_MID : v[1] == -3 ? LINEARCOMP_BITPOS_HIGH : v[1])
    T("matrixrank", MatrixRankOptions, matrixrank_test_wrap, .n = v[0], .max_nbits = v[1])
    T("mod3", Mod3Options, mod3_test_wrap, .nvalues = v[0])
    T("monobit_freq", MonobitFreqOptions, monobit_freq_test_wrap, .nvalues = v[0])
    T("nbit_words_freq", NBitWordsFreqOptions, nbit_words_freq_test_wrap, .bits_per_word = v[0], .average_freq = v[1], .nblocks = v[2])
    T("sumcollector", SumCollectorOptions, sumcollector_test_wrap, .nvalues = v[0])
    T("usphere", UnitSphereOptions, unit_sphere_volume_test_wrap, .ndims = v[0], .npoints = v[1])
    T("birthday", BirthdayOptions, birthday_wrap, .n = v[0], .e = v[1])
    if (!strcmp(t, "byte_freq")) td->run = byte_freq_test_wrap;
    if (!strcmp(t, "word16_freq")) td->run = word16_freq_test_wrap;
    return td->run != NULL;
}
#endif
