"""Workloads: scenario builders shared by the checks."""
from . import build

# every test kind a battery file can name, with small parameters (w: rough cost in T variant, ms)
MENU = {
 'monobit': ('test=monobit_freq nvalues=%d', lambda r: r.choice([1024, 2000, 5000]), 1),
 'bsp1':  ('test=bspace_nd nbits_per_dim=32 ndims=1 nsamples=%d get_lower=1', lambda r: r.choice([1, 2, 3]), 17),
 'bsp2':  ('test=bspace_nd nbits_per_dim=16 ndims=2 nsamples=%d get_lower=0', lambda r: r.choice([1, 2]), 17),
 'bsp8':  ('test=bspace_nd nbits_per_dim=4 ndims=8 nsamples=%d get_lower=1', lambda r: r.choice([1, 2]), 20),
 'b48':   ('test=bspace4_8d_decimated step=%d', lambda r: r.choice([1, 2, 4, 16]), 26),
 'co':    ('test=collisionover nbits_per_dim=8 ndims=2 nsamples=2 n=%d get_lower=1', lambda r: r.choice([1000, 2000, 4000]), 1),
 'co5':   ('test=collisionover nbits_per_dim=4 ndims=4 nsamples=3 n=%d get_lower=0', lambda r: r.choice([1000, 3000]), 2),
 'hd':    ('test=hamming_distr nvalues=65536 nlevels=%d', lambda r: r.choice([1, 3, 6]), 9),
 'gap':   ('test=gap shl=%d ngaps=10000', lambda r: r.choice([1, 3, 5]), 4),
 'gap16': ('test=gap16_count0 ngaps=%d', lambda r: r.choice([200000, 400000]), 12),
 'lc':    ('test=linearcomp nbits=%d bitpos=low', lambda r: r.choice([200, 500, 1000]), 9),
 'lch':   ('test=linearcomp nbits=%d bitpos=high', lambda r: r.choice([200, 500]), 5),
 'mr':    ('test=matrixrank n=256 max_nbits=%d', lambda r: r.choice([8, 32]), 60),
 'mod3':  ('test=mod3 nvalues=%d', lambda r: r.choice([100000, 150000]), 5),
 'sc':    ('test=sumcollector nvalues=%d', lambda r: r.choice([100000, 200000]), 5),
 'nw':    ('test=nbit_words_freq bits_per_word=%d average_freq=8 nblocks=16', lambda r: r.choice([2, 3, 4]), 2),
 'ho':    ('test=hamming_ot nbytes=%d mode=bytes', lambda r: 65536, 75),
 'hov':   ('test=hamming_ot nbytes=%d mode=values', lambda r: 65536, 75),
 'hol':   ('test=hamming_ot nbytes=%d mode=bytes_low8', lambda r: 65536, 75),
 'hl':    ('test=hamming_ot_long nvalues=%d wordsize=w128', lambda r: 65536, 75),
 'hl5':   ('test=hamming_ot_long nvalues=%d wordsize=w512', lambda r: 65536, 75),
 'is':    ('test=ising2d sample_len=%d nsamples=3 algorithm=wolff', lambda r: r.choice([100, 150]), 16),
 'im':    ('test=ising2d sample_len=%d nsamples=3 algorithm=metropolis', lambda r: r.choice([100, 150]), 15),
 'us':    ('test=usphere ndims=%d npoints=1000', lambda r: r.choice([2, 3, 5]), 1),
}
CHEAP = [k for k in MENU if MENU[k][2] <= 12]
MID = [k for k in MENU if MENU[k][2] <= 26]

def bat_file(rng, n, menu=None, name='custom', dup=0.4):
    """Text of a battery file with n tests; some kinds on purpose several times."""
    menu = menu or list(MENU); out = ['battery name=%s end' % name]; kinds = []
    for i in range(n):
        k = rng.choice(kinds) if kinds and rng.random() < dup else rng.choice(menu)
        kinds.append(k); f, v, w = MENU[k]
        out.append('%s_%d %s end' % (k, i, f % v(rng)))
    return '\n'.join(out) + '\n'

GENS64 = ['lcg64', 'xoroshiro128pp', 'sfc64']
GENS32 = ['xorshift128', 'mwc64x', 'pcg32']

def cli(args, files=None, **kw):
    sc = {'prog': 'smokerand', 'arg': ['smokerand'] + list(args)}
    for k, v in (files or {}).items(): sc['file:' + k] = v
    sc.update(kw)
    return sc

def api_line(d):
    return ' '.join('%s=%s' % (k, v) for k, v in d.items() if v is not None)
def api(lines, **kw):
    sc = {'prog': 'api', 'run': [api_line(l) if isinstance(l, dict) else l for l in lines]}
    sc.update(kw)
    return sc
