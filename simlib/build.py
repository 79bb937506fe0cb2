"""Builds the simulator hosts and generator plugins from /repo's current tree into /verif/build
(git-ignored), keyed by content so that an unchanged tree is built once."""
import os, re, hashlib, subprocess, glob, shutil, fcntl, sys, concurrent.futures as cf

REPO = os.environ.get('SIM_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')
JOBS = min(8, os.cpu_count() or 8)

class BuildError(Exception):
    pass

COMMON = ['-std=c99', '-g1', '-w', '-march=native', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fno-omit-frame-pointer', '-fPIC']
APPS = ('smokerand', 'sr_speed', 'sr_tiny', 'test_syscrypto')
SYSBATS = ['speed', 'express', 'brief', 'default', 'full']   # batteries which a recording one may stand in for (sys_driver.c)
VARIANT = {  # flags for the program's own code
    'T': ['-O1', '-fsanitize=thread'],
    'A': ['-O1', '-fsanitize=address'],
    'P': ['-O2'],
    'C': ['-O1', '-fsanitize-coverage=trace-pc'],   # every basic block takes simulated time
}
WRAP = '''malloc calloc realloc free reallocarray aligned_alloc posix_memalign strdup strndup
open open64:open read write close lseek lseek64:lseek fopen fopen64:fopen fclose
printf vprintf fprintf vfprintf puts fputs putchar fputc putc:fputc _IO_putc:fputc fwrite fflush perror
fputs_unlocked:fputs fwrite_unlocked:fwrite putchar_unlocked:putchar putc_unlocked:fputc fflush_unlocked:fflush
flockfile funlockfile ftrylockfile fileno isatty getrandom getentropy
time clock clock_gettime gettimeofday timespec_get nanosleep clock_nanosleep usleep sleep sched_yield
pthread_yield:sched_yield
pthread_create pthread_join pthread_tryjoin_np pthread_detach pthread_self pthread_equal pthread_exit
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
pthread_once pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_barrier_init pthread_barrier_destroy pthread_barrier_wait
sem_init sem_destroy sem_post sem_wait sem_trywait sem_getvalue
exit _exit _Exit:_exit quick_exit:_exit abort atexit signal sigaction raise
sysconf getpid get_nprocs get_nprocs_conf:get_nprocs dlopen dlsym dlclose dlerror'''.split()

def _redef(extra=()):
    out = []
    for w in list(WRAP) + list(extra):
        a, _, b = w.partition(':')
        out.append('%s sim_%s' % (a, a))
    return '\n'.join(out) + '\n'

def _defsyms():
    return ['-Wl,--defsym=sim_%s=sim_%s' % tuple(w.split(':')) for w in WRAP if ':' in w]

def run(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-3000:]))

def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]

def _headers():
    return glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/src/*.h') + glob.glob(REPO + '/apps/*.h')

def _simsrc():
    return glob.glob(HERE + '/sim/*.[ch]') + [os.path.abspath(__file__)]

def tree_hash():
    return _hash(glob.glob(REPO + '/src/*') + glob.glob(REPO + '/apps/*.c') + _headers())

class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, '.lock-' + name)
    def __enter__(self):
        self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def _prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + '-*')), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)

def host(variant):
    """Path of the simulator executable holding the program's code in the given variant."""
    srcs = sorted(glob.glob(REPO + '/src/*.c'))
    apps = [REPO + '/apps/%s.c' % a for a in APPS]
    key = _hash(srcs + apps + _headers() + _simsrc(), variant)
    d = os.path.join(BUILD, 'host%s-%s' % (variant, key))
    exe = os.path.join(d, 'simhost')
    with _Lock('host' + variant):
        if os.path.exists(exe):
            os.utime(d)
            return exe
        tmp = d + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        _prune('host' + variant, 3)
        san = VARIANT[variant]
        mem = ['memcpy', 'memmove', 'memset'] if variant == 'T' else []
        for name, extra in (('main', ['cpuclock', 'call_rdseed'] + mem), ('cpu', mem),):
            open(os.path.join(tmp, name + '.redef'), 'w').write(_redef(extra))
        for a in APPS:
            open(os.path.join(tmp, 'app_%s.redef' % a), 'w').write(_redef(['cpuclock', 'call_rdseed'] + mem) + 'main sut_%s_main\n' % a
                 + (''.join('battery_%s sysw_%s\n' % (b, b) for b in SYSBATS) if a == 'test_syscrypto' else ''))
        jobs = []
        for s in srcs:
            b = os.path.basename(s)[:-2]
            cpu = b == 'cpuinfo'
            jobs.append((s, os.path.join(tmp, b + '.o'), COMMON + san + (['-DNO_CPU_EXTENSIONS'] if cpu else []), 'cpu' if cpu else 'main'))
        for s in apps:
            b = os.path.basename(s)[:-2]
            jobs.append((s, os.path.join(tmp, 'app_' + b + '.o'), COMMON + san, 'app_' + b))
        for b in ('api_driver', 'inst_driver', 'unit_driver', 'sys_driver'):   # drivers: instrumented, never redirected
            jobs.append((HERE + '/sim/%s.c' % b, os.path.join(tmp, b + '.o'), [f for f in COMMON if f != '-std=c99'] + ['-std=gnu11'] + san + ['-I' + HERE + '/sim'], None))
        rt = ['-O2', '-g1', '-w', '-std=gnu11', '-fPIC', '-U_FORTIFY_SOURCE', '-I' + HERE + '/sim'] + (['-fsanitize=address', '-DSIM_ASAN'] if variant == 'A' else [])
        for b in ('simrt', 'tsanrt'):
            jobs.append((HERE + '/sim/%s.c' % b, os.path.join(tmp, b + '.o'), rt, None))
        def one(j):
            src, obj, fl, rd = j
            run(['gcc'] + fl + ['-I' + REPO + '/include', '-c', src, '-o', obj])
            if rd:
                run(['objcopy', '--redefine-syms=' + os.path.join(tmp, rd + '.redef'), obj])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, jobs))
        # app-level helper functions with the same names in two programs: keep them local
        for a in ['app_' + x for x in APPS]:
            run(['objcopy', '--keep-global-symbol=' + a.replace('app_', 'sut_') + '_main', os.path.join(tmp, a + '.o')])
        run(['gcc'] + (['-fsanitize=address'] if variant == 'A' else []) + ['-rdynamic', '-o', os.path.join(tmp, 'simhost')]
            + [j[1] for j in jobs] + ['-lm', '-ldl', '-lpthread'] + _defsyms())
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
    return exe

def host32():
    """The 32-bit simulator host around the image loader: freestanding, no 32-bit C library is needed."""
    src = REPO + '/src/pe32loader.c'
    here = HERE + '/sim/pe32'
    key = _hash([src] + _headers() + glob.glob(here + '/*.c') + glob.glob(here + '/include/*') + [os.path.abspath(__file__)], 'X')
    d = os.path.join(BUILD, 'hostX-' + key); exe = os.path.join(d, 'simhost')
    with _Lock('hostX'):
        if os.path.exists(exe):
            os.utime(d); return exe
        tmp = d + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp); _prune('hostX', 3)
        inc = subprocess.run(['gcc', '-print-file-name=include'], stdout=subprocess.PIPE).stdout.decode().strip()
        fl = ['-m32', '-std=gnu11', '-O1', '-g1', '-w', '-ffreestanding', '-nostdlib', '-static', '-fno-pic', '-fno-pie', '-fno-stack-protector', '-fno-builtin',
              '-march=i686', '-mno-sse', '-nostdinc', '-isystem', inc, '-I' + here + '/include', '-I' + REPO + '/include']
        run(['gcc'] + fl + ['-fsanitize=kernel-address', '--param', 'asan-instrumentation-with-call-threshold=0', '--param', 'asan-stack=0', '--param', 'asan-globals=0', '-c', src, '-o', tmp + '/pe.o'])
        run(['gcc'] + fl + ['-c', here + '/host32.c', '-o', tmp + '/h.o'])
        run(['gcc', '-m32', '-static', '-nostdlib', '-no-pie', '-o', tmp + '/simhost', tmp + '/pe.o', tmp + '/h.o'])
        shutil.rmtree(d, ignore_errors=True); os.rename(tmp, d)
    return exe

def can32():
    """Whether 32-bit programs run here."""
    try:
        p = subprocess.run([host32()], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        return p.stdout[4:8] == b'kind'
    except OSError:
        return False

GEN_FLAGS = ['-std=c99', '-w', '-march=native', '-U_FORTIFY_SOURCE', '-fPIC', '-ffreestanding', '-nostdlib']

def _gen_deps(src):
    return _headers() + glob.glob(REPO + '/generators/*.h')

def ours_c(n): return n[0] == '@'

def plugins(names, variant):
    """Build generator libraries; returns {name: path}. A name starting with '@' is one of ours (sim/plugins)."""
    out = {}; todo = []
    hh = _hash(_headers() + glob.glob(REPO + '/generators/**/*.h', recursive=True) + [os.path.abspath(__file__)], variant)
    with _Lock('plug' + variant):
        pd = os.path.join(BUILD, 'plug%s-%s' % (variant, hh)); os.makedirs(pd, exist_ok=True); os.utime(pd)
        _prune('plug' + variant, 2)
        for n in names:
            src = HERE + '/sim/plugins/%s.c' % n[1:] if n[0] == '@' else REPO + '/generators/%s.c' % n
            so = os.path.join(pd, '%s-%s.so' % (n.replace('@', 'sim_').replace('/', '_'), _hash([src] + (glob.glob(HERE + '/sim/*.h') if n[0] == '@' else []))))
            out[n] = so
            if not os.path.exists(so):
                todo.append((n, src, so))
        def one(t):
            n, src, so = t
            san = VARIANT[variant] if variant in 'TC' and not (ours_c(n) and variant == 'C') else ['-O2']   # libraries are not ASan-instrumented: they use intf->malloc
            obj = so[:-3] + '.o'
            ours = n[0] == '@'
            fl = [f for f in GEN_FLAGS if not (ours and f in ('-ffreestanding', '-nostdlib'))]
            run(['gcc'] + fl + san + ['-I' + REPO + '/include', '-I' + HERE + '/sim', '-I' + os.path.dirname(src), '-c', src, '-o', obj])
            if variant == 'T':
                run(['objcopy', '--redefine-sym', 'memcpy=sim_memcpy', '--redefine-sym', 'memset=sim_memset', '--redefine-sym', 'memmove=sim_memmove', obj])
            run(['gcc', '-shared'] + ([] if ours else ['-nostdlib']) + [obj, '-o', so + '.tmp'] + ([] if ours else ['-lgcc']))
            os.remove(obj); os.rename(so + '.tmp', so)
        errs = []
        def safe(t):
            try: one(t)
            except BuildError as e: errs.append((t[0], str(e)))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(safe, todo))
        if errs:
            raise BuildError('plugin %s: %s' % errs[0])
    return out

if __name__ == '__main__':
    for v in sys.argv[1:] or ['T', 'P', 'A']:
        print(v, host(v))

def all_generators(variant):
    """All generator libraries of the tree, and the string literals of those that take a parameter."""
    names = sorted(os.path.basename(f)[:-2] for f in glob.glob(REPO + '/generators/*.c')); P = {}; lits = {}
    for i in range(0, len(names), 40): P.update(plugins(names[i:i + 40], variant))
    for n in names:
        src = open(REPO + '/generators/%s.c' % n, errors='replace').read()
        if 'get_param' in src: lits[n] = sorted(set(re.findall(r'"([A-Za-z0-9_+\-/.]{1,20})"', src)))
    return P, lits
