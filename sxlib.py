"""Build, run, replay and report: the driver shared by all checks."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CLANG, OPT, LINK = '/usr/bin/clang++-18', '/usr/bin/opt-18', '/usr/bin/llvm-link-18'
GXX = '/usr/bin/g++'
CORES = 8
ENV = dict(os.environ, TZ='UTC', LANG='C', LC_ALL='C')

PASSES = ('internalize,globaldce,function(sroa,early-cse,simplifycfg,instsimplify),cgscc(inline),'
          'function(sroa,early-cse,simplifycfg,instsimplify),globaldce')


class BuildError(Exception):
    pass


def run(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, **kw)
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')


def must(cmd, what, timeout=600):
    rc, o, e = run(cmd, timeout)
    if rc:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd), (e or o)[-3000:]))


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def files_under(*dirs):
    r = []
    for d in dirs:
        for root, _, fs in os.walk(d):
            r += [os.path.join(root, f) for f in fs]
    return r


def lock_build(path, fn):
    """Build `path` once: fn(tmp) creates tmp, which is then renamed."""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = '%s.%d.%s' % (path, os.getpid(), hashlib.md5(os.urandom(8)).hexdigest()[:6])
    fn(tmp)
    try:
        os.replace(tmp, path)
    except OSError:   # built by another run meanwhile
        if not os.path.exists(path):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    return path


def engine():
    src = [os.path.join(VERIF, 'engine', f) for f in ('sx.cpp', 'sx.h', 'exec.inc', 'builtins.inc')]
    z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'   # Z3 5.3; the system's is 4.8
    new = os.path.exists(z3 + '/lib/libz3.so') and os.path.exists(z3 + '/include/z3.h')
    out = os.path.join(BUILD, 'sx-' + digest(src, str(new)))

    def mk(tmp):
        cfg = subprocess.check_output(['llvm-config-18', '--cppflags', '--ldflags']).decode().split()
        inc = [x for x in cfg if not x.startswith('-L')]
        lib = [x for x in cfg if x.startswith('-L')]
        must([GXX, '-O2', '-w', '-std=c++17', '-fexceptions'] + (['-I' + z3 + '/include'] if new else []) + inc + [src[0], '-o', tmp] + lib + (['-L' + z3 + '/lib', '-Wl,-rpath,' + z3 + '/lib'] if new else []) + ['-lLLVM-18', '-lz3'], 'engine build')
    return lock_build(out, mk)


# ---------------------------------------------------------------------------------------------- bitcode
def profile_flags(prof, native=False):
    f = ['-std=c++11', '-DLINUX', '-DNDEBUG', '-w']
    if 'gdal' in prof:
        f.append('-DUSE_GDAL')
        if not native:
            f.append('-I' + os.path.join(VERIF, 'model', 'gdal'))
        else:
            f += subprocess.check_output(['pkg-config', '--cflags', 'gdal']).decode().split()
    if 'mongo' in prof:
        f += ['-DUSE_MONGODB']
        f.append('-I' + os.path.join(VERIF, 'model', 'mongo'))
        f += ['-I/usr/include/libmongoc-1.0', '-I/usr/include/libbson-1.0']
    if 'omp' in prof:
        f += ['-DSUPPORT_OMP', '-fopenmp']
    return f


def src_files(prof):
    r = sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    if 'mongo' not in prof:
        r = [x for x in r if not os.path.basename(x).startswith('db_')]
    return r


def tree_digest(prof, extra=''):
    fs = files_under(os.path.join(REPO, 'src'), os.path.join(REPO, 'apps'), os.path.join(VERIF, 'model'), os.path.join(VERIF, 'native'))
    fs = [f for f in fs if f.endswith(('.h', '.hpp', '.cpp', '.inc')) or '.' not in os.path.basename(f)]
    fs = [f for f in fs if 'googletest' not in f]
    return digest(fs, ','.join(sorted(prof)) + extra + PASSES)


def bc_flags(prof):
    return profile_flags(prof) + ['-include', 'sxpre.h', '-O1', '-gline-tables-only', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-emit-llvm', '-c',
            '-I' + os.path.join(VERIF, 'model', 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'apps'),
            '-I' + os.path.join(VERIF, 'harness')]


def lib_bc(prof, pool):
    """Bitcode of the library sources and of the runtime model (linked), built from the current tree."""
    out = os.path.join(BUILD, 'lib-%s.bc' % tree_digest(prof))

    def mk(tmp):
        jobs = []
        d = tempfile.mkdtemp(dir=BUILD)
        try:
            rt = os.path.join(d, 'rt.bc')
            base = ['-std=c++11', '-w', '-include', 'sxpre.h', '-O1', '-U__OPTIMIZE__', '-D__NO_INLINE__', '-Xclang', '-disable-llvm-passes', '-fno-builtin',
                    '-emit-llvm', '-c', '-I' + os.path.join(VERIF, 'model', 'include')]
            jobs.append(([CLANG] + base + [os.path.join(VERIF, 'model', 'rt.cpp'), '-o', rt], 'runtime model'))
            outs = [rt]
            for s in src_files(prof):
                o = os.path.join(d, os.path.basename(s) + '.bc')
                outs.append(o)
                jobs.append(([CLANG] + bc_flags(prof) + [s, '-o', o], 'compiling ' + s))
            for m in ('gdal', 'mongo'):
                if m in prof:
                    for s in sorted(glob.glob(os.path.join(VERIF, 'model', m, '*.cpp'))):
                        o = os.path.join(d, 'model_' + os.path.basename(s) + '.bc')
                        outs.append(o)
                        jobs.append(([CLANG] + bc_flags(prof) + [s, '-o', o], 'compiling ' + s))
            for f in [pool.submit(must, *j) for j in jobs]:
                f.result()
            must([LINK] + outs + ['-o', tmp], 'linking bitcode')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return lock_build(out, mk)


def file_bc(u, lib):
    """The harness file compiled and linked with the library: shared by all units of the file."""
    h = os.path.join(VERIF, 'harness', u['file'])
    hs = files_under(os.path.join(VERIF, 'harness'))
    out = os.path.join(BUILD, 'h-%s.bc' % digest([x for x in hs if x.endswith('.h')] + [h], tree_digest(u['prof'])))

    def mk(tmp):
        a = tmp + '.h.bc'
        try:
            must([CLANG] + bc_flags(u['prof']) + [h, '-o', a], 'compiling harness ' + u['file'])
            must([LINK, a, lib, '-o', tmp], 'linking harness')
        finally:
            if os.path.exists(a):
                os.unlink(a)
    return lock_build(out, mk)


def unit_bc(u, fbc):
    out = fbc[:-3] + '-' + u['entry'] + '.bc'

    def mk(tmp):
        must([OPT, '-passes=' + PASSES, '--internalize-public-api-list=' + u['entry'], fbc, '-o', tmp], 'optimising')
    return lock_build(out, mk)


# ---------------------------------------------------------------------------------------------- native
def native_lib(prof, san, pool):
    """Object files of the library for native replay."""
    out = os.path.join(BUILD, 'nat-%s-%s' % (san or 'plain', tree_digest(prof, 'native')))

    def mk(tmp):
        os.makedirs(tmp)
        fl = profile_flags(prof, True) + san_flags(san) + ['-g', '-O1', '-c', '-I' + os.path.join(REPO, 'src')]
        jobs = []
        for s in src_files(prof):
            jobs.append([GXX] + fl + [s, '-o', os.path.join(tmp, os.path.basename(s) + '.o')])
        if 'mongo' in prof:
            for s in sorted(glob.glob(os.path.join(VERIF, 'model', 'mongo', '*.cpp'))):
                jobs.append([GXX] + fl + ['-I' + api_dir(), '-DSX_NATIVE', s, '-o', os.path.join(tmp, 'model_' + os.path.basename(s) + '.o')])
        extra = [os.path.join(VERIF, 'native', 'native.cpp')]
        if 'omp' in prof and san == 'thread':
            extra.append(os.path.join(VERIF, 'native', 'gomp.cpp'))
        for s in extra:
            jobs.append([GXX] + [x for x in fl] + ['-I' + api_dir(), s, '-o', os.path.join(tmp, os.path.basename(s) + '.o')])
        for f in [pool.submit(must, j, 'native build') for j in jobs]:
            f.result()
    return lock_build(out, mk)


def api_dir():
    d = os.path.join(BUILD, 'api')
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, 'sxapi.h')
    src = os.path.join(VERIF, 'model', 'include', 'sxapi.h')
    data = open(src).read()
    if not os.path.exists(dst) or open(dst).read() != data:
        with open(dst + '.%d' % os.getpid(), 'w') as f:
            f.write(data)
        os.replace(dst + '.%d' % os.getpid(), dst)
    return d


def san_flags(san):
    if san == 'asan':
        return ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
    if san == 'thread':
        return ['-fsanitize=thread']
    return []


def native_bin(u, san, pool):
    lib = native_lib(u['prof'], san, pool)
    hs = files_under(os.path.join(VERIF, 'harness'))
    h = os.path.join(VERIF, 'harness', u['file'])
    out = os.path.join(BUILD, 'n-%s' % digest([x for x in hs if x.endswith('.h')] + [h], tree_digest(u['prof'], str(san))))

    def mk(tmp):
        fl = profile_flags(u['prof'], True) + san_flags(san) + ['-g', '-O1', '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'apps'), '-I' + api_dir(), '-I' + os.path.join(VERIF, 'harness')]
        libs = ['-ldl', '-lpthread']
        if 'gdal' in u['prof']:
            libs.append('-lgdal')
        if 'mongo' in u['prof']:
            libs.append('-lbson-1.0')
        objs = sorted(glob.glob(lib + '/*.o'))
        must([GXX] + fl + ['-rdynamic', '-Wl,--wrap=remove,--wrap=unlink,--wrap=rmdir,--wrap=rename,--wrap=system', h] + objs + ['-o', tmp] + libs, 'native harness')
    return lock_build(out, mk)


def native_run(binary, entry, models, params={}, valgrind=False, timeout=300):
    """Run the models natively; returns [{rc, obs, failed, text}]"""
    d = tempfile.mkdtemp(prefix='sxnat')
    try:
        mf, of = os.path.join(d, 'm'), os.path.join(d, 'o')
        with open(mf, 'w') as f:
            f.write('\n--\n'.join('\n'.join('%s %s' % (k, v) for k, v in sorted(m.items())) for m in models) + '\n')
        env = dict(ENV, ASAN_OPTIONS='exitcode=45:detect_leaks=1:allocator_may_return_null=1:handle_abort=1', LSAN_OPTIONS='exitcode=45',
                   UBSAN_OPTIONS='halt_on_error=1:exitcode=46:print_stacktrace=0', TSAN_OPTIONS='exitcode=47:halt_on_error=1')
        for k, v in params.items():
            env['SXP_' + k] = str(v)
        cmd = [binary, entry, mf, of]
        if valgrind:
            cmd = ['valgrind', '-q', '--error-exitcode=48', '--exit-on-first-error=yes', '--trace-children=no'] + cmd
        err = ''
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env)
            err = p.stderr.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            err = 'native run timed out'
        res = []
        cur = None
        if os.path.exists(of):
            for line in open(of, errors='replace'):
                w = line.rstrip('\n').split(' ')
                if w[0] == 'RUN':
                    cur = {'rc': None, 'obs': [], 'failed': None, 'note': '', 'n': 0, 'h': 1469598103934665603}
                    res.append(cur)
                elif cur is None:
                    continue
                elif w[0] == 'CHECK':
                    cur['n'] += 1
                    for ch in ' '.join(w[1:-1]).encode() + b'\n':
                        cur['h'] = (cur['h'] ^ ch) * 1099511628211 & (1 << 64) - 1
                elif w[0] == 'OBS':
                    cur['obs'].append([' '.join(w[1:-1]), w[-1]])
                elif w[0] == 'RC':
                    cur['rc'] = int(w[1])
                elif w[0] == 'CHECK-FAILED':
                    cur['failed'] = ' '.join(w[1:])
                elif w[0] in ('ASSUME-FALSE', 'MODEL-FAIL'):
                    cur['note'] = line.strip()
        for r in res:
            r['obs'] += [['#assertions', hex(r['n'])], ['#names', hex(r['h'])]]
        return res, err
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------------------------- one unit
def params_of(u, tier):
    return {k: v[0 if tier == 'quick' else 1] for k, v in u['params'].items()}


def run_engine(u, bc, tier, workers, outdir):
    secs = u['time'][0 if tier == 'quick' else 1]
    pref = os.path.join(outdir, u['name'])
    cmd = [engine(), '--entry', u['entry'], '--time', str(secs), '--workers', str(workers), '--out', pref] + u.get('args', [])
    for k, v in params_of(u, tier).items():
        cmd += ['--param', '%s=%d' % (k, v)]
    cmd.append(bc)
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV, start_new_session=True)
    timed = False
    try:
        _, err = p.communicate(timeout=secs + 45)
    except subprocess.TimeoutExpired:
        timed = True
        os.killpg(p.pid, signal.SIGKILL)
        _, err = p.communicate()
    agg = {'paths': 0, 'infeasible': 0, 'instrs': 0, 'forks': 0, 'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'checks_concrete': 0,
           'checks_solver': 0, 'incomplete': 0, 'unsupported': 0, 'modelhits': 0, 'solver_s': 0.0}
    checks, reach, unsup, funcs, errs, samples = {}, {}, {}, set(), [], []
    nstats = 0
    for f in sorted(glob.glob(pref + '.*.jsonl')):
        for line in open(f, errors='replace'):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d['t'] == 'stats':
                nstats += 1
                for k in agg:
                    agg[k] += d[k]
                for k, v in d['checks'].items():
                    checks[k] = checks.get(k, 0) + v
                for k, v in d['reach'].items():
                    reach[k] = reach.get(k, 0) + v
                unsup.update(d['unsup'])
                funcs.update(d['funcs'])
            elif d['t'] == 'err':
                errs.append(d)
            else:
                samples.append(d)
    if timed or nstats == 0:
        agg['incomplete'] += 1
        unsup['engine stopped (time or memory)'] = ''
    agg['wall'] = time.time() - t0
    return {'unit': u['name'], 'agg': agg, 'checks': checks, 'reach': reach, 'unsup': unsup, 'funcs': funcs, 'errs': errs, 'samples': samples,
            'stderr': err.decode('utf8', 'replace')[-500:], 'nstats': nstats}


def confirm(u, params, e, pool):
    """Does the counterexample reproduce natively?  Returns (bool, text)."""
    model = e.get('model', {})
    # plain build with assertions
    if e['kind'] == 'race':
        b = native_bin(u, 'thread', pool)
        for _ in range(3):
            res, err = native_run(b, u['entry'], [model], params)
            if res and res[0]['rc'] == 47:
                return True, 'ThreadSanitizer: ' + first_line(err, 'WARNING')
        return False, 'no race reported natively'
    want_san = e['kind'] in ('memory', 'leak', 'uninit', 'unreachable', 'div0', 'exception', 'abort', 'stack')
    for san in ((['asan', None] if want_san else [None, 'asan'])):
        b = native_bin(u, san, pool)
        res, err = native_run(b, u['entry'], [model], params)
        if not res:
            continue
        r = res[0]
        if r['rc'] in (43, 44):
            continue
        if r['rc'] == 42:
            return True, 'assertion %s fails natively' % r['failed']
        if r['rc'] not in (0, None):
            return True, 'native run ends with code %s: %s' % (r['rc'], first_line(err, 'ERROR', 'runtime error', 'terminate', 'SUMMARY'))
    if e['kind'] in ('uninit', 'memory', 'check'):
        b = native_bin(u, None, pool)
        res, err = native_run(b, u['entry'], [model], params, valgrind=True)
        if res and res[0]['rc'] not in (0, None, 43, 44):
            return True, 'valgrind: ' + first_line(err, '==')
    return False, 'not reproduced natively'


def first_line(text, *keys):
    for k in keys:
        for l in text.splitlines():
            if k in l:
                return l.strip()[:300]
    return text.strip().splitlines()[0][:300] if text.strip() else ''


ASSUMPTIONS = [
    'clang 18 front end and the LLVM passes named in sxlib.PASSES keep the meaning of the source; the engine and Z3 are trusted, counterexamples are not (each is replayed on the compiled code)',
    'the runtime model model/rt.cpp stands for libc and libstdc++ streams, files (in-memory), time (TZ=UTC) and the "C" locale; memory allocation succeeds for sensible sizes',
    'bounds are those stated for each unit; nothing is claimed outside them',
]
