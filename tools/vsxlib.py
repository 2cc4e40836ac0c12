"""Builds the executor, compiles /repo to bitcode, links harnesses, runs jobs and replays counterexamples."""
import os, re, sys, json, hashlib, subprocess, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VSX_REPO', '/repo')
BUILD = os.environ.get('VSX_BUILD', os.path.join(VERIF, 'build'))
NPROC = min(8, os.cpu_count() or 8)

DEFS = ['-DVS_CURRENT_RELEASE=78', '-DVS_GRAPH_API', '-DVS_USE_LATEST_API', '-DVSSCRIPT_USE_LATEST_API', '-DVS_TARGET_OS_LINUX',
        '-DVS_TARGET_CPU_X86', '-DVS_CORE_EXPORTS', '-DHAVE_SCHED_GETAFFINITY']
BCFLAGS = ['-std=c++20', '-O1', '-fno-pic', '-g0', '-fno-char8_t', '-fno-math-errno', '-ffp-contract=off', '-fwrapv-pointer', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
           '-fno-vectorize', '-fno-slp-vectorize', '-w', '-emit-llvm', '-c']
BCFLAGS.remove('-fwrapv-pointer')
CORE = ['cpufeatures', 'internalfilters', 'kernel/cpulevel', 'memoryuse', 'textfilter', 'vsapi', 'vscore', 'vslog', 'vsresize', 'vsthreadpool']
FILTERS = ['audiofilters', 'audioresampling', 'averageframesfilter', 'boxblurfilter', 'coreplugins', 'cpufeatures', 'exprfilter', 'expr/expr', 'expr/jitcompiler',
           'genericfilters', 'kernel/cpulevel', 'kernel/generic', 'kernel/merge', 'kernel/planestats', 'kernel/transpose', 'lutfilters', 'mergefilters', 'reorderfilters', 'simplefilters']


class Infra(Exception):
    pass


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def hash_files(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        try:
            with open(p, 'rb') as f:
                h.update(f.read())
        except OSError:
            h.update(b'?')
    return h.hexdigest()[:24]


def repo_sources():
    """The files the two libraries are built from, as meson.build names them (tests/filter sources included)."""
    try:
        mb = open(os.path.join(REPO, 'meson.build')).read()
    except OSError:
        mb = ''
    def files_after(marker, end=')'):
        i = mb.find(marker)
        if i < 0:
            return None
        j = mb.find('files(', i)
        k = mb.find(')', j)
        return re.findall(r"'(src/[^']+\.cpp)'", mb[j:k])
    core = files_after("libvapoursynth = library(") or ['src/core/%s.cpp' % x for x in CORE]
    flt = files_after('filters_sources = files(') or ['src/core/%s.cpp' % x for x in FILTERS]
    sse2 = files_after('sse2_kernel_sources = files(') or []
    avx2 = files_after('avx2_kernel_sources = files(') or []
    avx512 = files_after('avx512_kernel_sources = files(') or []
    if not sse2:
        k = os.path.join(REPO, 'src/core/kernel/x86')
        for f in sorted(os.listdir(k)):
            for l, tag in ((sse2, '_sse2.cpp'), (avx2, '_avx2.cpp'), (avx512, '_avx512.cpp')):
                if f.endswith(tag):
                    l.append('src/core/kernel/x86/' + f)
        sse2.append('src/core/expr/jitcompiler_x86.cpp')
    out, seen = [], set()
    for grp, arch in ((core, None), (flt, None), (sse2, None), (avx2, 'x86-64-v3'), (avx512, 'x86-64-v4')):
        for s in grp:
            if s in seen:
                continue
            seen.add(s)
            p = os.path.join(REPO, s)
            if s.endswith('vsresize.cpp'):
                p = os.path.join(VERIF, 'rt/resize_left_out.cpp')
            if os.path.exists(p):
                out.append((s, p, arch))
    return out


def repo_headers():
    r = []
    for d in ('include', 'src'):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                if f.endswith(('.h', '.hpp', '.inc', '.inl', '.cpp', '.c')) and not f.endswith('.cpp') or f.endswith('.h'):
                    r.append(os.path.join(root, f))
    return r


_hdr = None


def hdr_hash():
    global _hdr
    if _hdr is None:
        _hdr = hash_files(repo_headers() + [os.path.join(VERIF, 'rt', f) for f in ('vsxfake.h', 'vsx.h')], ' '.join(BCFLAGS + DEFS))
    return _hdr


def engine():
    out = os.path.join(BUILD, 'engine')
    with Lock('engine'):
        r = sh(['make', '-C', os.path.join(VERIF, 'engine'), '-j8', 'OUT=' + out])
        if r.returncode:
            raise Infra('engine build failed:\n' + r.stdout[-3000:])
    return os.path.join(out, 'vsx')


def small_include(n):
    """a copy of include/ with audio frames of n samples (harness NAME@n), regenerated from the current tree"""
    import glob
    fs = sorted(glob.glob(os.path.join(REPO, 'include', '*.h')))
    d = os.path.join(BUILD, 'include', '%d.%s' % (n, hash_files(fs)))
    if not os.path.exists(d):
        with Lock('include'):
            tmp = d + '.tmp'
            os.makedirs(tmp, exist_ok=True)
            hit = 0
            for f in fs:
                t, k = re.subn(r'(?m)^(\s*#\s*define\s+VS_AUDIO_FRAME_SAMPLES\s+)\d+', r'\g<1>%d' % n, open(f, errors='replace').read())
                hit += k
                open(os.path.join(tmp, os.path.basename(f)), 'w').write(t)
            if hit != 1:
                raise Infra('VS_AUDIO_FRAME_SAMPLES is not defined as expected')
            if not os.path.exists(d):
                os.rename(tmp, d)
    return d


def variant(name):
    """harness NAME@N: the code is compiled for audio frames of N samples"""
    return int(name.split('@')[1]) if '@' in name else 0


def included(name):
    """sources of the repository a harness includes: part of its cache key"""
    import glob
    return hash_files(sum((glob.glob(os.path.join(REPO, d, '*')) for d in ('src/vspipe', 'src/common')), [])) if name.split('@')[0] == 'pipe' else ''


def incs(small=0):
    return (['-I' + small_include(small)] if small else []) + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src/core'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'rt')]


def atomic_run(cmd, out):
    tmp = out + '.%d.tmp' % os.getpid()
    r = sh(cmd + ['-o', tmp])
    if r.returncode:
        if os.path.exists(tmp):
            os.unlink(tmp)
        return r.stdout
    os.replace(tmp, out)
    return None


def prune(d, keep=120):
    try:
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=lambda p: os.stat(p).st_mtime)
        for p in fs[:-keep]:
            os.unlink(p)
    except OSError:
        pass


def bc_one(src, arch, fake=True, extra=(), small=0):
    d = os.path.join(BUILD, 'bc')
    os.makedirs(d, exist_ok=True)
    key = hash_files([src], hdr_hash() + str(arch) + str(fake) + ' '.join(extra) + ('@%d' % small if small else ''))
    out = os.path.join(d, os.path.basename(src) + '.' + key + '.bc')
    if os.path.exists(out):
        os.utime(out)
        return out, None
    cmd = ['clang++'] + BCFLAGS + DEFS + incs(small) + (['-march=' + arch] if arch else []) + list(extra)
    if fake:
        cmd += ['-include', os.path.join(VERIF, 'rt/vsxfake.h')]
    err = atomic_run(cmd + [src], out)
    return out, err


def bitcode(small=0):
    """whole.bc: both libraries and the runtime, from the current tree"""
    with Lock('bc'):
        jobs = [(p, a, True, (), small) for _, p, a in repo_sources()] + [(os.path.join(VERIF, 'rt/rt.cpp'), None, False)]
        with ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(lambda j: bc_one(*j), jobs))
        errs = [e for _, e in rs if e]
        if errs:
            raise Infra('bitcode compilation failed:\n' + '\n'.join(errs)[:4000])
        outs = [o for o, _ in rs]
        whole = os.path.join(BUILD, 'bc', 'whole.' + hash_files([], ' '.join(outs)) + '.bc')
        if not os.path.exists(whole):
            err = atomic_run(['llvm-link-18'] + outs, whole)
            if err:
                raise Infra('llvm-link failed:\n' + err[:3000])
        os.utime(whole)
        prune(os.path.join(BUILD, 'bc'), 400)
        return whole


def harness_bc(name, whole, defs=()):
    """harness/<name>.cpp compiled and linked with the code under test"""
    src = os.path.join(VERIF, 'harness', name.split('@')[0] + '.cpp')
    hh = hash_files([os.path.join(VERIF, 'harness', f) for f in os.listdir(os.path.join(VERIF, 'harness')) if f.endswith('.h')])
    with Lock('h_' + name):
        bc, err = bc_one(src, None, True, tuple(['-DVSX_HH_' + hh + included(name)] + list(defs)), variant(name))
        if err:
            raise Infra('harness %s does not compile against this tree:\n%s' % (name, err[:3000]))
        d = os.path.join(BUILD, 'linked')
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, name + '.' + hash_files([], bc + whole) + '.bc')
        if not os.path.exists(out):
            err = atomic_run(['llvm-link-18', whole, bc], out)
            if err:
                raise Infra('llvm-link failed for %s:\n%s' % (name, err[:3000]))
        os.utime(out)
        prune(d, 60)
    return out


# ---- native replay -------------------------------------------------------------------------------------------------
NATFLAGS = ['-std=c++20', '-O1', '-g1', '-fno-char8_t', '-ffp-contract=off', '-fno-omit-frame-pointer', '-w', '-c']


def native_build(name, san='address,undefined'):
    """the harness and the real sources as one native executable, with sanitizers"""
    d = os.path.join(BUILD, 'native')
    os.makedirs(d, exist_ok=True)
    srcs = [(p, a) for _, p, a in repo_sources()]
    srcs += [(os.path.join(VERIF, 'rt/replay.cpp'), None), (os.path.join(VERIF, 'harness', name.split('@')[0] + '.cpp'), None)]
    flags = NATFLAGS + DEFS + ['-DVSX_NATIVE'] + incs(variant(name))
    if san:
        flags += ['-fsanitize=' + san, '-fno-sanitize=vptr,function,alignment,signed-integer-overflow,shift,float-cast-overflow', '-fno-sanitize-recover=all']
    hh = hash_files([os.path.join(VERIF, 'harness', f) for f in os.listdir(os.path.join(VERIF, 'harness')) if f.endswith('.h')], hdr_hash() + ' '.join(flags) + included(name))

    def one(j):
        src, arch = j
        out = os.path.join(d, os.path.basename(src) + '.' + hash_files([src], hh + str(arch)) + '.o')
        if os.path.exists(out):
            return out, None
        return out, atomic_run(['clang++'] + flags + (['-march=' + arch] if arch else []) + [src], out)
    with Lock('native'):
        with ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(one, srcs))
        errs = [e for _, e in rs if e]
        if errs:
            raise Infra('native build failed:\n' + '\n'.join(errs)[:3000])
        exe = os.path.join(d, name + '.' + hash_files([], ' '.join(o for o, _ in rs)) + '.exe')
        if not os.path.exists(exe):
            err = atomic_run(['clang++', '-rdynamic', '-Wl,--wrap=dlopen', '-Wl,--wrap=dlsym', '-Wl,--wrap=dlclose', '-Wl,--wrap=pthread_mutex_lock', '-Wl,--wrap=pthread_mutex_trylock', '-Wl,--wrap=pthread_mutex_unlock'] + (['-fsanitize=' + san] if san else []) + [o for o, _ in rs] + ['-ldl', '-lpthread'], exe)
            if err:
                raise Infra('native link failed:\n' + err[:3000])
        prune(d, 250)
    return exe


def native_replay(exe, entry, viol, params, timeout=120, explore=False):
    """runs the harness natively with the counterexample's inputs; returns (confirmed, text)"""
    import tempfile
    with tempfile.TemporaryDirectory() as td:
        f = os.path.join(td, 'in')
        with open(f, 'w') as o:
            for i in viol['inputs']:
                o.write('%s %d %s\n' % (i['name'].replace(' ', '_'), len(i['values']), ' '.join(str(v) for v in i['values'])))
        s = os.path.join(td, 'sched')
        with open(s, 'w') as o:
            for t in viol.get('schedule', []):
                o.write('%s %s\n' % (t[0], t[1]))
        env = dict(os.environ, VSX_INPUTS=f, VSX_SCHED=s, VSX_ENTRY=entry, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=78', UBSAN_OPTIONS='halt_on_error=1:exitcode=78')
        if explore:
            env['VSX_EXPLORE'] = '1'
        for k, v in params.items():
            env['VSX_P_' + k] = str(v)
        try:
            r = sh([exe], timeout=timeout, env=env, cwd=td)
        except subprocess.TimeoutExpired:
            return ('timeout', 'native replay timed out')
        if r.returncode == 77 or r.returncode == 78 or r.returncode < 0 or r.returncode == 134:
            return ('confirmed', 'exit %d\n%s' % (r.returncode, r.stdout[-1500:]))
        return ('no', 'exit %d\n%s' % (r.returncode, r.stdout[-1500:]))


# ---- running -------------------------------------------------------------------------------------------------------
def run_job(vsx, linked, entry, params, tmo, mem=3500, explore=False, preempt=None, qt=None, extra=()):
    import tempfile
    fd, out = tempfile.mkstemp(suffix='.json', prefix='vsx')
    os.close(fd)
    cmd = [vsx, linked, '--entry', entry, '-o', out, '--time', str(tmo), '--mem', str(mem)]
    if explore:
        cmd.append('--explore')
    if preempt is not None:
        cmd += ['--preempt', str(preempt)]
    if qt:
        cmd += ['--qtimeout', str(qt)]
    for k, v in params.items():
        cmd += ['-p', '%s=%s' % (k, v)]
    cmd += list(extra)
    t0 = time.time()
    try:
        r = sh(cmd, timeout=tmo * 1.5 + 60)
        rc, txt = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, txt = 124, 'engine did not stop in time'
    res = None
    try:
        if rc == 0:
            res = json.load(open(out))
    except Exception as e:
        txt += '\nbad json: %r' % e
    try:
        os.unlink(out)
    except OSError:
        pass
    return dict(rc=rc, out=txt[-3000:], res=res, wall=time.time() - t0)
