#!/usr/bin/env python3
"""Driver of the solver-based checks: regenerates LLVM bitcode from the current tree of /repo, runs the
symbolic executor on the harness of each job, replays every counterexample natively and reports."""
import sys, os, re, json, threading, subprocess, hashlib, time, shutil, argparse, glob, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(V, 'build')
CLANG = 'clang++'
sys.path.insert(0, V)
T0 = time.time()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_engine():
    eng = os.path.join(V, 'engine')
    out = os.path.join(BUILD, 'engine')
    os.makedirs(out, exist_ok=True)
    r = sh(['make', '-s', '-j4', '-C', eng, 'B=' + out])
    if r.returncode:
        print(r.stdout[-4000:]); print('ENGINE BUILD FAILED'); sys.exit(2)
    return os.path.join(out, 'symex')

SRCS = ['adjacency', 'async_blockilu_factor', 'async_ilu_factor', 'bsrmatrix', 'coomatrix', 'csrmatrix', 'helper_algorithms', 'ilu_pattern',
        'levelschedule', 'matrix_properties', 'rawsrmatrixutils', 'relaxation_chaotic', 'reorderingscaling', 'sai', 'scmatrix',
        'solverfactory', 'solverops_base', 'solverops_ilu0', 'solverops_jacobi', 'solverops_levels_ilu0', 'solverops_levels_sgs',
        'solverops_sai', 'solverops_sgs', 'blas/matvecs', 'blas/blas1', 'utils/prefix_sum']
DEFS = ['-D_GLIBCXX_EXTERN_TEMPLATE=-1', '-DEIGEN_NO_CPUID', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_DONT_PARALLELIZE']
INC = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I/usr/include/eigen3']
BCFLAGS = ['-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-fopenmp', '-ffp-contract=off', '-UNDEBUG', '-w',
           '-I' + os.path.join(V, 'native', 'omp'), '-emit-llvm', '-c'] + DEFS
NOTBUILT = ['utils/cmdoptions', 'utils/blasted_petsc_io', 'blasted_petsc', 'solverops_sgs_sai', 'perftesting', 'testutils']
def with_new(srcs):
    """the translation units of a check plus any that the current tree has added to the library"""
    have = set(SRCS) | set(NOTBUILT); new = []
    for p in sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')) + glob.glob(os.path.join(REPO, 'src', 'blas', '*.cpp')) + glob.glob(os.path.join(REPO, 'src', 'utils', '*.cpp')) + glob.glob(os.path.join(REPO, 'src', 'kernels', '*.cpp'))):
        n = os.path.relpath(p, os.path.join(REPO, 'src'))[:-4]
        if n not in have and 'petsc' not in open(p, errors='replace').read().lower(): new.append(n)
    return list(srcs) + new
_hash = {}
def tree_hash():
    if 'h' not in _hash:
        h = hashlib.sha256()
        for d in ('src', 'include'):
            for r, ds, fs in sorted(os.walk(os.path.join(REPO, d))):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(r, f); h.update(p.encode()); h.update(open(p, 'rb').read())
        for p in sorted(glob.glob(os.path.join(V, 'native', '**'), recursive=True) + [os.path.join(V, 'harness', 'vp.h')]):
            if os.path.isfile(p): h.update(open(p, 'rb').read())
        h.update(' '.join(BCFLAGS + INC + SRCS).encode()); h.update(open(os.path.join(V, 'check.py'), 'rb').read())
        _hash['h'] = h.hexdigest()[:20]
    return _hash['h']

def strip_comments(t):
    return re.sub(r'//[^\n]*|/\*.*?\*/', lambda m: ' ' if '\n' not in m.group(0) else '\n', t, flags=re.S)
def bs2_instantiations(path):
    """the file's own explicit instantiations for a shipped block size, repeated for block size 2"""
    t = strip_comments(open(path).read())
    t = re.sub(r'#\s*ifdef\s+BUILD_BLOCK_SIZE.*?#\s*endif', '', t, flags=re.S)
    out = []; stack = []; have = set()
    toks = re.compile(r'namespace\s+(\w*)\s*\{|\{|\}|(?<![\w])template\s+(?!<)[^;{}<]*<[^;{}]*;|(?<![\w])template\s+(?!<)[^;{}]*;')
    for m in toks.finditer(t):
        g = m.group(0)
        if g.startswith('namespace'): stack.append(m.group(1) or None)
        elif g == '{': stack.append(False)
        elif g == '}':
            if stack: stack.pop()
        else:
            x = re.sub(r'\s+', ' ', g)
            y = re.sub(r'(int\s*,\s*)(3|4|5|7)(\s*[,>])', r'\g<1>2\3', x)
            if y == x: y = re.sub(r'(Block\w*<\s*double\s*,\s*)(3|4|5|7)(\s*[,>])', r'\g<1>2\3', x)
            ns = [n for n in stack if n]
            y2 = ' '.join('namespace %s {' % n for n in ns) + ' ' + y + ' ' + '}' * len(ns)
            have.add(re.sub(r'\s', '', x))
            if y != x and y2 not in [o for o, _ in out]: out.append((y2, re.sub(r'\s', '', y)))
    return [o for o, k in out if k not in have]
def src_path(s):
    """a translation unit of the library; template code is additionally instantiated for block size 2"""
    src = os.path.join(REPO, 'src', s + '.cpp')
    if not os.path.exists(src): return src
    inst = bs2_instantiations(src)
    if not inst: return src
    d = os.path.join(BUILD, 'wrap-' + tree_hash()); os.makedirs(d, exist_ok=True)
    w = os.path.join(d, s.replace('/', '_') + '.cpp')
    if not os.path.exists(w):
        tmp = w + '.%d.tmp' % os.getpid()
        open(tmp, 'w').write('#include "%s"\n%s\n' % (src, '\n'.join(inst))); os.rename(tmp, w)
    return w

def par(jobs, n=8):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(lambda c: (c, sh(c)), jobs))

def bitcode_lib(srcs):
    """bitcode of the library, cached by the content of the tree"""
    d = os.path.join(BUILD, 'bc-' + tree_hash()); os.makedirs(d, exist_ok=True)
    # drop caches of other trees
    for o in glob.glob(os.path.join(BUILD, 'bc-*')):
        if o != d and time.time() - os.path.getmtime(o) > 3600: shutil.rmtree(o, ignore_errors=True)
    outs, todo = [], []
    rt = os.path.join(d, 'stdrt.bc')
    if not os.path.exists(rt):
        tmp = rt + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        r = sh([CLANG] + BCFLAGS + [os.path.join(V, 'native', 'stdrt.cpp'), '-o', tmp])
        if r.returncode: print(r.stdout[-1500:])
        else: os.rename(tmp, rt)
    if os.path.exists(rt): outs.append(rt)
    for s in with_new(srcs):
        o = os.path.join(d, s.replace('/', '_') + '.bc'); outs.append(o)
        if not os.path.exists(o): todo.append((s, o, o + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())))
    def one(x):
        s, o, t = x
        oc = os.environ.get('VP_OBJCACHE'); ck = None  # (mutation runs only)
        if oc:
            if 'hh' not in _hash:
                h = hashlib.sha256()
                for dd in ('src', 'include'):
                    for rr, ds, fs in sorted(os.walk(os.path.join(REPO, dd))):
                        for f in sorted(fs):
                            if not f.endswith('.cpp'): h.update(f.encode()); h.update(open(os.path.join(rr, f), 'rb').read())
                _hash['hh'] = h.hexdigest()
            ck = os.path.join(oc, hashlib.sha256((_hash['hh'] + s + open(os.path.join(REPO, 'src', s + '.cpp')).read() + ' '.join(BCFLAGS)).encode()).hexdigest()[:24] + '.bc')
            if os.path.exists(ck): shutil.copyfile(ck, o); return None
        r = sh([CLANG] + BCFLAGS + INC + [src_path(s), '-o', t])
        if r.returncode: r = sh([CLANG] + BCFLAGS + INC + [os.path.join(REPO, 'src', s + '.cpp'), '-o', t])  # without the extra instantiations
        if r.returncode: print(r.stdout[-1500:]); print('COMPILATION FAILED: ' + s); return o
        if ck: shutil.copyfile(t, ck + '.%d' % threading.get_ident()); os.rename(ck + '.%d' % threading.get_ident(), ck)
        os.rename(t, o)
    with cf.ThreadPoolExecutor(8) as ex: bad = set(o for o in ex.map(one, todo) if o)
    return d, [o for o in outs if o not in bad]

OSTREAM = ['_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_', '_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c', '_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE', '_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw', '_ZNSolsEPFRSoS_E', '_ZNSolsEd', '_ZNSolsEi', '_ZNSolsEb', '_ZNSolsEm', '_ZNSolsEl', '_ZNSolsEf', '_ZNSolsEj', '_ZNSolsEPFRSt8ios_baseS0_E', '_ZNSo3putEc', '_ZNSo5writeEPKcl', '_ZNSolsEs', '_ZNSolsEt', '_ZNSolsEx', '_ZNSolsEy', '_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l', '_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St13_Setprecision'] + \
    ['_ZN%sSt7__cxx11%sIcSt11char_traitsIcESaIcEE%s' % (k, c, x) for c in ('19basic_ostringstream', '18basic_stringstream') for k, x in [('', 'C1Ev'), ('', 'C2Ev'), ('', 'C1ESt13_Ios_Openmode'), ('', 'C2ESt13_Ios_Openmode'), ('', 'C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode'), ('', 'C2ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode'), ('', 'D0Ev'), ('', 'D1Ev'), ('', 'D2Ev'), ('K', '3strEv'), ('', '3strERKNS_12basic_stringIcS2_S3_EE')]]
NOINLINE = OSTREAM + ['_ZNSt14basic_ifstreamIcSt11char_traitsIcEE' + x for c in ('C1', 'C2') for x in (c + 'ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode', c + 'EPKcSt13_Ios_Openmode', c + 'Ev')] + \
    ['_ZNSt14basic_ifstreamIcSt11char_traitsIcEE' + x for x in ('D0Ev', 'D1Ev', 'D2Ev', '5closeEv', '7is_openEv', '4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode', '4openEPKcSt13_Ios_Openmode')] + ['_ZNKSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv'] + \
    ['_ZNSt7__cxx11%sIcSt11char_traitsIcESaIcEE%s' % (k, x) for k in ('19basic_istringstream', '18basic_stringstream') for x in ('C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode', 'C2ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode', 'D1Ev', 'D2Ev', 'D0Ev')] + \
    ['_ZNKSt9basic_iosIcSt11char_traitsIcEE' + x for x in ('ntEv', 'cvbEv', '4failEv', '4goodEv', '3eofEv', '3badEv')] + ['_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate', '_ZNSirsERd', '_ZNSirsERi', '_ZNSirsERl', '_ZNSirsERm', '_ZNSirsERj',
    '_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE', '_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_EOS6_RNSt7__cxx1112basic_stringIS4_S5_T1_EE']
OPT = 'forceattrs,internalize,globaldce,cgscc(inline),function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,gvn,instcombine<no-verify-fixpoint>,simplifycfg,dce),globaldce'
ENTRY = '_Z8vp_entryv'
def build_harness(h, srcs, opts=()):
    d, libs = bitcode_lib(srcs)
    hp = os.path.join(V, 'harness', h + '.cpp')
    hh = hashlib.sha256(open(hp, 'rb').read() + b''.join(open(p, 'rb').read() for p in sorted(glob.glob(os.path.join(V, 'harness', '*.h')))) + ' '.join(list(srcs) + list(opts) + NOINLINE + [OPT]).encode()).hexdigest()[:12]
    out = os.path.join(d, 'h-%s-%s.bc' % (h, hh))
    if os.path.exists(out): return out
    pid = '.%d' % os.getpid()
    r = sh([CLANG] + BCFLAGS + list(opts) + INC + ['-I' + os.path.join(V, 'harness'), hp, '-o', out + pid + '.u'])
    if r.returncode: print(r.stdout[-5000:]); print('HARNESS COMPILATION FAILED: ' + h); return None
    r = sh(['llvm-link', out + pid + '.u'] + libs + ['-o', out + pid + '.l'])
    if r.returncode: print(r.stdout[-3000:]); print('LINK FAILED: ' + h); return None
    r = sh(['opt'] + ['-force-attribute=%s:noinline' % n for n in NOINLINE] + ['-internalize-public-api-list=' + ENTRY, '-passes=' + OPT, out + pid + '.l', '-o', out + pid + '.o'])
    if r.returncode: print(r.stdout[-3000:]); print('OPT FAILED: ' + h); return None
    if set(SRCS) - set(srcs):  # code moved between files: link the whole library when a symbol of it is missing
        u = sh(['llvm-nm', '--undefined-only', out + pid + '.o']).stdout
        if re.search(r'\bU _ZN[KV]*7blasted', u):
            for x in 'ulo': os.remove(out + pid + '.' + x)
            full = build_harness(h, SRCS, opts)
            if full: shutil.copyfile(full, out)
            return full
    os.rename(out + pid + '.o', out); os.remove(out + pid + '.u'); os.remove(out + pid + '.l')
    return out

# ---------------------------------------------------------------- native builds (replay)
NATIVE = {
    'plain': ['g++', '-std=c++14', '-O1', '-g', '-fopenmp', '-w', '-UNDEBUG', '-DEIGEN_DONT_PARALLELIZE'],
    'asan': ['g++', '-std=c++14', '-O1', '-g', '-fopenmp', '-w', '-UNDEBUG', '-DEIGEN_DONT_PARALLELIZE', '-DVP_NOHEAP', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment', '-fno-omit-frame-pointer'],
    'tsan': ['clang++', '-std=c++14', '-O1', '-g', '-fopenmp', '-w', '-UNDEBUG', '-DEIGEN_DONT_PARALLELIZE', '-DVP_NOHEAP', '-I' + os.path.join(V, 'native', 'omp'), '-fsanitize=thread'],
    'turns': ['clang++', '-std=c++14', '-O1', '-g', '-fopenmp', '-w', '-UNDEBUG', '-DEIGEN_DONT_PARALLELIZE', '-DVP_NOHEAP', '-I' + os.path.join(V, 'native', 'omp')],
    'fixedchk': ['clang++', '-std=c++14', '-O1', '-g', '-fopenmp', '-w', '-UNDEBUG', '-DEIGEN_DONT_PARALLELIZE', '-DEIGEN_DONT_VECTORIZE', '-DVP_NOHEAP', '-DVP_FIXEDCHK', '-I' + os.path.join(V, 'native', 'omp'), '-fsanitize=thread'],
}
def native(kind, h, srcs, opts=()):
    d = os.path.join(BUILD, 'native-%s-%s' % (kind, tree_hash())); os.makedirs(d, exist_ok=True)
    for o in glob.glob(os.path.join(BUILD, 'native-*')):
        if not o.endswith(tree_hash()) and time.time() - os.path.getmtime(o) > 3600: shutil.rmtree(o, ignore_errors=True)
    base = NATIVE[kind]; objs, todo = [], []
    for s in with_new(srcs):
        o = os.path.join(d, s.replace('/', '_') + '.o'); objs.append(o)
        if not os.path.exists(o): todo.append(base + INC + ['-c', src_path(s), '-o', o])
    rt = os.path.join(d, 'vp_native.o'); todo.append([b for b in base if kind != 'fixedchk' or not b.startswith('-fsanitize')] + ['-c', os.path.join(V, 'native', 'vp_native.cpp'), '-o', rt]); objs.append(rt)
    if kind in ('tsan', 'turns', 'fixedchk'):
        k = os.path.join(d, 'kmpc.o'); todo.append([b for b in base if kind != 'fixedchk' or not b.startswith('-fsanitize')] + ['-c', os.path.join(V, 'native', 'kmpc.cpp'), '-o', k]); objs.append(k)
    ho = os.path.join(d, h + '.o'); todo.append(base + list(opts) + INC + ['-I' + os.path.join(V, 'harness'), '-c', os.path.join(V, 'harness', h + '.cpp'), '-o', ho])
    for c, r in par(todo):
        if r.returncode and '/wrap-' in c[-3]:
            c[-3] = os.path.join(REPO, 'src', os.path.relpath(c[-1], d)[:-2].replace('blas_', 'blas/') + '.cpp'); r = sh(c)
        if r.returncode: print('native build failed: ' + r.stdout[-1500:]); return None
    exe = os.path.join(d, h + '.exe')
    link = [base[0]] + [f for f in base if kind != 'fixedchk' and f.startswith('-fsanitize=')] + ([] if kind in ('tsan', 'turns', 'fixedchk') else ['-fopenmp']) + ['-no-pie', ho] + objs + ['-lpthread', '-o', exe]
    r = sh(link)
    if r.returncode:
        if set(SRCS) - set(srcs) and 'undefined reference' in r.stdout: return native(kind, h, SRCS, opts)
        print('native link failed: ' + r.stdout[-1500:]); return None
    return exe

def write_model(path, model):
    with open(path, 'w') as f:
        for n, v in model: f.write('%s %s\n' % (n.replace(' ', '_'), repr(v)))

def run_native(exe, model, cfgs, threads, extra=None, wrap=(), timeout=120):
    with tempfile.TemporaryDirectory() as td:
        mp = os.path.join(td, 'm'); write_model(mp, model)
        env = dict(os.environ, VP_MODEL=mp, VP_OUT=os.path.join(td, 'o'), VP_CFG=' '.join('%s=%d' % kv for kv in cfgs.items()), OMP_NUM_THREADS=str(threads), ASAN_OPTIONS='detect_leaks=%d:halt_on_error=1' % (1 if extra == 'leak' else 0), UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1 exitcode=79')
        if isinstance(extra, dict): env.update(extra)
        try: r = subprocess.run(list(wrap) + [exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, cwd=td, timeout=timeout)
        except subprocess.TimeoutExpired: return 'timeout', '', []
        o = []
        if os.path.exists(os.path.join(td, 'o')): o = [float(x) for x in open(os.path.join(td, 'o')).read().split()]
        return r.returncode, r.stderr[-3000:], o

def confirm(job, v):
    """replays a counterexample against the real code; returns (confirmed, how)"""
    h, srcs, opts, cfgs = job['harness'], job['srcs'], job.get('opts', ()), job['cfg']
    th = cfgs.get('threads', 1); kind = v['kind']
    if not v['model_ok']: return False, 'no model'
    # (a race does not constrain the values, so that many are alike in the model: distinct ones make its effect visible)
    distinct = [(n, x + (1.25 + 0.375 * k if x >= 0 else -1.25 - 0.375 * k)) if isinstance(x, float) else (n, x) for k, (n, x) in enumerate(v['model'])]
    def tryk(nk, threads, extra=None, wrap=(), model=None):
        model = model or v['model']
        exe = native(nk, h, srcs, opts)
        if not exe: return None
        rc, err, o = run_native(exe, model, cfgs, threads, extra, wrap, 60)
        if rc == 0: return None
        if rc in (65, 66): return None
        if rc == 67 and kind != 'nonfinite': return None   # the model's values make the results non-finite on the real machine
        if rc == 68 and kind not in ('assert', 'nonfinite', 'uninit', 'fixed'): return None
        if rc == 77 and kind in ('memory', 'leak') and nk == 'asan': return None
        if kind == 'race' and rc != 79: # a wrong result counts if another schedule gives the right one
            ex = native('turns', h, srcs, opts)
            if rc != 77 or not ex or all(run_native(ex, model, cfgs, t, e, (), 60)[0] != 0 for t, e in ((threads, {'VP_TURNS': '1'}), (threads, {'VP_TURNS': '2'}), (1, {'VP_FORCE_T': '1'}))): return None
            v['model'] = model
        if rc == 'timeout': return (nk, threads, extra, wrap, 'does not terminate')
        return (nk, threads, extra, wrap, err)
    seq = []
    if kind == 'race': seq = [('tsan', th, None, ()), ('tsan', max(th, 8), {'VP_FORCE_T': '1'}, ()), ('turns', th, {'VP_TURNS': '1'}, (), distinct), ('turns', th, {'VP_TURNS': '2'}, (), distinct), ('tsan', th, None, (), distinct), ('turns', max(th, 8), {'VP_TURNS': '2', 'VP_FORCE_T': '1'}, (), distinct)]
    elif kind == 'fixed': seq = [('fixedchk', 1, {'VP_FORCE_T': '1'}, ()), ('plain', th, None, ())]
    elif kind == 'uninit': seq = [('plain', th, None, ('valgrind', '-q', '--error-exitcode=78')), ('asan', th, None, ())] + ([('turns', th, {'VP_TURNS': '1'}, ('valgrind', '-q', '--error-exitcode=78'))] if th > 1 else [])
    elif kind == 'nonterm': seq = [('plain', th, None, ())]
    elif kind in ('assert', 'nonfinite', 'assertfail', 'exception', 'abort', 'unreachable', 'arith', 'trap', 'budget'): seq = [('plain', th, None, ())] + ([('turns', th, {'VP_TURNS': '1'}, ())] if th > 1 else []) + [('asan', th, None, ())]
    else: seq = [('asan', th, None, ()), ('plain', th, None, ('valgrind', '-q', '--error-exitcode=78')), ('plain', th, None, ())]
    if kind == 'leak' or 'leak' in v['msg']: seq = [('asan', th, 'leak', ())] + seq
    for s in seq:
        r = tryk(*s)
        if r: return True, r
    return False, 'not reproduced natively'

# ---------------------------------------------------------------- jobs
def run_job(job, tier, symex, procs, tag, deadline):
    bc = build_harness(job['harness'], job['srcs'], job.get('opts', ()))
    if not bc: return {'fatal': 'harness build failed'}
    td = tempfile.mkdtemp(prefix='vp-', dir=BUILD)
    out = os.path.join(td, 'r')
    cmd = [symex, bc, '--entry', ENTRY, '--out', out, '--procs', str(procs), '--time', '%.0f' % max(5, min(job.get('time', 60 if tier == 'quick' else 1200), deadline - time.time())), '--samples', str(job.get('samples', 2))]
    for k, x in job['cfg'].items(): cmd += ['--cfg', '%s=%d' % (k, x)]
    cmd += job.get('flags', [])
    lim = int(float(cmd[cmd.index('--time') + 1])) + 45 # the engine stops itself before that
    t = time.time(); r = sh(['timeout', '-s', 'KILL', str(lim)] + cmd); dt = time.time() - t
    res = {'rc': r.returncode, 'secs': dt, 'log': r.stdout[-2000:], 'violations': [], 'errors': [], 'samples': [], 'cover': {}, 'functions': set(), 'lines': set(), 'incomplete': False}
    nums = ['paths', 'completed', 'pruned', 'insts', 'branches', 'decisions', 'asserts', 'asserts_trivial', 'assumed_nonzero', 'inconclusive', 'queries', 'unsat', 'sat', 'unk', 'identities', 'identities_z3', 'guessed', 'solver_secs', 'witness']
    for n in nums: res[n] = 0
    seen = set()
    for f in sorted(glob.glob(out + '.*')):
        try: j = json.load(open(f))
        except Exception as e: res['errors'].append('bad engine output: %s' % e); continue
        for n in nums: res[n] += j[n]
        for v in j['violations']:
            k = (v['kind'], v['msg'], v['loc'].split(' <- ')[0])
            if k in seen: continue
            seen.add(k); res['violations'].append(v)
        res['samples'] += j['samples']; res['errors'] += j['errors']; res['incomplete'] |= j['incomplete']
        for c, n in j['cover'].items(): res['cover'][c] = res['cover'].get(c, 0) + n
        res['functions'] |= set(j['functions']); res['lines'] |= set(j['lines'])
    if r.returncode: res['errors'].append('engine exit status %d: %s' % (r.returncode, r.stdout[-500:]))
    shutil.rmtree(td, ignore_errors=True)
    return res

def save_replay(pid, k, job, v, how):
    d = os.path.join(V, 'out', 'replay', pid, str(k)); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    json.dump({'property': pid, 'job': {x: (list(y) if isinstance(y, tuple) else y) for x, y in job.items()}, 'violation': v, 'native': {'build': how[0], 'threads': how[1], 'env': how[2], 'wrap': list(how[3]), 'stderr': how[4]}}, open(os.path.join(d, 'replay.json'), 'w'), indent=1)
    write_model(os.path.join(d, 'model.txt'), v['model'])
    p = os.path.join(d, 'run.sh')
    open(p, 'w').write('#!/bin/sh\n# replays the counterexample against the code in /repo\nexec python3 %s --replay %s\n' % (os.path.join(V, 'check.py'), os.path.join(d, 'replay.json'))); os.chmod(p, 0o755)
    return p

def replay(fn):
    j = json.load(open(fn)); job = j['job']; nat = j['native']
    exe = native(nat['build'], job['harness'], job['srcs'], job.get('opts', ()))
    if not exe: sys.exit(2)
    rc, err, o = run_native(exe, j['violation']['model'], job['cfg'], nat['threads'], nat['env'], nat['wrap'])
    print('exit status', rc); print(err); sys.exit(1 if rc != 0 else 0)

def known(pid):
    fn = os.path.join(V, 'known_findings.json')
    return [k for k in json.load(open(fn))['known'] if k['property'] == pid] if os.path.exists(fn) else []
def matches(k, job, v):
    m = k['match']
    if 'job' in m and m['job'] != job['name']: return False
    if 'kind' in m and m['kind'] != v['kind']: return False
    if 'msg' in m and m['msg'] != v['msg']: return False
    if 'loc' in m and m['loc'] not in v['loc']: return False
    if 'cfg' in m and any(job['cfg'].get(a) != b for a, b in m['cfg'].items()): return False
    return True

def main():
    sys.stdout.reconfigure(line_buffering=True)
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default='quick'); ap.add_argument('--replay'); ap.add_argument('--job'); ap.add_argument('--build-only', action='store_true'); ap.add_argument('-v', action='store_true'); ap.add_argument('--all-jobs', action='store_true')
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    if a.replay: replay(a.replay)
    if a.build_only: build_engine(); print('engine built'); return 0
    import checks
    P = checks.PROPS[a.prop]; tier = a.tier
    jobs = [dict(j) for j in P['jobs'] if tier == 'thorough' or j.get('tier', 'quick') == 'quick']
    if a.job: jobs = [j for j in P['jobs'] if re.search(a.job, j['name'])]
    for j in jobs:
        j.setdefault('srcs', P['srcs']); j.setdefault('cfg', {}); j.setdefault('opts', P.get('opts', ())); j.setdefault('harness', P.get('harness'))
    deadline = T0 + (700 if tier == 'quick' else 6 * 3600)
    with cf.ThreadPoolExecutor(2) as ex:
        fe = ex.submit(build_engine); allsrc = sorted(set(s for j in jobs for s in j['srcs'])); fb = ex.submit(bitcode_lib, allsrc); symex = fe.result(); fb.result()
    hs = {}
    for j in jobs: hs[(j['harness'], tuple(j['srcs']), tuple(j['opts']))] = 1
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda k: build_harness(*k), hs))
    tb = time.time() - T0
    # small jobs run side by side, large ones use all cores
    results = {}
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('weight', 1))
    small = [i for i in order if jobs[i].get('procs', 1) == 1]; large = [i for i in order if jobs[i].get('procs', 1) > 1]
    for i in large: results[i] = run_job(jobs[i], tier, symex, jobs[i]['procs'], i, deadline)
    with cf.ThreadPoolExecutor(8) as ex:
        for i, r in zip(small, ex.map(lambda i: run_job(jobs[i], tier, symex, 1, i, deadline), small)): results[i] = r
    bad = fatal = 0; findings = []; kf = known(a.prop); kseen = set(); incon = []; conf_cache = {}
    tot = {}; funcs, lines, cover, perjob = set(), set(), {}, []
    viol = []
    for i, j in enumerate(jobs):
        r = results[i]
        if 'fatal' in r: fatal += 1; incon.append('%s: %s' % (j['name'], r['fatal'])); continue
        if r['errors'] and not r['completed'] and not r['violations']: fatal += 1
        for n in ('paths', 'completed', 'pruned', 'insts', 'branches', 'asserts', 'asserts_trivial', 'assumed_nonzero', 'inconclusive', 'queries', 'unsat', 'sat', 'unk', 'identities', 'identities_z3', 'guessed', 'solver_secs', 'witness'): tot[n] = tot.get(n, 0) + r[n]
        funcs |= r['functions']; lines |= r['lines']
        for c in j.get('cover', ['end']):
            if not r['cover'].get(c) and not r['violations'] and not r['incomplete'] and not r['errors']: incon.append('%s: cover point %s is never reached' % (j['name'], c))
        if r['incomplete']: incon.append('%s: stopped at its time limit' % j['name'])
        incon += ['%s: %s' % (j['name'], e) for e in r['errors'][:5]]
        perjob.append({'job': j['name'], 'cfg': j['cfg'], 'paths': r['completed'], 'asserts': r['asserts'], 'queries': r['queries'], 'unsat': r['unsat'], 'identities': r['identities'], 'secs': round(r['secs'], 1), 'incomplete': r['incomplete']})
        if a.v: print('%-32s paths %d/%d asserts %d queries %d unsat %d ident %d/%d  %.1fs%s viol %d err %d nz %d %s' % (j['name'], r['completed'], r['paths'], r['asserts'], r['queries'], r['unsat'], r['identities_z3'], r['identities'], r['secs'], ' INCOMPLETE' if r['incomplete'] else '', len(r['violations']), len(r['errors']), r['assumed_nonzero'], r['cover']))
        for v in r['violations']: viol.append((j, v))
    # confirm counterexamples natively
    nconf = 0; unconf = []
    if os.environ.get('VP_NOCONFIRM'): print('VIOLS %d' % len(viol)); print(' '.join(sorted(set(j['name'] + ':' + v['kind'] for j, v in viol)))[:300]); return 1 if viol else 0
    for j, v in viol:
        key = (v['kind'], v['msg'], v['loc'].split(' <- ')[0])
        k = next((x for x in kf if matches(x, j, v)), None)
        if k is not None:
            if id(k) not in kseen: kseen.add(id(k)); print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
            continue
        if key in conf_cache and conf_cache[key]: continue
        if nconf >= 3 and not a.all_jobs: continue
        ok, how = confirm(j, v)
        if a.v: print('  cex', j['name'], v['kind'], v['msg'], v['loc'], '->', 'confirmed' if ok else how)
        conf_cache[key] = ok
        if ok:
            p = save_replay(a.prop, nconf, j, v, how); nconf += 1
            print('VIOLATION property=%s replay=%s' % (a.prop, p)); print('  %s: %s at %s (job %s): %s' % (v['kind'], v['msg'], v['loc'], j['name'], how[4].strip()[-300:]))
            findings.append({'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'job': j['name'], 'replay': p})
        else: unconf.append('%s: %s %s at %s (%s)' % (j['name'], v['kind'], v['msg'], v['loc'], how))
    unconf = [u for u in unconf]
    # differential validation of the encoding: sampled paths re-run natively
    nval = nmis = 0
    if not nconf and (tier == 'thorough' or P.get('validate', True)) and not os.environ.get('VP_NOVALIDATE'):
        todo = []
        for i, j in enumerate(jobs):
            if 'fatal' in results[i]: continue
            for s in results[i]['samples'][:j.get('samples', 2)]: todo.append((j, s))
        todo = todo[:P.get('nval', 6) if tier == 'quick' else 200]
        exes = {}
        for j, s in todo:
            k = (j['harness'], tuple(j['srcs']), tuple(j['opts']))
            if k not in exes: exes[k] = native('plain', *k)
            if not exes[k]: incon.append('native build for validation failed'); break
            rc, err, o = run_native(exes[k], s['model'], j['cfg'], j['cfg'].get('threads', 1))
            good = rc == 0 and len(o) == len(s['out']) and all(abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y)) for x, y in zip(o, s['out']))
            nval += 1
            if not good:
                nmis += 1; incon.append('%s: native run of a sampled path disagrees with the encoding (rc %s %s)' % (j['name'], rc, err[-200:]))
                if a.v: print('MISMATCH', j['name'], rc, err[-300:], list(zip(o, s['out']))[:10], s['model'])
    for u in unconf[:20]: print('UNCONFIRMED ' + u)
    for u in list(dict.fromkeys(incon))[:20]: print('INCONCLUSIVE ' + u[:400])
    wall = time.time() - T0
    ev = checks.evidence(a.prop, P, jobs, tier, dict(tot=tot, funcs=sorted(funcs), lines=sorted(lines), perjob=perjob, findings=findings, incon=incon, unconf=unconf, nval=nval, nmis=nmis, wall=wall, build=tb, known=[k['what'] for k in kf if id(k) in kseen], samples=[(j, s) for i, j in enumerate(jobs) if 'fatal' not in results[i] for s in results[i]['samples'][:1]]))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print('%s %s: %d jobs, %d paths, %d assertions, %d solver queries (%d unsat), %d identities (%d by z3), %d functions, %.1fs (build %.1fs), %d validated traces' % (a.prop, tier, len(jobs), tot.get('completed', 0), tot.get('asserts', 0), tot.get('queries', 0), tot.get('unsat', 0), tot.get('identities', 0), tot.get('identities_z3', 0), len(funcs), wall, tb, nval))
    if nconf: return 1
    if fatal and fatal == len(jobs): return 2
    return 0
if __name__ == '__main__': sys.exit(main())
