"""Check driver: builds IR from /repo's current source, runs the symbolic
executor on every job of a property (in parallel), discharges the remaining
queries with a solver portfolio, replays counterexamples on the natively
compiled real code and writes the evidence file."""
import hashlib, json, multiprocessing as mp, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VP_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
CLANG = 'clang'
IRFLAGS = ['-S', '-emit-llvm', '-O1', '-g0', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-builtin',
           '-w', '-std=gnu11', '-DVP_SYMBOLIC=1']
PASSES = 'function(sroa,early-cse,simplifycfg)'


LIBC = set('malloc free calloc realloc memcpy memset memmove strcmp strlen rand exp log pow sqrt floor ceil fabs sin cos atan2 printf fprintf abort'.split())


class BuildError(Exception):
    pass


def sh(cmd, timeout=120, inp=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=inp)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr.decode('utf8', 'replace')[-3000:]))
    return p.stdout


class Ctx:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp_')
        self.inc = os.path.join(self.dir, 'inc')
        os.mkdir(self.inc)
        self.cache = {}
        with open(os.path.join(self.inc, 'config.h'), 'w') as f:
            f.write('#define GETTEXT_PACKAGE "libmypaint"\n#define PACKAGE_VERSION "1"\n')
        py = '/usr/bin/python3' if os.path.exists('/usr/bin/python3') else sys.executable
        gen = os.path.join(self.dir, 'gen')
        os.mkdir(gen)
        for f in ('generate.py', 'brushsettings.json', 'PythonBrushSettings.py'):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                shutil.copy(p, gen)
        sh([py, os.path.join(gen, 'generate.py'), os.path.join(self.inc, 'mypaint-brush-settings-gen.h'),
            os.path.join(self.inc, 'brushsettings-gen.h')])
        self.incs = ['-I', HARN, '-I', self.inc, '-I', REPO, '-I', os.path.join(REPO, 'fastapprox')]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def src(self, s):
        if s.startswith('H:'):
            return os.path.join(HARN, s[2:])
        return os.path.join(REPO, s)

    def defs(self, d):
        return ['-D%s=%s' % (k, v) if v is not None else '-D%s' % k for k, v in sorted(d.items())]

    def jincs(self, job):
        return ['-I', os.path.join(HARN, 'inc')] + self.incs + (['-I', '/usr/include/json-c'] if job.get('realjson') else [])

    def ir(self, job):
        outs = []
        for s in ['H:' + job['harness']] + list(job.get('srcs', ())):
            d = self.defs(dict(job.get('defs', {}), **(job.get('hdefs', {}) if s.startswith('H:') else {})))
            key = ('ir', s, tuple(d), bool(job.get('realjson')))
            if key not in self.cache:
                o = os.path.join(self.dir, 'ir%d.ll' % len(self.cache))
                raw = sh([CLANG] + IRFLAGS + d + self.jincs(job) + [self.src(s), '-o', '-'])
                sh(['opt', '-S', '-speculate-one-expensive-inst=0', '-passes=' + PASSES, '-o', o], inp=raw)
                self.cache[key] = o
            outs.append(self.cache[key])
        key = ('link', tuple(outs), tuple(self.defs(dict(job.get('defs', {}), **job.get('hdefs', {})))), bool(job.get('realjson')))
        if key not in self.cache:
            o = os.path.join(self.dir, 'ln%d.ll' % len(self.cache))
            # functions the job's sources need from elsewhere in the library (moved there by a refactoring)
            # are resolved as from an archive; what the harness defines stays
            sh(['llvm-link', '-S'] + outs + ['-o', o])
            und = re.findall(r'^declare [^@]*@([\w.]+)\(', open(o).read(), re.M)
            txt = ''.join(open(os.path.join(REPO, f), errors='replace').read() for f in self.others(job))
            rest = self.archive(job) if any(re.search(r'\b%s\b\s*\(' % re.escape(u), txt) for u in und
                                            if not u.startswith(('llvm.', 'vp_')) and u not in LIBC) else []
            if rest:
                for i in range(2):
                    sh(['llvm-link', '-S', '--only-needed', o] + rest + ['-o', o + '.1'])
                    shutil.move(o + '.1', o)
            self.cache[key] = o
        return self.cache[key]

    def others(self, job):
        """library sources the job does not name"""
        own = set(job.get('srcs', ()))
        out = []
        for f in sorted(os.listdir(REPO)):
            if f.endswith('.c') and f not in own and f not in ('mypaint-gegl-surface.c', 'libmypaint.c'):
                out.append(f)
        return out

    def archive(self, job):
        """IR of the other library sources: functions the job needs and neither harness nor its sources define
        (moved by a refactoring, say) are taken from here"""
        res = []
        for f in self.others(job):
            d = self.defs(job.get('defs', {}))
            key = ('ir', f, tuple(d), bool(job.get('realjson')))
            if key not in self.cache:
                o = os.path.join(self.dir, 'ir%d.ll' % len(self.cache))
                try:
                    raw = sh([CLANG] + IRFLAGS + d + self.jincs(job) + [self.src(f), '-o', '-'])
                    sh(['opt', '-S', '-speculate-one-expensive-inst=0', '-passes=' + PASSES, '-o', o], inp=raw)
                    self.cache[key] = o
                except BuildError:
                    self.cache[key] = None
            if self.cache[key]:
                res.append(self.cache[key])
        return res

    def native(self, job, mode):
        """mode: 'O3' | 'asan' | 'ubsan' | 'msan'"""
        wraps = ['malloc', 'free', 'calloc', 'realloc'] + list(job.get('wrap', ()))
        d = self.defs(dict(job.get('defs', {}), **job.get('hdefs', {})))
        srcs = ['H:' + job['harness'], 'H:vp_native.c'] + list(job.get('srcs', ()))
        key = ('nat', mode, tuple(srcs), tuple(d))
        if key in self.cache:
            return self.cache[key]
        o = os.path.join(self.dir, 'nat%s_%d' % (hashlib.md5(repr(key).encode()).hexdigest()[:12], os.getpid()))
        cc = ['gcc', '-O3']
        if mode == 'asan':
            cc = [CLANG, '-O1', '-fsanitize=address', '-fno-omit-frame-pointer']
        elif mode == 'ubsan':
            cc = [CLANG, '-O1', '-fsanitize=signed-integer-overflow,float-cast-overflow,integer-divide-by-zero,'
                  'float-divide-by-zero,bounds,null,unreachable', '-fno-sanitize-recover=all']
        elif mode == 'msan':
            cc = [CLANG, '-O1', '-fsanitize=memory', '-fsanitize-memory-track-origins']
        comp = cc + ['-g', '-w', '-std=gnu11', '-fno-builtin', '-ffp-contract=off', '-ffunction-sections'] + self.jincs(job)

        def obj(f):
            df = self.defs(dict(job.get('defs', {}), **(job.get('hdefs', {}) if f.startswith('H:') and f != 'H:vp_native.c' else {})))
            k = ('obj', mode, f, tuple(df), bool(job.get('realjson')))
            if k not in self.cache:
                ob = os.path.join(self.dir, 'ob%s_%d.o' % (hashlib.md5(repr(k).encode()).hexdigest()[:12], os.getpid()))
                tmp = '%s.%d' % (ob, threading.get_ident())
                sh(comp + df + ['-c', self.src(f), '-o', tmp], timeout=300)
                os.replace(tmp, ob)
                self.cache[k] = ob
            return self.cache[k]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(obj, srcs))

        def cmd(ar):
            return cc + objs + ar + ['-Wl,--allow-multiple-definition', '-Wl,--gc-sections', '-o', o] + \
                ['-Wl,--wrap=' + w for w in wraps] + ['-lm']
        try:
            sh(cmd([]), timeout=300)
            self.cache[key] = o
            return o
        except BuildError as e:
            if 'undefined reference' not in str(e):
                raise
        ar = []
        for f in self.others(job):
            try:
                ar.append(obj(f))
            except BuildError:
                pass
        if ar:
            a = os.path.join(self.dir, 'na%d_%d.a' % (len(self.cache), os.getpid()))
            sh(['ar', 'rcs', a] + ar)
            ar = [a]
        sh(cmd(ar), timeout=300)
        self.cache[key] = o
        return o

    def replay(self, job, inputs, mode, timeout=20, out=None):
        exe = self.native(job, mode)
        fd, fn = tempfile.mkstemp(dir=self.dir)
        with os.fdopen(fd, 'w') as f:
            f.write(inputs_text(inputs))
        ofn = fn + '.out'
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
                   UBSAN_OPTIONS='print_stacktrace=0')
        try:
            p = subprocess.run([exe, fn, ofn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                               env=env, cwd=self.dir)
            rc, so = p.returncode, p.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, so = 'timeout', ''
        txt = open(ofn).read() if os.path.exists(ofn) else ''
        for x in (fn, ofn):
            if os.path.exists(x):
                os.unlink(x)
        return rc, txt, so


def inputs_text(inputs):
    return ''.join('%x %s\n' % (v, n.replace(' ', '_')) for (n, k, v) in inputs)


# ---------------------------------------------------------------- portfolio
def smt2(pc, neg):
    import z3
    s = z3.Solver()
    for c in pc:
        s.add(c)
    s.add(neg)
    return s.to_smt2()


def slice_pc(pc, neg, depth):
    """constraints reachable from neg through shared variables, up to depth hops"""
    import z3
    cache = {}

    def vars_of(e):
        i = e.get_id()
        if i in cache:
            return cache[i]
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.get_id())
            st.extend(x.children())
        cache[i] = out
        return out
    cur = set(vars_of(neg))
    sel = [False] * len(pc)
    if depth == 0:
        out = [c for c in pc if vars_of(c) <= cur]
        return out, len(out) == len(pc)
    for d in range(depth):
        new = set()
        for i, c in enumerate(pc):
            if not sel[i]:
                v = vars_of(c)
                if v & cur:
                    sel[i] = True
                    new |= v
        cur |= new
    return [c for i, c in enumerate(pc) if sel[i]], all(sel)


def run_ext(cmds, timeout, dirn):
    """run external solvers concurrently on files; first definite answer wins"""
    procs = []
    for (name, cmd) in cmds:
        procs.append((name, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                             preexec_fn=os.setsid)))
    t0 = time.time()
    res = (None, None, None)
    try:
        while time.time() - t0 < timeout and procs:
            for it in list(procs):
                name, p = it
                if p.poll() is not None:
                    out = p.stdout.read().decode('utf8', 'replace')
                    procs.remove(it)
                    first = out.strip().split('\n')[0] if out.strip() else ''
                    if first in ('sat', 'unsat'):
                        res = (first, name, out)
                        return res
            time.sleep(0.02)
    finally:
        for name, p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
            p.wait()
    return res


def portfolio(ctx, eng, ob, budget):
    """decide an unknown obligation. Returns ('unsat'|'sat'|'unknown', model inputs, solver name)"""
    import z3
    t_end = time.time() + budget
    base = os.path.join(ctx.dir, 'q_%d_%d_' % (os.getpid(), id(ob)))
    files = {}
    sizes = {}

    def dump(depth):
        if depth not in files:
            pc, full = (ob.pc, True) if depth == 99 else slice_pc(ob.pc, ob.neg, depth)
            if len(pc) == len(ob.pc) and depth != 99:
                files[depth] = None
                return None
            if len(pc) in sizes.values() and depth != 99:
                files[depth] = None
                return None
            sizes[depth] = len(pc)
            fn = base + 's%d.smt2' % depth
            with open(fn, 'w') as f:
                f.write(smt2(pc, ob.neg))
            files[depth] = fn
        return files[depth]
    NL = ['z3-new', 'tactic.default_tactic=qfnra-nlsat']
    ZN = ['z3-new']
    stages = [
        (4, [('nlsat', NL, 0), ('nlsat', NL, 1), ('z3-new', ZN, 0), ('z3-new', ZN, 1)]),
        (10, [('nlsat', NL, 2), ('z3-new', ZN, 99), ('z3-new', ZN, 2), ('nlsat', NL, 99), ('cvc5', ['cvc5'], 1)]),
        (9999, [('z3-new', ZN, 99), ('z3', ['z3'], 99), ('cvc5', ['cvc5'], 99), ('nlsat', NL, 1),
                ('z3-new-s7', ['z3-new', 'smt.random_seed=7', 'smt.arith.solver=2'], 99), ('z3-new', ZN, 1)]),
    ]
    try:
        for tmo, cmds in stages:
            left = t_end - time.time()
            if left <= 0.2:
                break
            tmo = min(tmo, left)
            run = []
            for name, cmd, depth in cmds:
                fn = dump(depth)
                if fn is None:
                    continue
                full = depth == 99
                tl = ['--tlimit=%d' % (int(tmo) * 1000 + 500)] if cmd[0] == 'cvc5' else ['-T:%d' % (int(tmo) + 1)]
                run.append((('%s%s' % (name, '' if full else '/slice%d' % depth)), cmd + tl + [fn], full and name != 'nlsat'))
            while run:
                t0 = time.time()
                r, who, _ = run_ext([(n, c) for n, c, f in run], tmo, ctx.dir)
                if r == 'unsat':
                    return 'unsat', None, who
                if r is None:
                    break
                ent = [x for x in run if x[0] == who][0]
                if ent[2]:
                    m = ext_model(ctx, ob, files[99], who, 20)
                    if m is not None:
                        return 'sat', m, who
                # a 'sat' of a slice or of the real relaxation decides nothing
                run = [x for x in run if x[0] != who]
                tmo -= time.time() - t0
                if tmo < 0.3:
                    break
        return 'unknown', None, ''
    finally:
        for f in files.values():
            if f and os.path.exists(f):
                os.unlink(f)


def ext_model(ctx, ob, fn, who, tmo):
    import z3, se
    # ask the solver that found it for the input values
    names = []
    for (nm, k, t) in ob.inputs:
        if isinstance(t, (int, float)):
            names.append(None)
        else:
            names.append(t.decl().name())
    need = [n for n in names if n]
    txt = open(fn).read()
    q = '(get-value (%s))\n' % ' '.join('|%s|' % n if re.search(r'[^A-Za-z0-9_!.]', n) else n for n in need)
    # unused variables must be declared
    decl = ''
    for (nm, k, t) in ob.inputs:
        if not isinstance(t, (int, float)) and ('declare-fun %s ' % t.decl().name()) not in txt:
            decl += t.decl().sexpr() + '\n'
    fn2 = fn + '.m.smt2'
    open(fn2, 'w').write('(set-option :produce-models true)\n' + decl + txt + q)
    exe = who.split('-s7')[0]
    cmd = {'z3-new': ['z3-new', fn2], 'z3': ['z3', fn2], 'cvc5': ['cvc5', fn2]}[exe]
    if who.endswith('s7'):
        cmd = ['z3-new', 'smt.random_seed=7', 'smt.arith.solver=2', fn2]
    try:
        out = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo * 2 + 10).stdout.decode()
    except subprocess.TimeoutExpired:
        return None
    finally:
        if os.path.exists(fn2):
            os.unlink(fn2)
    if not out.startswith('sat'):
        return None
    vals = parse_values(out[3:])
    res = []
    for (nm, k, t) in ob.inputs:
        if isinstance(t, int):
            res.append((nm, k, t))
        elif isinstance(t, float):
            import struct
            res.append((nm, k, struct.unpack('<I', struct.pack('<f', t))[0] if k == 'f32' else
                        struct.unpack('<Q', struct.pack('<d', t))[0]))
        else:
            v = vals.get(t.decl().name())
            if v is None:
                return None
            try:
                res.append((nm, k, conv_value(v, k)))
            except Exception:
                return None
    return res


def parse_values(txt):
    toks = re.findall(r'\|[^|]*\||[()]|[^\s()]+', txt)
    pos = [0]

    def p():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '(':
            r = []
            while toks[pos[0]] != ')':
                r.append(p())
            pos[0] += 1
            return r
        return t.strip('|')
    try:
        tree = p()
    except IndexError:
        return {}
    return {x[0]: x[1] for x in tree if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str)}


def conv_value(v, k):
    from fractions import Fraction
    import se

    def num(v):
        if isinstance(v, str):
            if v.startswith('#b'):
                return int(v[2:], 2)
            if v.startswith('#x'):
                return int(v[2:], 16)
            return Fraction(v.rstrip('?'))
        if v[0] == '-':
            return -num(v[1])
        if v[0] == '/':
            return Fraction(num(v[1])) / num(v[2])
        if v[0] == 'to_real':
            return num(v[1])
        raise ValueError(v)
    if isinstance(v, list) and v[0] == 'fp':
        s, e, m = [int(x[2:], 2) if x.startswith('#b') else int(x[2:], 16) for x in v[1:]]
        return (s << 31) | (e << 23) | m if k == 'f32' else (s << 63) | (e << 52) | m
    if isinstance(v, list) and v[0] == '_':
        nm = v[1]
        if nm.startswith('bv'):
            return int(nm[2:])
        w32 = k == 'f32'
        return {'+oo': 0x7f800000 if w32 else 0x7ff << 52, '-oo': 0xff800000 if w32 else 0xfff << 52,
                'NaN': 0x7fc00000 if w32 else 0x7ff8 << 48, '+zero': 0,
                '-zero': 1 << 31 if w32 else 1 << 63}[nm]
    x = num(v)
    if k in ('f32', 'f64'):
        return se.f2bits(Fraction(x), k)
    return int(x) % (1 << 64)


# ---------------------------------------------------------------- one task
MODES = {'mem': ['asan'], 'uninit': ['msan'], 'overflow': ['ubsan'], 'div0': ['ubsan'], 'f2i': ['ubsan'],
         'fdiv0': ['O3', 'asan'], 'fbits': ['O3'], 'fovf': ['O3'], 'assert': ['O3', 'asan'], 'abort': ['O3', 'asan'], 'trap': ['O3'],
         'unreachable': ['ubsan', 'asan'], 'domain': ['O3']}


def reproduced(rc, txt):
    if rc == 'timeout':
        return 'does not terminate'
    if rc in (0, 76, 77, 78, 79, 99):
        return None
    m = re.search(r'VP-ASSERT-FAIL (.*)', txt)
    if m:
        return m.group(1)
    return 'crash / sanitizer report (status %s)' % rc


def confirm(ctx, job, ob, model):
    """replay a model; returns description or None"""
    for mode in MODES.get(ob.kind, ['O3', 'asan']):
        try:
            rc, txt, so = ctx.replay(job, model, mode)
        except BuildError as e:
            return None, 'native build failed: %s' % e
        d = reproduced(rc, txt)
        if d:
            return '%s [%s replay: %s]%s' % (ob.msg, mode, d,
                                              first_report(so)), None
    return None, 'not reproduced'


def first_report(so):
    m = re.search(r'(runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*|Assertion [^\n]*|MemorySanitizer: [^\n]*)', so)
    return ' ' + m.group(1)[:160] if m else ''


def more_models(eng, ob, n, ms):
    """further models of a satisfiable query (rounding may make one model irreproducible)"""
    import z3
    s = z3.Solver()
    s.set('timeout', ms)
    for c in ob.pc:
        s.add(c)
    s.add(ob.neg)
    out = []
    syms = [(nm, k, t) for (nm, k, t) in ob.inputs if not isinstance(t, (int, float))]
    for i in range(n):
        s.push()
        # prefer "round" input values: pin inputs one at a time to simple numbers
        import random
        rnd = random.Random(1234 + i)
        for (nm, k, t) in rnd.sample(syms, len(syms)):
            if z3.is_real(t):
                c = [z3.RealVal(x) for x in ('0', '1', '1/2', '1/4', '3/4', '2', '-1')]
            elif z3.is_int(t):
                c = [z3.IntVal(x) for x in (0, 1, 32768, 16384, 2)]
            else:
                continue
            rnd.shuffle(c)
            for v in c[:3]:
                s.push()
                s.add(t == v)
                if s.check() == z3.sat:
                    break
                s.pop()
        if s.check() == z3.sat:
            m = s.model()
            vals = []
            try:
                for (nm, k, t) in ob.inputs:
                    vals.append((nm, k, eng.mval(m, k, t)))
                out.append(vals)
            except Exception:
                pass
        s.reset() if False else None
        while s.num_scopes() > 0:
            s.pop()
    return out


_CTX = None
_MODS = {}


def task(args):
    job, pin, deadline, budget = args
    import se, ll, models, z3
    ctx = _CTX
    t0 = time.time()
    r = dict(job=job['name'], pin=pin, ok=False, viol=[], unknown=[], unconf=[], errors=[], stats={}, fns=[],
             wit=[], ends={}, by={})
    eng = None
    try:
        irf = job['_ir']
        if irf not in _MODS:
            _MODS[irf] = ll.parse(open(irf).read())
        mod = _MODS[irf]
        opts = dict(job.get('opts', {}))
        opts['pin'] = dict(pin)
        explore_dl = t0 + job.get('explore_s', max(30, (deadline - t0) * 0.7))
        opts['deadline'] = min(explore_dl, deadline)
        eng = se.Engine(mod, opts)
        try:
            eng.run('vp_main')
        except se.VpError as e:
            r['errors'].append('exploration stopped: %s (%s)' % (e, eng.where(eng.cur) if getattr(eng, 'cur', None) else ''))
        except z3.Z3Exception as e:
            r['errors'].append('exploration stopped: solver error %s' % e)
        # obligations
        per = {}
        for ob in eng.obl:
            key = (ob.kind, ob.msg, ob.where)
            model = ob.model
            st = ob.status
            who = ob.by
            if st is None:
                left = deadline - time.time()
                if left < 1 or per.get(key, 0) >= 40:
                    r['unknown'].append(dict(kind=ob.kind, msg=ob.msg, where=ob.where))
                    continue
                t1 = time.time()
                st, model, who = portfolio(ctx, eng, ob, min(job.get('portfolio_s', 60), left))
                eng.stats['solver_s'] += time.time() - t1
                eng.stats['queries'] += 1
                if st == 'unknown':
                    per[key] = per.get(key, 0) + 1
                    r['unknown'].append(dict(kind=ob.kind, msg=ob.msg, where=ob.where))
                    continue
                r['by'][who] = r['by'].get(who, 0) + 1
                if st == 'unsat':
                    continue
            # satisfiable: replay
            d, why = confirm(ctx, job, ob, model)
            if d is None and eng.o['floats'] == 'real' and time.time() < deadline - 5:
                for m2 in more_models(eng, ob, 6, 3000):
                    d, why = confirm(ctx, job, ob, m2)
                    if d:
                        model = m2
                        break
                    if time.time() > deadline - 5:
                        break
            if d:
                r['viol'].append(dict(kind=ob.kind, msg=ob.msg, where=ob.where, desc=d, inputs=model))
                if len(r['viol']) >= 3:
                    break
            else:
                r['unconf'].append(dict(kind=ob.kind, msg=ob.msg, where=ob.where, why=why, inputs=model))
        # witnesses: finished paths, replayed natively and compared
        if not r['viol']:
            nwit = job.get('witnesses', 2)
            step = max(1, len(eng.wit) // max(1, nwit))
            for st in eng.wit[::step][:nwit]:
                r['wit'].append(witness(ctx, eng, job, st))
        r['ok'] = True
    except BuildError as e:
        r['errors'].append('build: %s' % e)
    except Exception as e:
        r['errors'].append('internal: %s' % traceback.format_exc()[-1500:])
    if eng is not None:
        r['stats'] = dict(eng.stats)
        r['ends'] = dict(eng.ends)
        r['fns'] = sorted(eng.fnset)
    r['secs'] = time.time() - t0
    return r


def grid_model(eng, st):
    """a model of the path whose float inputs are short binary fractions, if there is one"""
    import z3
    fl = [t for (nm, k, t) in st.inputs if k in ('f32', 'f64') and not isinstance(t, (int, float))]
    for g in (16, 1024, 65536):
        ex = []
        for i, t in enumerate(fl):
            v = z3.Int('grid!%d' % i)
            ex.append(t * g == z3.ToReal(v))
        if eng.check(st.pc, z3.And(ex), 3000) == z3.sat:
            return eng.solver.model()
    return None


def witness(ctx, eng, job, st):
    """replay one finished path on the native build; the executor, run on the same inputs, must observe the same"""
    import z3, se, struct
    try:
        real = eng.o['floats'] == 'real'
        flin = any(k in ('f32', 'f64') for (nm, k, t) in st.inputs) or bool(job.get('wrap_stub')) or '__wrap_' in str(eng.fnset)
        m = None
        if real and flin:
            m = grid_model(eng, st)
        if m is None:
            if eng.check(st.pc, None, 5000) == z3.sat:
                m = eng.solver.model()
        if m is None:
            # inputs that satisfy at least the constraints on the inputs alone
            ins = set(t.get_id() for (nm, k, t) in st.inputs if not isinstance(t, (int, float)))
            pc = [c for c in st.pc if eng.vars_of(c) <= ins]
            if eng.check(pc, None, 5000) == z3.sat:
                m = eng.solver.model()
                flin = True
        if m is None:
            return dict(status='no model')
        vals = [(nm, k, eng.mval(m, k, t)) for (nm, k, t) in st.inputs]
        if real:
            obs, end = concrete_run(eng, vals)
            if end not in ('done', 'assume', 'exit'):
                return dict(status='concrete run ended with %s' % end, inputs=vals[:40])
        else:
            obs, end = st.obs, 'done'
        want = []
        for (nm, v) in obs:
            if isinstance(v, (int, float)):
                want.append((nm, v))
            elif isinstance(v, se.SI):
                t, lo, hi = eng.U(st, v) if eng.intm else (v.t, 0, 0)
                want.append((nm, se.zval(m.eval(t, True), 'i64')))
            else:
                want.append((nm, None))
        rc, txt, so = ctx.replay(job, vals, 'O3')
        if rc == 79 and end == 'assume':
            return dict(status='outside the assumptions')
        if rc != 0:
            return dict(status='replay ended with %s' % rc, inputs=vals[:40], out=txt[-200:])
        got = re.findall(r'^OBS (\S+) (\S+)$', txt, re.M)
        if len(got) != len(want):
            return dict(status='observation count differs', inputs=vals[:40])
        n = 0
        for (a, b), (c, d) in zip(got, want):
            if d is None:
                continue
            if isinstance(d, int):
                if int(b) % (1 << 32) != d % (1 << 32):
                    return dict(status='observation %s differs: native %s, symbolic %s' % (a, b, d), inputs=vals[:40])
            elif abs(float(b) - d) > 1e-5 * max(1, abs(d)):
                return dict(status='observation %s differs: native %s, symbolic %s' % (a, b, d), inputs=vals[:40])
            n += 1
        return dict(status='agrees', compared=n, inputs=vals[:12])
    except Exception as e:
        return dict(status='error %s' % e)


def concrete_run(eng, vals):
    """the executor on concrete inputs (concrete machine arithmetic throughout)"""
    import se
    o = dict(eng.o)
    o.update(inputs=[v for (nm, k, v) in vals], pin=None, deadline=time.time() + 60, trace=False)
    e2 = se.Engine(eng.m, o)
    e2.run('vp_main')
    end = list(e2.ends)[0] if len(e2.ends) == 1 else ','.join(e2.ends)
    if e2.obl:
        end = 'obligation: ' + e2.obl[0].msg
    return (e2.wit[0].obs if e2.wit else []), end


# ---------------------------------------------------------------- property
def load_known():
    fn = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(fn):
        return json.load(open(fn))
    return []


def known_match(known, pid, v, job):
    for k in known:
        if k.get('status') != 'open' or k['property'] != pid:
            continue
        m = k['match']
        if m.get('job') and not re.fullmatch(m['job'], job):
            continue
        if m.get('msg') and not re.fullmatch(m['msg'], v['msg']):
            continue
        if m.get('where') and not re.fullmatch(m['where'], v['where']):
            continue
        return k
    return None


def run_check(pid, tier, only=None, verbose=False):
    global _CTX
    import checks
    import meta
    spec = checks.CHECKS.get(pid) or checks.WIP[pid]
    for m in meta.PROPS:
        if m['id'] == pid:
            spec = dict(bounds=m['bounds'], outside=m['outside'], **spec)
    t0 = time.time()
    total = spec.get('budget', {}).get(tier, 420 if tier == 'quick' else 780)
    deadline = t0 + total
    ctx = Ctx()
    _CTX = ctx
    rc = 0
    try:
        jobs = []
        for j in spec['jobs']:
            if tier == 'quick' and j.get('tier') == 'thorough':
                continue
            if tier == 'thorough' and j.get('tier') == 'quick':
                continue
            if only and not re.search(only, j['name']):
                continue
            jobs.append(dict(j))
        res = []
        builderr = []
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            def b(j):
                try:
                    j['_ir'] = ctx.ir(j)
                    return None
                except BuildError as e:
                    return 'job %s: build failed: %s' % (j['name'], e)
            # sequential per distinct harness is fine, cache is shared
            for j in jobs:
                e = b(j)
                if e:
                    builderr.append(e)
        jobs = [j for j in jobs if '_ir' in j]

        def bn(j):
            try:
                ctx.native(j, 'O3')
            except BuildError as e:
                builderr.append('job %s: native build failed: %s' % (j['name'], e))
        seen = set()
        todo = []
        for j in jobs:
            if j['_ir'] not in seen:
                seen.add(j['_ir'])
                todo.append(j)
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(bn, todo))
        tasks = []
        for j in jobs:
            for pin in j.get('pins', [{}]):
                tasks.append((j, pin, deadline, 0))
        nproc = int(os.environ.get('VP_JOBS', '8'))
        with mp.get_context('fork').Pool(min(nproc, max(1, len(tasks))), maxtasksperchild=4) as pool:
            for r in pool.imap_unordered(task, tasks, chunksize=1):
                res.append(r)
                if verbose:
                    print('  %-28s %-24s %6.1fs paths=%s obl=%s q=%s viol=%d unk=%d unconf=%d err=%d ends=%s wit=%s' % (
                        r['job'], r['pin'], r.get('secs', 0), r['stats'].get('paths'), r['stats'].get('obligations'),
                        r['stats'].get('queries'), len(r['viol']), len(r['unknown']), len(r['unconf']), len(r['errors']),
                        r['ends'], [w['status'] for w in r['wit']]), flush=True)
                    for e in r['errors']:
                        print('     ERR', e)
                    for u in (r['unknown'] + r['unconf'])[:6]:
                        print('     UNDECIDED', {k: v for k, v in u.items() if k != 'inputs'}, u.get('inputs', '')and [(a, hex(c)) for a, b, c in u['inputs']][:12])
        return report(pid, tier, spec, jobs, res, builderr, t0, ctx, only, verbose)
    finally:
        ctx.close()


def report(pid, tier, spec, jobs, res, builderr, t0, ctx, only, verbose):
    known = load_known()
    outdir = os.path.join(VERIF, 'out', pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    agg = dict(paths=0, queries=0, solver_s=0.0, obligations=0, forks=0, steps=0)
    fns, by, ends = set(), {}, {}
    nviol = 0
    undecided, unconf, errors, kf = [], [], list(builderr), {}
    wit_ok = {}
    wit_bad = []
    for r in res:
        for k in agg:
            agg[k] += r['stats'].get(k, 0)
        fns |= set(r['fns'])
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
        for k, v in r['ends'].items():
            ends[k] = ends.get(k, 0) + v
        for e in r['errors']:
            errors.append('%s %s: %s' % (r['job'], r['pin'], e))
        undecided += [dict(job=r['job'], **u) for u in r['unknown']]
        unconf += [dict(job=r['job'], **{k: v for k, v in u.items() if k != 'inputs'}) for u in r['unconf']]
        for w in r['wit']:
            if w['status'] == 'agrees':
                wit_ok[r['job']] = wit_ok.get(r['job'], 0) + 1
            elif w['status'] not in ('no model', 'outside the assumptions'):
                wit_bad.append((r['job'], r['pin'], w))
    job_by = {j['name']: j for j in jobs}
    lines = []
    for r in res:
        for v in r['viol']:
            k = known_match(known, pid, v, r['job'])
            if k:
                kf[k['id']] = k
                continue
            nviol += 1
            if nviol <= 5:
                rd = os.path.join(outdir, 'v%d' % nviol)
                os.makedirs(rd, exist_ok=True)
                write_replay(ctx, job_by[r['job']], v, rd)
                print('  violated: %s [%s] in %s, job %s' % (v['desc'], v['kind'], v['where'], r['job']))
                lines.append('VIOLATION property=%s replay=%s' % (pid, os.path.join(rd, 'replay.sh')))
    for k in kf.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for l in lines:
        print(l)
    explored = agg['paths'] > 0
    done_jobs = set(r['job'] for r in res if r['ends'].get('done') or r['viol'])
    empty = sorted(set(j['name'] for j in jobs) - done_jobs)
    samples = []
    for r in res:
        for w in r['wit']:
            if w['status'] == 'agrees' and len(samples) < 6 and not any(x['job'] == r['job'] for x in samples):
                samples.append(dict(job=r['job'], part=str(r['pin']), inputs={n: '%s:0x%x' % (k, v) for n, k, v in w['inputs']},
                                    observations_compared=w['compared'], result='native run and symbolic run observe the same'))
    cov = dict(states=agg['paths'] + agg['forks'], transitions=agg['steps'],
               traces_validated_against_impl=sum(wit_ok.values()), samples=samples,
               obligations=agg['obligations'], discharged=agg['obligations'] - len(undecided) - len(unconf) - nviol - len(kf),
               technique='symbolic execution of the LLVM IR compiled from /repo at run time; SMT verdicts by z3 5.3 and a portfolio of z3-new, z3 4.8 and cvc5',
               functions_encoded=sorted(f for f in fns if not f.startswith('vp_') and f not in spec.get('harness_fns', ())),
               bounds=spec.get('bounds', ''), outside=spec.get('outside', ''),
               jobs=sorted(j['name'] for j in jobs), tasks=len(res), paths=agg['paths'], path_ends=ends,
               queries=agg['queries'], solver_seconds=round(agg['solver_s'], 2), external_solver_verdicts=by,
               undecided_count=len(undecided), undecided=undecided[:50], unconfirmed=unconf[:20], errors=errors[:20],
               witness_mismatch=[str(w)[:400] for w in wit_bad][:10],
               result='violation' if nviol else ('held' if not (errors or undecided or unconf or empty) else 'held on what was decided'),
               known_findings=[k['what'] for k in kf.values()])
    evid = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=spec.get('level', 'model_checking'),
                coverage=cov, assumptions=spec.get('assumptions', []) + ASSUME, violations=nviol, wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evid, f, indent=1, sort_keys=True)
    print('%s %s: %d jobs, %d paths, %d obligations, %d queries, solver %.1f s, wall %.1f s; undecided %d, unconfirmed %d, '
          'errors %d, witnesses %d ok / %d bad' % (pid, tier, len(jobs), agg['paths'], agg['obligations'], agg['queries'],
                                                  agg['solver_s'], time.time() - t0, len(undecided), len(unconf),
                                                  len(errors), sum(wit_ok.values()), len(wit_bad)))
    for e in errors[:10]:
        print('  ERROR', e[:600])
    for w in wit_bad[:5]:
        print('  WITNESS', str(w)[:600])
    if empty:
        print('  NOTHING EXPLORED in', empty)
    for u in (undecided + unconf)[:8]:
        print('  UNDECIDED', u)
    if nviol:
        return 1
    if builderr or empty or not explored or wit_bad:
        return 2
    return 0


ASSUME = ['the LLVM IR clang 18 emits for the sources (no optimisation beyond mem2reg-style clean-up) means what the compiled library does',
          'soundness of the SMT solvers and of the executor (its finished paths are re-run natively and compared, see traces_validated_against_impl)']


def write_replay(ctx, job, v, rd):
    with open(os.path.join(rd, 'inputs.txt'), 'w') as f:
        f.write('# %s\n# %s\n' % (v['msg'], v['desc'].replace('\n', ' ')))
        f.write(inputs_text(v['inputs']))
    mode = MODES.get(v['kind'], ['O3'])[0]
    m = re.search(r'\[(\w+) replay', v['desc'])
    if m:
        mode = m.group(1)
    j = {k: x for k, x in job.items() if k in ('name', 'harness', 'srcs', 'defs', 'hdefs', 'wrap', 'realjson')}
    with open(os.path.join(rd, 'job.json'), 'w') as f:
        json.dump(dict(job=j, mode=mode), f)
    with open(os.path.join(rd, 'replay.sh'), 'w') as f:
        f.write('#!/bin/sh\n# rebuilds the harness with the current /repo and runs it on the counterexample\n'
                'exec python3-vt %s/vp/replay.py "$(dirname "$0")"\n' % VERIF)
    os.chmod(os.path.join(rd, 'replay.sh'), 0o755)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    verbose = '-v' in sys.argv
    only = None
    for x in sys.argv[1:]:
        if x.startswith('--only='):
            only = x[7:]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(run_check(a[0], tier, only, verbose))
