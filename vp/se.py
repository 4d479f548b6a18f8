"""Symbolic executor for LLVM IR produced by clang from the real C sources.

Inputs are symbolic; every branch on a symbolic condition is decided by the SMT
solver (infeasible side pruned, both sides explored otherwise); every assertion,
memory access, division and (optionally) signed overflow / float->int conversion
becomes a query  path-condition AND NOT(property).

Integer theory:   'int'  unbounded Ints with lazily normalised mod-2^w values
                  'bv'   bit-vectors
Float theory:     'real' reals with an explicit rounding error variable per
                         operation (sound over-approximation of IEEE round to
                         nearest for finite values), or 'exact' reals
                  'fp'   IEEE floating point theory
"""
import math, re, struct, time, fractions, sys
import z3
import ll

Fraction = fractions.Fraction
M32 = (1 << 32) - 1


class VpError(Exception):
    """engine limitation: the run is inconclusive"""


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Fork(Exception):
    """alternatives: list of (z3 cond or None, fn(state))"""
    def __init__(self, alts):
        self.alts = alts


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


NULL = Ptr(0, 0)


class PIte:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class SI:
    """symbolic integer of width w. int theory: value == t (mod 2^w), lo<=t<=hi"""
    __slots__ = ('w', 't', 'lo', 'hi', 'b', 'st', 'src')

    def __init__(self, w, t=None, lo=None, hi=None, b=None, st=None):
        self.w = w
        self.t = t
        self.lo = lo
        self.hi = hi
        self.b = b
        self.st = st  # (stride, residue) knowledge about t
        self.src = None  # (value, width) this one zero-extends


class SF:
    __slots__ = ('k', 't', 'lo', 'hi', 'isint')

    def __init__(self, k, t, lo=None, hi=None, isint=False):
        self.k = k
        self.t = t
        self.lo = lo
        self.hi = hi
        self.isint = isint


class Cat:
    """concatenation of integer pieces, lowest first: [(value, width)]"""
    __slots__ = ('parts', 'w')

    def __init__(self, parts):
        self.parts = parts
        self.w = sum(p[1] for p in parts)


class Obj:
    __slots__ = ('size', 'cells', 'fill', 'owner', 'kind', 'alive', 'name', 'const')

    def __init__(self, size, fill, owner, kind, name=''):
        self.size = size
        self.cells = {}
        self.fill = fill
        self.owner = owner
        self.kind = kind
        self.alive = True
        self.name = name
        self.const = False

    def clone(self, owner):
        o = Obj(self.size, self.fill, owner, self.kind, self.name)
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.const = self.const
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'regs', 'allocas', 'retreg', 'visits')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.prev = self.prev
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.retreg = self.retreg
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'inputs', 'token', 'nobj', 'model', 'obs', 'steps', 'reach', 'memo', 'notes',
                 'modelpc', 'depth')
    counter = 0

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.inputs = []
        State.counter += 1
        self.token = State.counter
        self.nobj = 0
        self.model = None
        self.modelpc = 0
        self.obs = []
        self.steps = 0
        self.reach = []
        self.memo = {}
        self.notes = []
        self.depth = 0

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.inputs = list(self.inputs)
        s.nobj = self.nobj
        s.model = self.model
        s.modelpc = self.modelpc
        s.obs = list(self.obs)
        s.steps = self.steps
        s.reach = list(self.reach)
        s.memo = dict(self.memo)
        s.notes = list(self.notes)
        s.depth = self.depth + 1
        # both states now share objects: force copy on write in the parent too
        State.counter += 1
        self.token = State.counter
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.token:
            o = o.clone(self.token)
            self.mem[oid] = o
        return o


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def rat(x):
    return z3.RealVal(str(Fraction(x)))


def nlo(x):
    return math.nextafter(x, -math.inf)


def nhi(x):
    return math.nextafter(x, math.inf)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Obligation:
    __slots__ = ('kind', 'msg', 'where', 'pc', 'neg', 'inputs', 'status', 'model', 'secs', 'by', 'notes')


class Engine:
    def __init__(self, mod, opts=None):
        o = dict(ints='int', floats='real', rounding='sound', overflow=False, f2i=True, uninit=True, max_steps=4000000,
                 max_paths=20000, feas_ms=400, prove_ms=1500, leaks=False, trace=False, landmarks=(0.0, 1.0),
                 fork_fselect=True, malloc_fail=False, case=0, heapcheck=True, max_enum=4096, deadline=None,
                 fork_iselect=False, conc_f2i=0, tighten_ms=300, pin=None, assume=None)
        o.update(opts or {})
        self.o = o
        self.m = mod
        self.solver = z3.Solver()
        self.solver.set('random_seed', o.get('seed', 1))
        self.stack = []
        self.obl = []
        self.stats = dict(paths=0, queries=0, solver_s=0.0, forks=0, steps=0, obligations=0, quick_unsat=0,
                          trivially=0)
        self.fnset = set()
        self.fresh_n = 0
        self.intm = o['ints'] == 'int'
        self.fpm = o['floats'] == 'fp'
        self.exact = o['rounding'] == 'exact'
        self.done_paths = []
        self.assume_killed = 0
        self.ends = {}
        self.decoded = {}
        self.globals_addr = {}
        self.seen_obl = {}
        self.vcache = {}
        self.lcache = {}
        self.lsolver = z3.Solver()
        self.lsolver.set('random_seed', o.get('seed', 1))
        self.lstack = []
        self.vbounds = {}
        self.icache = {}
        self.lincache = {}
        self.nlvars = {}
        self.nlcs = {}
        self.wit = []

    # ------------------------------------------------------------ solver
    def sync(self, pc):
        st = self.stack
        k = 0
        n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]:
            k += 1
        # each level pushed once per constraint block; keep simple: one push per constraint
        while len(st) > k:
            self.solver.pop()
            st.pop()
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def check(self, pc, extra, ms):
        self.sync(pc)
        self.solver.set('timeout', int(ms))
        t0 = time.time()
        r = self.solver.check(extra) if extra is not None else self.solver.check()
        self.stats['solver_s'] += time.time() - t0
        self.stats['queries'] += 1
        return r

    def sat_model_says(self, st, cond):
        """True if the cached model of the state satisfies pc and cond"""
        if st.model is None:
            return False
        try:
            for c in st.pc[st.modelpc:]:
                if not z3.is_true(st.model.eval(c, True)):
                    st.model = None
                    return False
            st.modelpc = len(st.pc)
            return z3.is_true(st.model.eval(cond, True))
        except z3.Z3Exception:
            return False

    def feasible(self, st, cond):
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.sat_model_says(st, cond):
            return True
        nl = self.intm and not self.fpm and self.hasnl(st.pc)
        if nl and self.linprove(st.pc, cond, 700):
            return False
        r = self.check(st.pc, cond, self.o['feas_ms'])
        if r == z3.sat:
            try:
                st.model = self.solver.model()
                # the model satisfies pc and cond
                st.modelpc = len(st.pc)
            except z3.Z3Exception:
                st.model = None
            return True
        if r == z3.unsat:
            return False
        return True  # unknown: keep the path

    def entails(self, st, cond, ms=None):
        """quick proof attempt that pc => cond"""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = z3.Not(cond)
        if self.sat_model_says(st, neg):
            return False
        if self.intm and not self.fpm and self.hasnl(st.pc) and self.linprove(st.pc, neg, 500):
            return True
        r = self.check(st.pc, neg, ms or self.o['tighten_ms'])
        if r == z3.unknown:
            t0 = time.time()
            q = self.nlprove(st.pc, neg, 600)
            if self.o['trace']:
                print('nlprove', q, round(time.time() - t0, 2), 'pc', len(st.pc), self.where(st), str(cond)[:150].replace('\n', ' '), file=sys.stderr)
            return q
        return r == z3.unsat

    def vars_of(self, e):
        i = e.get_id()
        h = self.vcache.get(i)
        if h is not None:
            return h[1]
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            j = x.get_id()
            if j in seen:
                continue
            seen.add(j)
            h = self.vcache.get(j)
            if h is not None:
                out |= h[1]
                continue
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(j)
            else:
                st.extend(x.children())
        out = frozenset(out)
        self.vcache[i] = (e, out)
        return out

    def slice_pc(self, pc, neg, depth):
        cur = self.vars_of(neg)
        if depth == 0:
            return [c for c in pc if self.vars_of(c) <= cur]
        sel = [False] * len(pc)
        for d in range(depth):
            new = set()
            for i, c in enumerate(pc):
                if not sel[i]:
                    v = self.vars_of(c)
                    if v & cur:
                        sel[i] = True
                        new |= v
            cur = cur | new
        return [c for i, c in enumerate(pc) if sel[i]]

    def linear(self, e):
        h = self.lcache.get(e.get_id())
        if h is not None:
            return h[1]
        st = [e]
        seen = set()
        ok = True
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            h = self.lcache.get(i)
            if h is not None:
                if h[1]:
                    continue
                ok = False
                break
            k = x.decl().kind() if z3.is_app(x) else None
            if k == z3.Z3_OP_MUL:
                if sum(0 if isnum(c) else 1 for c in x.children()) > 1:
                    ok = False
                    break
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_POWER):
                if not isnum(x.arg(1)):
                    ok = False
                    break
            elif k in (z3.Z3_OP_BV2INT, z3.Z3_OP_INT2BV):
                ok = False
                break
            st.extend(x.children())
        self.lcache[e.get_id()] = (e, ok)
        return ok

    # ---- linear abstraction: products become variables with McCormick envelopes
    def vb(self, v, lo, hi):
        self.vbounds[v.get_id()] = (lo, hi, v)

    def ival(self, e):
        """interval of a z3 arithmetic term from variable bounds (floats/ints, conservative)"""
        i = e.get_id()
        h = self.vbounds.get(i)
        if h is not None:
            return h[0], h[1]
        h = self.icache.get(i)
        if h is not None:
            return h[0], h[1]
        INF = math.inf
        r = (-INF, INF)
        if z3.is_int_value(e):
            x = e.as_long()
            r = (x, x)
        elif z3.is_rational_value(e):
            x = Fraction(e.numerator_as_long(), e.denominator_as_long())
            r = (x, x)
        elif z3.is_app(e):
            k = e.decl().kind()
            ch = e.children()
            if k == z3.Z3_OP_TO_REAL:
                r = self.ival(ch[0])
            elif k == z3.Z3_OP_UMINUS:
                l, u = self.ival(ch[0])
                r = (-u, -l)
            elif k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
                l, u = self.ival(ch[0])
                for c in ch[1:]:
                    cl, cu = self.ival(c)
                    if k == z3.Z3_OP_SUB:
                        cl, cu = -cu, -cl
                    l, u = iadd(l, cl), iadd(u, cu)
                r = (l, u)
            elif k == z3.Z3_OP_MUL:
                l, u = self.ival(ch[0])
                for c in ch[1:]:
                    cl, cu = self.ival(c)
                    q = [imul(l, cl), imul(l, cu), imul(u, cl), imul(u, cu)]
                    l, u = min(q), max(q)
                r = (l, u)
            elif k == z3.Z3_OP_ITE:
                a1, b1 = self.ival(ch[1])
                a2, b2 = self.ival(ch[2])
                r = (min(a1, a2), max(b1, b2))
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV) and isnum(ch[1]):
                d = numval(ch[1])
                l, u = self.ival(ch[0])
                if d > 0:
                    if k == z3.Z3_OP_IDIV:
                        r = (l if math.isinf(l) else math.floor(Fraction(l) / d), u if math.isinf(u) else math.floor(Fraction(u) / d))
                    else:
                        r = (l if math.isinf(l) else Fraction(l) / d, u if math.isinf(u) else Fraction(u) / d)
            elif k == z3.Z3_OP_IDIV:
                l, u = self.ival(ch[0])
                dl, du = self.ival(ch[1])
                if dl >= 1 and l >= 0:
                    r = (0, u if math.isinf(u) else u // dl)
            elif k == z3.Z3_OP_MOD and isnum(ch[1]):
                r = (0, numval(ch[1]) - 1)
        self.icache[i] = (r[0], r[1], e)
        return r

    def lin(self, e):
        h = self.lincache.get(e.get_id())
        if h is not None:
            return h[1], h[2]
        if e.num_args() == 0:
            r, vs = e, frozenset()
        else:
            kids, vs = [], frozenset()
            for c in e.children():
                a, b = self.lin(c)
                kids.append(a)
                vs |= b
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL and sum(0 if isnum(c) else 1 for c in kids) > 1:
                num = [c for c in kids if isnum(c)]
                fac = sorted((z3.simplify(c) for c in kids if not isnum(c)), key=lambda c: c.get_id())
                v = fac[0]
                for f in fac[1:]:
                    v, nv = self.nlvar('mul', v, f)
                    vs |= nv
                r = v
                for c in num:
                    r = r * c
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_POWER) and not isnum(kids[1]):
                r, nv = self.nlvar('op%d' % k, z3.simplify(kids[0]), z3.simplify(kids[1]), e.decl())
                vs |= nv
            elif k in (z3.Z3_OP_BV2INT, z3.Z3_OP_INT2BV):
                r, vs = e, vs
            else:
                try:
                    r = e.decl()(*kids)
                except z3.Z3Exception:
                    r = {z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or}[k](kids)
        self.lincache[e.get_id()] = (e, r, vs)
        return r, vs

    def nlvar(self, op, x, y, decl=None):
        key = (op, x.get_id(), y.get_id())
        h = self.nlvars.get(key)
        if h is None:
            srt = z3.RealSort() if (z3.is_real(x) or z3.is_real(y)) else z3.IntSort()
            v = z3.Const('nl!%d' % len(self.nlvars), srt)
            cs = []
            xl, xh = self.ival(x)
            yl, yh = self.ival(y)

            def R(c):
                if isinstance(c, float):
                    c = Fraction(c)
                return z3.IntVal(c) if srt == z3.IntSort() else z3.RealVal(str(Fraction(c)))
            if srt == z3.RealSort():
                x2 = z3.ToReal(x) if z3.is_int(x) else x
                y2 = z3.ToReal(y) if z3.is_int(y) else y
            else:
                x2, y2 = x, y
            if op == 'mul':
                fx, gx, fy, gy = [not math.isinf(q) for q in (xl, xh, yl, yh)]
                if x.eq(y):
                    cs.append(v >= 0)
                if fx and fy:
                    cs.append(v >= R(xl) * y2 + R(yl) * x2 - R(xl * yl))
                if gx and gy:
                    cs.append(v >= R(xh) * y2 + R(yh) * x2 - R(xh * yh))
                if gx and fy:
                    cs.append(v <= R(xh) * y2 + R(yl) * x2 - R(xh * yl))
                if fx and gy:
                    cs.append(v <= R(xl) * y2 + R(yh) * x2 - R(xl * yh))
                q = [imul(xl, yl), imul(xl, yh), imul(xh, yl), imul(xh, yh)]
                lo, hi = min(q), max(q)
            elif op == 'op%d' % z3.Z3_OP_IDIV and yl >= 1 and xl >= 0:
                lo, hi = 0, xh if math.isinf(xh) else xh // yl
                cs.append(v <= x2)
            elif op == 'op%d' % z3.Z3_OP_MOD and yl >= 1:
                lo, hi = 0, yh - 1
                cs.append(v <= y2 - 1)
            else:
                lo, hi = -math.inf, math.inf
            self.vb(v, lo, hi)
            h = (v, cs, x, y)
            self.nlvars[key] = h
            self.nlcs[v.get_id()] = cs
        return h[0], frozenset([h[0].get_id()])

    def nlclose(self, vs, active):
        """McCormick constraints for the variables vs and those nested in them"""
        out = []
        todo = list(vs)
        while todo:
            i = todo.pop()
            if i in active:
                continue
            active.add(i)
            for c in self.nlcs[i]:
                out.append(c)
                for q in self.vars_of(c):
                    if q in self.nlcs and q not in active:
                        todo.append(q)
        return out

    def linprove(self, pc, neg, ms):
        """unsat of a linear relaxation implies unsat"""
        if not self.intm or self.fpm:
            return False
        t0 = time.time()
        st = self.lstack
        k = 0
        n = min(len(st), len(pc))
        while k < n and st[k][0] is pc[k]:
            k += 1
        if len(st) > k:
            self.lsolver.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            act = set(st[-1][1]) if st else set()
            r, vs = self.lin(c)
            extra = self.nlclose(vs, act) if vs else ()
            self.lsolver.push()
            self.lsolver.add(r)
            for q in extra:
                self.lsolver.add(q)
            st.append((c, act if (extra or not st) else st[-1][1]))
        r, vs = self.lin(neg)
        act = set(st[-1][1]) if st else set()
        extra = self.nlclose(vs, act)
        self.lsolver.set('timeout', ms)
        self.stats['queries'] += 1
        r = self.lsolver.check(r, *extra)
        self.stats['solver_s'] += time.time() - t0
        if r == z3.unsat:
            self.stats['lin_unsat'] = self.stats.get('lin_unsat', 0) + 1
            return True
        return False

    def hasnl(self, pc):
        for c in pc:
            try:
                l = c._vplin
            except AttributeError:
                l = c._vplin = self.linear(c)
            if not l:
                return True
        return False

    def nlprove(self, pc, neg, ms):
        """unsat of a slice in the real relaxation implies unsat (sound, incomplete)"""
        if not self.o.get('nl', True) or not self.intm and self.fpm:
            return False
        t0 = time.time()
        last = -1
        try:
            for depth in (0, 1):
                sl = self.slice_pc(pc, neg, depth)
                if len(sl) == last:
                    continue
                last = len(sl)
                s = z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', ms)
                for c in sl:
                    s.add(c)
                s.add(neg)
                self.stats['queries'] += 1
                if s.check() == z3.unsat:
                    self.stats['nl_unsat'] = self.stats.get('nl_unsat', 0) + 1
                    return True
        except z3.Z3Exception:
            return False
        finally:
            self.stats['solver_s'] += time.time() - t0
        return False

    def note_bounds(self, st, t, lo, hi, t2=None):
        """proved on this path: lo <= t <= hi"""
        st.memo[('b', t.get_id())] = (lo, hi, t2 if t2 is not None else t, t)

    def fresh(self, pfx, sort='int', w=32):
        self.fresh_n += 1
        n = '%s!%d' % (pfx, self.fresh_n)
        if sort == 'int':
            return z3.Int(n) if self.intm else z3.BitVec(n, w)
        if sort == 'zint':
            return z3.Int(n)
        if sort == 'real':
            return z3.Real(n)
        if sort == 'bool':
            return z3.Bool(n)
        raise VpError('fresh ' + sort)

    def fresh_int(self, st, w, pfx='u'):
        if w == 1:
            return SI(1, b=self.fresh(pfx, 'bool'))
        if self.intm:
            v = self.fresh(pfx)
            hi = (1 << w) - 1
            self.vb(v, 0, hi)
            st.pc.append(z3.And(v >= 0, v <= hi))
            return SI(w, v, 0, hi)
        return SI(w, self.fresh(pfx, 'int', w))

    def fresh_float(self, st, k, pfx='fu', lo=None, hi=None):
        if self.fpm:
            self.fresh_n += 1
            n = '%s!%d' % (pfx, self.fresh_n)
            v = z3.FP(n, z3.Float32() if k == 'f32' else z3.Float64())
            if lo is not None:
                st.pc.append(z3.And(z3.fpLEQ(self.fpc(lo, k), v), z3.fpLEQ(v, self.fpc(hi, k))))
            return SF(k, v)
        v = self.fresh(pfx, 'real')
        if lo is None:
            lo = -3.4028234663852886e38 if k == 'f32' else -1.7e308
            hi = -lo
        if lo > -1e37:
            st.pc.append(v >= rat(lo))
        if hi < 1e37:
            st.pc.append(v <= rat(hi))
        self.vb(v, Fraction(lo) if lo > -1e37 else -math.inf, Fraction(hi) if hi < 1e37 else math.inf)
        return SF(k, v, lo, hi)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, msg, cond):
        """record: on this path cond must hold. Continues with cond assumed."""
        self.stats['obligations'] += 1
        where = self.where(st)
        if cond is True or z3.is_true(cond):
            self.stats['trivially'] += 1
            return
        if cond is False:
            cond = z3.BoolVal(False)
        neg = z3.simplify(z3.Not(cond))
        if z3.is_false(neg):
            self.stats['trivially'] += 1
            return
        if self.o['assume'] and (re.fullmatch(self.o['assume'], kind) or re.fullmatch(self.o['assume'], msg)):
            # decided by another property's check
            if not self.feasible(st, cond):
                raise PathEnd('infeasible')
            st.pc.append(cond)
            return
        ob = Obligation()
        ob.kind = kind
        ob.msg = msg
        ob.where = where
        ob.inputs = list(st.inputs)
        ob.status = None
        ob.model = None
        ob.by = 'z3py'
        ob.notes = list(st.notes)
        t0 = time.time()
        key = (kind, msg, where)
        viol = self.seen_obl.get(key, 0)
        if viol >= 3:
            # enough counterexamples for this assertion: go on, assuming it
            r = z3.unknown
            ob = None
        elif self.sat_model_says(st, neg):
            r = z3.sat
            ob.model = self.model_values(st.model, st)
        elif self.intm and not self.fpm and self.hasnl(st.pc) and self.linprove(st.pc, neg, 700):
            r = z3.unsat
        else:
            r = self.check(st.pc, neg, self.o['prove_ms'])
            if r == z3.unknown and self.nlprove(st.pc, neg, self.o['prove_ms']):
                r = z3.unsat
            if r == z3.sat:
                ob.model = self.model_values(self.solver.model(), st)
        if ob is not None:
            ob.secs = time.time() - t0
            if r == z3.sat:
                ob.status = 'sat'
                self.seen_obl[key] = viol + 1
                ob.pc = list(st.pc)
                ob.neg = neg
            elif r == z3.unsat:
                ob.status = 'unsat'
                self.stats['quick_unsat'] += 1
                ob.pc = None
                ob.neg = None
                if z3.is_true(neg):
                    raise PathEnd('infeasible')
            else:
                ob.pc = list(st.pc)
                ob.neg = neg
            if ob.status != 'unsat':
                self.obl.append(ob)
        if r != z3.unsat:
            # continue under the assumption
            if kind in ('leak',):
                return
            if not self.feasible(st, cond):
                raise PathEnd('violation')
            st.pc.append(cond)

    def where(self, st):
        out = []
        for f in st.frames[-3:]:
            out.append(f.fn.name)
        return '>'.join(out)

    def model_values(self, model, st):
        vals = []
        for (name, kind, term) in st.inputs:
            vals.append((name, kind, self.mval(model, kind, term)))
        return vals

    def mval(self, model, kind, term):
        """returns bit pattern (int)"""
        if isinstance(term, int):
            return term
        if isinstance(term, float):
            return struct.unpack('<I', struct.pack('<f', term))[0] if kind == 'f32' else \
                struct.unpack('<Q', struct.pack('<d', term))[0]
        v = model.eval(term, True)
        return zval(v, kind)

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, fill, kind, name=''):
        st.nobj += 1
        oid = st.nobj
        st.mem[oid] = Obj(size, fill, st.token, kind, name)
        return Ptr(oid, 0)

    def off_t(self, off):
        """z3 term of an offset (int theory: Int; bv: BitVec 64)"""
        if isinstance(off, int):
            return z3.IntVal(off) if self.intm else z3.BitVecVal(off & ((1 << 64) - 1), 64)
        return off.t

    def ptr_add(self, st, p, delta, scale=1):
        """delta: int (signed) or SI 64 ; returns Ptr with signed offset"""
        if isinstance(p, PIte):
            return PIte([(c, self.ptr_add(st, q, delta, scale)) for c, q in p.alts])
        if p is UNDEF:
            raise VpError('gep on undef pointer')
        if isinstance(delta, int) and isinstance(p.off, int):
            return Ptr(p.o, p.off + delta * scale)
        if isinstance(delta, int):
            d = delta * scale
            o = p.off
            if self.intm:
                return Ptr(p.o, SI(64, o.t + d, o.lo + d, o.hi + d, st=(o.st[0], (o.st[1] + d) % o.st[0]) if o.st else None))
            return Ptr(p.o, SI(64, o.t + d, o.lo + d if o.lo is not None else None, o.hi + d if o.hi is not None else None, st=(o.st[0], (o.st[1] + d) % o.st[0]) if o.st else None))
        if self.intm:
            t, lo, hi = self.S(st, delta)
            t = t * scale
            lo *= scale
            hi *= scale
            s = (scale, 0)
            if isinstance(p.off, int):
                t = t + p.off
                lo += p.off
                hi += p.off
                s = (scale, p.off % scale)
            else:
                g = math.gcd(scale, p.off.st[0] if p.off.st else 1)
                s = (g, (p.off.st[1] if p.off.st else 0) % g)
                t = t + p.off.t
                lo += p.off.lo
                hi += p.off.hi
            return Ptr(p.o, SI(64, t, lo, hi, st=s))
        t = delta.t * scale
        s = (scale, 0)
        if isinstance(p.off, int):
            t = t + p.off
            s = (scale, p.off % scale)
        else:
            g = math.gcd(scale, p.off.st[0] if p.off.st else 1)
            s = (g, (p.off.st[1] if p.off.st else 0) % g)
            t = t + p.off.t
        return Ptr(p.o, SI(64, t, None, None, st=s))

    def tsize(self, T):
        return self.m.sizeof(T)

    def access_ok(self, st, p, n, what):
        """returns the object; raises/obliges on invalid access"""
        if p.o == 0 or isinstance(p.o, str):
            self.oblige(st, 'mem', '%s through %s pointer' % (what, 'null' if p.o == 0 else 'function'), False)
            raise PathEnd('violation')
        o = st.mem.get(p.o)
        if o is None or not o.alive:
            self.oblige(st, 'mem', '%s of freed or dead object' % what, False)
            raise PathEnd('violation')
        if isinstance(p.off, int):
            if p.off < 0 or p.off + n > o.size:
                self.oblige(st, 'mem', '%s out of bounds (object of %d bytes)' % (what, o.size), False)
                raise PathEnd('violation')
        else:
            f = p.off
            if self.intm:
                if f.lo < 0 or f.hi + n > o.size:
                    self.oblige(st, 'mem', '%s out of bounds' % what, z3.And(f.t >= 0, f.t + n <= o.size))
                    f = SI(64, f.t, max(f.lo, 0), min(f.hi, o.size - n), st=f.st)
                    p.off = f
            else:
                cond = z3.And(f.t >= 0, f.t <= o.size - n)
                self.oblige(st, 'mem', '%s out of bounds' % what, cond)
        return o

    def cands(self, st, p, n, o):
        f = p.off
        s, r = f.st if f.st else (1, 0)
        lo = max(0, f.lo) if f.lo is not None else 0
        hi = min(o.size - n, f.hi) if f.hi is not None else o.size - n
        first = lo + ((r - lo) % s)
        cs = list(range(first, hi + 1, s))
        if len(cs) > self.o['max_enum']:
            raise VpError('symbolic offset with %d candidates' % len(cs))
        if len(cs) > 64 or not cs:
            return cs
        return cs

    def off_eq(self, p, o):
        if self.intm:
            return p.off.t == o
        return p.off.t == z3.BitVecVal(o, 64)

    def load(self, st, p, T):
        T = self.m.resolve(T)
        k = T[0]
        if k in ('st', 'arr', 'vec'):
            vals = []
            if k == 'st':
                for j in range(len(T[1])):
                    off, ft = self.m.field_off(T, j)
                    vals.append(self.load(st, self.ptr_add(st, p, off), ft))
            else:
                es = self.tsize(T[2])
                for j in range(T[1]):
                    vals.append(self.load(st, self.ptr_add(st, p, j * es), T[2]))
            return vals
        n = self.tsize(T)
        o = self.access_ok(st, p, n, 'read')
        if isinstance(p.off, int):
            return self.load_at(st, o, p.off, n, T)
        cs = self.cands(st, p, n, o)
        if not cs:
            raise PathEnd('infeasible')
        groups = []
        idx = {}
        for c in cs:
            v = self.load_at(st, o, c, n, T)
            key = vkey(v)
            if key in idx:
                groups[idx[key]][1].append(c)
            else:
                idx[key] = len(groups)
                groups.append((v, [c]))
        if len(groups) == 1:
            return groups[0][0]
        groups.sort(key=lambda g: len(g[1]))
        if k == 'ptr':
            alts = []
            for v, cl in groups:
                cond = z3.Or([self.off_eq(p, c) for c in cl]) if len(cl) > 1 else self.off_eq(p, cl[0])
                if isinstance(v, PIte):
                    for c2, q in v.alts:
                        alts.append((z3.And(cond, c2), q))
                else:
                    alts.append((cond, v))
            return self.mk_pite(alts)
        res = groups[-1][0]
        for v, cl in reversed(groups[:-1]):
            cond = z3.Or([self.off_eq(p, c) for c in cl]) if len(cl) > 1 else self.off_eq(p, cl[0])
            res = self.ite(st, cond, v, res, T)
        return res

    def mk_pite(self, alts):
        m = {}
        order = []
        for c, q in alts:
            if isinstance(q, Undef):
                q = Ptr('undef', 0)
            key = (q.o, q.off if isinstance(q.off, int) else q.off.t.get_id())
            if key in m:
                m[key][0].append(c)
            else:
                m[key] = ([c], q)
                order.append(key)
        out = []
        for k in order:
            cl, q = m[k]
            out.append((z3.Or(cl) if len(cl) > 1 else cl[0], q))
        if len(out) == 1:
            return out[0][1]
        return PIte(out)

    def load_at(self, st, o, off, n, T):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            return self.retype(st, c[1], T, n)
        # assemble from overlapping cells
        parts = []
        pos = off
        end = off + n
        anyc = False
        while pos < end:
            c = cells.get(pos)
            if c is not None and pos + c[0] <= end:
                parts.append((pos, c[0], c[1]))
                pos += c[0]
                anyc = True
                continue
            # inside a bigger cell?
            hit = None
            for back in range(0, 16):
                c2 = cells.get(pos - back)
                if c2 is not None and pos - back + c2[0] > pos:
                    hit = (pos - back, c2)
                    break
            if hit:
                b, c2 = hit
                take = min(b + c2[0], end) - pos
                v = self.to_int(st, c2[1], c2[0])
                v = self.extract(st, v, c2[0] * 8, (pos - b) * 8, take * 8)
                parts.append((pos, take, v))
                pos += take
                anyc = True
                continue
            # hole
            nxt = end
            for q in range(pos + 1, end):
                if q in cells:
                    nxt = q
                    break
            if o.fill is None:
                parts.append((pos, nxt - pos, UNDEF))
            else:
                v = 0
                for _ in range(nxt - pos):
                    v = (v << 8) | o.fill
                parts.append((pos, nxt - pos, v))
            pos = nxt
        if len(parts) == 1:
            v = parts[0][2]
            if v is UNDEF:
                return UNDEF
            return self.retype(st, v, T, n)
        ps = []
        for (q, m, v) in parts:
            if v is UNDEF:
                v = self.fresh_int(st, m * 8, 'undef')
            v = self.to_int(st, v, m)
            ps.append((v, m * 8))
        return self.retype(st, self.mkcat(ps), T, n)

    def mkcat(self, parts):
        flat = []
        for v, w in parts:
            if isinstance(v, Cat):
                flat += v.parts
            else:
                flat.append((v, w))
        out = []
        for v, w in flat:
            if out and isinstance(v, int) and isinstance(out[-1][0], int):
                pv, pw = out[-1]
                out[-1] = (pv | (v << pw), pw + w)
            else:
                out.append((v, w))
        if len(out) == 1:
            return out[0][0]
        return Cat(out)

    def cat_to_si(self, st, c):
        """Cat -> plain SI (or int)"""
        if not isinstance(c, Cat):
            return c
        if self.intm:
            sh = 0
            t = None
            hi = 0
            for v, w in c.parts:
                if isinstance(v, int):
                    tt, h = z3.IntVal(v << sh), v << sh
                else:
                    u, l, h = self.U(st, v)
                    tt, h = u * (1 << sh), h << sh
                t = tt if t is None else t + tt
                hi += h
                sh += w
            return SI(c.w, t, 0, hi)
        ts = []
        for v, w in c.parts:
            ts.append(z3.BitVecVal(v, w) if isinstance(v, int) else self.bvt(v))
        return SI(c.w, z3.Concat(*reversed(ts)))

    def bvt(self, v, w=None):
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if isinstance(v, Cat):
            v = self.cat_to_si(None, v)
        if v.w == 1 and v.t is None:
            return z3.If(v.b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return v.t

    def extract(self, st, v, w, lowbit, nb):
        if isinstance(v, int):
            return (v >> lowbit) & ((1 << nb) - 1)
        if isinstance(v, Cat):
            pos = 0
            for pv, pw in v.parts:
                if pos == lowbit and pw == nb:
                    return pv
                if pos <= lowbit and lowbit + nb <= pos + pw:
                    return self.extract(st, pv, pw, lowbit - pos, nb)
                pos += pw
            # spanning several whole parts
            out = []
            pos = 0
            for pv, pw in v.parts:
                a, b = max(pos, lowbit), min(pos + pw, lowbit + nb)
                if a < b:
                    out.append((self.extract(st, pv, pw, a - pos, b - a), b - a))
                pos += pw
            return self.mkcat(out)
        if isinstance(v, Undef):
            return UNDEF
        if lowbit == 0 and nb == w:
            return v
        if self.intm:
            u, lo, hi = self.U(st, v)
            if lowbit:
                u = u / (1 << lowbit)
                lo >>= lowbit
                hi >>= lowbit
            if hi >= (1 << nb):
                u = u % (1 << nb)
                lo, hi = 0, (1 << nb) - 1
            return SI(nb, u, lo, hi)
        return SI(nb, z3.Extract(lowbit + nb - 1, lowbit, self.bvt(v)))

    def to_int(self, st, v, nbytes):
        """value stored in a cell of nbytes -> int-like"""
        if isinstance(v, (int, SI, Cat)):
            if isinstance(v, SI) and v.w < nbytes * 8:
                return self.zext(st, v, v.w, nbytes * 8)
            return v
        if isinstance(v, Undef):
            return v
        if isinstance(v, float):
            if nbytes == 4:
                return struct.unpack('<I', struct.pack('<f', v))[0]
            return struct.unpack('<Q', struct.pack('<d', v))[0]
        if isinstance(v, SF):
            if self.fpm:
                return SI(nbytes * 8, z3.fpToIEEEBV(v.t)) if not self.intm else self.fresh_int(st, nbytes * 8, 'bits')
            st.notes.append('bits-of-real')
            w = nbytes * 8
            if self.intm and v.lo is not None and v.lo >= 0 and v.hi < 3e38:
                # non-negative floats: the bit pattern is monotone in the value
                pk = (lambda x: struct.unpack('<I', struct.pack('<f', x))[0]) if nbytes == 4 else \
                    (lambda x: struct.unpack('<Q', struct.pack('<d', x))[0])
                a, b = pk(float(v.lo)), pk(float(v.hi))
                n = self.fresh('bits')
                self.vb(n, a, b)
                st.pc.append(z3.And(n >= a, n <= b))
                return SI(w, n, a, b)
            return self.fresh_int(st, w, 'bits')
        if isinstance(v, Ptr):
            if v.o == 0 and v.off == 0:
                return 0
            return ('ptrint', v)
        raise VpError('to_int of %r' % (v,))

    def retype(self, st, v, T, n):
        k = T[0]
        if isinstance(v, Undef):
            return v
        if k == 'i':
            if isinstance(v, int):
                return v & ((1 << T[1]) - 1)
            if isinstance(v, (SI, Cat)):
                w = v.w
                if w == T[1]:
                    return v
                if w > T[1]:
                    return self.extract(st, v, w, 0, T[1])
                return self.zext(st, v, w, T[1])
            if isinstance(v, (float, SF)):
                return self.to_int(st, v, n)
            if isinstance(v, (Ptr, PIte)):
                return v
        if k in ('f32', 'f64'):
            if isinstance(v, (float, SF)):
                return v
            if isinstance(v, int):
                return struct.unpack('<f', struct.pack('<I', v))[0] if k == 'f32' else \
                    struct.unpack('<d', struct.pack('<Q', v))[0]
            if isinstance(v, (SI, Cat)):
                if self.fpm and not self.intm:
                    return SF(k, z3.fpBVToFP(self.bvt(v), z3.Float32() if k == 'f32' else z3.Float64()))
                return self.float_of_bits(st, v, k)
        if k == 'ptr':
            if isinstance(v, (Ptr, PIte)):
                return v
            if isinstance(v, int) and v == 0:
                return NULL
            if isinstance(v, tuple) and v[0] == 'ptrint':
                return v[1]
            if isinstance(v, int):
                return Ptr('int', v)
        raise VpError('retype %r to %r' % (v, T))

    def float_of_bits(self, st, v, k):
        """reinterpret an integer as a float: monotone on non-negative patterns"""
        lo, hi = None, None
        if self.intm:
            t, l, h = self.U(st, v)
            inf = 0x7f800000 if k == 'f32' else 0x7ff << 52
            if h >= inf:
                self.oblige(st, 'fbits', 'bit pattern is a finite non-negative float', t < inf)
                h = inf - 1
            # tighten the upper bound to a power of two (binary search over exponents)
            sh, bias = (23, 127) if k == 'f32' else (52, 1023)
            a, b = max(l >> sh, bias - 4), (h >> sh) + 1
            if not z3.is_int_value(t):
                while a < b:
                    mid = (a + b) // 2
                    if self.entails(st, t <= (mid << sh)):
                        b = mid
                    else:
                        a = mid + 1
                if (b << sh) < h:
                    h = b << sh
            f = (lambda b: struct.unpack('<f', struct.pack('<I', b))[0]) if k == 'f32' else \
                (lambda b: struct.unpack('<d', struct.pack('<Q', b))[0])
            lo, hi = f(l), f(h)
        st.notes.append('real-of-bits')
        return self.fresh_float(st, k, 'fbits', lo, hi)

    def clear_range(self, o, off, n):
        """remove/split cells overlapping [off,off+n)"""
        cells = o.cells
        if n > 4096 and len(cells) < n:
            for q in list(cells):
                if q < off + n and q + cells[q][0] > off:
                    if q < off or q + cells[q][0] > off + n:
                        self.split(o, q)
                        for q2 in list(cells):
                            if off <= q2 < off + n and q2 in cells:
                                del cells[q2]
                    else:
                        del cells[q]
            return
        for q in range(off - 15, off + n):
            c = cells.get(q)
            if c is None:
                continue
            if q + c[0] <= off:
                continue
            if q >= off and q + c[0] <= off + n:
                del cells[q]
            else:
                self.split(o, q)
                for q2 in range(max(off, q), min(off + n, q + c[0])):
                    cells.pop(q2, None)

    def split(self, o, q):
        n, v = o.cells.pop(q)
        v = self.to_int(self.cur, v, n)
        for j in range(n):
            o.cells[q + j] = (1, self.extract(self.cur, v, n * 8, j * 8, 8))

    def store(self, st, p, v, T):
        T = self.m.resolve(T)
        k = T[0]
        if k in ('st', 'arr', 'vec'):
            if isinstance(v, Undef):
                return
            if k == 'st':
                for j in range(len(T[1])):
                    off, ft = self.m.field_off(T, j)
                    self.store(st, self.ptr_add(st, p, off), v[j], ft)
            else:
                es = self.tsize(T[2])
                for j in range(T[1]):
                    self.store(st, self.ptr_add(st, p, j * es), v[j], T[2])
            return
        n = self.tsize(T)
        self.access_ok(st, p, n, 'write')
        o = st.wobj(p.o)
        if o.const:
            self.oblige(st, 'mem', 'write to constant object', False)
            raise PathEnd('violation')
        if isinstance(p.off, int):
            c = o.cells.get(p.off)
            if c is None or c[0] != n:
                self.clear_range(o, p.off, n)
            else:
                pass
            o.cells[p.off] = (n, v)
            return
        cs = self.cands(st, p, n, o)
        for c in cs:
            old = self.load_at(st, o, c, n, T)
            cond = self.off_eq(p, c)
            new = self.ite(st, cond, v, old, T)
            cc = o.cells.get(c)
            if cc is None or cc[0] != n:
                self.clear_range(o, c, n)
            o.cells[c] = (n, new)

    def ite(self, st, cond, a, b, T):
        if z3.is_true(cond):
            return a
        if z3.is_false(cond):
            return b
        if a is b:
            return a
        if isinstance(a, Undef) and isinstance(b, Undef):
            return a
        k = T[0]
        if k == 'ptr':
            alts = []
            nc = z3.Not(cond)
            for c0, v in ((cond, a), (nc, b)):
                if isinstance(v, PIte):
                    for c2, q in v.alts:
                        alts.append((z3.And(c0, c2), q))
                else:
                    alts.append((c0, v))
            return self.mk_pite(alts)
        if k in ('st', 'arr', 'vec'):
            R = self.m.resolve(T)
            ts = R[1] if k == 'st' else [R[2]] * R[1]
            return [self.ite(st, cond, x, y, t) for x, y, t in zip(a, b, ts)]
        if k in ('f32', 'f64'):
            if isinstance(a, Undef):
                a = self.fresh_float(st, k, 'undef')
            if isinstance(b, Undef):
                b = self.fresh_float(st, k, 'undef')
            if isinstance(a, float) and isinstance(b, float) and a == b:
                return a
            if self.fpm:
                return SF(k, z3.If(cond, self.ft(a, k), self.ft(b, k)))
            a = self.sf(a, k)
            b = self.sf(b, k)
            return SF(k, z3.If(cond, a.t, b.t), min(a.lo, b.lo), max(a.hi, b.hi), a.isint and b.isint)
        w = T[1]
        if isinstance(a, Undef):
            a = self.fresh_int(st, w, 'undef')
        if isinstance(b, Undef):
            b = self.fresh_int(st, w, 'undef')
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if w == 1:
            return SI(1, b=z3.simplify(z3.If(cond, self.tob(a), self.tob(b))))
        if isinstance(a, Cat) or isinstance(b, Cat):
            a = self.cat_to_si(st, a)
            b = self.cat_to_si(st, b)
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            raise VpError('ite on pointer-as-int')
        if self.intm:
            at, al, ah = self.raw(a)
            bt, bl, bh = self.raw(b)
            # same representation window if possible
            if isinstance(a, int) and bl < 0:
                at, al, ah = self.raw(sgn(a, w), True)
            if isinstance(b, int) and al < 0:
                bt, bl, bh = self.raw(sgn(b, w), True)
            return SI(w, z3.If(cond, at, bt), min(al, bl), max(ah, bh))
        return SI(w, z3.If(cond, self.bvt(a, w), self.bvt(b, w)))

    # ------------------------------------------------------------ ints
    def raw(self, a, signed=False):
        if isinstance(a, int):
            return z3.IntVal(a), a, a
        if a.t is None:
            return z3.If(a.b, z3.IntVal(1), z3.IntVal(0)), 0, 1
        m = self.cur.memo.get(('b', a.t.get_id()))
        if m is not None:
            return m[2], max(a.lo, m[0]), min(a.hi, m[1])
        return a.t, a.lo, a.hi

    def cut(self, st, w, t, lo, hi):
        """name a complicated proved-in-range term, so later queries can be sliced"""
        if w > 16 or not self.o.get('cut', True) or z3.is_const(t):
            return t, lo, hi
        for L in self.o.get('ilm', (32768,)):
            if lo < L < hi and self.entails(st, t <= L):
                hi = L
        v = self.fresh('cut')
        st.pc.append(v == t)
        st.pc.append(z3.And(v >= lo, v <= hi))
        self.vb(v, lo, hi)
        self.note_bounds(st, t, lo, hi, v)
        return v, lo, hi

    def tob(self, v):
        """i1 value -> z3 Bool"""
        if isinstance(v, int):
            return z3.BoolVal(bool(v & 1))
        if isinstance(v, Undef):
            return self.fresh('undefb', 'bool')
        if v.b is not None:
            return v.b
        if self.intm:
            u, lo, hi = self.U(self.cur, v)
            return u == 1
        return v.t == z3.BitVecVal(1, 1)

    def U(self, st, a):
        """unsigned canonical: (term, lo, hi)"""
        if isinstance(a, int):
            return z3.IntVal(a), a, a
        if isinstance(a, Cat):
            a = self.cat_to_si(st, a)
        w = a.w
        N = 1 << w
        t, lo, hi = self.raw(a)
        if lo >= 0 and hi < N:
            return t, lo, hi
        if lo >= -N and hi < N:
            if hi < 0:
                return t + N, lo + N, hi + N
            # can it be negative?
            if self.entails(st, t >= 0):
                self.note_bounds(st, t, 0, hi)
                return self.cut(st, w, t, 0, hi)
            return z3.If(t < 0, t + N, t), 0, N - 1
        if self.entails(st, z3.And(t >= 0, t < N)):
            lo, hi = max(lo, 0), min(hi, N - 1)
            self.note_bounds(st, t, lo, hi)
            return self.cut(st, w, t, lo, hi)
        if lo >= 0 and hi < 2 * N:
            return z3.If(t >= N, t - N, t), 0, N - 1
        return t % N, 0, N - 1

    def S(self, st, a):
        if isinstance(a, int):
            raise VpError('S int')
        if isinstance(a, Cat):
            a = self.cat_to_si(st, a)
        w = a.w
        N = 1 << w
        H = N >> 1
        t, lo, hi = self.raw(a)
        if w == 1:
            return -t, -hi, -lo
        if lo >= -H and hi < H:
            return t, lo, hi
        if lo >= H and hi < N:
            return t - N, lo - N, hi - N
        if self.entails(st, z3.And(t >= -H, t < H)):
            lo, hi = max(lo, -H), min(hi, H - 1)
            self.note_bounds(st, t, lo, hi)
            return t, lo, hi
        if lo >= 0 and hi < N:
            return z3.If(t >= H, t - N, t), -H, H - 1
        if lo >= -H and hi < N:
            return z3.If(t >= H, t - N, t), -H, H - 1
        m = t % N
        return z3.If(m >= H, m - N, m), -H, H - 1

    def Sx(self, st, a, w):
        if isinstance(a, int):
            v = sgn(a, w)
            return z3.IntVal(v), v, v
        return self.S(st, a)

    def zext(self, st, v, w, w2):
        if isinstance(v, int):
            return v
        if isinstance(v, Cat):
            return Cat(v.parts + [(0, w2 - w)])
        if v.w == 1 and v.t is None:
            if self.intm:
                return SI(w2, z3.If(v.b, z3.IntVal(1), z3.IntVal(0)), 0, 1, b=v.b)
            return SI(w2, z3.If(v.b, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2)), b=v.b)
        if self.intm:
            t, lo, hi = self.U(st, v)
            r = SI(w2, t, lo, hi, b=v.b)
            r.src = (v, w)
            return r
        return SI(w2, z3.ZeroExt(w2 - w, v.t), b=v.b)

    def binop(self, st, op, w, a, b, flags):
        if isinstance(a, Undef) or isinstance(b, Undef):
            if isinstance(a, Undef):
                a = self.fresh_int(st, w, 'undef')
            if isinstance(b, Undef):
                b = self.fresh_int(st, w, 'undef')
        N = 1 << w
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(st, op, w, a, b, flags)
        if isinstance(a, (Ptr, PIte, tuple)) or isinstance(b, (Ptr, PIte, tuple)):
            return self.ptrbin(st, op, w, a, b)
        # Cat handling
        if op == 'shl' and isinstance(a, SI) and a.src is not None and isinstance(b, int) and b and b + a.src[1] <= w:
            return self.mkcat([(0, b), a.src, (0, w - b - a.src[1])] if w > b + a.src[1] else [(0, b), a.src])
        if isinstance(a, Cat) or isinstance(b, Cat):
            if op == 'lshr' and isinstance(b, int) and isinstance(a, Cat):
                x = self.extract(st, a, a.w, b, w - b)
                return self.zext(st, x, w - b, w) if not isinstance(x, Cat) else Cat(x.parts + [(0, b)])
            if op == 'and' and isinstance(b, int) and (b & (b + 1)) == 0:
                k = b.bit_length()
                x = self.extract(st, a, a.w, 0, k)
                return self.zext(st, x, k, w)
            if op == 'and' and isinstance(b, int) and ((~b & (N - 1)) & ((~b & (N - 1)) + 1)) == 0:
                k = (~b & (N - 1)).bit_length()
                x = self.extract(st, a, a.w, k, w - k)
                return self.mkcat([(0, k), (x, w - k)])
            if op == 'or':
                # disjoint?
                r = self.cat_or(st, a, b, w)
                if r is not None:
                    return r
            if op == 'shl' and isinstance(b, int):
                x = self.extract(st, a, w, 0, w - b)
                return self.mkcat([(0, b), (x, w - b)])
            a = self.cat_to_si(st, a)
            b = self.cat_to_si(st, b)
        if w == 1:
            x, y = self.tob(a), self.tob(b)
            if op == 'and':
                return SI(1, b=z3.And(x, y))
            if op == 'or':
                return SI(1, b=z3.Or(x, y))
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, int) and b == 1:
                    return SI(1, b=z3.Not(x))
                return SI(1, b=z3.Xor(x, y))
            raise VpError('i1 ' + op)
        if not self.intm:
            return self.bvbin(st, op, w, a, b, flags)
        return self.intbin(st, op, w, a, b, flags)

    def cat_or(self, st, a, b, w):
        """or of values whose set bits are disjoint (structural)"""
        def parts(v):
            if isinstance(v, int):
                return None
            if isinstance(v, Cat):
                return v.parts
            if v.src is not None:
                return [v.src, (0, w - v.src[1])]
            if self.intm and v.lo is not None and v.lo >= 0:
                k = v.hi.bit_length()
                if k < w:
                    # value fits in k bits
                    kk = 32 if k <= 32 < w else k
                    return [(SI(kk, v.t, v.lo, v.hi), kk), (0, w - kk)]
            return [(v, w)]
        pa, pb = parts(a), parts(b)
        if pa is None or pb is None:
            return None

        def bounds(ps):
            s = {0}
            q = 0
            for v, x in ps:
                q += x
                s.add(q)
            return s
        cuts = sorted(bounds(pa) | bounds(pb))
        out = []
        ca, cb = Cat(pa), Cat(pb)
        for lo, hi in zip(cuts, cuts[1:]):
            x = self.extract(st, ca, w, lo, hi - lo)
            y = self.extract(st, cb, w, lo, hi - lo)
            if isinstance(x, int) and x == 0:
                out.append((y, hi - lo))
            elif isinstance(y, int) and y == 0:
                out.append((x, hi - lo))
            else:
                return None
        return self.mkcat(out)

    def cbin(self, st, op, w, a, b, flags):
        N = 1 << w
        if op == 'add':
            if self.o['overflow'] and 'nsw' in flags:
                self.ovf_c(st, sgn(a, w) + sgn(b, w), w)
            return (a + b) % N
        if op == 'sub':
            if self.o['overflow'] and 'nsw' in flags:
                self.ovf_c(st, sgn(a, w) - sgn(b, w), w)
            return (a - b) % N
        if op == 'mul':
            if self.o['overflow'] and 'nsw' in flags:
                self.ovf_c(st, sgn(a, w) * sgn(b, w), w)
            return (a * b) % N
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b == 0:
                self.oblige(st, 'div0', 'integer division by zero', False)
                raise PathEnd('violation')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q % N
            return (x - q * y) % N
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) % N if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) % N
        raise VpError(op)

    def ovf_c(self, st, v, w):
        H = 1 << (w - 1)
        if not (-H <= v < H):
            self.oblige(st, 'overflow', 'signed integer overflow', False)

    def ptrbin(self, st, op, w, a, b):
        def asptr(x):
            if isinstance(x, tuple):
                return x[1]
            return x
        a, b = asptr(a), asptr(b)
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            if isinstance(a.off, int) and isinstance(b.off, int):
                return (a.off - b.off) % (1 << w)
            x, y = self.off_t(a.off), self.off_t(b.off)
            if self.intm:
                al, ah = (a.off, a.off) if isinstance(a.off, int) else (a.off.lo, a.off.hi)
                bl, bh = (b.off, b.off) if isinstance(b.off, int) else (b.off.lo, b.off.hi)
                return SI(w, x - y, al - bh, ah - bl)
            return SI(w, x - y)
        if op == 'and' and isinstance(b, int) and isinstance(a, Ptr) and isinstance(a.off, int) and b < 16:
            return a.off & b
        if op == 'add' and isinstance(b, int) and isinstance(a, Ptr):
            return self.ptr_add(st, a, sgn(b, 64))
        raise VpError('pointer arithmetic ' + op)

    def bvbin(self, st, op, w, a, b, flags):
        x, y = self.bvt(a, w), self.bvt(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if isinstance(b, int):
                if b == 0:
                    self.oblige(st, 'div0', 'integer division by zero', False)
                    raise PathEnd('violation')
            else:
                self.oblige(st, 'div0', 'integer division by zero', y != 0)
        if self.o['overflow'] and 'nsw' in flags:
            if op == 'add':
                self.oblige(st, 'overflow', 'signed integer overflow', z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
            elif op == 'sub':
                self.oblige(st, 'overflow', 'signed integer overflow', z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
            elif op == 'mul':
                self.oblige(st, 'overflow', 'signed integer overflow', z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'udiv': lambda: z3.UDiv(x, y),
             'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y),
             'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
             'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
        return SI(w, r)

    def intbin(self, st, op, w, a, b, flags):
        if op in ('add', 'sub') or not self.intm:
            return self.intbin_(st, op, w, a, b, flags)
        return self.memoised(st, (op, w, tuple(flags)), (a, b), lambda: self.intbin_(st, op, w, a, b, flags))

    def intbin_(self, st, op, w, a, b, flags):
        N = 1 << w
        H = N >> 1
        if op in ('add', 'sub', 'mul'):
            def rep(v):
                if isinstance(v, int):
                    # choose the small-magnitude representative
                    s = sgn(v, w)
                    return z3.IntVal(s), s, s
                if v.t is not None and v.lo is not None and (v.lo < -4 * N or v.hi > 4 * N):
                    return self.U(st, v)
                return self.raw(v)
            if 'nuw' in flags and 'nsw' not in flags and isinstance(b, int):
                pass
            x, xl, xh = rep(a)
            y, yl, yh = rep(b)
            if op == 'mul' and not (isinstance(a, int) or isinstance(b, int)):
                # keep products within provable ranges
                if xl < -H or xh >= N:
                    x, xl, xh = self.U(st, a)
                if yl < -H or yh >= N:
                    y, yl, yh = self.U(st, b)
            if op == 'add':
                t, lo, hi = x + y, xl + yl, xh + yh
            elif op == 'sub':
                t, lo, hi = x - y, xl - yh, xh - yl
                if isinstance(a, SI) and isinstance(b, SI) and a is b:
                    return 0
            else:
                c = [xl * yl, xl * yh, xh * yl, xh * yh]
                t, lo, hi = x * y, min(c), max(c)
                if isinstance(a, int) and sgn(a, w) == 0 or isinstance(b, int) and sgn(b, w) == 0:
                    return 0
            if self.o['overflow'] and 'nsw' in flags:
                if lo < -H or hi >= H:
                    # operands must be signed canonical for the check
                    sx, sxl, sxh = self.Sx(st, a, w)
                    sy, syl, syh = self.Sx(st, b, w)
                    e = sx + sy if op == 'add' else sx - sy if op == 'sub' else sx * sy
                    cc = [sxl + syl, sxh + syh] if op == 'add' else [sxl - syh, sxh - syl] if op == 'sub' else \
                        [sxl * syl, sxl * syh, sxh * syl, sxh * syh]
                    t, lo, hi = e, min(cc), max(cc)
                    if lo < -H or hi >= H:
                        self.oblige(st, 'overflow', 'signed integer overflow', z3.And(e >= -H, e < H))
                        lo, hi = max(lo, -H), min(hi, H - 1)
            return SI(w, t, lo, hi)
        if op in ('udiv', 'urem'):
            x, xl, xh = self.U(st, a)
            y, yl, yh = self.U(st, b)
            if yh == 0 or yl == 0:
                if isinstance(b, int):
                    self.oblige(st, 'div0', 'integer division by zero', False)
                    raise PathEnd('violation')
                self.oblige(st, 'div0', 'integer division by zero', y != 0)
                yl = max(yl, 1)
            if op == 'udiv':
                return SI(w, x / y, xl // yh, xh // yl)
            if xh < yl:
                return SI(w, x, xl, xh)
            return SI(w, x % y, 0, min(xh, yh - 1))
        if op in ('sdiv', 'srem'):
            x, xl, xh = self.Sx(st, a, w)
            y, yl, yh = self.Sx(st, b, w)
            if yl <= 0 <= yh:
                if isinstance(b, int):
                    self.oblige(st, 'div0', 'integer division by zero', False)
                    raise PathEnd('violation')
                self.oblige(st, 'div0', 'integer division by zero', y != 0)
                if yl == 0:
                    yl = 1
                if yh == 0:
                    yh = -1
            if yl > 0:
                if xl >= 0:
                    q, ql, qh = x / y, xl // yh, xh // yl
                elif xh <= 0:
                    q, ql, qh = -((-x) / y), -((-xl) // yl), -((-xh) // yh)
                else:
                    q = z3.If(x >= 0, x / y, -((-x) / y))
                    ql, qh = -((-xl) // yl), xh // yl
            elif yh < 0:
                ny = -y
                nyl, nyh = -yh, -yl
                if xl >= 0:
                    q, ql, qh = -(x / ny), -(xh // nyl), -(xl // nyh)
                else:
                    q = z3.If(x >= 0, -(x / ny), (-x) / ny)
                    m = max(abs(xl), abs(xh)) // nyl
                    ql, qh = -m, m
            else:
                ax = z3.If(x >= 0, x, -x)
                ay = z3.If(y >= 0, y, -y)
                q = ax / ay
                q = z3.If((x >= 0) == (y >= 0), q, -q)
                m = max(abs(xl), abs(xh))
                ql, qh = -m, m
            if op == 'sdiv':
                return SI(w, q, ql, qh)
            my = max(abs(yl), abs(yh)) - 1
            return SI(w, x - q * y, -my if xl < 0 else 0, my if xh > 0 else 0)
        if op == 'shl':
            if isinstance(b, int):
                if b >= w:
                    return 0
                t, lo, hi = self.raw(a) if not isinstance(a, int) else (z3.IntVal(a), a, a)
                if lo < -N or hi > N:
                    t, lo, hi = self.U(st, a)
                return SI(w, t * (1 << b), lo << b, hi << b)
            return self.by_cases(st, 'shl', w, a, b)
        if op == 'lshr':
            if isinstance(b, int):
                if b >= w:
                    return 0
                t, lo, hi = self.U(st, a)
                return SI(w, t / (1 << b), lo >> b, hi >> b)
            return self.by_cases(st, op, w, a, b)
        if op == 'ashr':
            if isinstance(b, int):
                t, lo, hi = self.Sx(st, a, w)
                b = min(b, w - 1)
                return SI(w, t / (1 << b), lo >> b, hi >> b)
            return self.by_cases(st, op, w, a, b)
        # bitwise
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if op == 'and':
                return self.and_const(st, w, a, b)
            if op == 'or':
                x, xl, xh = self.U(st, a)
                if b and (xh < (b & -b)):
                    return SI(w, x + b, xl + b, xh + b)
                m = self.and_const(st, w, a, b)
                mt, ml, mh = self.raw(m)
                return SI(w, x + b - mt, max(xl, b), min(N - 1, xh + b))
            if op == 'xor':
                if b == N - 1:
                    t, lo, hi = self.raw(a)
                    return SI(w, -1 - t, -1 - hi, -1 - lo)
                if b == H:
                    # flips the sign bit
                    t, lo, hi = self.U(st, a)
                    return SI(w, z3.If(t >= H, t - H, t + H), 0, N - 1)
                x, xl, xh = self.U(st, a)
                m = self.and_const(st, w, a, b)
                mt, ml, mh = self.raw(m)
                return SI(w, x + b - 2 * mt, 0, N - 1)
        x, xl, xh = self.U(st, a)
        y, yl, yh = self.U(st, b)
        if xh <= 1 and yh <= 1:
            p, q = x == 1, y == 1
            r = {'and': z3.And(p, q), 'or': z3.Or(p, q), 'xor': z3.Xor(p, q)}[op]
            return SI(w, z3.If(r, z3.IntVal(1), z3.IntVal(0)), 0, 1, b=r)
        if op == 'or':
            # disjoint through trailing zeros
            pass
        bx, by = z3.Int2BV(x, w), z3.Int2BV(y, w)
        r = {'and': bx & by, 'or': bx | by, 'xor': bx ^ by}[op]
        t = z3.BV2Int(r, False)
        hi = min(xh, yh) if op == 'and' else (1 << max(xh.bit_length(), yh.bit_length())) - 1
        lo = max(xl, yl) if op == 'or' else 0
        v = self.fresh('bw')
        st.pc.append(v == t)
        st.pc.append(z3.And(v >= lo, v <= hi))
        return SI(w, v, lo, hi)

    def and_const(self, st, w, a, c):
        if c == 0:
            return 0
        x, xl, xh = self.U(st, a)
        if (c & (c + 1)) == 0:
            if xh <= c:
                return SI(w, x, xl, xh)
            return SI(w, x % (c + 1), 0, c)
        # runs
        t = None
        i = 0
        while i < w:
            if not (c >> i) & 1:
                i += 1
                continue
            j = i
            while j < w and (c >> j) & 1:
                j += 1
            if (1 << i) <= xh:
                term = x / (1 << i) if i else x
                if xh >= (1 << j):
                    term = term % (1 << (j - i))
                term = term * (1 << i) if i else term
                t = term if t is None else t + term
            i = j
        if t is None:
            return 0
        return SI(w, t, 0, min(c, xh))

    def by_cases(self, st, op, w, a, b):
        y, yl, yh = self.U(st, b)
        res = None
        for k in range(max(0, yl), min(w - 1, yh) + 1):
            r = self.intbin(st, op, w, a, k, ()) if not isinstance(a, int) else self.cbin(st, op, w, a, k, ())
            res = r if res is None else self.ite(st, y == k, r, res, ('i', w))
        return res

    def icmp(self, st, pred, T, a, b):
        if T[0] == 'ptr' or isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            return self.pcmp(st, pred, a, b)
        w = T[1]
        if isinstance(a, Undef) or isinstance(b, Undef):
            if self.o['uninit']:
                self.oblige(st, 'uninit', 'comparison depends on uninitialised memory', False)
            return SI(1, b=self.fresh('undefb', 'bool'))
        if isinstance(a, int) and isinstance(b, int):
            x, y = a, b
            if pred[0] == 's':
                x, y = sgn(a, w), sgn(b, w)
            return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred[-2:]])
        # bool-ints compared with 0
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SI) and x.b is not None and isinstance(y, int) and pred in ('eq', 'ne') and y in (0, 1):
                pos = (pred == 'ne') == (y == 0)
                return SI(1, b=x.b if pos else z3.Not(x.b))
        if w == 1:
            x, y = self.tob(a), self.tob(b)
            if pred == 'eq':
                return SI(1, b=x == y)
            if pred == 'ne':
                return SI(1, b=z3.Xor(x, y))
            raise VpError('icmp i1')
        if isinstance(a, Cat) or isinstance(b, Cat):
            if isinstance(a, Cat) and isinstance(b, Cat) and pred in ('eq', 'ne') and \
                    [p[1] for p in a.parts] == [p[1] for p in b.parts]:
                cs = []
                for (x, pw), (y, _) in zip(a.parts, b.parts):
                    r = self.icmp(st, 'eq', ('i', pw), x, y)
                    cs.append(self.tob(r))
                e = z3.And(cs)
                return SI(1, b=e if pred == 'eq' else z3.Not(e))
            a = self.cat_to_si(st, a)
            b = self.cat_to_si(st, b)
        if not self.intm:
            x, y = self.bvt(a, w), self.bvt(b, w)
            e = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
                 'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
            return self.mkb(e)
        if pred in ('eq', 'ne'):
            N = 1 << w
            H = N >> 1
            al, ah = (a, a) if isinstance(a, int) else (a.lo, a.hi)
            bl, bh = (b, b) if isinstance(b, int) else (b.lo, b.hi)
            if isinstance(a, int) and bl < 0:
                al = ah = sgn(a, w)
            if isinstance(b, int) and al < 0:
                bl = bh = sgn(b, w)
            if (al >= -H and ah < H and bl >= -H and bh < H) or (al >= 0 and ah < N and bl >= 0 and bh < N):
                x = z3.IntVal(al) if isinstance(a, int) else a.t
                y = z3.IntVal(bl) if isinstance(b, int) else b.t
            elif al < 0 or bl < 0:
                x, al, ah = self.Sx(st, a, w)
                y, bl, bh = self.Sx(st, b, w)
            else:
                x, al, ah = self.U(st, a)
                y, bl, bh = self.U(st, b)
            if ah < bl or bh < al:
                return 0 if pred == 'eq' else 1
            return self.mkb(x == y if pred == 'eq' else x != y)
        if pred[0] == 'u':
            x, xl, xh = self.U(st, a)
            y, yl, yh = self.U(st, b)
        else:
            x, xl, xh = self.Sx(st, a, w)
            y, yl, yh = self.Sx(st, b, w)
        p = pred[1:]
        if p == 'gt':
            if xl > yh:
                return 1
            if xh <= yl:
                return 0
            e = x > y
        elif p == 'ge':
            if xl >= yh:
                return 1
            if xh < yl:
                return 0
            e = x >= y
        elif p == 'lt':
            if xh < yl:
                return 1
            if xl >= yh:
                return 0
            e = x < y
        else:
            if xh <= yl:
                return 1
            if xl > yh:
                return 0
            e = x <= y
        return self.mkb(e)

    def mkb(self, e):
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return SI(1, b=e)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, int):
            a = Ptr(0, a) if a else NULL
        if isinstance(b, int):
            b = Ptr(0, b) if b else NULL
        if isinstance(a, Undef) or isinstance(b, Undef):
            if self.o['uninit']:
                self.oblige(st, 'uninit', 'comparison of uninitialised pointer', False)
            return SI(1, b=self.fresh('undefb', 'bool'))
        if isinstance(a, tuple):
            a = a[1]
        if isinstance(b, tuple):
            b = b[1]
        if isinstance(a, PIte) or isinstance(b, PIte):
            aa = a.alts if isinstance(a, PIte) else [(None, a)]
            bb = b.alts if isinstance(b, PIte) else [(None, b)]
            ors = []
            for ca, pa in aa:
                for cb, pb in bb:
                    r = self.pcmp(st, pred, pa, pb)
                    if isinstance(r, int) and r == 0:
                        continue
                    cs = [c for c in (ca, cb) if c is not None]
                    if not isinstance(r, int):
                        cs.append(self.tob(r))
                    ors.append(z3.And(cs) if cs else z3.BoolVal(True))
            return self.mkb(z3.Or(ors)) if ors else 0
        if pred in ('eq', 'ne'):
            if a.o != b.o:
                return 0 if pred == 'eq' else 1
            if isinstance(a.off, int) and isinstance(b.off, int):
                e = a.off == b.off
                return int(e if pred == 'eq' else not e)
            e = self.off_t(a.off) == self.off_t(b.off)
            return self.mkb(e if pred == 'eq' else z3.Not(e))
        if a.o != b.o:
            raise VpError('relational comparison of different objects')
        x, y = a.off, b.off
        p = pred[-2:]
        if isinstance(x, int) and isinstance(y, int):
            return int({'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p])
        x, y = self.off_t(x), self.off_t(y)
        return self.mkb({'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p])

    # ------------------------------------------------------------ floats
    def fpc(self, v, k):
        return z3.FPVal(v, z3.Float32() if k == 'f32' else z3.Float64())

    def ft(self, v, k):
        if isinstance(v, float):
            return self.fpc(v, k)
        return v.t

    def sf(self, v, k):
        if isinstance(v, SF):
            return v
        if isinstance(v, Undef):
            raise VpError('undef float')
        if math.isinf(v) or math.isnan(v):
            raise VpError('non-finite constant in real arithmetic')
        return SF(k, rat(v), v, v, float(v).is_integer() and abs(v) < 2 ** 50)

    def isspec(self, name):
        """double arithmetic of the harness' own oracle is taken as exact"""
        return name == 'vp_main' or name.startswith('spec_')

    def round(self, st, e, lo, hi, k, exactok=False):
        """result of rounding the exact real e to float kind k"""
        mx = 3.4028234663852886e38 if k == 'f32' else 1.7976931348623157e308
        if lo < -mx or hi > mx or math.isinf(lo) or math.isinf(hi):
            # may overflow: demand it does not
            self.oblige(st, 'fovf', 'floating-point overflow', z3.And(e >= rat(-mx), e <= rat(mx)))
            lo, hi = max(lo, -mx), min(hi, mx)
        if self.exact or exactok or k == 'f64' and st.frames and self.isspec(st.frames[-1].fn.name):
            return SF(k, e, lo, hi)
        u = Fraction(1, 2 ** 24) if k == 'f32' else Fraction(1, 2 ** 53)
        den = Fraction(1, 2 ** 149) if k == 'f32' else Fraction(1, 2 ** 1074)
        if k == 'f64':
            den = Fraction(1, 2 ** 200)
        r = self.fresh('fl', 'real')
        # den over-approximated by a short constant (sound): 2^-64
        U = z3.RealVal(str(u))
        D = z3.RealVal(str(Fraction(1, 2 ** 64)))
        if lo >= 1e-30:
            st.pc.append(z3.And(r >= e * (1 - u), r <= e * (1 + u)))
        elif hi <= -1e-30:
            st.pc.append(z3.And(r <= e * (1 - u), r >= e * (1 + u)))
        elif lo >= 0:
            st.pc.append(z3.And(r >= e * (1 - u) - D, r <= e * (1 + u) + D, r >= 0))
            st.pc.append(z3.Implies(e <= 0, r <= 0))
        elif hi <= 0:
            st.pc.append(z3.And(r <= e * (1 - u) + D, r >= e * (1 + u) - D, r <= 0))
            st.pc.append(z3.Implies(e >= 0, r >= 0))
        else:
            ae = z3.If(e >= 0, e, -e)
            st.pc.append(z3.And(r - e <= ae * U + D, e - r <= ae * U + D))
            st.pc.append(z3.Implies(e >= 0, r >= 0))
            st.pc.append(z3.Implies(e <= 0, r <= 0))
        for L in self.o['landmarks']:
            if L == 0.0:
                continue
            if lo < L < hi:
                st.pc.append(z3.Implies(e >= rat(L), r >= rat(L)))
                st.pc.append(z3.Implies(e <= rat(L), r <= rat(L)))
        rl, rh = lo, hi
        # rounding is monotone: bounds round to representable values
        if k == 'f32':
            rl, rh = f32lo(lo), f32hi(hi)
        st.pc.append(z3.And(r >= rat(rl), r <= rat(rh)))
        self.vb(r, Fraction(rl), Fraction(rh))
        return SF(k, r, rl, rh)

    # The machine's operations are functions: the same operation on the same operands gives the same result.
    # (Results of rounding, division and conversion are fresh variables, so this has to be said.)
    def mkey(self, v):
        if isinstance(v, int):
            return ('i', v)
        if isinstance(v, float):
            return ('f', v.hex())
        if isinstance(v, SI) and v.t is not None and v.src is None and v.b is None:
            return ('S', v.w, v.t.get_id(), v.lo, v.hi)
        if isinstance(v, SF):
            return ('F', v.k, v.t.get_id())
        return None

    def memoised(self, st, key, args, fn):
        ks = tuple(self.mkey(a) for a in args)
        if self.fpm or None in ks or all(x[0] in 'if' for x in ks):
            return fn()
        key = ('fn', key, ks, bool(st.frames) and self.isspec(st.frames[-1].fn.name))
        h = st.memo.get(key)
        if h is not None:
            return h[0]
        r = fn()
        st.memo[key] = (r, args)
        return r

    def fbin(self, st, op, k, a, b):
        return self.memoised(st, (op, k), (a, b), lambda: self.fbin_(st, op, k, a, b))

    def fbin_nonfinite(self, st, op, k, a, b):
        """IEEE arithmetic of a non-finite constant and a finite symbolic value"""
        c, v = (a, b) if isinstance(a, float) and not math.isfinite(a) else (b, a)
        if math.isnan(c):
            return c
        if op == 'fadd' or op == 'fsub' and c is a:
            return c
        if op == 'fsub':
            return -c
        if op == 'fdiv' and c is b:
            return 0.0
        v = self.sf(v, k)
        if v.lo > 0:
            sign = 1
        elif v.hi < 0:
            sign = -1
        elif not self.feasible(st, v.t <= 0):
            sign = 1
        elif not self.feasible(st, v.t >= 0):
            sign = -1
        elif not self.feasible(st, v.t != 0):
            if op == 'fdiv':
                return math.copysign(math.inf, c)
            return math.nan
        else:
            raise Fork([(v.t > 0, lambda s: None), (v.t < 0, lambda s: None), (v.t == 0, lambda s: None)])
        return c * sign

    def fbin_(self, st, op, k, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            if isinstance(a, Undef):
                a = self.fresh_float(st, k, 'undef')
            if isinstance(b, Undef):
                b = self.fresh_float(st, k, 'undef')
        if isinstance(a, float) and isinstance(b, float):
            return self.cfbin(op, k, a, b)
        if self.fpm:
            x, y = self.ft(a, k), self.ft(b, k)
            rm = z3.RNE()
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
            if r is None:
                raise VpError(op)
            return SF(k, r(rm, x, y))
        if isinstance(a, float) and (math.isinf(a) or math.isnan(a)) or isinstance(b, float) and (math.isinf(b) or math.isnan(b)):
            return self.fbin_nonfinite(st, op, k, a, b)
        if op == 'fmul':
            if isinstance(b, float):
                a, b = b, a
            if isinstance(a, float):
                if a == 0.0:
                    return 0.0
                if a == 1.0:
                    return b
        if op == 'fadd':
            if isinstance(a, float) and a == 0.0:
                return b
            if isinstance(b, float) and b == 0.0:
                return a
        if op == 'fsub' and isinstance(b, float) and b == 0.0:
            return a
        if op == 'fdiv' and isinstance(b, float) and b == 1.0:
            return a
        if op == 'fdiv' and isinstance(a, float) and a == 0.0 and isinstance(b, SF) and (b.lo > 0 or b.hi < 0):
            return 0.0
        x, y = self.sf(a, k), self.sf(b, k)
        if op == 'fsub' and isinstance(a, SF) and isinstance(b, SF) and a.t.eq(b.t):
            return 0.0
        ok = False
        if op == 'fadd':
            e, lo, hi = x.t + y.t, nlo(x.lo + y.lo), nhi(x.hi + y.hi)
            isint = x.isint and y.isint
            if isint:
                lo, hi = x.lo + y.lo, x.hi + y.hi
        elif op == 'fsub':
            if z3.is_app(y.t) and y.t.decl().kind() == z3.Z3_OP_TO_REAL:
                m = st.memo.get(('trunc', y.t.arg(0).get_id()))
                if m is not None and m[0].t.eq(x.t):
                    # x - trunc(x) is exact
                    r = SF(k, x.t - y.t, -1.0 if x.lo < 0 else 0.0, 1.0 if x.hi > 0 else 0.0)
                    st.pc.append(z3.And(r.t < 1, r.t > -1))
                    return r
            e, lo, hi = x.t - y.t, nlo(x.lo - y.hi), nhi(x.hi - y.lo)
            isint = x.isint and y.isint
            if isint:
                lo, hi = x.lo - y.hi, x.hi - y.lo
        elif op == 'fmul':
            c = [mulb(x.lo, y.lo), mulb(x.lo, y.hi), mulb(x.hi, y.lo), mulb(x.hi, y.hi)]
            lo, hi = min(c), max(c)
            isint = x.isint and y.isint
            pow2 = isinstance(a, float) and ispow2(a) or isinstance(b, float) and ispow2(b)
            if not isint and not pow2:
                lo, hi = (lo if lo == 0 else nlo(lo)), (hi if hi == 0 else nhi(hi))
            e = x.t * y.t
            ok = pow2
            if isinstance(a, SF) and isinstance(b, SF) and a.t.eq(b.t):
                lo = max(lo, 0.0)
        elif op == 'fdiv':
            isint = False
            if y.lo <= 0 <= y.hi:
                self.oblige(st, 'fdiv0', 'floating-point division by zero', y.t != 0)
                # intervals: unknown unless sign can be established
                if y.lo == 0:
                    if x.lo >= 0:
                        lo, hi = 0.0, math.inf
                    elif x.hi <= 0:
                        lo, hi = -math.inf, 0.0
                    else:
                        lo, hi = -math.inf, math.inf
                else:
                    lo, hi = -math.inf, math.inf
            else:
                c = [divb(x.lo, y.lo), divb(x.lo, y.hi), divb(x.hi, y.lo), divb(x.hi, y.hi)]
                lo, hi = min(c), max(c)
                lo, hi = (lo if lo == 0 else nlo(lo)), (hi if hi == 0 else nhi(hi))
            if isinstance(b, float):
                e = x.t * z3.RealVal(str(1 / Fraction(b)))
                ok = ispow2(b)
                if ok:
                    lo, hi = sorted((x.lo / b, x.hi / b))
            else:
                # q with q*y == x : division-free encoding
                q = self.fresh('q', 'real')
                st.pc.append(q * y.t == x.t)
                if self.o.get('div_hints', True):
                    for L in self.o['landmarks']:
                        if L == 0.0 or not (lo < L < hi):
                            continue
                        Lr = rat(L)
                        if y.lo >= 0:
                            st.pc.append(z3.And(z3.Implies(x.t <= Lr * y.t, q <= Lr), z3.Implies(x.t >= Lr * y.t, q >= Lr)))
                        elif y.hi <= 0:
                            st.pc.append(z3.And(z3.Implies(x.t >= Lr * y.t, q <= Lr), z3.Implies(x.t <= Lr * y.t, q >= Lr)))
                    if y.lo >= 0:
                        st.pc.append(z3.And((q >= 0) == (x.t >= 0), (q <= 0) == (x.t <= 0)))
                if math.isfinite(lo):
                    st.pc.append(q >= rat(lo))
                if math.isfinite(hi):
                    st.pc.append(q <= rat(hi))
                self.vb(q, Fraction(lo) if math.isfinite(lo) else -math.inf, Fraction(hi) if math.isfinite(hi) else math.inf)
                for L in self.o['landmarks']:
                    # the quotient often has far better bounds than its intervals show
                    if lo < L < hi:
                        if self.entails(st, q <= rat(L)):
                            hi = L
                            st.pc.append(q <= rat(L))
                        elif self.entails(st, q >= rat(L)):
                            lo = L
                            st.pc.append(q >= rat(L))
                        self.vb(q, Fraction(lo) if math.isfinite(lo) else -math.inf, Fraction(hi) if math.isfinite(hi) else math.inf)
                e = q
        else:
            raise VpError(op)
        if isint:
            lim = 2.0 ** 24 if k == 'f32' else 2.0 ** 53
            if abs(lo) <= lim and abs(hi) <= lim:
                return SF(k, e, lo, hi, True)
        return self.round(st, e, lo, hi, k, ok)

    def cfbin(self, op, k, a, b):
        try:
            if op == 'fadd':
                r = a + b
            elif op == 'fsub':
                r = a - b
            elif op == 'fmul':
                r = a * b
            elif op == 'fdiv':
                if b == 0:
                    if a == 0 or math.isnan(a):
                        r = math.nan
                    else:
                        r = math.copysign(math.inf, a) * math.copysign(1, b)
                else:
                    r = a / b
            elif op == 'frem':
                r = math.fmod(a, b)
            else:
                raise VpError(op)
        except OverflowError:
            r = math.inf
        return f32(r) if k == 'f32' else r

    def fcmp(self, st, pred, k, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            if self.o['uninit']:
                self.oblige(st, 'uninit', 'float comparison depends on uninitialised memory', False)
            return SI(1, b=self.fresh('undefb', 'bool'))
        if isinstance(a, float) and isinstance(b, float):
            nan = math.isnan(a) or math.isnan(b)
            if pred == 'ord':
                return int(not nan)
            if pred == 'uno':
                return int(nan)
            if nan:
                return int(pred[0] == 'u')
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[-2:]])
        if self.fpm:
            x, y = self.ft(a, k), self.ft(b, k)
            unord = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            if pred == 'ord':
                return self.mkb(z3.Not(unord))
            if pred == 'uno':
                return self.mkb(unord)
            p = pred[-2:]
            base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
            if p == 'ne':
                e = z3.fpNEQ(x, y)  # true on NaN
                return self.mkb(e if pred[0] == 'u' else z3.And(e, z3.Not(unord)))
            e = base[p](x, y)
            return self.mkb(e if pred[0] == 'o' else z3.Or(e, unord))
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(y, float) and (math.isinf(y) or math.isnan(y)):
                if math.isnan(y):
                    return int(pred[0] == 'u')
                p = pred[-2:]
                # finite x versus +-inf
                big = y > 0
                lt = big  # x < y
                if sw:
                    lt = not lt
                return int({'eq': False, 'ne': True, 'lt': lt, 'le': lt, 'gt': not lt, 'ge': not lt}[p])
        x, y = self.sf(a, k), self.sf(b, k)
        p = pred[-2:]
        if p == 'lt':
            if x.hi < y.lo:
                return 1
            if x.lo >= y.hi:
                return 0
            return self.mkb(x.t < y.t)
        if p == 'le':
            if x.hi <= y.lo:
                return 1
            if x.lo > y.hi:
                return 0
            return self.mkb(x.t <= y.t)
        if p == 'gt':
            if x.lo > y.hi:
                return 1
            if x.hi <= y.lo:
                return 0
            return self.mkb(x.t > y.t)
        if p == 'ge':
            if x.lo >= y.hi:
                return 1
            if x.hi < y.lo:
                return 0
            return self.mkb(x.t >= y.t)
        if p == 'eq':
            if x.hi < y.lo or y.hi < x.lo:
                return 0
            return self.mkb(x.t == y.t)
        if x.hi < y.lo or y.hi < x.lo:
            return 1
        return self.mkb(x.t != y.t)

    def floor_int(self, st, x):
        """z3 Int n = floor(x), for SF x in real mode"""
        key = ('floor', x.t.get_id())
        if key in st.memo:
            return st.memo[key]
        n = self.fresh('n', 'zint')
        nr = z3.ToReal(n)
        st.pc.append(z3.And(nr <= x.t, x.t < nr + 1))
        lo, hi = math.floor(x.lo), math.floor(x.hi)
        if abs(lo) < 1e30:
            st.pc.append(n >= int(lo))
        if abs(hi) < 1e30:
            st.pc.append(n <= int(hi))
        self.vb(n, int(lo) if abs(lo) < 1e30 else -math.inf, int(hi) if abs(hi) < 1e30 else math.inf)
        st.memo[key] = (n, lo, hi, x)
        return st.memo[key]

    def cast(self, st, op, T, v, T2):
        if op in ('fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc', 'fpext', 'trunc'):
            return self.memoised(st, (op, T, T2), (v,), lambda: self.cast_(st, op, T, v, T2))
        return self.cast_(st, op, T, v, T2)

    def cast_(self, st, op, T, v, T2):
        if isinstance(v, Undef):
            return UNDEF
        if op in ('trunc',):
            w, w2 = T[1], T2[1]
            if isinstance(v, int):
                return v & ((1 << w2) - 1)
            if isinstance(v, Cat):
                return self.extract(st, v, w, 0, w2)
            if isinstance(v, (Ptr, PIte, tuple)):
                raise VpError('trunc of pointer')
            if w2 == 1:
                if v.b is not None and v.hi == 1:
                    return SI(1, b=v.b)
                if self.intm:
                    u, lo, hi = self.U(st, v)
                    return self.mkb(u % 2 == 1 if hi > 1 else u == 1)
                return self.mkb(z3.Extract(0, 0, v.t) == 1)
            if self.intm:
                t, lo, hi = self.raw(v)
                return SI(w2, t, lo, hi, b=v.b if (lo == 0 and hi <= 1) else None)
            return SI(w2, z3.Extract(w2 - 1, 0, v.t), b=v.b)
        if op == 'zext':
            return self.zext(st, v, T[1], T2[1])
        if op == 'sext':
            w, w2 = T[1], T2[1]
            if isinstance(v, int):
                return sgn(v, w) % (1 << w2)
            if isinstance(v, Cat):
                v = self.cat_to_si(st, v)
            if self.intm:
                t, lo, hi = self.S(st, v)
                return SI(w2, t, lo, hi)
            if w == 1:
                return SI(w2, z3.If(self.tob(v), z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2)))
            return SI(w2, z3.SignExt(w2 - w, v.t))
        if op in ('sitofp', 'uitofp'):
            k = T2[0]
            w = T[1]
            if isinstance(v, int):
                x = sgn(v, w) if op == 'sitofp' else v
                r = float(x)
                if k == 'f32':
                    r = int2f32(x)
                return r
            if isinstance(v, Cat):
                v = self.cat_to_si(st, v)
            if self.fpm:
                if self.intm:
                    u = self.S(st, v)[0] if op == 'sitofp' else self.U(st, v)[0]
                    bv = z3.Int2BV(u, w)
                else:
                    bv = self.bvt(v)
                s = z3.Float32() if k == 'f32' else z3.Float64()
                return SF(k, z3.fpSignedToFP(z3.RNE(), bv, s) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), bv, s))
            if self.intm:
                t, lo, hi = self.S(st, v) if op == 'sitofp' and w > 1 else self.U(st, v)
                rt = z3.ToReal(t)
            else:
                t = z3.BV2Int(self.bvt(v), op == 'sitofp')
                rt = z3.ToReal(t)
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'sitofp' else (0, (1 << w) - 1)
            lim = 2 ** 24 if k == 'f32' else 2 ** 53
            if -lim <= lo and hi <= lim:
                return SF(k, rt, float(lo), float(hi), True)
            return self.round(st, rt, nlo(float(lo)), nhi(float(hi)), k)
        if op in ('fptosi', 'fptoui'):
            k = T[0]
            w = T2[1]
            N = 1 << w
            H = N >> 1
            mn, mxv = (-H, H - 1) if op == 'fptosi' else (0, N - 1)
            if isinstance(v, float):
                if math.isnan(v) or math.isinf(v) or not (mn <= int(v) <= mxv):
                    if self.o['f2i']:
                        self.oblige(st, 'f2i', 'float to integer conversion out of range', False)
                        raise PathEnd('violation')
                    return self.fresh_int(st, w, 'f2i')
                return int(v) % N
            if self.fpm:
                if self.o['f2i']:
                    s = z3.Float32() if k == 'f32' else z3.Float64()
                    lo = z3.fpGT(v.t, z3.FPVal(float(mn) - 1, s)) if not (k == 'f32' and op == 'fptosi' and w >= 32) \
                        else z3.fpGEQ(v.t, z3.FPVal(float(mn), s))
                    self.oblige(st, 'f2i', 'float to integer conversion out of range',
                                z3.And(lo, z3.fpLT(v.t, z3.FPVal(float(mxv + 1), s))))
                r = z3.fpToSBV(z3.RTZ(), v.t, z3.BitVecSort(w)) if op == 'fptosi' else \
                    z3.fpToUBV(z3.RTZ(), v.t, z3.BitVecSort(w))
                if self.intm:
                    r = z3.BV2Int(r, op == 'fptosi')
                    return SI(w, r, mn, mxv)
                return SI(w, r)
            if v.lo > mn - 1 and v.hi < mxv + 1:
                pass
            elif self.o['f2i']:
                self.oblige(st, 'f2i', 'float to integer conversion out of range',
                            z3.And(v.t > mn - 1, v.t < mxv + 1))
            if v.lo >= 0:
                n, lo, hi, _ = self.floor_int(st, v)
                lo, hi = max(lo, 0), hi
            elif v.hi <= 0:
                n, lo, hi, _ = self.floor_int(st, SF(v.k, -v.t, -v.hi, -v.lo))
                n, lo, hi = -n, -hi, -lo
            elif v.lo > -1.0:
                # truncation of (-1,0) is 0
                n0, lo, hi, _ = self.floor_int(st, v)
                n = z3.If(n0 < 0, z3.IntVal(0), n0)
                lo = 0
            else:
                n = self.fresh('tr', 'zint')
                nr = z3.ToReal(n)
                st.pc.append(z3.If(v.t >= 0, z3.And(nr <= v.t, v.t < nr + 1), z3.And(nr >= v.t, nr > v.t - 1 - 0) if False else
                                   z3.And(nr >= v.t, nr < v.t + 1)))
                lo, hi = math.ceil(v.lo) if math.isfinite(v.lo) else mn, math.floor(v.hi) if math.isfinite(v.hi) else mxv
                st.memo[('trunc', n.get_id())] = (v, n)
                self.vb(n, max(int(lo), mn), min(int(hi), mxv))
            lo, hi = max(int(lo), mn), min(int(hi), mxv)
            if not self.intm:
                return SI(w, z3.Int2BV(n, w))
            return SI(w, n, lo, hi)
        if op == 'fpext':
            if isinstance(v, float):
                return v
            if self.fpm:
                return SF('f64', z3.fpFPToFP(z3.RNE(), v.t, z3.Float64()))
            st.memo[('f32', v.t.get_id())] = (v, v)
            return SF('f64', v.t, v.lo, v.hi, v.isint)
        if op == 'fptrunc':
            if isinstance(v, float):
                return f32(v)
            if self.fpm:
                return SF('f32', z3.fpFPToFP(z3.RNE(), v.t, z3.Float32()))
            if v.isint and abs(v.lo) <= 2 ** 24 and abs(v.hi) <= 2 ** 24:
                return SF('f32', v.t, v.lo, v.hi, True)
            if ('f32', v.t.get_id()) in st.memo:      # came from a float: nothing to round
                return SF('f32', v.t, v.lo, v.hi, v.isint)
            return self.round(st, v.t, v.lo, v.hi, 'f32')
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.o == 0:
                return v.off
            return v
        if op == 'inttoptr':
            if isinstance(v, (Ptr, PIte)):
                return v
            if isinstance(v, tuple):
                return v[1]
            if isinstance(v, int):
                return NULL if v == 0 else Ptr('int', v)
            raise VpError('inttoptr')
        if op == 'bitcast':
            n = self.tsize(T)
            return self.retype(st, v, T2, n)
        raise VpError('cast ' + op)

    # ------------------------------------------------------------ operands
    def val(self, st, fr, T, op):
        k = op[0]
        if k == 'r':
            try:
                return fr.regs[op[1]]
            except KeyError:
                raise VpError('unset register %s' % op[1])
        if k == 'c':
            v = op[1]
            if isinstance(v, int) and T[0] == 'i':
                return v & ((1 << T[1]) - 1)
            if T[0] == 'f32':
                return f32(v)
            return v
        if k == 'null':
            return NULL
        if k == 'g':
            return self.gaddr(st, op[1])
        if k == 'undef':
            return self.undef_of(T)
        if k == 'zero':
            return self.zero_of(T)
        if k == 'ce':
            return self.constexpr(st, fr, op)
        if k == 'agg':
            return [self.val(st, fr, t, x) for t, x in op[1]]
        raise VpError('operand %r' % (op,))

    def undef_of(self, T):
        R = self.m.resolve(T)
        if R[0] == 'st':
            return [self.undef_of(t) for t in R[1]]
        if R[0] in ('arr', 'vec'):
            return [self.undef_of(R[2]) for _ in range(R[1])]
        return UNDEF

    def zero_of(self, T):
        T = self.m.resolve(T)
        if T[0] == 'i':
            return 0
        if T[0] in ('f32', 'f64'):
            return 0.0
        if T[0] == 'ptr':
            return NULL
        if T[0] == 'st':
            return [self.zero_of(t) for t in T[1]]
        return [self.zero_of(T[2]) for _ in range(T[1])]

    def gaddr(self, st, name):
        if name in self.globals_addr:
            return Ptr(self.globals_addr[name], 0)
        if name in self.m.funcs or name in self.m.decls:
            return Ptr('fn:' + name, 0)
        raise VpError('global ' + name)

    def constexpr(self, st, fr, op):
        if op[1] == 'gep':
            ops = op[3]
            p = self.val(st, fr, ops[0][0], ops[0][1])
            return self.gep(st, fr, op[2], p, ops[1:])
        if op[1] in ('add', 'sub', 'mul'):
            return self.binop(st, op[1], op[2][1], self.val(st, fr, op[2], op[3]), self.val(st, fr, op[2], op[4]), ())
        return self.cast(st, op[1], op[2], self.val(st, fr, op[2], op[3]), op[4])

    def gep(self, st, fr, bt, p, idx):
        T = bt
        first = True
        for (it, io) in idx:
            i = self.val(st, fr, it, io)
            if isinstance(i, Undef):
                if self.o['uninit']:
                    self.oblige(st, 'uninit', 'address depends on uninitialised memory', False)
                raise PathEnd('violation')
            if isinstance(i, int):
                i = sgn(i, it[1])
            elif isinstance(i, Cat):
                i = self.cat_to_si(st, i)
            if first:
                p = self.ptr_add(st, p, i if isinstance(i, int) else self.idx64(st, i), self.tsize(T))
                first = False
                continue
            R = self.m.resolve(T)
            if R[0] == 'st':
                off, T = self.m.field_off(R, i)
                p = self.ptr_add(st, p, off)
            else:
                T = R[2]
                p = self.ptr_add(st, p, i if isinstance(i, int) else self.idx64(st, i), self.tsize(T))
        return p

    def idx64(self, st, i):
        if i.w == 64:
            return i
        return self.cast(st, 'sext', ('i', i.w), i, ('i', 64))

    # ------------------------------------------------------------ setup
    def init_state(self):
        st = State()
        self.cur = st
        for name, (T, init, const) in self.m.globals.items():
            try:
                size = self.tsize(T)
            except Exception:
                size = 0
            st.nobj += 1
            oid = st.nobj
            self.globals_addr[name] = oid
            o = Obj(size, 0 if init is not None else None, st.token, 'global', name)
            st.mem[oid] = o
        for name, (T, init, const) in self.m.globals.items():
            if init is None:
                continue
            o = st.mem[self.globals_addr[name]]
            self.ginit(st, o, 0, T, init)
            o.const = const
        return st

    def ginit(self, st, o, off, T, init):
        R = self.m.resolve(T)
        if init[0] == 'zero':
            return
        if init[0] == 'undef':
            return
        if init[0] == 'str':
            for j, b in enumerate(init[1]):
                o.cells[off + j] = (1, b)
            return
        if init[0] == 'agg':
            if R[0] == 'st':
                for j, (t, x) in enumerate(init[1]):
                    fo, ft = self.m.field_off(R, j)
                    self.ginit(st, o, off + fo, ft, x)
            else:
                es = self.tsize(R[2])
                for j, (t, x) in enumerate(init[1]):
                    self.ginit(st, o, off + j * es, R[2], x)
            return
        v = self.val(st, None, R, init)
        o.cells[off] = (self.tsize(R), v)

    def call_fn(self, st, fn, args, retreg):
        fr = Frame()
        fr.fn = fn
        fr.blk = fn.order[0]
        fr.prev = None
        fr.ip = 0
        fr.regs = {}
        fr.allocas = []
        fr.retreg = retreg
        for j, (T, n) in enumerate(fn.params):
            v = args[j] if j < len(args) else UNDEF
            fr.regs[n] = v
        if len(st.frames) > 200:
            raise VpError('recursion limit')
        self.fnset.add(fn.name)
        st.frames.append(fr)

    # ------------------------------------------------------------ run
    def run(self, entry):
        st = self.init_state()
        self.call_fn(st, self.m.funcs[entry], [], None)
        work = [st]
        dl = self.o['deadline']
        while work:
            st = work.pop()
            self.cur = st
            try:
                self.exec(st, work)
                end = 'done'
            except PathEnd as e:
                end = e.why
            self.ends[end] = self.ends.get(end, 0) + 1
            self.stats['paths'] += 1
            if end == 'done':
                if self.o['trace']:
                    print('path done', st.steps, len(st.pc), file=sys.stderr)
                if len(self.wit) < 64:
                    self.wit.append(st)
            if self.ends.get('violation', 0) >= 24:
                raise VpError('stopped after 24 violated paths')
            if self.stats['paths'] > self.o['max_paths']:
                raise VpError('path limit %d' % self.o['max_paths'])
            if dl and time.time() > dl:
                raise VpError('deadline reached in exploration (%d paths done, %d pending)' % (self.stats['paths'], len(work)))
        return self

    def exec(self, st, work):
        maxs = self.o['max_steps']
        dl = self.o['deadline']
        while st.frames:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            ins = blk[fr.ip]
            st.steps += 1
            self.stats['steps'] += 1
            if st.steps > maxs:
                raise VpError('step limit')
            if dl and (self.stats['steps'] & 4095) == 0 and time.time() > dl:
                raise VpError('deadline reached')
            try:
                self.step(st, fr, ins, work)
            except Fork as f:
                self.stats['forks'] += 1
                # evaluate each alternative
                live = []
                for cond, fn in f.alts:
                    if cond is None or self.feasible(st, cond):
                        live.append((cond, fn))
                if not live:
                    raise PathEnd('infeasible')
                for cond, fn in live[1:]:
                    s2 = st.fork()
                    if cond is not None:
                        s2.pc.append(cond)
                    fn(s2)
                    work.append(s2)
                cond, fn = live[0]
                if cond is not None:
                    st.pc.append(cond)
                fn(st)

    def goto(self, st, fr, label):
        fr.prev = fr.blk
        fr.blk = label
        blk = fr.fn.blocks[label]
        i = 0
        vals = []
        while blk[i][0] == 'phi':
            _, res, T, inc = blk[i]
            vals.append((res, self.val(st, fr, T, inc[fr.prev])))
            i += 1
        for r, v in vals:
            fr.regs[r] = v
        fr.ip = i

    def resolve_ptr(self, st, fr, op, v):
        """v is the value of pointer operand op; forks on PIte"""
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Undef):
            self.oblige(st, 'uninit', 'dereference of uninitialised pointer', False)
            raise PathEnd('violation')
        if isinstance(v, PIte):
            if op[0] != 'r':
                raise VpError('ptr ite operand')
            alts = []
            name = op[1]
            for c, q in v.alts:
                def fn(s, q=q):
                    s.frames[-1].regs[name] = q
                alts.append((c, fn))
            raise Fork(alts)
        if isinstance(v, tuple):
            return v[1]
        raise VpError('pointer value %r' % (v,))

    def concretize(self, st, fr, op, v, w, what):
        """v must become a concrete int; forks over feasible values"""
        if isinstance(v, int):
            return v
        if isinstance(v, Undef):
            self.oblige(st, 'uninit', what + ' depends on uninitialised memory', False)
            raise PathEnd('violation')
        if isinstance(v, Cat):
            v = self.cat_to_si(st, v)
        if op[0] != 'r':
            raise VpError('concretize')
        if self.intm:
            t, lo, hi = self.U(st, v)
        else:
            t = v.t
        vals = []
        extra = []
        while True:
            r = self.check(st.pc, z3.And([t != x for x in vals]) if vals else None, 5000)
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise VpError('concretize unknown: ' + what)
            x = self.solver.model().eval(t, True).as_long()
            vals.append(x)
            if len(vals) > 64:
                raise VpError('too many values for ' + what)
        name = op[1]
        if not vals:
            raise PathEnd('infeasible')
        alts = []
        for x in vals:
            def fn(s, x=x):
                s.frames[-1].regs[name] = x
            alts.append((t == x, fn))
        raise Fork(alts)

    def step(self, st, fr, ins, work):
        k = ins[0]
        if k == 'bin':
            _, res, op, T, a, b, fl = ins
            x = self.val(st, fr, T, a)
            y = self.val(st, fr, T, b)
            if T[0] == 'i':
                fr.regs[res] = self.binop(st, op, T[1], x, y, fl)
            elif T[0] == 'vec':
                fr.regs[res] = [self.fbin(st, op, T[2][0], p, q) for p, q in zip(x, y)]
            else:
                fr.regs[res] = self.fbin(st, op, T[0], x, y)
            fr.ip += 1
        elif k == 'load':
            _, res, T, po = ins
            p = self.resolve_ptr(st, fr, po, self.val(st, fr, ll.PTR, po))
            fr.regs[res] = self.load(st, Ptr(p.o, p.off), T)
            fr.ip += 1
        elif k == 'store':
            _, _, T, vo, po = ins
            p = self.resolve_ptr(st, fr, po, self.val(st, fr, ll.PTR, po))
            self.store(st, Ptr(p.o, p.off), self.val(st, fr, T, vo), T)
            fr.ip += 1
        elif k == 'gep':
            _, res, bt, ops = ins
            p = self.val(st, fr, ops[0][0], ops[0][1])
            if isinstance(p, Undef):
                self.oblige(st, 'uninit', 'address computed from uninitialised pointer', False)
                raise PathEnd('violation')
            fr.regs[res] = self.gep(st, fr, bt, p, ops[1:])
            fr.ip += 1
        elif k == 'icmp':
            _, res, pred, T, a, b = ins
            fr.regs[res] = self.icmp(st, pred, T, self.val(st, fr, T, a), self.val(st, fr, T, b))
            fr.ip += 1
        elif k == 'fcmp':
            _, res, pred, T, a, b = ins
            if pred in ('true', 'false'):
                fr.regs[res] = int(pred == 'true')
            else:
                fr.regs[res] = self.fcmp(st, pred, T[0], self.val(st, fr, T, a), self.val(st, fr, T, b))
            fr.ip += 1
        elif k == 'cast':
            _, res, op, T, a, T2 = ins
            r = fr.regs[res] = self.cast(st, op, T, self.val(st, fr, T, a), T2)
            fr.ip += 1
            if op == 'fptosi' and self.o['conc_f2i'] and isinstance(r, SI) and self.intm and r.lo is not None \
                    and 0 < r.hi - r.lo < self.o['conc_f2i'] and not self.isspec(fr.fn.name):
                alts = []
                for x in range(r.lo, r.hi + 1):
                    def fn(s, x=x):
                        s.frames[-1].regs[res] = x % (1 << r.w)
                    alts.append((r.t == x, fn))
                raise Fork(alts)
        elif k == 'jmp':
            self.goto(st, fr, ins[2])
        elif k == 'br':
            c = self.val(st, fr, ll.I1, ins[2])
            if isinstance(c, int):
                self.goto(st, fr, ins[3] if c else ins[4])
            else:
                if isinstance(c, Undef):
                    if self.o['uninit']:
                        self.oblige(st, 'uninit', 'branch on uninitialised memory', False)
                    raise PathEnd('violation')
                b = z3.simplify(self.tob(c))
                if z3.is_true(b):
                    self.goto(st, fr, ins[3])
                    return
                if z3.is_false(b):
                    self.goto(st, fr, ins[4])
                    return
                t, f = ins[3], ins[4]
                raise Fork([(b, lambda s: self.goto(s, s.frames[-1], t)),
                            (z3.Not(b), lambda s: self.goto(s, s.frames[-1], f))])
        elif k == 'select':
            _, res, co, T, a, b = ins
            c = self.val(st, fr, ll.I1, co)
            x = self.val(st, fr, T, a)
            y = self.val(st, fr, T, b)
            if isinstance(c, int):
                fr.regs[res] = x if c else y
                fr.ip += 1
                return
            if isinstance(c, Undef):
                self.oblige(st, 'uninit', 'select on uninitialised memory', False)
                raise PathEnd('violation')
            cb = z3.simplify(self.tob(c))
            fl = T[0] in ('f32', 'f64')
            if fl and not self.fpm and self.o['fork_fselect'] or (T[0] == 'i' and T[1] > 1 and self.o['fork_iselect']):
                def fa(s):
                    f = s.frames[-1]
                    f.regs[res] = x
                    f.ip += 1

                def fb(s):
                    f = s.frames[-1]
                    f.regs[res] = y
                    f.ip += 1
                raise Fork([(cb, fa), (z3.Not(cb), fb)])
            fr.regs[res] = self.ite(st, cb, x, y, T)
            fr.ip += 1
        elif k == 'call':
            self.do_call(st, fr, ins, work)
        elif k == 'ret':
            v = None
            if ins[2] is not None:
                v = self.val(st, fr, ins[2], ins[3])
            for oid in fr.allocas:
                o = st.wobj(oid)
                o.alive = False
                o.cells = {}
            st.frames.pop()
            if st.frames:
                up = st.frames[-1]
                if fr.retreg is not None:
                    up.regs[fr.retreg] = v
        elif k == 'alloca':
            _, res, T, n = ins
            cnt = self.val(st, fr, ll.I64, n)
            if not isinstance(cnt, int):
                raise VpError('symbolic alloca')
            p = self.alloc(st, self.tsize(T) * cnt, None, 'stack', fr.fn.name + '.' + res)
            fr.allocas.append(p.o)
            fr.regs[res] = p
            fr.ip += 1
        elif k == 'fneg':
            _, res, T, a = ins
            v = self.val(st, fr, T, a)
            if isinstance(v, float):
                r = -v
            elif isinstance(v, Undef):
                r = v
            elif self.fpm:
                r = SF(v.k, z3.fpNeg(v.t))
            else:
                r = SF(v.k, -v.t, -v.hi, -v.lo, v.isint)
            fr.regs[res] = r
            fr.ip += 1
        elif k == 'switch':
            _, _, T, vo, d, cases = ins
            v = self.val(st, fr, T, vo)
            if isinstance(v, int):
                for c, l in cases:
                    if (c & ((1 << T[1]) - 1)) == v:
                        self.goto(st, fr, l)
                        return
                self.goto(st, fr, d)
                return
            if isinstance(v, Undef):
                self.oblige(st, 'uninit', 'switch on uninitialised memory', False)
                raise PathEnd('violation')
            alts = []
            nots = []
            for c, l in cases:
                e = self.tob(self.icmp(st, 'eq', T, v, c & ((1 << T[1]) - 1)))
                nots.append(z3.Not(e))
                alts.append((e, lambda s, l=l: self.goto(s, s.frames[-1], l)))
            alts.append((z3.And(nots) if nots else None, lambda s: self.goto(s, s.frames[-1], d)))
            raise Fork(alts)
        elif k == 'freeze':
            _, res, T, a = ins
            v = self.val(st, fr, T, a)
            if isinstance(v, Undef):
                v = self.fresh_int(st, T[1]) if T[0] == 'i' else self.fresh_float(st, T[0])
            fr.regs[res] = v
            fr.ip += 1
        elif k == 'extractvalue':
            _, res, T, a, idx = ins
            v = self.val(st, fr, T, a)
            for i in idx:
                v = UNDEF if isinstance(v, Undef) else v[i]
            fr.regs[res] = v
            fr.ip += 1
        elif k == 'insertvalue':
            _, res, T, a, T2, b, idx = ins
            v = self.val(st, fr, T, a)
            if isinstance(v, Undef):
                v = self.undef_of(T)
            x = self.val(st, fr, T2, b)

            def ins_(v, idx):
                v = list(v)
                if len(idx) == 1:
                    v[idx[0]] = x
                else:
                    v[idx[0]] = ins_(v[idx[0]], idx[1:])
                return v
            fr.regs[res] = ins_(v, idx)
            fr.ip += 1
        elif k == 'extractelement':
            _, res, T, a, i = ins
            v = self.val(st, fr, T, a)
            i = self.val(st, fr, ll.I64, i)
            fr.regs[res] = UNDEF if isinstance(v, Undef) else v[i]
            fr.ip += 1
        elif k == 'insertelement':
            _, res, T, a, T2, b, i = ins
            v = self.val(st, fr, T, a)
            if isinstance(v, Undef):
                v = self.undef_of(T)
            v = list(v)
            v[self.val(st, fr, ll.I64, i)] = self.val(st, fr, T2, b)
            fr.regs[res] = v
            fr.ip += 1
        elif k == 'shufflevector':
            _, res, T, a, b, T3, mask = ins
            x = self.val(st, fr, T, a)
            y = self.val(st, fr, T, b)
            n = T[1]
            x = x if isinstance(x, list) else [UNDEF] * n
            y = y if isinstance(y, list) else [UNDEF] * n
            mk = self.val(st, fr, T3, mask)
            xs = x + y
            fr.regs[res] = [UNDEF if isinstance(i, Undef) else xs[i] for i in mk]
            fr.ip += 1
        elif k == 'unreachable':
            self.oblige(st, 'unreachable', 'undefined behaviour: unreachable reached', False)
            raise PathEnd('violation')
        else:
            raise VpError('instr ' + k)

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, ins, work):
        _, res, T, callee, argspec = ins
        if callee[0] == 'g':
            name = callee[1]
        else:
            p = self.val(st, fr, ll.PTR, callee)
            p = self.resolve_ptr(st, fr, callee, p)
            if not (isinstance(p.o, str) and p.o.startswith('fn:')):
                self.oblige(st, 'mem', 'call through an invalid function pointer', False)
                raise PathEnd('violation')
            name = p.o[3:]
        if '__wrap_' + name in self.m.funcs and (self.o.get('inputs') is None or name in ('rand', 'rng_double_next')):
            name = '__wrap_' + name
        if name.startswith('__real_'):
            name = name[7:]
        if name in self.m.funcs:
            fn = self.m.funcs[name]
            args = []
            for (t, o, bv) in argspec:
                v = self.val(st, fr, t, o)
                if bv is not None:
                    # byval copy
                    src = self.resolve_ptr(st, fr, o, v)
                    size = self.tsize(bv)
                    dst = self.alloc(st, size, None, 'stack', 'byval')
                    self.copy(st, dst, src, size)
                    v = dst
                args.append(v)
            fr.ip += 1
            self.call_fn(st, fn, args, res)
            return
        import models
        r = models.call(self, st, fr, name, T, argspec, res)
        fr.ip += 1
        if res is not None:
            fr.regs[res] = r

    def copy(self, st, dst, src, n):
        """memcpy of concrete n with concrete or symbolic offsets"""
        if n == 0:
            return
        so = self.access_ok(st, src, n, 'read')
        self.access_ok(st, dst, n, 'write')
        if not isinstance(src.off, int) or not isinstance(dst.off, int):
            # element-wise by 1-level cells
            if not isinstance(src.off, int):
                # word-wise symbolic read: use stride granularity
                step = 8 if n % 8 == 0 and (src.off.st and src.off.st[0] % 8 == 0) else 4 if n % 4 == 0 else 1
            else:
                step = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
            for j in range(0, n, step):
                # try to keep types: find the type of candidate cells
                T = self.guess_type(st, src, j, step)
                v = self.load(st, self.ptr_add(st, src, j), T)
                self.store(st, self.ptr_add(st, dst, j), v, T)
            return
        s0 = src.off
        items = []
        # split partially covered cells
        for q in range(s0 - 15, s0):
            c = so.cells.get(q)
            if c is not None and q + c[0] > s0:
                so = st.wobj(src.o)
                self.split(so, q)
        if n > len(so.cells):
            keys = [q for q in so.cells if s0 <= q < s0 + n]
        else:
            keys = [q for q in range(s0, s0 + n) if q in so.cells]
        for q in sorted(keys):
            c = so.cells[q]
            if q + c[0] > s0 + n:
                so = st.wobj(src.o)
                self.split(so, q)
                for q2 in range(q, s0 + n):
                    items.append((q2 - s0, so.cells[q2]))
            else:
                items.append((q - s0, c))
        do = st.wobj(dst.o)
        self.clear_range(do, dst.off, n)
        covered = sum(c[0] for _, c in items)
        if so.fill is not None and so.fill != do.fill or (so.fill is None and do.fill is not None):
            # holes need explicit bytes
            have = set()
            for off, c in items:
                have.update(range(off, off + c[0]))
            j = 0
            while j < n:
                if j in have:
                    j += 1
                    continue
                if so.fill is None:
                    do.cells[dst.off + j] = (1, UNDEF)
                else:
                    do.cells[dst.off + j] = (1, so.fill)
                j += 1
        for off, c in items:
            do.cells[dst.off + off] = c

    def guess_type(self, st, src, j, step):
        o = st.mem[src.o]
        offs = [src.off + j] if isinstance(src.off, int) else [c + j for c in self.cands(st, src, step, o)]
        for q in offs[:64]:
            c = o.cells.get(q)
            if c is not None and c[0] == step:
                v = c[1]
                if isinstance(v, (Ptr, PIte)):
                    return ll.PTR
                if isinstance(v, (float, SF)):
                    return ll.F32 if step == 4 else ll.F64
        return ('i', step * 8)

    def setmem(self, st, dst, byte, n):
        if n == 0:
            return
        self.access_ok(st, dst, n, 'write')
        o = st.wobj(dst.o)
        if not isinstance(dst.off, int):
            raise VpError('memset with symbolic offset')
        if not isinstance(byte, int):
            for j in range(n):
                self.store(st, self.ptr_add(st, dst, j), byte, ll.I8)
            return
        if dst.off == 0 and n == o.size:
            o.cells = {}
            o.fill = byte
            return
        self.clear_range(o, dst.off, n)
        if o.fill == byte:
            return
        j = dst.off
        end = dst.off + n
        while j < end:
            m = 4 if j % 4 == 0 and end - j >= 4 else 1
            v = 0
            for _ in range(m):
                v = (v << 8) | byte
            o.cells[j] = (m, v)
            j += m


def isnum(c):
    if z3.is_rational_value(c) or z3.is_int_value(c):
        return True
    return z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL) and isnum(c.arg(0))


def numval(c):
    c = z3.simplify(c)
    if z3.is_int_value(c):
        return c.as_long()
    return Fraction(c.numerator_as_long(), c.denominator_as_long())


def iadd(a, b):
    if isinstance(a, float) and math.isinf(a):
        return a
    if isinstance(b, float) and math.isinf(b):
        return b
    if isinstance(a, float):
        a = Fraction(a)
    if isinstance(b, float):
        b = Fraction(b)
    return a + b


def imul(a, b):
    if a == 0 or b == 0:
        return 0
    if isinstance(a, float):
        if math.isinf(a):
            return a if b > 0 else -a
        a = Fraction(a)
    if isinstance(b, float):
        if math.isinf(b):
            return b if a > 0 else -b
        b = Fraction(b)
    return a * b


def mulb(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def divb(a, b):
    if a == 0:
        return 0.0
    try:
        return a / b
    except ZeroDivisionError:
        return math.copysign(math.inf, a) * math.copysign(1, b)
    except OverflowError:
        return math.copysign(math.inf, a)


def ispow2(x):
    x = abs(x)
    if x == 0 or math.isinf(x):
        return False
    m, e = math.frexp(x)
    return m == 0.5 and -60 < e < 60


def int2f32(x):
    # correctly rounded int -> float32
    s = -1 if x < 0 else 1
    x = abs(x)
    if x < (1 << 24):
        return float(s * x)
    sh = x.bit_length() - 24
    q, r = divmod(x, 1 << sh)
    half = 1 << (sh - 1)
    if r > half or (r == half and q & 1):
        q += 1
    return float(s * q * (1 << sh))


def f32lo(x):
    y = f32(x)
    if y > x:
        y = f32prev(y)
    return max(y, -3.4028234663852886e38)


def f32hi(x):
    y = f32(x)
    if y < x:
        y = f32next(y)
    return min(y, 3.4028234663852886e38)


def f32next(y):
    b = struct.unpack('<I', struct.pack('<f', y))[0]
    if y == 0:
        return struct.unpack('<f', struct.pack('<I', 1))[0]
    b = b + 1 if y > 0 else b - 1
    return struct.unpack('<f', struct.pack('<I', b))[0]


def f32prev(y):
    return -f32next(-y)


def vkey(v):
    if isinstance(v, (int, float)):
        return ('c', type(v).__name__, v, math.copysign(1, v) if isinstance(v, float) else 0)
    if isinstance(v, SI):
        return ('i', v.t.get_id() if v.t is not None else ('b', v.b.get_id()))
    if isinstance(v, SF):
        return ('f', v.t.get_id())
    if isinstance(v, Ptr):
        return ('p', v.o, v.off if isinstance(v.off, int) else ('s', v.off.t.get_id()))
    if isinstance(v, Undef):
        return 'undef'
    return ('o', id(v))


def frac_of(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def f2bits(fr, kind):
    if kind == 'f32':
        try:
            x = f32(float(fr))
        except OverflowError:
            x = math.inf
        return struct.unpack('<I', struct.pack('<f', x))[0]
    return struct.unpack('<Q', struct.pack('<d', float(fr)))[0]


def zval(v, kind):
    """z3 value -> bit pattern"""
    w = 32 if kind in ('f32', 'i32') else 64
    if z3.is_int_value(v):
        x = v.as_long()
        if kind in ('f32', 'f64'):
            return f2bits(Fraction(x), kind)
        return x % (1 << 64)
    if z3.is_rational_value(v) or z3.is_algebraic_value(v):
        return f2bits(frac_of(v), kind)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_fp_value(v) or z3.is_fp(v):
        b = z3.simplify(z3.fpToIEEEBV(v))
        if z3.is_bv_value(b):
            return b.as_long()
        return 0x7fc00000 if kind == 'f32' else 0x7ff8000000000000
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    raise VpError('model value %s' % v)
