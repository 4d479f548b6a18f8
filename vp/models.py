"""Models of the vp_* harness intrinsics, LLVM intrinsics, libc and libm."""
import math
import z3
import ll
import se
from se import SI, SF, Ptr, NULL, UNDEF, VpError, PathEnd, Fork, Undef, rat, nlo, nhi, f32, sgn


def cstr(e, st, p):
    """read a concrete C string"""
    if not isinstance(p, Ptr):
        return '?'
    out = bytearray()
    o = st.mem[p.o]
    off = p.off
    while off < o.size:
        v = e.load_at(st, o, off, 1, ll.I8)
        if not isinstance(v, int):
            return out.decode('latin1') + '?'
        if v == 0:
            break
        out.append(v)
        off += 1
    return out.decode('latin1')


def call(e, st, fr, name, T, argspec, res):
    def arg(i):
        return e.val(st, fr, argspec[i][0], argspec[i][1])

    def ptr(i):
        return e.resolve_ptr(st, fr, argspec[i][1], arg(i))

    def conc(i, what):
        t = argspec[i][0]
        return e.concretize(st, fr, argspec[i][1], arg(i), t[1], what)

    # ---------------- harness intrinsics
    if name in ('vp_u', 'vp_i', 'vp_u64', 'vp_i64'):
        nm = cstr(e, st, arg(0))
        w = 32 if name in ('vp_u', 'vp_i') else 64
        lo, hi = arg(1), arg(2)
        if not (isinstance(lo, int) and isinstance(hi, int)):
            raise VpError('symbolic range')
        if name in ('vp_i', 'vp_i64'):
            lo, hi = sgn(lo, w), sgn(hi, w)
        pin = e.o.get('inputs')
        if pin is not None:
            v = pin[len(st.inputs)] % (1 << w)
            st.inputs.append((nm, 'i%d' % w, v))
            return v
        if lo == hi:
            st.inputs.append((nm, 'i%d' % w, lo % (1 << w)))
            return lo % (1 << w)
        n = 'in%d_%s' % (len(st.inputs), nm)
        if e.intm:
            t = z3.Int(n)
            st.pc.append(z3.And(t >= lo, t <= hi))
            e.vb(t, lo, hi)
            st.inputs.append((nm, 'i%d' % w, t))
            return SI(w, t, lo, hi)
        t = z3.BitVec(n, w)
        if name in ('vp_u', 'vp_u64'):
            st.pc.append(z3.And(z3.UGE(t, lo), z3.ULE(t, hi)))
        else:
            st.pc.append(z3.And(t >= lo, t <= hi))
        st.inputs.append((nm, 'i%d' % w, t))
        # unsigned interval knowledge is used to enumerate addresses
        return SI(w, t)
    if name in ('vp_f', 'vp_d'):
        nm = cstr(e, st, arg(0))
        k = 'f32' if name == 'vp_f' else 'f64'
        lo, hi = arg(1), arg(2)
        pin = e.o.get('inputs')
        if pin is not None:
            import struct
            b = pin[len(st.inputs)]
            v = struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0] if k == 'f32' else \
                struct.unpack('<d', struct.pack('<Q', b & (2**64 - 1)))[0]
            st.inputs.append((nm, k, v))
            return v
        if lo == hi:
            st.inputs.append((nm, k, lo))
            return lo
        n = 'in%d_%s' % (len(st.inputs), nm)
        if e.fpm:
            t = z3.FP(n, z3.Float32() if k == 'f32' else z3.Float64())
            st.pc.append(z3.And(z3.fpLEQ(e.fpc(lo, k), t), z3.fpLEQ(t, e.fpc(hi, k))))
            st.inputs.append((nm, k, t))
            return SF(k, t)
        t = z3.Real(n)
        st.pc.append(z3.And(t >= rat(lo), t <= rat(hi)))
        import fractions
        e.vb(t, fractions.Fraction(lo), fractions.Fraction(hi))
        st.inputs.append((nm, k, t))
        return SF(k, t, lo, hi)
    if name == 'vp_nd_f':
        return e.fresh_float(st, 'f32', 'nd', arg(0), arg(1))
    if name == 'vp_any_f':
        # any bit pattern, including NaN and infinities (fp theory only)
        nm = cstr(e, st, arg(0))
        pin = e.o.get('inputs')
        if pin is not None:
            import struct
            v = struct.unpack('<f', struct.pack('<I', pin[len(st.inputs)] & 0xffffffff))[0]
            st.inputs.append((nm, 'f32', v))
            return v
        if not e.fpm:
            raise VpError('vp_any_f needs fp theory')
        t = z3.FP('in%d_%s' % (len(st.inputs), nm), z3.Float32())
        st.inputs.append((nm, 'f32', t))
        return SF('f32', t)
    if name == 'vp_choice':
        nm = cstr(e, st, arg(0))
        n = arg(1)
        if isinstance(n, SI):
            n = conc(1, 'choice bound')
        pin = e.o.get('inputs')
        if pin is not None:
            v = pin[len(st.inputs)]
            st.inputs.append((nm, 'i32', v))
            return v
        pv = (e.o['pin'] or {}).get(nm)
        if pv is not None:
            st.inputs.append((nm, 'i32', pv % n))
            return pv % n
        alts = []
        for v in range(n):
            def fn(s, v=v):
                f = s.frames[-1]
                f.regs[res] = v
                f.ip += 1
                s.inputs.append((nm, 'i32', v))
            alts.append((None, fn))
        raise Fork(alts)
    if name == 'vp_conc':
        return conc(0, 'vp_conc')
    if name == 'vp_assume':
        c = arg(0)
        if isinstance(c, int):
            if not c:
                raise PathEnd('assume')
            return None
        b = z3.simplify(e.tob(e.icmp(st, 'ne', ll.I32, c, 0)))
        if z3.is_true(b):
            return None
        if z3.is_false(b) or not e.feasible(st, b):
            raise PathEnd('assume')
        st.pc.append(b)
        return None
    if name == 'vp_assert':
        c = arg(0)
        msg = cstr(e, st, arg(1))
        if isinstance(c, int):
            e.oblige(st, 'assert', msg, bool(c))
            if not c:
                raise PathEnd('violation')
            return None
        b = e.tob(e.icmp(st, 'ne', ll.I32, c, 0))
        e.oblige(st, 'assert', msg, b)
        return None
    if name == 'vp_reach':
        st.reach.append(cstr(e, st, arg(0)))
        return None
    if name in ('vp_obs_u', 'vp_obs_f'):
        st.obs.append((cstr(e, st, arg(0)), arg(1)))
        return None
    if name == 'vp_no_leak':
        leaked = [o for o in st.mem.values() if o.kind == 'heap' and o.alive]
        e.oblige(st, 'assert', 'all heap memory released (%s)' % cstr(e, st, arg(0)), not leaked)
        if leaked:
            raise PathEnd('violation')
        return None
    if name == 'vp_fail_alloc':
        st.memo['failn'] = conc(0, 'vp_fail_alloc')
        return None
    if name == 'vp_heap_objects':
        return len([o for o in st.mem.values() if o.kind == 'heap' and o.alive])
    if name == 'vp_alive':
        p = ptr(0)
        o = st.mem.get(p.o) if not isinstance(p.o, str) else None
        return int(o is not None and o.alive)
    if name == 'vp_exit':
        raise PathEnd('done')

    # ---------------- llvm intrinsics
    if name.startswith('llvm.'):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d, s = ptr(0), ptr(1)
            n = conc(2, 'memcpy length')
            e.copy(st, Ptr(d.o, d.off), Ptr(s.o, s.off), n)
            return None
        if name.startswith('llvm.memset'):
            d = ptr(0)
            n = conc(2, 'memset length')
            e.setmem(st, Ptr(d.o, d.off), arg(1), n)
            return None
        base = name.split('.')[1]
        if base in ('smax', 'smin', 'umax', 'umin'):
            a, b = arg(0), arg(1)
            pred = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[base]
            c = e.icmp(st, pred, argspec[0][0], a, b)
            return (a if c else b) if isinstance(c, int) else e.ite(st, e.tob(c), a, b, argspec[0][0])
        if base == 'abs':
            a = arg(0)
            w = argspec[0][0][1]
            c = e.icmp(st, 'slt', argspec[0][0], a, 0)
            n = e.binop(st, 'sub', w, 0, a, ())
            return (n if c else a) if isinstance(c, int) else e.ite(st, e.tob(c), n, a, argspec[0][0])
        if base in ('fabs', 'floor', 'ceil', 'sqrt', 'trunc', 'round', 'rint', 'copysign'):
            k = T[0]
            return libm(e, st, base + ('f' if k == 'f32' else ''), [arg(i) for i in range(len(argspec))], T)
        if base == 'fmuladd':
            k = T[0]
            return e.fbin(st, 'fadd', k, e.fbin(st, 'fmul', k, arg(0), arg(1)), arg(2))
        if name.startswith('llvm.is.fpclass'):
            return fpclass(e, st, arg(0), argspec[0][0][0], arg(1))
        if base in ('trap', 'debugtrap'):
            e.oblige(st, 'trap', 'trap reached', False)
            raise PathEnd('violation')
        if base in ('lifetime', 'assume', 'dbg', 'experimental', 'va_start', 'va_end', 'prefetch', 'stackrestore'):
            return None
        if base == 'stacksave':
            return NULL
        if base == 'expect':
            return arg(0)
        raise VpError('intrinsic ' + name)

    # ---------------- libc
    if name == '__assert_fail':
        msg = cstr(e, st, arg(0))
        e.oblige(st, 'abort', 'assert(%s) in the library' % msg, False)
        raise PathEnd('violation')
    if name == 'abort':
        e.oblige(st, 'abort', 'abort() in the library', False)
        raise PathEnd('violation')
    if name in ('exit', '_exit'):
        raise PathEnd('exit')
    if name in ('malloc', 'calloc', 'realloc', 'g_malloc', 'g_malloc0', 'reallocarray'):
        if name == 'calloc' or name == 'reallocarray':
            i0 = 0 if name == 'calloc' else 1
            n = conc(i0, 'calloc') * conc(i0 + 1, 'calloc')
        elif name == 'realloc':
            n = conc(1, 'realloc size')
        else:
            n = conc(0, 'malloc size')
        fn = st.memo.get('failn', 0)
        if fn:
            st.memo['failn'] = fn - 1
            if fn == 1:
                return NULL
        if n > (1 << 31):
            # a request this large cannot be satisfied in the model
            return NULL
        if name == 'realloc':
            p = ptr(0)
            q = e.alloc(st, n, None, 'heap', 'realloc')
            if p.o != 0:
                o = check_free(e, st, p, 'realloc')
                e.copy(st, q, p, min(n, o.size))
                w = st.wobj(p.o)
                w.alive = False
            return q
        p = e.alloc(st, n, 0 if name in ('calloc', 'g_malloc0') else None, 'heap', '%s@%s' % (name, fr.fn.name))
        return p
    if name in ('free', 'g_free'):
        p = ptr(0)
        if p.o == 0:
            return None
        check_free(e, st, p, 'free')
        w = st.wobj(p.o)
        w.alive = False
        w.cells = {}
        return None
    if name in ('memcpy', 'memmove', '__memcpy_chk'):
        d, s = ptr(0), ptr(1)
        n = conc(2, 'memcpy length')
        if n:
            e.copy(st, Ptr(d.o, d.off), Ptr(s.o, s.off), n)
        return d
    if name in ('memset', '__memset_chk'):
        d = ptr(0)
        n = conc(2, 'memset length')
        b = arg(1)
        if isinstance(b, int):
            b &= 255
        else:
            b = e.cast(st, 'trunc', ll.I32, b, ll.I8)
        e.setmem(st, Ptr(d.o, d.off), b, n)
        return d
    if name in ('printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fflush', 'perror', 'vfprintf', 'fwrite', 'fputc',
                '__printf_chk', '__fprintf_chk'):
        return 0 if T[0] == 'i' else None
    if name in ('strcmp', 'strncmp'):
        return strcmp(e, st, fr, arg(0), arg(1), conc(2, 'strncmp') if name == 'strncmp' else 1 << 20)
    if name in ('memcmp', 'bcmp'):
        n = conc(2, 'memcmp length')
        a, b = ptr(0), ptr(1)
        res, rows, i = 0, [], 0
        while i < n:
            x, y, step = None, None, 1
            if n - i >= 4:
                try:
                    x, y, step = e.load(st, e.ptr_add(st, a, i), ll.I32), e.load(st, e.ptr_add(st, b, i), ll.I32), 4
                except VpError:
                    x = None
            if x is None:
                x, y, step = e.load(st, e.ptr_add(st, a, i), ll.I8), e.load(st, e.ptr_add(st, b, i), ll.I8), 1
            rows.append((x, y, step))
            i += step
        eq = z3.BoolVal(True)
        for x, y, step in rows:
            c = e.icmp(st, 'eq', ll.I32 if step == 4 else ll.I8, x, y)
            if isinstance(c, int):
                if not c:
                    eq = z3.BoolVal(False)
            else:
                eq = z3.And(eq, e.tob(c))
        eq = z3.simplify(eq)
        if z3.is_true(eq):
            return 0
        if z3.is_false(eq):
            return 1        # the sign is not modelled
        return e.ite(st, eq, 0, 1, ll.I32)
    if name == 'strlen':
        return len(cstr(e, st, ptr(0)))
    if name in ('rand', 'random'):
        lo, hi = 0, 2147483647
        n = 'in%d_rand' % len(st.inputs)
        pin = e.o.get('inputs')
        if pin is not None:
            v = pin[len(st.inputs)]
            st.inputs.append(('rand', 'i32', v))
            return v
        raise VpError('rand must be wrapped by the harness')
    if name == 'abs':
        a = arg(0)
        c = e.icmp(st, 'slt', ll.I32, a, 0)
        n = e.binop(st, 'sub', 32, 0, a, ())
        return (n if c else a) if isinstance(c, int) else e.ite(st, e.tob(c), n, a, ll.I32)
    if name in LIBM:
        return libm(e, st, name, [arg(i) for i in range(len(argspec))], T)
    raise VpError('call to unmodelled function ' + name)


def check_free(e, st, p, what):
    o = st.mem.get(p.o) if not isinstance(p.o, str) else None
    if o is None or not o.alive or o.kind != 'heap' or not (isinstance(p.off, int) and p.off == 0):
        e.oblige(st, 'mem', 'invalid or double %s' % what, False)
        raise PathEnd('violation')
    return o


def strcmp(e, st, fr, a, b, n):
    i = 0
    while i < n:
        x = e.load(st, e.ptr_add(st, a, i), ll.I8)
        y = e.load(st, e.ptr_add(st, b, i), ll.I8)
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return (x - y) & 0xffffffff
            if x == 0:
                return 0
            i += 1
            continue
        # symbolic strings: nested ite
        return symcmp(e, st, a, b, i, n)
    return 0


def symcmp(e, st, a, b, i, n):
    """difference at the first differing position (bounded by the concrete string's terminator)"""
    rows = []
    while i < n:
        x = e.load(st, e.ptr_add(st, a, i), ll.I8)
        y = e.load(st, e.ptr_add(st, b, i), ll.I8)
        rows.append((x, y))
        i += 1
        if isinstance(x, int) and x == 0 or isinstance(y, int) and y == 0:
            break
    res = 0
    for x, y in reversed(rows):
        d = e.binop(st, 'sub', 32, e.zext(st, x, 8, 32), e.zext(st, y, 8, 32), ())
        ne = e.icmp(st, 'ne', ll.I8, x, y)
        xz = e.icmp(st, 'eq', ll.I8, x, 0)
        inner = res
        # if x==0 (and equal): 0
        if isinstance(xz, int):
            inner = 0 if xz else inner
        else:
            inner = e.ite(st, e.tob(xz), 0, inner, ll.I32)
        if isinstance(ne, int):
            res = d if ne else inner
        else:
            res = e.ite(st, e.tob(ne), d, inner, ll.I32)
    return res


def fpclass(e, st, v, k, mask):
    if isinstance(v, float):
        m = 0
        if math.isnan(v):
            m = 3
        elif math.isinf(v):
            m = 512 if v > 0 else 4
        elif v == 0:
            m = 64 if math.copysign(1, v) > 0 else 32
        else:
            m = 256 if v > 0 else 8
        return int(bool(m & mask))
    if e.fpm:
        cs = []
        if mask & 3:
            cs.append(z3.fpIsNaN(v.t))
        if mask & 512:
            cs.append(z3.And(z3.fpIsInf(v.t), z3.fpIsPositive(v.t)))
        if mask & 4:
            cs.append(z3.And(z3.fpIsInf(v.t), z3.fpIsNegative(v.t)))
        fin = mask & 0x1f8
        if fin == 0x1f8:
            cs.append(z3.Not(z3.Or(z3.fpIsInf(v.t), z3.fpIsNaN(v.t))))
        elif fin:
            raise VpError('fpclass mask')
        return e.mkb(z3.Or(cs)) if cs else 0
    # real arithmetic: finite, not nan
    fin = mask & 0x1f8
    if fin == 0x1f8:
        return 1
    if fin == 0:
        return 0
    raise VpError('fpclass mask real')


LIBM = {'floor', 'floorf', 'ceil', 'ceilf', 'fabs', 'fabsf', 'sqrt', 'sqrtf', 'sin', 'sinf', 'cos', 'cosf', 'exp',
        'expf', 'log', 'logf', 'pow', 'powf', 'atan2', 'atan2f', 'fmod', 'fmodf', 'hypot', 'hypotf', 'round',
        'roundf', 'trunc', 'truncf', 'rint', 'rintf', 'copysign', 'copysignf', 'fmax', 'fmin', 'fmaxf', 'fminf',
        'atan', 'atanf', 'acos', 'acosf', 'exp2', 'exp2f', 'log2', 'log2f', 'cbrt', 'lround', 'lroundf', 'isnan'}


def libm(e, st, name, args, T):
    return e.memoised(st, ('libm', name, T), args, lambda: libm_(e, st, name, args, T))


def libm_(e, st, name, args, T):
    k = T[0]
    base = name[:-1] if name.endswith('f') and name not in ('fmaxf_', 'erf') and k == 'f32' else name
    if any(isinstance(a, Undef) for a in args):
        args = [e.fresh_float(st, k, 'undef') if isinstance(a, Undef) else a for a in args]
    if all(isinstance(a, float) for a in args):
        r = cmath(base, args)
        return f32(r) if k == 'f32' else r
    if e.fpm:
        return fp_libm(e, st, base, args, k)
    for a in args:
        if isinstance(a, float) and (math.isnan(a) or math.isinf(a)):
            raise VpError('non-finite argument to ' + name)
    xs = [e.sf(a, k) for a in args]
    x = xs[0]
    if base == 'fabs':
        if x.lo >= 0:
            return x
        if x.hi <= 0:
            return SF(k, -x.t, -x.hi, -x.lo, x.isint)
        key = ('fabs', x.t.get_id())
        return SF(k, z3.If(x.t >= 0, x.t, -x.t), 0.0, max(-x.lo, x.hi), x.isint)
    if base in ('floor', 'ceil', 'trunc', 'round', 'rint'):
        if x.isint:
            return x
        if base == 'floor':
            n, lo, hi, _ = e.floor_int(st, x)
            return SF(k, z3.ToReal(n), float(lo), float(hi), True)
        if base == 'ceil':
            n, lo, hi, _ = e.floor_int(st, SF(k, -x.t, -x.hi, -x.lo))
            return SF(k, z3.ToReal(-n), float(-hi), float(-lo), True)
        if base == 'round':
            # half away from zero
            n = e.fresh('rnd', 'zint')
            nr = z3.ToReal(n)
            st.pc.append(z3.If(x.t >= 0, z3.And(nr <= x.t + rat(0.5), x.t + rat(0.5) < nr + 1),
                               z3.And(nr >= x.t - rat(0.5), x.t - rat(0.5) > nr - 1)))
            return SF(k, nr, float(math.floor(x.lo)), float(math.ceil(x.hi)), True)
        raise VpError(name)
    if base == 'sqrt':
        if x.lo < 0:
            e.oblige(st, 'domain', 'sqrt of a negative number', x.t >= 0)
        key = ('sqrt', x.t.get_id())
        if key in st.memo:
            return st.memo[key][0]
        r = e.fresh('sqrt', 'real')
        st.pc.append(z3.And(r >= 0, r * r == x.t))
        lo, hi = max(0.0, nlo(math.sqrt(max(0.0, x.lo)))), nhi(math.sqrt(max(x.hi, 0.0)))
        if math.isfinite(hi):
            st.pc.append(z3.And(r >= rat(lo), r <= rat(hi)))
        out = e.round(st, r, lo, hi, k)
        st.memo[key] = (out, x)
        return out
    if base == 'hypot':
        y = xs[1]
        r = e.fresh('hyp', 'real')
        mx = math.hypot(max(abs(x.lo), abs(x.hi)), max(abs(y.lo), abs(y.hi)))
        st.pc.append(z3.And(r >= 0, r * r == x.t * x.t + y.t * y.t))
        return e.round(st, r, 0.0, nhi(mx), k)
    if base in ('sin', 'cos'):
        key = ('trig', x.t.get_id())
        if key not in st.memo:
            s, c = e.fresh('sin', 'real'), e.fresh('cos', 'real')
            st.pc.append(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1))
            if e.o.get('trig_rel'):
                pass
            so = e.round(st, s, -1.0, 1.0, k)
            co = e.round(st, c, -1.0, 1.0, k)
            st.memo[key] = (so, co, x)
        return st.memo[key][0 if base == 'sin' else 1]
    if base == 'exp':
        lo = max(0.0, nlo(math.exp(x.lo)) * (1 - 1e-6)) if x.lo > -700 else 0.0
        hi = nhi(math.exp(x.hi)) * (1 + 1e-6) if x.hi < 700 else math.inf
        r = e.fresh('exp', 'real')
        st.pc.append(r > 0)
        if math.isinf(hi):
            e.oblige(st, 'fovf', 'exp overflow', x.t <= rat(88.0 if k == 'f32' else 700.0))
            hi = 3.4e38 if k == 'f32' else 1e304
        mx = 3.4028234663852886e38
        if k == 'f32' and hi > mx:
            e.oblige(st, 'fovf', 'exp overflow', x.t <= rat(88.7))
            hi = mx
        if k == 'f32':
            lo = se.f32lo(lo)
            hi = se.f32hi(hi)
        st.pc.append(z3.And(r >= rat(lo), r <= rat(hi)))
        # exp(x) >= 1 + x ; monotone around 0
        if hi < 1e30:
            st.pc.append(r * (1 + rat(2.0 ** -20)) >= 1 + x.t)
        st.pc.append(z3.Implies(x.t <= 0, r <= 1))
        st.pc.append(z3.Implies(x.t >= 0, r >= 1))
        return SF(k, r, lo, hi)
    if base == 'log':
        if x.lo <= 0:
            e.oblige(st, 'domain', 'log of a non-positive number', x.t > 0)
        tiny = 1e-45 if k == 'f32' else 5e-324
        lo = nlo(math.log(max(x.lo, tiny))) - 1e-5
        hi = nhi(math.log(max(x.hi, tiny))) + 1e-5
        r = e.fresh('log', 'real')
        if k == 'f32':
            lo, hi = se.f32lo(lo), se.f32hi(hi)
        st.pc.append(z3.And(r >= rat(lo), r <= rat(hi)))
        st.pc.append(r <= (x.t - 1) + rat(1e-4))
        st.pc.append(z3.Implies(x.t <= 1, r <= 0))
        st.pc.append(z3.Implies(x.t >= 1, r >= 0))
        return SF(k, r, lo, hi)
    if base == 'pow':
        y = xs[1]
        r = e.fresh('pow', 'real')
        if x.lo >= 0 and y.lo > 0:
            xl = x.lo
        elif x.lo <= 0:
            e.oblige(st, 'domain', 'pow of a non-positive base', x.t > 0)
            xl = 1e-45
        else:
            xl = x.lo
        cs = []
        for a in (xl, x.hi):
            for b in (y.lo, y.hi):
                try:
                    cs.append(math.pow(a, b))
                except OverflowError:
                    cs.append(math.inf)
        if xl < 1 < x.hi or y.lo < 0 < y.hi:
            cs.append(1.0)
        lo, hi = min(cs) * (1 - 1e-6), max(cs) * (1 + 1e-6)
        if math.isinf(hi) or (k == 'f32' and hi > 3.4e38):
            hi = 3.4028234663852886e38 if k == 'f32' else 1e304
            st.notes.append('pow overflow ignored')
        if k == 'f32':
            lo, hi = max(0.0, se.f32lo(lo)), se.f32hi(hi)
        st.pc.append(z3.And(r >= rat(lo), r <= rat(hi)))
        if x.lo >= 0 and y.lo > 0:
            up, dn = 1 + rat(2.0 ** -20), 1 - rat(2.0 ** -20)
            ax = [z3.Implies(x.t <= 0, r == 0), z3.Implies(x.t >= 1, r >= 1), z3.Implies(x.t <= 1, r <= 1)]
            if y.hi <= 1:
                ax += [z3.Implies(x.t <= 1, r >= x.t * dn), z3.Implies(x.t >= 1, r <= x.t * up)]
            if y.lo >= 1:
                ax += [z3.Implies(x.t <= 1, r <= x.t * up), z3.Implies(x.t >= 1, r >= x.t * dn)]
            st.pc.append(z3.And(ax))
        return SF(k, r, lo, hi)
    if base in ('atan2', 'atan', 'acos'):
        r = e.fresh(base, 'real')
        lo, hi = {'atan2': (-math.pi, math.pi), 'atan': (-1.5707964, 1.5707964), 'acos': (0.0, math.pi)}[base]
        if k == 'f32':
            lo, hi = se.f32lo(lo), se.f32hi(hi)
        st.pc.append(z3.And(r >= rat(lo), r <= rat(hi)))
        return SF(k, r, lo, hi)
    if base == 'fmod':
        y = xs[1]
        r = e.fresh('fmod', 'real')
        n = e.fresh('fq', 'zint')
        e.oblige(st, 'domain', 'fmod by zero', y.t != 0)
        ay = z3.If(y.t >= 0, y.t, -y.t)
        st.pc.append(x.t == r + z3.ToReal(n) * y.t)
        st.pc.append(z3.And(r < ay, r > -ay, z3.Implies(x.t >= 0, r >= 0), z3.Implies(x.t <= 0, r <= 0)))
        m = max(abs(y.lo), abs(y.hi))
        m = min(m, max(abs(x.lo), abs(x.hi)))
        return SF(k, r, 0.0 if x.lo >= 0 else -m, 0.0 if x.hi <= 0 else m)
    if base in ('fmax', 'fmin'):
        y = xs[1]
        c = x.t >= y.t if base == 'fmax' else x.t <= y.t
        f = max if base == 'fmax' else min
        return SF(k, z3.If(c, x.t, y.t), f(x.lo, y.lo), f(x.hi, y.hi))
    if base == 'copysign' and isinstance(args[1], float):
        v = z3.If(x.t >= 0, x.t, -x.t)
        m = max(abs(x.lo), abs(x.hi))
        if args[1] < 0:
            return SF(k, -v, -m, 0.0)
        return SF(k, v, 0.0, m)
    raise VpError('libm ' + name)


def cmath(base, a):
    x = a[0]
    try:
        if base == 'fabs':
            return abs(x)
        if base in ('floor', 'ceil', 'trunc'):
            if math.isnan(x) or math.isinf(x):
                return x
            return float(getattr(math, base)(x))
        if base == 'round':
            if math.isnan(x) or math.isinf(x):
                return x
            return math.copysign(math.floor(abs(x) + 0.5) if abs(x) < 2 ** 52 and (abs(x) - math.floor(abs(x))) != 0.49999999999999994 else
                                 (math.floor(abs(x)) if abs(x) < 2 ** 52 else abs(x)), x)
        if base == 'rint':
            return float(round(x))
        if base == 'sqrt':
            return math.sqrt(x) if x >= 0 else math.nan
        if base in ('sin', 'cos'):
            return getattr(math, base)(x) if math.isfinite(x) else math.nan
        if base == 'exp':
            return math.exp(x)
        if base == 'log':
            return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if base == 'pow':
            return math.pow(x, a[1])
        if base == 'atan2':
            return math.atan2(x, a[1])
        if base in ('atan', 'acos'):
            return getattr(math, base)(x)
        if base == 'fmod':
            return math.fmod(x, a[1]) if a[1] != 0 and math.isfinite(x) else math.nan
        if base == 'hypot':
            return math.hypot(x, a[1])
        if base == 'fmax':
            return max(x, a[1])
        if base == 'fmin':
            return min(x, a[1])
        if base == 'copysign':
            return math.copysign(x, a[1])
        if base == 'exp2':
            return 2.0 ** x
        if base == 'log2':
            return math.log2(x)
    except OverflowError:
        return math.inf
    except ValueError:
        return math.nan
    raise VpError('cmath ' + base)


def fp_libm(e, st, base, args, k):
    xs = [e.ft(a, k) for a in args]
    x = xs[0]
    if base == 'fabs':
        return SF(k, z3.fpAbs(x))
    if base == 'floor':
        return SF(k, z3.fpRoundToIntegral(z3.RTN(), x))
    if base == 'ceil':
        return SF(k, z3.fpRoundToIntegral(z3.RTP(), x))
    if base == 'trunc':
        return SF(k, z3.fpRoundToIntegral(z3.RTZ(), x))
    if base == 'round':
        return SF(k, z3.fpRoundToIntegral(z3.RNA(), x))
    if base == 'sqrt':
        return SF(k, z3.fpSqrt(z3.RNE(), x))
    if base == 'fmax':
        return SF(k, z3.fpMax(x, xs[1]))
    if base == 'fmin':
        return SF(k, z3.fpMin(x, xs[1]))
    if base in ('sin', 'cos'):
        return e.fresh_float(st, k, base, -1.0, 1.0)
    # documented contract only: an arbitrary value
    e.fresh_n += 1
    v = z3.FP('%s!%d' % (base, e.fresh_n), z3.Float32() if k == 'f32' else z3.Float64())
    if base in ('exp',):
        st.pc.append(z3.Or(z3.fpIsNaN(x), z3.fpGEQ(v, z3.FPVal(0.0, v.sort()))))
    return SF(k, v)
