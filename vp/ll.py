"""Parser for the subset of textual LLVM 18 IR that clang emits for C code.

Types are Python objects: ('i',w) ('f32',) ('f64',) ('ptr',) ('void',)
('arr',n,T) ('st',[T..],packed) ('label',) ; named structs are resolved.
Operands are ('c',value) constants, ('r',name) registers, ('g',name) globals,
('ce',...) constant expressions, ('undef',), ('zero',T), ('agg',[(T,op)..]),
('str',bytes).
"""
import re

TOK = re.compile(r'''\s*(?:
   (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glo>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!\d+|!\{|!"[^"]*"|![a-zA-Z.]+)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[-+]?\d+)?)?)
 | (?P<ell>\.\.\.)
 | (?P<id>[a-zA-Z_$.][a-zA-Z_$.0-9]*)
 | (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)


class ParseError(Exception):
    pass


class Lex:
    def __init__(self, s):
        self.toks = []
        i = 0
        n = len(s)
        while i < n:
            m = TOK.match(s, i)
            if not m:
                if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                    break
                raise ParseError('lex: ' + s[i:i + 60])
            self.toks.append((m.lastgroup, m.group(m.lastgroup)))
            i = m.end()
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else ('eof', '')

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('p', 'id', 'ell'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        t = self.next()
        if t[1] != v:
            raise ParseError('expected %r got %r in %r' % (v, t, self.toks))


I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
F32 = ('f32',)
F64 = ('f64',)
PTR = ('ptr',)
VOID = ('void',)

PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'inreg', 'nocapture', 'readonly', 'writeonly', 'nonnull',
               'noalias', 'returned', 'immarg', 'readnone', 'nofree', 'nest', 'swiftself', 'allocptr',
               'allocalign', 'dead_on_unwind', 'writable'}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'inalloca',
                 'byref', 'preallocated', 'nofpclass', 'captures', 'range'}


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'vararg', 'internal', 'byval')


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()

    # ---- layout
    def sizeof(self, T):
        return self._lay(T)[0]

    def alignof(self, T):
        return self._lay(T)[1]

    def _lay(self, T):
        k = T[0]
        if k == 'i':
            b = max(1, (T[1] + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return (p, min(p, 16))
        if k == 'f32':
            return (4, 4)
        if k == 'f64':
            return (8, 8)
        if k == 'x87':
            return (16, 16)
        if k == 'ptr':
            return (8, 8)
        if k == 'arr':
            s, a = self._lay(T[2])
            return (s * T[1], a)
        if k == 'vec':
            s, a = self._lay(T[2])
            return (s * T[1], s * T[1])
        if k == 'named':
            return self._lay(self.types[T[1]])
        if k == 'st':
            off = 0
            al = 1
            for f in T[1]:
                s, a = self._lay(f)
                if T[2]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al)
        raise ParseError('sizeof %r' % (T,))

    def resolve(self, T):
        while T[0] == 'named':
            T = self.types[T[1]]
        return T

    def field_off(self, T, idx):
        T = self.resolve(T)
        off = 0
        for j, f in enumerate(T[1]):
            s, a = self._lay(f)
            if T[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == idx:
                return off, f
            off += s
        raise ParseError('field')


class Parser:
    def __init__(self, text):
        self.m = Module()
        self.lines = text.split('\n')

    # ---- types
    def ptype(self, lx):
        k, v = lx.next()
        if k == 'id':
            if v == 'void':
                T = VOID
            elif v == 'float':
                T = F32
            elif v == 'double':
                T = F64
            elif v == 'x86_fp80':
                T = ('x87',)
            elif v == 'ptr':
                T = PTR
            elif v == 'label':
                T = ('label',)
            elif v == 'metadata':
                T = ('metadata',)
            elif v == 'opaque':
                T = ('st', [], False)
            elif re.match(r'i\d+$', v):
                T = ('i', int(v[1:]))
            else:
                raise ParseError('type %r' % v)
        elif v == '[':
            n = int(lx.next()[1])
            lx.expect('x')
            e = self.ptype(lx)
            lx.expect(']')
            T = ('arr', n, e)
        elif v == '{':
            fs = []
            if not lx.accept('}'):
                while True:
                    fs.append(self.ptype(lx))
                    if lx.accept('}'):
                        break
                    lx.expect(',')
            T = ('st', fs, False)
        elif v == '<':
            if lx.peek()[1] == '{':
                lx.next()
                fs = []
                if not lx.accept('}'):
                    while True:
                        fs.append(self.ptype(lx))
                        if lx.accept('}'):
                            break
                        lx.expect(',')
                lx.expect('>')
                T = ('st', fs, True)
            else:
                n = int(lx.next()[1])
                lx.expect('x')
                e = self.ptype(lx)
                lx.expect('>')
                T = ('vec', n, e)
        elif k == 'loc':
            T = ('named', v[1:].strip('"'))
        else:
            raise ParseError('type tok %r' % ((k, v),))
        # function type suffix: T (args)
        if lx.peek()[1] == '(' and lx.peek()[0] == 'p' and getattr(self, 'fnsuffix', False):
            d = 0
            while True:
                t = lx.next()
                if t[1] == '(':
                    d += 1
                elif t[1] == ')':
                    d -= 1
                    if d == 0:
                        break
            if lx.peek()[1] == '*':
                lx.next()
        return T

    # ---- values
    def pval(self, lx, T):
        k, v = lx.next()
        if k == 'loc':
            return ('r', v[1:].strip('"'))
        if k == 'glo':
            return ('g', v[1:].strip('"'))
        if k == 'num':
            if T[0] in ('f32', 'f64'):
                return ('c', float(v))
            return ('c', int(v))
        if k == 'hex':
            import struct
            if T[0] in ('f32', 'f64'):
                return ('c', struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0])
            if T[0] == 'x87':
                return ('undef',)
            return ('c', int(v, 16))
        if k == 'cstr':
            return ('str', self.unesc(v[2:-1]))
        if k == 'id':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero', T)
            if v == 'getelementptr':
                while lx.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                    lx.next()
                if lx.peek()[1] == 'inrange':
                    lx.next()
                    self.skip_paren(lx)
                lx.expect('(')
                bt = self.ptype(lx)
                lx.expect(',')
                ops = []
                while True:
                    if lx.peek()[1] == 'inrange':
                        lx.next()
                    t = self.ptype(lx)
                    ops.append((t, self.pval(lx, t)))
                    if lx.accept(')'):
                        break
                    lx.expect(',')
                return ('ce', 'gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                lx.expect('(')
                t = self.ptype(lx)
                o = self.pval(lx, t)
                lx.expect('to')
                t2 = self.ptype(lx)
                lx.expect(')')
                return ('ce', v, t, o, t2)
            if v in ('add', 'sub', 'mul'):
                while lx.peek()[1] in ('nsw', 'nuw'):
                    lx.next()
                lx.expect('(')
                t = self.ptype(lx)
                a = self.pval(lx, t)
                lx.expect(',')
                self.ptype(lx)
                b = self.pval(lx, t)
                lx.expect(')')
                return ('ce', v, t, a, b)
            raise ParseError('value id %r' % v)
        if k == 'meta':
            # metadata operand: skip
            if v.endswith('{'):
                d = 1
                while d:
                    t = lx.next()[1]
                    if t.endswith('{'):
                        d += 1
                    elif t == '}':
                        d -= 1
            return ('undef',)
        if v in '[{<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and lx.peek()[1] == '{':
                lx.next()
                xs = []
                if not lx.accept('}'):
                    while True:
                        t = self.ptype(lx)
                        xs.append((t, self.pval(lx, t)))
                        if lx.accept('}'):
                            break
                        lx.expect(',')
                lx.expect('>')
                return ('agg', xs)
            xs = []
            if not lx.accept(close):
                while True:
                    t = self.ptype(lx)
                    xs.append((t, self.pval(lx, t)))
                    if lx.accept(close):
                        break
                    lx.expect(',')
            return ('agg', xs)
        raise ParseError('value %r' % ((k, v),))

    @staticmethod
    def unesc(s):
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                out += s[i].encode('utf8')
                i += 1
        return bytes(out)

    def skip_paren(self, lx):
        d = 0
        while True:
            t = lx.next()[1]
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1
                if d == 0:
                    return
            elif t == '':
                raise ParseError('paren')

    def skip_attrs(self, lx):
        """returns byval type or None"""
        bv = None
        while True:
            k, v = lx.peek()
            if k == 'id' and v in PARAM_ATTRS:
                lx.next()
            elif k == 'id' and v in PARAM_ATTRS_P:
                lx.next()
                if lx.peek()[1] == '(':
                    if v in ('byval', 'sret'):
                        lx.next()
                        t = self.ptype(lx)
                        lx.expect(')')
                        if v == 'byval':
                            bv = t
                    else:
                        self.skip_paren(lx)
                else:
                    lx.next()
            else:
                return bv

    # ---- module
    def parse(self):
        L = self.lines
        i = 0
        n = len(L)
        while i < n:
            s = L[i]
            if not s or s[0] in ';!' or s.startswith('source_filename') or s.startswith('target') \
                    or s.startswith('attributes') or s.startswith('module asm') or s.startswith('$'):
                i += 1
                continue
            if s[0] == '%':
                nm, rest = s.split(' = type ', 1)
                lx = Lex(rest)
                self.m.types[nm[1:].strip('"')] = self.ptype(lx)
                i += 1
                continue
            if s[0] == '@':
                self.pglobal(s)
                i += 1
                continue
            if s.startswith('declare'):
                mm = re.search(r'@([-\w.$]+|"[^"]*")\s*\(', s)
                self.m.decls.add(mm.group(1).strip('"'))
                i += 1
                continue
            if s.startswith('define'):
                body = []
                j = i + 1
                while L[j] != '}':
                    body.append(L[j])
                    j += 1
                self.pfunc(s, body)
                i = j + 1
                continue
            raise ParseError('toplevel: ' + s[:80])
        return self.m

    def pglobal(self, s):
        mm = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', s)
        name = mm.group(1).strip('"')
        lx = Lex(mm.group(2))
        ext = False
        while True:
            k, v = lx.peek()
            if v in ('external', 'extern_weak', 'available_externally'):
                ext = True
                lx.next()
            elif v in ('private', 'internal', 'unnamed_addr', 'local_unnamed_addr', 'dso_local', 'common', 'weak',
                       'linkonce_odr', 'hidden', 'thread_local', 'global', 'constant', 'weak_odr', 'linkonce',
                       'protected', 'appending', 'externally_initialized'):
                lx.next()
                if v in ('global', 'constant'):
                    const = v == 'constant'
                    break
            elif v == 'alias':
                return
            else:
                raise ParseError('global ' + s[:100])
        T = self.ptype(lx)
        init = None
        if not ext and lx.peek()[0] != 'eof' and lx.peek()[1] != ',':
            init = self.pval(lx, T)
        self.m.globals[name] = (T, init, const)

    def pfunc(self, head, body):
        head = re.sub(r'\s*(#\d+|!dbg !\d+|align \d+|local_unnamed_addr|unnamed_addr|comdat|section "[^"]*")', ' ', head)
        mm = re.search(r'@("[^"]*"|[-\w.$]+)\s*\(', head)
        pre = head[len('define'):mm.start()]
        f = Func()
        f.name = mm.group(1).strip('"')
        f.internal = ' internal ' in head or ' private ' in head
        lx = Lex(pre)
        while True:
            k, v = lx.peek()
            if v in ('dso_local', 'internal', 'private', 'linkonce_odr', 'hidden', 'weak', 'available_externally',
                     'fastcc', 'ccc', 'linkonce', 'weak_odr', 'protected', 'dso_preemptable'):
                lx.next()
                continue
            if v in PARAM_ATTRS or v in PARAM_ATTRS_P:
                self.skip_attrs(lx)
                continue
            break
        f.ret = self.ptype(lx)
        lx = Lex(head[mm.end() - 1:])
        lx.expect('(')
        f.params = []
        f.byval = []
        f.vararg = False
        if not lx.accept(')'):
            while True:
                if lx.accept('...'):
                    f.vararg = True
                    lx.expect(')')
                    break
                T = self.ptype(lx)
                bv = self.skip_attrs(lx)
                k, v = lx.next()
                f.params.append((T, v[1:].strip('"')))
                f.byval.append(bv)
                if lx.accept(')'):
                    break
                lx.expect(',')
        f.blocks = {}
        f.order = []
        cur = None
        # entry label
        k = 0
        merged = []
        # join multi-line instructions (switch)
        buf = None
        for s in body:
            if buf is not None:
                buf += ' ' + s.strip()
                if ']' in s:
                    merged.append(buf)
                    buf = None
                continue
            if s.strip().startswith('switch') and ']' not in s:
                buf = s.strip()
                continue
            merged.append(s)
        first = True
        nparams = len(f.params)
        for s in merged:
            st = s.strip()
            if not st or st[0] == ';':
                continue
            lm = re.match(r'^("[^"]*"|[-\w.$]+):', s)
            if lm:
                cur = lm.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
                continue
            if first:
                # unnamed entry block: its number is the number of unnamed params
                cur = str(nparams)
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
            ins = self.pinstr(st)
            if ins is not None:
                f.blocks[cur].append(ins)
        self.m.funcs[f.name] = f

    FLAGS = {'nsw', 'nuw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
             'reassoc', 'samesign'}
    BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
           'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
    CAST = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint',
            'inttoptr', 'bitcast', 'addrspacecast'}

    def pinstr(self, s):
        res = None
        mm = re.match(r'^%("[^"]*"|[-\w.$]+) = ', s)
        if mm:
            res = mm.group(1).strip('"')
            s = s[mm.end():]
        # drop metadata suffix
        s = re.sub(r'(, !\w[\w.]* !\d+)+$', '', s)
        lx = Lex(s)
        op = lx.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = lx.next()[1]
        if op in self.BIN:
            fl = []
            while lx.peek()[1] in self.FLAGS:
                fl.append(lx.next()[1])
            T = self.ptype(lx)
            a = self.pval(lx, T)
            lx.expect(',')
            b = self.pval(lx, T)
            return ('bin', res, op, T, a, b, tuple(fl))
        if op == 'fneg':
            while lx.peek()[1] in self.FLAGS:
                lx.next()
            T = self.ptype(lx)
            return ('fneg', res, T, self.pval(lx, T))
        if op in ('icmp', 'fcmp'):
            while lx.peek()[1] in self.FLAGS:
                lx.next()
            pred = lx.next()[1]
            while lx.peek()[1] in self.FLAGS:
                lx.next()
            T = self.ptype(lx)
            a = self.pval(lx, T)
            lx.expect(',')
            b = self.pval(lx, T)
            return (op, res, pred, T, a, b)
        if op in self.CAST:
            while lx.peek()[1] in self.FLAGS:
                lx.next()
            T = self.ptype(lx)
            a = self.pval(lx, T)
            lx.expect('to')
            T2 = self.ptype(lx)
            return ('cast', res, op, T, a, T2)
        if op == 'select':
            while lx.peek()[1] in self.FLAGS:
                lx.next()
            T0 = self.ptype(lx)
            c = self.pval(lx, T0)
            lx.expect(',')
            T = self.ptype(lx)
            a = self.pval(lx, T)
            lx.expect(',')
            T = self.ptype(lx)
            b = self.pval(lx, T)
            return ('select', res, c, T, a, b)
        if op == 'freeze':
            T = self.ptype(lx)
            return ('freeze', res, T, self.pval(lx, T))
        if op == 'phi':
            while lx.peek()[1] in self.FLAGS:
                lx.next()
            T = self.ptype(lx)
            inc = {}
            while True:
                lx.expect('[')
                v = self.pval(lx, T)
                lx.expect(',')
                l = lx.next()[1][1:].strip('"')
                lx.expect(']')
                inc[l] = v
                if not lx.accept(','):
                    break
            return ('phi', res, T, inc)
        if op == 'alloca':
            if lx.peek()[1] == 'inalloca':
                lx.next()
            T = self.ptype(lx)
            n = ('c', 1)
            if lx.accept(','):
                if lx.peek()[1] != 'align':
                    nt = self.ptype(lx)
                    n = self.pval(lx, nt)
            return ('alloca', res, T, n)
        if op == 'load':
            while lx.peek()[1] in ('volatile', 'atomic'):
                lx.next()
            T = self.ptype(lx)
            lx.expect(',')
            pt = self.ptype(lx)
            return ('load', res, T, self.pval(lx, pt))
        if op == 'store':
            while lx.peek()[1] in ('volatile', 'atomic'):
                lx.next()
            T = self.ptype(lx)
            v = self.pval(lx, T)
            lx.expect(',')
            pt = self.ptype(lx)
            return ('store', None, T, v, self.pval(lx, pt))
        if op == 'getelementptr':
            inb = False
            while lx.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                inb = True
                lx.next()
            bt = self.ptype(lx)
            ops = []
            while lx.accept(','):
                t = self.ptype(lx)
                ops.append((t, self.pval(lx, t)))
            return ('gep', res, bt, ops)
        if op == 'br':
            T = self.ptype(lx)
            if T[0] == 'label':
                return ('jmp', None, lx.next()[1][1:].strip('"'))
            c = self.pval(lx, T)
            lx.expect(',')
            lx.expect('label')
            a = lx.next()[1][1:].strip('"')
            lx.expect(',')
            lx.expect('label')
            b = lx.next()[1][1:].strip('"')
            return ('br', None, c, a, b)
        if op == 'switch':
            T = self.ptype(lx)
            v = self.pval(lx, T)
            lx.expect(',')
            lx.expect('label')
            d = lx.next()[1][1:].strip('"')
            lx.expect('[')
            cases = []
            while not lx.accept(']'):
                t = self.ptype(lx)
                c = self.pval(lx, t)
                lx.expect(',')
                lx.expect('label')
                cases.append((c[1], lx.next()[1][1:].strip('"')))
            return ('switch', None, T, v, d, cases)
        if op == 'ret':
            T = self.ptype(lx)
            if T == VOID:
                return ('ret', None, None, None)
            return ('ret', None, T, self.pval(lx, T))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'extractvalue':
            T = self.ptype(lx)
            a = self.pval(lx, T)
            idx = []
            while lx.accept(','):
                idx.append(int(lx.next()[1]))
            return ('extractvalue', res, T, a, idx)
        if op == 'insertvalue':
            T = self.ptype(lx)
            a = self.pval(lx, T)
            lx.expect(',')
            T2 = self.ptype(lx)
            b = self.pval(lx, T2)
            idx = []
            while lx.accept(','):
                idx.append(int(lx.next()[1]))
            return ('insertvalue', res, T, a, T2, b, idx)
        if op in ('extractelement', 'insertelement', 'shufflevector'):
            if op == 'extractelement':
                T = self.ptype(lx); a = self.pval(lx, T); lx.expect(',')
                t = self.ptype(lx); i = self.pval(lx, t)
                return ('extractelement', res, T, a, i)
            if op == 'insertelement':
                T = self.ptype(lx); a = self.pval(lx, T); lx.expect(',')
                t2 = self.ptype(lx); b = self.pval(lx, t2); lx.expect(',')
                t = self.ptype(lx); i = self.pval(lx, t)
                return ('insertelement', res, T, a, t2, b, i)
            T = self.ptype(lx); a = self.pval(lx, T); lx.expect(',')
            T2 = self.ptype(lx); b = self.pval(lx, T2); lx.expect(',')
            T3 = self.ptype(lx); mask = self.pval(lx, T3)
            return ('shufflevector', res, T, a, b, T3, mask)
        if op == 'call':
            while lx.peek()[1] in self.FLAGS or lx.peek()[1] in ('fastcc', 'ccc'):
                lx.next()
            while lx.peek()[1] in PARAM_ATTRS or lx.peek()[1] in PARAM_ATTRS_P:
                self.skip_attrs(lx)
            self.fnsuffix = False
            T = self.ptype(lx)
            # optional function type in parens
            if lx.peek()[1] == '(':
                self.skip_paren(lx)
            callee = self.pval(lx, PTR)
            lx.expect('(')
            args = []
            if not lx.accept(')'):
                while True:
                    t = self.ptype(lx)
                    if t == ('metadata',):
                        # llvm.dbg
                        return None
                    bv = self.skip_attrs(lx)
                    args.append((t, self.pval(lx, t), bv))
                    if lx.accept(')'):
                        break
                    lx.expect(',')
            if callee[0] == 'g' and (callee[1].startswith('llvm.lifetime') or callee[1].startswith('llvm.dbg')
                                     or callee[1].startswith('llvm.assume')
                                     or callee[1].startswith('llvm.experimental.noalias')):
                return None
            return ('call', res, T, callee, args)
        raise ParseError('instr: ' + s)


def parse(text):
    return Parser(text).parse()
