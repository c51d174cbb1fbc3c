"""LLVM-IR front end: compiles /repo/src/*.c with clang to textual IR and transpiles IR functions, lazily,
into Python functions that run on the symbolic runtime (vv.rt).  Nothing here knows about vulture itself."""
import os, re, subprocess, hashlib, struct, shutil, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
CFLAGS = ['-std=c99', '-DWITH_SIBC', '-DNDEBUG', '-D__NO_CTYPE', '-I' + SRC, '-I' + os.path.join(REPO, 'uthash')]
PASSES = 'function(sroa,early-cse,instsimplify,simplifycfg,adce)'


def sources():
    """The translation units of the solver, as src/CMakeLists.txt lists them (WITH_SIBC=ON), plus vulture.c."""
    txt = open(os.path.join(SRC, 'CMakeLists.txt')).read()
    names = []
    for m in re.finditer(r'set\(\s*(SIBC_SOURCES|VULTURE_SOURCES)\s+([^)]*)\)', txt):
        names += re.findall(r'([A-Za-z0-9_]+\.c)\b', m.group(2))
    out = []
    for n in names:
        if n not in out and os.path.exists(os.path.join(SRC, n)):
            out.append(n)
    return out


class BuildError(Exception):
    pass


def compile_ir(outdir, extra=('vulture.c',)):
    os.makedirs(outdir, exist_ok=True)
    files = sources() + [e for e in extra]

    def one(f):
        b = os.path.splitext(f)[0]
        ll = os.path.join(outdir, b + '.ll')
        o = os.path.join(outdir, b + '.o.ll')
        r = subprocess.run(['clang-18', '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off',
                            '-fno-math-errno'] + CFLAGS + ['-S', '-emit-llvm', os.path.join(SRC, f), '-o', ll],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f + ': ' + r.stderr[-2000:])
        r = subprocess.run(['opt-18', '-S', '-passes=' + PASSES, ll, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f + ': ' + r.stderr[-2000:])
        return (b, o)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, files))


def build_native(outdir, main='vulture.c'):
    """The same sources, compiled by gcc with the flags of the real build, as one shared object for replay."""
    os.makedirs(outdir, exist_ok=True)
    so = os.path.join(outdir, 'libvult_native.so')
    files = sources() + [main]

    def one(f):
        o = os.path.join(outdir, f + '.o')
        fl = ['-Dmain=vv_main'] if f == main else []
        r = subprocess.run(['gcc', '-std=c99', '-O2', '-DNDEBUG', '-DWITH_SIBC', '-fPIC', '-w'] + fl +
                           ['-I' + SRC, '-I' + os.path.join(REPO, 'uthash'), '-c', os.path.join(SRC, f), '-o', o],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f + ': ' + r.stderr[-2000:])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, files))
    ar = os.path.join(outdir, 'libvult.a')
    if os.path.exists(ar):
        os.remove(ar)
    subprocess.run(['ar', 'rcs', ar] + [o for o in objs if not o.endswith(main + '.o')], check=True)
    r = subprocess.run(['gcc', '-shared', '-o', so, os.path.join(outdir, main + '.o'), ar, '-lm'], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-2000:])
    return so


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e', 'size', 'align', 'offs')

    def __init__(self, k, n=0, e=None):
        self.k, self.n, self.e = k, n, e
        self.offs = None
        if k == 'int':
            b = (n + 7) // 8
            s = 1
            while s < b:
                s *= 2
            self.size = self.align = s
        elif k == 'float':
            self.size = self.align = 4
        elif k == 'double':
            self.size = self.align = 8
        elif k == 'ptr':
            self.size = self.align = 8
        elif k == 'arr':
            self.size, self.align = n * e.size, e.align
        elif k == 'struct':
            off, al, offs = 0, 1, []
            for t in e:
                a = 1 if n else t.align
                off = (off + a - 1) // a * a
                offs.append(off)
                off += t.size
                al = max(al, a)
            self.size, self.align, self.offs = (off + al - 1) // al * al, al, offs
        else:
            self.size, self.align = 0, 1


VOID, PTR, F32, F64 = Ty('void'), Ty('ptr'), Ty('float'), Ty('double')
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty('int', n)
    return _ints[n]


TOK = re.compile(r'''\s*(c"(?:[^"])*"|"(?:[^"])*"|[%@](?:"[^"]*"|[-\w$.]+)|![\w.]*|\#\d+|0x[KMLHR]?[0-9A-Fa-f]+'''
                 r'''|-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[\[\]{}()<>,=*:|])''')


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise SyntaxError('tok: ' + s[pos:pos + 60])
        out.append(m.group(1))
        pos = m.end()
    return out


def hexf(tok, ty):
    """Floating constant -> Python float."""
    if tok.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(tok[2:].rjust(16, '0')))[0]
    return float(tok)


class P:
    """Token cursor over one IR line / definition."""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if self.next() != x:
            raise SyntaxError('expected %s at %s' % (x, self.t[self.i - 3:self.i + 5]))

    def type(self):
        t = self.next()
        if t[0] == 'i' and t[1:].isdigit():
            r = IntTy(int(t[1:]))
        elif t == 'ptr':
            r = PTR
        elif t == 'float':
            r = F32
        elif t == 'double':
            r = F64
        elif t == 'void':
            r = VOID
        elif t == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            r = Ty('arr', n, e)
        elif t == '{':
            es = []
            if not self.eat('}'):
                while True:
                    es.append(self.type())
                    if self.eat('}'):
                        break
                    self.need(',')
            r = Ty('struct', 0, es)
        elif t == '<':
            self.need('{')
            es = []
            while True:
                es.append(self.type())
                if self.eat('}'):
                    break
                self.need(',')
            self.need('>')
            r = Ty('struct', 1, es)
        elif t[0] == '%':
            r = self.m.named_type(t)
        elif t in ('label', 'metadata', 'token'):
            r = Ty(t)
        else:
            raise SyntaxError('type ' + t + ' in ' + ' '.join(self.t))
        return r


ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'noalias', 'readnone',
         'immarg', 'returned', 'inreg', 'nest', 'nofree', 'noreturn', 'nsz', 'nnan', 'ninf', 'fast', 'arcp',
         'contract', 'afn', 'reassoc', 'inrange', 'allocptr', 'allocalign', 'dead_on_unwind', 'writable'}


def skip_attrs(p):
    bv = None
    while True:
        t = p.peek()
        if t in ATTRS:
            p.i += 1
        elif t in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret'):
            p.i += 1
            if t in ('byval', 'sret'):
                p.need('(')
                q = p.type()
                p.need(')')
                if t == 'byval':
                    bv = q
                continue
            if p.eat('('):
                while p.next() != ')':
                    pass
            else:
                p.i += 1
        else:
            return bv


class Module:
    def __init__(self, name, path):
        self.name = name
        self.types = {}
        self.ntypes = {}
        self.globals = {}
        self.funcs = {}
        self.internal = set()
        self.declared = set()
        lines = open(path).read().split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                n, d = l.split(' = type ', 1)
                self.types[n.strip()] = d
            elif l.startswith('@'):
                n, d = l.split(' = ', 1)
                self.globals[n] = d
                if re.match(r'(private|internal)\b', d):
                    self.internal.add(n)
            elif l.startswith('declare'):
                m = re.search(r'(@[-\w$.]+)\(', l)
                self.declared.add(m.group(1))
            elif l.startswith('define'):
                m = re.search(r'(@[-\w$.]+)\(', l)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                n = m.group(1)
                self.funcs[n] = (l, lines[i + 1:j])
                if re.match(r'define (internal|private)\b', l):
                    self.internal.add(n)
                i = j
            i += 1

    def named_type(self, t):
        if t not in self.ntypes:
            d = self.types[t]
            if d.strip() == 'opaque':
                self.ntypes[t] = Ty('opaque')
            else:
                self.ntypes[t] = P(tokenize(d), self).type()
        return self.ntypes[t]

    def uname(self, n):
        """program-wide unique name of a local symbol (without @)."""
        return (self.name + ':' + n[1:]) if n in self.internal else n[1:]


class FuncSig:
    __slots__ = ('ret', 'args', 'va', 'names')


def parse_sig(mod, header):
    m = re.search(r'(@[-\w$.]+)\(', header)
    pre, post = header[:m.start()], header[m.end():]
    toks = tokenize(pre)
    p = P(toks, mod)
    while p.peek() in ('define', 'dso_local', 'internal', 'private', 'available_externally', 'hidden', 'local_unnamed_addr',
                       'linkonce_odr', 'weak', 'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'dso_preemptable', 'declare'):
        p.i += 1
    skip_attrs(p)
    s = FuncSig()
    s.ret = p.type()
    s.args, s.names, s.va = [], [], False
    p = P(tokenize(post), mod)
    if not p.eat(')'):
        while True:
            if p.eat('...'):
                s.va = True
                p.need(')')
                break
            t = p.type()
            skip_attrs(p)
            n = None
            if p.peek() and p.peek()[0] == '%':
                n = p.next()
            s.args.append(t)
            s.names.append(n)
            if p.eat(')'):
                break
            p.need(',')
    return s


class Program:
    """All modules linked: symbol -> (module, kind)."""

    def __init__(self, irs):
        allm = [Module(n, p) for n, p in irs]
        # link like the static library: start from the main program, pull in members that define missing symbols
        roots = [m for m in allm if m.name in ('vulture', 'gvulture')]
        rest = [m for m in allm if m not in roots]
        self.mods = list(roots)
        def ext(m):
            d = {n[1:] for n, (h, b) in m.funcs.items() if n not in m.internal and 'available_externally' not in h.split('@')[0]}
            d |= {n[1:] for n, t in m.globals.items() if n not in m.internal and not re.match(r'(external|extern_weak)\b', t)}
            return d
        def und(m):
            u = {n[1:] for n in m.declared}
            u |= {n[1:] for n, t in m.globals.items() if re.match(r'(external|extern_weak)\b', t)}
            return u | {n[1:] for n, (h, b) in m.funcs.items() if 'available_externally' in h.split('@')[0]}
        defined, need = set(), set()
        for m in roots:
            defined |= ext(m)
            need |= und(m)
        ch = True
        while ch:
            ch = False
            for m in list(rest):
                if ext(m) & (need - defined):
                    rest.remove(m)
                    self.mods.append(m)
                    defined |= ext(m)
                    need |= und(m)
                    ch = True
        self.fdef = {}   # unique name -> (mod, header, lines)
        self.gdef = {}   # unique name -> (mod, text)
        for m in self.mods:
            for n, (h, b) in m.funcs.items():
                u = m.uname(n)
                avail = 'available_externally' in h.split('@')[0]
                if u in self.fdef and (avail or not self.fdef[u][3]):
                    if not avail and not self.fdef[u][3]:
                        raise BuildError('duplicate function ' + u)
                    continue
                self.fdef[u] = (m, h, b, avail)
            for n, d in m.globals.items():
                u = m.uname(n)
                if re.match(r'(external|extern_weak)\b', d):
                    continue
                self.gdef[u] = (m, d)
        self.sigs = {}

    def sig(self, u):
        if u not in self.sigs:
            m, h, b, _ = self.fdef[u]
            self.sigs[u] = parse_sig(m, h)
        return self.sigs[u]


def mangle(s):
    return re.sub(r'\W', lambda m: '_%02x' % ord(m.group(0)), s)


ICMP = {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}
UCMP = {'ult': 'ult', 'ule': 'ule', 'ugt': 'ugt', 'uge': 'uge'}
FCMP = {'oeq': '==', 'one': 'fone', 'olt': '<', 'ole': '<=', 'ogt': '>', 'oge': '>=', 'une': '!=',
        'ueq': 'fueq', 'ult': 'fult', 'ule': 'fule', 'ugt': 'fugt', 'uge': 'fuge', 'uno': 'funo', 'ord': 'ford'}


class Transpiler:
    """Turns one IR function into the text of a Python function."""

    def __init__(self, rt, mod, uname, header, lines):
        self.rt, self.m, self.u = rt, mod, uname
        self.sig = rt.prog.sig(uname)
        self.header, self.lines = header, lines
        self.frefs = []

    # -- operands
    def v(self, name):
        return 'v_' + mangle(name[1:])

    def const(self, p, ty):
        """Parse an operand of type ty; return a Python expression."""
        t = p.next()
        c = t[0]
        if c == '%':
            return self.v(t)
        if c == '@':
            return str(self.rt.sym_addr(self.m, t))
        if ty.k in ('float', 'double'):
            if t in ('undef', 'poison'):
                return '0.0'
            f = hexf(t, ty)
            if f != f:
                return 'NAN'
            if f in (float('inf'), float('-inf')):
                return 'INF' if f > 0 else '(-INF)'
            return repr(f) if f >= 0 and not str(f).startswith('-') else '(%r)' % f
        if t == 'null':
            return '0'
        if t == 'true':
            return 'True'
        if t == 'false':
            return 'False'
        if t in ('undef', 'poison'):
            return 'None' if ty.k == 'struct' else '0'
        if t == 'zeroinitializer':
            return '0'
        if t == 'getelementptr':
            return str(self.const_gep(p))
        if t in ('ptrtoint', 'inttoptr', 'bitcast'):
            p.need('(')
            t1 = p.type()
            e = self.const(p, t1)
            p.need('to')
            p.type()
            p.need(')')
            return e
        if c == '-' or c.isdigit():
            return t if c != '-' else '(' + t + ')'
        raise SyntaxError('operand ' + t + ' ' + ' '.join(p.t))

    def const_gep(self, p):
        p.eat('inbounds')
        p.need('(')
        ty = p.type()
        p.need(',')
        p.type()
        base = int(eval(self.const(p, PTR)))
        off = 0
        first = True
        while p.eat(','):
            p.eat('inrange')
            it = p.type()
            ix = int(eval(self.const(p, it)))
            if first:
                off += ix * ty.size
                first = False
            elif ty.k == 'arr':
                ty = ty.e
                off += ix * ty.size
            else:
                off += ty.offs[ix]
                ty = ty.e[ix]
        p.need(')')
        return base + off

    def typed(self, p):
        ty = p.type()
        skip_attrs(p)
        return ty, self.const(p, ty)

    # -- function
    def run(self):
        blocks = {}
        order = []
        cur = None
        nargs = len(self.sig.args)
        argn = [n if n else '%' + str(i) for i, n in enumerate(self.sig.names)]
        entry = None
        it = iter(self.lines)
        for l in it:
            if not l.strip():
                continue
            if not l.startswith(' '):
                mm = re.match(r'("?[-\w$.]+"?):', l)
                if not mm:
                    raise SyntaxError('label: ' + l)
                cur = mm.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = '$entry'
                blocks[cur] = []
                order.append(cur)
            s = l.strip()
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                while True:
                    l2 = next(it).strip()
                    s += ' ' + l2
                    if l2.startswith(']'):
                        break
            blocks[cur].append(s)
        entry = order[0]
        # control flow
        self.phis = {}
        succ = {}
        npred = {}
        parsed = {}
        for b in order:
            ph = []
            body = []
            for s in blocks[b]:
                toks = None
                if ' = phi ' in s:
                    d, r = s.split(' = ', 1)
                    p = P(tokenize(r), self.m)
                    p.need('phi')
                    skip_attrs(p)
                    ty = p.type()
                    inc = {}
                    while True:
                        p.need('[')
                        e = self.const(p, ty)
                        p.need(',')
                        lb = p.next()[1:]
                        p.need(']')
                        inc[lb] = e
                        if not p.eat(','):
                            break
                    ph.append((self.v(d), inc))
                else:
                    body.append(s)
            self.phis[b] = ph
            term = body[-1]
            tt = tokenize(term)
            su = []
            if tt[0] == 'br':
                su = [tt[i + 1][1:] for i, x in enumerate(tt) if x == 'label']
            elif tt[0] == 'switch':
                su = [tt[i + 1][1:] for i, x in enumerate(tt) if x == 'label']
            succ[b] = su
            for x in su:
                npred[x] = npred.get(x, 0) + 1
            parsed[b] = (body[:-1], tt)
        if '$entry' in order:
            # entry may be referenced in phis by its implicit number
            self.entry_alias = str(nargs)
        self.parsed, self.npred = parsed, npred
        # heads: entry, and blocks with != 1 predecessors
        # inline single-pred blocks into their predecessor
        heads = [entry] + [b for b in order if b != entry and npred.get(b, 0) > 1]
        self.headno = {b: i for i, b in enumerate(heads)}
        self.code = []
        self.hasalloca = any(' = alloca ' in s for b in order for s in parsed[b][0])
        args = ', '.join(self.v(n) for n in argn)
        if self.sig.va:
            args = args + (', ' if args else '') + '*va'
        self.emit(0, 'def f(%s):' % args)
        self.emit(1, 'BLK[0] += 1')
        done = []
        bodies = []
        qi = 0
        heads_q = list(heads)
        while qi < len(heads_q):
            b = heads_q[qi]
            qi += 1
            save = self.code
            self.code = []
            self.newheads = []
            self.block(b, 0, 0)
            bodies.append((self.headno[b], self.code))
            self.code = save
            for nb in self.newheads:
                heads_q.append(nb)
        if len(bodies) == 1 and not any('continue' in c for _, cc in bodies for _, c in cc):
            for d, c in bodies[0][1]:
                self.emit(1 + d, c)
        else:
            self.emit(1, 'bb = 0')
            self.emit(1, 'while True:')
            self.tree(bodies, 2)
        return '\n'.join('    ' * d + c for d, c in self.code)

    def tree(self, bodies, d):
        if len(bodies) == 1:
            for dd, c in bodies[0][1]:
                self.emit(d + dd, c)
            return
        mid = len(bodies) // 2
        self.emit(d, 'if bb < %d:' % bodies[mid][0])
        self.tree(bodies[:mid], d + 1)
        self.emit(d, 'else:')
        self.tree(bodies[mid:], d + 1)

    def emit(self, d, s):
        self.code.append((d, s))

    def edge(self, src, dst, d, depth):
        ph = self.phis[dst]
        if ph:
            key = src
            ls, rs = [], []
            for v, inc in ph:
                e = inc.get(key)
                if e is None and src == '$entry':
                    e = inc.get(self.entry_alias)
                if e is None:
                    raise SyntaxError('phi edge')
                if e != v:
                    ls.append(v)
                    rs.append(e)
            if ls:
                self.emit(d, ', '.join(ls) + ' = ' + ', '.join(rs))
        if dst in self.headno:
            self.emit(d, 'bb = %d' % self.headno[dst])
            self.emit(d, 'continue')
        elif depth > 30:
            self.headno[dst] = len(self.headno)
            self.newheads.append(dst)
            self.emit(d, 'bb = %d' % self.headno[dst])
            self.emit(d, 'continue')
        else:
            self.block(dst, d, depth + 1)

    def block(self, b, d, depth):
        body, tt = self.parsed[b]
        for s in body:
            self.inst(s, d)
        p = P(tt, self.m)
        k = p.next()
        if k == 'ret':
            ty = p.type()
            if ty.k == 'void':
                r = None
            else:
                r = self.const(p, ty)
            if self.hasalloca:
                pass
            self.emit(d, 'return' + ('' if r is None else ' ' + r))
        elif k == 'unreachable':
            self.emit(d, 'raise Unreachable(%r)' % self.u)
        elif k == 'br':
            if p.eat('label'):
                self.edge(b, p.next()[1:], d, depth)
            else:
                p.type()
                c = self.const(p, IntTy(1))
                p.need(',')
                p.need('label')
                t = p.next()[1:]
                p.need(',')
                p.need('label')
                f = p.next()[1:]
                self.emit(d, 'if %s:' % c)
                self.edge(b, t, d + 1, depth)
                self.emit(d, 'else:')
                self.edge(b, f, d + 1, depth)
        elif k == 'switch':
            ty = p.type()
            v = self.const(p, ty)
            p.need(',')
            p.need('label')
            dflt = p.next()[1:]
            p.need('[')
            cases = []
            while not p.eat(']'):
                t2 = p.type()
                c = self.const(p, t2)
                p.need(',')
                p.need('label')
                cases.append((c, p.next()[1:]))
            # group by target
            kw = 'if'
            grp = {}
            for c, t in cases:
                grp.setdefault(t, []).append(c)
            for t, cs in grp.items():
                cond = ' or '.join('%s == %s' % (v, c) for c in cs)
                self.emit(d, '%s %s:' % (kw, cond))
                self.sw_edge(b, t, d + 1, depth)
                kw = 'elif'
            self.emit(d, 'else:' if grp else 'if True:')
            self.sw_edge(b, dflt, d + 1, depth)
        else:
            raise SyntaxError('terminator ' + k)

    def sw_edge(self, b, t, d, depth):
        # a block reached by several switch labels from one switch has npred>1 -> is a head anyway
        self.edge(b, t, d, depth)

    def inst(self, s, d):
        dst = None
        if s[0] == '%':
            dn, s = s.split(' = ', 1)
            dst = self.v(dn)
        sp = s.find(', !')
        if sp > 0:
            s = s[:sp]
        p = P(tokenize(s), self.m)
        op = p.next()
        E = self.emit
        if op == 'load':
            p.eat('volatile')
            ty = p.type()
            p.need(',')
            p.type()
            a = self.const(p, PTR)
            E(d, '%s = mem[%s]' % (dst, a))
            return
        if op == 'store':
            p.eat('volatile')
            ty, val = self.typed(p)
            p.need(',')
            p.type()
            a = self.const(p, PTR)
            if a[0] == 'v':
                E(d, 'if %s not in mem: %s = stchk(%s, %d)' % (a, a, a, ty.size))
            if val.startswith('v_') and ty.k == 'int' and ty.n == 1:
                val = 'zx1(%s)' % val
            E(d, 'mem[%s] = %s' % (a, val))
            return
        if op == 'getelementptr':
            p.eat('inbounds')
            ty = p.type()
            p.need(',')
            p.type()
            base = self.const(p, PTR)
            terms = []
            coff = 0
            first = True
            while p.eat(','):
                it = p.type()
                ix = self.const(p, it)
                if first:
                    sz = ty.size
                    first = False
                elif ty.k == 'arr':
                    ty = ty.e
                    sz = ty.size
                else:
                    i = int(eval(ix))
                    coff += ty.offs[i]
                    ty = ty.e[i]
                    continue
                if re.match(r'^\(?-?\d+\)?$', ix):
                    coff += int(eval(ix)) * sz
                else:
                    if it.n != 64:
                        ix = '(%s if %s.__class__ is int else sxt(%s, %d, 64))' % (ix, ix, ix, it.n)
                    terms.append('%s*%d' % (ix, sz) if sz != 1 else ix)
            if coff:
                terms.append(str(coff) if coff > 0 else '(%d)' % coff)
            E(d, '%s = %s' % (dst, ' + '.join([base] + terms)))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            skip_attrs(p)
            ty = p.type()
            a = self.const(p, ty)
            p.need(',')
            b = self.const(p, ty)
            if op == 'fdiv':
                e = 'fdiv(%s, %s)' % (a, b)
            elif op == 'frem':
                e = 'frem(%s, %s)' % (a, b)
            else:
                e = '%s %s %s' % (a, {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op], b)
            if ty.k == 'float':
                e = 'rf(%s)' % e
            E(d, '%s = %s' % (dst, e))
            return
        if op == 'fneg':
            skip_attrs(p)
            ty = p.type()
            E(d, '%s = -%s' % (dst, self.const(p, ty)))
            return
        if op in ('add', 'sub', 'mul', 'shl'):
            nsw = False
            while p.peek() in ('nsw', 'nuw'):
                if p.next() == 'nsw':
                    nsw = True
            ty = p.type()
            a = self.const(p, ty)
            p.need(',')
            b = self.const(p, ty)
            e = '%s %s %s' % (a, {'add': '+', 'sub': '-', 'mul': '*', 'shl': '<<'}[op], b)
            if not nsw:
                e = 'wr(%s, %d)' % (e, ty.n)
            else:
                e = e if ty.n >= 64 or op in ('add', 'sub') else 'ovf(%s, %d)' % (e, ty.n)
            E(d, '%s = %s' % (dst, e))
            return
        if op in ('and', 'or', 'xor'):
            p.eat('disjoint')
            ty = p.type()
            a = self.const(p, ty)
            p.need(',')
            b = self.const(p, ty)
            E(d, '%s = %s %s %s' % (dst, a, {'and': '&', 'or': '|', 'xor': '^'}[op], b))
            return
        if op in ('lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            p.eat('exact')
            ty = p.type()
            a = self.const(p, ty)
            p.need(',')
            b = self.const(p, ty)
            E(d, '%s = i_%s(%s, %s, %d)' % (dst, op, a, b, ty.n))
            return
        if op == 'icmp':
            pr = p.next()
            ty = p.type()
            a = self.const(p, ty)
            p.need(',')
            b = self.const(p, ty)
            if pr in ICMP:
                E(d, '%s = %s %s %s' % (dst, a, ICMP[pr], b))
            else:
                E(d, '%s = i_%s(%s, %s, %d)' % (dst, pr, a, b, 64 if ty.k == 'ptr' else ty.n))
            return
        if op == 'fcmp':
            skip_attrs(p)
            pr = p.next()
            ty = p.type()
            a = self.const(p, ty)
            p.need(',')
            b = self.const(p, ty)
            o = FCMP[pr]
            if o[0] == 'f':
                E(d, '%s = %s(%s, %s)' % (dst, o, a, b))
            else:
                E(d, '%s = %s %s %s' % (dst, a, o, b))
            return
        if op in ('sext', 'zext', 'trunc'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            ty, a = self.typed(p)
            p.need('to')
            t2 = p.type()
            if op == 'sext':
                if ty.n == 1:
                    e = '-zx1(%s)' % a
                else:
                    e = '%s if %s.__class__ is int else sxt(%s, %d, %d)' % (a, a, a, ty.n, t2.n)
            elif op == 'zext':
                e = 'zx1(%s, %d)' % (a, t2.n) if ty.n == 1 else 'zxt(%s, %d, %d)' % (a, ty.n, t2.n)
            else:
                e = 'tr1(%s)' % a if t2.n == 1 else 'wr(%s, %d)' % (a, t2.n)
            E(d, '%s = %s' % (dst, e))
            return
        if op in ('fpext', 'fptrunc'):
            ty, a = self.typed(p)
            E(d, '%s = %s' % (dst, a if op == 'fpext' else 'rf(%s)' % a))
            return
        if op in ('sitofp', 'uitofp'):
            p.eat('nneg')
            ty, a = self.typed(p)
            p.need('to')
            t2 = p.type()
            E(d, '%s = i2f(%s, %d, %s, %s)' % (dst, a, ty.n, op == 'sitofp', t2.k == 'float'))
            return
        if op in ('fptosi', 'fptoui'):
            ty, a = self.typed(p)
            p.need('to')
            t2 = p.type()
            E(d, '%s = f2i(%s, %d, %s)' % (dst, a, t2.n, op == 'fptosi'))
            return
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            ty, a = self.typed(p)
            E(d, '%s = %s' % (dst, a))
            return
        if op == 'select':
            skip_attrs(p)
            ct, c = self.typed(p)
            p.need(',')
            ty, a = self.typed(p)
            p.need(',')
            ty, b = self.typed(p)
            E(d, '%s = (%s if %s else %s) if %s.__class__ is bool else sel(%s, %s, %s, %d)' %
              (dst, a, c, b, c, c, a, b, ty.n if ty.k == 'int' else (64 if ty.k == 'ptr' else 0)))
            return
        if op == 'alloca':
            ty = p.type()
            n = 1
            if p.eat(','):
                if p.peek() != 'align':
                    it, n = self.typed(p)
            E(d, '%s = alloca(%d, %s, %r)' % (dst, ty.size, n, self.u))
            return
        if op in ('extractvalue',):
            ty, a = self.typed(p)
            p.need(',')
            i = int(p.next())
            E(d, '%s = %s[%d]' % (dst, a, i))
            return
        if op == 'insertvalue':
            ty, a = self.typed(p)
            p.need(',')
            t2, b = self.typed(p)
            p.need(',')
            i = int(p.next())
            E(d, '%s = insv(%s, %s, %d, %d)' % (dst, a, b, i, len(ty.e)))
            return
        if op in ('call', 'tail', 'musttail', 'notail'):
            if op != 'call':
                p.need('call')
            skip_attrs(p)
            rt = p.type()
            if p.peek() == '(':
                # vararg function type
                dep = 0
                while True:
                    t = p.next()
                    if t == '(':
                        dep += 1
                    elif t == ')':
                        dep -= 1
                        if dep == 0:
                            break
            callee = p.next()
            p.need('(')
            args = []
            if not p.eat(')'):
                while True:
                    ty = p.type()
                    bv = skip_attrs(p)
                    if ty.k == 'metadata':
                        return
                    e1 = self.const(p, ty)
                    args.append('bycopy(%s, %d)' % (e1, bv.size) if bv else e1)
                    if p.eat(')'):
                        break
                    p.need(',')
            if callee[0] == '@':
                n = callee[1:]
                if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume') \
                        or n.startswith('llvm.experimental'):
                    return
                u = self.m.uname(callee)
                fn = self.rt.fref(u)
                self.frefs.append(u)
                e = '%s(%s)' % (fn, ', '.join(args))
                if n == 'llvm.va_start':
                    e = '%s(%s, va)' % (fn, ', '.join(args))
            else:
                e = 'icall(%s)(%s)' % (self.v(callee), ', '.join(args))
            E(d, (dst + ' = ' if dst else '') + e)
            return
        raise SyntaxError('inst ' + op + ': ' + s)
