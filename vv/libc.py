"""Models of the C library functions vulture uses.  Input files are virtual (Runtime.files_in); everything written
is recorded value-by-value so that a check can read symbolic values back out of a file."""
import math, re
from . import rt as R_
from .rt import UB, ExitCall, Unsupported, VFile, I, R, PLACE, wr

INT = re.compile(r'[-+]?\d+')
FLT = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf(?:inity)?|nan)', re.I)
HEX = re.compile(r'[-+]?0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][-+]?\d+)?')
SPEC = re.compile(r'%([-+ 0#]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|t|L)?([diouxXeEfFgGcspn%])')


class Reader:
    """Cursor over input text; placeholders @name@ stand for symbolic values."""

    def __init__(self, rt, s, pos=0):
        self.rt, self.s, self.pos = rt, s, pos

    def ws(self):
        while self.pos < len(self.s) and self.sp(self.pos):
            self.pos += 1

    def sp(self, k):
        """White space at position k (symbolic characters: asked of the solver)."""
        ch = self.s[k]
        if ord(ch) >= R_.SYMCH:
            return bool(space(self.rt.placeholders[ord(ch)]))
        return ch.isspace()

    def eq(self, k, c):
        ch = self.s[k]
        if ord(ch) >= R_.SYMCH:
            return bool(self.rt.placeholders[ord(ch)] == ord(c))
        return ch == c

    def sym(self, k):
        return k < len(self.s) and ord(self.s[k]) >= R_.SYMCH

    def integer(self, base=10, bits=64, unsigned=False):
        """Optional sign and digits, some of which may be symbolic characters; None if there are none."""
        a = k = self.pos
        neg = False
        if k < len(self.s) and (self.eq(k, '-') or self.eq(k, '+')):
            neg = self.eq(k, '-')
            k += 1
        v, d = 0, k
        while k < len(self.s):
            if self.sym(k):
                c = self.rt.placeholders[ord(self.s[k])]
                if not bool(R_.land(c >= 48, c < 48 + base)):
                    break
                v = v * base + (R_.sxt(c, 8, bits) - 48)
            else:
                c = ord(self.s[k]) - 48
                if not 0 <= c < base:
                    break
                v = v * base + c
            k += 1
        if k == d:
            return None
        self.pos = k
        v = -v if neg else v
        if v.__class__ is int:      # out of range: the extreme values, as glibc does
            v = max(-(1 << 63), min(v, (1 << 64 if unsigned else 1 << 63) - 1))
        return wr(v, bits)

    def real(self):
        """A floating point number; symbolic characters may end it but not be part of it."""
        k = self.pos
        if self.sym(k):
            c = self.rt.placeholders[ord(self.s[k])]
            if bool(R_.lor(R_.land(c >= 48, c <= 57), c == 43, c == 45, c == 46)):
                raise Unsupported('number made of symbolic characters')
            if bool(R_.lor(c == 73, c == 78, c == 105, c == 110)) and k + 1 < len(self.s) and (self.sym(k + 1) or self.s[k + 1].isalpha()):
                raise Unsupported('number made of symbolic characters')
            return None
        mm = FLT.match(self.s, k)
        if not mm:
            for j in range(k, min(k + 3, len(self.s))):
                if self.sym(j):
                    c = self.rt.placeholders[ord(self.s[j])]
                    if self.s[k] in 'iInN' or bool(R_.lor(R_.land(c >= 48, c <= 57), *[c == x for x in (46, 73, 78, 105, 110)])):
                        raise Unsupported('number made of symbolic characters')
                    break
                if self.s[j] not in '+-.iInN':
                    break
            return None
        hx = HEX.match(self.s, k)
        if hx:
            self.pos = hx.end()
            return float.fromhex(hx.group(0))
        self.pos = mm.end()
        if self.sym(self.pos):
            if mm.group(0).lstrip('+-') == '0' and bool(R_.lor(*[self.rt.placeholders[ord(self.s[self.pos])] == x for x in (88, 120)])):
                raise Unsupported('number made of symbolic characters')
            c = self.rt.placeholders[ord(self.s[self.pos])]
            if bool(R_.lor(R_.land(c >= 48, c <= 57), c == 46, c == 69, c == 101)):
                raise Unsupported('number made of symbolic characters')
        return float(mm.group(0))

    def place(self):
        m = PLACE.match(self.s, self.pos)
        if m and m.group(1) in self.rt.placeholders:
            return m
        return None


def space(c):
    return R_.lor(c == 32, R_.land(c >= 9, c <= 13))


def do_scanf(rt, rd, fmt, ptrs):
    n = 0
    i = 0
    ip = 0
    mem = rt.mem

    def st(p, v, sz):
        if p not in mem:
            p2 = rt.stchk(p, sz)
            p = p2
        mem[p] = v
    while i < len(fmt):
        c = fmt[i]
        if c.isspace():
            rd.ws()
            i += 1
            continue
        if c != '%':
            if rd.pos >= len(rd.s):
                return n if n else -1
            if not rd.eq(rd.pos, c):
                return n
            rd.pos += 1
            i += 1
            continue
        m = re.match(r'%(\*)?(\d+)?(hh|h|ll|l|L|z)?(\[\^?\]?[^\]]*\]|[diufegEGscxn%])', fmt[i:])
        if not m:
            raise Unsupported('scanf format ' + fmt[i:])
        i += m.end()
        sup, width, mod, conv = m.groups()
        if conv in 'diufegEGsx' and len(conv) == 1:
            rd.ws()
        if rd.pos >= len(rd.s):
            return n if n else -1
        p = None
        if not sup:
            p = ptrs[ip]
            ip += 1
        if conv in ('d', 'i', 'u'):
            pm = rd.place()
            sz = 8 if mod in ('l', 'll', 'z') else 4
            if pm:
                v = rt.placeholders[pm.group(1)]
                if v.__class__ is R:
                    raise Unsupported('symbolic real read as integer')
                if v.__class__ is I and v.w != sz * 8:
                    v = R_.sxt(v, v.w, sz * 8) if sz == 8 else wr(v, 32)
                rd.pos = pm.end()
            else:
                v = rd.integer(10, sz * 8, conv == 'u')
                if v is None:
                    return n
            st(p, v, sz)
        elif conv in ('f', 'e', 'g', 'E', 'G'):
            pm = rd.place()
            if pm:
                v = rt.placeholders[pm.group(1)]
                rd.pos = pm.end()
                if v.__class__ is I:
                    v = R_.i2f(v, v.w, True, False)
            else:
                v = rd.real()
                if v is None:
                    return n
            if mod == 'l':
                st(p, v, 8)
            else:
                st(p, R_.rf(v), 4)
        elif conv == 's':
            w = int(width) if width else 1 << 30
            a = rd.pos
            while rd.pos < len(rd.s) and rd.pos - a < w and not rd.sp(rd.pos):
                rd.pos += 1
            if p is not None:
                rt.putstr(p, rd.s[a:rd.pos])
        elif conv[0] == '[':
            body = conv[1:-1]
            neg = body.startswith('^')
            if neg:
                body = body[1:]
            w = int(width) if width else 1 << 30
            a = rd.pos
            while rd.pos < len(rd.s) and rd.pos - a < w and (any(rd.eq(rd.pos, x) for x in body) != neg):
                rd.pos += 1
            if rd.pos == a:
                return n
            if p is not None:
                rt.putstr(p, rd.s[a:rd.pos])
        elif conv == '%':
            if rd.s[rd.pos] != '%':
                return n
            rd.pos += 1
            continue
        else:
            raise Unsupported('scanf conversion ' + conv)
        if not sup:
            n += 1
    return n


def format_items(rt, fmt, args):
    """printf formatting -> list of str | (spec, symbolic value)."""
    out = []
    pos = 0
    ai = 0
    for m in SPEC.finditer(fmt):
        if m.start() > pos:
            out.append(fmt[pos:m.start()])
        pos = m.end()
        fl, w, pr, mod, cv = m.groups()
        if cv == '%':
            out.append('%')
            continue
        if w == '*' or pr == '*':
            raise Unsupported('printf *')
        if ai >= len(args):
            raise UB('too few printf arguments for %r' % fmt)
        v = args[ai]
        ai += 1
        if cv == 's':
            if v == 0:
                raise UB('printf %s of NULL')
            s = rt.getstr(v)
            out.append(('%' + fl + (w or '') + ('.' + pr if pr else '') + 's') % s)
        elif cv == 'c':
            out.append(chr(int(v) & 255))
        elif cv in 'di':
            if v.__class__ is I:
                out.append((m.group(0), v))
            else:
                out.append(('%' + fl + (w or '') + ('.' + pr if pr else '') + 'd') % int(v))
        elif cv in 'uxXo':
            if v.__class__ is I:
                out.append((m.group(0), v))
            else:
                n = 64 if mod in ('l', 'll', 'z') else 32
                out.append(('%' + fl + (w or '') + ('.' + pr if pr else '') + ('d' if cv == 'u' else cv)) % (int(v) & ((1 << n) - 1)))
        elif cv == 'p':
            out.append('0x%x' % v)
        else:
            if v.__class__ is R:
                out.append((m.group(0), v))
            else:
                out.append(('%' + fl + (w or '') + ('.' + pr if pr else '') + cv) % float(v))
    if pos < len(fmt):
        out.append(fmt[pos:])
    return out


def table(rt):
    T = {}

    def d(*names):
        def deco(f):
            for n in names:
                T[n] = f
            return f
        return deco

    mem = rt.mem

    # ---- memory
    @d('malloc')
    def malloc(n):
        n = R_._u(int(n), 64)
        if n > 1 << 31:
            return 0
        return rt.alloc(n, 'malloc', 'heap')

    @d('calloc')
    def calloc(a, b):
        return rt.alloc(int(a) * int(b), 'calloc', 'heap', zero=True)

    @d('free')
    def free(p):
        rt.free(int(p))

    @d('llvm.memset.p0.i64')
    def memset(p, v, n, vol=False):
        rt.memset(p, int(v), n)

    @d('memset')
    def memset2(p, v, n):
        rt.memset(p, int(v), n)
        return p

    @d('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64')
    def memcpy(a, b, n, vol=False):
        rt.memcpy(a, b, n)

    @d('memcpy', 'memmove')
    def memcpy2(a, b, n):
        rt.memcpy(a, b, n)
        return a

    @d('memcmp')
    def memcmp(a, b, n):
        for i in range(int(n)):
            x, y = mem[a + i], mem[b + i]
            if x != y:
                return -1 if (int(x) & 255) < (int(y) & 255) else 1
            if x.__class__ is float:
                raise Unsupported('memcmp of floats')
        return 0

    # uthash keys that are ints are compared with memcmp over 4/8 bytes: cells are whole values
    def memcmp_cells(a, b, n):
        n = int(n)
        i = 0
        while i < n:
            ka, kb = (a + i) in mem, (b + i) in mem
            x = mem[a + i] if ka or True else None
            y = mem[b + i]
            if x.__class__ is I or y.__class__ is I:
                if x == y:
                    pass
                else:
                    return 1
            elif x != y:
                return -1 if x < y else 1
            # advance to the next cell of the first operand
            i += 1
            while i < n and (a + i) not in mem and (b + i) not in mem:
                i += 1
        return 0
    T['memcmp'] = memcmp_cells
    T['bcmp'] = memcmp_cells

    # ---- strings
    @d('strlen')
    def strlen(p):
        n = 0
        p = int(p)
        while True:
            c = mem[p + n]
            if c.__class__ is I:
                if c == 0:
                    return n
            elif c == 0:
                return n
            n += 1

    @d('strcpy')
    def strcpy(a, b):
        rt.putstr(a, rt.getstr(b))
        return a

    @d('strncpy')
    def strncpy(a, b, n):
        i = 0
        n = int(n)
        z = False
        while i < n:
            if z:
                c = 0
            else:
                c = mem[b + i]
                if c == 0:
                    z = True
                    c = 0
            q = a + i
            if q not in mem:
                q = rt.stchk(q, 1)
            mem[q] = c
            i += 1
        return a

    @d('strcat')
    def strcat(a, b):
        rt.putstr(a + strlen(a), rt.getstr(b))
        return a

    @d('strncat')
    def strncat(a, b, n):
        n = R_._u(int(n), 64)
        s = rt.getstr(b)
        rt.putstr(a + strlen(a), s[:n])
        return a

    def cmpn(a, b, n):
        a, b = int(a), int(b)
        for i in range(n):
            x, y = mem[a + i], mem[b + i]
            if x != y:
                if x.__class__ is I or y.__class__ is I:
                    return 1                    # callers test for zero only
                return -1 if (int(x) & 255) < (int(y) & 255) else 1
            if x == 0:
                return 0
        return 0

    @d('strcmp')
    def strcmp(a, b):
        return cmpn(a, b, 1 << 30)

    @d('strncmp')
    def strncmp(a, b, n):
        return cmpn(a, b, R_._u(int(n), 64))

    @d('strchr')
    def strchr(a, c):
        i = int(a)
        c = int(c) & 255
        while True:
            x = mem[i]
            if x.__class__ is I:
                if bool(x == c):
                    return i
            else:
                x = int(x) & 255
                if x == c:
                    return i
            if x == 0:
                return 0
            i += 1

    @d('strstr')
    def strstr(a, b):
        k = rt.getstr(a).find(rt.getstr(b))
        return 0 if k < 0 else a + k

    @d('strerror')
    def strerror(n):
        return rt.cstr('error')

    @d('__errno_location')
    def errno_loc():
        if 'errno' not in rt.symaddr:
            rt.symaddr['errno'] = rt.alloc(4, 'errno', 'global', zero=True)
        return rt.symaddr['errno']

    @d('__ctype_b_loc')
    def ctype():
        if rt.ctype is None or rt.find(rt.ctype[0]) is None:
            t = rt.alloc(2 * 384, 'ctype', 'global', zero=True)
            base = t + 2 * 128
            for c in range(-128, 256):
                v = 0
                ch = chr(c) if 0 <= c < 128 else ''
                if ch:
                    if ch in ' \t\n\v\f\r':
                        v |= 1 << 13
                    if ch.isupper():
                        v |= 1 << 8
                    if ch.islower():
                        v |= 1 << 9
                    if ch.isalpha():
                        v |= 1 << 10
                    if ch.isdigit():
                        v |= 1 << 11
                    if ch.isalnum():
                        v |= 1 << 3
                mem[base + 2 * c] = v
            p = rt.alloc(8, 'ctype_p', 'global')
            mem[p] = base
            rt.ctype = (p,)
        return rt.ctype[0]

    def isx(f):
        return lambda c: int(bool(f(chr(int(c) & 255))))
    def isspace(c):
        if c.__class__ is I:
            return 1 if space(c) else 0
        return int(chr(int(c) & 255) in ' \t\n\v\f\r')
    T['isspace'] = isspace
    T['isdigit'] = isx(str.isdigit)
    T['isalpha'] = isx(str.isalpha)
    T['toupper'] = lambda c: ord(chr(int(c) & 255).upper())
    T['tolower'] = lambda c: ord(chr(int(c) & 255).lower())

    def strtox(p, endp, base, real):
        s = rt.getstr(p)
        rd = Reader(rt, s)
        rd.ws()
        pm = rd.place()
        if pm:
            v = rt.placeholders[pm.group(1)]
            e = pm.end()
            if real and v.__class__ is I:
                v = R_.i2f(v, v.w, True, False)
        elif real:
            v = rd.real()
            v, e = (0.0, 0) if v is None else (v, rd.pos)
        else:
            if base not in (0, 2, 8, 10):
                raise Unsupported('strtol base')
            v = rd.integer(base or 10)
            v, e = (0, 0) if v is None else (v, rd.pos)
        if endp:
            q = endp
            if q not in mem:
                q = rt.stchk(q, 8)
            mem[q] = p + e
        return v
    T['strtod'] = lambda p, e: strtox(p, e, 10, True)
    T['strtol'] = lambda p, e, b: strtox(p, e, int(b), False)
    T['strtoul'] = T['strtol']
    T['atoi'] = lambda p: strtox(p, 0, 10, False)
    T['atof'] = lambda p: strtox(p, 0, 10, True)
    T['__isoc99_strtol'] = T['strtol']

    # ---- files
    def fobj(h):
        h = int(h)
        f = rt.fhandles.get(h)
        if f is None:
            raise UB('use of an invalid FILE pointer')
        if not f.open:
            raise UB('use of a closed FILE %s' % f.name)
        return f

    @d('fopen')
    def fopen(name, mode):
        n, m = rt.getstr(name), rt.getstr(mode)
        if m[0] == 'r':
            if n in rt.files_in:
                f = VFile(n, m)
                f.data = rt.files_in[n]
            else:
                return 0
        else:
            if '/' in n.lstrip('./') or n in rt.unwritable:
                return 0
            f = VFile(n, m)
            if m[0] == 'a' and n in rt.files_out:
                f.items = rt.files_out[n].items
            rt.files_out[n] = f
        h = rt.alloc(8, 'FILE:' + n, 'file')
        rt.fhandles[h] = f
        return h
    rt.unwritable = set()

    @d('fclose')
    def fclose(h):
        fobj(h).open = False
        return 0

    @d('fflush')
    def fflush(h):
        if h:
            fobj(h)
        return 0

    @d('rewind')
    def rewind(h):
        f = fobj(h)
        f.pos = 0
        f.eof = False

    @d('feof')
    def feof(h):
        return 1 if fobj(h).eof else 0

    @d('fgets')
    def fgets(buf, n, h):
        f = fobj(h)
        n = int(n)
        if f.pos >= len(f.data):
            f.eof = True
            return 0
        e = f.data.find('\n', f.pos)
        e = len(f.data) if e < 0 else e + 1
        if e - f.pos > n - 1:
            e = f.pos + n - 1
        elif f.data[e - 1] != '\n':
            f.eof = True
        rt.putstr(buf, f.data[f.pos:e])
        f.pos = e
        return buf

    @d('fgetc', 'getc')
    def fgetc(h):
        f = fobj(h)
        if f.pos >= len(f.data):
            f.eof = True
            return -1
        c = ord(f.data[f.pos])
        f.pos += 1
        if c >= R_.SYMCH:
            v = rt.placeholders[c]
            return I(R_.z3.ZeroExt(32 - v.w, v.e), 32)
        return c

    @d('ungetc')
    def ungetc(c, h):
        f = fobj(h)
        if c.__class__ is I or c != -1:
            f.pos -= 1
            f.eof = False
        return c

    @d('__isoc99_fscanf', 'fscanf')
    def fscanf(h, fmt, *ptrs):
        f = fobj(h)
        rd = Reader(rt, f.data, f.pos)
        r = do_scanf(rt, rd, rt.getstr(fmt), ptrs)
        f.pos = rd.pos
        if rd.pos >= len(f.data):
            f.eof = True
        return r

    @d('__isoc99_sscanf', 'sscanf')
    def sscanf(p, fmt, *ptrs):
        rd = Reader(rt, rt.getstr(p))
        return do_scanf(rt, rd, rt.getstr(fmt), ptrs)

    @d('fprintf')
    def fprintf(h, fmt, *a):
        f = fobj(h)
        f.items.extend(format_items(rt, rt.getstr(fmt), a))
        return 1

    @d('printf')
    def printf(fmt, *a):
        rt.files_out['stdout'].items.extend(format_items(rt, rt.getstr(fmt), a))
        return 1

    @d('puts')
    def puts(s):
        rt.files_out['stdout'].items.append(rt.getstr(s) + '\n')
        return 1

    @d('putchar')
    def putchar(c):
        rt.files_out['stdout'].items.append(chr(int(c) & 255))
        return c

    @d('fputc', 'putc')
    def fputc(c, h):
        fobj(h).items.append(chr(int(c) & 255))
        return c

    @d('fputs')
    def fputs(s, h):
        fobj(h).items.append(rt.getstr(s))
        return 1

    @d('fwrite')
    def fwrite(p, sz, n, h):
        f = fobj(h)
        sz, n = int(sz), int(n)
        if h and f.name in ('stdout', 'stderr'):
            return n
        for k in range(n):
            f.bin.append((mem[p + k * sz], sz))
        return n

    def va_args(ap, fmt):
        m = mem[ap + 8]
        out = []
        k = 0
        for q in SPEC.finditer(fmt):
            if q.group(5) == '%':
                continue
            out.append(mem[m + 8 * k])
            k += 1
        return out

    @d('llvm.va_start')
    def va_start(ap, va):
        area = rt.alloc(8 * len(va) + 8, 'va', 'stack')
        for i, x in enumerate(va):
            mem[area + 8 * i] = x
        mem[ap] = 48
        mem[ap + 4] = 304
        mem[ap + 8] = area
        mem[ap + 16] = area

    @d('llvm.va_end')
    def va_end(ap):
        pass

    T['llvm.va_start.p0'] = va_start
    T['llvm.va_end.p0'] = va_end

    @d('vfprintf')
    def vfprintf(h, fmt, ap):
        s = rt.getstr(fmt)
        fobj(h).items.extend(format_items(rt, s, va_args(ap, s)))
        return 1

    def text(items):
        out = ''
        for x in items:
            if x.__class__ is not str:
                if x[1].__class__ is not I:
                    raise Unsupported('symbolic value formatted into a string')
                x = ''.join(format_items(rt, x[0], [int(x[1])]))      # forks over the values
            out += x
        return out

    @d('sprintf')
    def sprintf(p, fmt, *a):
        s = text(format_items(rt, rt.getstr(fmt), a))
        rt.putstr(p, s)
        return len(s)

    @d('snprintf')
    def snprintf(p, n, fmt, *a):
        s = text(format_items(rt, rt.getstr(fmt), a))
        n = int(n)
        if n > 0:
            rt.putstr(p, s[:n - 1])
        return len(s)

    # ---- process / time
    @d('exit')
    def exit_(c):
        raise ExitCall(int(c))

    @d('abort', '__stack_chk_fail')
    def abort_(*a):
        raise ExitCall(134)

    @d('__assert_fail')
    def afail(*a):
        raise ExitCall(134)

    T['time'] = lambda p: 0
    T['difftime'] = lambda a, b: 0.0
    T['clock'] = lambda: 0

    def ctime(p):
        return rt.cstr('Thu Jan  1 00:00:00 1970\n')
    T['ctime'] = ctime

    # ---- maths
    for n, f in (('sqrt', R_.msqrt), ('exp', R_.mexp), ('log', R_.mlog), ('sin', R_.msin), ('cos', R_.mcos),
                 ('fabs', R_.fabs), ('floor', R_.mfloor)):
        T[n] = f
        T['llvm.%s.f64' % n] = f
        T[n + 'f'] = (lambda g: lambda x: R_.rf(g(x)))(f)
        T['llvm.%s.f32' % n] = T[n + 'f']
    T['pow'] = T['llvm.pow.f64'] = R_.mpow
    T['powf'] = T['llvm.pow.f32'] = lambda a, b: R_.rf(R_.mpow(a, b))
    T['fmax'] = T['llvm.maxnum.f64'] = T['llvm.maxnum.f32'] = R_.mmax
    T['fmin'] = T['llvm.minnum.f64'] = T['llvm.minnum.f32'] = R_.mmin
    T['ceil'] = T['llvm.ceil.f64'] = lambda x: -R_.mfloor(-x)
    T['llvm.powi.f64.i32'] = lambda a, n: R_.mpow(a, float(n))
    T['tan'] = R_._m1('tan', math.tan)
    T['atan2'] = lambda a, b: math.atan2(a, b)
    T['acos'] = R_._m1('acos', math.acos)
    T['asin'] = R_._m1('asin', math.asin)
    T['cosh'] = R_._m1('cosh', math.cosh)
    T['sinh'] = R_._m1('sinh', math.sinh)
    T['log10'] = R_._m1('log10', math.log10)

    def fma(a, b, c):
        return a * b + c
    T['llvm.fmuladd.f32'] = lambda a, b, c: R_.rf(R_.rf(a * b) + c)
    T['llvm.fmuladd.f64'] = fma

    @d('llvm.abs.i32')
    def iabs(x, p=True):
        if x.__class__ is I:
            return R_.sel(x < 0, -x, x, x.w)
        return abs(x)
    T['abs'] = lambda x: iabs(x)

    def smx(a, b):
        return R_.sel(a > b, a, b, 32)

    def smn(a, b):
        return R_.sel(a < b, a, b, 32)
    T['llvm.smax.i32'], T['llvm.smin.i32'] = smx, smn
    T['llvm.umax.i64'] = lambda a, b: R_.sel(R_.i_ugt(a, b, 64), a, b, 64)
    T['llvm.umin.i64'] = lambda a, b: R_.sel(R_.i_ult(a, b, 64), a, b, 64)
    T['llvm.umax.i32'] = lambda a, b: R_.sel(R_.i_ugt(a, b, 32), a, b, 32)
    T['llvm.umin.i32'] = lambda a, b: R_.sel(R_.i_ult(a, b, 32), a, b, 32)

    # ---- complex
    def muldc3(a, b, c, d_):
        return (a * c - b * d_, a * d_ + b * c)
    T['__muldc3'] = muldc3
    T['__mulsc3'] = lambda a, b, c, d_: tuple(R_.rf(x) for x in muldc3(a, b, c, d_))

    def divdc3(a, b, c, d_):
        den = c * c + d_ * d_
        return (R_.fdiv(a * c + b * d_, den), R_.fdiv(b * c - a * d_, den))
    T['__divdc3'] = divdc3

    def cexp(a, b):
        e = R_.mexp(a) if not (a.__class__ is not R and a == 0) else 1.0
        return (e * R_.mcos(b), e * R_.msin(b))
    T['cexp'] = cexp
    T['cabs'] = lambda a, b: R_.msqrt(a * a + b * b)

    def carg(a, b):
        return math.atan2(b, a)
    T['carg'] = carg
    T['creal'] = lambda a, b: a
    T['cimag'] = lambda a, b: b
    more(rt, T, d, strtox, fobj, text, va_args, smx, smn, iabs)
    return T


def more(rt, T, d, strtox, fobj, text, va_args, smx, smn, iabs):
    """Functions the sources do not use today; a rewrite of them may."""
    mem = rt.mem
    sel = R_.sel

    # ---- memory
    T['llvm.memset.p0.i32'] = T['llvm.memset.p0.i64']
    T['llvm.memset.inline.p0.i64'] = T['llvm.memset.p0.i64']
    for n in ('llvm.memcpy.p0.p0.i32', 'llvm.memmove.p0.p0.i32', 'llvm.memcpy.inline.p0.p0.i64'):
        T[n] = T['llvm.memcpy.p0.p0.i64']

    @d('bzero')
    def bzero(p, n):
        rt.memset(p, 0, n)

    @d('mempcpy')
    def mempcpy(a, b, n):
        rt.memcpy(a, b, n)
        return a + n

    @d('realloc', 'reallocarray')
    def realloc(p, n, k=1):
        n = int(n) * int(k)
        p = int(p)
        q = T['malloc'](n)
        if p and q:
            o = rt.near(p)
            if o is None or o.base != p or o.kind != 'heap' or o.freed:
                raise UB('invalid realloc')
            rt.memcpy(q, p, min(n, o.size))
            rt.free(p)
        return q

    @d('aligned_alloc', 'memalign')
    def aligned(a, n):
        return T['malloc'](n)

    @d('posix_memalign')
    def pmemalign(pp, a, n):
        mem[rt.stchk(int(pp), 8)] = T['malloc'](n)
        return 0

    @d('memchr')
    def memchr(p, c, n):
        c = int(c) & 255
        for i in range(int(n)):
            x = mem[p + i]
            if (bool(x == c) if x.__class__ is I else (int(x) & 255) == c):
                return p + i
        return 0

    # ---- strings
    def chars(p, n=None):
        i = int(p)
        while n is None or i < p + n:
            x = mem[i]
            if x.__class__ is I:
                if bool(x == 0):
                    return
            elif x == 0:
                return
            yield i, x
            i += 1

    def has(x, c):
        return bool(x == c) if x.__class__ is I else (int(x) & 255) == c

    @d('strnlen')
    def strnlen(p, n):
        return sum(1 for _ in chars(p, int(n)))

    @d('strrchr', 'rindex')
    def strrchr(p, c):
        c = int(c) & 255
        if c == 0:
            return p + T['strlen'](p)
        r = 0
        for i, x in chars(p):
            if has(x, c):
                r = i
        return r
    T['index'] = T['strchr']

    @d('strchrnul')
    def strchrnul(p, c):
        r = T['strchr'](p, c)
        return r if r else p + T['strlen'](p)

    @d('stpcpy')
    def stpcpy(a, b):
        s = rt.getstr(b)
        rt.putstr(a, s)
        return a + len(s)

    @d('strdup', '__strdup')
    def strdup(p):
        s = rt.getstr(p)
        q = T['malloc'](len(s) + 1)
        rt.putstr(q, s)
        return q

    @d('strndup', '__strndup')
    def strndup(p, n):
        s = rt.getstr(p)[:R_._u(int(n), 64)]
        q = T['malloc'](len(s) + 1)
        rt.putstr(q, s)
        return q

    def inset(x, st):
        if x.__class__ is I:
            return bool(R_.lor(False, *[x == ord(c) for c in st]))
        return chr(int(x) & 255) in st

    def span(p, st, want):
        st = [c for c in rt.getstr(st)]
        n = 0
        for i, x in chars(p):
            if inset(x, st) != want:
                break
            n += 1
        return n
    T['strspn'] = lambda p, st: span(p, st, True)
    T['strcspn'] = lambda p, st: span(p, st, False)

    @d('strpbrk')
    def strpbrk(p, st):
        n = span(p, st, False)
        return p + n if n < T['strlen'](p) else 0

    @d('strtok_r', '__strtok_r')
    def strtok_r(p, st, save):
        p = int(p) or int(mem[save])
        p += span(p, st, True)
        q = rt.stchk(int(save), 8)
        if has(mem[p], 0):
            mem[q] = p
            return 0
        e = p + span(p, st, False)
        if has(mem[e], 0):
            mem[q] = e
        else:
            mem[rt.stchk(e, 1)] = 0
            mem[q] = e + 1
        return p

    @d('strtok')
    def strtok(p, st):
        if 'strtok' not in rt.symaddr:
            rt.symaddr['strtok'] = rt.alloc(8, 'strtok', 'global', zero=True)
        return strtok_r(p, st, rt.symaddr['strtok'])

    @d('strsep')
    def strsep(pp, st):
        p = int(mem[pp])
        if not p:
            return 0
        e = p + span(p, st, False)
        q = rt.stchk(int(pp), 8)
        if has(mem[e], 0):
            mem[q] = 0
        else:
            mem[rt.stchk(e, 1)] = 0
            mem[q] = e + 1
        return p

    def lower(x):
        if x.__class__ is I:
            return sel(R_.land(x >= 65, x <= 90), x + 32, x, x.w)
        x = int(x) & 255
        return x + 32 if 65 <= x <= 90 else x

    def upper(x):
        if x.__class__ is I:
            return sel(R_.land(x >= 97, x <= 122), x - 32, x, x.w)
        return x - 32 if 97 <= x <= 122 else x

    def casecmp(a, b, n):
        for i in range(n):
            x, y = lower(mem[a + i]), lower(mem[b + i])
            if bool(x != y):
                if x.__class__ is I or y.__class__ is I:
                    return 1
                return -1 if x < y else 1
            if bool(x == 0):
                return 0
        return 0
    T['strcasecmp'] = lambda a, b: casecmp(int(a), int(b), 1 << 30)
    T['strncasecmp'] = lambda a, b, n: casecmp(int(a), int(b), R_._u(int(n), 64))
    T['strcasestr'] = lambda a, b: (lambda k: 0 if k < 0 else a + k)(rt.getstr(a).lower().find(rt.getstr(b).lower()))
    T['strcoll'] = T['strcmp']
    T['tolower'], T['toupper'] = lower, upper

    def cls(f, g):
        def h(c):
            if c.__class__ is I:
                return 1 if bool(f(c)) else 0
            return int(bool(g(int(c) & 255)))
        return h
    digit = lambda c: R_.land(c >= 48, c <= 57)
    up = lambda c: R_.land(c >= 65, c <= 90)
    lo = lambda c: R_.land(c >= 97, c <= 122)
    xd = lambda c: R_.lor(digit(c), R_.land(c >= 65, c <= 70), R_.land(c >= 97, c <= 102))
    al = lambda c: R_.lor(up(c), lo(c))
    gr = lambda c: R_.land(c >= 33, c <= 126)
    for n, f in (('isdigit', digit), ('isupper', up), ('islower', lo), ('isalpha', al), ('isalnum', lambda c: R_.lor(al(c), digit(c))),
                 ('isxdigit', xd), ('isgraph', gr), ('isprint', lambda c: R_.land(c >= 32, c <= 126)),
                 ('iscntrl', lambda c: R_.lor(R_.land(c >= 0, c <= 31), c == 127)), ('isblank', lambda c: R_.lor(c == 32, c == 9)),
                 ('ispunct', lambda c: R_.land(gr(c), R_.lnot(R_.lor(al(c), digit(c))))), ('isascii', lambda c: R_.land(c >= 0, c <= 127))):
        T[n] = cls(f, f)

    def chartab(f):
        key = 'ctab' + f.__name__
        if key not in rt.symaddr or rt.find(rt.symaddr[key]) is None:
            t = rt.alloc(4 * 384, key, 'global', zero=True)
            for c in range(-128, 256):
                mem[t + 4 * (c + 128)] = f(c) if 0 <= c < 128 else c
            p = rt.alloc(8, key, 'global')
            mem[p] = t + 4 * 128
            rt.symaddr[key] = p
        return rt.symaddr[key]
    T['__ctype_tolower_loc'] = lambda: chartab(lower)
    T['__ctype_toupper_loc'] = lambda: chartab(upper)

    for n in ('strtoll', '__isoc99_strtoll', 'strtoull', '__isoc99_strtoul', '__isoc99_strtoull', '__isoc23_strtol', '__isoc23_strtoul',
              '__isoc23_strtoll', '__isoc23_strtoull'):
        T[n] = T['strtol']
    T['strtof'] = T['strtold'] = T['strtod']
    T['atol'] = T['atoll'] = lambda p: strtox(p, 0, 10, False)

    # ---- files
    T['fputs_unlocked'], T['fgetc_unlocked'] = T['fputs'], T['fgetc']
    T['getc'] = T['_IO_getc'] = T['fgetc']
    T['putc'] = T['_IO_putc'] = T['fputc']
    T['__isoc23_fscanf'] = T['__isoc99_fscanf'] = T['fscanf']
    T['__isoc23_sscanf'] = T['__isoc99_sscanf'] = T['sscanf']

    @d('getline')
    def getline(pp, pn, h):
        p, n = int(mem[pp]), int(mem[pn])
        if not p or n < 1:
            n = 1 << 14
            p = T['realloc'](p, n)
            mem[rt.stchk(int(pp), 8)] = p
            mem[rt.stchk(int(pn), 8)] = n
        return T['strlen'](p) if T['fgets'](p, n, h) else -1
    T['ferror'] = lambda h: (fobj(h), 0)[1]
    T['clearerr'] = lambda h: setattr(fobj(h), 'eof', False)
    T['setvbuf'] = lambda h, b, m, n: 0
    T['setbuf'] = lambda h, b: None
    T['perror'] = lambda s: None

    @d('vprintf')
    def vprintf(fmt, ap):
        s = rt.getstr(fmt)
        return T['printf'](fmt, *va_args(ap, s))

    @d('vsprintf')
    def vsprintf(p, fmt, ap):
        return T['sprintf'](p, fmt, *va_args(ap, rt.getstr(fmt)))

    @d('vsnprintf')
    def vsnprintf(p, n, fmt, ap):
        return T['snprintf'](p, n, fmt, *va_args(ap, rt.getstr(fmt)))
    T['llvm.va_copy'] = T['llvm.va_copy.p0'] = lambda a, b: rt.memcpy(a, b, 24)

    # ---- sorting: the order asked of the comparison function
    @d('qsort')
    def qsort(base, n, sz, f):
        import functools
        n, sz, base = int(n), int(sz), int(base)
        if n < 2:
            return
        tmp = rt.alloc(n * sz, 'qsort', 'heap')
        rt.memcpy(tmp, base, n * sz)
        g = rt.icall(f)
        ix = sorted(range(n), key=functools.cmp_to_key(lambda a, b: R_.sxt(int(g(tmp + a * sz, tmp + b * sz)), 32, 64)))
        for k, i in enumerate(ix):
            rt.memcpy(base + k * sz, tmp + i * sz, sz)
        rt.free(tmp)

    @d('bsearch')
    def bsearch(key, base, n, sz, f):
        lo_, hi_ = 0, int(n)
        g = rt.icall(f)
        while lo_ < hi_:
            k = (lo_ + hi_) // 2
            c = int(g(key, base + k * sz))
            if c == 0:
                return base + k * sz
            if c < 0:
                hi_ = k
            else:
                lo_ = k + 1
        return 0

    # ---- process
    T['_exit'] = T['_Exit'] = T['quick_exit'] = T['exit']
    T['atexit'] = lambda f: 0
    T['getenv'] = T['secure_getenv'] = lambda p: 0
    T['signal'] = lambda a, b: 0
    T['gettimeofday'] = T['clock_gettime'] = lambda a, b: 0
    T['omp_get_num_threads'] = T['omp_get_max_threads'] = lambda: 1
    T['omp_get_thread_num'] = lambda: 0
    T['omp_set_num_threads'] = lambda n: None
    T['llvm.trap'] = T['abort']

    # ---- maths
    m1 = R_._m1
    for n, f in (('tan', math.tan), ('atan', math.atan), ('acos', math.acos), ('asin', math.asin), ('cosh', math.cosh), ('sinh', math.sinh),
                 ('tanh', math.tanh), ('log10', math.log10), ('log2', math.log2), ('erf', math.erf), ('erfc', math.erfc), ('acosh', math.acosh),
                 ('asinh', math.asinh), ('atanh', math.atanh), ('tgamma', math.gamma), ('lgamma', math.lgamma)):
        T[n] = m1(n, f)
    T['exp2'] = lambda x: R_.mexp(x * math.log(2.0))
    T['exp10'] = lambda x: R_.mexp(x * math.log(10.0))
    T['expm1'] = lambda x: (R_.mexp(x) - 1.0) if x.__class__ is R else m1('', math.expm1)(x)
    T['log1p'] = lambda x: R_.mlog(x + 1.0) if x.__class__ is R else m1('', math.log1p)(x)
    T['cbrt'] = lambda x: R_.fn_atom('cbrt', x) if x.__class__ is R else math.copysign(abs(x) ** (1.0 / 3), x)
    T['hypot'] = lambda a, b: R_.msqrt(a * a + b * b)
    T['fdim'] = lambda a, b: R_.mmax(a - b, 0.0)
    T['fma'] = T['llvm.fma.f64'] = lambda a, b, c: a * b + c
    T['fmaf'] = T['llvm.fma.f32'] = lambda a, b, c: R_.rf(a * b + c)

    def fmod(a, b):
        if a.__class__ is R or b.__class__ is R:
            return R_.frem(a, b)
        try:
            return math.fmod(a, b)
        except ValueError:
            return R_.NAN
    T['fmod'] = fmod

    def real2(f):
        """A function of one concrete number; symbolic ones are left as terms."""
        def g(x):
            if x.__class__ is R:
                return R_.fn_atom(f.__name__, x)
            return x if x != x or x in (R_.INF, -R_.INF) else float(f(x))
        return g

    def trunc(x):
        return math.trunc(x)

    def round_away(x):
        return math.floor(abs(x) + 0.5) * math.copysign(1, x)

    def rint(x):
        return round(x)
    T['ceil'] = T['llvm.ceil.f64'] = lambda x: -R_.mfloor(-x)
    T['trunc'] = real2(trunc)
    T['round'] = lambda x: sel(x >= 0, R_.mfloor(x + 0.5), -R_.mfloor(-x + 0.5), 0) if x.__class__ is R else real2(round_away)(x)
    T['rint'] = T['nearbyint'] = lambda x: T['round'](x) if x.__class__ is R else real2(rint)(x)

    def tolong(f):
        return lambda x: R_.f2i(T[f](x), 64, True)
    T['lround'] = T['llround'] = tolong('round')
    T['lrint'] = T['llrint'] = tolong('rint')

    def copysign(a, b):
        if a.__class__ is R or b.__class__ is R:
            m = R_.fabs(a)
            return sel(b >= 0, m, -m, 0)
        return math.copysign(a, b)
    T['copysign'] = copysign
    T['ldexp'] = lambda x, n: x * 2.0 ** int(n)
    T['llvm.is.fpclass.f64'] = T['llvm.is.fpclass.f32'] = lambda x, m: fpclass(x, int(m))

    def fpclass(x, m):
        if x.__class__ is R:            # finite: zero or normal, of either sign
            neg, zero, pos = x < 0, x == 0, x > 0
            return R_.lor(R_.land(bool(m & 8), neg), R_.land(bool(m & 96), zero), R_.land(bool(m & 256), pos))
        x = float(x)
        if x != x:
            k = 2
        elif x in (R_.INF, -R_.INF):
            k = 512 if x > 0 else 4
        elif x == 0:
            k = 32 if math.copysign(1, x) < 0 else 64
        else:
            k = 256 if x > 0 else 8
        return bool(m & k)
    T['__isnan'] = T['isnan'] = lambda x: int(x.__class__ is not R and x != x)
    T['__isinf'] = T['isinf'] = lambda x: int(x.__class__ is not R and x in (R_.INF, -R_.INF))
    T['__finite'] = T['finite'] = lambda x: int(x.__class__ is R or (x == x and x not in (R_.INF, -R_.INF)))
    for n in ('ceil', 'trunc', 'round', 'rint', 'nearbyint', 'copysign', 'exp2', 'exp10', 'log2', 'log10', 'tan', 'ldexp'):
        T.setdefault('llvm.%s.f64' % n, T[n])
    for n in ('tan', 'atan', 'acos', 'asin', 'cosh', 'sinh', 'tanh', 'log10', 'log2', 'exp2', 'expm1', 'log1p', 'cbrt', 'hypot', 'fdim', 'fmod', 'ceil', 'trunc',
              'round', 'rint', 'nearbyint', 'copysign', 'atan2', 'ldexp', 'exp10', 'fmax', 'fmin', 'erf', 'erfc'):
        T.setdefault(n + 'f', (lambda g: lambda *x: R_.rf(g(*x)))(T[n]))
        T.setdefault('llvm.%s.f32' % n, T[n + 'f'])
    T['llvm.roundeven.f64'] = T['rint']
    T['llvm.roundeven.f32'] = T['rintf']
    for n in ('lround', 'llround', 'lrint', 'llrint'):
        T[n + 'f'] = T[n]
        for a in ('i64.f64', 'i64.f32'):
            T['llvm.%s.%s' % (n, a)] = T[n]
    T['llvm.powi.f32.i32'] = lambda a, n: R_.rf(R_.mpow(a, float(int(n))))
    T['llvm.powi.f64.i32'] = lambda a, n: R_.mpow(a, float(int(n)))
    T['llvm.minimum.f64'] = T['llvm.minimum.f32'] = R_.mmin
    T['llvm.maximum.f64'] = T['llvm.maximum.f32'] = R_.mmax

    # ---- integers
    T['llvm.abs.i64'] = T['llvm.abs.i16'] = T['llvm.abs.i8'] = iabs
    T['labs'] = T['llabs'] = lambda x: iabs(x)
    for w in (8, 16, 32, 64):
        T['llvm.smax.i%d' % w] = (lambda w: lambda a, b: sel(a > b, a, b, w))(w)
        T['llvm.smin.i%d' % w] = (lambda w: lambda a, b: sel(a < b, a, b, w))(w)
        T['llvm.umax.i%d' % w] = (lambda w: lambda a, b: sel(R_.i_ugt(a, b, w), a, b, w))(w)
        T['llvm.umin.i%d' % w] = (lambda w: lambda a, b: sel(R_.i_ult(a, b, w), a, b, w))(w)

    def sat(a, b, w):
        r = a + b
        if a.__class__ is I or b.__class__ is I:
            raise Unsupported('saturating arithmetic')
        return max(-(1 << (w - 1)), min(r, (1 << (w - 1)) - 1))

    def usubsat(w):
        def f(a, b):
            if a.__class__ is I or b.__class__ is I:
                return sel(R_.i_ugt(a, b, w), a - b, 0, w)
            return wr(max(R_._u(int(a), w) - R_._u(int(b), w), 0), w)
        return f
    for w in (32, 64):
        T['llvm.usub.sat.i%d' % w] = usubsat(w)
        T['llvm.sadd.sat.i%d' % w] = (lambda w: lambda a, b: sat(a, b, w))(w)
        T['llvm.ssub.sat.i%d' % w] = (lambda w: lambda a, b: sat(a, -b, w))(w)
        T['llvm.ctpop.i%d' % w] = (lambda w: lambda a: bin(R_._u(int(a), w)).count('1'))(w)
        T['llvm.fshl.i%d' % w] = (lambda w: lambda a, b, n: wr(((R_._u(int(a), w) << (int(n) % w)) | (R_._u(int(b), w) >> (w - int(n) % w))), w))(w)
    for nm, op in (('sadd', lambda a, b: a + b), ('ssub', lambda a, b: a - b), ('smul', lambda a, b: a * b)):
        for w in (32, 64):
            def ov(a, b, op=op, w=w):
                a, b = int(a), int(b)
                r = op(a, b)
                q = ((r + (1 << (w - 1))) % (1 << w)) - (1 << (w - 1))
                return (q, q != r)
            T['llvm.%s.with.overflow.i%d' % (nm, w)] = ov
    T['llvm.expect.i64'] = T['llvm.expect.i32'] = T['llvm.expect.i1'] = lambda a, b: a
    T['llvm.is.constant.i32'] = T['llvm.is.constant.i64'] = lambda a: False
    T['llvm.objectsize.i64.p0'] = lambda p, *a: -1
    T['llvm.stacksave'] = T['llvm.stacksave.p0'] = lambda: 0
    T['llvm.stackrestore'] = T['llvm.stackrestore.p0'] = lambda p: None
    T['llvm.prefetch.p0'] = lambda *a: None

    # ---- fortified variants
    T['__memcpy_chk'] = T['__memmove_chk'] = lambda a, b, n, k: T['memcpy'](a, b, n)
    T['__memset_chk'] = lambda a, v, n, k: T['memset'](a, v, n)
    T['__strcpy_chk'] = lambda a, b, k: T['strcpy'](a, b)
    T['__strncpy_chk'] = lambda a, b, n, k: T['strncpy'](a, b, n)
    T['__strcat_chk'] = lambda a, b, k: T['strcat'](a, b)
    T['__strncat_chk'] = lambda a, b, n, k: T['strncat'](a, b, n)
    T['__sprintf_chk'] = lambda p, fl, k, f, *a: T['sprintf'](p, f, *a)
    T['__snprintf_chk'] = lambda p, n, fl, k, f, *a: T['snprintf'](p, n, f, *a)
    T['__printf_chk'] = lambda fl, f, *a: T['printf'](f, *a)
    T['__fprintf_chk'] = lambda h, fl, f, *a: T['fprintf'](h, f, *a)
    T['__vfprintf_chk'] = lambda h, fl, f, ap: T['vfprintf'](h, f, ap)

    # ---- complex
    def csqrt(a, b):
        if a.__class__ is R or b.__class__ is R:
            m = R_.msqrt(a * a + b * b)
            re = R_.msqrt((m + a) * 0.5)
            im = R_.msqrt((m - a) * 0.5)
            return (re, sel(b >= 0, im, -im, 0))
        import cmath
        z = cmath.sqrt(complex(a, b))
        return (z.real, z.imag)
    T['csqrt'] = csqrt
    T['conj'] = lambda a, b: (a, -b)
    T['cproj'] = lambda a, b: (a, b)
    T['clog'] = lambda a, b: (R_.mlog(T['cabs'](a, b)), T['carg'](a, b))

    def cpow(a, b, c, e):
        import cmath
        z = complex(float(a), float(b)) ** complex(float(c), float(e))
        return (z.real, z.imag)
    T['cpow'] = cpow
    for n in ('cexp', 'csqrt', 'clog'):
        T.setdefault(n + 'f', T[n])
    T['__divsc3'] = lambda a, b, c, e: tuple(R_.rf(x) for x in T['__divdc3'](a, b, c, e))
