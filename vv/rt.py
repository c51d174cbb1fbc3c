"""Symbolic runtime: values, memory, path exploration, libc model.

Value domain
  integers   Python ints in signed canonical form, or I (z3 bit-vector)
  i1         Python bool, or B (z3 Bool)
  reals      Python floats (IEEE double; 'float' results are rounded to binary32), or R: a polynomial with
             double coefficients over symbolic atoms, interpreted in exact real arithmetic
  pointers   integers in a flat address space with guard gaps between objects
"""
import bisect, ctypes, math, os, re, struct, sys, time
import z3
from . import irc

c_float = ctypes.c_float
INF, NAN = float('inf'), float('nan')
GUARD = 1 << 21


class Abort(Exception):
    """End of a path that is not a normal return."""


class ExitCall(Abort):
    def __init__(self, code):
        self.code = code


class UB(Abort):
    """Undefined behaviour reached (out-of-bounds access, use of an uninitialised value, ...)."""


class Unreachable(Abort):
    pass


class Unsupported(Exception):
    pass


class Infeasible(Abort):
    pass


class StepLimit(Abort):
    pass


ENG = None      # current engine


# ====================================================================== reals
class Atom:
    __slots__ = ('id', 'kind', 'data', 'z', 'name')


ATOMS = []
ATOMKEY = {}
INVOF = {}      # atom id -> atom id of its reciprocal (single-atom reciprocals only)


def atom(kind, data, name):
    k = (kind, data)
    a = ATOMKEY.get(k)
    if a is None:
        a = Atom()
        a.id, a.kind, a.data, a.name = len(ATOMS), kind, data, name
        a.z = None
        ATOMS.append(a)
        ATOMKEY[k] = a
    return a


def pkey(p):
    return tuple(sorted(p.items()))


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    r = sorted(m1 + m2)
    if INVOF:
        ch = True
        while ch:
            ch = False
            for a in r:
                b = INVOF.get(a)
                if b is not None and b in r:
                    r.remove(a)
                    r.remove(b)
                    ch = True
                    break
    return tuple(r)


def num(x):
    c = x.__class__
    if c is float:
        return x
    return float(x)


def mk(p):
    if not p:
        return 0.0
    if len(p) == 1 and () in p:
        return p[()]
    return R(p)


class R:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __add__(s, o):
        a = s.p
        if o.__class__ is R:
            b = o.p
            if len(a) < len(b):
                a, b = b, a
            p = dict(a)
            for m, c in b.items():
                n = p.get(m)
                if n is None:
                    p[m] = c
                else:
                    n += c
                    if n == 0.0:
                        del p[m]
                    else:
                        p[m] = n
            return mk(p)
        if o.__class__ is I:
            o = i2f(o, o.w, True, False)
            return s + o
        if o == 0:
            return s
        p = dict(a)
        n = p.get((), 0.0) + o
        if n == 0.0:
            p.pop((), None)
        else:
            p[()] = n
        return mk(p)

    __radd__ = __add__

    def __neg__(s):
        return R({m: -c for m, c in s.p.items()})

    def __pos__(s):
        return s

    def __sub__(s, o):
        return s + (-o)

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, o):
        if o.__class__ is R:
            a, b = s.p, o.p
            p = {}
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m = mmul(m1, m2)
                    n = p.get(m)
                    v = c1 * c2
                    if n is None:
                        p[m] = v
                    else:
                        n += v
                        if n == 0.0:
                            del p[m]
                        else:
                            p[m] = n
            if len(p) > 20000:
                raise Unsupported('polynomial too large')
            return mk(p)
        if o == 0:
            return 0.0
        if o == 1:
            return s
        o = float(o)
        return mk({m: c * o for m, c in s.p.items() if c * o != 0.0})

    __rmul__ = __mul__

    def inv(s):
        p = s.p
        if len(p) == 1:
            (m, c), = p.items()
            r = ()
            for a in m:
                b = INVOF.get(a)
                if b is None:
                    at = atom('inv', ((((a,), 1.0)),), None)
                    b = at.id
                    INVOF[a] = b
                    INVOF[b] = a
                r = mmul(r, (b,))
            if ENG is not None:
                ENG.divisor(s)
            return R({r: 1.0 / c})
        lead = min(p)
        c = p[lead]
        q = {m: x / c for m, x in p.items()}
        at = atom('inv', pkey(q), None)
        if ENG is not None:
            ENG.divisor(s)
        return R({(at.id,): 1.0 / c})

    def __truediv__(s, o):
        if o.__class__ is R:
            if o.p == s.p:
                return 1.0
            return s * o.inv()
        if o == 0:
            raise UB('division of a symbolic value by zero')
        return s * (1.0 / o)

    def __rtruediv__(s, o):
        if o == 0:
            return 0.0
        return s.inv() * o

    def __abs__(s):
        return fabs(s)

    def z(s):
        return poly_z(s.p)

    def _cmp(s, o, op):
        d = s - o
        if d.__class__ is not R:
            return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0, '==': d == 0, '!=': d != 0}[op]
        return B(real_cmp(d, op))

    def __lt__(s, o):
        return s._cmp(o, '<')

    def __le__(s, o):
        return s._cmp(o, '<=')

    def __gt__(s, o):
        return s._cmp(o, '>')

    def __ge__(s, o):
        return s._cmp(o, '>=')

    def __eq__(s, o):
        return s._cmp(o, '==')

    def __ne__(s, o):
        return s._cmp(o, '!=')

    __hash__ = None

    def __float__(s):
        raise Unsupported('symbolic real used where a concrete value is needed: %r' % s)

    def __repr__(s):
        def mn(m):
            return '*'.join(aname(a) for a in m)
        it = list(s.p.items())
        return ' + '.join('%.9g%s' % (c, '*' + mn(m) if m else '') for m, c in it[:12]) + (' + ...' if len(it) > 12 else '')


def aname(i):
    a = ATOMS[i]
    if a.kind == 'var':
        return a.name
    if a.kind == 'inv':
        return '1/(%s)' % ' + '.join('%.6g%s' % (c, '*'.join([''] + [aname(x) for x in m])) for m, c in a.data[:6])
    return '%s#%d' % (a.name or a.kind, i)


_frac = {}


def zq(c):
    z = _frac.get(c)
    if z is None:
        if c != c or c in (INF, -INF):
            raise UB('non-finite coefficient')
        n, d = float(c).as_integer_ratio()
        z = z3.RatVal(n, d) if d != 1 else z3.RealVal(n)
        _frac[c] = z
    return z


def atom_z(i):
    a = ATOMS[i]
    if a.z is None:
        if a.kind == 'var':
            a.z = z3.Real(a.name)
        elif a.kind == 'fn':
            a.z = z3.Real('%s!%d' % (a.name, i))
        elif a.kind == 'ite':
            c, x, y = a.data[0].e, a.data[1], a.data[2]
            a.z = z3.If(c, rz(x), rz(y))
        elif a.kind == 'i2r':
            a.z = z3.ToReal(z3.BV2Int(a.data[0].e, a.data[1]))
        else:
            a.z = z3.Real('%s!%d' % (a.kind, i))
    return a.z


def rz(x):
    if x.__class__ is R:
        return x.z()
    return zq(float(x))


def poly_z(p):
    ts = []
    for m, c in p.items():
        if not m:
            ts.append(zq(c))
        elif len(m) == 1:
            ts.append(zq(c) * atom_z(m[0]))
        else:
            ts.append(z3.Product([zq(c)] + [atom_z(a) for a in m]))
    if len(ts) == 1:
        return ts[0]
    return z3.Sum(ts)


def real_cmp(d, op):
    z = d.z()
    return {'<': lambda: z < 0, '<=': lambda: z <= 0, '>': lambda: z > 0, '>=': lambda: z >= 0,
            '==': lambda: z == 0, '!=': lambda: z != 0}[op]()


class ZKey:
    """hashable wrapper of a z3 expression (used inside atom keys)."""
    __slots__ = ('e', 'h')

    def __init__(self, e):
        self.e = e
        self.h = e.hash()

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.e.eq(o.e)


def poly_atoms(p, out):
    """All atoms reachable from a polynomial, including those inside definitions."""
    for m in p:
        for a in m:
            if a not in out:
                out.add(a)
                at = ATOMS[a]
                if at.kind == 'inv':
                    poly_atoms(dict(at.data), out)
                elif at.kind == 'fn':
                    for k in at.data[1:]:
                        if k.__class__ is tuple:
                            poly_atoms(dict(k), out)
                elif at.kind == 'ite':
                    for x in at.data[1:3]:
                        if x.__class__ is R:
                            poly_atoms(x.p, out)
                    for x in at.data[3]:
                        if x not in out:
                            poly_atoms({(x,): 1.0}, out)


def atom_axioms(aid):
    """Facts about a defined atom that every query mentioning it gets."""
    a = ATOMS[aid]
    z = atom_z(aid)
    if a.kind == 'inv':
        return [z * poly_z(dict(a.data)) == 1]
    if a.kind == 'fn':
        n = a.data[0]
        x = poly_z(dict(a.data[1])) if len(a.data) > 1 and a.data[1].__class__ is tuple else None
        if n == 'sqrt':
            return [z >= 0, z * z == x]
        if n in ('sin', 'cos'):
            other = ATOMKEY.get(('fn', ('cos' if n == 'sin' else 'sin', a.data[1])))
            ax = [z >= -1, z <= 1]
            if other is not None:
                ax.append(z * z + atom_z(other.id) * atom_z(other.id) == 1)
            return ax
        if n == 'exp':
            return [z > 0, z3.Implies(x <= 0, z <= 1), z3.Implies(x >= 0, z >= 1), z >= 1 + x, z3.Implies(z3.And(x >= 0, x <= 1), z <= 1 + 2 * x)]
        if n == 'fabs':
            return [z >= 0, z3.Or(z == x, z == -x)]
        if n == 'floor':
            k = z3.Int('floori!%d' % aid)
            return [z == z3.ToReal(k), z <= x, z > x - 1]
        if n == 'log':
            return []
    return []


def fn_atom(name, *args):
    keys = []
    for a in args:
        if a.__class__ is R:
            keys.append(pkey(a.p))
        else:
            keys.append((((), float(a)),))
    if name in SNAP and len(keys) == 1 and ('fn', (name,) + tuple(keys)) not in ATOMKEY:
        # arguments that differ by single-precision rounding of their constants are one argument: rounding is outside the claim
        k = (name, tuple(m for m, c in keys[0]))
        for old in SNAPPED.setdefault(k, []):
            if all(abs(x[1] - y[1]) <= 2e-6 * abs(y[1]) for x, y in zip(keys[0], old)):
                keys[0] = old
                break
        else:
            SNAPPED[k].append(keys[0])
    at = atom('fn', (name,) + tuple(keys), name)
    return R({(at.id,): 1.0})


SNAP = ('exp', 'sin', 'cos', 'sqrt', 'log')
SNAPPED = {}


def fabs(x):
    if x.__class__ is R:
        c = x >= 0
        if c is True:
            return x
        if c is False:
            return -x
        return fn_atom('fabs', x)
    return abs(x)


def msqrt(x):
    if x.__class__ is R:
        return fn_atom('sqrt', x)
    if x < 0:
        return NAN
    return math.sqrt(x)


def _m1(name, f):
    def g(x):
        if x.__class__ is R:
            return fn_atom(name, x)
        try:
            return f(x)
        except OverflowError:
            return INF
        except ValueError:
            return NAN
    return g


mexp, mlog = _m1('exp', math.exp), _m1('log', math.log)


def msin(x):
    if x.__class__ is R:
        r = fn_atom('sin', x)
        fn_atom('cos', x)
        return r
    return math.sin(x)


def mcos(x):
    if x.__class__ is R:
        r = fn_atom('cos', x)
        fn_atom('sin', x)
        return r
    return math.cos(x)


def mpow(a, b):
    if b.__class__ is R or (a.__class__ is R and not float(b).is_integer()):
        return fn_atom('pow', a, b)
    if a.__class__ is R:
        n = int(b)
        if n < 0:
            return 1.0 / mpow(a, -n)
        r = 1.0
        for _ in range(n):
            r = a * r
        return r
    try:
        return math.pow(a, b)
    except (OverflowError, ValueError, ZeroDivisionError):
        return INF


def mfloor(x):
    if x.__class__ is R:
        return fn_atom('floor', x)
    return float(math.floor(x))


def mmax(a, b):
    if a.__class__ is R or b.__class__ is R:
        return sel(a >= b, a, b, 0)
    return max(a, b)


def mmin(a, b):
    if a.__class__ is R or b.__class__ is R:
        return sel(a <= b, a, b, 0)
    return min(a, b)


def rf(x):
    if x.__class__ is float:
        return c_float(x).value
    if x.__class__ is R:
        return x
    return c_float(float(x)).value


def fdiv(a, b):
    if b.__class__ is R or a.__class__ is R:
        return a / b
    try:
        return a / b
    except ZeroDivisionError:
        a = float(a)
        b = float(b)
        if a != a or a == 0:
            return NAN
        return INF if (a > 0) == (math.copysign(1, b) > 0) else -INF


def frem(a, b):
    return math.fmod(a, b)


def fone(a, b):
    return (a < b) | (a > b)


def fueq(a, b):
    if a.__class__ is R or b.__class__ is R:
        return a == b
    return not (a < b or a > b)


def fult(a, b):
    if a.__class__ is R or b.__class__ is R:
        return a < b
    return not (a >= b)


def fule(a, b):
    if a.__class__ is R or b.__class__ is R:
        return a <= b
    return not (a > b)


def fugt(a, b):
    if a.__class__ is R or b.__class__ is R:
        return a > b
    return not (a <= b)


def fuge(a, b):
    if a.__class__ is R or b.__class__ is R:
        return a >= b
    return not (a < b)


def funo(a, b):
    if a.__class__ is R:
        a = 0.0
    if b.__class__ is R:
        b = 0.0
    return a != a or b != b


def ford(a, b):
    return not funo(a, b)


# ====================================================================== booleans / integers
class B:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __and__(s, o):
        if o.__class__ is B:
            return B(z3.And(s.e, o.e))
        if o.__class__ is Undef:
            return o._and(s)
        return s if o else False

    __rand__ = __and__

    def __or__(s, o):
        if o.__class__ is B:
            return B(z3.Or(s.e, o.e))
        if o.__class__ is Undef:
            return o._or(s)
        return True if o else s

    __ror__ = __or__

    def __xor__(s, o):
        if o.__class__ is B:
            return B(z3.Xor(s.e, o.e))
        return B(z3.Not(s.e)) if o else s

    __rxor__ = __xor__

    def __invert__(s):
        return B(z3.Not(s.e))

    def __eq__(s, o):
        if o.__class__ is B:
            return B(s.e == o.e)
        return s if o else B(z3.Not(s.e))

    def __ne__(s, o):
        if o.__class__ is B:
            return B(s.e != o.e)
        return B(z3.Not(s.e)) if o else s

    __hash__ = None

    def __int__(s):
        raise Unsupported('int of symbolic bool')


def lnot(x):
    return ~x if x.__class__ is B else (not x)


def land(*xs):
    es = []
    for x in xs:
        if x.__class__ is B:
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return B(z3.And(es)) if len(es) > 1 else B(es[0])


def lor(*xs):
    es = []
    for x in xs:
        if x.__class__ is B:
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return B(z3.Or(es)) if len(es) > 1 else B(es[0])


def implies(a, b):
    return lor(lnot(a), b)


def simpI(e, w):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return I(e, w)


class I:
    __slots__ = ('e', 'w')

    def __init__(self, e, w):
        self.e, self.w = e, w

    def _o(s, o):
        if o.__class__ is I:
            if o.w != s.w:
                raise Unsupported('width mismatch %d/%d' % (s.w, o.w))
            return o.e
        return z3.BitVecVal(int(o), s.w)

    def __add__(s, o):
        if o.__class__ is int and o == 0:
            return s
        if o.__class__ is R:
            return NotImplemented
        return simpI(s.e + s._o(o), s.w)

    __radd__ = __add__

    def __sub__(s, o):
        return simpI(s.e - s._o(o), s.w)

    def __rsub__(s, o):
        return simpI(s._o(o) - s.e, s.w)

    def __mul__(s, o):
        if o.__class__ is int and o == 1:
            return s
        return simpI(s.e * s._o(o), s.w)

    __rmul__ = __mul__

    def __neg__(s):
        return simpI(-s.e, s.w)

    def __and__(s, o):
        return simpI(s.e & s._o(o), s.w)

    __rand__ = __and__

    def __or__(s, o):
        return simpI(s.e | s._o(o), s.w)

    __ror__ = __or__

    def __xor__(s, o):
        return simpI(s.e ^ s._o(o), s.w)

    __rxor__ = __xor__

    def __lshift__(s, o):
        return simpI(s.e << s._o(o), s.w)

    def __rlshift__(s, o):
        return simpI(s._o(o) << s.e, s.w)

    def _c(s, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return B(e)

    def __lt__(s, o):
        return s._c(s.e < s._o(o))

    def __le__(s, o):
        return s._c(s.e <= s._o(o))

    def __gt__(s, o):
        return s._c(s.e > s._o(o))

    def __ge__(s, o):
        return s._c(s.e >= s._o(o))

    def __eq__(s, o):
        return s._c(s.e == s._o(o))

    def __ne__(s, o):
        return s._c(s.e != s._o(o))

    def __hash__(s):
        return 7

    def __index__(s):
        return ENG.concretize(s)

    def __int__(s):
        return ENG.concretize(s)

    def __repr__(s):
        return 'I<%s>' % str(s.e)[:80]


def wr(x, n):
    """Wrap to n bits, signed canonical (also serves trunc)."""
    if x.__class__ is int or x.__class__ is bool:
        x &= (1 << n) - 1
        return x - (1 << n) if x >> (n - 1) else x
    if x.__class__ is I:
        if x.w == n:
            return x
        if x.w > n:
            return simpI(z3.Extract(n - 1, 0, x.e), n)
    if x.__class__ is Undef:
        x._ub()
    raise Unsupported('wr %r %d' % (x, n))


def ovf(x, n):
    if x.__class__ is int:
        if not -(1 << (n - 1)) <= x < (1 << (n - 1)):
            raise UB('signed overflow')
    return x


def sxt(x, a, b):
    if x.__class__ is I:
        if x.w == b:
            return x
        return simpI(z3.SignExt(b - x.w, x.e), b)
    return int(x)


def zxt(x, a, b):
    if x.__class__ is I:
        if x.w == b:
            return x
        return simpI(z3.ZeroExt(b - x.w, x.e), b)
    return x & ((1 << a) - 1)


def zx1(x, n=8):
    if x.__class__ is B:
        return I(z3.If(x.e, z3.BitVecVal(1, n), z3.BitVecVal(0, n)), n)
    return int(x)


def tr1(x):
    if x.__class__ is I:
        return x._c(z3.Extract(0, 0, x.e) == 1)
    return bool(x & 1)


def _u(x, n):
    return x & ((1 << n) - 1)


def _ie(x, n):
    return x.e if x.__class__ is I else z3.BitVecVal(int(x), n)


def i_lshr(a, b, n):
    if a.__class__ is I or b.__class__ is I:
        return simpI(z3.LShR(_ie(a, n), _ie(b, n)), n)
    return wr(_u(a, n) >> b, n)


def i_ashr(a, b, n):
    if a.__class__ is I or b.__class__ is I:
        return simpI(_ie(a, n) >> _ie(b, n), n)
    return a >> b


def i_udiv(a, b, n):
    if a.__class__ is I or b.__class__ is I:
        return simpI(z3.UDiv(_ie(a, n), _ie(b, n)), n)
    if b == 0:
        raise UB('integer division by zero')
    return wr(_u(a, n) // _u(b, n), n)


def i_urem(a, b, n):
    if a.__class__ is I or b.__class__ is I:
        return simpI(z3.URem(_ie(a, n), _ie(b, n)), n)
    if b == 0:
        raise UB('integer division by zero')
    return wr(_u(a, n) % _u(b, n), n)


def i_sdiv(a, b, n):
    if a.__class__ is I or b.__class__ is I:
        return simpI(_ie(a, n) / _ie(b, n), n)
    if b == 0:
        raise UB('integer division by zero')
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def i_srem(a, b, n):
    if a.__class__ is I or b.__class__ is I:
        return simpI(z3.SRem(_ie(a, n), _ie(b, n)), n)
    if b == 0:
        raise UB('integer division by zero')
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def _ucmp(name, zf, pf):
    def g(a, b, n):
        if a.__class__ is I or b.__class__ is I:
            e = z3.simplify(zf(_ie(a, n), _ie(b, n)))
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            return B(e)
        return pf(_u(a, n), _u(b, n))
    return g


i_ult = _ucmp('ult', z3.ULT, lambda a, b: a < b)
i_ule = _ucmp('ule', z3.ULE, lambda a, b: a <= b)
i_ugt = _ucmp('ugt', z3.UGT, lambda a, b: a > b)
i_uge = _ucmp('uge', z3.UGE, lambda a, b: a >= b)


def i2f(x, n, signed, isf):
    if x.__class__ is I:
        at = atom('i2r', (ZKey(x.e), signed), 'i2r')
        return R({(at.id,): 1.0})
    x = int(x)
    if not signed:
        x = _u(x, n)
    return c_float(x).value if isf else float(x)


def as_int(x, n):
    """The integer a real was converted from, or None."""
    if x.__class__ is float or x.__class__ is int:
        return wr(int(x), n) if x == int(x) else None
    if x.__class__ is R and len(x.p) == 1:
        (m, k), = x.p.items()
        if k == 1.0 and len(m) == 1:
            a = ATOMS[m[0]]
            if a.kind == 'i2r' and a.data[1] and a.data[0].e.size() == n:
                return I(a.data[0].e, n)
            if a.kind == 'ite':
                u, v = as_int(a.data[1], n), as_int(a.data[2], n)
                if u is not None and v is not None:
                    return simpI(z3.If(a.data[0].e, _ie(u, n), _ie(v, n)), n)
    return None


def f2i(x, n, signed):
    if x.__class__ is R:
        v = as_int(x, n)
        if v is not None:
            return v
        # truncation towards zero of a symbolic real: fork on the integer value
        zx = x.z()
        e = z3.If(zx >= 0, z3.ToInt(zx), -z3.ToInt(-zx))
        v = ENG.concretize_int(e, x)
        return v
    if x != x or x in (INF, -INF):
        return -(1 << (n - 1))
    return wr(int(x), n)


def sel(c, a, b, n):
    if c.__class__ is not B:
        return a if c else b
    if a.__class__ is R or b.__class__ is R or a.__class__ is float or b.__class__ is float:
        if a.__class__ is not R and b.__class__ is not R and a == b:
            return a
        ats = set()
        for x in (a, b):
            if x.__class__ is R:
                poly_atoms(x.p, ats)
        for e in cond_atoms(c.e):
            ats.add(e)
        at = atom('ite', IteKey(ZKey(c.e), a, b, tuple(sorted(ats))), 'ite')
        return R({(at.id,): 1.0})
    if a.__class__ is B or b.__class__ is B or n == 1:
        ea = a.e if a.__class__ is B else z3.BoolVal(bool(a))
        eb = b.e if b.__class__ is B else z3.BoolVal(bool(b))
        return B(z3.If(c.e, ea, eb))
    return simpI(z3.If(c.e, _ie(a, n), _ie(b, n)), n)


class IteKey(tuple):
    def __new__(cls, c, a, b, ats):
        o = tuple.__new__(cls, (c, a, b, ats))
        return o

    def __hash__(self):
        return hash(self[0])

    def __eq__(self, o):
        if o.__class__ is not IteKey or not self[0] == o[0]:
            return False
        for x, y in ((self[1], o[1]), (self[2], o[2])):
            if x.__class__ is R:
                if y.__class__ is not R or x.p != y.p:
                    return False
            elif y.__class__ is R or x != y:
                return False
        return True


_zname = {}


def cond_atoms(e, memo=None):
    """Defined atoms whose z3 constant occurs in e (so their axioms are added)."""
    out = set()
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if '!' in n:
                try:
                    k = int(n.rsplit('!', 1)[1])
                except ValueError:
                    continue
                if k < len(ATOMS) and ATOMS[k].z is not None and ATOMS[k].z.eq(x):
                    if k not in out:
                        s2 = set()
                        poly_atoms({(k,): 1.0}, s2)
                        out |= s2
                        out.add(k)
        else:
            st.extend(x.children())
    return out


def insv(a, b, i, n):
    l = list(a) if a.__class__ is tuple else [0] * n
    l[i] = b
    return tuple(l)


# ====================================================================== memory
class Obj:
    __slots__ = ('base', 'size', 'name', 'kind', 'zero', 'freed')

    def copy(self):
        o = Obj()
        o.base, o.size, o.name, o.kind, o.zero, o.freed = self.base, self.size, self.name, self.kind, list(self.zero), self.freed
        return o


class Mem(dict):
    rt = None

    def __missing__(self, a):
        return self.rt.load_missing(a)


BLK = [0]


class Undef:
    """An uninitialised value: may be copied, using it is undefined behaviour."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def _ub(self, *a):
        raise UB(self.why)

    def _same(self, o):
        return self

    def _and(self, o):      # the compiler may evaluate both sides of && and || when that is harmless
        if o.__class__ is B:
            o = bool(o)
        return False if o is False else self

    def _or(self, o):
        if o.__class__ is B:
            o = bool(o)
        return True if o is True else self


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'neg', 'abs',
           'lshift', 'rlshift', 'bool', 'int', 'float', 'index', 'hash'):
    setattr(Undef, '__%s__' % _n, Undef._ub)
for _n in ('xor', 'rxor', 'lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(Undef, '__%s__' % _n, Undef._same)
for _n in ('and', 'or'):
    setattr(Undef, '__%s__' % _n, getattr(Undef, '_' + _n))
    setattr(Undef, '__r%s__' % _n, getattr(Undef, '_' + _n))


class VFile:
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.items = []      # text output: str | (spec, value)
        self.bin = []        # (value, size)
        self.data = None     # input text (str)
        self.pos = 0
        self.eof = False
        self.open = True


PLACE = re.compile(r'@(\w+)@')


class Runtime:
    def __init__(self, prog):
        self.prog = prog
        self.mem = Mem()
        self.mem.rt = self
        self.objs = []
        self.bases = []
        self.next = 1 << 32
        self.symaddr = {}
        self.addrsym = {}
        self.fns = {}
        self.ns = None
        self.transpiled = []
        self.calls = {}
        self.files_in = {}
        self.files_out = {}
        self.fhandles = {}
        self.placeholders = {}
        self.overrides = {}
        self.py2u = {}
        self.stdout = []
        self.ctype = None
        self.build_ns()
        self.layout_globals()

    # ---- namespace
    def build_ns(self):
        g = globals()
        ns = {k: g[k] for k in ('rf', 'fdiv', 'frem', 'wr', 'ovf', 'sxt', 'zxt', 'zx1', 'tr1', 'i2f', 'f2i', 'sel', 'insv',
                                'fone', 'fueq', 'fult', 'fule', 'fugt', 'fuge', 'funo', 'ford', 'INF', 'NAN', 'Unreachable',
                                'i_lshr', 'i_ashr', 'i_udiv', 'i_urem', 'i_sdiv', 'i_srem', 'i_ult', 'i_ule', 'i_ugt', 'i_uge',
                                'BLK')}
        ns['mem'] = self.mem
        ns['stchk'] = self.stchk
        ns['alloca'] = self.alloca
        ns['icall'] = self.icall
        ns['bycopy'] = self.bycopy
        self.ns = ns
        from . import libc
        self.libc = libc.table(self)

    def alloc(self, size, name, kind, zero=False):
        o = Obj()
        b = (self.next + 63) & ~63
        o.base, o.size, o.name, o.kind, o.freed = b, size, name, kind, False
        o.zero = [(0, size)] if zero else []
        self.next = b + size + GUARD
        self.objs.append(o)
        self.bases.append(b)
        return b

    def alloca(self, size, n, fn):
        return self.alloc(size * int(n), fn, 'stack')

    def bycopy(self, a, n):
        b = self.alloc(n, 'byval', 'stack')
        self.memcpy(b, a, n)
        return b

    def find(self, a):
        i = bisect.bisect_right(self.bases, a) - 1
        if i < 0:
            return None
        o = self.objs[i]
        if a >= o.base + o.size:
            return None
        return o

    def near(self, a):
        i = bisect.bisect_right(self.bases, a) - 1
        return self.objs[i] if i >= 0 else None

    def load_missing(self, a):
        if a.__class__ is I:
            return self.mem[ENG.concretize_addr(a)]
        o = self.find(a)
        if o is None:
            n = self.near(a)
            if a == 0 or n is None:
                raise UB('null/invalid pointer read 0x%x' % a)
            raise UB('out-of-bounds read at offset %d of %s object %s (size %d)' % (a - n.base, n.kind, n.name, n.size))
        if o.freed:
            raise UB('read of freed object %s' % o.name)
        off = a - o.base
        for k in range(1, 8):
            v = dict.get(self.mem, a - k)
            if v is not None:
                if v.__class__ is int and a - k >= o.base:
                    return (v >> (8 * k)) & 255
                break
        for lo, hi in o.zero:
            if lo <= off < hi:
                return 0
        return ENG.uninit(a, o, off)

    def stchk(self, a, n):
        if a.__class__ is I:
            a = ENG.concretize_addr(a)
            if a in self.mem:
                return a
        o = self.find(a)
        if o is None or a + n > o.base + o.size:
            q = self.near(a)
            if a == 0 or q is None:
                raise UB('null/invalid pointer write 0x%x' % a)
            raise UB('out-of-bounds write at offset %d of %s object %s (size %d)' % (a - q.base, q.kind, q.name, q.size))
        if o.freed:
            raise UB('write to freed object %s' % o.name)
        if o.kind == 'const':
            raise UB('write to constant %s' % o.name)
        return a

    def free(self, a):
        if a == 0:
            return
        o = self.near(a)
        if o is None or o.base != a or o.kind != 'heap':
            raise UB('invalid free')
        if o.freed:
            raise UB('double free of %s' % o.name)
        o.freed = True
        mem = self.mem
        if o.size < 4 * len(mem):
            for x in range(a, a + o.size):
                if x in mem:
                    del mem[x]
        else:
            for x in [k for k in mem if a <= k < a + o.size]:
                del mem[x]

    def memset(self, a, v, n):
        n = int(n)
        if n == 0:
            return
        a = self.stchk(int(a), n)
        o = self.find(a)
        if a + n > o.base + o.size:
            raise UB('memset beyond object %s' % o.name)
        mem = self.mem
        if v & 255:
            v = ((v & 255) ^ 128) - 128
            for x in range(a, a + n):
                mem[x] = v
            return
        for x in range(a, a + n):
            if x in mem:
                del mem[x]
        off = a - o.base
        o.zero = [z for z in o.zero if not (off <= z[0] and z[1] <= off + n)] + [(off, off + n)]

    def memcpy(self, d, s, n):
        n = int(n)
        if n == 0:
            return
        d, s = int(d), int(s)
        so, do = self.find(s), self.find(d)
        if so is None or s + n > so.base + so.size or so.freed:
            raise UB('memcpy source out of bounds')
        if do is None or d + n > do.base + do.size or do.freed:
            raise UB('memcpy destination out of bounds')
        mem = self.mem
        vals = [(x - s, mem[x]) for x in range(s, s + n) if x in mem]
        zs = []
        for lo, hi in so.zero:
            l2, h2 = max(lo, s - so.base), min(hi, s - so.base + n)
            if l2 < h2:
                zs.append((l2 - (s - so.base) + d - do.base, h2 - (s - so.base) + d - do.base))
        for x in range(d, d + n):
            if x in mem:
                del mem[x]
        # clear zero marks in the destination window, then import the source's
        nz = []
        dlo, dhi = d - do.base, d - do.base + n
        for lo, hi in do.zero:
            if hi <= dlo or lo >= dhi:
                nz.append((lo, hi))
            else:
                if lo < dlo:
                    nz.append((lo, dlo))
                if hi > dhi:
                    nz.append((dhi, hi))
        do.zero = nz + zs
        for k, v in vals:
            mem[d + k] = v

    # ---- globals
    def layout_globals(self):
        for u, (m, d) in self.prog.gdef.items():
            p, ty, isconst, init = self.parse_global(m, d)
            self.symaddr[u] = self.alloc(max(ty.size, 1), u, 'global' if not isconst else 'const', zero=True)
            self.addrsym[self.symaddr[u]] = u
        for u in self.prog.fdef:
            a = self.alloc(1, u, 'func')
            self.symaddr[u] = a
            self.addrsym[a] = u
        for n in ('stdout', 'stderr', 'stdin'):
            self.symaddr[n] = self.alloc(8, n, 'global')
            h = self.alloc(8, 'FILE:' + n, 'file')
            self.mem[self.symaddr[n]] = h
            f = VFile(n, 'w')
            self.fhandles[h] = f
            self.files_out[n] = f
        for u, (m, d) in self.prog.gdef.items():
            p, ty, isconst, init = self.parse_global(m, d)
            self.init_value(m, p, ty, self.symaddr[u])

    def reset_globals(self):
        """A fresh process: every global back to its initial value (heap of the earlier run stays, unreachable)."""
        mem = self.mem
        gl = {u: m for u, (m, d) in self.prog.gdef.items()}
        rng = []
        for o in self.objs:
            if o.kind == 'global' and o.name in gl:
                o.zero = [(0, o.size)]
                rng.append((o.base, o.base + o.size))
        rng.sort()
        lo = [r[0] for r in rng]
        for a in [a for a in mem if a < rng[-1][1]]:
            i = bisect.bisect_right(lo, a) - 1
            if i >= 0 and a < rng[i][1]:
                del mem[a]
        for u, (m, d) in self.prog.gdef.items():
            p, ty, isconst, init = self.parse_global(m, d)
            if not isconst:
                self.init_value(m, p, ty, self.symaddr[u])

    def parse_global(self, m, d):
        # strip prefixes
        toks = irc.tokenize(d)
        i = 0
        while toks[i] not in ('global', 'constant'):
            i += 1
        isconst = toks[i] == 'constant'
        p = irc.P(toks[i + 1:], m)
        ty = p.type()
        return p, ty, isconst, None

    def init_value(self, m, p, ty, addr):
        t = p.peek()
        if t == 'zeroinitializer' or t in ('undef', 'poison'):
            p.next()
            return
        if ty.k == 'arr':
            if t[0] == 'c' and t[1] == '"':
                p.next()
                s = t[2:-1]
                i = 0
                k = 0
                while i < len(s):
                    if s[i] == '\\':
                        if s[i + 1] == '\\':
                            ch = 92
                            i += 2
                        else:
                            ch = int(s[i + 1:i + 3], 16)
                            i += 3
                    else:
                        ch = ord(s[i])
                        i += 1
                    self.mem[addr + k] = ch - 256 if ch > 127 else ch
                    k += 1
                return
            p.need('[')
            k = 0
            while True:
                t2 = p.type()
                self.init_value(m, p, t2, addr + k * ty.e.size)
                k += 1
                if p.eat(']'):
                    return
                p.need(',')
        if ty.k == 'struct':
            br = p.next()
            if br == '<':
                p.need('{')
            k = 0
            while True:
                t2 = p.type()
                self.init_value(m, p, t2, addr + ty.offs[k])
                k += 1
                if p.eat('}'):
                    if br == '<':
                        p.need('>')
                    return
                p.need(',')
        tr = irc.Transpiler.__new__(irc.Transpiler)
        tr.rt, tr.m = self, m
        self.mem[addr] = eval(tr.const(p, ty), {'NAN': NAN, 'INF': INF})

    def sym_addr(self, m, name):
        u = m.uname(name)
        if u not in self.symaddr:
            if u in self.libc:
                a = self.alloc(1, u, 'func')
                self.symaddr[u] = a
                self.addrsym[a] = u
            else:
                raise Unsupported('unknown symbol ' + u)
        return self.symaddr[u]

    # ---- functions
    def fref(self, u):
        py = 'F_' + irc.mangle(u)
        if py not in self.ns:
            self.py2u[py] = u
            self.ns[py] = self.lazy(u, py)
        return py

    def lazy(self, u, py):
        def first(*a):
            self.resolve(u, py)
            return self.ns[py](*a)
        first.lazy = True
        return first

    def resolve(self, u, py):
        if u in self.overrides:
            self.ns[py] = self.overrides[u]
            return
        if u in self.prog.fdef and u not in ('memory_placeholder',):
            self.ns[py] = self.compile_fn(u)
            return
        if u in self.libc:
            self.ns[py] = self.libc[u]
            return
        raise Unsupported('call of unknown external function ' + u)

    def compile_fn(self, u):
        if u in self.fns:
            return self.fns[u]
        cache = self.prog.__dict__.setdefault('codecache', {})
        if u not in cache:
            m, h, b, _ = self.prog.fdef[u]
            t = irc.Transpiler(self, m, u, h, b)
            src = t.run()
            cache[u] = (compile(src, 'ir:' + u, 'exec'), set(t.frefs))
        code, refs = cache[u]
        for r in refs:
            self.fref(r)
        d = {}
        exec(code, self.ns, d)
        self.fns[u] = d['f']
        self.transpiled.append(u)
        return d['f']

    def icall(self, a):
        a = int(a)
        u = self.addrsym.get(a)
        if u is None:
            raise UB('indirect call of a non-function')
        return self.ns[self.fref(u)]

    def override(self, u, f):
        """Replace a function by a Python model (recorded as a stub)."""
        self.overrides[u] = f
        self.ns[self.fref(u)] = f

    def wrap(self, u, before=None, after=None):
        py = self.fref(u)
        self.resolve(u, py)
        orig = self.ns[py]

        def w(*a):
            if before:
                before(*a)
            r = orig(*a)
            if after:
                after(r, *a)
            return r
        self.ns[py] = w

    def call(self, u, *a):
        return self.ns[self.fref(u)](*a)

    # ---- snapshots
    def snapshot(self):
        return (dict(self.mem), [o.copy() for o in self.objs], list(self.bases), self.next,
                {h: (f, f.pos, f.eof, f.open, list(f.items), list(f.bin)) for h, f in self.fhandles.items()},
                dict(self.files_out), dict(self.placeholders), dict(self.ns), dict(self.overrides), dict(self.files_in))

    def restore(self, s):
        self.mem.clear()
        self.mem.update(s[0])
        self.objs = [o.copy() for o in s[1]]
        self.bases = list(s[2])
        self.next = s[3]
        self.fhandles = {}
        for h, (f, pos, eof, op, items, bn) in s[4].items():
            f.pos, f.eof, f.open, f.items, f.bin = pos, eof, op, list(items), list(bn)
            self.fhandles[h] = f
        self.files_out = dict(s[5])
        self.placeholders = dict(s[6])
        # functions transpiled after the snapshot may stay; overrides and wrappers go back
        for k in list(self.ns):
            if k.startswith('F_') and k in s[7] and not getattr(s[7][k], 'lazy', False):
                self.ns[k] = s[7][k]
            elif k.startswith('F_'):
                u = self.py2u[k]
                if u in s[8]:
                    self.ns[k] = s[8][u]
                elif u in self.fns:
                    self.ns[k] = self.fns[u]
                else:
                    self.ns[k] = self.lazy(u, k)
        self.overrides = dict(s[8])
        self.files_in = dict(s[9])

    # ---- strings
    def cstr(self, s, name='str'):
        b = s.encode('latin1')
        a = self.alloc(len(b) + 1, name, 'heap')
        for i, c in enumerate(b):
            self.mem[a + i] = c - 256 if c > 127 else c
        self.mem[a + len(b)] = 0
        return a

    def getstr(self, a):
        out = []
        mem = self.mem
        a = int(a)
        while True:
            c = mem[a]
            if c.__class__ is I:
                ch = self.placeholders.get(id(c))
                if ch is not None:
                    out.append(ch)
                    a += 1
                    continue
                c = int(c)
            if c == 0:
                return ''.join(out)
            out.append(chr(c & 255))
            a += 1

    def putstr(self, a, s, limit=None):
        for i, ch in enumerate(s):
            x = ord(ch)
            x = self.placeholders[x] if x >= SYMCH else x - 256 if x > 127 else x
            p = a + i
            if p not in self.mem:
                p = self.stchk(p, 1)
            self.mem[p] = x
        p = a + len(s)
        if p not in self.mem:
            p = self.stchk(p, 1)
        self.mem[p] = 0


# ====================================================================== engine
SYMCH = 0xE000      # characters from here on stand for symbolic ones


class Engine:
    """Explores all feasible paths of a harness by re-execution under a decision prefix."""

    def __init__(self, rt, timeout_ms=20000):
        self.rt = rt
        self.timeout = timeout_ms
        self.nq = 0
        self.tq = 0.0
        self.npaths = 0
        self.events = []
        self.inputs = {}
        self.intvars = {}
        self.div_checked = set()
        self.reset_path()
        self.solver = None
        self.unk = 0
        self.uninit_policy = 'ub'

    def reset_path(self):
        self.pos = 0
        self.pc = []

    # -- inputs
    def real(self, name, lo, hi):
        a = atom('var', name, name)
        self.inputs[name] = ('real', lo, hi)
        r = R({(a.id,): 1.0})
        if lo is not None:
            self.add(atom_z(a.id) >= zq(float(lo)))
        if hi is not None:
            self.add(atom_z(a.id) <= zq(float(hi)))
        return r

    def integer(self, name, lo, hi, w=32):
        e = z3.BitVec(name, w)
        self.inputs[name] = ('int', lo, hi)
        self.intvars[name] = e
        self.add(e >= lo)
        self.add(e <= hi)
        return I(e, w)

    def boolean(self, name):
        e = z3.Bool(name)
        self.inputs[name] = ('bool', 0, 1)
        return B(e)

    # -- constraints
    def add(self, e):
        self.pc.append(e)
        if self.replaying():
            return
        self._assert(e)

    def replaying(self):
        return False

    def _assert(self, e):
        self.s_add(e)

    def s_add(self, e):
        for k in cond_atoms(e):
            if k not in self.axdone:
                self.axdone.add(k)
                self.axlog.append(k)
                for ax in atom_axioms(k):
                    for k2 in cond_atoms(ax):
                        if k2 not in self.axdone:
                            self.s_add(atom_z(k2) == atom_z(k2))
                    self.solver.add(ax)
        self.solver.add(e)

    def sat(self, *es, timeout=None):
        """sat / unsat / unknown of pc + es."""
        t0 = time.time()
        s = self.solver
        s.push()
        n = len(self.axlog)
        for e in es:
            self.s_add(e)
        s.set('timeout', timeout or self.timeout)
        r = s.check()
        self.nq += 1
        m = s.model() if r == z3.sat else None
        s.pop()
        for k in self.axlog[n:]:
            self.axdone.discard(k)
        del self.axlog[n:]
        self.tq += time.time() - t0
        return r, m

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.add(e if d else z3.Not(e))
            return d
        rt_, _ = self.sat(e, timeout=5000)
        rf_, _ = self.sat(z3.Not(e), timeout=5000)
        if rt_ == z3.unknown or rf_ == z3.unknown:
            self.unk += 1
        t, f = rt_ != z3.unsat, rf_ != z3.unsat
        if not t and not f:
            raise Infeasible()
        if t and f:
            self.work.append(self.taken + [False])
        d = t
        self.taken.append(d)
        self.prefix = list(self.taken)
        self.pos = len(self.prefix)
        self.add(e if d else z3.Not(e))
        return d

    def _note(self, d):
        pass

    def concretize(self, x):
        if x.__class__ is not I:
            return int(x)
        while True:
            if self.pos < len(self.prefix) and (self.pos in self.cval):
                v = self.cval[self.pos]
            else:
                r, m = self.sat()
                if r == z3.unsat:
                    raise Infeasible()
                if r != z3.sat:
                    raise Unsupported('cannot concretise: solver says unknown')
                v = m.eval(x.e, model_completion=True).as_signed_long()
                self.cval[self.pos] = v
            if self.branch2(x.e == v, v):
                return v

    def branch2(self, e, v):
        """branch that always consumes a decision slot (keeps the recorded value aligned)."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.add(e if d else z3.Not(e))
            return d
        r, _ = self.sat(z3.Not(e), timeout=5000)
        if r != z3.unsat:
            self.work.append(self.taken + [False])
        self.taken.append(True)
        self.prefix = list(self.taken)
        self.pos = len(self.prefix)
        self.add(e)
        return True

    def concretize_addr(self, a):
        return self.concretize(a)

    def concretize_int(self, e, x):
        """Fork over the values of an integer-sorted z3 expression."""
        while True:
            if self.pos < len(self.prefix) and (self.pos in self.cval):
                v = self.cval[self.pos]
            else:
                self.s_add(e == e)
                r, m = self.sat()
                if r == z3.unsat:
                    raise Infeasible()
                if r != z3.sat:
                    raise Unsupported('cannot concretise real->int: unknown')
                v = m.eval(e, model_completion=True).as_long()
                self.cval[self.pos] = v
            if self.branch2(e == v, v):
                return v

    def divisor(self, p):
        pass

    def uninit(self, a, o, off):
        if self.uninit_policy == 'zero':
            return 0
        return Undef('use of uninitialised byte %d of %s object %s' % (off, o.kind, o.name))

    # -- exploration
    def explore(self, fn, snap=None, max_paths=100000, deadline=None):
        """Run fn() on every feasible path.  fn's Abort exceptions are passed to it through its own handling."""
        global ENG
        ENG = self
        results = []
        self.pending = [([], {})]
        while self.pending:
            pre, cval = self.pending.pop()
            self.prefix = list(pre)
            self.taken = list(pre)
            self.cval = dict(cval)
            self.pos = 0
            self.pc = []
            self.work = []
            self.solver = z3.Solver()
            self.axdone = set()
            self.axlog = []
            if snap is not None:
                self.rt.restore(snap)
            try:
                r = fn()
                results.append(r)
            except Infeasible:
                pass
            self.npaths += 1
            for w in self.work:
                # keep recorded concretisation values up to this decision
                self.pending.append((w, {k: v for k, v in self.cval.items() if k < len(w)}))
            if self.npaths > max_paths:
                raise Unsupported('path bound exceeded')
            if deadline and time.time() > deadline:
                raise Unsupported('time bound exceeded')
        return results
