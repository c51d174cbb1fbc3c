"""Backends a harness runs on, and the driver that turns a property module into a verdict.

A harness is a Python function h(B).  It asks B for inputs, builds a mesh, runs vulture's real code through B and
states what must hold with B.check / B.near.  The same function runs on
  SymBackend     the IR of /repo's sources, inputs are solver variables, assertions go to the SMT solver
  SymBackend     with concrete inputs (translator self-validation)
  NativeBackend  the same sources built by gcc, concrete inputs (replay of counterexamples, self-validation)
"""
import ctypes, json, math, os, pickle, random, shutil, signal, struct, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp
import z3
from . import irc, rt
from .rt import R, I, B as SB, land, lor, lnot, implies, ExitCall, UB, Abort, Infeasible, Unsupported

TOL = 1e-4


class Stop(Exception):
    pass


def bound_of(p, bounds):
    """Upper bound of |polynomial| over the declared input box, or None."""
    tot = 0.0
    for m, c in p.items():
        v = abs(c)
        for a in m:
            b = bounds.get(a)
            if b is None:
                return None
            v *= b
        tot += v
    return tot


class Base:
    sym = False

    def tok(self, v):
        """Text of a value inside a mesh file."""
        if isinstance(v, (R, I)):
            n = 'ph%d' % len(self.rt.placeholders)
            self.rt.placeholders[n] = v
            return '@%s@' % n
        if isinstance(v, bool):
            return str(int(v))
        if isinstance(v, int):
            return str(v)
        return '%.17g' % v

    def ch(self, v):
        """Text of a character code (from B.char) inside a mesh file."""
        if isinstance(v, I):
            n = rt.SYMCH + len(self.rt.placeholders)
            self.rt.placeholders[n] = v
            self.rt.placeholders[id(v)] = chr(n)
            return chr(n)
        return chr(v)

    def char(self, name, lo=1, hi=127):
        """Symbolic ASCII character other than the line end."""
        v = self.int(name, lo, hi, 8)
        self.assume(v != 10)
        return v

    def mesh(self, name, text):
        self.put_file(name, text)

    # 3-D field helpers
    def ptr(self, name):
        return self.ld(self.g(name), 'ptr')

    def at(self, p, i, j, k):
        return self.ld(self.ld(p + 8 * i, 'ptr') + 8 * j, 'ptr') + 4 * k

    def get(self, name, i, j, k):
        return self.ld(self.at(self.ptr(name), i, j, k), 'f32')

    def set(self, name, i, j, k, v):
        self.st(self.at(self.ptr(name), i, j, k), 'f32', v)

    def iarr(self, name, n):
        a = self.g(name)
        return [self.ld(a + 4 * i, 'i32') for i in range(n)]

    def farr(self, name, n, lo=0):
        p = self.ptr(name)
        return [self.ld(p + 4 * i, 'f32') for i in range(lo, n)]

    def new(self, ty, n=1):
        sz = {'i32': 4, 'f32': 4, 'f64': 8, 'ptr': 8, 'i8': 1}[ty]
        return self.alloc(sz * n)


class SymBackend(Base):
    """Runs on the IR.  inputs: None -> symbolic; dict -> concrete values."""

    def __init__(self, runtime, eng, values=None, rng=None):
        self.rt, self.eng, self.values, self.rng = runtime, eng, values, rng
        self.sym = values is None and rng is None
        self.native = False
        self.fails = []
        self.nchecks = 0
        self.npend = 0
        self.pend = []
        self.log = []
        self.used = {}
        self.bounds = {}
        self.saved = {}
        self.scales = {}
        self.trivial = 0
        self.seen = set()
        self.reached = False
        self.ran = False

    # inputs
    def real(self, name, lo, hi):
        if self.sym:
            r = self.eng.real(name, lo, hi)
            (m, _), = r.p.items()
            self.bounds[m[0]] = max(abs(lo), abs(hi)) if lo is not None and hi is not None else None
            return r
        if self.values is not None and name in self.values:
            return self.values[name]
        if name in self.used:
            return self.used[name]
        if self.rng is None:
            return 0.5 * (lo + hi)
        v = rt.c_float(self.rng.uniform(lo, hi)).value
        self.used[name] = v
        return v

    def int(self, name, lo, hi, w=32):
        if self.sym:
            return self.eng.integer(name, lo, hi, w)
        if self.values is not None and name in self.values:
            return self.values[name]
        if name in self.used:
            return self.used[name]
        v = self.rng.randint(lo, hi) if self.rng else lo
        self.used[name] = v
        return v

    def bool(self, name):
        if self.sym:
            return self.eng.boolean(name)
        if self.values is not None and name in self.values:
            return bool(self.values[name])
        if name in self.used:
            return self.used[name]
        v = bool(self.rng.randint(0, 1)) if self.rng else False
        self.used[name] = v
        return v

    def assume(self, c):
        if c.__class__ is SB:
            self.eng.add(c.e)
            r, _ = self.eng.sat()
            if r == z3.unsat:
                raise Infeasible()
        elif not c:
            raise Infeasible()

    def fork(self, v):
        """Make a symbolic int concrete, forking over every feasible value."""
        return self.eng.concretize(v) if v.__class__ is I else v

    # memory
    def g(self, name):
        return self.rt.symaddr[name]

    def has(self, name):
        return name in self.rt.symaddr

    def ld(self, a, ty):
        v = self.rt.mem[a]
        if v.__class__ is rt.Undef:
            v._ub()
        if ty in ('f32', 'f64') and v.__class__ is int:
            return float(v)
        return v

    def st(self, a, ty, v):
        if a not in self.rt.mem:
            self.rt.stchk(a, {'f32': 4, 'i32': 4, 'f64': 8, 'ptr': 8, 'i8': 1, 'i64': 8}[ty])
        if ty == 'f32':
            v = rt.rf(v)
        if ty == 'f64' and v.__class__ is int:
            v = float(v)
        if v.__class__ is SB:
            v = rt.zx1(v)
        self.rt.mem[a] = v

    def alloc(self, n):
        return self.rt.alloc(n, 'harness', 'heap', zero=True)

    def cstr(self, s):
        return self.rt.cstr(s)

    def getstr(self, a):
        return self.rt.getstr(a)

    def call(self, fn, *args, ret=None):
        return self.rt.call(fn, *args)

    # files
    def put_file(self, name, text):
        self.rt.files_in[name] = text

    def forget_files(self):
        """Drop everything the program has written so far."""
        fo = self.rt.files_out
        for n in list(fo):
            if n in ('stdout', 'stderr'):
                fo[n].items.clear()
            else:
                del fo[n]

    def out_exists(self, name):
        return name in self.rt.files_out

    def out_items(self, name):
        return self.rt.files_out[name].items

    def lines(self, name):
        """Output text file -> list of lines -> list of whitespace-separated tokens (str or symbolic value)."""
        out, cur, frag = [], [], []

        def flush():
            if frag:
                cur.append(''.join(frag) if all(x.__class__ is str for x in frag) else
                           (frag[0] if len(frag) == 1 else tuple(frag)))
                frag.clear()
        if name not in self.rt.files_out:
            self.check('file %s is written' % name, False)
        for it in self.rt.files_out[name].items:
            if it.__class__ is str:
                for ch in it:
                    if ch == '\n':
                        flush()
                        out.append(list(cur))
                        cur.clear()
                    elif ch.isspace():
                        flush()
                    else:
                        frag.append(ch)
            else:
                frag.append(it[1])
        flush()
        if cur:
            out.append(list(cur))
        return out

    def num(self, t):
        return float(t) if t.__class__ is str else t

    def binary(self, name, fmt):
        """Output binary file -> values; fmt is a string of i/f repeated as needed (checked against sizes)."""
        if name not in self.rt.files_out:
            self.check('file %s is written' % name, False)
        f = self.rt.files_out[name]
        return [v for v, s in f.bin], [s for v, s in f.bin]

    # running the program
    def main(self, args, body=None, entry='main'):
        rt_ = self.rt
        if self.ran:
            rt_.reset_globals()
        self.ran = True
        argv = [rt_.cstr('vulture')]
        for a in args:
            argv.append(rt_.alloc(len(a) + 1, 'argv', 'heap'))
            rt_.putstr(argv[-1], a)
        av = rt_.alloc(8 * (len(argv) + 1), 'argv', 'heap', zero=True)
        for i, a in enumerate(argv):
            rt_.mem[av + 8 * i] = a
        py = rt_.fref('propagate') if 'propagate' in rt_.prog.fdef else None
        if body is not None:
            rt_.resolve('propagate', py)
            orig = rt_.ns[py]
            self.real_propagate = orig

            def hook():
                rt_.ns[py] = orig
                body()
            rt_.ns[py] = hook
        try:
            rc = rt_.call(entry, len(argv), av)
        except ExitCall as e:
            rc = e.code
        return rc

    def guarded(self, f):
        """Run f; returns exit code if the code under test calls exit, else None."""
        try:
            f()
        except ExitCall as e:
            return e.code
        return None

    # assertions
    def check(self, label, cond):
        self.nchecks += 1
        self.reached = True
        if cond.__class__ is SB:
            if not self.sym:
                raise Unsupported('symbolic condition in a concrete run')
            r, m = self.eng.sat(z3.Not(cond.e))
            if r == z3.unknown:
                r, m = self.hard(z3.Not(cond.e))
            if r == z3.sat:
                self.fail(label, m)
                self.eng.add(cond.e)
            elif r == z3.unknown:
                raise Unsupported('solver gives no answer on: ' + label)
        else:
            self.log.append((label, bool(cond)))
            if not cond:
                if self.sym:
                    r, m = self.eng.sat()
                    if r == z3.sat:
                        self.fail(label, m)
                    elif r == z3.unknown:
                        self.fail(label, None)
                else:
                    self.fail(label, None)

    def hard(self, e):
        """Second and third opinion on a query the default solver leaves open."""
        for tac in ('qfnra-nlsat', 'smt'):
            try:
                s = z3.Tactic(tac).solver() if tac != 'smt' else z3.SimpleSolver()
                s.set('timeout', 20000)
                for a in self.eng.solver.assertions():
                    s.add(a)
                ks = set()
                work = [e]
                while work:
                    x = work.pop()
                    s.add(x)
                    for k in rt.cond_atoms(x):
                        if k not in ks and k not in self.eng.axdone:
                            ks.add(k)
                            work.extend(rt.atom_axioms(k))
                t0 = time.time()
                r = s.check()
                self.eng.nq += 1
                self.eng.tq += time.time() - t0
                if r == z3.sat:
                    return r, s.model()
                if r == z3.unsat:
                    return r, None
            except z3.Z3Exception:
                pass
        return z3.unknown, None

    def fail(self, label, m):
        vals = {}
        if m is not None:
            for n, (k, lo, hi) in self.eng.inputs.items():
                if k == 'real':
                    v = m.eval(z3.Real(n), model_completion=True)
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    vals[n] = float(v.as_fraction())
                elif k == 'int':
                    e = self.eng.intvars[n]
                    vals[n] = m.eval(e, model_completion=True).as_signed_long()
                else:
                    vals[n] = z3.is_true(m.eval(z3.Bool(n), model_completion=True))
        elif self.values is not None:
            vals = dict(self.values)
        else:
            vals = dict(self.used)
        self.fails.append((label, vals, dict(self.scales)))

    def near(self, label, a, b, scale=None, tol=TOL):
        """a == b up to tol*scale, for every value of the inputs (scale: bound on the magnitude of the result)."""
        self.nchecks += 1
        self.reached = True
        if not self.sym:
            self.log.append((label, a, b))
            s = scale if scale is not None else (self.scales.get(label) or max(abs(a), abs(b), 1e-300))
            if not abs(a - b) <= 0.5 * tol * s:
                self.fail(label, None)
            return
        d = a - b
        if scale is None:
            sc = bound_of(b.p, self.bounds) if b.__class__ is R else abs(b)
            if not sc:
                sa = bound_of(a.p, self.bounds) if a.__class__ is R else abs(a)
                sc = sa
            if sc is None:
                raise Unsupported('near() needs an explicit scale: ' + label)
            scale = sc or 1e-30
        self.scales[label] = scale if scale.__class__ is float else None
        if d.__class__ is not R:
            if scale.__class__ is R:
                self.pend.append((label, d, tol, scale))
            elif not abs(d) <= tol * scale:
                self.check(label, False)
            else:
                self.trivial += 1
            return
        k = (frozenset(d.p.items()), tol, frozenset(scale.p.items()) if scale.__class__ is R else scale)
        if k in self.seen:
            self.trivial += 1       # the same expression against the same bound was already asserted on this path
            return
        self.seen.add(k)
        self.pend.append((label, d, tol, scale))
        if len(self.pend) >= 64:
            self.flush()

    def flush(self):
        pend, self.pend = self.pend, []
        if not pend:
            return
        lin, non = [], []
        for it in pend:
            d, sc = it[1], it[3]
            if d.__class__ is R and sc.__class__ is not R and all(len(m) <= 1 and (not m or self.bounds.get(m[0]) is not None) for m in d.p):
                lin.append(it)
            else:
                non.append(it)

        def cond(it, f=1.0):
            d, t, s = it[1], it[2], it[3]
            if d.__class__ is not R:
                zd = rt.zq(float(d))
            else:
                zd = d.z()
            ts = (s * (t * f))
            zs = rt.rz(ts)
            if s.__class__ is R:
                return z3.And(zs >= 0, z3.Or(zd > zs, zd < -zs))
            return z3.Or(zd > zs, zd < -zs)

        def split(items):
            """Find which items of a violated group fail."""
            if len(items) > 1:
                r, m = self.eng.sat(z3.Or([cond(i) for i in items]))
                if r == z3.unsat:
                    return
                h = len(items) // 2
                split(items[:h])
                split(items[h:])
                return
            it = items[0]
            m = None
            for f in (1e4, 1e3, 1e2, 10, 3, 1):
                r, m = self.eng.sat(cond(it, f))
                if r == z3.unknown and f == 1:
                    r, m = self.hard(cond(it, f))
                    if r == z3.unknown:
                        raise Unsupported('solver gives no answer on: ' + it[0])
                if r == z3.sat:
                    self.fail(it[0], m)
                    return
        if lin:
            # one row at a time over the input box: an LP each, far cheaper than one big disjunction
            s = z3.SolverFor('QF_LRA')
            s.set('timeout', 20000)
            seen = set()
            t0 = time.time()
            rest = []
            for it in lin:
                for m in it[1].p:
                    if m and m[0] not in seen:
                        seen.add(m[0])
                        b = rt.zq(float(self.bounds[m[0]]))
                        s.add(rt.atom_z(m[0]) <= b, rt.atom_z(m[0]) >= -b)
                s.push()
                s.add(cond(it))
                r = s.check()
                s.pop()
                self.eng.nq += 1
                if r != z3.unsat:
                    rest.append(it)
            self.eng.tq += time.time() - t0
            for it in rest:
                if len(self.fails) < 6:
                    split([it])
        for it in non:
            if len(self.fails) >= 6:
                break
            # linear abstraction: every monomial becomes a fresh variable with its interval bound
            d, sc = it[1], it[3]
            if d.__class__ is R and sc.__class__ is not R and bound_of(d.p, self.bounds) is not None:
                s = z3.Solver()
                s.set('timeout', 20000)
                ts = []
                for n, (mm, c) in enumerate(d.p.items()):
                    x = z3.Real('m!%d' % n)
                    bb = 1.0
                    for a_ in mm:
                        bb *= self.bounds[a_]
                    s.add(x <= rt.zq(bb), x >= rt.zq(-bb))
                    ts.append(rt.zq(c) * x)
                e = z3.Sum(ts)
                t0 = time.time()
                s.add(z3.Or(e > rt.zq(it[2] * sc), e < rt.zq(-it[2] * sc)))
                r = s.check()
                self.eng.nq += 1
                self.eng.tq += time.time() - t0
                if r == z3.unsat:
                    continue
            r, m = self.eng.sat(cond(it), timeout=8000)
            if r == z3.unsat:
                continue
            if r == z3.unknown:
                r, m = self.hard(cond(it))
                if r == z3.unsat:
                    continue
                if r == z3.unknown:
                    raise Unsupported('solver gives no answer on: ' + it[0])
            got = m
            for f in (1e3, 1e2, 10):
                r, m = self.eng.sat(cond(it, f), timeout=4000)
                if r == z3.sat:
                    got = m
                    break
            self.fail(it[0], got)

    def done(self):
        if self.sym:
            self.flush()


class NativeBackend(Base):
    """Runs on the gcc build, inside a forked process whose working directory is a scratch folder."""
    native = True

    def __init__(self, so, inter, values, scales, outfd):
        self.so, self.inter = so, inter
        self.values, self.scales = values, scales or {}
        self.given = set()
        self.out = os.fdopen(outfd, 'wb', buffering=0)
        self.lib = None
        self.log = []
        self.saved = {}
        self.keep = []
        self.used = values
        self.rng = None
        self.sym = False
        self.load()

    def load(self):
        self.il = ctypes.CDLL(self.inter, mode=ctypes.RTLD_GLOBAL)
        self.lib = ctypes.CDLL(self.so, mode=ctypes.RTLD_GLOBAL)
        self.libc = ctypes.CDLL(None)

    def emit(self, *x):
        d = pickle.dumps(x)
        self.out.write(struct.pack('<I', len(d)) + d)

    def real(self, name, lo, hi):
        return self.values.get(name, 0.5 * (lo + hi) if lo is not None else 0.0)

    def int(self, name, lo, hi, w=32):
        return self.values.get(name, lo)

    def bool(self, name):
        return bool(self.values.get(name, False))

    def assume(self, c):
        if not c:
            raise Infeasible()

    def fork(self, v):
        return v

    def g(self, name):
        return ctypes.addressof(ctypes.c_char.in_dll(self.lib, name))

    def has(self, name):
        try:
            ctypes.c_char.in_dll(self.lib, name)
            return True
        except ValueError:
            return False

    CT = {'f32': ctypes.c_float, 'f64': ctypes.c_double, 'i32': ctypes.c_int32, 'i64': ctypes.c_int64,
          'ptr': ctypes.c_uint64, 'i8': ctypes.c_int8}

    def ld(self, a, ty):
        return self.CT[ty].from_address(a).value

    def st(self, a, ty, v):
        self.CT[ty].from_address(a).value = v

    def alloc(self, n):
        b = ctypes.create_string_buffer(max(n, 8))
        self.keep.append(b)
        return ctypes.addressof(b)

    def cstr(self, s):
        b = ctypes.create_string_buffer(s.encode('latin1'))
        self.keep.append(b)
        return ctypes.addressof(b)

    def getstr(self, a):
        return ctypes.string_at(a).decode('latin1')

    def call(self, fn, *args, ret=None):
        s = SIGS[fn]
        extra = [ctypes.c_int32] * (len(args) - len(s[1]))      # variadic arguments
        f = ctypes.CFUNCTYPE(ct_of(s[0]), *([ct_of(t) for t in s[1]] + extra))(ctypes.cast(getattr(self.lib, fn), ctypes.c_void_p).value)
        r = f(*args)
        if s[0] == 'i1':
            r = bool(r & 1)
        return r

    def put_file(self, name, text):
        self.given.add(name)
        with open(name, 'w') as f:
            f.write(text)

    def forget_files(self):
        for n in os.listdir('.'):
            if n not in self.given and os.path.isfile(n) and n not in ('.saved', '.saved2'):
                os.unlink(n)

    def out_exists(self, name):
        return os.path.exists(name)

    def lines(self, name):
        if name in ('stdout', 'stderr'):
            name = '.' + name
        if not os.path.exists(name):
            self.emit('check', 'file %s is written' % name, False)
            raise Stop()
        with open(name) as f:
            return [l.split() for l in f.read().split('\n')][:None]

    def num(self, t):
        return float(t)

    def binary(self, name, fmt):
        """fmt: (head, record) format letters"""
        if not os.path.exists(name):
            self.emit('check', 'file %s is written' % name, False)
            raise Stop()
        d = open(name, 'rb').read()
        head, rec = fmt
        vals, sizes, pos = [], [], 0
        k = 0
        while pos + 4 <= len(d):
            c = head[k] if k < len(head) else rec[(k - len(head)) % len(rec)]
            vals.append(struct.unpack('<' + c, d[pos:pos + 4])[0])
            sizes.append(4)
            pos += 4
            k += 1
        if pos != len(d):
            vals.append(None)
            sizes.append(len(d) - pos)
        return vals, sizes

    def _forked(self, f):
        """Run f in a child (the code under test may exit); checks travel through the shared pipe."""
        sys.stdout.flush()
        sv = self.alloc(8)
        path = os.path.join(os.getcwd(), '.saved')
        pid = os.fork()
        if pid == 0:
            try:
                for fd, n in ((1, '.stdout'), (2, '.stderr')):
                    x = os.open(n, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
                    os.dup2(x, fd)
                r = f()
                self.libc.fflush(None)
                with open(path, 'wb') as fh:
                    pickle.dump((r, self.saved), fh)
                os._exit(200 if r is None else 201)
            except Infeasible:
                os._exit(202)
            except BaseException as e:
                try:
                    self.emit('error', ''.join(traceback.format_exception(e)))
                finally:
                    os._exit(203)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            return ('signal', os.WTERMSIG(st))
        c = os.WEXITSTATUS(st)
        if c in (200, 201):
            r, self.saved = pickle.load(open(path, 'rb'))
            return ('ret', r)
        if c == 202:
            raise Infeasible()
        if c == 203:
            raise Stop()
        if c == 77 and os.environ.get('VV_ASAN'):
            self.emit('signal', 77)
            raise Stop()
        return ('exit', c)

    def main(self, args, body=None, entry='main'):
        if body is None:
            body = self.real_propagate

        def go():
            argv = (ctypes.c_char_p * (len(args) + 2))(b'vulture', *[a.encode() for a in args], None)
            cb = None
            if body is not None:
                def run():
                    try:
                        body()
                    except BaseException as e:
                        self.emit('error', ''.join(traceback.format_exception(e)))
                        os._exit(203)
                    self.libc.fflush(None)
                    with open('.saved2', 'wb') as fh:
                        pickle.dump(self.saved, fh)
                cb = ctypes.CFUNCTYPE(None)(run)
                self.keep.append(cb)
                ctypes.c_void_p.in_dll(self.il, 'vv_cb').value = ctypes.cast(cb, ctypes.c_void_p).value
            return self.lib.vv_main(len(args) + 1, argv)
        if os.path.exists('.saved2'):
            os.unlink('.saved2')
        k, v = self._forked(go)
        if os.path.exists('.saved2'):
            self.saved = pickle.load(open('.saved2', 'rb'))
        if k == 'signal':
            self.emit('signal', v)
            raise Stop()
        return v

    def real_propagate(self):
        self.call('propagate')

    def guarded(self, f):
        k, v = self._forked(lambda: (f(), None)[1])
        if k == 'signal':
            self.emit('signal', v)
            raise Stop()
        return v if k == 'exit' else None

    def check(self, label, cond):
        self.emit('check', label, bool(cond))

    def near(self, label, a, b, scale=None, tol=TOL):
        s = scale if scale is not None else (self.scales.get(label) or max(abs(a), abs(b), 1e-300))
        self.emit('near', label, a, b, bool(abs(a - b) <= 0.5 * tol * s))

    def done(self):
        pass


SIGS = {}


def ct_of(t):
    return {'void': None, 'i1': ctypes.c_uint8, 'i8': ctypes.c_int8, 'i16': ctypes.c_int16, 'i32': ctypes.c_int32,
            'i64': ctypes.c_int64, 'ptr': ctypes.c_void_p, 'float': ctypes.c_float, 'double': ctypes.c_double}[t]


def ty_name(t):
    return 'i%d' % t.n if t.k == 'int' else t.k


INTER = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
void *vv_cb = 0;
void propagate(void)
{
  if( vv_cb ) { void (*f)(void) = (void(*)(void))vv_cb; vv_cb = 0; f(); }
  else { void (*r)(void) = (void(*)(void))dlsym( RTLD_NEXT , "propagate" ); if( !r ) abort(); r(); }
}
'''


def native_run(so, inter, harness, values, scales=None, timeout=60):
    """Run a harness on the gcc build in a scratch directory; returns list of emitted tuples and a status."""
    d = tempfile.mkdtemp(prefix='vvnat')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.alarm(timeout)
            os.chdir(d)
            nb = NativeBackend(so, inter, values, scales, w)
            try:
                harness(nb)
                nb.done()
                nb.emit('end', 'ok')
            except Infeasible:
                nb.emit('end', 'infeasible')
            except Stop:
                nb.emit('end', 'stop')
            except BaseException as e:
                nb.emit('error', ''.join(traceback.format_exception(e)))
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    with os.fdopen(r, 'rb') as f:
        buf = f.read()
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    out = []
    pos = 0
    while pos + 4 <= len(buf):
        n, = struct.unpack_from('<I', buf, pos)
        out.append(pickle.loads(buf[pos + 4:pos + 4 + n]))
        pos += 4 + n
    if os.WIFSIGNALED(st):
        out.append(('timeout' if os.WTERMSIG(st) == signal.SIGALRM else 'signal', os.WTERMSIG(st)))
    return out
