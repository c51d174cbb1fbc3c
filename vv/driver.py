"""Runs one property: builds the encoding from /repo's working tree, explores every case, replays counterexamples on
the gcc build, writes evidence/<id>.json and prints the verdict."""
import glob, importlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback, signal
import multiprocessing as mp
import z3
from . import irc, rt, harness
from .rt import UB, Infeasible, Unsupported, Unreachable, ExitCall

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROG = None
SO = INTERSO = None
MOD = None
SEED = 1


class Case:
    """One harness instance.  opts: max_paths, timeout_ms, validate (number of self-validation runs), time (seconds)."""

    def __init__(self, name, fn, **opts):
        self.name, self.fn, self.opts = name, fn, opts


def build(main='vulture.c', native=True):
    global PROG, SO, INTERSO
    d = tempfile.mkdtemp(prefix='vvbuild')
    irs = irc.compile_ir(os.path.join(d, 'ir'), extra=(main,))
    PROG = irc.Program(irs)
    for u in PROG.fdef:
        s = PROG.sig(u)
        harness.SIGS[u] = (harness.ty_name(s.ret), [harness.ty_name(t) for t in s.args])
    if native:
        SO = irc.build_native(os.path.join(d, 'nat'), main)
        INTERSO = os.path.join(d, 'inter.so')
        c = os.path.join(d, 'inter.c')
        open(c, 'w').write(harness.INTER)
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', INTERSO, c, '-ldl'], check=True)
    return d


def build_asan(d, main, san='address,undefined', sub='asan'):
    o = os.path.join(d, sub)
    os.makedirs(o, exist_ok=True)
    files = irc.sources() + [main]
    objs = []
    ps = []
    for f in files:
        ob = os.path.join(o, f + '.o')
        fl = ['-Dmain=vv_main'] if f == main else []
        ps.append(subprocess.Popen(['gcc', '-std=c99', '-O1', '-g', '-DNDEBUG', '-DWITH_SIBC', '-fPIC', '-w',
                                    *(['-fsanitize=' + san, '-fno-sanitize-recover=undefined'] if san else [])] + fl +
                                   ['-I' + irc.SRC, '-I' + os.path.join(irc.REPO, 'uthash'), '-c',
                                    os.path.join(irc.SRC, f), '-o', ob]))
        objs.append(ob)
    for p in ps:
        p.wait()
    ar = os.path.join(o, 'libvult.a')
    subprocess.run(['ar', 'rcs', ar] + [x for x in objs if not x.endswith(main + '.o')], check=True)
    so = os.path.join(o, 'libvult_native.so')
    subprocess.run(['gcc', '-shared', *(['-fsanitize=' + san] if san else []), '-o', so, os.path.join(o, main + '.o'), ar, '-lm'],
                   check=True)
    return so


def sym_case(case, tier):
    """Explore one case symbolically.  Returns a picklable result."""
    t0 = time.time()
    res = dict(name=case.name, fails=[], nchecks=0, paths=0, queries=0, tsolve=0.0, trivial=0, error=None, feasible=0,
               fns=[], blocks=0, unknown=0, validated=0, mismatch=[], inputs=[], sample=None)
    try:
        runtime = rt.Runtime(PROG)
        snap = runtime.snapshot()
        eng = rt.Engine(runtime, timeout_ms=case.opts.get('timeout_ms', 20000))
        eng.uninit_policy = case.opts.get('uninit', 'ub')
        blk0 = rt.BLK[0]
        maxt = case.opts.get('time', 700)

        def one():
            B = harness.SymBackend(runtime, eng)
            try:
                case.fn(B)
                B.done()
            except (UB, Unreachable) as e:
                if len(B.pend):
                    B.flush()
                r, m = eng.sat()
                if r != z3.unsat:
                    B.fail('undefined behaviour: %s' % e, m)
            except ExitCall as e:
                B.check('unexpected exit(%d)' % e.code, False)
            except (rt.Infeasible, Unsupported, rt.Abort, harness.Stop):
                raise
            except (KeyError, IndexError, ValueError, TypeError, AttributeError, ZeroDivisionError):
                if not B.fails:         # otherwise the harness tripped over what an assertion has already reported
                    raise
            res['nchecks'] += B.nchecks
            res['trivial'] += B.trivial
            r, m = eng.sat()
            if r == z3.unknown:
                r, m = eng.sat(timeout=6 * eng.timeout if not res['feasible'] else None)
            if r == z3.sat:
                res['feasible'] += 1
                if res['sample'] is None or not res['sample']:
                    res['sample'] = {n: str(m.eval(eng.intvars[n] if k[0] == 'int' else (z3.Real(n) if k[0] == 'real' else z3.Bool(n)),
                                            model_completion=True))[:24] for n, k in list(eng.inputs.items())[:4]}
            for f in B.fails:
                if len(res['fails']) < 40:
                    res['fails'].append(f)
        eng.explore(one, snap=snap, max_paths=case.opts.get('max_paths', 20000), deadline=t0 + maxt)
        res.update(paths=eng.npaths, queries=eng.nq, tsolve=eng.tq, unknown=eng.unk, fns=list(runtime.transpiled),
                   blocks=rt.BLK[0] - blk0, inputs=list(eng.inputs)[:12], ninputs=len(eng.inputs))
        # translator self-validation on concrete inputs
        nv = case.opts.get('validate', 1)
        if res['feasible'] == 0:
            nv = max(nv, 3)
        for k in range(nv):
            v = validate(case, runtime, snap, random.Random(SEED * 1000003 + k * 7919 + hash_name(case.name)))
            if v is None:
                continue
            if v:
                res['mismatch'].append(v)
            else:
                res['validated'] += 1
        # a path is feasible when the solver has a model of it or a concrete run has gone through its assertions
        if res['nchecks'] == 0 or (res['feasible'] == 0 and res['validated'] == 0):
            res['error'] = 'vacuous: no assertion was reached on a feasible path'
    except Unsupported as e:
        res['error'] = 'not decided: %s' % e
    except Exception:
        res['error'] = traceback.format_exc()
    res['time'] = time.time() - t0
    return res


def hash_name(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) & 0x7fffffff
    return h


def validate(case, runtime, snap, rng):
    """Same concrete inputs through the encoding and through the gcc build.  '' = agree, None = inputs not usable."""
    eng = rt.Engine(runtime)
    box = {}

    def one():
        B = harness.SymBackend(runtime, eng, rng=rng)
        box['B'] = B
        try:
            case.fn(B)
            B.done()
            box['end'] = 'ok'
        except (UB, Unreachable) as e:
            box['end'] = 'ub'
        except ExitCall as e:
            box['end'] = 'exit'
        except (KeyError, IndexError, ValueError, TypeError, AttributeError, ZeroDivisionError):
            if not B.fails:
                raise
            box['end'] = 'failed'
    box['end'] = 'infeasible'
    eng.explore(one, snap=snap, max_paths=2)
    if box['end'] != 'ok':
        return None
    B = box['B']
    out = harness.native_run(SO, INTERSO, case.fn, B.used, None)
    nat = [o for o in out if o[0] in ('check', 'near')]
    end = [o for o in out if o[0] == 'end']
    err = [o for o in out if o[0] in ('error', 'signal', 'timeout')]
    if err or not end:
        return 'native run of %s failed: %s' % (case.name, err[:1])
    if end[0][1] == 'infeasible':
        return None
    nd = {}
    for o in nat:
        nd.setdefault(o[1], []).append(o)
    for l in B.log:
        q = nd.get(l[0])
        if not q:
            return 'label %s missing in native run' % l[0]
        o = q.pop(0)
        if o[0] == 'check':
            if o[2] != l[1]:
                return '%s: encoding says %s, gcc build says %s' % (l[0], l[1], o[2])
        else:
            a, b = float(l[1]), float(o[2])
            if not (abs(a - b) <= 2e-5 * max(abs(a), abs(b)) + 1e-9 * max(abs(float(l[2])), 1e-30) or (a != a and b != b)):
                return '%s: encoding computes %r, gcc build %r' % (l[0], a, b)
    return ''


def replay(case, fail, asan_dir=None, main='vulture.c'):
    """Confirm a counterexample on the gcc build.  Returns a description or None."""
    label, vals, scales = fail
    out = harness.native_run(SO, INTERSO, case.fn, vals, scales)
    for o in out:
        if o[0] == 'check' and not o[2]:
            return '%s is false' % o[1]
        if o[0] == 'near' and not o[4]:
            return '%s: real code gives %r, expected %r' % (o[1], o[2], o[3])
        if o[0] == 'signal':
            return 'real code dies with signal %s' % o[1]
        if o[0] == 'timeout':
            return 'real code does not terminate'
    if label.startswith('undefined behaviour') and asan_dir:
        return 'ASAN'
    if os.environ.get('VV_DEBUG'):
        print('replay output', out[-3:])
    return None


def replay_asan(pid, cname, fail, d, main):
    """Undefined behaviour is confirmed by running the counterexample on an ASan/UBSan build."""
    so = os.path.join(d, 'asan', 'libvult_native.so')
    if not os.path.exists(so):
        build_asan(d, main)
    f = os.path.join(d, 'ub.json')
    json.dump(dict(property=pid, case=cname, label=fail[0], values=fail[1], scales=fail[2], sigs=harness.SIGS), open(f, 'w'))
    if 'uninitialised' in fail[0]:
        return replay_memcheck(pid, f, d, main)
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    ub = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=lib + ':' + ub, VV_ASAN=so, VV_INTER=INTERSO,
               ASAN_OPTIONS='detect_leaks=0:exitcode=77:halt_on_error=1:detect_odr_violation=0:max_malloc_fill_size=1000000000:malloc_fill_byte=255',
               UBSAN_OPTIONS='halt_on_error=1:exitcode=77')
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), '--replay-asan', f], env=env, capture_output=True,
                       text=True, timeout=300)
    txt = r.stdout + r.stderr
    if 'AddressSanitizer' in txt or 'runtime error' in txt or 'SIG77' in txt or "'signal'" in txt or 'REPLAY-FAIL' in txt:
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|REPLAY-FAIL[^\n]*)', txt)
        return m.group(1) if m else 'sanitizer stops the real code'
    if os.environ.get('VV_DEBUG'):
        print(txt[-3000:])
    return None


def replay_memcheck(pid, f, d, main):
    """The use of an uninitialised value is confirmed by valgrind on a gcc build."""
    so = os.path.join(d, 'memcheck', 'libvult_native.so')
    if not os.path.exists(so):
        build_asan(d, main, '', 'memcheck')
    log = os.path.join(d, 'memcheck.log.')
    env = dict(os.environ, VV_ASAN=so, VV_INTER=INTERSO, PYTHONMALLOC='malloc')
    r = subprocess.run(['valgrind', '--error-limit=no', '--log-file=%s%%p' % log, '-q', sys.executable, os.path.join(VERIF, 'run.py'),
                        '--replay-asan', f], env=env, capture_output=True, text=True, timeout=600)
    srcs = set(os.listdir(os.path.join(irc.REPO, 'src')))
    for name in glob.glob(log + '*'):
        for e in re.split(r'==\d+== \n', open(name, errors='replace').read()):
            fr = [m for m in re.findall(r'(\w+) \(([\w.]+\.c):(\d+)\)', e) if m[1] in srcs]
            if 'uninitialised' in e and fr:
                return 'memcheck: use of an uninitialised value in %s (%s:%s)' % fr[0]
    if os.environ.get('VV_DEBUG'):
        print((r.stdout + r.stderr)[-2000:])
    return None


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]


def _worker(i):
    case = CASES[i]
    return sym_case(case, TIER)


def run_property(pid, tier=None, only=None, jobs=8):
    global MOD, CASES, TIER, SEED
    t0 = time.time()
    TIER = tier or os.environ.get('VERIF_TIER', 'quick')
    SEED = int(os.environ.get('VERIF_SEED', '1'))
    MOD = importlib.import_module('checks.' + pid)
    main = getattr(MOD, 'MAIN', 'vulture.c')
    d = build(main)
    status = 0
    try:
        CASES = MOD.cases(TIER)
        if only:
            CASES = [c for c in CASES if re.search(only, c.name)]
        if hasattr(MOD, 'warmup') and len(CASES) > 1:
            try:
                warm(MOD.warmup)
            except Exception:
                pass
        results = []
        if jobs > 1 and len(CASES) > 1:
            with mp.get_context('fork').Pool(min(jobs, len(CASES)), maxtasksperchild=getattr(MOD, 'TASKS_PER_CHILD', 20)) as pool:
                for r in pool.imap_unordered(_worker, range(len(CASES)), chunksize=1):
                    results.append(r)
                    if os.environ.get('VV_DEBUG'):
                        print('case %-50s %6.1fs paths %d queries %d checks %d fails %d %s' % (
                            r['name'], r['time'], r['paths'], r['queries'], r['nchecks'], len(r['fails']), (r['error'] or '')[-300:]), flush=True)
        else:
            for i in range(len(CASES)):
                r = _worker(i)
                results.append(r)
                if os.environ.get('VV_DEBUG'):
                    print('case %-50s %6.1fs paths %d queries %d checks %d fails %d %s' % (
                        r['name'], r['time'], r['paths'], r['queries'], r['nchecks'], len(r['fails']), (r['error'] or '')[-1500:]), flush=True)
        results.sort(key=lambda r: r['name'])
        byname = {c.name: c for c in CASES}
        known = known_findings(pid)
        kf_hit = {}
        viol = None
        unconfirmed = []
        nconf = 0
        for r in results:
            tried = 0
            for f in r['fails']:
                k = next((k for k in known if re.search(k['match'], r['name'] + ' | ' + f[0])), None)
                if k is not None:
                    kf_hit.setdefault(k['what'], (r['name'], f))
                    continue
                if viol is not None or tried >= 6:
                    continue
                tried += 1
                ubk = f[0].startswith('undefined behaviour')
                c = replay(byname[r['name']], f, d if ubk else None, main)
                if c == 'ASAN':
                    c = replay_asan(pid, r['name'], f, d, main)
                if c:
                    viol = (r['name'], f, c)
                else:
                    unconfirmed.append((r['name'], f[0], f[1]))
        for what in kf_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
        for k in known:
            if k['what'] not in kf_hit and not only:
                print('note: listed finding not reproduced: %s' % k['what'])
        errs = [r for r in results if r['error']]
        mism = [m for r in results for m in r['mismatch']]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        fns = sorted(set(f for r in results for f in r['fns']))
        tot = lambda k: sum(r[k] for r in results)
        ev = dict(property=pid, tier=TIER, seed=SEED, level='model_checking', coverage=dict(
            states=tot('paths'), transitions=tot('blocks'), traces_validated_against_impl=tot('validated'),
            samples=[dict(case=r['name'], inputs=r['inputs'][:8], witness=r['sample']) for r in results[:6]],
            cases=len(results), assertions=tot('nchecks'), assertions_trivially_equal=tot('trivial'), queries=tot('queries'), solver_s=round(tot('tsolve'), 2),
            feasible_paths=tot('feasible'), symbolic_inputs=sum(r.get('ninputs', 0) for r in results),
            functions_encoded=fns, n_functions=len(fns), solver='z3 ' + z3.get_version_string(),
            branches_solver_unknown=tot('unknown'),
            meaning='states = symbolic paths explored to their end; transitions = IR function activations executed symbolically; '
                    'traces_validated_against_impl = concrete runs on which the encoding and the gcc build agree',
            bounds=getattr(MOD, 'BOUNDS', ''), outside=getattr(MOD, 'OUTSIDE', '')),
            assumptions=list(getattr(MOD, 'ASSUMPTIONS', [])) + COMMON, wall_s=round(time.time() - t0, 2),
            violations=1 if viol else 0)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        if viol:
            cname, f, c = viol
            rp = os.path.join(VERIF, 'evidence', pid + '.replay.json')
            json.dump(dict(property=pid, case=cname, label=f[0], values=f[1], scales=f[2], observed=c), open(rp, 'w'), indent=1)
            print('%s: case %s: %s; on the real code: %s' % (pid, cname, f[0], c))
            print('inputs: ' + json.dumps(f[1])[:600])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            status = 1
        elif unconfirmed or errs or mism:
            for u in unconfirmed[:5]:
                print('UNCONFIRMED counterexample (does not reproduce on the gcc build): %s' % (str(u)[:800]))
            for r in errs[:5]:
                print('ERROR case %s: %s' % (r['name'], r['error'][-1500:]))
            for m in mism[:5]:
                print('TRANSLATION MISMATCH: ' + m)
            status = 2
        print('%s %s: %d cases, %d paths, %d assertions, %d queries, %.1fs solver, %d functions, %d validated, %.1fs' % (
            pid, 'VIOLATED' if status == 1 else 'ok' if status == 0 else 'ERROR', len(results), tot('paths'), tot('nchecks'),
            tot('queries'), tot('tsolve'), len(fns), tot('validated'), time.time() - t0))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return status


COMMON = [
    'floating-point values are exact reals in symbolic computation (rounding is outside the claim; comparisons carry a relative tolerance of 1e-4 unless stated)',
    'clang-18 -O1 front end with sroa/early-cse/simplifycfg, NDEBUG and WITH_SIBC as in the real build; C library functions are modelled (vv/libc.py)',
    'memory allocation and file creation succeed unless a case says otherwise; files are virtual',
]


def warm(fn):
    runtime = rt.Runtime(PROG)
    eng = rt.Engine(runtime)
    snap = runtime.snapshot()

    def one():
        B = harness.SymBackend(runtime, eng, values={})
        try:
            fn(B)
        except (UB, ExitCall, Unreachable):
            pass
    eng.explore(one, snap=snap, max_paths=2)


def replay_file(path, asan=False):
    global MOD, SO, INTERSO
    r = json.load(open(path))
    MOD = importlib.import_module('checks.' + r['property'])
    main = getattr(MOD, 'MAIN', 'vulture.c')
    if asan:
        os.environ.pop('LD_PRELOAD', None)
        harness.SIGS.update(r['sigs'])
        SO, INTERSO = os.environ['VV_ASAN'], os.environ['VV_INTER']
        d = None
    else:
        d = build(main)
    cs = [c for t in ('quick', 'thorough') for c in MOD.cases(t) if c.name == r['case']]
    out = harness.native_run(SO, INTERSO, cs[0].fn, r['values'], r['scales'], timeout=200)
    bad = 0
    for o in out:
        if (o[0] == 'check' and not o[2]) or (o[0] == 'near' and not o[4]) or o[0] in ('signal', 'timeout'):
            print('REPLAY-FAIL', o)
            bad += 1
        elif o[0] in ('error',):
            print(o)
    if d:
        shutil.rmtree(d, ignore_errors=True)
    print('replay: %d failing assertions' % bad)
    return 1 if bad else 0
