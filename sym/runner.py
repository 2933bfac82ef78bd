"""Explores the jobs of one property on all cores and replays what it finds.

A job is a function fn(T, *args): it builds inputs out of symbolic characters
and choices, runs the code under test and the reference on them, and asserts.
Each worker process executes paths of jobs; a path that asserts falsely,
raises, or does not end is a candidate, which counts as a violation only when
the concrete values the solver gives for it break the property in the
untransformed code too, in a process of its own.
"""
import json
import contextlib
import fcntl
import io
import os
import pickle
import random
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction
from multiprocessing import get_context

from . import charset, engine, xform
from .engine import E, Violation, Infeasible, Inconclusive, PathTimeout
from .strs import SymStr, SymInt, mk

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Assumed(engine.Control):
    """native run: an assumption of the job does not hold"""


class Broken(engine.Control):
    """native run: an assertion of the job does not hold"""

    def __init__(self, label, detail=''):
        engine.Control.__init__(self, label)
        self.label = label
        self.detail = detail


_cs = {}


def cs_of(spec):
    if spec is None:
        return charset.SCALAR
    if isinstance(spec, str):
        v = _cs.get(spec)
        if v is None:
            v = _cs[spec] = charset.chars(spec)
        return v
    return spec


def show(x, m=None):
    """concrete value of x under model m"""
    if type(x) is SymStr:
        return ''.join(E.eval_char(c, m) for c in x.c)
    if isinstance(x, SymInt):
        z3 = engine._z3()
        sub = [(E.zvar(v), z3.IntVal(m[v])) for v in x.vs]
        return z3.simplify(z3.substitute(x.e, *sub)).as_long()
    if type(x) is list:
        return [show(y, m) for y in x]
    if type(x) is tuple:
        return [show(y, m) for y in x]
    if type(x) is dict:
        return dict((show(k, m) if type(k) is SymStr else k, show(y, m))
                    for k, y in x.items())
    return x


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def with_stack(n, f, a):
    """f(*a) with room for n more frames on the stack"""
    d = 0
    fr = sys._getframe()
    while fr is not None:
        d += 1
        fr = fr.f_back
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(d + n)
    try:
        return f(*a)
    finally:
        sys.setrecursionlimit(old)


class TooLong(engine.Control):
    pass


def seconds(f, n, limit):
    def onalarm(sig, frm):
        raise TooLong()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    t0 = time.process_time()
    try:
        f(n)
        return time.process_time() - t0
    except TooLong:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def superquadratic(f, n):
    """What shows that the time of f(n) grows faster than the square of n,
    or None: measured where it takes long enough to measure."""
    t = seconds(f, n, 10)
    if t is None:
        return 'no end within 10 s for %d repetitions' % n
    t = min(t, seconds(f, n, 10) or t)
    while t < 0.12 and n < 1 << 16:
        n *= 2
        u = seconds(f, n, 12)
        if u is None:
            return '%.3f s for %d repetitions, no end within 12 s for %d' % (
                t, n // 2, n)
        if u > 40 * max(t, 0.02):
            return '%.3f s for %d repetitions, %.3f s for %d' % (
                t, n // 2, u, n)
        t = u
    if t < 0.12:
        return None
    u = seconds(f, 2 * n, 12)
    if u is None:
        return '%.3f s for %d repetitions, no end within 12 s for %d' % (
            t, n, 2 * n) if t < 1.5 else None
    v = seconds(f, n, 12)
    t = max(t, v or t)
    if u > 6 * t:
        return '%.3f s for %d repetitions, %.3f s for %d' % (t, n, u, 2 * n)
    return None


class SymT(object):
    """What a job sees on a symbolic run."""
    symbolic = True

    def stack(self, n, f, *a):
        # the engine's own frames do not count: judged natively
        self.native = True
        return f(*a)

    def growth(self, f, small, big, factor):
        """f(big) takes at most factor times the steps of f(small)"""
        E.counting = True
        E.work = 0
        f(small)
        w = E.work
        E.work = 0
        E.limit = factor * w
        f(big)
        E.limit = float('inf')
        E.counting = False
        E.stats.asserts += 1
        return w, E.work

    def __init__(self, env):
        self.env = env
        self.__dict__.update(env.ns_sym)
        self.begin()

    def begin(self):
        self.choices = []
        self.weight = Fraction(1)
        self.docs = []
        self.native = False

    def printed(self):
        """what was printed since the last call"""
        out = ''
        for x in E.out:
            out = out + x
        E.out[:] = []
        return out

    def hole(self, n=1, cs=None):
        c = cs_of(cs)
        return mk([E.new_char(c) for _ in range(n)])

    def choose(self, n):
        k = E.choose(n)
        self.choices.append(k)
        self.weight /= n
        return k

    def pick(self, *opts):
        return opts[self.choose(len(opts))]

    def upto(self, n, cs=None, lo=0):
        return self.hole(lo + self.choose(n - lo + 1), cs)

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def require(self, cond, label, detail=''):
        E.require(cond, label, detail if not callable(detail) else '')

    def fail(self, label, detail=''):
        E.violated(label, detail)

    def observe(self, x):
        E.observed.append(x)

    def eq(self, a, b, label):
        E.observed.append(a)
        self._eq(a, b, label)

    def same(self, a, b, label):
        """eq without recording the value"""
        self._eq(a, b, label)

    def _eq(self, a, b, label):
        ta, tb = type(a), type(b)
        if ta is SymStr or tb is SymStr or \
           (isinstance(a, str) and isinstance(b, str)):
            ca = a.c if ta is SymStr else tuple(a)
            cb = b.c if tb is SymStr else tuple(b)
            if len(ca) != len(cb):
                E.violated(label)
            E.require_chars(ca, cb, label)
        elif ta in (list, tuple) and tb in (list, tuple):
            if len(a) != len(b):
                E.violated(label)
            for x, y in zip(a, b):
                self._eq(x, y, label)
        elif ta is dict and tb is dict:
            if len(a) != len(b):
                E.violated(label)
            for k in a:
                if k not in b:
                    E.violated(label)
                self._eq(a[k], b[k], label)
        else:
            E.require(a == b, label)


class NatT(object):
    """The same for a concrete run on the untransformed code."""
    symbolic = False

    def stack(self, n, f, *a):
        return with_stack(n, f, a)

    confirm = False

    def growth(self, f, small, big, factor):
        f(small)
        if self.confirm:
            t = superquadratic(f, small)
            if t:
                raise Broken('too many steps', t)
        return 1, 1

    def __init__(self, env):
        self.env = env
        self.__dict__.update(env.ns_nat)
        self.begin((), ())

    def begin(self, chars, choices):
        self.chars = list(chars)
        self.todo = list(choices)
        self.i = self.j = 0
        self.observed = []
        self.docs = []
        self.drift = False

    def printed(self):
        out = self.stdout.getvalue()
        self.stdout.seek(0)
        self.stdout.truncate()
        return out

    def hole(self, n=1, cs=None):
        out = []
        for _ in range(n):
            if self.i < len(self.chars):
                out.append(self.chars[self.i])
            else:
                out.append(chr(cs_of(cs).pick()))
                self.drift = True
            self.i += 1
        return ''.join(out)

    def choose(self, n):
        k = 0
        if self.j < len(self.todo):
            k = self.todo[self.j]
        else:
            self.drift = True
        self.j += 1
        return min(k, n - 1)

    pick = SymT.pick
    upto = SymT.upto

    def assume(self, cond):
        if not cond:
            raise Assumed()

    def require(self, cond, label, detail=''):
        if not cond:
            raise Broken(label, detail() if callable(detail) else detail)

    def fail(self, label, detail=''):
        raise Broken(label, detail)

    def observe(self, x):
        self.observed.append(x)

    def eq(self, a, b, label):
        self.observed.append(a)
        self.same(a, b, label)

    def same(self, a, b, label):
        if isinstance(a, tuple):
            a = list(a)
        if isinstance(b, tuple):
            b = list(b)
        if show(a) != show(b):
            raise Broken(label, 'got %s, expected %s' % (short(a), short(b)))


class Snapshot(object):
    """Mutable module state of a package, put back before every path, so
    that what one path leaves behind cannot leak into another."""

    def __init__(self, mods):
        self.mods = []
        self.boxes = []
        self.caches = []
        self.seen = set()
        for m in mods.values():
            d = m.__dict__
            self.mods.append((d, dict(d)))
            for k, v in list(d.items()):
                if k.startswith('__') or k == xform.H:
                    continue
                self.obj(v, m.__name__)

    def obj(self, v, mod):
        if id(v) in self.seen:
            return
        self.seen.add(id(v))
        t = type(v)
        if t in (dict, list, set):
            if len(v) <= 400:
                self.boxes.append((v, t(v)))
                for x in (v.values() if t is dict else v):
                    if type(x) in (dict, list, set):
                        self.obj(x, mod)
        elif isinstance(v, type):
            if v.__module__ != mod:
                return
            for k, x in list(v.__dict__.items()):
                if not (k.startswith('__') and k.endswith('__')):
                    self.obj(x, mod)
            self.mods.append((v, dict(
                (k, x) for k, x in v.__dict__.items()
                if not (k.startswith('__') and k.endswith('__')))))
            init = v.__dict__.get('__init__')
            if init is not None:
                self.obj(init, mod)
        elif hasattr(v, 'cache_clear') and hasattr(v, '__wrapped__'):
            self.caches.append(v)
        elif hasattr(v, '__defaults__') and hasattr(v, '__code__'):
            for x in (v.__defaults__ or ()):
                self.obj(x, mod)
            for x in (v.__kwdefaults__ or {}).values():
                self.obj(x, mod)
            if v.__dict__:
                self.boxes.append((v.__dict__, dict(v.__dict__)))
        elif getattr(t, '__module__', None) == mod and \
                hasattr(v, '__dict__'):
            self.boxes.append((v.__dict__, dict(v.__dict__)))
            for x in v.__dict__.values():
                self.obj(x, mod)

    def restore(self):
        for box, copy in self.boxes:
            t = type(box)
            if t is list:
                box[:] = copy
            elif t is dict:
                if len(box) != len(copy) or any(
                        box.get(k, box) is not x for k, x in copy.items()):
                    box.clear()
                    box.update(copy)
            else:
                if len(box) != len(copy):
                    box.clear()
                    box.update(copy)
        for d, copy in self.mods:
            if type(d) is dict:
                for k, x in copy.items():
                    if d.get(k) is not x:
                        d[k] = x
                if len(d) != len(copy):
                    for k in [k for k in d if k not in copy]:
                        del d[k]
            else:
                for k, x in copy.items():
                    if d.__dict__.get(k) is not x:
                        setattr(d, k, x)
                for k in [k for k in d.__dict__
                          if k not in copy and not (
                              k.startswith('__') and k.endswith('__'))]:
                    delattr(d, k)
        for c in self.caches:
            c.cache_clear()


class Env(object):
    """The code under test, the reference and the property, each loaded
    natively and in transformed form."""

    def __init__(self, prop, symbolic=True):
        self.prop = prop
        nat = xform.native_package(REPO, 'commonmark')
        self.nat_mods = nat
        self.ns_nat = self.ns(nat, False)
        self.mod_nat = self.load(prop, False)
        if symbolic:
            sym = xform.symbolic_package(REPO, 'commonmark')
            self.sym_mods = sym
            self.ns_sym = self.ns(sym, True)
            self.mod_sym = self.load(prop, True)
            self.snap_sym = Snapshot(sym)
            self.snap_nat = Snapshot(nat)

    def ns(self, mods, symbolic):
        refsets = xform.load_file(
            os.path.join(VERIF, 'ref/refsets.py'), 'ref.refsets', False)
        sys.modules['refsets'] = refsets
        ref = xform.load_file(
            os.path.join(VERIF, 'ref/cm.py'), 'ref.cm', symbolic)
        sys.modules.pop('refsets')
        return {'mods': mods, 'pkg': mods['commonmark'], 'ref': ref}

    def load(self, prop, symbolic):
        lib = xform.load_file(
            os.path.join(VERIF, 'checks/lib.py'), 'checks.lib', symbolic)
        sys.modules['lib'] = lib
        m = xform.load_file(
            os.path.join(VERIF, 'checks/%s.py' % prop.lower()),
            'checks.' + prop.lower(), symbolic)
        sys.modules.pop('lib')
        return m

    def jobs(self, tier, symbolic=True):
        m = self.mod_sym if symbolic else self.mod_nat
        out = []
        for i, j in enumerate(m.jobs(tier)):
            a = ' '.join(x.__name__ if callable(x) else repr(x)
                         for x in j[1:])
            if len(a) > 90:
                a = a[:87] + '...'
            out.append(('%03d %s %s' % (i, j[0].__name__, a), j[0], j[1:]))
        return out


def run_native(T, fn, args, chars, choices):
    """(verdict, label, detail) of one concrete run"""
    T.begin(chars, choices)
    try:
        T.stdout = io.StringIO()
        with contextlib.redirect_stdout(T.stdout):
            fn(T, *args)
    except Assumed:
        return 'assumed', '', ''
    except Broken as e:
        return 'violated', e.label, e.detail
    except PathTimeout:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for f in tb:
            if f.filename.startswith(REPO):
                where = '%s:%d' % (os.path.basename(f.filename), f.lineno)
        return 'violated', 'raises', '%s: %s at %s' % (
            type(e).__name__, str(e)[:200], where)
    return 'ok', '', ''


class JobStat(object):
    def __init__(self):
        self.paths = 0
        self.asserted = 0
        self.weight = Fraction(0)
        self.gen = 0
        self.incomplete = 0
        self.secs = 0.0
        self.maxdec = 0


class Worker(object):
    def __init__(self, env, jobs, opts, ch):
        self.env = env
        self.jobs = jobs
        self.opts = opts
        self.ch = ch
        self.T = SymT(env)
        self.N = NatT(env)
        self.nfn = dict((j[0], j[1:]) for j in opts['native_jobs'])
        self.stats = {}
        self.samples = []
        self.rnd = random.Random(opts['seed'] * 1000003 + ch['id'])
        self.reported = {}

    def send(self, msg):
        with self.ch['rlock']:
            self.ch['results'].send(msg)

    def get(self):
        ch = self.ch
        with ch['next'].get_lock():
            k = ch['next'].value
            if k < len(ch['order']):
                ch['next'].value = k + 1
                return ch['order'][k], [[]]
        with ch['idle'].get_lock():
            ch['idle'].value += 1
        try:
            while not ch['stop'].value:
                if ch['tlock'].acquire(timeout=0.2):
                    try:
                        if ch['tasks_r'].poll(0.02):
                            d = ch['tasks_r'].recv_bytes()
                            with ch['bytes'].get_lock():
                                ch['bytes'].value -= len(d) + 16
                            return pickle.loads(d)
                    finally:
                        ch['tlock'].release()
        finally:
            with ch['idle'].get_lock():
                ch['idle'].value -= 1
        return None

    def put(self, task):
        """False when the pipe has no room for it: a send must not block"""
        ch = self.ch
        d = pickle.dumps(task, 4)
        with ch['bytes'].get_lock():
            if ch['bytes'].value + len(d) + 16 > ch['cap']:
                return False
            ch['bytes'].value += len(d) + 16
        with ch['pending'].get_lock():
            ch['pending'].value += 1
        with ch['wlock']:
            ch['tasks_w'].send_bytes(d)
        return True

    def loop(self):
        def onalarm(sig, frm):
            raise PathTimeout()
        signal.signal(signal.SIGALRM, onalarm)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        ch = self.ch
        while True:
            t = self.get()
            if t is None:
                break
            ji, stack = t
            while stack and not ch['stop'].value:
                p = stack.pop()
                stack.extend(self.path(ji, p))
                if len(stack) > 1 and ch['idle'].value:
                    n = max(1, len(stack) // 2)
                    if self.put((ji, stack[:n])) or n > 1 and \
                       self.put((ji, stack[:1])) and (n := 1):
                        stack = stack[n:]
            if stack:
                self.stats.setdefault(ji, JobStat()).incomplete += 1
            with ch['pending'].get_lock():
                ch['pending'].value -= 1
        self.send(('stats', ch['id'], E.stats.as_dict(),
                   dict((self.jobs[k][0], v)
                        for k, v in self.stats.items()),
                   self.samples[:6]))
        ch['results'].close()

    def path(self, ji, prefix):
        name, fn, args = self.jobs[ji]
        T = self.T
        st = self.stats.get(ji)
        if st is None:
            st = self.stats[ji] = JobStat()
        E.reset(prefix)
        T.begin()
        self.env.snap_sym.restore()
        cand = None
        ok = False
        t0 = time.time()
        a0 = E.stats.asserts
        signal.setitimer(signal.ITIMER_REAL, self.opts['path_timeout'])
        try:
            try:
                fn(T, *args)
                ok = True
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Infeasible:
            E.stats.infeasible += 1
        except Violation as e:
            cand = ('assert', e.label, e.detail, e.model)
        except PathTimeout:
            cand = ('hang', 'does not end', '', None)
        except Inconclusive as e:
            cand = ('inconclusive', str(e), '', None)
        except RecursionError as e:
            cand = ('raises', 'RecursionError', '', None)
        except Exception as e:
            cand = ('raises', type(e).__name__,
                    traceback.format_exc()[-1500:], None)
        st.secs += time.time() - t0
        st.paths += 1
        st.maxdec = max(st.maxdec, len(E.dec))
        E.stats.paths += 1
        alts = E.alternatives()
        if E.gen or E.incomplete:
            st.gen += 1
        else:
            w = T.weight
            for v, D in enumerate(E.doms):
                if D.n != E.doms0[v]:
                    w = w * Fraction(D.n, E.doms0[v])
            st.weight += w
        if ok and E.stats.asserts > a0:
            st.asserted += 1
        if E.incomplete:
            st.incomplete += 1
            E.stats.incomplete += 1
        if cand is not None:
            self.candidate(st, name, args, cand)
        elif ok and (st.paths <= 2 or E.incomplete or T.native or
                     self.rnd.random() < self.opts['validate']):
            self.validate(st, name, args)
        return alts

    def candidate(self, st, name, args, cand):
        kind, label, detail, model = cand
        if type(detail) is not str:
            detail = ''
        key = (name, kind, label)
        n = self.reported.get(key, 0)
        self.reported[key] = n + 1
        if n >= 25:
            st.incomplete += 1
            return
        try:
            if model is None:
                model = E.model()
        except (Inconclusive, Exception):
            model = None
        if model is None:
            st.incomplete += 1
            self.send(('incomplete', name, label, detail))
            return
        chars = [chr(model[v]) for v in range(len(E.doms))]
        self.send(('candidate', name, kind, label, detail, chars,
                   list(self.T.choices)))

    def validate(self, st, name, args):
        """Run the path's model natively: verdict and observed values must
        agree with the symbolic ones."""
        try:
            model = E.model()
        except Inconclusive:
            return
        if model is None:
            # the path condition is unsatisfiable: nothing to validate
            E.stats.infeasible += 1
            return
        chars = [chr(model[v]) for v in range(len(E.doms))]
        choices = list(self.T.choices)
        self.env.snap_nat.restore()
        signal.setitimer(signal.ITIMER_REAL, self.opts['path_timeout'])
        try:
            try:
                v, label, detail = run_native(
                    self.N, *self.nfn[name], chars, choices)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except PathTimeout:
            v, label, detail = 'violated', 'does not end', ''
        E.stats.conc_checked += 1
        if v == 'violated':
            self.send(('candidate', name, 'native', label, detail, chars,
                       choices))
            return
        want = [show(x, model) for x in E.observed]
        got = [show(x) for x in self.N.observed]
        if want != got:
            st.incomplete += 1
            E.stats.incomplete += 1
            self.send(('mismatch', name, chars, choices, short(want),
                       short(got)))
        elif len(self.samples) < 6:
            self.samples.append({
                'job': name, 'chars': ''.join(chars), 'choices': choices,
                'observed': short(got, 300)})


def replay_file(prop, tier, seed, name, label, detail, chars, choices):
    d = os.path.join(VERIF, 'replays', prop)
    os.makedirs(d, exist_ok=True)
    body = {'property': prop, 'tier': tier, 'job': name, 'label': label,
            'detail': short(detail), 'chars': [ord(c) for c in chars],
            'choices': choices}
    import hashlib
    h = hashlib.sha256(json.dumps(
        [name, body['chars'], choices]).encode()).hexdigest()[:12]
    p = os.path.join(d, h + '.json')
    with open(p, 'w') as f:
        json.dump(body, f, indent=1)
    return p


def replay(path, timeout=20):
    """Replay in a fresh process: (verdict, text)."""
    try:
        r = subprocess.run(
            [sys.executable, os.path.join(VERIF, 'replay.py'), path],
            stdin=subprocess.DEVNULL, capture_output=True, text=True,
            errors='backslashreplace', timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'violated', 'no answer within %d s' % timeout
    if r.returncode == 1:
        return 'violated', r.stdout.strip()
    if r.returncode == 0:
        return 'ok', r.stdout.strip()
    if r.returncode < 0:
        return 'violated', 'the process died of signal %d' % -r.returncode
    return 'error', (r.stdout + r.stderr)[-2000:]


def explore(prop, tier, seed, budget, nproc, validate=0.04,
            path_timeout=20.0, only=None, verbose=False):
    t0 = time.time()
    env = Env(prop)
    jobs = env.jobs(tier)
    native_jobs = env.jobs(tier, False)
    if only:
        jobs = [j for j in jobs if only in j[0]]
    engine._z3()
    opts = {'seed': seed, 'validate': validate, 'native_jobs': native_jobs,
            'path_timeout': path_timeout}
    cx = get_context('fork')
    tr, tw = cx.Pipe(False)
    rr, rw = cx.Pipe(False)
    try:
        cap = fcntl.fcntl(tw.fileno(), 1031, 1 << 20)
    except OSError:
        cap = 1 << 16
    order = list(range(len(jobs)))
    random.Random(seed).shuffle(order)
    ch = {'next': cx.Value('i', 0), 'bytes': cx.Value('l', 0),
          # a pipe of pages: keep well below what it holds
          'cap': cap // 4, 'order': order, 'tasks_r': tr, 'tasks_w': tw, 'results': rw,
          'tlock': cx.Lock(), 'wlock': cx.Lock(), 'rlock': cx.Lock(),
          'idle': cx.Value('i', 0), 'pending': cx.Value('i', len(jobs)),
          'stop': cx.Value('i', 0)}

    def body(i):
        c = dict(ch, id=i)
        try:
            Worker(env, jobs, opts, c).loop()
        except BaseException:
            traceback.print_exc()
            os._exit(3)
        os._exit(0)

    procs = []
    for i in range(nproc):
        p = cx.Process(target=body, args=(i,), daemon=True)
        p.start()
        procs.append(p)
    res = {'violation': None, 'candidates': 0, 'unreproduced': [],
           'mismatch': [], 'incomplete': [], 'stats': {}, 'jobs': {},
           'samples': [], 'truncated': False, 'dead': 0, 'unjudged': 0, 'known': {}}
    known = known_findings(prop)
    seen = {}
    wasted = 0
    done = set()
    deadline = t0 + budget
    stopping = None
    while len(done) < nproc:
        if rr.poll(0.05):
            try:
                m = rr.recv()
            except EOFError:
                break
            if m[0] == 'stats':
                done.add(m[1])
                for k, v in m[2].items():
                    res['stats'][k] = res['stats'].get(k, 0) + v
                for k, v in m[3].items():
                    o = res['jobs'].get(k)
                    if o is None:
                        res['jobs'][k] = v
                    else:
                        for f in ('paths', 'asserted', 'weight', 'gen',
                                  'incomplete', 'secs'):
                            setattr(o, f, getattr(o, f) + getattr(v, f))
                        o.maxdec = max(o.maxdec, v.maxdec)
                res['samples'].extend(m[4])
            elif m[0] == 'mismatch':
                res['mismatch'].append(m[1:])
                if verbose:
                    print('MISMATCH', m[1:])
            elif m[0] == 'incomplete':
                res['incomplete'].append(m[1:])
            elif m[0] == 'candidate' and res['violation'] is None:
                _, name, kind, label, detail, chars, choices = m
                res['candidates'] += 1
                key = (name, kind, label)
                seen[key] = seen.get(key, 0) + 1
                if seen[key] > 6 or wasted > 100 or \
                   time.time() > deadline + 30:
                    res['unjudged'] += 1
                    continue
                t1 = time.time()
                path = replay_file(prop, tier, seed, name, label, detail,
                                   chars, choices)
                v, text = replay(path)
                if v == 'violated':
                    kf = match_known(known, name, text, chars)
                    if kf is not None:
                        res['known'][kf['id']] = kf
                        os.unlink(path)
                        continue
                    res['violation'] = (path, text)
                    ch['stop'].value = 1
                else:
                    wasted += time.time() - t1
                    res['unreproduced'].append(
                        (name, kind, label, detail, path, v, text))
                    if verbose:
                        print('UNREPRODUCED', name, kind, label, detail,
                              ''.join(chars).encode('unicode_escape'),
                              choices, v, text)
            if time.time() < deadline:
                continue
        now = time.time()
        for i, p in enumerate(procs):
            if i not in done and not p.is_alive() and not rr.poll(0):
                done.add(i)
                res['dead'] += 1
        if not ch['stop'].value and ch['pending'].value <= 0:
            ch['stop'].value = 1
        if now > deadline and not ch['stop'].value:
            res['truncated'] = True
            ch['stop'].value = 1
        if ch['stop'].value and stopping is None:
            stopping = now
        if stopping and now > stopping + path_timeout + 15:
            break
        if res['dead'] and ch['idle'].value >= nproc - res['dead'] and \
           not tr.poll(0) and ch['next'].value >= len(jobs):
            ch['stop'].value = 1
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
    res['wall'] = time.time() - t0
    res['njobs'] = len(jobs)
    res['jobnames'] = [j[0] for j in jobs]
    res['bounds'] = getattr(env.mod_nat, 'BOUNDS', '')
    res['outside'] = getattr(env.mod_nat, 'OUTSIDE', '')
    return res


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('known', []) if k['property'] == prop]


def match_known(known, name, text, chars):
    for k in known:
        if k.get('job') == name and k.get('chars') == ''.join(chars):
            return k
    return None
