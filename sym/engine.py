"""Path-wise symbolic execution core.

A path is one execution of the (transformed) real code.  Symbolic characters
are variables over code points; each branch on one of them is a decision, and
the depth-first exploration of the decision tree re-executes the code with
recorded decision prefixes.  Unary constraints (character in class) are kept
as exact interval sets and every distinct feasibility question about them is
also put to z3 (once per process); everything relational or arithmetic goes
to z3 directly.
"""
import time

from . import charset
from .charset import CS

z3 = None


def _z3():
    global z3
    if z3 is None:
        import z3 as _z
        z3 = _z
    return z3


class Control(BaseException):
    """Base of the exceptions that steer a path (never caught by the code
    under test, which catches at most Exception)."""


class Violation(Control):
    def __init__(self, label, model, detail=''):
        Control.__init__(self, label)
        self.label = label
        self.model = model
        self.detail = detail


class Infeasible(Control):
    pass


class Inconclusive(Control):
    pass


class PathTimeout(Control):
    pass


class CMap(object):
    """Unary character function: a finite table, the identity elsewhere."""
    __slots__ = ('t', 'keys', '_pre', 'id', '_comp', '_img')
    n = 0

    def __init__(self, table):
        self.t = dict((k, v) for k, v in table.items() if k != v)
        self.keys = charset.of_cps(self.t)
        self._pre = {}
        self._comp = {}
        self._img = {}
        self.id = CMap.n
        CMap.n += 1

    def pre(self, cs):
        v = self._pre.get(cs.id)
        if v is None:
            v = charset.of_cps([k for k, x in self.t.items() if x in cs]) | \
                (cs - self.keys)
            self._pre[cs.id] = v
        return v

    def __call__(self, cp):
        return self.t.get(cp, cp)

    def compose(self, inner):
        """self after inner"""
        v = self._comp.get(inner.id)
        if v is None:
            t = dict((k, self(x)) for k, x in inner.t.items())
            for k, x in self.t.items():
                if k not in t:
                    t[k] = x
            v = self._comp[inner.id] = CMap(t)
        return v

    def image(self, dom):
        """over-approximation of the image of dom"""
        v = self._img.get(dom.id)
        if v is None:
            v = (dom - self.keys) | charset.of_cps(
                [x for k, x in self.t.items() if k in dom])
            self._img[dom.id] = v
        return v


class PMap(object):
    """Piecewise constant character function: [(class, code point)], the
    classes covering every code point.  Interface of CMap."""
    keys = charset.ALL

    def __init__(self, pieces):
        self.pieces = pieces
        self._comp = {}
        self.id = CMap.n
        CMap.n += 1

    def pre(self, cs):
        v = charset.EMPTY
        for p, x in self.pieces:
            if x in cs:
                v = v | p
        return v

    def __call__(self, cp):
        for p, x in self.pieces:
            if cp in p:
                return x
        raise KeyError(cp)

    def compose(self, inner):
        v = self._comp.get(inner.id)
        if v is None:
            v = self._comp[inner.id] = PMap(
                [(inner.pre(p), x) for p, x in self.pieces])
        return v

    def image(self, dom):
        return charset.of_cps([x for p, x in self.pieces if (p & dom).n])


def map_then(m, inner):
    """m after inner, for any kinds of maps"""
    if inner is None:
        return m
    if type(m) is CMap and type(inner) is PMap:
        return PMap([(p, m(x)) for p, x in inner.pieces])
    return m.compose(inner)


def map_formula(m, x, dom):
    """z3 term m(x) for x in dom"""
    if type(m) is PMap:
        ps = [(p & dom, y) for p, y in m.pieces if (p & dom).n]
        e = z3.IntVal(ps[-1][1])
        for p, y in ps[:-1]:
            e = z3.If(p.formula(x, z3), z3.IntVal(y), e)
        return e
    e = x
    by = {}
    for k, y in m.t.items():
        if k in dom:
            by.setdefault(y - k, []).append(k)
    for d, ks in by.items():
        e = z3.If(charset.of_cps(ks).formula(x, z3), x + d, e)
    return e


def maps_differ(a, b, dom):
    """the subset of dom on which maps a and b (None: identity) differ"""
    if type(a) is PMap or type(b) is PMap:
        if type(a) is not PMap:
            a, b = b, a
        out = charset.EMPTY
        for p, y in a.pieces:
            q = p & dom
            if q.n:
                one = charset.single(chr(y))
                out = out | (q - (one if b is None else b.pre(one)))
        return out
    ks = set()
    for m in (a, b):
        if m is not None:
            ks.update(m.t)
    return charset.of_cps(
        [k for k in ks
         if (a(k) if a else k) != (b(k) if b else k)]) & dom


class SymC(object):
    """Symbolic character: input variable v, optionally mapped by m."""
    __slots__ = ('v', 'm')

    def __init__(self, v, m=None):
        self.v = v
        self.m = m


class SymG(object):
    """Symbolic character given by a z3 integer term."""
    __slots__ = ('e', 'vs', 'rng')

    def __init__(self, e, vs, rng):
        self.e = e
        self.vs = vs
        self.rng = rng


class Stats(object):
    FIELDS = ('paths', 'decisions', 'z3_queries', 'z3_time', 'z3_unary',
              'asserts', 'asserts_z3', 'incomplete', 'conc_checked',
              'infeasible')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return dict((f, getattr(self, f)) for f in self.FIELDS)


class Engine(object):
    def __init__(self):
        self.stats = Stats()
        self.unary_done = set()
        self.reset([])

    # -- path life cycle ------------------------------------------------
    def reset(self, prefix):
        self.prefix = prefix
        self.dec = []
        self.ndec = 0
        self.doms = []
        self.doms0 = []
        self.gen = []
        self.genvars = set()
        self.solver = None
        self.incomplete = False
        self.symdicts = {}
        self.out = []
        self.observed = []
        self.zvars = {}
        self.active = False
        # steps of the code under test, and of its regular expressions
        self.work = 0
        self.limit = float('inf')
        self.counting = False

    def overwork(self):
        self.limit = float('inf')
        self.violated('too many steps')

    def new_char(self, cs=charset.SCALAR):
        self.doms.append(cs)
        self.doms0.append(cs.n)
        return SymC(len(self.doms) - 1)

    def zvar(self, v):
        x = self.zvars.get(v)
        if x is None:
            x = self.zvars[v] = _z3().Int('c%d' % v)
        return x

    # -- decisions ------------------------------------------------------
    def _decide(self):
        """Choose a side of a two-way fork whose sides are both feasible."""
        i = self.ndec
        self.ndec = i + 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 1
        self.dec.append(d)
        self.stats.decisions += 1
        return d == 1

    def choose(self, n):
        """Symbolic choice among 0..n-1 (all feasible)."""
        for k in range(n - 1):
            if self._decide():
                return k
        return n - 1

    def alternatives(self):
        out = []
        for j in range(len(self.prefix), len(self.dec)):
            if self.dec[j] in (0, 1):
                out.append(self.dec[:j] + [1 - self.dec[j]])
        return out

    # -- z3 -------------------------------------------------------------
    def _check(self, solver):
        t = time.time()
        r = solver.check()
        self.stats.z3_time += time.time() - t
        self.stats.z3_queries += 1
        if r == z3.unknown:
            raise Inconclusive('z3: unknown')
        return r == z3.sat

    def _unary(self, D, s):
        """Both D&s and D-s nonempty: have z3 agree, once per question."""
        k = (D.id, s.id)
        if k in self.unary_done:
            return
        self.unary_done.add(k)
        _z3()
        x = z3.Int('x')
        sv = z3.Solver()
        d = D.formula(x, z3)
        f = s.formula(x, z3)
        sv.add(d)
        for g in (f, z3.Not(f)):
            sv.push()
            sv.add(g)
            ok = self._check(sv)
            sv.pop()
            self.stats.z3_unary += 1
            if not ok:
                raise Inconclusive('interval solver and z3 disagree')

    def _attach(self, vs):
        """Bring variables vs into the path's z3 context."""
        _z3()
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 20000)
        for v in vs:
            if v not in self.genvars:
                self.genvars.add(v)
                self.solver.add(self.doms[v].formula(self.zvar(v), z3))

    def _feasible(self, f):
        self.solver.push()
        self.solver.add(f)
        try:
            return self._check(self.solver)
        finally:
            self.solver.pop()

    def fork(self, f, vs):
        """Branch on z3 formula f over variables vs."""
        _z3()
        if f is True or f is False:
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        self._attach(vs)
        i = self.ndec
        if i < len(self.prefix):
            d = self.prefix[i]
            self.ndec += 1
            self.dec.append(d)
            self.stats.decisions += 1
        else:
            t = self._feasible(f)
            e = self._feasible(z3.Not(f)) if t else True
            if not t and not self._feasible(z3.Not(f)):
                raise Infeasible()
            d = 1 if (t and e) else (3 if t else 2)
            self.ndec += 1
            self.dec.append(d)
            self.stats.decisions += 1
        val = d in (1, 3)
        if d in (0, 1):
            g = f if val else z3.Not(f)
            self.solver.add(g)
            self.gen.append(g)
        return val

    def _shrink(self, v, cs):
        self.doms[v] = cs
        if v in self.genvars:
            self.solver.add(cs.formula(self.zvar(v), z3))

    def assume_in(self, ch, cs):
        """Assume (not assert) that ch is in cs."""
        if type(ch) is str:
            if ord(ch) not in cs:
                raise Infeasible()
            return
        if not self.test(ch, cs):
            raise Infeasible()

    # -- characters -----------------------------------------------------
    def test(self, ch, cs):
        """Is the character in class cs?  Forks when both are possible."""
        tp = type(ch)
        if tp is str:
            return ord(ch) in cs
        if tp is SymC:
            s = cs if ch.m is None else ch.m.pre(cs)
            v = ch.v
            D = self.doms[v]
            t = D & s
            if not t.n:
                return False
            if t is D:
                return True
            if v in self.genvars:
                return self.fork(s.formula(self.zvar(v), z3), (v,)) and \
                    self._set(v, t) or self._setf(v, D - s)
            k = (D.id, s.id)
            if k not in self.unary_done:
                self._unary(D, s)
            if self._decide():
                self.doms[v] = t
                return True
            self.doms[v] = D - s
            return False
        r = ch.rng
        t = r & cs
        if not t.n:
            return False
        if t is r:
            return True
        self._attach(ch.vs)
        return self.fork(cs.formula(ch.e, z3), ch.vs)

    def _set(self, v, t):
        self.doms[v] = t
        return True

    def _setf(self, v, t):
        self.doms[v] = t
        return False

    def concrete(self, ch):
        """The character as a str when the path fixes it, else None."""
        if type(ch) is str:
            return ch
        if type(ch) is SymC:
            D = self.doms[ch.v]
            if D.n == 1:
                x = D.r[0][0]
                return chr(x if ch.m is None else ch.m(x))
            return None
        if ch.rng.n == 1:
            return chr(ch.rng.r[0][0])
        return None

    def rng(self, ch):
        if type(ch) is str:
            return charset.single(ch)
        if type(ch) is SymC:
            D = self.doms[ch.v]
            return D if ch.m is None else ch.m.image(D)
        return ch.rng

    def term(self, ch):
        """z3 term and variables of a character."""
        _z3()
        if type(ch) is str:
            return z3.IntVal(ord(ch)), ()
        if type(ch) is SymC:
            x = self.zvar(ch.v)
            if ch.m is None:
                return x, (ch.v,)
            return map_formula(ch.m, x, self.doms[ch.v]), (ch.v,)
        return ch.e, ch.vs

    def same(self, a, b):
        """True/False when decided syntactically, else None."""
        if a is b:
            return True
        ta = type(a)
        if ta is str and type(b) is str:
            return a == b
        if ta is SymC and type(b) is SymC and a.v == b.v and a.m is b.m:
            return True
        if not (self.rng(a) & self.rng(b)).n:
            return False
        ca = self.concrete(a)
        if ca is not None:
            cb = self.concrete(b)
            if cb is not None:
                return ca == cb
        return None

    def eqf(self, a, b):
        """Formula for a == b with its variables (no fork)."""
        s = self.same(a, b)
        if s is not None:
            return s, ()
        ea, va = self.term(a)
        eb, vb = self.term(b)
        return ea == eb, tuple(va) + tuple(vb)

    def eq(self, a, b):
        s = self.same(a, b)
        if s is not None:
            return s
        cb = self.concrete(b)
        if cb is not None:
            return self.test(a, charset.single(cb))
        ca = self.concrete(a)
        if ca is not None:
            return self.test(b, charset.single(ca))
        if type(a) is SymC and type(b) is SymC and a.v == b.v:
            # same variable under different maps
            diff = maps_differ(a.m, b.m, self.doms[a.v])
            return not self.test(SymC(a.v), diff)
        f, vs = self.eqf(a, b)
        return self.fork(f, vs)

    # -- models ---------------------------------------------------------
    def model(self, extra=None, extra_vs=()):
        """Concrete code point for each input variable, or None."""
        out = {}
        if extra is not None or self.gen:
            self._attach(extra_vs)
            s = self.solver
            s.push()
            if extra is not None:
                s.add(extra)
            ok = self._check(s)
            if not ok:
                s.pop()
                return None
            # prefer readable values
            for v in sorted(self.genvars):
                x = self.zvar(v)
                for lo, hi in ((97, 122), (48, 57), (33, 126)):
                    s.push()
                    s.add(x >= lo, x <= hi)
                    if self._check(s):
                        break
                    s.pop()
            self._check(s)
            m = s.model()
            for v in self.genvars:
                out[v] = m.eval(self.zvar(v), model_completion=True).as_long()
            while s.num_scopes():
                s.pop()
        used = set(out.values())
        for v, D in enumerate(self.doms):
            if v not in out:
                out[v] = D.pick()
        return out

    # -- assertions -----------------------------------------------------
    def violated(self, label, detail=''):
        self.stats.asserts += 1
        m = self.model()
        if m is None:
            raise Infeasible()
        raise Violation(label, m, detail)

    def require(self, cond, label, detail=''):
        self.stats.asserts += 1
        if not cond:
            self.violated(label, detail)

    def require_chars(self, a, b, label, detail=None):
        """Assert elementwise equality of two equal-length char tuples."""
        self.stats.asserts += 1
        fs = []
        vs = []
        for x, y in zip(a, b):
            f, w = self.eqf(x, y)
            if f is False:
                self.violated(label, detail() if detail else '')
            if f is not True:
                fs.append(f)
                vs.extend(w)
        if not fs:
            return
        _z3()
        self._attach(vs)
        neg = z3.Not(z3.And(fs))
        self.stats.asserts_z3 += 1
        if self._feasible(neg):
            m = self.model(neg, vs)
            raise Violation(label, m, detail() if detail else '')

    def eval_char(self, ch, m):
        if type(ch) is str:
            return ch
        if type(ch) is SymC:
            x = m[ch.v]
            return chr(x if ch.m is None else ch.m(x))
        sub = [(self.zvar(v), z3.IntVal(m[v])) for v in ch.vs]
        return chr(z3.simplify(z3.substitute(ch.e, *sub)).as_long())


E = Engine()
