"""Self-test of the symbolic executor: every function of styles_src.py is
executed on strings of holes (all paths) and compared with what Python itself
does for a model of every path.

usage: python3-vt tools/selftest.py [names]"""
import os
import sys
import time
import traceback
from fractions import Fraction

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..'))
from sym import charset, hooks, xform            # noqa
from sym.engine import E, Infeasible, Inconclusive   # noqa
from sym.strs import SymStr, mk                   # noqa
from sym.runner import show                       # noqa

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                   'styles_src.py')


def norm(x):
    if isinstance(x, (set, frozenset)):
        return ['set', sorted(map(repr, x))]
    if isinstance(x, dict):
        return [[norm(k), norm(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    return x


def unkey(x):
    if isinstance(x, (set, frozenset)):
        return type(x)(hooks._unkey(y) for y in x)
    if isinstance(x, dict):
        return [[hooks._unkey(k), unkey(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [unkey(y) for y in x]
    return x


def main(names):
    ms = xform.load_file(SRC, 'styles_sym', True)
    mn = xform.load_file(SRC, 'styles_nat', False)
    bad = 0
    alphabet = charset.SCALAR
    for name, f in list(mn.__dict__.items()):
        if getattr(f, '__module__', '') != 'styles_nat' and \
           getattr(f, '__globals__', None) is not mn.__dict__:
            continue
        if isinstance(f, type) or not hasattr(f, '__code__') or \
           f.__code__.co_varnames[:2] != ('a', 'b'):
            continue
        if names and name not in names:
            continue
        if hasattr(f, '__wrapped__'):
            continue
        t0 = time.time()
        n = inc = wrong = raised = 0
        note = ''
        for la, lb in ((1, 1), (2, 1)):
            stack = [[]]
            k = 0
            while stack and k < 400:
                E.reset(stack.pop())
                E.active = True
                for m in (ms, mn):
                    for v in vars(m).values():
                        if hasattr(v, 'cache_clear'):
                            v.cache_clear()
                a = mk([E.new_char(alphabet) for _ in range(la)])
                b = mk([E.new_char(alphabet) for _ in range(lb)])
                try:
                    try:
                        r = ('ok', unkey(getattr(ms, name)(a, b)))
                    finally:
                        E.active = False
                except (Infeasible, Inconclusive):
                    stack.extend(E.alternatives())
                    continue
                except Exception as e:
                    r = ('raises', type(e).__name__, '')
                    err = traceback.format_exc()
                else:
                    err = ''
                k += 1
                if E.incomplete:
                    inc += 1
                stack.extend(E.alternatives())
                model = E.model()
                if model is None:
                    continue
                ca = ''.join(E.eval_char(c, model) for c in a.c)
                cb = ''.join(E.eval_char(c, model) for c in b.c)
                try:
                    w = ('ok', getattr(mn, name)(ca, cb))
                except Exception as e:
                    w = ('raises', type(e).__name__, '')
                got = show(norm(r), model) if r[0] == 'ok' else r
                want = show(norm(w)) if w[0] == 'ok' else w
                n += 1
                if got != want:
                    wrong += 1
                    if not note:
                        note = '%r %r: %r, not %r\n%s' % (
                            ca, cb, got, want, err[-700:])
        bad += bool(wrong)
        flag = 'WRONG' if wrong else 'inc' if inc else ''
        print('%-16s %4d paths %4d incomplete %4d wrong %6.2fs %s %s' % (
            name, n, inc, wrong, time.time() - t0, flag, note))
    return bad


if __name__ == '__main__':
    sys.exit(1 if main(sys.argv[1:]) else 0)
