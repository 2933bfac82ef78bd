"""Replay one recorded counterexample on the real, untransformed code.

    python3-vt replay.py replays/C07/xxxx.json

Exit 1 and VIOLATED when the property is broken, 0 when it holds.
"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from sym import runner
    with open(sys.argv[1]) as f:
        d = json.load(f)
    env = runner.Env(d['property'], symbolic=False)
    for name, fn, args in env.jobs(d['tier'], False):
        if name == d['job']:
            break
    else:
        print('no such job')
        return 3
    T = runner.NatT(env)
    T.confirm = True
    chars = [chr(c) for c in d['chars']]
    v, label, detail = runner.run_native(T, fn, args, chars, d['choices'])
    if v == 'violated':
        print('VIOLATED', label, detail)
        for k in T.docs:
            print('input', ascii(k))
        return 1
    print(v.upper())
    return 0


if __name__ == '__main__':
    out = main()
    sys.stdout.flush()
    os._exit(out)
