#!/usr/bin/env python3
"""audit: are the returns of every function under contract reachable under what the contracts assume? usage: vacuity.py DUMP FUNC...
prints the return statements all of whose paths contradict themselves, and branches of which neither side is possible"""
import sys, os, json, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import main as M
from engine import Engine


def run():
    spec = M.loadspec()
    e = Engine(json.load(open(sys.argv[1])), spec)
    for n in sys.argv[2:]:
        rets = {}
        oblig, ret = e.oblig, e.ret

        def r(st, fr, res, pos):
            if e.mode == 'run' and fr.parent is None:
                k = str(pos)
                if rets.get(k) != 'sat':
                    s = z3.Solver()
                    s.set('timeout', 4000)
                    for f in e.axioms(st) + st.pc:
                        s.add(f)
                    x = str(s.check())
                    rets[k] = 'sat' if x != 'unsat' else 'unsat'
            return ret(st, fr, res, pos)
        e.ret = r
        e.oblig = lambda *a, **k: None
        try:
            e.verify(n)
        except Exception as x:
            print(n, 'error', x)
        e.oblig, e.ret = oblig, ret
        f = e.fns.get(n)
        want = set()
        for b in f.blocks:
            for i in b['instrs']:
                if i['op'] == 'return':
                    want.add(str(i.get('p', '')))
        bad = sorted(k for k in want if rets.get(k) != 'sat')
        print(n, 'reachable', len(want) - len(bad), 'of', len(want), bad, flush=True)


threading.stack_size(1 << 29)
t = threading.Thread(target=run)
t.start()
t.join()
