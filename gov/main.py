#!/usr/bin/env python3
"""gov: contract-based verification of the package. usage: main.py DUMP [-p PROP] [-f FUNC] [-v]"""
import sys, os, json, time, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse


def loadspec(d=None):
    from spec import Spec
    s = Spec()
    for f in sorted(glob.glob((d or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')) + '/*.gov')):
        s.load(f)
    return s


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('dump')
    ap.add_argument('-p', '--prop', action='append')
    ap.add_argument('-f', '--func', action='append')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-c', '--contracts')
    a = ap.parse_args()
    from engine import Engine
    spec = loadspec(a.contracts)
    dump = json.load(open(a.dump))
    e = Engine(dump, spec, set(a.prop) if a.prop else None)
    names = a.func or [n for n, c in spec.contracts.items() if not (c.flags & {'inline', 'merge', 'trusted'})]
    for n in names:
        t = time.time()
        q0 = e.stats['queries']
        e.verify(n)
        obs = [o for o in e.obls.values() if o.fn == n]
        bad = [o for o in obs if not o.ok]
        print('%-40s %4d obligations %3d failed  %5d paths %5d queries %6.1fs' % (n, len(obs), len(bad), e.paths, e.stats['queries'] - q0, time.time() - t))
        if a.v:
            for x in e.loopinfo:
                print('   loop', x)
            for o in obs:
                if o.ok:
                    print('   ok', o.key(), '|', o.src, 'x%d %.2fs' % (o.n, o.time))
        for o in bad:
            print('   FAILED', o.key(), o.tags, '\n      ', o.src, '\n      ', o.pos, o.msg.replace('\n', '\n       '))
    print(e.stats)


if __name__ == '__main__':
    import threading
    threading.stack_size(1 << 29)
    t = threading.Thread(target=main)
    t.start()
    t.join()
