"""verify one function for one property; prints JSON. usage: worker.py DUMP PROP FUNC FACTOR"""
import sys, os, json, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import engine
    from main import loadspec
    dump, prop, name, factor = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    spec = loadspec()
    engine.RL = int(engine.RL * factor)
    engine.INCR = int(engine.INCR * factor)
    c = spec.contracts[name]
    props = None
    if prop != 'ALL':
        props = {prop}
        if prop in c.tags():
            props.add('SAFE')
    e = engine.Engine(json.load(open(dump)), spec, props)
    t = time.time()
    err = ''
    try:
        e.verify(name)
    except RecursionError:
        err = 'recursion limit'
    except Exception as x:
        import traceback
        err = 'internal error: %r\n%s' % (x, traceback.format_exc()[-1500:])
    if err:
        e.fail('unsupported', err, [])
    obs = []
    for o in e.obls.values():
        obs.append(dict(key=o.key(), kind=o.kind, label=o.label, tags=o.tags, ok=o.ok, n=o.n, time=round(o.time, 3), pos=o.pos, msg=o.msg, src=o.src, backend=o.backend))
    json.dump(dict(fn=name, obls=obs, paths=e.paths, stats=e.stats, externs=sorted(e.externs_used), contracts=sorted(e.contracts_used),
                   inlined=sorted(e.inlined), loops=[[a, b, c, d] for a, b, c, d in e.loopinfo], wall=round(time.time() - t, 2)), sys.stdout)


threading.stack_size(1 << 29)
t = threading.Thread(target=main)
t.start()
t.join()
