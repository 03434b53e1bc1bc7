#!/usr/bin/env python3
"""Decides one property: check.py PROP
   regenerates the SSA of /repo's current source, verifies every function under contract that the property depends on,
   exits 0 when every obligation is discharged; 1 with a VIOLATION line otherwise."""
import sys, os, json, time, subprocess, tempfile, glob, re, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'gov'))
REPO = os.environ.get('REPO', '/repo')
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY):
    PY = shutil.which('python3-vt') or sys.executable
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv') and not os.environ.get('GOVPY'):
    os.environ['GOVPY'] = '1'
    os.execv(PY, [PY] + sys.argv)
T0 = time.time()
LIMIT = 840.0
SOLVERS = 'z3 (python bindings of the tooling venv)'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def goenv():
    out = sh(['bash', '-c', '. /opt/vp/env.sh; env -0']).stdout
    env = dict(os.environ)
    for kv in out.split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            if k.startswith(('GO', 'PATH', 'HOME', 'CGO')):
                env[k] = v
    return env


def dump(tmp):
    exe = os.path.join(HERE, '.cache', 'govdump')
    src = glob.glob(os.path.join(HERE, 'gov', 'dump', '*'))
    if not os.path.exists(exe) or os.path.getmtime(exe) < max(os.path.getmtime(f) for f in src):
        exe = os.path.join(tmp, 'govdump')
        r = sh(['bash', '-c', '. /opt/vp/env.sh; bash %s/gov/build.sh %s' % (HERE, exe)])
        if r.returncode:
            print(r.stdout)
            sys.exit(2)
    out = os.path.join(tmp, 'd.json')
    r = sh(['bash', '-c', '. /opt/vp/env.sh; %s %s %s' % (exe, REPO, out)])
    if r.returncode or not os.path.exists(out):
        print('the package does not build:')
        print(r.stdout[-3000:])
        sys.exit(2)
    return out


# ---------------------------------------------------------------- which functions
def uses(dump, spec):
    """per function: callee names, fields, through functions without contracts"""
    T = dump['types']

    def u(t):
        while T[t]['k'] == 'named':
            t = T[t]['u']
        return t

    def sname(t):
        return T[t].get('s') or T[t].get('n') or ''
    direct = {}
    for n, d in dump['funcs'].items():
        s = set()
        for b in d['blocks'] or []:
            for i in b['instrs']:
                def walk(x):
                    if isinstance(x, dict):
                        if x.get('k') == 'func':
                            s.add(x['f'])
                        for y in x.values():
                            walk(y)
                    elif isinstance(x, list):
                        for y in x:
                            walk(y)
                walk(i)
                if i['op'] == 'makeclosure':
                    s.add(i['fn'])
                if 'invoke' in i:
                    s.add('.' + i['invoke'])
                if i['op'] in ('fieldaddr', 'field'):
                    s.add('field ' + str(i.get('i')) + ' ' + str(i['x'].get('t')))
        direct[n] = s
    return direct


def plan(P, dump, spec):
    from core import Types
    T = Types(dump)
    direct = uses(dump, spec)
    # names that carry obligations of P
    hot = set()
    for table in (spec.externs, spec.callbacks, spec.sends, spec.recvs):
        for n, c in table.items():
            if any(P in cl.tags for cl in c.requires + c.effects) or any(P in cl.tags for cl in c.ensures if table is spec.sends):
                hot.add(n)
    for f, (cls, info, tags) in spec.fields.items():
        if P in (tags or (['C24'] if cls in ('guarded', 'atomic') else [])):
            hot.add(f)
    lockprops = {'C05', 'C24', 'C25', 'C27'}
    for n, L in list(spec.locks.items()) + list(spec.onces.items()):
        if P in lockprops or any(P in cl.tags for cl in L['invs']) or any(P in t for _, _, t in L.get('retires', [])):
            hot.add(L['field'] if L.get('kind') != 'mu' else 'mu.ch')
    memo = {}

    def reach(n, seen):
        if n in memo:
            return memo[n]
        out = set()
        todo, done = [n], {n}
        while todo:
            x = todo.pop()
            for y in direct.get(x, ()):
                out.add(y)
                if y in direct and y not in done and (y not in spec.contracts or spec.contracts[y].flags & {'inline', 'merge'}):
                    done.add(y)
                    todo.append(y)
        memo[n] = out
        return out

    def fieldname(y):
        _, ix, t = y.split(' ')
        t = int(t)
        try:
            if T.k(t) == 'ptr':
                t = T.elem(t)
            return T.sname(t) + '.' + T.fields(t)[int(ix)]['n']
        except Exception:
            return ''
    todo = []
    for n, c in spec.contracts.items():
        if c.flags & {'inline', 'merge', 'trusted'} or n not in dump['funcs']:
            continue
        why = P in c.tags()
        if not why:
            for y in reach(n, set()):
                if y.startswith('field '):
                    y = fieldname(y)
                if y in hot or y.startswith('.') and any(h.endswith(y) for h in hot):
                    why = True
                    break
                if y in spec.contracts and (any(P in cl.tags for cl in spec.contracts[y].requires + spec.contracts[y].effects) or P in lockprops and spec.contracts[y].effects):
                    why = True
                    break
        if why:
            todo.append(n)
    # the contracts these rely on
    i = 0
    while i < len(todo):
        for y in reach(todo[i], set()):
            c = spec.contracts.get(y)
            if c and y not in todo and y in dump['funcs'] and not (c.flags & {'inline', 'merge', 'trusted'}) and any(not cl.tags for cl in c.ensures):
                todo.append(y)
        i += 1
    return todo


def covered(dump, spec, results):
    inl = set()
    for r in results:
        inl |= set(r['inlined'])
    return inl


# ---------------------------------------------------------------- running
def size(dump, n):
    return sum(len(b['instrs']) for b in dump['funcs'][n]['blocks'] or [])


def runone(d, P, n, factor, limit):
    """verifies one function; slow ones are tried in several equivalent orders at once, and the first proof counts"""
    seeds = range(3) if SLOW.get(n, 0) > 20 and SLOW.get(n + '/' + P, 1) else (0,)
    if factor != 1.0:
        seeds = [x + 3 for x in seeds]
    ps, res, msg = [], [], 'no answer within %d s' % limit
    t = time.time()
    for x in seeds:
        out = tempfile.TemporaryFile('w+')
        err = tempfile.TemporaryFile('w+')
        ps.append((subprocess.Popen([PY, os.path.join(HERE, 'gov', 'worker.py'), d, P, n, str(factor)], stdout=out, stderr=err, env=dict(os.environ, PYTHONHASHSEED=str(x))), out, err))
    try:
        while ps and time.time() - t < max(10, limit):
            for p in ps[:]:
                if p[0].poll() is None:
                    continue
                ps.remove(p)
                p[1].seek(0)
                p[2].seek(0)
                try:
                    r = json.loads(p[1].read())
                    if all(o['ok'] for o in r['obls']):
                        return r
                    res.append(r)
                except ValueError:
                    msg = 'the verifier gave no answer: ' + p[2].read()[-1000:]
            time.sleep(0.02)
    finally:
        for p in ps:
            p[0].kill()
            p[0].wait()
    if res:
        return res[0]
    return dict(fn=n, obls=[dict(key='%s: unsupported %s' % (n, msg[:60]), kind='unsupported', label=msg, tags=[], ok=False, n=1, time=0, pos='', msg=msg, src='', backend={})],
                paths=0, stats=dict(queries=0, time=0), externs=[], contracts=[], inlined=[], loops=[], wall=limit)


SLOW = json.load(open(os.path.join(HERE, 'gov', 'slow.json'))) if os.path.exists(os.path.join(HERE, 'gov', 'slow.json')) else {}


def runall(d, P, names, dmp, factor=1.0):
    names = sorted(names, key=lambda n: (-SLOW.get(n, 0), -size(dmp, n)))
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
        return list(ex.map(lambda n: runone(d, P, n, factor, min(600, LIMIT - (time.time() - T0) - 60)), names))


def driver(P, tmp, tier):
    """looks for a failing input with the drivers of the property; returns (found, output)"""
    reg = '^TestReplay_%s($|_)' % P
    ds = []
    for ln in open(os.path.join(HERE, 'KNOWN_FINDINGS')):
        m = re.match(r'fixed: property=(C\d+) \w+ ([^:]*):', ln)
        if m and m.group(1) == P:
            ds += re.findall(r'TestDefect_\w+', m.group(2))
    if ds:
        reg += '|^(%s)$' % '|'.join(ds)
    rep = {REPO + '/drivers_verif_test.go': HERE + '/drivers/drivers_verif_test.go',
           REPO + '/driverlib_verif_test.go': HERE + '/tools/seedlib_test.go',
           REPO + '/defects_verif_test.go': HERE + '/defects/defects_verif_test.go'}
    rep = {k: v for k, v in rep.items() if os.path.exists(v)}
    ov = os.path.join(tmp, 'ov.json')
    json.dump({'Replace': rep}, open(ov, 'w'))
    left = LIMIT - (time.time() - T0)
    to = int(max(20, min(150, left - 30)))
    try:
        r = sh(['bash', '-c', '. /opt/vp/env.sh; cd %s && exec go test %s-overlay %s -vet=off -count=1 -timeout %ds -run "%s" .' % (REPO, '-race ' if P in ('C24',) else '', ov, to, reg.replace('$', '\\$'))], timeout=to + 60)
    except subprocess.TimeoutExpired:
        return False, 'the drivers did not end'
    out = r.stdout
    found = r.returncode != 0 and ('--- FAIL' in out or 'panic:' in out or 'DATA RACE' in out or 'fatal error' in out) and '[build failed]' not in out and '[setup failed]' not in out
    return found, out[-12000:]


def main():
    P = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from main import loadspec
    spec = loadspec()
    tmp = tempfile.mkdtemp(prefix='gov')
    try:
        return check(P, tier, seed, spec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def scan(spec, results):
    """every assumption used by the run"""
    ex, cs = set(), set()
    for r in results:
        ex |= set(r['externs'])
        cs |= set(r['contracts'])
    out = ['trusted contract of %s' % n for n in sorted(ex)]
    for n in sorted(cs):
        if 'trusted' in spec.contracts[n].flags:
            out.append('assumed contract of %s (its body is not verified)' % n)
    for n, c in sorted(spec.contracts.items()):
        if n in cs and any(cl.kind == 'assumes' for cl in c.ensures):
            out.append('assumed clause of %s: %s' % (n, '; '.join(cl.src for cl in c.ensures if cl.kind == 'assumes')))
    for n, c in sorted(spec.callbacks.items()):
        out.append('contract of the user function or pool %s' % n) if n.split('.')[0] in ('Options', 'Upgrader', 'Conn', 'RateLimiter', 'batchFlusher', 'Manager', 'Room', 'RoomManager') else None
    out += spec.trusted
    return out


def check(P, tier, seed, spec, tmp):
    d = dump(tmp)
    dmp = json.load(open(d))
    names = plan(P, dmp, spec)
    results = runall(d, P, names, dmp)
    bad = [r['fn'] for r in results if any(not o['ok'] for o in r['obls'])]
    found, out, ran = False, '', False
    if bad:
        # a failing input settles it
        found, out = driver(P, tmp, tier)
        ran = True
    if bad and not found and len(bad) <= 12:
        # once more, with higher limits, where the solver gave no answer
        again = [r['fn'] for r in results if any(not o['ok'] and ('unknown' in o['msg'] or 'canceled' in o['msg'] or 'resource' in o['msg']) for o in r['obls'])]
        if again and time.time() - T0 < 300:
            r2 = {r['fn']: r for r in runall(d, P, again, dmp, 3.0)}
            results = [r2.get(r['fn'], r) for r in results]
    if tier == 'thorough' and not any(not o['ok'] for r in results for o in r['obls']):
        # the same obligations with other limits (and so other proof searches), then the drivers
        results += [r for r in runall(d, P, names, dmp, 0.75) if not any(not o['ok'] for o in r['obls'])]
    fails = [(r['fn'], o) for r in results for o in r['obls'] if not o['ok']]
    nob = sum(len(r['obls']) for r in results)
    if not names or nob == 0:
        fails.append(('', dict(key='no obligations', kind='vacuous', label='', tags=[], pos='', msg='no obligation was generated', src='')))
    rc = 0
    replay = ''
    if not ran and (fails or tier == 'thorough'):
        found, out = driver(P, tmp, tier)
    if fails or found:
        rc = 1
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        replay = os.path.join(HERE, 'evidence', 'replay', P + '.txt')
        with open(replay, 'w') as f:
            f.write('property %s: %d of %d obligations are not discharged\n\n' % (P, len(fails), nob))
            for fn, o in fails:
                f.write('obligation %s\n  %s\n  at %s\n  %s\n\n' % (o['key'], o['src'], o['pos'], o['msg'].replace('\n', '\n  ')))
            if found:
                f.write('failing input, replayed against the code:\n  go test -overlay ... -run TestReplay_%s (files in /verif/drivers, /verif/defects)\n%s\n' % (P, out))
            else:
                f.write('the drivers of the property found no failing input:\n%s\n' % out)
        for fn, o in fails[:12]:
            print('FAILED %s [%s] %s' % (o['key'], o['pos'], o['src'][:150]))
            print('   ' + o['msg'][:400].replace('\n', '\n   '))
        print('VIOLATION property=%s replay=%s%s' % (P, replay, '' if found else ' no-failing-input-found'))
    else:
        print('property %s: %d obligations of %d functions discharged (%.1f s)' % (P, nob, len(results), time.time() - T0))
    tagged = [o for r in results for o in r['obls'] if P in o['tags']]
    be = {}
    for r in results:
        for o in r['obls']:
            for k, v in o['backend'].items():
                be[k] = be.get(k, 0) + v
    inl = set()
    for r in results:
        inl |= set(r['inlined'])
    ev = dict(property=P, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=nob, discharged=nob - len(fails), checker_cmd='python3 /verif/check.py ' + P,
                            trusted_base=['gov: SSA of golang.org/x/tools, symbolic execution and verification conditions (/verif/gov)', SOLVERS] + scan(spec, results),
                            obligations_stating_the_property=len(tagged), instances_discharged=sum(o['n'] for r in results for o in r['obls'] if o['ok']),
                            functions_under_contract=sorted({r['fn'] for r in results}), functions_verified_inside_their_callers=sorted(inl),
                            paths=sum(r['paths'] for r in results), solver_queries=sum(r['stats']['queries'] for r in results),
                            solver_seconds=round(sum(r['stats']['time'] for r in results), 2), back_ends=be,
                            loops_with_invariants=sum(len(r['loops']) for r in results),
                            failed=[o['key'] for _, o in fails]),
              assumptions=['int is 64 bit; sums and lengths of ints are mathematical integers except where an overflow obligation is stated',
                           'partial correctness: termination is not proved', 'calls of user functions obey the callback contracts listed'],
              wall_s=round(time.time() - T0, 2), violations=len(fails))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', P + '.json'), 'w'), indent=1)
    for ln in open(os.path.join(HERE, 'KNOWN_FINDINGS')):
        if ln.startswith('finding: property=%s ' % P):
            print('KNOWN-FINDING: property=%s %s' % (P, ln.split(' ', 2)[2].strip()))
    return rc


if __name__ == '__main__':
    sys.exit(main())
