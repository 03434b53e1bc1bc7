"""Built-in models of functions of the standard library (trusted)."""
import z3
from core import *
from spec import SpecError
from specev import Ev, gsort
import engine as _eng  # noqa: F401

EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


# ---- bits and bytes
@ext('math/bits.RotateLeft32')
def rotl(e, st, fr, i, a, k):
    n = z3.simplify(a[1])
    if not z3.is_int_value(n):
        raise Unsupported('rotation by a variable')
    k(st, bv_rotl(a[0], n.as_long()))


def _get(nb, big):
    def h(e, st, fr, i, a, k):
        b = a[-1]
        e.bounds(st, b.len >= nb, i)
        T = e.T
        u8 = T.id('uint8')
        bs = [e.loadelem(st, st.heap, u8, b.base, b.off + j) for j in range(nb)]
        k(st, of_bytes(list(reversed(bs)) if big else bs))
    return h


def _put(nb, big):
    def h(e, st, fr, i, a, k):
        b, v = a[-2], a[-1]
        e.bounds(st, b.len >= nb, i)
        bs = bytes_of(v)
        if big:
            bs = list(reversed(bs))
        e.copybytes(st, e.T.id('uint8'), b.base, b.off, lambda j: [bs[j.as_long()]], z3.IntVal(nb), i.get('p', ''), 'elements of []byte')
        k(st, None)
    return h


for _n, _nb in (('Uint16', 2), ('Uint32', 4), ('Uint64', 8)):
    EXT['(encoding/binary.bigEndian).' + _n] = _get(_nb, True)
    EXT['(encoding/binary.littleEndian).' + _n] = _get(_nb, False)
    EXT['(encoding/binary.bigEndian).Put' + _n] = _put(_nb, True)
    EXT['(encoding/binary.littleEndian).Put' + _n] = _put(_nb, False)


u32 = z3.Function('u32', I, I, z3.BitVecSort(8))


@ext('(encoding/binary.bigEndian).AppendUint32')
def appendu32(e, st, fr, i, a, k):
    s, v = a[-2], a[-1]
    T = e.T
    u8 = T.id('uint8')
    # byte j of the big endian representation of the number: u32(n, j) in contracts
    n = e.bvints.get(v.get_id())
    n = e.bitsum(v) if n is None else n
    bs = [u32(n, z3.IntVal(j)) for j in range(4)]
    r = e.alloc(st, 'array')
    for sx, so in T.flat(u8):
        e.writeheap(st, e.memname(u8) + sx, r, e.freshc(z3.ArraySort(I, so), 'garbage'), z3.ArraySort(I, so))
    e.copybytes(st, u8, r, z3.IntVal(0), lambda j: [bs[j.as_long()]], z3.IntVal(4), '', 'append')
    # only used on empty slices: the four bytes, wherever they are stored
    e.oblig(st, 'extern', 'AppendUint32 is given an empty slice', e.safety, 'the slice extended by AppendUint32 is empty', s.len == 0, i.get('p', ''))
    e.framecheck(st, e.memname(u8), s.base, i.get('p', ''), 'elements of []byte')
    k(st, Slice(r, z3.IntVal(0), z3.IntVal(4), z3.IntVal(4)))


@ext('bytes.Equal')
def bytesequal(e, st, fr, i, a, k):
    x, y = a
    r = e.freshc(B, 'equal')
    mx, my = [e.sel(st, e.memarr(st.heap, e.T.id('uint8'))[0], s.base) for s in (x, y)]
    j = z3.FreshConst(I, 'j')
    e.assume(st, z3.Implies(r, x.len == y.len))
    e.assume(st, z3.Implies(r, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < x.len), z3.Select(mx, x.off + j) == z3.Select(my, y.off + j)))))
    e.assume(st, z3.Implies(z3.And(x.len == 0, y.len == 0), r))
    k(st, r)


def containsf(arr, s, v):
    return z3.Function('contains', arr.sort(), I, I, v.sort(), B)(arr, s.off, s.len, v)


@ext('slices.Contains')
def contains(e, st, fr, i, a, k):
    s, v = a
    T = e.T
    b = z3.simplify(s.base)
    if z3.is_int_value(b) and b.as_long() in e.gslices:
        et, cs = e.gslices[b.as_long()]
        r = z3.simplify(z3.Or([v == (e.const(c) if c is not None else e.zero(et)) for c in cs]))
        return k(st, r)
    et = T.elem(i['args'][0]['t'])
    arr = e.sel(st, e.memarr(st.heap, et)[0], s.base)
    r = containsf(arr, s, v)
    j = z3.FreshConst(I, 'j')
    w = z3.Function('containsat', arr.sort(), I, I, v.sort(), I)(arr, s.off, s.len, v)
    e.assume(st, z3.Implies(r, z3.And(w >= 0, w < s.len, z3.Select(arr, s.off + w) == v)))
    e.assume(st, z3.Implies(z3.Not(r), z3.ForAll([j], z3.Implies(z3.And(j >= s.off, j < s.off + s.len), z3.Select(arr, j) != v))))
    k(st, r)


@ext('maps.Clone')
def clone(e, st, fr, i, a, k):
    m = a[0]
    t = i['args'][0]['t']
    e.mapguard(st, m, False, i.get('p', ''))
    r = e.alloc(st, 'map')
    n = e.mapname(t)
    d = e.sel(st, e.mapdomarr(st.heap, t), m)
    e.writeheap(st, n + '#dom', r, z3.If(m == 0, z3.K(d.sort().domain(), z3.BoolVal(False)), d) if not z3.is_int_value(m) else d, d.sort())
    for (s, so), x in zip(e.T.flat(e.T.d(t)['e']), e.mapvalarr(st.heap, t)):
        v = e.sel(st, x, m)
        e.writeheap(st, n + '#val' + s, r, v, v.sort())
    k(st, z3.If(m == 0, z3.IntVal(0), r) if e.mode != 'x' and not e.prove(st, m != 0, full=False)[0] else r)


@ext('crypto/rand.Read')
def randread(e, st, fr, i, a, k):
    b = a[0]
    n = 'mem:uint8'
    e.framecheck(st, n, b.base, i.get('p', ''), 'elements of []byte')
    arr = e.hget(st.heap, n, z3.ArraySort(I, BYTES))
    old = e.sel(st, arr, b.base)
    new = e.freshc(BYTES, 'rand')
    j = z3.FreshConst(I, 'j')
    e.assume(st, z3.ForAll([j], z3.Implies(z3.Or(j < b.off, j >= b.off + b.len), z3.Select(new, j) == z3.Select(old, j)), patterns=[z3.Select(new, j)]))
    st.heap[n] = z3.Store(arr, b.base, new)
    err = newerr(e, st, maybe=True)
    k(st, TupleV([e.freshc(I, 'n'), err]))


# ---- errors
def newerr(e, st, maybe=False):
    r = e.freshc(I, 'err')
    e.assume(st, z3.And(z3.Or(r == 0, z3.And(r > e.nglob, e.dt(r) == 5)) if maybe else z3.And(r > e.nglob, e.dt(r) == 5)))
    return r


@ext('errors.New', 'fmt.Errorf')
def errnew(e, st, fr, i, a, k):
    k(st, newerr(e, st))


@ext('error.Error')
def errerror(e, st, fr, i, a, k):
    r = z3.Function('errstr', I, S)(a[0])
    k(st, r)


@ext('fmt.Println')
def println(e, st, fr, i, a, k):
    k(st, TupleV([e.freshc(I, 'n'), e.freshc(I, 'err')]))


# ---- time
def opaque(n):
    @ext(n)
    def h(e, st, fr, i, a, k):
        rs = i['sig']['results']
        k(st, e.result([e.freshval(st, t, 'x') for t in rs]))
    return h


for _n in ('time.Now', '(time.Time).Add', '(*time.Ticker).Stop', '(*time.Timer).Stop'):
    opaque(_n)


@ext('time.NewTicker', 'time.NewTimer')
def newtimer(e, st, fr, i, a, k):
    r = e.alloc(st, 'timer')
    if i['fn']['f'].endswith('Ticker'):
        e.oblig(st, 'requires', 'NewTicker is given a positive interval', e.safety + ['C26'], 'NewTicker panics unless the interval is positive', a[0] > 0, i.get('p', ''))
    k(st, r)


# ---- contexts
@ext('context.Context.Done')
def ctxdone(e, st, fr, i, a, k):
    ch = z3.Function('ctxdonech', I, I)(a[0])
    if ch.get_id() not in e.prov:
        e.prov[ch.get_id()] = ('ctx', a[0])
        e.keepterm(ch)
        e.keepterm(a[0])
    k(st, ch)


@ext('context.Context.Err')
def ctxerr(e, st, fr, i, a, k):
    r = e.freshc(I, 'ctxerr')
    e.assume(st, z3.And(z3.Implies(e.ctxdone(a[0]), r != 0), z3.Or(r == 0, z3.And(r > 0, e.dt(r) == 5))))
    k(st, r)


@ext('context.Background')
def ctxbg(e, st, fr, i, a, k):
    r = z3.Const('ctx!background', I)
    e.assume(st, z3.And(r > 0, z3.Function('ctxdonech', I, I)(r) == 0))
    k(st, r)


# ---- locks
def lockcls(e, p):
    if not isinstance(p, FieldPtr):
        raise Unsupported('lock that is not a field')
    n = p.tn + '.' + p.fn
    for c, L in e.spec.locks.items():
        if L['kind'] == 'mutex' and L['field'] == n:
            return c, p.ref
    raise Unsupported('no lock is declared for ' + n)


@ext('(*sync.Mutex).Lock', '(*sync.RWMutex).Lock')
def mlock(e, st, fr, i, a, k):
    c, r = lockcls(e, a[0])
    e.acquire(st, c, r, 'w', i.get('p', ''))
    k(st, None)


@ext('(*sync.RWMutex).RLock')
def mrlock(e, st, fr, i, a, k):
    c, r = lockcls(e, a[0])
    e.acquire(st, c, r, 'r', i.get('p', ''))
    k(st, None)


@ext('(*sync.Mutex).Unlock', '(*sync.RWMutex).Unlock')
def munlock(e, st, fr, i, a, k):
    c, r = lockcls(e, a[0])
    e.release(st, c, r, i.get('p', ''), 'w')
    k(st, None)


@ext('(*sync.RWMutex).RUnlock')
def mrunlock(e, st, fr, i, a, k):
    c, r = lockcls(e, a[0])
    e.release(st, c, r, i.get('p', ''), 'r')
    k(st, None)


@ext('(*sync.Once).Do')
def oncedo(e, st, fr, i, a, k):
    p = a[0]
    if not isinstance(p, FieldPtr):
        raise Unsupported('once that is not a field')
    n = p.tn + '.' + p.fn
    L = e.spec.onces.get(n)
    pos = i.get('p', '')
    if L is None:
        raise Unsupported('no once is declared for ' + n)
    e.lockorder(st, n, p.ref, pos)
    env = {'self': e.lockself(L, p.ref)}

    def first(s):
        h = _eng.Held(n, p.ref, 'w', dict(s.heap))
        s.held.append(h)

        def after(s2, v):
            ev = Ev(e, s2, env)
            for c in L['invs']:
                e.oblig(s2, 'once', '%s %s' % (n, c.label), c.tags, c.src, ev.bool(c.e), pos)
            s2.held = [x for x in s2.held if not (x.cls == n and x.ref.eq(p.ref))]
            for kind, cls, tags in L.get('retires', []):
                m = [x for x in s2.held if x.cls == cls and (x.ref.eq(p.ref) or e.prove(s2, x.ref == p.ref, full=False)[0])]
                if kind == 'retires':
                    e.oblig(s2, 'once', '%s retires %s' % (n, cls), tags or ['C04'], '%s is held for good after %s' % (cls, n), z3.BoolVal(bool(m)), pos)
                s2.held = [x for x in s2.held if x not in m]
            s2.memo[('once', n, p.ref.get_id())] = True
            k(s2, None)
        e.callvalue(s, fr, dict(i, sig={'params': [], 'results': [], 'rnames': []}, args=[]), a[1], [], after)

    def later(s):
        for g in L['guards']:
            e.havoc(s, e.locs(s, g, env), 'once')
        ev = Ev(e, s, env)
        for c in L['invs']:
            e.assume(s, ev.bool(c.e))
        k(s, None)
    e.under(st, None, first)
    e.under(st, None, later)


def atomic(op):
    @ext('(*sync/atomic.Bool).' + op)
    def h(e, st, fr, i, a, k):
        p = a[0]
        n = '%s.%s.%s' % (p.tn, p.fn, op) if isinstance(p, FieldPtr) else ''
        c = e.spec.callbacks.get(n)
        rs = i['sig']['results']
        if c:
            return e.applycontract(st, fr, c, n, list(zip(a[1:], i['sig']['params'])), rs, i, k, extra={'self': (p.ref, e.T.id('*' + p.tn))})
        k(st, e.freshc(B, 'atomic') if rs else None)


for _n in ('Load', 'Store', 'CompareAndSwap'):
    atomic(_n)


@ext('(*sync.WaitGroup).Add', '(*sync.WaitGroup).Done', '(*sync.WaitGroup).Wait')
def wg(e, st, fr, i, a, k):
    h = getattr(e, 'wghook', None)
    if h:
        return h(st, fr, i, a, k)
    k(st, None)


@ext('(*sync.Pool).Get')
def poolget(e, st, fr, i, a, k):
    p = a[0]
    n = 'pool %s.%s' % (p.tn, p.fn) if isinstance(p, FieldPtr) else 'pool'
    c = e.spec.callbacks.get(n[5:] + '.Get')
    r = e.freshc(I, 'pooled')
    if c:
        return e.applycontract(st, fr, c, n, [], i['sig']['results'], i, k, extra={'self': (p.ref, e.T.id('*' + p.tn))})
    k(st, r)


@ext('(*sync.Pool).Put')
def poolput(e, st, fr, i, a, k):
    p = a[0]
    c = e.spec.callbacks.get('%s.%s.Put' % (p.tn, p.fn)) if isinstance(p, FieldPtr) else None
    if c:
        return e.applycontract(st, fr, c, 'pool put', [(a[1], i['sig']['params'][0])], [], i, k, extra={'self': (p.ref, e.T.id('*' + p.tn))})
    k(st, None)


# ---- strings
def ustr(n, args):
    return z3.Function(n, *([x.sort() for x in args] + [S]))(*args)


@ext('strings.TrimSpace')
def trim(e, st, fr, i, a, k):
    k(st, ustr('TrimSpace', a))


@ext('strings.ToLower')
def lower(e, st, fr, i, a, k):
    k(st, ustr('ToLower', a))


@ext('unicode/utf8.Valid')
def utf8valid(e, st, fr, i, a, k):
    """records what was validated in the ghosts tlU8B, tlU8Len, tlU8"""
    s = a[0]
    arr = e.sel(st, e.memarr(st.heap, e.T.id('uint8'))[0], s.base)
    r = e.freshc(B, 'utf8ok')
    if 'tlU8' in e.spec.ghosts:
        b = e.freshc(BYTES, 'u8')
        j = z3.FreshConst(I, 'j')
        e.assume(st, z3.ForAll([j], z3.Select(b, j) == z3.Select(arr, s.off + j), patterns=[z3.Select(b, j)]))
        st.heap['tl:tlU8B'], st.heap['tl:tlU8Len'], st.heap['tl:tlU8'] = b, s.len, r
    k(st, r)


# ---- sequences of parts: the loop body either continues, leaving everything as it was, or leaves the loop
class SeqV(Opaque):
    pass


def seqcall(e, st, fr, i, v, args, k):
    n, part = v.n, v.part
    yv = args[0]
    if not isinstance(yv, Closure):
        raise Unsupported('iteration with %r' % (yv,))

    def unchanged(s, s0):
        for c in set(s.cells) | set(s0.cells):
            if c in s0.cells and not e.samevalue(s.cells.get(c), s0.cells[c]):
                return False
        for h in s.heap:
            if h in s0.heap and s.heap[h] is not s0.heap[h] and not z3.eq(s.heap[h], s0.heap[h]):
                if not e.prove(s, s.heap[h] == s0.heap[h])[0]:
                    return False
        return len(s.held) == len(s0.held)

    def body(s, jj, kt, kf):
        s0 = s.copy()

        def done(s2, r):
            r = z3.simplify(r)
            if z3.is_true(r):
                if not unchanged(s2, s0):
                    raise Unsupported('an iteration that goes on has effects')
                return kt(s2)
            if z3.is_false(r):
                return kf(s2)
            raise Unsupported('unknown result of an iteration')
        e.callvalue(s, fr, i, yv, [part(jj)], done)

    # what holds of a part after which the iteration goes on
    goes = []
    j0 = z3.FreshConst(I, 'part')
    ctr = e.marker()
    s1 = st.copy()
    e.solver.push()
    e.assume(s1, z3.And(j0 >= 0, j0 < n))
    m0 = len(s1.pc)
    body(s1, j0, lambda s: goes.append(z3.And([z3.BoolVal(True)] + s.pc[m0:])), lambda s: None)
    e.solver.pop()
    went = z3.Or(goes) if goes else z3.BoolVal(False)
    if e.newer(went, ctr):
        raise Unsupported('an iteration that goes on has a result not determined by the part')

    def wentall(s, to):
        q = z3.FreshConst(I, 'q')
        e.assume(s, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < to), z3.substitute(went, (j0, q))), patterns=[part(q)]))
    e.under(st, None, lambda s: (wentall(s, n), k(s, None)))
    j1 = z3.FreshConst(I, 'part')

    def leave(s):
        e.assume(s, z3.And(j1 >= 0, j1 < n))
        wentall(s, j1)
        body(s, j1, lambda s2: e.endpath(), lambda s2: k(s2, None))
    e.under(st, None, leave)


EXT['opaque:seq'] = seqcall
nparts = z3.Function('nparts', S, S, I)
part = z3.Function('part', S, S, I, S)


@ext('strings.SplitSeq')
def splitseq(e, st, fr, i, a, k):
    r = SeqV('seq')
    r.n, r.part = nparts(a[0], a[1]), lambda j: part(a[0], a[1], j)
    e.assume(st, nparts(a[0], a[1]) >= 0)
    k(st, r)


# ---- hashes and encodings: functions of what they are given
@ext('crypto/sha1.Sum')
def sha1sum(e, st, fr, i, a, k):
    s = a[0]
    m = e.sel(st, e.memarr(st.heap, e.T.id('uint8'))[0], s.base)
    f = z3.Function('sha1', S, BYTES)
    t = i['sig']['results'][0]
    k(st, e.T.pack(t, [f(e.sof(m, s.off, s.len))]))
