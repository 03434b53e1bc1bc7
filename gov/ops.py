"""Instructions: adds methods to Engine."""
import re
import z3
from core import *
from spec import SpecError, parse_expr
from specev import Ev, gsort


# ------------------------------------------------------------------ small helpers
def m_box(self, st, v, t):
    """interface value holding v of type t"""
    T = self.T
    if T.k(t) == 'iface':
        return v
    if T.k(t) == 'array' and isinstance(v, ArrV):
        return self.boxarr(st, v.arr[''], T.d(t)['n'], t)
    vs = []
    for x in (T.unpack(t, v) if not isinstance(v, (FieldPtr, Closure, FuncV, CellPtr, GlobalPtr)) else [v]):
        if isinstance(x, CellPtr):
            vs.append(z3.FreshConst(I, 'cellptr'))
        elif not z3.is_expr(x):
            vs.append(self.refof(st, x))
        else:
            vs.append(x)
    n = 'box!' + T.canon(t)
    f = z3.Function(n, *([x.sort() for x in vs] + [I]))
    r = f(*vs)
    key = ('box', r.get_id())
    if key not in st.memo:
        st.memo[key] = True
        self.keepterm(r)
        fs = [r != 0, self.dt(r) == self.tag(t)]
        for j, x in enumerate(vs):
            u = z3.Function('unbox!%s%d' % (T.canon(t), j), I, x.sort())
            fs.append(u(r) == x)
        self.assume(st, z3.And(fs))
    return r


def m_unbox(self, st, v, t):
    T = self.T
    if T.k(t) == 'iface':
        return v
    out = []
    for j, (s, so) in enumerate(T.flat(t)):
        out.append(z3.Function('unbox!%s%d' % (T.canon(t), j), I, so)(v))
    r = T.pack(t, out)
    return r


def m_boxarr(self, st, arr, n=2, t=None):
    xs = [self.sel(st, arr, z3.IntVal(j)) for j in range(n)]
    f = z3.Function('boxarr%d' % n, *([I] * n + [I]))
    r = f(*xs)
    key = ('box', r.get_id())
    if key not in st.memo:
        st.memo[key] = True
        self.keepterm(r)
        fs = [r != 0, self.dt(r) == 3]
        for j, x in enumerate(xs):
            fs.append(z3.Function('unboxarr%d' % j, I, I)(r) == x)
        self.assume(st, z3.And(fs))
    return r


def m_int2bv(self, st, n, w):
    key = ('i2b', n.get_id(), w)
    if key in self.tags:
        v = self.tags[key]
    else:
        v = z3.FreshConst(z3.BitVecSort(w), 'bv')
        self.tags[key] = v
        self.keepterm(n)
        self.bvints[v.get_id()] = n
    if key not in st.memo:
        st.memo[key] = True
        kk = z3.FreshConst(I, 'k')
        self.assume(st, z3.And(bitsum(v) + kk * (1 << w) == n, z3.Implies(z3.And(n >= 0, n < (1 << w)), kk == 0)))
    return v


def m_srcpos(self, i):
    return i.get('p') or ''


# ------------------------------------------------------------------ plain instructions
def op_alloc(self, st, fr, i):
    T = self.T
    t = T.elem(i['t'])
    k = T.k(t)
    if (k == 'struct' and not T.is_extern_struct(t)) or k == 'array':
        return self.newobj(st, t)
    c = ('cell', fr.id, i['r'], self.nalloc)
    self.nalloc += 1
    if T.s(t) == 'sync.WaitGroup':
        self.wgnew(st, c, i)
    st.cells[c] = self.zero(t)
    self.celltypes[c] = t
    self.cellnames[c] = i.get('c') or ''
    return CellPtr(c, t)


def m_newobj(self, st, t):
    T = self.T
    k = T.k(t)
    r = self.alloc(st, T.sname(t) if k == 'struct' else 'array')
    self.zeroinit(st, t, r)
    return r


def m_zeroinit(self, st, t, r):
    T = self.T
    if T.k(t) == 'array':
        et = T.elem(t)
        for s, so in T.flat(et):
            self.writeheap(st, self.memname(et) + s, r, self.zerosort(z3.ArraySort(I, so)), z3.ArraySort(I, so))
        return
    sn = T.sname(t)
    for f in T.fields(t):
        if T.k(f['t']) in ('struct', 'array') and not T.is_extern_struct(f['t']):
            self.zeroinit(st, f['t'], self.subref(st, sn, f['n'], r))
            continue
        for s, so in T.flat(f['t']):
            self.writeheap(st, sn + '.' + f['n'] + s, r, self.zerosort(so), so)
    for g, (gs, fl) in self.spec.ghostfields.items():
        if g.rsplit('.', 1)[0] == sn and 'nozero' not in fl:
            self.writeheap(st, g, r, self.zerosort(gsort(gs)), gsort(gs))


def op_store(self, st, fr, i):
    p, v = self.val(fr, i['a']), self.val(fr, i['x'])
    if isinstance(p, CellPtr) and ('shared', p.id) in st.memo:
        self.fail('race', 'variable %s of a running goroutine is written' % self.cellnames.get(p.id, ''), ['C24', 'C27'], i.get('p', ''))
    t = self.T.elem(self.optype(i['a'])) if i['a']['k'] != 'global' else self.T.elem(i['a']['t'])
    self.store(st, p, t, v, i.get('p', ''))


def m_optype(self, v):
    return v['t']


def m_fieldaddr(self, st, x, i):
    T = self.T
    pt = i['x']['t']
    stt = T.elem(pt)
    f = T.fields(stt)[i['i']]
    if isinstance(x, CellPtr):
        if T.is_extern_struct(stt):        # what is written into a struct of another package is not tracked
            return FieldPtr(T.sname(stt), f['n'], self.alloc(st, 'extern'), f['t'])
        raise Unsupported('field of a cell')
    ref = self.refof(st, x)
    return FieldPtr(T.sname(stt), f['n'], ref, f['t'])


def op_fieldaddr(self, st, fr, i):
    x = self.val(fr, i['x'])
    if z3.is_expr(x):
        self.nilcheck(st, x, i)
    return self.fieldaddr(st, x, i)


def m_nilcheck(self, st, x, i):
    if ('alloc', x.get_id()) in st.memo or ('nn', x.get_id()) in st.memo:
        return
    st.memo[('nn', x.get_id())] = True
    self.keepterm(x)
    self.oblig(st, 'nil', 'pointer is not nil', self.safety, 'no nil dereference', x != 0, i.get('p', ''))


def op_field(self, st, fr, i):
    x = self.val(fr, i['x'])
    f = self.T.fields(i['x']['t'])[i['i']]
    if isinstance(x, StructV):
        return x.f[f['n']]
    raise Unsupported('field of %r' % (x,))


def m_toint(self, v):
    return bitsum(v) if z3.is_bv(v) else v


def m_bounds(self, st, g, i, what='index in range'):
    self.oblig(st, 'bounds', what, self.safety, 'no out-of-range access', g, i.get('p', ''))


def op_indexaddr(self, st, fr, i):
    T = self.T
    x, y = self.val(fr, i['x']), self.toint(self.val(fr, i['y']))
    xt = i['x']['t']
    if isinstance(x, Slice):
        self.bounds(st, z3.And(y >= 0, y < x.len), i)
        return ElemPtr(x.base, z3.simplify(x.off + y), T.elem(xt))
    at = T.elem(xt)
    self.bounds(st, z3.And(y >= 0, y < T.d(at)['n']), i)
    if isinstance(x, GlobalPtr):
        raise Unsupported('element of a global array')
    return ElemPtr(self.refof(st, x), z3.simplify(y), T.elem(at))


def op_index(self, st, fr, i):
    T = self.T
    x, y = self.val(fr, i['x']), self.toint(self.val(fr, i['y']))
    if isinstance(x, ArrV):
        self.bounds(st, z3.And(y >= 0, y < x.n), i)
        return T.pack(x.et, [self.sel(st, x.arr[s], y) for s, _ in T.flat(x.et)])
    if z3.is_string(x):
        self.bounds(st, z3.And(y >= 0, y < strlen(x)), i)
        return z3.Function('strbyte', S, I, BV8)(x, y)
    raise Unsupported('index of %r' % (x,))


def op_extract(self, st, fr, i):
    v = self.val(fr, i['x'])
    if isinstance(v, TupleV):
        return v.vs[i['i']]
    raise Unsupported('extract from %r' % (v,))


def op_changetype(self, st, fr, i):
    return self.val(fr, i['x'])


op_changeiface = op_changetype


def op_makeiface(self, st, fr, i):
    return self.box(st, self.val(fr, i['x']), i['x']['t'])


def op_makeclosure(self, st, fr, i):
    return Closure(i['fn'], tuple(self.val(fr, b) for b in i['b']))


def op_makechan(self, st, fr, i):
    r = self.alloc(st, 'chan')
    n = self.toint(self.val(fr, i['x']))
    self.bounds(st, n >= 0, i, 'channel size is not negative')
    self.writeheap(st, 'chan#cap', r, n, I)
    self.poolnew(st, self.T.elem(i['t']), r, i)
    return r


def op_makemap(self, st, fr, i):
    r = self.alloc(st, 'map')
    t = i['t']
    self.writeheap(st, self.mapname(t) + '#dom', r, z3.K(self.keysort(t), z3.BoolVal(False)), z3.ArraySort(self.keysort(t), B))
    st.memo[('detachedmap', r.get_id())] = True
    return r


def op_makeslice(self, st, fr, i):
    T = self.T
    n, c = self.toint(self.val(fr, i['x'])), self.toint(self.val(fr, i['y']))
    self.bounds(st, z3.And(n >= 0, c >= n), i, 'slice size in range')
    et = T.elem(i['t'])
    r = self.alloc(st, 'array')
    for s, so in T.flat(et):
        self.writeheap(st, self.memname(et) + s, r, self.zerosort(z3.ArraySort(I, so)), z3.ArraySort(I, so))
    return Slice(r, z3.IntVal(0), n, c)


def m_mapguard(self, st, m, write, pos):
    """maps reached through a guarded field are accessed under the same lock, unless taken out of it"""
    p = st.memo.get(('mapprov', m.get_id()))
    if p and ('detached', m.get_id()) not in st.memo:
        self.guardcheck(st, p[0], p[1], p[2], write, pos)


def op_mapupdate(self, st, fr, i):
    T = self.T
    m, kx, v = self.val(fr, i['m']), self.val(fr, i['x']), self.val(fr, i['y'])
    t = i['m']['t']
    pos = i.get('p', '')
    self.mapguard(st, m, True, pos)
    self.oblig(st, 'nil', 'map is not nil', self.safety, 'no write to a nil map', m != 0, pos)
    n = self.mapname(t)
    if isinstance(v, (Closure, FuncV)):
        v = self.intern(st, v)
    self.framecheck(st, n + '#dom', m, pos, 'entries of ' + T.s(t))
    dom = self.sel(st, self.mapdomarr(st.heap, t), m)
    self.writeheap(st, n + '#dom', m, z3.Store(dom, kx, True), dom.sort())
    for (s, so), a, x in zip(T.flat(T.d(t)['e']), self.mapvalarr(st.heap, t), T.unpack(T.d(t)['e'], v)):
        va = self.sel(st, a, m)
        self.writeheap(st, n + '#val' + s, m, z3.Store(va, kx, x), va.sort())
    p = st.memo.get(('mapprov', m.get_id()))
    if p:
        self.doonstore(st, p[0], p[1], '[]', p[2], v, T.d(t)['e'], kx, T.d(t)['key'])


def m_mapdelete(self, st, m, t, kx, pos):
    self.mapguard(st, m, True, pos)
    n = self.mapname(t)
    self.framecheck(st, n + '#dom', m, pos, 'entries of ' + self.T.s(t))
    dom = self.sel(st, self.mapdomarr(st.heap, t), m)
    self.writeheap(st, n + '#dom', m, z3.Store(dom, kx, False), dom.sort())
    p = st.memo.get(('mapprov', m.get_id()))
    if p:
        self.doonstore(st, p[0], p[1], '[-]', p[2], None, None, kx, self.T.d(t)['key'])


def op_lookup(self, st, fr, i):
    T = self.T
    m, kx = self.val(fr, i['x']), self.val(fr, i['y'])
    t = i['x']['t']
    if T.k(t) != 'map':
        raise Unsupported('lookup in ' + T.s(t))
    self.mapguard(st, m, False, i.get('p', ''))
    et = T.d(t)['e']
    ok = z3.And(m != 0, self.sel(st, self.sel(st, self.mapdomarr(st.heap, t), m), kx))
    ok = z3.simplify(ok)
    raw = self.T.pack(et, [self.sel(st, self.sel(st, a, m), kx) for a in self.mapvalarr(st.heap, t)])
    zs = self.zero(et)
    vs = [z3.simplify(z3.If(ok, a, b)) for a, b in zip(T.unpack(et, raw), T.unpack(et, zs))]
    v = T.pack(et, vs)
    p = st.memo.get(('mapprov', m.get_id()))
    if p:
        for x in vs:
            self.setprov(x, '%s.%s[]' % (p[0], p[1]), p[2])
    self.typefacts(st, et, v)
    if i.get('ok'):
        return TupleV([v, ok])
    return v


def op_range(self, st, fr, i):
    T = self.T
    m = self.val(fr, i['x'])
    t = i['x']['t']
    if T.k(t) != 'map':
        raise Unsupported('range over ' + T.s(t))
    self.mapguard(st, m, False, i.get('p', ''))
    c = ('cell', fr.id, i['r'], self.nalloc)
    self.nalloc += 1
    ks = self.keysort(t)
    st.cells[c] = z3.K(ks, z3.BoolVal(False))
    self.celltypes[c] = ('set', ks)
    self.cellnames[c] = 'visited'
    self.rangemaps[c] = (m, t)
    return MapIter(m, t, c, None)


def op_next(self, st, fr, i, k):
    """range over a map: any key not visited yet, until all that are still present have been"""
    T = self.T
    it = self.val(fr, i['x'])
    if not isinstance(it, MapIter):
        raise Unsupported('next on %r' % (it,))
    self.mapguard(st, it.m, False, i.get('p', ''))
    ks = self.keysort(it.t)
    dom = self.sel(st, self.mapdomarr(st.heap, it.t), it.m)
    vis = st.cells[it.cell]
    kt, et = T.d(it.t)['key'], T.d(it.t)['e']

    def more(s):
        s = s.copy()
        kx = z3.FreshConst(ks, 'key')
        self.assume(s, z3.And(z3.Select(dom, kx), z3.Not(z3.Select(vis, kx)), it.m != 0))
        self.typefacts(s, kt, kx)
        vs = [self.sel(s, self.sel(s, a, it.m), kx) for a in self.mapvalarr(s.heap, it.t)]
        v = T.pack(et, vs)
        p = s.memo.get(('mapprov', it.m.get_id()))
        if p:
            for x in vs:
                self.setprov(x, '%s.%s[]' % (p[0], p[1]), p[2])
        self.typefacts(s, et, v)
        s.cells[it.cell] = z3.Store(vis, kx, True)
        k(s, TupleV([z3.BoolVal(True), kx, v]))

    def done(s):
        s = s.copy()
        kx = z3.FreshConst(ks, 'q')
        body = z3.Implies(z3.And(it.m != 0, z3.Select(dom, kx)), z3.Select(vis, kx))
        try:
            q = z3.ForAll([kx], body, patterns=[z3.Select(a, kx) for a in (vis, dom) if not z3.is_quantifier(a) and not z3.is_store(a) and not self.isconst(a)])
        except z3.Z3Exception:
            q = z3.ForAll([kx], body)
        self.assume(s, q)
        k(s, TupleV([z3.BoolVal(False), z3.FreshConst(ks, 'nokey'), self.zero(et)]))
    self.under(st, None, more)
    self.under(st, None, done)


def m_isconst(self, a):
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY


def op_typeassert(self, st, fr, i, k):
    T = self.T
    x, at = self.val(fr, i['x']), i['at']
    pos = i.get('p', '')
    if T.k(at) == 'iface':
        c = x != 0
        if not i.get('ok'):
            self.oblig(st, 'assert', 'type assertion holds', self.safety, 'no failing type assertion', c, pos)
            return k(st, x)
        b = z3.FreshConst(B, 'implements')
        self.assume(st, z3.Implies(b, c))
        return k(st, TupleV([z3.If(b, x, 0), b]))
    c = z3.And(x != 0, self.dt(x) == self.tag(at))
    v = self.unbox(st, x, at)
    if not i.get('ok'):
        self.oblig(st, 'assert', 'type assertion holds', self.safety, 'no failing type assertion', c, pos)
        self.assume(st, self.box(st, v, at) == x)
        self.typefacts(st, at, v)
        return k(st, v)
    zs = T.unpack(at, self.zero(at))
    vs = [z3.If(c, a, b) for a, b in zip(T.unpack(at, v), zs)]
    k(st, TupleV([T.pack(at, vs), c]))


def op_unop(self, st, fr, i, k):
    o = i['o']
    x = self.val(fr, i['x'])
    if o == '*':
        t = i['t']
        if isinstance(x, GlobalPtr):
            k(st, self.load(st, x, t, i.get('p', '')))
            return
        k(st, self.load(st, x, t, i.get('p', '')))
        return
    if o == '!':
        return k(st, z3.simplify(z3.Not(x)))
    if o == '-':
        return k(st, -x)
    if o == '^':
        return k(st, ~x)
    if o == '<-':
        return self.recv(st, fr, i, x, i['x']['t'], i.get('ok'), k)
    raise Unsupported('unary ' + o)


def op_binop(self, st, fr, i):
    T = self.T
    o = i['o']
    x, y = self.val(fr, i['x']), self.val(fr, i['y'])
    xt = i['x']['t']
    if o in ('==', '!='):
        if isinstance(x, Slice) or isinstance(y, Slice):
            a, b = (x, y) if isinstance(x, Slice) else (y, x)
            r = a.base == (b.base if isinstance(b, Slice) else b)
        else:
            if T.k(xt) == 'iface' and i['y']['k'] != 'const' and T.k(i['y']['t']) != 'iface':
                y = self.box(st, y, i['y']['t'])
            r = self.eq(st, x, y)
        r = z3.simplify(r)
        return r if o == '==' else z3.simplify(z3.Not(r))
    if z3.is_string(x):
        if o == '+':
            return z3.Concat(x, y)
        raise Unsupported('string ' + o)
    if z3.is_bv(x):
        if o in ('<<', '>>'):
            n = self.toint(y)
            n = z3.simplify(n)
            if z3.is_int_value(n):
                return bv_shift(x, n.as_long() if o == '<<' else -n.as_long())
            if z3.is_bv(y):
                yy = conv_bv(y, x.size())
                return x << yy if o == '<<' else z3.LShR(x, yy)
            raise Unsupported('shift by a variable')
        f = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '&': lambda a, b: bv_bytewise(band, a, b),
             '|': lambda a, b: bv_bytewise(bor, a, b), '^': lambda a, b: bv_bytewise(bxor, a, b), '&^': lambda a, b: a & ~b,
             '<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE, '/': z3.UDiv, '%': z3.URem}[o]
        return z3.simplify(f(x, y))
    if z3.is_int(x):
        if o in ('<<', '>>'):
            n = z3.simplify(self.toint(y))
            if z3.is_int_value(n) and n.as_long() < 62:
                return x * (1 << n.as_long()) if o == '<<' else x / (1 << n.as_long())
            raise Unsupported('shift')
        if o in ('/', '%'):
            self.oblig(st, 'div', 'divisor is not zero', self.safety, 'no division by zero', y != 0, i.get('p', ''))
            if self.prove(st, z3.And(x >= 0, y > 0), full=False)[0]:
                return x / y if o == '/' else x % y
            ax, ay = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
            q = ax / ay
            q = z3.If((x >= 0) == (y >= 0), q, -q)
            return q if o == '/' else x - q * y
        if o in ('&', '|', '^', '&^'):
            a, b = self.int2bv(st, x, 64), self.int2bv(st, y, 64)
            r = {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '&^': lambda: a & ~b}[o]()
            return z3.BV2Int(r, True)
        f = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
             '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}[o]
        r = f(x, y)
        if o in '+-*' and 'overflow' in (self.curcontract.flags if self.curcontract else ()) and T.d(i['t'])['name'] in SINT:
            self.oblig(st, 'overflow', 'no integer overflow', self.overflowtags, 'the result of %s fits in an int' % o, z3.And(r >= -2 ** 63, r < 2 ** 63), i.get('p', ''))
        return z3.simplify(r)
    if z3.is_bool(x):
        raise Unsupported('bool ' + o)
    raise Unsupported('binary %s on %r' % (o, x))


def m_eq(self, st, x, y):
    if isinstance(x, (Closure, FuncV)) or isinstance(y, (Closure, FuncV)):
        if z3.is_int_value(x) if z3.is_expr(x) else False:
            return z3.BoolVal(False)
        if z3.is_expr(y) and z3.is_int_value(y):
            return z3.BoolVal(False)
        return self.refof(st, x) == self.refof(st, y)
    if isinstance(x, StructV):
        return z3.And([self.eq(st, x.f[n], y.f[n]) for n in x.f])
    if isinstance(x, CellPtr) or isinstance(y, CellPtr):
        return z3.BoolVal(x == y) if type(x) is type(y) else z3.BoolVal(False)
    if not z3.is_expr(x):
        x = self.refof(st, x)
    if not z3.is_expr(y):
        y = self.refof(st, y)
    return x == y


def op_convert(self, st, fr, i):
    T = self.T
    x = self.val(fr, i['x'])
    ft, tt = i['x']['t'], i['t']
    fs, ts = T.sort(ft), T.sort(tt)
    if fs is not None and ts is not None:
        if fs == ts:
            if z3.is_int(x) and T.d(tt)['k'] == 'basic' and T.d(ft)['k'] == 'basic' and SINT.get(T.d(tt)['name'], 64) < SINT.get(T.d(ft)['name'], 64):
                raise Unsupported('narrowing conversion')
            return x
        if z3.is_bv_sort(fs) and z3.is_bv_sort(ts):
            return conv_bv(x, ts.size())
        if z3.is_bv_sort(fs) and ts == I:
            r = bitsum(x)
            if fs.size() == 64:
                return z3.If(z3.Extract(63, 63, x) == 1, r - 2 ** 64, r)
            return r
        if fs == I and z3.is_bv_sort(ts):
            if z3.is_int_value(x):
                return z3.BitVecVal(x.as_long(), ts.size())
            return self.int2bv(st, x, ts.size())
        raise Unsupported('conversion %s to %s' % (T.s(ft), T.s(tt)))
    if ts == S and isinstance(x, Slice):
        a = self.sel(st, self.memarr(st.heap, T.elem(ft))[0], x.base)
        s = self.sof(a, x.off, x.len)
        self.assume(st, strlen(s) == x.len)
        return s
    if fs == S and T.k(tt) == 'slice':
        r = self.alloc(st, 'array')
        a = self.freshc(BYTES, 'bytes')
        n = strlen(x)
        self.assume(st, self.sof(a, z3.IntVal(0), n) == x)
        self.writeheap(st, self.memname(T.elem(tt)), r, a, BYTES)
        return Slice(r, z3.IntVal(0), n, n)
    raise Unsupported('conversion %s to %s' % (T.s(ft), T.s(tt)))


def op_slice(self, st, fr, i, k):
    T = self.T
    x = self.val(fr, i['x'])
    lo = self.toint(self.val(fr, i['lo'])) if i['lo'] else z3.IntVal(0)
    hi = self.toint(self.val(fr, i['hi'])) if i['hi'] else None
    mx = self.toint(self.val(fr, i['max'])) if i['max'] else None
    if z3.is_string(x) if z3.is_expr(x) else False:
        h = strlen(x) if hi is None else hi
        self.bounds(st, z3.And(lo >= 0, lo <= h, h <= strlen(x)), i, 'slice bounds in range')
        r = z3.SubString(x, lo, h - lo)
        self.assume(st, strlen(r) == h - lo)
        return k(st, r)
    if not isinstance(x, Slice):
        at = T.elem(i['x']['t'])
        n = z3.IntVal(T.d(at)['n'])
        x = Slice(self.refof(st, x), z3.IntVal(0), n, n)
    h = x.len if hi is None else hi
    m = x.cap if mx is None else mx
    self.bounds(st, z3.And(lo >= 0, lo <= h, h <= m, m <= x.cap), i, 'slice bounds in range')
    sm = z3.simplify
    k(st, Slice(x.base, sm(x.off + lo), sm(h - lo), sm(m - lo)))


# ------------------------------------------------------------------ bytes
def m_lam(self, f):
    j = z3.FreshConst(I, 'j')
    return z3.Lambda([j], f(j))


def m_constint(self, v):
    v = z3.simplify(v)
    return v.as_long() if z3.is_int_value(v) else None


def m_copybytes(self, st, et, base, off, src, n, pos, what, name=False):
    """write n elements, src: index -> list of component terms, at base[off...]"""
    T = self.T
    c = self.constint(n)
    for ci, (s, so) in enumerate(T.flat(et)):
        nm = self.memname(et) + s
        if s in ('', '#b'):
            if c != 0:
                self.framecheck(st, nm, base, pos, what)
        arr = self.hget(st.heap, nm, z3.ArraySort(I, z3.ArraySort(I, so)))
        old = self.sel(st, arr, base)
        if c is not None and c <= 24:
            new = old
            vals = [src(z3.IntVal(j))[ci] for j in range(c)]
            for j, v in enumerate(vals):
                new = z3.Store(new, z3.simplify(off + j), v)
            if so != BV8 and c and name:
                # a name, and what was written, for the solver to match
                nn = self.freshc(new.sort(), 'mem')
                self.assume(st, nn == new)
                for j, v in enumerate(vals):
                    self.assume(st, z3.Select(nn, z3.simplify(off + j)) == v)
                st.memo[('lamdef', nn.get_id())] = new
                self.keepterm(nn)
                new = nn
        else:
            new = self.lam(lambda j: z3.If(z3.And(j >= off, j < off + n), src(j - off)[ci], z3.Select(old, j)))
            nn = self.freshc(new.sort(), 'mem')
            st.pc.append(nn == new)   # not for the quick queries: sel looks through it
            st.memo[('lamdef', nn.get_id())] = new
            self.keepterm(nn)
            new = nn
        st.heap[nm] = mkstore(arr, base, new)


def m_slicesrc(self, st, s, t):
    arrs = [self.sel(st, a, s.base) for a in self.memarr(st.heap, self.T.elem(t))]
    return lambda j: [self.sel(st, a, z3.simplify(s.off + j)) for a in arrs]


def m_strsrc(self, x):
    f = z3.Function('strbyte', S, I, BV8)
    return lambda j: [f(x, j)]


def m_builtin(self, st, fr, i, n, args, k):
    T = self.T
    ts = [a['t'] if 't' in a else None for a in i['args']]
    pos = i.get('p', '')
    if n == 'len':
        x = args[0]
        if isinstance(x, Slice):
            return k(st, x.len)
        if z3.is_string(x):
            return k(st, strlen(x))
        if T.k(ts[0]) == 'map':
            self.mapguard(st, x, False, pos)
            r = self.maplen(st.heap, ts[0], x)
            self.assume(st, r >= 0)
            self.cardfacts(st, self.sel(st, self.mapdomarr(st.heap, ts[0]), x), r)
            return k(st, r)
        if T.k(ts[0]) == 'chan':
            r = self.freshc(I, 'chlen')
            self.assume(st, r >= 0)
            st.memo[('chlen', x.get_id())] = r
            self.keepterm(x)
            return k(st, r)
    if n == 'cap':
        x = args[0]
        if isinstance(x, Slice):
            return k(st, x.cap)
        if T.k(ts[0]) == 'chan':
            r = self.sel(st, self.hget(st.heap, 'chan#cap', z3.ArraySort(I, I)), x)
            return k(st, r)
    if n in ('min', 'max'):
        r = args[0]
        for y in args[1:]:
            r = z3.If(r < y, r, y) if n == 'min' else z3.If(r > y, r, y)
        return k(st, z3.simplify(r))
    if n == 'close':
        return self.closechan(st, fr, i, args[0], k)
    if n == 'delete':
        self.mapdelete(st, args[0], ts[0], args[1] if z3.is_expr(args[1]) else self.refof(st, args[1]), pos)
        return k(st, None)
    if n == 'copy':
        d, s = args
        et = T.elem(ts[0])
        sl = s.len if isinstance(s, Slice) else strlen(s)
        m = z3.simplify(z3.If(d.len < sl, d.len, sl))
        if self.constint(m) is None:
            for c in (sl, d.len):
                if self.prove(st, m == c, full=False)[0]:
                    m = c
                    break
        src = self.slicesrc(st, s, ts[1]) if isinstance(s, Slice) else self.strsrc(s)
        self.copybytes(st, et, d.base, d.off, src, m, pos, 'elements of []' + T.s(et))
        self.copylink(st, et, d.base, d.off, m, s, ts[1])
        return k(st, m)
    if n == 'append':
        s, x = args
        et = T.elem(ts[0])
        isstr = not isinstance(x, Slice)
        xl = strlen(x) if isstr else x.len
        xl = z3.simplify(xl)
        if self.constint(xl) == 0:
            return k(st, s)
        if getattr(self, 'strings', False) and self.memname(et) == 'mem:uint8':
            return self.appendstr(st, et, s, x, xl, pos, k)
        src = self.strsrc(x) if isstr else self.slicesrc(st, x, ts[1])

        e0 = [self.elems(st, z, et) for z in (s, x)] if self.elemson(et) and not isstr else None

        def inplace(st):
            st = st.copy()
            self.copybytes(st, et, s.base, z3.simplify(s.off + s.len), src, xl, pos, 'elements of []' + T.s(et), True)
            self.copylink(st, et, s.base, z3.simplify(s.off + s.len), xl, x, ts[1])
            self.elemlink(st, et, s, e0, x, Slice(s.base, s.off, z3.simplify(s.len + xl), s.cap), src)
            k(st, Slice(s.base, s.off, z3.simplify(s.len + xl), s.cap))

        def grow(st):
            st = st.copy()
            r = self.alloc(st, 'array')
            cap = self.freshc(I, 'cap')
            self.assume(st, z3.And(cap >= s.len + xl, cap <= 2 ** 62))
            old = self.slicesrc(st, s, ts[0]) if not (z3.is_int_value(s.base) and s.base.as_long() == 0) else None
            c0 = self.constint(s.len)
            if c0 == 0 or old is None:
                for sx, so in T.flat(et):
                    self.writeheap(st, self.memname(et) + sx, r, self.freshc(z3.ArraySort(I, so), 'garbage'), z3.ArraySort(I, so))
            else:
                oa = [self.sel(st, x, s.base) for x in self.memarr(st.heap, et)]
                for ci, (sx, so) in enumerate(T.flat(et)):
                    l = self.lam(lambda j: old(j)[ci])
                    nn = self.freshc(l.sort(), 'grown')
                    self.assume(st, nn == l)
                    if so != BV8 and z3.is_app(oa[ci]) and not z3.is_store(oa[ci]) and not self.isconst(oa[ci]):
                        q = z3.FreshConst(I, 'q')
                        self.assume(st, z3.ForAll([q], z3.Implies(z3.And(q >= s.off, q < s.off + s.len), z3.Select(nn, z3.simplify(q - s.off)) == z3.Select(oa[ci], q)), patterns=[z3.Select(oa[ci], q)]))
                    self.writeheap(st, self.memname(et) + sx, r, nn, z3.ArraySort(I, so))
                self.copylink(st, et, r, z3.IntVal(0), s.len, s, ts[0])
            self.copybytes(st, et, r, s.len, src, xl, pos, 'append', True)
            self.copylink(st, et, r, s.len, xl, x, ts[1], whole=s)
            self.elemlink(st, et, s, e0, x, Slice(r, z3.IntVal(0), z3.simplify(s.len + xl), cap), src)
            k(st, Slice(r, z3.IntVal(0), z3.simplify(s.len + xl), cap))
        return self.branch(st, s.len + xl <= s.cap, inplace, grow)
    raise Unsupported('builtin ' + n)


def m_appendstr(self, st, et, s, x, xl, pos, k):
    """append, where only the string the bytes form matters"""
    st = st.copy()
    arrs = self.hget(st.heap, 'mem:uint8', z3.ArraySort(I, BYTES))
    sx = x if not isinstance(x, Slice) else self.sof(self.sel(st, arrs, x.base), x.off, x.len)
    so = self.sof(self.sel(st, arrs, s.base), s.off, s.len)
    self.framecheck(st, 'mem:uint8', s.base, pos, 'elements of []byte')
    g = self.alloc(st, 'array')
    inpl = self.freshc(B, 'inplace')
    b, o, cap = self.freshc(I, 'abase'), self.freshc(I, 'aoff'), self.freshc(I, 'acap')
    n = z3.simplify(s.len + xl)
    self.assume(st, inpl == (s.len + xl <= s.cap))
    self.assume(st, z3.If(inpl, z3.And(b == s.base, o == s.off, cap == s.cap), z3.And(b == g, o == 0, cap >= n)))
    a = self.freshc(BYTES, 'appended')
    st.heap['mem:uint8'] = mkstore(arrs, b, a)
    self.assume(st, self.sof(a, o, n) == z3.If(s.len == 0, sx, z3.Concat(so, sx)))
    k(st, Slice(b, o, n, cap))


def m_vacuous(self, st, h):
    """an implication whose premise cannot hold here"""
    while z3.is_app(h) and h.decl().kind() == z3.Z3_OP_IMPLIES:
        if self.prove(st, z3.Not(h.arg(0)), full=False)[0]:
            return True
        h = h.arg(1)
    if z3.is_or(h) and h.num_args() <= 4 and any(self.prove(st, c, full=False)[0] for c in h.children() if z3.is_not(c) or z3.is_le(c) or z3.is_ge(c)):
        return True
    return False


def m_copylink(self, st, et, base, off, n, src, srct, whole=None):
    """strings formed by copied bytes"""
    if self.memname(et) != 'mem:uint8' or not getattr(self, 'strings', False):
        return
    a = self.sel(st, self.hget(st.heap, 'mem:uint8', z3.ArraySort(I, BYTES)), base)
    s2 = src if not isinstance(src, Slice) else self.sof(self.sel(st, self.hget(st.heap, 'mem:uint8', z3.ArraySort(I, BYTES)), src.base), src.off, src.len)
    self.assume(st, self.sof(a, off, n) == s2)


def m_elemson(self, et):
    return self.curcontract is not None and 'elements' in self.curcontract.flags and self.T.sort(et) == I


def m_elems(self, st, s, et, heap=None):
    """the set of the elements of a slice of references"""
    arr = self.sel(st, self.memarr(st.heap if heap is None else heap, et)[0], s.base)
    f = z3.Function('elems', arr.sort(), I, I, z3.ArraySort(I, B))(arr, s.off, s.len)
    w = z3.Function('elemat', arr.sort(), I, I, I, I)
    key = ('elems', f.get_id())
    if key not in st.memo:
        st.memo[key] = True
        self.keepterm(f)
        c = z3.FreshConst(I, 'c')
        at = w(arr, s.off, s.len, c)
        self.assume(st, z3.ForAll([c], z3.Implies(z3.Select(f, c), z3.And(at >= 0, at < s.len, z3.Select(arr, s.off + at) == c)), patterns=[z3.Select(f, c)]))
    return f


def m_elemlink(self, st, et, s, e0, x, new, src):
    if e0 is None:
        return
    c = z3.FreshConst(I, 'c')
    e = self.elems(st, new, et)
    n = self.constint(x.len)
    more = z3.Or([c == src(z3.IntVal(j))[0] for j in range(n)]) if n is not None and n <= 4 else z3.Select(e0[1], c)
    self.assume(st, z3.ForAll([c], z3.Select(e, c) == z3.Or(z3.Select(e0[0], c), more), patterns=[z3.Select(e, c)]))


def m_cardfacts(self, st, dom, r):
    k = dom.sort().domain()
    x = z3.FreshConst(k, 'q')
    self.assume(st, z3.Implies(r == 0, z3.ForAll([x], z3.Not(z3.Select(dom, x)))))


# ------------------------------------------------------------------ channels
def m_chanclass(self, st, ch):
    """what kind of channel: ('mu', mu ref), ('ctx', ctx), ('field', 'T.f', ref), ('local', None)"""
    p = self.prov.get(ch.get_id()) if z3.is_expr(ch) else None
    if p:
        f, ref = p
        if f == 'mu.ch':
            return ('mu', f, ref)
        if f == 'ctx':
            return ('ctx', f, ref)
        return ('field', f, ref)
    return ('local', None, None)


def m_chantag(self, f):
    c = self.spec.fields.get(f)
    return c[0] if c else None


def m_dosend(self, st, fr, i, ch, cht, v, k, blocking=True, other=()):
    """a send that happens"""
    kind, f, ref = self.chanclass(st, ch)
    pos = i.get('p', '')
    if kind == 'mu':
        cls, conn = self.mukind(st, ref)
        if cls is None:
            self.fail('lock', 'lock operation on an unknown lock', ['C05', 'C04'], pos)
            return self.endpath()
        self.acquire(st, cls, conn, 'w', pos, chk=blocking)
        return k(st, None)
    if kind == 'field' and f in self.spec.sends:
        c = self.spec.sends[f]
        ct = self.T.elem(cht)
        own = self.T.id('*' + f.rsplit('.', 1)[0])
        return self.applycontract(st, fr, c, 'send ' + f, [(ref, own), (v, ct)], [], i, lambda s, r: k(s, None))
    if kind == 'local':
        return self.localsend(st, fr, i, ch, v, self.T.elem(cht), k)
    self.fail('channel', 'send on a channel without a contract (%s)' % f, [], pos)
    return k(st, None)


def m_dorecv(self, st, fr, i, ch, cht, k, blocking=True):
    """a receive that happens; k(st, value, ok)"""
    kind, f, ref = self.chanclass(st, ch)
    et = self.T.elem(cht)
    pos = i.get('p', '')
    if kind == 'mu':
        cls, conn = self.mukind(st, ref)
        if cls is None:
            self.fail('lock', 'lock operation on an unknown lock', ['C05', 'C04'], pos)
            return self.endpath()
        self.release(st, cls, conn, pos)
        return k(st, self.zero(et), z3.BoolVal(True))
    if kind == 'ctx':
        self.assume(st, self.ctxdone(ref))
        return k(st, self.zero(et), z3.BoolVal(False))
    if kind == 'field' and self.chantag(f) == 'closeonly':
        self.assume(st, self.chclosed(ch))
        return k(st, self.zero(et), z3.BoolVal(False))
    if kind == 'field' and f in self.spec.recvs:
        c = self.spec.recvs[f]
        st.memo.pop(('chlen', ch.get_id()), None)
        if f in self.spec.receivers and (self.curcontract is None or self.curcontract.name != self.spec.receivers[f]):
            self.fail('channel', 'receive from %s outside %s' % (f, self.spec.receivers[f]), ['C20', 'C28'], pos)
        v = self.freshval(st, et, 'recv')
        own = self.T.id('*' + f.rsplit('.', 1)[0])
        ok = self.freshc(B, 'ok')
        return self.applycontract(st, fr, c, 'receive ' + f, [(ref, own), (v, et), (ok, self.T.id('bool'))], [], i, lambda s, r: k(s, v, ok))
    if kind == 'local':
        return self.localrecv(st, fr, i, ch, et, k)
    v = self.freshval(st, et, 'recv')
    return k(st, v, self.freshc(B, 'ok'))


# worker pools: a function makes a channel and a WaitGroup, starts goroutines that take items from the channel until it is
# closed, hands the items over, closes the channel and waits
def m_poolof(self, et):
    c = self.curcontract
    if c is None or not c.pools or self.T.k(et) != 'ptr':
        return None
    return c.pools.get('*' + self.T.sname(self.T.elem(et)))


def m_tl(self, st, g, so=I):
    return self.hget(st.heap, 'tl:' + g, so)


def m_unlocked(self, st, what, pos):
    self.oblig(st, 'pool', 'no lock is held', ['C27', 'C25'], 'no lock is held by ' + what, z3.BoolVal(not st.held), pos)


def m_wgnew(self, st, c, i):
    if self.curcontract is None or not self.curcontract.pools:
        return
    if ('wg',) in st.memo or self.ingo:
        self.fail('pool', 'more than one WaitGroup', ['C27'], i.get('p', ''))
    st.memo[('wg',)] = c
    st.heap['tl:tlAdds'] = z3.IntVal(0)
    st.heap['tl:tlWorkers'] = z3.IntVal(0)


def m_poolnew(self, st, et, r, i):
    if self.poolof(et) is None:
        return
    if ('pool',) in st.memo or self.ingo:
        self.fail('pool', 'more than one channel for workers', ['C27'], i.get('p', ''))
    st.memo[('pool',)] = (r, et)
    st.heap['tl:tlHanded'] = z3.K(I, z3.BoolVal(False))
    st.heap['tl:tlShut'] = z3.BoolVal(False)
    st.heap['tl:tlPut'] = z3.IntVal(0)


def m_mypool(self, st, ch):
    p = st.memo.get(('pool',))
    return p is not None and z3.is_expr(ch) and (ch.eq(p[0]) or self.prove(st, ch == p[0], full=False)[0])


def m_localsend(self, st, fr, i, ch, v, et, k):
    pos = i.get('p', '')
    p = self.poolof(et)
    if p is None or self.ingo or not self.mypool(st, ch):
        self.fail('channel', 'send on a local channel', ['C27'], pos)
        return k(st, None)
    ev = Ev(self, st, {p['var']: (v, et)})
    for cl in p['requires']:
        self.oblig(st, 'pool', 'handed over: ' + cl.label, cl.tags, cl.src, ev.bool(cl.e), pos)
    self.unlocked(st, 'the goroutine that hands work over', pos)
    self.oblig(st, 'pool', 'channel open', ['C27'], 'nothing is sent after the channel was closed', z3.Not(self.tl(st, 'tlShut', B)), pos)
    self.oblig(st, 'pool', 'someone takes it', ['C27'], 'what is handed over is taken by a worker already started, or fits in the channel',
               z3.Or(self.tl(st, 'tlWorkers') >= 1, self.tl(st, 'tlPut') < self.sel(st, self.hget(st.heap, 'chan#cap', z3.ArraySort(I, I)), ch)), pos)
    st.heap['tl:tlPut'] = self.tl(st, 'tlPut') + 1
    so = z3.ArraySort(I, B)
    st.heap['tl:tlHanded'] = z3.Store(self.tl(st, 'tlHanded', so), v, True)
    k(st, None)


DRAINED = z3.Function('drained', I, B)


def m_localrecv(self, st, fr, i, ch, et, k):
    pos = i.get('p', '')
    v, ok = self.freshval(st, et, 'recv'), self.freshc(B, 'ok')
    p = self.poolof(et)
    if p is None:
        return k(st, v, ok)
    if not self.ingo or not self.mypool(st, ch):
        self.fail('pool', 'receive from a channel that is not the one of the workers', ['C27'], pos)
        return k(st, v, ok)
    self.settle(st, pos)
    self.unlocked(st, 'a worker that waits for work', pos)
    ev = Ev(self, st, {p['var']: (v, et)})
    for cl in p['requires']:
        self.assume(st, z3.Implies(ok, ev.bool(cl.e)))
    self.assume(st, z3.Implies(z3.Not(ok), DRAINED(ch)))
    st.memo[('item',)] = (v, et, ok, dict(st.heap))
    k(st, v, ok)


def m_settle(self, st, pos):
    """the item taken last has been dealt with"""
    it = st.memo.pop(('item',), None)
    if it is None or self.mode != 'run':
        return
    v, et, ok, old = it
    p = self.poolof(et)
    ev = Ev(self, st, {p['var']: (v, et)}, old=old)
    for cl in p['does']:
        self.oblig(st, 'pool', 'dealt with: ' + cl.label, cl.tags, cl.src, z3.Implies(ok, ev.bool(cl.e)), pos)


def m_takes(self, fr, h):
    """does the loop receive"""
    return any(i['op'] == 'unop' and i['o'] == '<-' or i['op'] == 'select' for b in fr.fn.loops[h] for i in fr.fn.blocks[b]['instrs'])


def m_wghook(self, st, fr, i, a, k):
    what = i['fn']['f'].rsplit('.', 1)[1]
    pos = i.get('p', '')
    if self.curcontract is None or not self.curcontract.pools:
        return k(st, None)
    if not isinstance(a[0], CellPtr) or st.memo.get(('wg',)) != a[0].id or (what == 'Done') != bool(self.ingo):
        self.fail('pool', '%s on a WaitGroup that is not the one of the workers' % what, ['C27'], pos)
        return k(st, None)
    if what == 'Add':
        st.heap['tl:tlAdds'] = self.tl(st, 'tlAdds') + self.toint(a[1])
    elif what == 'Done':
        self.settle(st, pos)
        ch = st.memo.get(('pool',))
        self.oblig(st, 'pool', 'worker done', ['C27'], 'a worker is done when the channel is closed and empty', DRAINED(ch[0]) if ch else z3.BoolVal(False), pos)
        st.heap['tl:tlDones'] = self.tl(st, 'tlDones') + 1
    else:
        self.unlocked(st, 'the goroutine that waits for the workers', pos)
        self.oblig(st, 'pool', 'channel closed', ['C27'], 'the channel is closed before its workers are waited for', self.tl(st, 'tlShut', B), pos)
        w = self.tl(st, 'tlWorkers')
        self.oblig(st, 'pool', 'all counted', ['C27'], 'what is waited for is the number of workers started', z3.And(w >= 1, self.tl(st, 'tlAdds') == w), pos)
        ch = st.memo.get(('pool',))
        if ch:
            p = self.poolof(ch[1])
            x = z3.FreshConst(I, 'x')
            h = z3.Select(self.tl(st, 'tlHanded', z3.ArraySort(I, B)), x)
            ev = Ev(self, st, {p['var']: (x, ch[1])})
            for cl in p['gives']:
                g = ev.bool(cl.e)
                self.assume(st, z3.ForAll([x], z3.Implies(h, g), patterns=[h]))
    k(st, None)


def m_blockcheck(self, st, chans, pos, what):
    """a blocking operation must be able to end through one of the channels named by blockson"""
    c = self.curcontract
    if c is None or self.mode != 'run':
        return
    for e in c.effects:
        if e.kind != 'blockson':
            continue
        try:
            d, _ = Ev(self, st, self.rootenv(st)).ev(e.e)
        except SpecError as x:
            self.fail('blocking', str(x), e.tags, pos)
            continue
        ok = any(ch.eq(d) or self.prove(st, ch == d, full=False)[0] for ch in chans if z3.is_expr(ch))
        self.oblig(st, 'blocking', e.label or what, e.tags, 'every blocking operation ends when %s is closed' % e.src, z3.BoolVal(ok), pos)


def m_recv(self, st, fr, i, ch, cht, commaok, k):
    self.blockop(st, fr, [('recv', ch)], i)
    self.dorecv(st, fr, i, ch, cht, lambda s, v, ok: k(s, TupleV([v, ok]) if commaok else v))


def m_blockop(self, st, fr, ops, i):
    if any(d == 'recv' and self.chanclass(st, c)[0] == 'mu' for d, c in ops):
        return
    # what its only receiver saw in a channel is still there
    n = st.memo.get(('chlen', ops[0][1].get_id())) if len(ops) == 1 and ops[0][0] == 'recv' and z3.is_expr(ops[0][1]) else None
    if n is not None and self.chanclass(st, ops[0][1])[1] in self.spec.receivers and self.prove(st, n > 0)[0]:
        return
    self.blockcheck(st, [c for d, c in ops if d == 'recv'], i.get('p', ''), 'blocking operation')


def op_send(self, st, fr, i, k):
    ch, v = self.val(fr, i['ch']), self.val(fr, i['x'])
    self.blockop(st, fr, [('send', ch)], i)
    self.dosend(st, fr, i, ch, i['ch']['t'], v, k)


def op_select(self, st, fr, i, k):
    T = self.T
    states = [(s['dir'], self.val(fr, s['ch']), s['ch']['t'], self.val(fr, s['v']) if s['v'] else None) for s in i['states']]
    blocking = i['blocking']
    if blocking:
        self.blockop(st, fr, [(d, c) for d, c, _, _ in states], i)
    nrecv = sum(1 for d, _, _, _ in states if d == 'recv')
    zeros = [self.zero(T.elem(t)) for d, _, t, _ in states if d == 'recv']
    rpos = 0
    for n, (d, ch, t, v) in enumerate(states):
        if d == 'recv':
            j = rpos
            rpos += 1

            def fin(s, x, ok, n=n, j=j):
                vs = list(zeros)
                vs[j] = x
                s.trace = s.trace + ('select#%d' % n,)
                k(s, TupleV([z3.IntVal(n), ok] + vs))
            self.under(st, ch != 0, lambda s, ch=ch, t=t, fin=fin: self.dorecv(s, fr, i, ch, t, fin, blocking))
        else:
            def fins(s, _, n=n):
                s.trace = s.trace + ('select#%d' % n,)
                k(s, TupleV([z3.IntVal(n), z3.BoolVal(False)] + zeros))
            self.under(st, ch != 0, lambda s, ch=ch, t=t, v=v, fins=fins: self.dosend(s, fr, i, ch, t, v, fins, blocking))
    # a receive from a closed channel is always ready
    closed = any(d == 'recv' and self.chanclass(st, ch)[0] == 'field' and self.chantag(self.chanclass(st, ch)[1]) == 'closeonly' and self.prove(st, self.chclosed(ch), full=False)[0] for d, ch, _, _ in states)
    if not blocking and not closed:
        def default(s):
            s = s.copy()
            for d, ch, _, _ in states:
                self.otherwise(s, ch)
            k(s, TupleV([z3.IntVal(-1), z3.BoolVal(False)] + zeros))
        self.under(st, None, default)


def m_closechan(self, st, fr, i, ch, k):
    kind, f, ref = self.chanclass(st, ch)
    pos = i.get('p', '')
    if kind == 'field':
        c = self.spec.fields.get(f)
        if c and c[0] == 'closeonly' and c[1]:
            once = c[1].strip()
            ok = any(h.cls == once and h.ref.eq(ref) for h in st.held)
            self.oblig(st, 'close', 'channel closed once', c[2] or ['C13'], '%s is closed only inside %s' % (f, once), z3.BoolVal(ok), pos)
    elif kind == 'local':
        self.localclose(st, fr, i, ch)
    self.assume(st, self.chclosed(ch))
    k(st, None)


def m_localclose(self, st, fr, i, ch):
    if self.curcontract is None or not self.curcontract.pools:
        return
    pos = i.get('p', '')
    if self.ingo or not self.mypool(st, ch):
        self.fail('pool', 'close of a channel that is not the one of the workers', ['C27'], pos)
        return
    self.oblig(st, 'pool', 'closed once', ['C27'], 'the channel is closed once', z3.Not(self.tl(st, 'tlShut', B)), pos)
    st.heap['tl:tlShut'] = z3.BoolVal(True)


# ------------------------------------------------------------------ calls
def op_call(self, st, fr, i, k):
    self.docall(st, fr, i, k)


def m_evalargs(self, fr, i):
    return [self.val(fr, a) for a in i['args']]


def op_defer(self, st, fr, i, k):
    rec = (i, self.evalargs(fr, i), self.val(fr, i['recv']) if 'invoke' in i else None, None if 'invoke' in i else self.val(fr, i['fn']))
    st.defers.setdefault(fr.id, []).append(rec)
    k(st, None)


def op_rundefers(self, st, fr, i, k):
    ds = st.defers.get(fr.id, [])
    if not ds:
        return k(st, None)
    st.defers[fr.id] = ds[:-1]
    rec = ds[-1]
    self.docall(st, fr, rec[0], lambda s, v: op_rundefers(self, s, fr, i, k), pre=rec)


def m_docall(self, st, fr, i, k, pre=None):
    args = pre[1] if pre else self.evalargs(fr, i)
    if 'invoke' in i:
        recv = pre[2] if pre else self.val(fr, i['recv'])
        return self.invoke(st, fr, i, recv, args, k)
    fn = i['fn']
    v = pre[3] if pre else (self.val(fr, fn))
    if isinstance(v, Opaque) and v.what.startswith('builtin:'):
        return self.builtin(st, fr, i, v.what[8:], args, k)
    self.callvalue(st, fr, i, v, args, k)


def m_callvalue(self, st, fr, i, v, args, k):
    if isinstance(v, FuncV):
        return self.callfunc(st, fr, i, v.name, args, (), k)
    if isinstance(v, Closure):
        return self.callfunc(st, fr, i, v.fn, args, v.binds, k)
    if isinstance(v, Opaque):
        return self.callopaque(st, fr, i, v, args, k)
    if z3.is_expr(v):
        c = self.clos.get(v.get_id())
        if c is not None:
            return self.callvalue(st, fr, i, c, args, k)
        self.oblig(st, 'nil', 'function value is not nil', self.safety, 'no call of a nil function', v != 0, i.get('p', ''))
        p = self.prov.get(v.get_id())
        name = p[0] if p else None
        if p is None:
            for a in fr.fn.d['params'] or []:
                if fr.regs.get(a['n']) is v:
                    name, p = fr.fn.name + '.' + a['n'], (None, z3.IntVal(0))
        c = self.spec.callbacks.get(name)
        if c is None:
            self.fail('call', 'call of a function value without a contract (%s)' % name, [], i.get('p', ''))
            return self.endpath()
        own = self.T.id('*' + name.split('.')[0]) if not name.startswith('(') and not '(' in name and name.split('.')[0] in self.T.byname else self.T.id('int')
        env = {'self': (p[1], own)}
        ats = [(a, t) for a, t in zip(args, i['sig']['params'])]
        return self.applycontract(st, fr, c, name, ats, i['sig']['results'], i, k, extra=env)
    raise Unsupported('call of %r' % (v,))


def m_callopaque(self, st, fr, i, v, args, k):
    h = self.ext.get('opaque:' + v.what)
    if h:
        return h(self, st, fr, i, v, args, k)
    raise Unsupported('call of %r' % (v,))


def m_callfunc(self, st, fr, i, name, args, binds, k):
    f = self.fns.get(name)
    sig = i['sig']
    if f is None or not f.blocks:
        h = self.ext.get(name)
        if h:
            self.externs_used.add(name)
            return h(self, st, fr, i, args, k)
        c = self.spec.externs.get(name)
        if c:
            self.externs_used.add(name)
            ats = [a['t'] if 't' in a else None for a in i['args']]
            return self.applycontract(st, fr, c, name, list(zip(args, ats)), sig['results'], i, k)
        self.fail('call', 'call of %s, which has no contract' % name, [], i.get('p', ''))
        return self.endpath()
    c = self.spec.contracts.get(name)
    if c is not None and 'inline' not in c.flags and not (c.flags & {'merge'}):
        self.contracts_used.add(name)
        ats = [p['t'] for p in f.d['params'] or []]
        return self.applycontract(st, fr, c, name, list(zip(args, ats)), sig['results'], i, k)
    self.inline(st, fr, i, f, args, binds, k)


def m_result(self, res):
    if not res:
        return None
    return res[0] if len(res) == 1 else TupleV(list(res))


def m_mergeable(self, f):
    c = getattr(f, '_merge', None)
    if c is not None:
        return c
    f._merge = False
    ok = not f.loops and len(f.d['sig']['results']) >= 1 and all(self.T.sort(t) is not None for t in f.d['sig']['results']) and len(f.blocks) > 1
    for b in f.blocks:
        for i in b['instrs']:
            op = i['op']
            if op in ('binop', 'if', 'jump', 'return', 'phi', 'convert', 'extract', 'changetype', 'debugref', 'makeiface', 'changeiface', 'fieldaddr', 'field'):
                continue
            if op == 'typeassert' and i.get('ok'):
                continue
            if op == 'unop' and i['o'] != '<-':
                continue
            if op == 'call' and 'invoke' not in i and i['fn']['k'] == 'func':
                n = i['fn']['f']
                g = self.fns.get(n)
                if n == 'slices.Contains' or (g is not None and g.blocks and n not in self.spec.contracts and (self.mergeable(g) or self.straight(g))):
                    continue
            if op == 'call' and 'invoke' not in i and i['fn']['k'] == 'builtin' and i['fn']['n'] in ('len', 'cap', 'min', 'max'):
                continue
            ok = False
    f._merge = ok
    return ok


def m_straight(self, g):
    return len(g.blocks) == 1 and all(i['op'] in ('binop', 'return', 'convert', 'call', 'extract', 'typeassert') and (i['op'] != 'call' or i['fn']['k'] == 'func' and i['fn']['f'] == 'slices.Contains') for i in g.blocks[0]['instrs'])


def m_inline(self, st, fr, i, f, args, binds, k):
    self.inlined.add(f.name)
    p = fr
    n = 0
    while p is not None:
        if p.fn is f:
            n += 1
        p = p.parent
    if n >= 2 or fr.depth > 14:
        raise Unsupported('recursive call of %s without a contract' % f.name)
    if self.mergeable(f):
        return self.mergecall(st, fr, f, args, binds, k)
    nf = Frame(f, args, binds, lambda s, res: k(s, self.result(res)), fr)
    self.run(st, nf, 0)


def m_mergecall(self, st, fr, f, args, binds, k):
    paths = []
    n0 = len(st.pc)
    cutpaths = self.paths

    def kk(s, res):
        paths.append((s.pc[n0:], res))
    nf = Frame(f, args, binds, kk, fr)
    self.solver.push()
    self.run(st.copy(), nf, 0)
    self.solver.pop()
    if not paths:
        return self.endpath()
    if len(paths) == 1:
        for a in paths[0][0]:
            self.assume(st, a)
        return k(st, self.result(paths[0][1]))
    rs = []
    for j, t in enumerate(f.d['sig']['results']):
        so = self.T.sort(t)
        vs = [p[1][j] for p in paths]
        if so == B and all(z3.is_expr(v) for v in vs):
            # a boolean is the disjunction of the paths on which it is true
            r = z3.simplify(z3.Or([z3.And(p[0] + [v]) for p, v in zip(paths, vs)]))
            c = self.freshc(B, f.name)
            rs.append(c)
        else:
            rs.append(self.freshc(so, 'm'))
    ds = []
    for a, res in paths:
        ds.append(z3.And(a + [r == (v if z3.is_expr(v) else self.refof(st, v)) for r, v in zip(rs, res)]))
    self.assume(st, z3.Or(ds))
    k(st, self.result(rs))


def m_invoke(self, st, fr, i, recv, args, k):
    T = self.T
    it = i['recv']['t']
    name = T.sname(it) if T.T[it]['k'] == 'named' else T.s(it)
    m = name + '.' + i['invoke']
    self.oblig(st, 'nil', 'interface is not nil', self.safety, 'no call through a nil interface', recv != 0, i.get('p', ''))
    h = self.ext.get(m)
    if h:
        self.externs_used.add(m)
        return h(self, st, fr, i, [recv] + args, k)
    c = self.spec.externs.get(m)
    if c:
        self.externs_used.add(m)
        ats = [(recv, it)] + list(zip(args, i['sig']['params']))
        return self.applycontract(st, fr, c, m, ats, i['sig']['results'], i, k)
    # types of the package converted to this interface
    impls = sorted(self.implementers(it), key=lambda t: T.s(t))
    if impls:
        for t in impls:
            base = T.elem(t) if T.k(t) == 'ptr' else t
            ms = self.methods.get(T.sname(base), {})
            fn = ms.get(i['invoke'])
            if fn is None:
                raise Unsupported('no method %s on %s' % (i['invoke'], T.s(t)))

            def kk(s, t=t, fn=fn):
                v = self.unbox(s, recv, t)
                self.assume(s, self.box(s, v, t) == recv)
                self.assume(s, v != 0)
                self.typefacts(s, t, v)
                self.callfunc(s, fr, i, fn, [v] + args, (), k)
            self.under(st, self.dt(recv) == self.tag(t), kk)
        return
    self.fail('call', 'call of %s, which has no contract' % m, [], i.get('p', ''))
    self.endpath()


def m_implementers(self, it):
    if not hasattr(self, '_impl'):
        self._impl = {}
        for f in self.fns.values():
            for b in f.blocks:
                for i in b['instrs']:
                    if i['op'] == 'makeiface':
                        self._impl.setdefault(i['t'], set()).add(i['x']['t'])
    return self._impl.get(it, ())


# ------------------------------------------------------------------ contracts at calls
def m_publish(self, st, v, t, pos, why):
    """an object under construction becomes reachable by others: its type invariant must hold"""
    T = self.T
    if isinstance(v, (Closure,)):
        f = self.fns[v.fn]
        for x, p in zip(v.binds, f.d['freevars'] or []):
            self.publish(st, x, p['t'], pos, why)
        return
    if not z3.is_expr(v) or T.k(t) not in ('ptr', 'iface'):
        return
    if T.k(t) == 'iface':
        if z3.is_app(v) and v.decl().name().startswith('box!') and v.num_args() == 1:
            v = v.arg(0)
        else:
            return
    for r, n in st.fresh:
        if r.eq(v) and n in self.spec.invs and ('pub', r.get_id()) not in st.memo:
            st.memo[('pub', r.get_id())] = True
            var, cls = self.spec.invs[n]
            ev = Ev(self, st, {var: (v, T.id('*' + n))})
            for c in cls:
                self.oblig(st, 'type invariant', '%s %s' % (n, c.label), c.tags, c.src, ev.bool(c.e), pos)


def m_closurecheck(self, st, fr, i, cl, v, pos):
    """what the function value passed to a callee does when it is called later"""
    if z3.is_expr(v):
        v = self.clos.get(v.get_id(), v)
    if z3.is_expr(v):
        if not (z3.is_int_value(v) and v.as_long() == 0):
            self.oblig(st, 'closure', '%s %s' % (cl.info[0], cl.label), cl.tags, cl.src, z3.BoolVal(False), pos)
        return

    def body(s):
        s = s.copy()
        s.held = []
        old = dict(s.heap)

        def after(s2, res):
            g = Ev(self, s2, self.entryenv, old=old).bool(cl.e)
            self.oblig(s2, 'closure', '%s %s' % (cl.info[0], cl.label), cl.tags, cl.src, g, pos)
        self.callvalue(s, fr, dict(i, sig={'params': [], 'results': [], 'rnames': []}, args=[]), v, [], after)
    self.under(st, None, body)


def m_applycontract(self, st, fr, c, name, args, rtypes, i, k, extra=None, go=False):
    T = self.T
    pos = i.get('p', '')
    env = dict(extra or {})
    f = self.fns.get(name)
    pn = c.params or [p['n'] for p in (f.d['params'] or [])] if f is not None else c.params
    for n, a in zip(pn, args):
        env[n] = a
    flags = c.flags
    pre = 'call of %s' % name if c.kind == 'func' else name
    for n, (v, t) in list(env.items()):
        if isinstance(v, (CellPtr, GlobalPtr)):
            env.pop(n)
            continue
        if 'noinv:' + n in flags or 'noinv' in flags and ('noinv' == n):
            continue
        if t is not None and n != 'self':
            self.publish(st, v, t, pos, name)
    # locks
    if c.kind in ('func', 'callback', 'extern', 'onsend', 'onrecv') and not go:
        allowed = {x.split(':', 1)[1] for x in flags if x.startswith('locks:')}
        holds = [e.e[1] for e in c.effects if e.kind in ('holds', 'rholds', 'releases') and e.e[0] == 'call']
        if c.kind in ('func', 'callback') and 'anylocks' not in flags:
            for h in st.held:
                if h.cls not in allowed and h.cls not in holds:
                    self.fail('locks', '%s called while %s is held' % (name, h.cls), ['C25', 'C05', 'C27'] if c.kind == 'callback' else ['C05', 'C27', 'C25'], pos)
            for a in sorted(self.allowed):
                if a not in allowed and a not in holds:
                    self.fail('locks', '%s called while the caller may hold %s' % (name, a), ['C25', 'C05', 'C27'], pos)
    ev = Ev(self, st, env)
    for cl in c.requires:
        try:
            g = ev.bool(cl.e)
        except SpecError as x:
            self.fail('requires', '%s: %s' % (name, x), cl.tags, pos)
            continue
        self.oblig(st, 'requires', '%s %s' % (pre, cl.label), cl.tags, cl.src, g, pos)
    for e in c.effects:
        if e.kind in ('holds', 'rholds', 'releases') and not go:
            cls = e.e[1]
            o = self.refof(st, ev.ev(e.e[2][0])[0])
            cond = ev.bool(e.when) if e.when is not None else z3.BoolVal(True)
            self.oblig(st, 'requires', '%s holds %s' % (pre, cls), e.tags, e.src, z3.Implies(cond, self.heldpred(st, cls, o, e.kind == 'rholds')), pos)
        if e.kind == 'acquires' and not go:
            cls = e.e[1]
            if cls in self.spec.locks:
                self.lockorder(st, cls, None, pos)
    for cl in self.curc.closures if self.curc is not None and not go and self.mode == 'run' else ():
        if cl.info[0] == name and cl.info[1] < len(args):
            self.closurecheck(st, fr, i, cl, args[cl.info[1]][0], pos)
    if go:
        for loc, ex in c.started:
            self.effect(st, loc, ex, env)
        return k(st, None)
    old = dict(st.heap)
    oldst = st
    for n, e in c.lets:
        env[n] = ev.ev(e)
    # frame
    mw = {}
    for src, e in c.modifies:
        if src in c.modwhen:
            w = c.modwhen[src]
            if id(w) not in mw:
                wf = Ev(self, st, env, heap=old).bool(w)
                wf = z3.simplify(wf)
                mw[id(w)] = z3.is_false(wf) or False if z3.is_false(wf) or z3.is_true(wf) or self.prove(st, wf, full=False)[0] else self.prove(st, z3.Not(wf))[0]
            if mw[id(w)]:
                continue
        try:
            ls = self.locs(st, e, env)
        except SpecError as x:
            self.fail('modifies', '%s: %s' % (name, x), [], pos)
            continue
        for n, idx, so in ls:
            self.callframe(st, n, idx, pos, name)
        self.havoc(st, ls, 'call')
    # ghost assignments of the callee: what its postconditions say about them is all that is known
    for g, e, src in c.ghosts:
        if src not in c.sets:
            self.havoc(st, self.locs(st, g, env), 'call')
    # results
    pretop = st.top
    top = self.freshc(I, 'top')
    self.assume(st, top >= st.top)
    st.top = top
    res = []
    rn = c.results or (f.d['sig']['rnames'] if f is not None else None) or []
    for j, t in enumerate(rtypes):
        v = self.freshval(st, t, 'r')
        res.append(v)
        n = rn[j] if j < len(rn) and rn[j] else ('result' if len(rtypes) == 1 else 'r%d' % j)
        env[n] = (v, t)
        env['result' if len(rtypes) == 1 else 'r%d' % j] = (v, t)
    ev2 = Ev(self, st, env, old=old)
    ev2.freshtop = pretop
    for g, e, src in c.ghosts:
        if src in c.sets:
            v, _ = ev2.ev(e)
            for n, idx, so in self.locs(st, g, env):
                if idx is None:
                    st.heap[n] = v
                else:
                    self.writeheap(st, n, idx, v, so)
    def posts(prune=False):
        for cl in c.ensures:
            if cl.kind == 'defs':
                continue
            try:
                g = ev2.bool(cl.e)
            except SpecError as x:
                raise Unsupported('%s ensures %s: %s' % (name, cl.src, x))
            if prune and not self.hasquant(g):
                for h in self.conjuncts(z3.simplify(g)):
                    if not self.vacuous(st, h):
                        self.assume(st, h)
            else:
                self.assume(st, g)
    if self.curc is not None and self.curc.cases:
        # results that can only have one value
        npc = len(st.pc)
        self.solver.push()
        posts()
        one = {}
        for j, (v, t) in enumerate(zip(res, rtypes)):
            if z3.is_expr(v) and v.sort() == I and not z3.is_int_value(v) and self.T.k(t) == 'basic' and self.solver.check() == z3.sat:
                w = self.solver.model().eval(v)
                if z3.is_int_value(w) and self.prove(st, v == w, full=False)[0]:
                    one[j] = w
        self.solver.pop()
        del st.pc[npc:]
        for j, w in one.items():
            self.assume(st, res[j] == w)
            res[j] = w
            n = rn[j] if j < len(rn) and rn[j] else 'result' if len(rtypes) == 1 else 'r%d' % j
            env[n] = env['result' if len(rtypes) == 1 else 'r%d' % j] = (w, rtypes[j])
        posts(bool(one))
    else:
        posts()
    acq = [e for e in c.effects if e.kind == 'acquires' and e.e[1] in self.spec.locks]
    rel = [e for e in c.effects if e.kind == 'releases']
    def finish(s):
        for n, cl in self.curc.afters if self.curc is not None else ():
            if n == name:
                try:
                    g = Ev(self, s, self.entryenv, old=self.oldheap).bool(cl.e)
                except SpecError:
                    continue
                if self.mode == 'run' or not self.hasquant(g):
                    self.light = True
                    try:
                        if self.prove(s, g)[0]:
                            self.assume(s, g)
                    finally:
                        self.light = False
        k(s, self.result(res))

    def dorel(s, es):
        if not es:
            return finish(s)
        e, rest = es[0], es[1:]
        o = self.refof(s, Ev(self, s, env, heap=old).ev(e.e[2][0])[0])

        def yes(s2):
            for j in range(len(s2.held) - 1, -1, -1):
                h = s2.held[j]
                if h.cls == e.e[1] and (h.ref.eq(o) or self.prove(s2, h.ref == o, full=False)[0]):
                    del s2.held[j]
                    break
            dorel(s2, rest)
        if e.when is None:
            return yes(s := st if s is st else s)
        self.branch(s, Ev(self, s, env, heap=old).bool(e.when), lambda a: yes(a.copy()), lambda a: dorel(a.copy(), rest))

    def doacq(s, es):
        if not es:
            return dorel(s, rel)
        e, rest = es[0], es[1:]
        o = self.refof(s, Ev(self, s, env, old=old).ev(e.e[2][0])[0])

        def yes(s2):
            s2 = s2.copy()
            self.acquire(s2, e.e[1], o, 'w', pos, chk=False)
            doacq(s2, rest)
        if e.when is None:
            return yes(s)
        self.branch(s, Ev(self, s, env, old=old).bool(e.when), yes, lambda a: doacq(a.copy(), rest))
    doacq(st, acq)


def m_callframe(self, st, n, idx, pos, name):
    if self.mode != 'run' or self.frame is None:
        return
    if idx is None or idx is True:
        if self.frame.get(n) and any(a is True for a in self.frame[n]):
            return
        self.fail('modifies', 'call of %s changes %s, which modifies does not list' % (name, n), self.frametags, pos)
        return
    self.framecheck(st, n, idx, pos, 'call of %s changes %s' % (name, n))


# ------------------------------------------------------------------ goroutines
def op_go(self, st, fr, i, k):
    pos = i.get('p', '')
    args = self.evalargs(fr, i)
    if 'invoke' in i:
        raise Unsupported('go with an interface method')
    v = self.val(fr, i['fn'])
    name = v.name if isinstance(v, FuncV) else v.fn if isinstance(v, Closure) else None
    if name is None:
        raise Unsupported('go with %r' % (v,))
    f = self.fns.get(name)
    c = self.spec.contracts.get(name)
    for a, p in zip(args, f.d['params'] or []):
        self.publish(st, a, p['t'], pos, 'go')
    if isinstance(v, Closure):
        self.publish(st, v, None, pos, 'go')
    gc = self.curcontract
    self.gocount(st, name, args)
    if c is not None and 'inline' not in c.flags:
        ats = [p['t'] for p in f.d['params'] or []]
        self.contracts_used.add(name)
        return self.applycontract(st, fr, c, name, list(zip(args, ats)), [], i, k, go=True)
    # verified here, on its own, from a state in which everything that is not immutable may have changed
    self.inlined.add(name)
    binds = v.binds if isinstance(v, Closure) else ()
    for b in tuple(binds) + tuple(args):
        if isinstance(b, CellPtr) and b.id != st.memo.get(('wg',)):
            st.memo[('shared', b.id)] = True
    pooled = gc is not None and gc.pools
    if pooled:
        w = self.tl(st, 'tlWorkers')
        self.oblig(st, 'pool', 'counted', ['C27'], 'a worker is counted before it starts', self.tl(st, 'tlAdds') > w, pos)
        st.heap['tl:tlWorkers'] = w + 1

    def body(s):
        s.held, s.loops, s.defers = [], (), {}
        for n in list(s.heap):
            if n.startswith('tl:') or self.immutablename(n):
                continue
            s.heap[n] = self.freshc(s.heap[n].sort(), 'go')
        s.trace = s.trace + ('go ' + name,)
        if pooled:
            s.heap['tl:tlDones'] = z3.IntVal(0)
        sf, sa, sc = self.frame, self.allowed, self.cut
        self.frame, self.allowed = None, set()
        try:
            nf = Frame(f, args, binds, lambda s2, res: self.goend(s2, fr, name), None)
            self.ingo += 1
            self.run(s, nf, 0)
        finally:
            self.ingo -= 1
            self.frame, self.allowed = sf, sa
    if self.mode == 'run':
        self.under(st, None, body)
    k(st, None)


def m_goend(self, st, fr, name):
    if st.held:
        self.fail('lock', 'goroutine %s ends with %s held' % (name, st.held[-1].cls), ['C05'])
    if self.curcontract is not None and self.curcontract.pools:
        self.settle(st, '')
        self.oblig(st, 'pool', 'done once', ['C27'], 'a worker that ends has said so once', self.tl(st, 'tlDones') == 1, '')
    self.endpath()


def m_gocount(self, st, name, args):
    """calls started with go are counted in the ghost goN, when declared"""
    g = 'tl:go_' + re.sub(r'\W', '', name)
    gn = g[3:]
    if gn in self.spec.ghosts:
        cur = self.hget(st.heap, g, I)
        st.heap[g] = cur + 1


def m_immutablename(self, n):
    base = re.sub(r'#[bolc]$', '', n)
    c = self.spec.fields.get(base)
    return bool(c and c[0] in ('immutable', 'closeonly'))


# ------------------------------------------------------------------ verification of one function
def m_verify(self, name):
    """check the body of a function against its contract"""
    import time
    T = self.T
    c = self.spec.contracts[name]
    f = self.fns.get(name)
    self.cur, self.curcontract = name, c
    t0 = time.time()
    self.mode, self.cut, self.paths, self.ingo = 'run', (), 0, 0
    self.rangemaps = {}
    self.nalloc, self.celltypes, self.cellnames, self.loopinfo = 1, {}, {}, []
    self.strings = 'strings' in c.flags
    self.timeout = 2000 if 'short' in c.flags else 10000
    self.safety = ['SAFE']
    self.overflowtags = ['C09']
    self.frametags = []
    self.frame = None
    self.allowed = set()
    self.oldheap = {}
    self.entryenv = {}
    self.exits = 0
    self.start()
    if f is None or not f.blocks:
        self.fail('missing', 'function %s is not in the package' % name, [])
        return
    st = State()
    st.top = z3.Const('top0', I)
    st.entrytop = st.top
    self.nullst = None
    self.assume(st, st.top > self.nglob + 10)
    # the error variables of the package are created by errors.New
    for g, v in sorted(self.gval.items()):
        if not isinstance(v, Slice):
            self.assume(st, self.dt(v) == 5)
    # so are the contents of the slices that package variables are initialised with
    for g, (et, cs) in sorted(self.gslices.items()):
        if len(T.flat(et)) == 1 and len(cs) <= 16:
            a = self.sel(st, self.memarr(st.heap, et)[0], z3.IntVal(g))
            for j, x in enumerate(cs):
                self.assume(st, z3.Select(a, z3.IntVal(j)) == (self.const(x) if x is not None else self.zero(et)))
    args, env = [], {}
    pn = c.params or [p['n'] for p in f.d['params'] or []]
    for j, p in enumerate(f.d['params'] or []):
        v = T.pack(p['t'], [z3.Const('p!%s%s' % (p['n'], s.replace('#', '_')), so) for s, so in T.flat(p['t'])])
        if pn[j] in c.inside:
            v = self.insideof(st, T, p, *c.inside[pn[j]])
        for x in T.unpack(p['t'], v):
            self.markparam(st, p['t'], x)
        args.append(v)
        env[pn[j]] = (v, p['t'])
        self.noinvp = {x.split(':', 1)[1] for x in c.flags if x.startswith('noinv:')}
        if pn[j] in self.noinvp:
            T0 = self.spec.invs
            self.spec.invs = {}
            self.typefacts(st, p['t'], v)
            self.spec.invs = T0
            st.memo[('inv', T.sname(T.elem(p['t'])), v.get_id())] = True
        else:
            self.typefacts(st, p['t'], v)
    binds = []
    for j, p in enumerate(f.d['freevars'] or []):
        # captured variables are cells
        et = T.elem(p['t'])
        cell = ('fv', name, j)
        v = T.pack(et, [z3.Const('fv!%d%s' % (j, s.replace('#', '_')), so) for s, so in T.flat(et)])
        st.cells[cell] = v
        self.celltypes[cell], self.cellnames[cell] = et, p['n']
        self.typefacts(st, et, v)
        binds.append(CellPtr(cell, et))
        env[p['n']] = (v, et)
    # what is stored in memory existed before the call
    for j, p in enumerate(f.d['params'] or []):
        if T.k(p['t']) == 'slice' and isinstance(args[j], Slice) and T.k(T.elem(p['t'])) == 'slice':
            et = T.elem(p['t'])
            q = z3.FreshConst(I, 'q')
            for (sx, so), a in zip(T.flat(et), self.memarr(st.heap, et)):
                x = z3.Select(self.sel(st, a, args[j].base), q)
                if sx == '#b':
                    self.assume(st, z3.ForAll([q], x <= st.entrytop, patterns=[x]))
                elif sx == '#l':
                    self.assume(st, z3.ForAll([q], x >= 0, patterns=[x]))
    # methods with pointer receivers are called on non-nil receivers unless the contract says otherwise
    if f.d['name'].startswith('(*') and 'nullable' not in c.flags and args:
        self.assume(st, args[0] != 0)
    self.entryenv = env
    self.curc = c
    try:
        for g, (gs, init) in self.spec.ghosts.items():
            if init is not None:
                pass
        ev = Ev(self, st, env)
        for n, (cf, sf) in c.inside.items():
            self.keepterm(env[n][0])
        for cl in c.requires:
            self.assume(st, ev.bool(cl.e))
        self.allowed = {x.split(':', 1)[1] for x in c.flags if x.startswith('locks:')}
        if 'anylocks' in c.flags:
            self.allowed = set(self.spec.locks) | set(self.spec.onces)
        conds = []
        for e in c.effects:
            if e.kind in ('holds', 'rholds', 'releases'):
                if e.when is not None:
                    conds.append(e)
                    continue
                self.holdentry(st, e, ev)
        for n, e in c.lets:
            env[n] = ev.ev(e)
        for cl in c.ensures:
            if cl.kind == 'defs':
                self.assume(st, ev.bool(cl.e))
        self.frame = {}
        for src, e in c.modifies:
            for n, idx, so in self.locs(st, e, env):
                a = True if idx is None or idx is True else idx
                if src in c.modwhen:
                    if a is True:
                        raise SpecError('conditional modifies of ' + src)
                    a = (idx, ev.bool(c.modwhen[src]))
                self.frame.setdefault(n, []).append(a)
        if 'noframe' in c.flags:
            self.frame = None
        if self.solver.check() == z3.unsat:
            self.fail('vacuous', 'the precondition of %s is contradictory' % name, [])
            return
        self.oldheap = dict(st.heap)
        fr = Frame(f, args, binds, lambda s, res: self.atexit(s, c, f, env, res), None)
        self.fr0 = fr

        def splits(s, cs):
            if not cs:
                fr1 = Frame(f, args, binds, fr.k, None)
                return self.run(s, fr1, 0)
            g = Ev(self, s, env).bool(cs[0][0])
            if len(cs[0]) > 1:
                # one of them
                gs = [Ev(self, s, env).bool(x) for x in cs[0]]
                self.oblig(s, 'cases', '', [], 'one of the cases holds', z3.Or(gs))
                s.pc.pop()
                for cond in gs:
                    def go(a, cond=cond):
                        self.assume(a, cond)
                        splits(a, cs[1:])
                    self.under(s, None, go)
                return
            if self.hasquant(g):
                b = self.freshc(B, 'case')
                for cond in (True, False):
                    def go(a, cond=cond):
                        self.assume(a, g if cond else z3.Not(g))
                        splits(a, cs[1:])
                    self.under(s, b if cond else z3.Not(b), go)
                return
            self.branch(s, g, lambda a: splits(a.copy(), cs[1:]), lambda a: splits(a.copy(), cs[1:]))

        def enter(s, es):
            if not es and c.cases:
                return splits(s, c.cases)
            if not es:
                fr1 = Frame(f, args, binds, fr.k, None)
                return self.run(s, fr1, 0)
            e, rest = es[0], es[1:]

            def yes(a):
                a = a.copy()
                ev = Ev(self, a, env)
                self.holdentry(a, e, ev)
                enter(a, rest)
            self.branch(s, Ev(self, s, env).bool(e.when), yes, lambda a: enter(a.copy(), rest))
        enter(st, conds)
        if self.exits == 0 and 'goroutine' not in c.flags:
            self.fail('vacuous', 'no path of %s reaches its end' % name, [])
    except Unsupported as x:
        self.fail('unsupported', 'outside the verified subset: %s' % x, [])
    except SpecError as x:
        self.fail('spec', 'contract of %s: %s' % (name, x), [])
    self.times[name] = time.time() - t0


def m_markparam(self, st, t, x):
    T = self.T
    st.memo[('param', x.get_id())] = True
    self.keepterm(x)
    k = T.k(t)
    if k in ('map', 'chan') or k == 'ptr' and (T.k(T.elem(t)) != 'struct' or T.sname(T.elem(t)) not in self.embedded):
        st.memo[('ptop', x.get_id())] = True


def m_insideof(self, st, T, p, cf, sf):
    """the parameter is the field sf of the object its own field cf points to"""
    st_ = T.elem(p['t'])
    ft = [f['t'] for f in T.fields(st_) if f['n'] == cf][0]
    o = z3.Const('p!%s_%s' % (p['n'], cf), I)
    self.markparam(st, ft, o)
    self.typefacts(st, ft, o)
    self.assume(st, o != 0)
    r = self.subref(st, T.sname(T.elem(ft)), sf, o)
    name = T.sname(st_) + '.' + cf
    arr = self.hget({}, name, z3.ArraySort(I, I))
    self.base[name] = z3.Store(arr, r, o)
    return r


def m_holdentry(self, st, e, ev):
    o = self.refof(st, ev.ev(e.e[2][0])[0])
    cls = e.e[1]
    h = Held(cls, o, 'w' if e.kind != 'rholds' else 'r', None, entry=True)
    h.snap = dict(st.heap)
    st.held.append(h)
    L = self.spec.locks.get(cls)


def m_atexit(self, st, c, f, env, res):
    self.endpath()
    if self.mode != 'run':
        return
    self.exits += 1
    T = self.T
    env = dict(env)
    rn = c.results or f.d['sig']['rnames'] or []
    for j, (v, t) in enumerate(zip(res, f.d['sig']['results'])):
        n = rn[j] if j < len(rn) and rn[j] else ''
        if n and n not in env:
            env[n] = (v, t)
        env['result' if len(res) == 1 else 'r%d' % j] = (v, t)
        self.publish(st, v, t, '', 'return')
    st.trace = st.trace + ('return',)
    for g, e, src in c.ghosts:
        sc = st.sections[-1] if st.sections else (None,) * 4
        v, _ = Ev(self, st, env, old=self.oldheap, acq=sc[2], rel=sc[3]).ev(e)
        for n, idx, so in self.locs(st, g, env):
            if idx is None:
                st.heap[n] = v
            else:
                self.writeheap(st, n, idx, v, so)
    ev = Ev(self, st, env, old=self.oldheap)
    last = st.sections[-1] if st.sections else None
    if last:
        ev.acq, ev.rel = last[2], last[3]
    # lemmas: used when they can be proved
    for cl in c.lemmas:
        g = ev.bool(cl.e)
        if self.prove(st, g)[0]:
            self.assume(st, g)
    for cl in c.ensures:
        if cl.kind in ('assumes', 'defs'):
            continue
        if not self.relevant(cl.tags):
            continue
        try:
            self.oblig(st, 'ensures', cl.label, cl.tags, cl.src, ev.bool(cl.e), f.d['pos'])
        except SpecError as x:
            self.fail('ensures', '%s: %s' % (cl.label or cl.src, x), cl.tags, f.d['pos'])
    self.sections(st, c, f, env)
    # thread local ghosts that are not listed are unchanged
    for g in self.spec.ghosts:
        n = 'tl:' + g
        if n in st.heap and n not in (self.frame or {n: 1}):
            a, b = st.heap[n], self.oldheap.get(n, self.base.get(n))
            if b is not None and not a.eq(b):
                self.oblig(st, 'modifies', g, self.frametags + list(self.spec.ghosttags.get(g, [])), g + ' is unchanged', a == b)
    # locks
    want = []
    for e in c.effects:
        o = None
        if e.kind in ('holds', 'rholds', 'acquires', 'retires') and e.e[0] == 'call':
            wh = self.oldheap if e.kind in ('holds', 'rholds') else None
            o = self.refof(st, Ev(self, st, env, old=self.oldheap).ev(e.e[2][0])[0])
            want.append((e.kind, e.e[1], o, Ev(self, st, env, heap=wh, old=self.oldheap).bool(e.when) if e.when is not None else None, e))
    held = list(st.held)
    for kind, cls, o, when, e in want:
        m = [h for h in held if h.cls == cls and (h.ref.eq(o) or self.prove(st, h.ref == o, full=False)[0])]
        if when is None:
            if not m and kind != 'retires':
                self.oblig(st, 'lock', '%s held at return' % cls, e.tags or ['C05'], e.src, z3.BoolVal(False))
            elif not m:
                self.oblig(st, 'lock', '%s held at return' % cls, e.tags or ['C04'], e.src, z3.BoolVal(False))
            else:
                self.oblig(st, 'lock', '%s held at return' % cls, e.tags or ['C05'], e.src, z3.BoolVal(True))
        else:
            self.oblig(st, 'lock', '%s held at return when %s' % (cls, 'stated'), e.tags or ['C05'], e.src, when if m else z3.Not(when))
        if m:
            held.remove(m[0])
    self.oblig(st, 'lock', 'no lock left behind', ['C05'], 'locks held at return: ' + 'none but those stated', z3.BoolVal(not held), ', '.join(h.cls for h in held))
    self.reachable = True
