"""Symbolic execution of the SSA of one function against its contract."""
import z3, time, sys
from core import *
from spec import SpecError, Contract, Clause, split_top
from specev import Ev, gsort

sys.setrecursionlimit(200000)
z3.set_param('smt.random_seed', 0)

_sof = z3.Function('sof', BYTES, I, I, S)
_chclosed = z3.Function('chclosed', I, B)
_dt = z3.Function('dt', I, I)
_ctxdone = z3.Function('ctxdone', I, B)
_held = {}


class Held:
    __slots__ = ('cls', 'ref', 'mode', 'snap', 'entry', 'retired', 'kind')

    def __init__(self, cls, ref, mode, snap, entry=False, kind=None):
        self.cls, self.ref, self.mode, self.snap, self.entry, self.kind = cls, ref, mode, snap, entry, kind
        self.retired = False


class State:
    def __init__(self):
        self.heap, self.cells, self.held, self.pc = {}, {}, [], []
        self.fresh = []          # (ref, type name)
        self.top = None
        self.entrytop = None
        self.loops = ()          # active loops: (frame id, header, handler)
        self.defers = {}
        self.memo = {}
        self.sections = []       # (cls, ref, acq heap, rel heap)
        self.detached = []
        self.pub = []
        self.pools = []
        self.trace = ()
        self.retired = []

    def copy(self):
        s = State()
        s.heap, s.cells, s.held, s.pc = dict(self.heap), dict(self.cells), list(self.held), list(self.pc)
        s.fresh, s.top, s.entrytop, s.loops = list(self.fresh), self.top, self.entrytop, self.loops
        s.defers = {k: list(v) for k, v in self.defers.items()}
        s.memo, s.sections, s.detached, s.pub = dict(self.memo), list(self.sections), list(self.detached), list(self.pub)
        s.pools, s.trace, s.retired = [dict(p) for p in self.pools], self.trace, list(self.retired)
        return s


class Frame:
    n = 0

    def __init__(self, fn, args, binds, k, parent=None):
        Frame.n += 1
        self.id, self.fn, self.k, self.parent = Frame.n, fn, k, parent
        self.regs = {}
        for p, a in zip(fn.d['params'] or [], args):
            self.regs[p['n']] = a
        for p, a in zip(fn.d['freevars'] or [], binds):
            self.regs['fv:' + p['n']] = a
            self.regs[p['n']] = a
        self.args = args
        self.fvals = binds
        self.depth = parent.depth + 1 if parent else 0


class Fn:
    def __init__(self, name, d):
        self.name, self.d = name, d
        self.blocks = d['blocks'] or []
        self.loops = self.findloops()
        # free variables are positional; names may repeat
        self.fvidx = {}

    def findloops(self):
        n = len(self.blocks)
        succ = [b['succ'] or [] for b in self.blocks]
        pred = [b['pred'] or [] for b in self.blocks]
        if not n:
            return {}
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in range(1, n):
                ps = [dom[p] for p in pred[b]]
                x = set.intersection(*ps) if ps else set()
                x = x | {b}
                if x != dom[b]:
                    dom[b], ch = x, True
        loops = {}
        for b in range(n):
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += pred[x]
        self.dom = dom
        return loops


class Obl:
    __slots__ = ('fn', 'kind', 'label', 'tags', 'ok', 'n', 'time', 'pos', 'msg', 'backend', 'src')

    def __init__(self, fn, kind, label, tags, src, pos):
        self.fn, self.kind, self.label, self.tags, self.src, self.pos = fn, kind, label, tags, src, pos
        self.ok, self.n, self.time, self.msg, self.backend = True, 0, 0.0, '', {}

    def key(self):
        return '%s: %s%s' % (self.fn, self.kind, (' ' + self.label) if self.label else '')


import os
DEBUG = int(os.environ.get('GOVDEBUG', '0'))


INCR = 1500000      # resource limit of the quick queries; deterministic, unlike a time limit
RL = 6000           # resource units per millisecond of the nominal time limits


class Stop(Exception):
    pass


class Engine:
    MAXPATHS = 6000
    hintto = 5000
    light = False

    def __init__(self, dump, spec, props=None, log=None):
        self.dump, self.spec = dump, spec
        self.T = Types(dump)
        self.fns = {n: Fn(n, d) for n, d in dump['funcs'].items()}
        self.props = props           # None: everything
        self.methods = {m['n']: m['methods'] for m in dump['named']}
        self.base = {}
        self.prov = {}
        self.keep = []
        self.clos = {}
        self.tags = {}
        self.tagnums = {}
        self.times = {}
        self.embedded = set()
        for t in dump['types']:
            if t['k'] == 'struct':
                for f in t['f'] or []:
                    if self.T.k(f['t']) == 'struct' and not self.T.is_extern_struct(f['t']):
                        self.embedded.add(self.T.sname(f['t']))
        self.ast = State()
        self.ast.top = z3.Const('topA', I)
        self.ast.entrytop = self.ast.top
        self.frametags = []
        self.start()
        self.globals = {g['n']: self.T.elem(g['t']) for g in dump['globals']}
        self.extglobals = {'io.EOF': None}
        self.obls = {}
        self.mode = 'run'
        self.loghook = log
        self.paths = 0
        self.stats = dict(queries=0, time=0.0, feas=0, feastime=0.0)
        self.errors = []
        self.boundfacts = []
        self.timeout = 10000
        self.externs_used = set()
        self.contracts_used = set()
        self.inlined = set()
        self.initglobals()
        import externs
        self.ext = externs.EXT

    # ---------------------------------------------------------------- globals
    def initglobals(self):
        self.gval = {}
        self.bvints = {}
        n = 1
        errt = self.T.byname.get('error')
        for g in sorted(self.globals):
            t = self.globals[g]
            if self.T.s(t) == 'error':
                self.gval[g] = z3.IntVal(n)
                n += 1
        if errt is not None:
            self.extglobals = {'io.EOF': errt, 'io.ErrUnexpectedEOF': errt, 'context.Canceled': errt, 'context.DeadlineExceeded': errt, 'net.ErrClosed': errt}
            for g in self.extglobals:
                self.gval[g] = z3.IntVal(n)
                n += 1
        self.nglob = n
        # contents of literal slices
        self.gfacts = []
        init = self.fns.get('init')
        arr, conts = {}, {}
        self.gslices = {}
        for b in init.blocks if init else []:
            for i in b['instrs']:
                if i['op'] == 'alloc' and self.T.k(self.T.elem(i['t'])) == 'array':
                    arr[i['r']] = (self.T.elem(i['t']), {})
                elif i['op'] == 'indexaddr' and i['x'].get('n') in arr and i['y']['k'] == 'const':
                    conts[i['r']] = (i['x']['n'], int(i['y']['v']['int']))
                elif i['op'] == 'store' and i['a'].get('n') in conts and i['x']['k'] == 'const':
                    a, ix = conts[i['a']['n']]
                    arr[a][1][ix] = i['x']
                elif i['op'] == 'slice' and i['x'].get('n') in arr:
                    arr[i['r']] = arr[i['x']['n']]
                elif i['op'] == 'store' and i['a']['k'] == 'global' and i['x'].get('n') in arr:
                    t, c = arr[i['x']['n']]
                    base = z3.IntVal(n)
                    n += 1
                    N = self.T.d(t)['n']
                    et = self.T.elem(t)
                    self.gval[i['a']['n']] = Slice(base, z3.IntVal(0), z3.IntVal(N), z3.IntVal(N))
                    self.gslices[n - 1] = (et, [c.get(j) for j in range(N)])
        self.nglob = n + 1

    def loadglobal(self, st, n, t, heap=None):
        if n in self.gval:
            return self.gval[n]
        return self.T.pack(t, [z3.Const('g!%s%s' % (n, s), so) for s, so in self.T.flat(t)])

    def isfatal(self, v):
        return z3.And(v != 0, self.dt(v) == self.tag(self.T.id('*FatalError')))

    # ---------------------------------------------------------------- basics
    def bitsum(self, v):
        return bitsum(v)

    def dt(self, v):
        return _dt(v)

    def chclosed(self, v):
        return _chclosed(v)

    def ctxdone(self, v):
        return _ctxdone(v)

    def sof(self, a, o, l):
        return _sof(a, o, l)

    def tag(self, t):
        n = self.T.canon(t)
        if n not in self.tagnums:
            self.tagnums[n] = 10 + sorted({self.T.canon(x) for x in range(len(self.T.T))}).index(n)
        return z3.IntVal(self.tagnums[n])

    def keepterm(self, t):
        self.keep.append(t)
        return t

    def hget(self, heap, name, sort):
        v = heap.get(name)
        if v is None:
            v = self.base.get(name)
            if v is None:
                v = z3.Const(name + '@0', sort)
                self.base[name] = v
        return v

    def freshc(self, sort, name='v'):
        return z3.FreshConst(sort, name)

    def distinct(self, st, a, b):
        if z3.is_int_value(a) and z3.is_int_value(b):
            return a.as_long() != b.as_long()
        fa = st.memo.get(('alloc', a.get_id()))
        fb = st.memo.get(('alloc', b.get_id()))
        if fa and fb:
            return not a.eq(b)
        if ('neq', a.get_id(), b.get_id()) in st.memo or fa and self.entryterm(b) or fb and self.entryterm(a):
            return True
        if fa and ('old', b.get_id(), fa) in st.memo:
            return True
        if fb and ('old', a.get_id(), fb) in st.memo:
            return True
        if (fa and (z3.is_int_value(b) or ('param', b.get_id()) in st.memo)) or (fb and (z3.is_int_value(a) or ('param', a.get_id()) in st.memo)):
            return True
        if z3.is_app(a) and z3.is_app(b):
            na, nb = a.decl().name(), b.decl().name()
            sa, sb = na.startswith('sub!'), nb.startswith('sub!')
            if sa and sb and na != nb:
                return True
            if sa and sb and self.distinct(st, a.arg(0), b.arg(0)):
                return True
            if (sa and (fb or ('ptop', b.get_id()) in st.memo)) or (sb and (fa or ('ptop', a.get_id()) in st.memo)):
                return True
        return False

    def sel(self, st, arr, idx):
        """select, looking through stores"""
        a = arr
        for _ in range(400):
            if st is not None and z3.is_app(a) and a.num_args() == 0:
                d = st.memo.get(('lamdef', a.get_id()))
                if d is not None:
                    a = d
                    if z3.is_store(d):
                        continue
                    break
            if not z3.is_app(a) or a.decl().kind() != z3.Z3_OP_STORE:
                break
            i = a.arg(1)
            if i.eq(idx):
                return a.arg(2)
            if z3.is_int_value(i) and z3.is_int_value(idx):
                a = a.arg(0)
                continue
            if st is not None and i.sort() == I and self.distinct(st, i, idx):
                a = a.arg(0)
                continue
            if i.sort() == I and a.sort().range() == BV8:
                d = z3.simplify(i - idx)
                if z3.is_int_value(d):
                    if d.as_long() == 0:
                        return a.arg(2)
                    a = a.arg(0)
                    continue
            break
        if z3.is_quantifier(a) and a.is_lambda():
            return z3.simplify(z3.substitute_vars(a.body(), idx))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        return z3.Select(a, idx)

    def subref(self, st, tn, fn, ref):
        key = ('sub', tn, fn, ref.get_id())
        if key in st.memo:
            return st.memo[key]
        f = z3.Function('sub!%s.%s' % (tn, fn), I, I)
        r = f(ref)
        inv = z3.Function('sinv', I, I)
        kind = z3.Function('skind', I, I)
        kid = self.tags.setdefault(('sk', tn, fn), len(self.tags) + 1)
        st.memo[key] = r
        self.keepterm(r)
        self.keepterm(ref)
        if st is not self.nullst:
            self.assume(st, z3.And(inv(r) == ref, kind(r) == kid, r < 0))
        return r

    nullst = None

    def refof(self, st, v):
        if isinstance(v, FieldPtr):
            return self.subref(st, v.tn, v.fn, v.ref)
        if isinstance(v, (Closure, FuncV)):
            return self.intern(st, v)
        if isinstance(v, Slice):
            return v.base
        if z3.is_expr(v):
            return v
        raise Unsupported('reference of %r' % (v,))

    def intern(self, st, v):
        key = ('clos', v.fn if isinstance(v, Closure) else v.name, tuple(id(x) for x in (v.binds if isinstance(v, Closure) else ())))
        if key not in self.tags:
            c = z3.FreshConst(I, 'fn')
            self.tags[key] = c
            self.keepterm(v)
            self.clos[c.get_id()] = v
        c = self.tags[key]
        if ('cl', c.get_id()) not in st.memo:
            st.memo[('cl', c.get_id())] = True
            self.assume(st, c > 0)
        return c

    # ---------------------------------------------------------------- heap
    def loadfield(self, st, heap, sn, f, ref, t, instr=False):
        terms = []
        fst = st if heap is st.heap else None
        for s, so in self.T.flat(t):
            arr = self.hget(heap, sn + '.' + f + s, z3.ArraySort(I, so))
            terms.append(self.sel(st, arr, ref))
        for x in terms:
            self.setprov(x, sn + '.' + f, ref)
        return self.T.pack(t, terms)

    def setprov(self, x, field, ref):
        if z3.is_expr(x) and x.get_id() not in self.prov and not z3.is_int_value(x):
            self.prov[x.get_id()] = (field, ref)
            self.keepterm(x)

    def memname(self, et):
        if self.T.isuint8(et):
            return 'mem:uint8'
        return 'mem:' + self.T.canon(self.T.u(et) if self.T.k(et) == 'basic' else et)

    def memarr(self, heap, et):
        n = self.memname(et)
        return [self.hget(heap, n + s, z3.ArraySort(I, z3.ArraySort(I, so))) for s, so in self.T.flat(et)]

    def loadelem(self, st, heap, et, base, idx):
        terms = []
        idx = z3.simplify(idx)
        for a in self.memarr(heap, et):
            terms.append(self.sel(st, self.sel(st, a, base), idx))
        p = self.prov.get(base.get_id())
        if p:
            for x in terms:
                self.setprov(x, p[0] + '[]', p[1])
        return self.T.pack(et, terms)

    def writeheap(self, st, name, idx, val, sort):
        arr = self.hget(st.heap, name, z3.ArraySort(I, sort))
        st.heap[name] = mkstore(arr, idx, val)

    def mapname(self, t):
        return 'map:' + self.T.canon(self.T.u(t))

    def mapdomarr(self, heap, t):
        return self.hget(heap, self.mapname(t) + '#dom', z3.ArraySort(I, z3.ArraySort(self.keysort(t), B)))

    def keysort(self, t):
        so = self.T.sort(self.T.d(t)['key'])
        return so

    def mapvalarr(self, heap, t):
        return [self.hget(heap, self.mapname(t) + '#val' + s, z3.ArraySort(I, z3.ArraySort(self.keysort(t), so))) for s, so in self.T.flat(self.T.d(t)['e'])]

    def mapdom(self, heap, t, m, k):
        return self.sel(None, self.sel(None, self.mapdomarr(heap, t), m), k)

    def mapval(self, heap, t, m, k):
        return self.T.pack(self.T.d(t)['e'], [self.sel(None, self.sel(None, a, m), k) for a in self.mapvalarr(heap, t)])

    def maplen(self, heap, t, m):
        f = z3.Function('card!' + str(self.keysort(t)), z3.ArraySort(self.keysort(t), B), I)
        return f(self.sel(None, self.mapdomarr(heap, t), m))

    def zero(self, t):
        out = []
        for s, so in self.T.flat(t):
            out.append(self.zerosort(so))
        return self.T.pack(t, out)

    def zerosort(self, so):
        if so == I:
            return z3.IntVal(0)
        if so == B:
            return z3.BoolVal(False)
        if so == S:
            return z3.StringVal('')
        if z3.is_bv_sort(so):
            return z3.BitVecVal(0, so.size())
        return z3.K(so.domain(), self.zerosort(so.range()))

    def freshval(self, st, t, name='v'):
        v = self.T.pack(t, [self.freshc(so, name + s.replace('#', '_')) for s, so in self.T.flat(t)])
        self.typefacts(st, t, v)
        return v

    def typefacts(self, st, t, v):
        T = self.T
        k = T.k(t)
        key = None
        if z3.is_expr(v):
            key = ('tf', v.get_id(), st.top.get_id() if st.top is not None else 0)
        elif isinstance(v, Slice):
            key = ('tf', tuple(x.get_id() for x in v))
        if key is not None:
            if key in st.memo:
                return
            st.memo[key] = True
            self.keepterm(v)
        if k in ('ptr', 'map', 'chan', 'iface') and z3.is_expr(v):
            if z3.is_int_value(v):
                return
            if st.top is not None and ('alloc', v.get_id()) not in st.memo:
                self.assume(st, v <= (st.entrytop if self.entryterm(v) else st.top))
            if k == 'ptr':
                if T.k(T.elem(t)) == 'struct':
                    st.memo[('seen', T.sname(T.elem(t)))] = st.memo.get(('seen', T.sname(T.elem(t))), ()) + (v,)
                    if T.sname(T.elem(t)) not in self.embedded:
                        self.assume(st, v >= 0)
            elif k != 'iface':
                self.assume(st, v >= 0)
            self.assumeinv(st, t, v)
        elif k == 'slice' and isinstance(v, Slice):
            fs = [v.len >= 0, v.cap >= v.len, v.off >= 0, z3.Implies(v.base == 0, v.cap == 0), v.off + v.cap <= 2 ** 62]
            if st.top is not None:
                fs.append(v.base <= (st.entrytop if self.entryterm(v.base) else st.top))
            fs = [f for f in (z3.simplify(f) for f in fs) if not z3.is_true(f)]
            if fs:
                self.assume(st, z3.And(fs) if len(fs) > 1 else fs[0])
        elif k == 'basic' and T.sort(t) == I and z3.is_expr(v) and T.d(t)['name'] in SINT and not z3.is_int_value(v):
            self.assume(st, z3.And(v >= -2 ** 63, v < 2 ** 63))
        elif k == 'basic' and T.sort(t) == S and z3.is_expr(v) and not z3.is_string_value(v):
            self.assume(st, z3.And(strlen(v) >= 0, strlen(v) < 2 ** 62, (strlen(v) == 0) == (v == z3.StringVal(''))))
        elif k == 'struct' and isinstance(v, StructV):
            for f in T.fields(t):
                self.typefacts(st, f['t'], v.f[f['n']])

    def entryterm(self, v):
        """read from the heap as it was at entry: it points to something that existed then"""
        if not z3.is_select(v):
            return False
        a = v.arg(0)
        if z3.is_select(a):
            a = a.arg(0)
        return z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name().endswith('@0')

    def assumeinv(self, st, t, v):
        """type invariant of the object v points to"""
        T = self.T
        k = T.k(t)
        if k == 'iface':
            # invariants of interface values are declared for the interface type
            sn = T.sname(t)
        elif k == 'ptr':
            if T.k(T.elem(t)) != 'struct':
                return
            sn = T.sname(T.elem(t))
        else:
            return
        if sn not in self.spec.invs:
            return
        if not z3.is_expr(v) or ('alloc', v.get_id()) in st.memo:
            return
        key = ('inv', sn, v.get_id())
        if key in st.memo:
            return
        st.memo[key] = True
        self.keepterm(v)
        var, cls = self.spec.invs[sn]
        st.memo[('inva', v.get_id())] = True
        # objects under construction do not satisfy it yet
        guard = [v != 0] + [v != r for r, n in st.fresh if n == sn and ('pub', r.get_id()) not in st.memo]
        ev = Ev(self, st, {var: (v, t)}, heap=st.heap)
        ev.inq = True      # not the invariants of what the invariant mentions
        for c in cls:
            f = ev.bool(c.e)
            self.assume(st, z3.Implies(z3.And(guard), f))

    # ---------------------------------------------------------------- solver
    def start(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.solver.set('rlimit', INCR)
        self.depth = 0

    def hasquant(self, f):
        key = f.get_id()
        c = self._hq.get(key)
        if c is None:
            todo, seen = [f], set()
            c = False
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    if not x.is_lambda():
                        c = True
                        break
                    todo.append(x.body())
                    continue
                todo += x.children()
            self._hq[key] = c
            self.keepterm(f)
        return c

    _hq = {}

    def noteneq(self, st, f, d=0):
        """remember which pointers are known to differ"""
        if z3.is_and(f) and d < 3:
            for x in f.children():
                self.noteneq(st, x, d + 1)
        elif z3.is_distinct(f) and f.num_args() == 2 or z3.is_not(f) and z3.is_eq(f.arg(0)):
            g = f.arg(0) if z3.is_not(f) else f
            a, b = g.arg(0), g.arg(1)
            if a.sort() == I and not z3.is_int_value(a) and not z3.is_int_value(b):
                st.memo[('neq', a.get_id(), b.get_id())] = True
                st.memo[('neq', b.get_id(), a.get_id())] = True
                self.keepterm(a)
                self.keepterm(b)

    def assume(self, st, f):
        if z3.is_true(f):
            return
        self.noteneq(st, f)
        if self.hasquant(f):
            g = self.expand(f)
            if g is not None:
                for x in g:
                    if not z3.is_true(x):
                        st.pc.append(x)
                        self.solver.add(x)
                return
        st.pc.append(f)
        if not self.hasquant(f):
            self.solver.add(f)

    def expand(self, f):
        """the instances of a quantified fact about a small, constant number of integers"""
        c = []
        while z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES:
            c.append(f.arg(0))
            f = f.arg(1)
        if not (z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == I):
            return None
        b = f.body()
        if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_IMPLIES) or self.hasquant(b):
            return None
        lo = hi = None
        for x in (b.arg(0).children() if z3.is_and(b.arg(0)) else [b.arg(0)]):
            if z3.is_le(x) and z3.is_var(x.arg(1)):
                lo = x.arg(0)
            elif z3.is_lt(x) and z3.is_var(x.arg(0)):
                hi = x.arg(1)
            elif z3.is_ge(x) and z3.is_var(x.arg(0)):
                lo = x.arg(1)
            elif z3.is_gt(x) and z3.is_var(x.arg(1)):
                hi = x.arg(0)
        if lo is None or hi is None:
            return None
        d = z3.simplify(hi - lo)
        if not z3.is_int_value(d) or d.as_long() > 16:
            return None
        out = []
        for j in range(d.as_long()):
            g = z3.substitute_vars(b, z3.simplify(lo + j))
            out.append(z3.simplify(z3.Implies(z3.And(c), g) if c else g))
        return out

    def feasible(self, f=None):
        t = time.time()
        self.stats['feas'] += 1
        if f is not None:
            self.solver.push()
            self.solver.add(f)
        r = self.solver.check()
        if f is not None:
            self.solver.pop()
        self.stats['feastime'] += time.time() - t
        return r != z3.unsat

    def branch(self, st, cond, kt, kf):
        """explore both sides of a condition; kt, kf take a state"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return kt(st)
        if z3.is_false(cond):
            return kf(st)
        for c, k in ((cond, kt), (z3.Not(cond), kf)):
            if k is None:
                continue
            self.solver.push()
            self.solver.add(c)
            if self.solver.check() != z3.unsat:
                s = st.copy()
                s.pc.append(c)
                k(s)
            self.solver.pop()

    def under(self, st, cond, k):
        """explore under an assumption"""
        self.solver.push()
        s = st.copy()
        if cond is not None:
            self.assume(s, cond)
        if cond is None or self.solver.check() != z3.unsat:
            k(s)
        self.solver.pop()

    def relevant(self, tags):
        return self.props is None or not tags or bool(set(tags) & self.props)

    def prove(self, st, goal, timeout=None, full=True):
        """is goal implied by the path condition"""
        goal = z3.simplify(goal) if not self.hasquant(goal) else goal
        if z3.is_true(goal):
            return True, 'simplify', None
        t0 = time.time()
        self.stats['queries'] += 1
        try:
            if not self.hasquant(goal):
                self.solver.push()
                self.solver.add(z3.Not(goal))
                r = self.solver.check()
                self.solver.pop()
                if r == z3.unsat:
                    return True, 'z3', None
            if not full:
                return False, '', None
            if self.mode == 'run':
                cs = self.conjuncts(goal)
                if len(cs) > 1:
                    last = None
                    for c in cs:
                        r = self.prove(st, c, timeout, full)
                        if not r[0]:
                            return r
                    return True, 'z3', None
            self.sweep(st, goal)
            return self.provefull(st, goal, timeout or self.timeout)
        finally:
            self.stats['time'] += time.time() - t0

    def chainidx(self, f):
        """indices of the longest chain of stores read at the bound variable of a quantified formula"""
        best, todo, seen = [], [f.body()], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_select(x) and z3.is_var(x.arg(1)):
                out, a = [], x.arg(0)
                while z3.is_store(a):
                    out.append(a.arg(1))
                    a = a.arg(0)
                if len(out) > len(best):
                    best = out
            todo += x.children()
        return best

    def provefull(self, st, goal, timeout):
        last, m = None, None
        if z3.is_quantifier(goal) and goal.is_forall() and goal.num_vars() == 1 and goal.var_sort(0) == I:
            idx = self.chainidx(goal)
            if len(idx) >= 6:
                # one case per element written, one for all the others
                s = z3.Solver()
                s.set('timeout', 8 * timeout)
                s.set('rlimit', RL * timeout)
                for f in self.axioms(st) + st.pc:
                    s.add(f)
                j = z3.FreshConst(I, 'j')
                cases = [(z3.BoolVal(True), ix) for ix in idx] + [(z3.And([j != ix for ix in idx]), j)]
                for cond, ix in cases:
                    b = z3.substitute_vars(goal.body(), ix)
                    b = z3.simplify(b) if ix is not j else b
                    if ix is j:
                        # the stores cannot be what is read
                        b = self.dropstores(b, j, idx)
                    if z3.is_true(b):
                        continue
                    s.push()
                    s.add(cond, z3.Not(b))
                    r = s.check()
                    if r != z3.unsat:
                        try:
                            return False, '', ((str(r), s.reason_unknown() if r == z3.unknown else ''), s.model())
                        except z3.Z3Exception:
                            return False, '', ((str(r), s.reason_unknown()), None)
                    s.pop()
                return True, 'z3', None
        nq = not self.hasquant(goal)
        quant = not nq or any(self.hasquant(f) for f in st.pc)
        sat = 0
        # negative seeds: -1 no quantifiers, -2 plain, -3 to -5 instantiation by triggers only
        for seed, to in ((-1, 1500), (-3, 2000), (-4, 1500), (-2, 1500), (0, min(2500, timeout)), (-5, timeout), (7, min(2500, timeout)), (3, timeout), (11, timeout)):
            if seed == -1 and not nq or seed in (-3, -4, -5) and not quant or self.light and seed not in (-1, -3, -4, -5):
                continue
            if self.light:
                to = 2000
            if sat >= 2 and (seed not in (0, 7) or self.mode != 'run' and seed == 7):
                # nothing more to instantiate
                continue
            if seed == -1:
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
            elif seed < 0:
                s = z3.SimpleSolver()
            else:
                s = z3.Solver()
            if sat >= 2 and self.mode != 'run':
                to = 700
            s.set('timeout', 8 * to)
            s.set('rlimit', RL * to)
            if seed >= 0:
                s.set('random_seed', seed)
            if seed in (7, 11, -3, -5):
                s.set('smt.arith.solver', 2)
            if seed in (-3, -4, -5):
                s.set('mbqi', False)
            if seed in (-4,):
                s.set('auto_config', False)
            if seed == -5:
                s.set('random_seed', 5)
            for f in self.axioms(st):
                s.add(f)
            for f in st.pc:
                if seed != -1 or not self.hasquant(f):
                    s.add(f)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return True, 'z3', None
            if seed in (-3, -4, -5) and r == z3.unknown:
                if 'incomplete' in s.reason_unknown():
                    sat += 1
                continue
            last = (str(r), s.reason_unknown() if r == z3.unknown else '')
            try:
                m = s.model()
            except Exception:
                m = None
            if self.mode != 'run' and seed > 0 or r == z3.sat and seed != -1 or sat >= 2 and seed == 7:
                break
        if self.mode == 'run' and getattr(self, 'dumpdir', None):
            open('%s/%d.smt2' % (self.dumpdir, self.stats['queries']), 'w').write(s.to_smt2())
        return False, '', (last, m)

    def conjuncts(self, g):
        if z3.is_and(g):
            return [y for x in g.children() for y in self.conjuncts(x)]
        if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES:
            cs = self.conjuncts(g.arg(1))
            return [z3.Implies(g.arg(0), c) for c in cs] if len(cs) > 1 else [g]
        return [g]

    def sweep(self, st, goal):
        """bytes the goal reads that are equal in a model: those that must be are added as lemmas"""
        if self.hasquant(goal):
            return False
        terms, todo, seen = [], [goal], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_select(x) and x.sort() == BV8:
                terms.append(x)
            elif z3.is_app(x):
                todo += x.children()
        if len(terms) >= 6:
            # what the branches taken say about single bytes and words
            todo = []
            for f in st.pc:
                g = f.arg(0) if z3.is_not(f) else f
                if z3.is_app(g) and g.num_args() == 2 and (
                        z3.is_bv(g.arg(0)) and not any(z3.is_select(x) for x in g.children()) or z3.is_le(g) or z3.is_ge(g) or z3.is_lt(g) or z3.is_gt(g)):
                    todo.append(g)
            while todo:
                x = todo.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if z3.is_select(x) and x.sort() == BV8:
                    terms.append(x)
                    continue
                todo += x.children()
        if len(terms) < 6 or len(terms) > 120 or len({t.arg(0).get_id() for t in terms}) < 2:
            return False
        qf = [f for f in st.pc if not self.hasquant(f)]

        def fresh(*fs):
            sv = z3.Solver()
            sv.set('timeout', 4000)
            sv.set('rlimit', 4 * INCR)
            sv.add(*qf)
            sv.add(*fs)
            return sv
        if self.mode == 'run' and getattr(self, 'dbgsweep', None):
            print('sweep', len(terms))
        sv = fresh()
        if sv.check() != z3.sat:
            return False
        terms.sort(key=lambda t: str(t.arg(0))[:200])
        m = sv.model()
        cl, found = {}, False
        for t in terms:
            reps = cl.setdefault(str(m.eval(t, model_completion=True)), [])
            for rep in reps:
                if fresh(rep != t).check() == z3.unsat:
                    st.pc.append(rep == t)
                    qf.append(rep == t)
                    self.solver.add(rep == t)
                    found = True
                    break
            else:
                reps.append(t)
        return found

    def dropstores(self, b, j, idx):
        ids = {i.get_id() for i in idx}
        subs, todo, seen = [], [b], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_select(x) and x.arg(1).eq(j):
                a = x.arg(0)
                while z3.is_store(a) and a.arg(1).get_id() in ids:
                    a = a.arg(0)
                subs.append((x, z3.Select(a, j)))
            todo += x.children()
        return z3.substitute(b, subs) if subs else b

    def axioms(self, st):
        if not hasattr(self, '_ax'):
            dummy = self.ast
            self._ax = []
            for c in self.spec.axioms:
                self._ax.append(Ev(self, dummy, {}, heap={}).bool(c.e))
        return self._ax

    def oblig(self, st, kind, label, tags, src, goal, pos=''):
        """prove and record an obligation, then assume it"""
        if self.mode != 'run':
            if self.mode == 'quiet':
                pass
            self.assume(st, goal)
            return
        if not self.relevant(tags):
            self.assume(st, goal)
            return
        key = (self.cur, kind, label, src)
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = Obl(self.cur, kind, label, list(tags), src, pos)
        o.n += 1
        if not o.ok and o.msg:
            # already failed: do not spend time on it again
            self.assume(st, goal)
            return
        t0 = time.time()
        ok, be, info = self.prove(st, goal)
        o.time += time.time() - t0
        if ok:
            o.backend[be] = o.backend.get(be, 0) + 1
        else:
            o.ok = False
            o.pos = pos or o.pos
            o.msg = self.explain(st, goal, info)
        if not z3.is_false(z3.simplify(goal)):
            self.assume(st, goal)

    def fail(self, kind, msg, tags=(), pos='', label=''):
        if self.mode != 'run':
            return
        key = (self.cur, kind, label or msg, msg)
        if key not in self.obls:
            o = self.obls[key] = Obl(self.cur, kind, label or msg, list(tags), msg, pos)
            o.ok, o.n, o.msg = False, 1, msg

    def explain(self, st, goal, info):
        out = []
        if info:
            (r, why), m = info
            out.append('solver: %s %s' % (r, why))
            if m is not None:
                try:
                    ds = [d for d in m.decls() if d.arity() == 0 and d.range().kind() != z3.Z3_ARRAY_SORT]
                    vals = ['%s=%s' % (d.name(), m[d]) for d in ds if not d.name().startswith(('k!', 'elem', 'z!'))]
                    out.append('model: ' + ', '.join(sorted(vals)[:60])[:1500])
                except Exception as e:
                    out.append('model: %s' % e)
        out.append('path: ' + ' > '.join(st.trace[-25:]))
        return '\n'.join(out)

    # ---------------------------------------------------------------- values of operands
    def const(self, v):
        T, t = self.T, v['t']
        x = v['v']
        k = T.k(t)
        if v['nil'] or x is None:
            return self.zero(t)
        if k == 'basic':
            so = T.sort(t)
            if isinstance(x, bool):
                return z3.BoolVal(x)
            if isinstance(x, str):
                return z3.StringVal(x)
            if isinstance(x, dict):
                if 'int' in x:
                    n = int(x['int'])
                else:
                    from fractions import Fraction
                    n = int(Fraction(x['num']))
                if z3.is_bv_sort(so):
                    return z3.BitVecVal(n, so.size())
                return z3.IntVal(n)
        raise Unsupported('constant %r of %s' % (x, T.s(t)))

    def val(self, fr, v):
        if v is None:
            return None
        k = v['k']
        if k == 'reg':
            return fr.regs[v['n']]
        if k == 'const':
            return self.const(v)
        if k == 'func':
            return FuncV(v['f'])
        if k == 'global':
            return GlobalPtr(v['n'], self.T.elem(v['t']))
        if k == 'builtin':
            return Opaque('builtin:' + v['n'])
        raise Unsupported('operand ' + k)

    # ---------------------------------------------------------------- memory access by instructions
    def classof(self, sn, f):
        return self.spec.fields.get(sn + '.' + f)

    def guardcheck(self, st, sn, f, ref, write, pos):
        c = self.classof(sn, f)
        if not c or self.isfresh(st, ref):
            return
        cls, info, tags = c
        if cls == 'guarded':
            m = info.strip()
            # LOCK(expr over self)
            name, _, rest = m.partition('(')
            from spec import parse_expr
            e = parse_expr(rest.rstrip(')') or 'self')
            try:
                owner, _ = Ev(self, st, {'self': (ref, self.T.id('*' + sn))}).ev(e)
                owner = self.refof(st, owner)
            except SpecError as x:
                raise Unsupported(str(x))
            g = self.heldpred(st, name, owner, not write)
            self.oblig(st, 'access', '%s of %s.%s under its lock' % ('write' if write else 'read', sn, f), tags or ['C24'], 'held(%s)' % name, g, pos)
        elif cls == 'atomic':
            self.fail('access', 'plain access of %s.%s' % (sn, f), tags or ['C24'], pos)

    def isfresh(self, st, ref):
        for r, n in st.fresh:
            if r.eq(ref):
                return True
        if z3.is_app(ref) and ref.decl().name().startswith('sub!'):
            return self.isfresh(st, ref.arg(0))
        return False

    def framecheck(self, st, name, idx, pos, what):
        """a write must be to a fresh object, to an object in modifies, or to a location guarded by a lock acquired here"""
        if self.mode != 'run' or self.frame is None:
            return
        if self.isfresh(st, idx):
            return
        al = self.frame.get(name, [])
        for a in al:
            if a is True or not isinstance(a, tuple) and a.eq(idx):
                return
        gs = []
        for h in st.held:
            if not h.entry and name in self.guardnames(h.cls):
                L = self.spec.locks.get(h.cls) or self.spec.onces.get(h.cls)
                for g in L['guards']:
                    for n, x, so in self.locs(st, g, {'self': self.lockself(L, h.ref)}):
                        if n == name:
                            if x is True or x.eq(idx):
                                return
                            gs.append(x)
        if (name, idx.get_id()) in st.memo.get('detachedmaps', ()):
            return
        cs = [z3.And(idx == a[0], a[1]) if isinstance(a, tuple) else idx == a for a in al] + [idx == x for x in gs] + [idx > st.entrytop]
        self.oblig(st, 'modifies', what, self.frametags, 'only what modifies lists is changed', z3.Or(cs) if len(cs) > 1 else cs[0], pos)

    def guardnames(self, cls):
        if not hasattr(self, '_gn'):
            self._gn = {}
        if cls not in self._gn:
            out = set()
            L = self.spec.locks.get(cls) or self.spec.onces.get(cls)
            if L:
                for g in L['guards']:
                    for n, idx, so in self.locs(self.ast, g, {'self': self.lockself(L)}):
                        out.add(n)
            self._gn[cls] = out
        return self._gn[cls]

    def lockself(self, L, ref=None):
        if L.get('kind') == 'mu':
            tn = 'Conn'
        elif L.get('kind') == 'token':
            tn = L['field']
        else:
            tn = L['field'].rsplit('.', 1)[0]
        if ref is None:
            ref = z3.Const('self!', I)
        return (ref, self.T.id('*' + tn))

    def locs(self, st, e, env, heap=None):
        """locations denoted by a modifies/guards item: list of (heap name, index, sort)"""
        from spec import parse_expr
        if isinstance(e, str):
            e = parse_expr(e)
        T = self.T
        ev = Ev(self, st, env, heap=heap)
        if e[0] == 'id' and e[1] in self.spec.ghosts:
            return [('tl:' + e[1], None, gsort(self.spec.ghosts[e[1]][0]))]
        if e[0] == 'call' and e[1] == 'mem':
            v, t = ev.ev(e[2][0])
            if isinstance(v, FieldPtr):
                et, base = T.elem(v.t), self.refof(st, v)
            elif isinstance(v, Slice):
                et, base = T.elem(t), v.base
            else:
                raise SpecError('mem of %r' % (e,))
            return [(self.memname(et) + s, base, z3.ArraySort(I, so)) for s, so in T.flat(et)]
        if e[0] == 'call' and e[1] == 'membase':
            v, t = ev.ev(e[2][0])
            return [('mem:uint8', v, BYTES)]
        if e[0] == 'call' and e[1] == 'map':
            v, t = ev.ev(e[2][0])
            n = self.mapname(t)
            return [(n + '#dom', v, z3.ArraySort(self.keysort(t), B))] + [(n + '#val' + s, v, z3.ArraySort(self.keysort(t), so)) for s, so in T.flat(T.d(t)['e'])]
        if e[0] == 'call' and e[1] == 'cell':
            raise SpecError('cell')
        if e[0] == 'call' and e[1] == 'all':
            v, t = ev.ev(e[2][0])
            return self.allfields(st, v, t)
        if e[0] == 'call' and e[1] == 'any':   # any("T.f"): the field of every object
            n = e[2][0][1]
            tn, f = n.rsplit('.', 1)
            if n in self.spec.ghostfields:
                return [(n, True, gsort(self.spec.ghostfields[n][0]))]
            fd = T.field(T.id(tn), f)
            return [(n + s, True, so) for s, so in T.flat(fd['t'])]
        if e[0] == 'field':
            v, t = ev.ev(e[1])
            return self.fieldlocs(st, v, t, e[2])
        raise SpecError('not a location: %r' % (e,))

    def fieldlocs(self, st, v, t, f):
        T = self.T
        stt = T.elem(t) if T.k(t) == 'ptr' else t
        sn = T.sname(stt)
        if sn + '.' + f in self.spec.ghostfields:
            return [(sn + '.' + f, self.refof(st, v), gsort(self.spec.ghostfields[sn + '.' + f][0]))]
        fd = T.field(stt, f) if T.k(stt) == 'struct' else None
        if fd is None:
            ev = Ev(self, st, {'x': (v, t)})
            for g in (T.fields(stt) if T.k(stt) == 'struct' else []):
                if g['emb']:
                    iv, it = ev.field(v, t, g['n'])
                    try:
                        return self.fieldlocs(st, iv, it, f)
                    except SpecError:
                        pass
            raise SpecError('no field %s in %s' % (f, sn))
        ref = self.refof(st, v)
        if T.k(fd['t']) == 'struct' and not T.is_extern_struct(fd['t']):
            return self.allfields(st, FieldPtr(sn, f, ref, fd['t']), fd['t'])
        if T.k(fd['t']) == 'array':
            et = T.elem(fd['t'])
            return [(self.memname(et) + s, self.subref(st, sn, f, ref), z3.ArraySort(I, so)) for s, so in T.flat(et)]
        return [(sn + '.' + f + s, ref, so) for s, so in T.flat(fd['t'])]

    def allfields(self, st, v, t):
        T = self.T
        stt = T.elem(t) if T.k(t) == 'ptr' else t
        sn = T.sname(stt)
        out = []
        for f in T.fields(stt):
            out += self.fieldlocs(st, v, t, f['n'])
        for g, (gs, fl) in self.spec.ghostfields.items():
            if g.rsplit('.', 1)[0] == sn:
                out.append((g, self.refof(st, v), gsort(gs)))
        return out

    def havoc(self, st, locs, pre='h'):
        for n, idx, so in locs:
            if idx is None:
                st.heap[n] = self.freshc(so, pre)
            elif idx is True:
                st.heap[n] = self.freshc(z3.ArraySort(I, so), pre)
            else:
                arr = self.hget(st.heap, n, z3.ArraySort(I, so))
                st.heap[n] = mkstore(arr, idx, self.freshc(so, pre))

    def load(self, st, p, t, pos=''):
        """t: type of the loaded value"""
        T = self.T
        if isinstance(p, CellPtr):
            return st.cells[p.id]
        if isinstance(p, GlobalPtr):
            return self.loadglobal(st, p.n, t)
        if isinstance(p, FieldPtr):
            if T.k(t) == 'array' or (T.k(t) == 'struct' and not T.is_extern_struct(t)):
                return self.load(st, self.refof(st, p), t, pos)
            self.guardcheck(st, p.tn, p.fn, p.ref, False, pos)
            v = self.loadfield(st, st.heap, p.tn, p.fn, p.ref, p.t)
            self.typefacts(st, t, v)
            if T.k(t) == 'map' and z3.is_expr(v):
                st.memo[('mapprov', v.get_id())] = (p.tn, p.fn, p.ref)
            return v
        if isinstance(p, ElemPtr):
            v = self.loadelem(st, st.heap, p.t, p.base, p.idx)
            self.typefacts(st, t, v)
            return v
        if z3.is_expr(p):
            if T.k(t) == 'struct':
                self.oblig(st, 'nil', 'pointer is not nil', self.safety, 'no nil dereference', p != 0, pos)
                sn = T.sname(t)
                out = {}
                for f in T.fields(t):
                    if T.k(f['t']) in ('struct', 'array') and not T.is_extern_struct(f['t']):
                        out[f['n']] = self.load(st, self.subref(st, sn, f['n'], p), f['t'], pos)
                    else:
                        self.guardcheck(st, sn, f['n'], p, False, pos)
                        out[f['n']] = self.loadfield(st, st.heap, sn, f['n'], p, f['t'])
                v = StructV(t, out)
                self.typefacts(st, t, v)
                return v
            if T.k(t) == 'array':
                et = T.elem(t)
                return ArrV({s: self.sel(st, a, p) for (s, _), a in zip(T.flat(et), self.memarr(st.heap, et))}, T.d(t)['n'], et)
        raise Unsupported('load through %r' % (p,))

    def store(self, st, p, t, v, pos=''):
        T = self.T
        if isinstance(v, (Closure, FuncV)) and not isinstance(p, CellPtr):
            v = self.intern(st, v)
        if isinstance(v, FieldPtr) and not isinstance(p, CellPtr):
            v = self.refof(st, v)
        if isinstance(p, CellPtr):
            st.cells[p.id] = v
            return
        if isinstance(p, GlobalPtr):
            self.fail('global', 'store to the package variable %s' % p.n, (), pos)
            return
        if isinstance(p, FieldPtr):
            if T.k(t) == 'array' or (T.k(t) == 'struct' and not T.is_extern_struct(t)):
                return self.store(st, self.refof(st, p), t, v, pos)
            self.guardcheck(st, p.tn, p.fn, p.ref, True, pos)
            for (s, so), x in zip(T.flat(t), T.unpack(t, v)):
                n = p.tn + '.' + p.fn + s
                if s in ('', '#b'):
                    self.framecheck(st, n, p.ref, pos, '%s.%s' % (p.tn, p.fn))
                self.writeheap(st, n, p.ref, x, so)
            self.doonstore(st, p.tn, p.fn, '', p.ref, v, t)
            return
        if isinstance(p, ElemPtr):
            for (s, so), x in zip(T.flat(p.t), T.unpack(p.t, v)):
                n = self.memname(p.t) + s
                if s in ('', '#b'):
                    self.framecheck(st, n, p.base, pos, 'elements of []' + T.s(p.t))
                arr = self.hget(st.heap, n, z3.ArraySort(I, z3.ArraySort(I, so)))
                st.heap[n] = z3.Store(arr, p.base, z3.Store(self.sel(st, arr, p.base), z3.simplify(p.idx), x))
            return
        if z3.is_expr(p):
            if T.k(t) == 'struct':
                self.oblig(st, 'nil', 'pointer is not nil', self.safety, 'no nil dereference', p != 0, pos)
                sn = T.sname(t)
                for f in T.fields(t):
                    self.store(st, FieldPtr(sn, f['n'], p, f['t']), f['t'], v.f[f['n']], pos)
                return
            if T.k(t) == 'array':
                et = T.elem(t)
                for (s, so) in T.flat(et):
                    n = self.memname(et) + s
                    self.framecheck(st, n, p, pos, 'elements of an array of ' + T.s(et))
                    arr = self.hget(st.heap, n, z3.ArraySort(I, z3.ArraySort(I, so)))
                    st.heap[n] = mkstore(arr, p, v.arr[s])
                return
        raise Unsupported('store through %r' % (p,))

    def alloc(self, st, what):
        r = self.freshc(I, 'new_' + what)
        self.assume(st, r > st.top)
        self.nalloc += 1
        st.memo[('alloc', r.get_id())] = self.nalloc
        self.keepterm(r)
        st.top = r
        st.fresh.append((r, what))
        return r

    # ---------------------------------------------------------------- locks
    def heldpred(self, st, cls, ref, read=False):
        """is the lock held (for writing, unless read)"""
        f = z3.Function('entryheld!' + cls, I, B)
        cs = [f(ref)]
        for h in st.held:
            if h.cls == cls and (read or h.mode == 'w'):
                if h.ref.eq(ref):
                    return z3.BoolVal(True)
                cs.append(h.ref == ref)
        return z3.Or(cs) if len(cs) > 1 else cs[0]

    def rank(self, cls):
        L = self.spec.locks.get(cls) or self.spec.onces.get(cls)
        return L['rank'] if L else 99

    def acquire(self, st, cls, ref, mode='w', pos='', chk=True):
        L = self.spec.locks[cls]
        if chk:
            self.lockorder(st, cls, ref, pos)
        env = {'self': self.lockself(L, ref)}
        for g in L['guards']:
            ls = []
            for n, idx, so in self.locs(st, g, env):
                tn = n.rsplit('.', 1)[0]
                if idx is not None and idx is not True and tn in self.T.byname:
                    idx = self.canon(st, idx, tn)
                ls.append((n, idx, so))
            self.havoc(st, ls, 'acq')
        # pointers read from guarded fields
        h = Held(cls, ref, mode, None)
        st.held.append(h)
        top = self.freshc(I, 'top')
        self.assume(st, top >= st.top)
        st.top = top
        for n, idx, so in [x for g in L['guards'] for x in self.locs(st, g, env)]:
            if '#val' in n and idx is not None and idx is not True and so == z3.ArraySort(I, I):
                val = self.sel(st, self.hget(st.heap, n, z3.ArraySort(I, so)), idx)
                q = z3.FreshConst(I, 'q')
                self.assume(st, z3.ForAll([q], z3.Select(val, q) <= top, patterns=[z3.Select(val, q)]))
        ev = Ev(self, st, env)
        for c in L['invs']:
            self.assume(st, ev.bool(c.e))
        h.snap = dict(st.heap)

    def lockorder(self, st, cls, ref, pos):
        r = self.rank(cls)
        for h in st.held:
            if self.rank(h.cls) >= r:
                self.fail('lock order', '%s acquired while %s is held' % (cls, h.cls), ['C05', 'C25', 'C27'], pos)
        for a in self.allowed:
            if self.rank(a) >= r:
                self.fail('lock order', '%s acquired while the caller may hold %s' % (cls, a), ['C05', 'C25', 'C27'], pos)

    def release(self, st, cls, ref, pos='', mode=None):
        for i in range(len(st.held) - 1, -1, -1):
            h = st.held[i]
            if h.cls == cls and (h.ref.eq(ref) or self.prove(st, h.ref == ref, full=False)[0]):
                break
        else:
            self.fail('lock', 'release of %s, which is not held' % cls, ['C24', 'C05', 'C04'], pos)
            return
        if mode and mode != h.mode:
            self.fail('lock', '%s released in another mode than acquired' % cls, ['C24', 'C05'], pos)
        L = self.spec.locks[cls]
        env = {'self': self.lockself(L, ref)}
        if h.mode == 'w':
            ev = Ev(self, st, env)
            for c in L['invs']:
                self.oblig(st, 'lock invariant', '%s %s' % (cls, c.label), c.tags, c.src, ev.bool(c.e), pos)
        del st.held[i]
        st.sections.append((cls, ref, h.snap, dict(st.heap), h.entry))
        self.atomics(st, cls, ref, h, pos)
        # maps taken out of the guarded structure belong to this goroutine from now on
        st.memo['detachedmaps'] = st.memo.get('detachedmaps', ()) + tuple(self.detach(st, L, env, h))

    def detach(self, st, L, env, h):
        out = []
        for k, v in list(st.memo.items()):
            if isinstance(k, tuple) and k[0] == 'mapprov':
                tn, fn, ref = v
                cls = self.classof(tn, fn)
                if not cls or not cls[1].startswith(L['name'] + '('):
                    continue
                cur = self.sel(st, self.hget(st.heap, tn + '.' + fn, z3.ArraySort(I, I)), ref)
                if cur.get_id() == k[1]:
                    continue
                mt = [x for x in self.keep if z3.is_expr(x) and x.get_id() == k[1]]
                if mt and self.prove(st, z3.Or(mt[0] == 0, cur != mt[0]), full=False)[0]:
                    st.memo[('detached', k[1])] = True
                    for nm in self.guardnames(L['name']):
                        out.append((nm, k[1]))
        return out

    def doonstore(self, st, tn, fn, suf, ref, v, t, key=None, kt=None):
        T = self.T
        if isinstance(v, FieldPtr):
            v = self.refof(st, v)
        if v is not None and not z3.is_expr(v) and not isinstance(v, Slice):
            return
        for sv, a, b, loc, ex in self.spec.onstore.get(tn + '.' + fn + suf, ()):
            env = {sv: (ref, T.id('*' + tn)), a: (key, kt) if b else (v, t)}
            if b:
                env[b] = (v, t)
            x, _ = Ev(self, st, env).ev(ex)
            for n, idx, so in self.locs(st, loc, env):
                if idx is None:
                    st.heap[n] = x
                else:
                    self.writeheap(st, n, idx, x, so)

    def effect(self, st, loc, ex, env):
        x, _ = Ev(self, st, env).ev(ex)
        for n, idx, so in self.locs(st, loc, env):
            if idx is None:
                st.heap[n] = x
            else:
                self.writeheap(st, n, idx, x, so)

    def otherwise(self, st, ch):
        """the default branch of a select was taken: the operation on ch was not possible"""
        kind, f, ref = self.chanclass(st, ch)
        if kind == 'ctx':
            for sv, loc, ex in self.spec.otherwise.get('ctx', ()):
                self.effect(st, loc, ex, {sv: (ref, self.T.id('int'))})
        if kind == 'field':
            for sv, loc, ex in self.spec.otherwise.get(f, ()):
                self.effect(st, loc, ex, {sv: (ref, self.T.id('*' + f.rsplit('.', 1)[0]))})

    def sections(self, st, c, f, env):
        for cl in c.sectionc:
            if not self.relevant(cl.tags):
                continue
            try:
                ev = Ev(self, st, env, old=self.oldheap)
                cond = ev.bool(cl.when) if cl.when is not None else None
                o = self.refof(st, Ev(self, st, env, heap=self.oldheap, old=self.oldheap).ev(cl.info[1])[0])
                sec = [x for x in st.sections if x[0] == cl.info[0] and (x[1].eq(o) or self.prove(st, x[1] == o, full=False)[0])]
                if not sec:
                    g = z3.BoolVal(False)
                else:
                    ev.acq, ev.rel = sec[-1][2], sec[-1][3]
                    g = ev.bool(cl.e)
                if cond is not None:
                    g = z3.Implies(cond, g)
                self.oblig(st, 'section', cl.label, cl.tags, cl.src, g, f.d['pos'])
            except SpecError as x:
                self.fail('section', '%s: %s' % (cl.label or cl.src, x), cl.tags, f.d['pos'])

    def atomics(self, st, cls, ref, h, pos):
        c = self.curcontract
        if c is None or self.mode != 'run':
            return
        for a in c.atomics:
            if a.info[0] != cls:
                continue
            env = self.rootenv(st)
            ev = Ev(self, st, env, old=self.oldheap, acq=h.snap, rel=dict(st.heap))
            try:
                o = self.refof(st, ev.ev(a.info[1])[0])
                g = z3.Implies(o == ref, ev.bool(a.e))
                self.oblig(st, 'atomic', a.label, a.tags, a.src, g, pos)
            except SpecError as x:
                self.fail('atomic', str(x), a.tags, pos)

    def canon(self, st, v, tn):
        """an older term known to be the same pointer"""
        key = ('canon', tn, v.get_id())
        if key in st.memo:
            return st.memo[key]
        r = v
        for p in st.memo.get(('seen', tn), ())[:6]:
            if p.eq(v) or self.prove(st, p == v, full=False)[0]:
                r = p
                break
        st.memo[key] = r
        self.keepterm(v)
        return r

    def mukind(self, st, m):
        """class and connection of a channel lock: which of its connection's locks it is"""
        T = self.T
        conn = self.canon(st, self.loadfield(st, st.heap, 'mu', 'conn', m, T.id('*Conn')), 'Conn')
        self.typefacts(st, T.id('*Conn'), conn)
        last = self.prov.get(m.get_id(), ('', None))[0].rsplit('.', 1)[-1]
        ls = [x for x in self.spec.locks.items() if x[1]['kind'] == 'mu']
        ls.sort(key=lambda x: x[1]['field'] != last)
        for full in (False, True):
            for name, L in ls:
                if 1:
                    p, _ = Ev(self, st, {'self': (conn, T.id('*Conn'))}).ev(L['path'])
                    if p.eq(m) or self.prove(st, p == m, full=full)[0]:
                        return name, conn
        return None, conn

    # ---------------------------------------------------------------- running
    def run(self, st, fr, bi, ii=0):
        blk = fr.fn.blocks[bi]
        ins = blk['instrs']
        while ii < len(ins):
            i = ins[ii]
            op = i['op']
            if op == 'phi' or op == 'debugref':
                ii += 1
                continue
            if op == 'jump':
                return self.jump(st, fr, bi, blk['succ'][0])
            if op == 'if':
                c = self.val(fr, i['x'])
                t, f = blk['succ']
                p = i.get('p') or ''
                cond = i['x'].get('n', '')

                def kt(s, t=t):
                    s.trace = s.trace + ('%s:%d' % (fr.fn.name, t),)
                    self.jump(s, fr, bi, t)

                def kf(s, f=f):
                    s.trace = s.trace + ('%s:%d' % (fr.fn.name, f),)
                    self.jump(s, fr, bi, f)
                return self.branch(st, c, kt, kf)
            if op == 'return':
                res = [self.val(fr, x) for x in i['xs']]
                return self.ret(st, fr, res, i.get('p', ''))
            if op == 'panic':
                return self.panic(st, fr, i)
            if op == 'slice' or op == 'unop' and i['o'] != '<-':
                box = []
                getattr(self, 'op_' + op)(st, fr, i, lambda s, v: box.append(v))
                fr.regs[i['r']] = box[0]
                ii += 1
                continue
            if op in ('call', 'select', 'rundefers', 'send', 'unop', 'slice', 'next', 'go', 'typeassert', 'defer'):
                nxt = ii + 1

                def k(s, v, i=i, nxt=nxt):
                    if 'r' in i and v is not None:
                        fr.regs[i['r']] = v
                    self.run(s, fr, bi, nxt)
                r = getattr(self, 'op_' + op)(st, fr, i, k)
                if r is NotImplemented:
                    ii += 1
                    continue
                return
            h = getattr(self, 'op_' + op, None)
            if h is None:
                raise Unsupported('instruction %s at %s' % (op, i.get('p')))
            v = h(st, fr, i)
            if 'r' in i:
                fr.regs[i['r']] = v
            ii += 1
        raise Unsupported('block without terminator')

    def panic(self, st, fr, i):
        c = self.curc if self.mode == 'run' else None
        g = z3.BoolVal(False)
        if c is not None and c.panics:
            ev = Ev(self, st, self.rootenv(st), old=self.oldheap)
            g = z3.Or([ev.bool(cl.e) for cl in c.panics])
        self.oblig(st, 'panic', 'panic is never reached', self.safety, 'no panic at ' + fr.fn.name, g, i.get('p', ''))
        self.endpath()

    def endpath(self):
        self.paths += 1
        if self.paths > self.MAXPATHS:
            raise Unsupported('more than %d paths' % self.MAXPATHS)

    def ret(self, st, fr, res, pos):
        st.loops = tuple(l for l in st.loops if l[0] != fr.id)
        if self.cut and any(c == fr.id for c in self.cut):
            return   # leaving a loop body under analysis
        st.defers.pop(fr.id, None)
        fr.k(st, res)

    def jump(self, st, fr, frm, to):
        # leave loops
        keep = []
        for l in st.loops:
            if l[0] == fr.id and to not in fr.fn.loops[l[1]]:
                if l[2] == 'cut':
                    return
                continue
            keep.append(l)
        st.loops = tuple(keep)
        blk = fr.fn.blocks[to]
        vals = {}
        for i in blk['instrs']:
            if i['op'] != 'phi':
                break
            e = i['e'][blk['pred'].index(frm)]
            vals[i['r']] = self.val(fr, e)
        if ('item',) in st.memo and to in fr.fn.loops and self.takes(fr, to):
            self.settle(st, '')
        for l in st.loops:
            if l[0] == fr.id and l[1] == to:
                return l[3](st, vals)
        if to in fr.fn.loops:
            return self.loop(st, fr, to, vals)
        fr.regs.update(vals)
        self.run(st, fr, to)

    # ---------------------------------------------------------------- loops
    def havocval(self, st, t, v, name):
        if isinstance(v, (Closure, FuncV, CellPtr, FieldPtr, GlobalPtr, MapIter, Opaque)):
            raise Unsupported('loop variable %s holding %r' % (name, type(v)))
        return self.freshval(st, t, name or 'phi')

    def storechain(self, start, end):
        """indices at which end differs from start, None if unknown"""
        out, a = [], end
        anc, b, pre = {}, start, []
        while True:
            anc[b.get_id()] = list(pre)
            if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE):
                break
            pre.append(b.arg(1))
            b = b.arg(0)
        for _ in range(4000):
            if a.get_id() in anc:
                return out + anc[a.get_id()]
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                out.append(a.arg(1))
                a = a.arg(0)
                continue
            return None
        return None

    def constants(self, t):
        seen, out, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                todo += x.children()
            elif z3.is_quantifier(x):
                todo.append(x.body())
        return out

    def loop(self, st, fr, h, init):
        fn = fr.fn
        phis = [i for i in fn.blocks[h]['instrs'] if i['op'] == 'phi']
        names = {i['r']: i.get('c') or i['r'] for i in phis}
        self.genericloop(st, fr.id, h,
                         vars={i['r']: (init[i['r']], i['t'], names[i['r']]) for i in phis},
                         body=lambda s, vs: (fr.regs.update(vs), self.run(s, fr, h)),
                         fr=fr, conds=self.headconds(fr, h))

    def headconds(self, fr, h):
        """names of registers compared in the conditions that leave the loop"""
        out = []
        body = fr.fn.loops[h]
        for b in body:
            blk = fr.fn.blocks[b]
            if not blk['instrs']:
                continue
            l = blk['instrs'][-1]
            if l['op'] == 'if' and any(s not in body for s in blk['succ']) and l['x']['k'] == 'reg':
                out.append(l['x']['n'])
        res = []
        for b in body:
            for i in fr.fn.blocks[b]['instrs']:
                if i.get('r') in out and i['op'] == 'binop' and i['o'] in ('<', '<=', '>', '>=', '!='):
                    res.append(i)
        return res

    def genericloop(self, st, fid, h, vars, body, fr, conds=(), extra=None, hintenv=None):
        """vars: name -> (initial value, type, source name); body(state, values) runs one iteration and
        ends in the loop handler (back edge) or leaves the loop"""
        savedmode, savedcut = self.mode, self.cut
        entry = st
        mods = {}      # heap name -> set of indices (by id) or True
        modterms = {}
        cellmods = set()
        hvars = set()  # loop variables that change
        hbase = set()  # slices whose base changes
        topm = [False]

        def mkstate(inv):
            s = entry.copy()
            before = set()
            vs = {}
            for n, (v, t, c) in vars.items():
                if n in hvars:
                    vs[n] = self.havocval(s, t, v, c)
                    if isinstance(v, Slice) and n not in hbase:
                        vs[n] = vs[n]._replace(base=v.base)
                        self.typefacts(s, t, vs[n])
                else:
                    vs[n] = v
            for n, m in sorted(mods.items()):
                cur = s.heap.get(n, self.base.get(n))
                if n not in self.base and n not in s.heap:
                    continue
                if n.startswith('tl:') or m is True:
                    s.heap[n] = self.freshc(cur.sort(), 'lp')
                else:
                    a = cur
                    for ix in modterms[n]:
                        a = z3.Store(a, ix, self.freshc(cur.sort().range(), 'lp'))
                    s.heap[n] = a
            for c in cellmods:
                v, t = s.cells[c], self.celltypes[c]
                s.cells[c] = self.freshc(v.sort(), 'visited') if isinstance(t, tuple) else self.havocval(s, t, v, 'cell')
            if topm[0]:
                tp = self.freshc(I, 'top')
                self.assume(s, tp >= s.top)
                s.top = tp
            self.loopvars = None
            return s, vs

        def runbody(s, vs, handler, cut):
            s2 = s
            kind = 'cut' if cut else 'run'
            s2.loops = s2.loops + ((fid, h, kind, handler),)
            if cut:
                self.cut = self.cut + (fid,)
            try:
                body(s2, dict(vs))
            finally:
                if cut:
                    self.cut = self.cut[:-1]

        # 1. what does the body change
        for rnd in range(6):
            self.mode = 'discover'
            self.solver.push()
            ctr = self.marker()
            s, vs = mkstate(None)
            heap0, cells0, top0 = dict(s.heap), dict(s.cells), s.top
            grew = [False]

            def disc(s2, vals):
                for n, v in vals.items():
                    if n in vars and n not in hvars and not self.samevalue(v, vs[n]):
                        hvars.add(n)
                        grew[0] = True
                    if n in vars and isinstance(v, Slice) and n not in hbase and not v.base.eq(vs[n].base):
                        hbase.add(n)
                        hvars.add(n)
                        grew[0] = True
                if not s2.top.eq(top0) and not topm[0]:
                    topm[0] = True
                    grew[0] = True
                for n, a in s2.heap.items():
                    b = heap0.get(n)
                    if b is None:
                        if n not in self.base:
                            self.base[n] = z3.Const(n + '@0', a.sort())
                        b = self.base[n]
                    if a.eq(b) or mods.get(n) is True:
                        continue
                    if n.startswith('tl:') or not z3.is_array(a):
                        if n not in mods:
                            mods[n] = True
                            grew[0] = True
                        continue
                    ch = self.storechain(b, a)
                    if ch is None:
                        mods[n] = True
                        grew[0] = True
                        continue
                    cur = mods.setdefault(n, set())
                    for ix in ch:
                        if ix.get_id() in cur:
                            continue
                        if self.isfreshsince(s2, ix, s):
                            continue
                        if self.newer(ix, ctr):
                            mods[n] = True
                            grew[0] = True
                            break
                        cur.add(ix.get_id())
                        modterms.setdefault(n, []).append(ix)
                        self.keepterm(ix)
                        grew[0] = True
                for c, v in s2.cells.items():
                    if c in cells0 and c not in cellmods and not self.samevalue(v, cells0[c]):
                        cellmods.add(c)
                        grew[0] = True
                if [(x.cls, x.ref.get_id()) for x in s2.held] != [(x.cls, x.ref.get_id()) for x in s.held]:
                    self.mode = savedmode
                    self.fail('lock', 'locks held differ between loop iterations in ' + fr.fn.name, ['C05'])
                    self.mode = 'discover'
            try:
                runbody(s, vs, disc, True)
            finally:
                self.solver.pop()
                self.mode, self.cut = savedmode, savedcut
            # fresh objects created in the body: whole-name havoc for names written only at fresh refs is not needed
            if not grew[0]:
                break
        else:
            raise Unsupported('loop modset does not stabilise')

        if savedmode == 'discover':
            # inside the analysis of an outer loop: no invariants needed
            self.solver.push()
            s, vs = mkstate(None)
            runbody(s, vs, lambda s2, vals: None, False)
            self.solver.pop()
            return

        # 2. invariants
        cands = self.candidates(st, fr, vars, hvars, conds, extra, hintenv, cellmods, h)

        def evalc(c, s, vs):
            try:
                return c(s, vs)
            except (SpecError, KeyError, AttributeError, z3.Z3Exception, Unsupported, TypeError) as x:
                if DEBUG:
                    print('  no value', fr.fn.name, h, c.src, repr(x))
                return None
        initv = {n: v for n, (v, t, c) in vars.items()}
        live = []
        for c in cands:
            f = evalc(c, st, initv)
            if f is None:
                continue
            self.mode = 'quiet'
            ok = self.prove(st, f, timeout=self.hintto)[0]
            if DEBUG and not ok:
                print('  init fails', fr.fn.name, h, c.src)
            self.mode = savedmode
            if ok:
                live.append(c)
        while True:
            self.mode = 'houdini'
            self.solver.push()
            s, vs = mkstate(None)
            for c in live:
                f = evalc(c, s, vs)
                if f is not None:
                    self.assume(s, f)
            dropped = []

            def hou(s2, vals):
                vals = dict(vs, **vals)
                for c in list(live):
                    if c in dropped:
                        continue
                    f = evalc(c, s2, vals)
                    pr = None if f is None else self.prove(s2, f, timeout=self.hintto)
                    if f is None or not pr[0]:
                        if DEBUG:
                            print('  drop', fr.fn.name, h, c.src, None if f is None else pr[2] and pr[2][0], s2.trace[-8:])
                            if DEBUG > 1 and pr and pr[2] and pr[2][1] is not None:
                                print(str(pr[2][1])[:3000])
                        dropped.append(c)
            try:
                runbody(s, vs, hou, True)
            finally:
                self.solver.pop()
                self.mode, self.cut = savedmode, savedcut
            if not dropped:
                break
            live = [c for c in live if c not in dropped]
        # 3. the real pass
        self.solver.push()
        s, vs = mkstate(None)
        for c in live:
            f = evalc(c, s, vs)
            if f is not None:
                self.assume(s, f)
        headheap = dict(s.heap)
        headvs = dict(vs)
        if savedmode == 'run':
            self.loopinfo.append((fr.fn.name, h, len(cands), [getattr(c, 'src', '?') for c in live]))

        def back(s2, vals):
            self.endpath()
            if self.mode == 'run':
                self.steps(s2, fr, headheap, headvs, dict(vs, **vals), vars)
        runbody(s, vs, back, False)
        self.solver.pop()

    def steps(self, st, fr, headheap, headvs, vals, vars):
        c = self.curcontract
        if c is None:
            return
        for cl in c.steps:
            env = self.rootenv(st)
            henv = {}
            for n, (v, t, nm) in vars.items():
                env[nm] = (vals[n], t)
                henv[nm] = (headvs[n], t)
            ev = Ev(self, st, env, old=self.oldheap, head=headheap, headenv=henv, oldenv=self.entryenv)
            try:
                g = ev.bool(cl.e)
            except SpecError as x:
                continue
            self.oblig(st, 'step', cl.label, cl.tags, cl.src, g)

    def marker(self):
        return int(str(z3.FreshConst(I, 'mark')).split('!')[-1])

    def newer(self, t, ctr):
        for n in self.constants(t):
            if '!' in n:
                x = n.rsplit('!', 1)[-1]
                if x.isdigit() and int(x) > ctr and not n.startswith(('sub!', 'g!')):
                    return True
        return False

    def isfreshsince(self, s2, ix, s):
        """allocated during the body"""
        old = {r.get_id() for r, _ in s.fresh}
        for r, _ in s2.fresh:
            if r.get_id() not in old:
                if r.eq(ix) or (z3.is_app(ix) and ix.decl().name().startswith('sub!') and ix.arg(0).eq(r)):
                    return True
        return False

    def samevalue(self, a, b):
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        if isinstance(a, Slice) and isinstance(b, Slice):
            return all(x.eq(y) for x, y in zip(a, b))
        if isinstance(a, StructV) and isinstance(b, StructV):
            return all(self.samevalue(a.f[k], b.f[k]) for k in a.f)
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            return all(a.arr[k].eq(b.arr[k]) for k in a.arr)
        return a is b or (type(a) == type(b) and a == b)

    def candidates(self, st, fr, vars, hvars, conds, extra, hintenv, cellmods, h=None):
        T = self.T
        out = []
        cl = {}
        for n, (v, t, nm) in vars.items():
            if n not in hvars:
                continue
            k = T.k(t)
            if T.sort(t) == I and k == 'basic':
                out.append(('%s >= initial' % nm, lambda s, vs, n=n, v=v: vs[n] >= v))
            if k == 'slice':
                out.append(('%s.base' % nm, lambda s, vs, n=n, v=v: vs[n].base == v.base))
                out.append(('%s.end' % nm, lambda s, vs, n=n, v=v: vs[n].off + vs[n].len == v.off + v.len))
                out.append(('%s.cap' % nm, lambda s, vs, n=n, v=v: vs[n].off + vs[n].cap == v.off + v.cap))
                out.append(('%s.off' % nm, lambda s, vs, n=n, v=v: vs[n].off >= v.off))
                out.append(('%s.same' % nm, lambda s, vs, n=n, v=v: z3.And(vs[n].base == v.base, vs[n].off == v.off)))
                out.append(('%s.len' % nm, lambda s, vs, n=n, v=v: vs[n].len >= 0))
                out.append(('%s.fresh' % nm, lambda s, vs, n=n, v=v: vs[n].base > st.entrytop))
                out.append(('%s.nonnil' % nm, lambda s, vs, n=n, v=v: vs[n].base > 0))
        # bounds from the conditions that leave the loop: operands recomputed over the loop variables
        for i in conds:
            out.append(('cond ' + i['o'], lambda s, vs, i=i: self.boundcand(s, fr, i, vs, vars)))
            out.append(('cond- ' + i['o'], lambda s, vs, i=i: self.boundcand(s, fr, i, vs, vars, True)))
        for c in extra or []:
            out.append(c)
        for c in cellmods:
            if c in self.rangemaps:
                out.append(('visited', lambda s, vs, c=c: self.visitcand(s, c)))
        # hints
        seen = set()
        cs = []
        for nm in (fr.fn.name, self.cur, getattr(fr.parent, 'fn', fr.fn).name):
            c = self.spec.contracts.get(nm)
            if c and id(c) not in seen:
                seen.add(id(c))
                cs.append((nm, c))
        for nm, c in cs:
            for hcl in c.hints:
                wild = sorted(self.wildcards(hcl.e))
                import itertools
                pool = [n for n in vars if n in hvars]
                if wild and self.curcontract is not None and 'elements' in self.curcontract.flags and h in fr.fn.loops:
                    pool += self.outerslices(fr, h, vars)
                for combo in itertools.permutations(pool, len(wild)) if wild else [()]:
                    out.append((hcl.src, lambda s, vs, hcl=hcl, combo=combo, wild=wild: self.evalhint(s, fr, hcl, vs, vars, dict(zip(wild, combo)), hintenv, h)))
        res = []
        for name, f in out:
            class C:
                pass

            def g(s, vs, f=f):
                return f(s, vs)
            g.src = name
            res.append(g)
        return res

    def visitcand(self, s, c):
        m, t = self.rangemaps[c]
        dom = self.sel(s, self.mapdomarr(s.heap, t), m)
        k = z3.FreshConst(self.keysort(t), 'k')
        vis = s.cells[c]
        f = z3.Implies(z3.Select(vis, k), z3.And(m != 0, z3.Select(dom, k)))
        return z3.ForAll([k], f, patterns=[z3.Select(vis, k)]) if not self.isconst(vis) else z3.BoolVal(True)

    def wildcards(self, e):
        out = set()

        def rec(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'id' and isinstance(x[1], str) and x[1].startswith('?'):
                    out.add(x[1])
                for y in x:
                    rec(y)
            elif isinstance(x, list):
                for y in x:
                    rec(y)
        rec(e)
        return out

    def outerslices(self, fr, h, vars):
        """the slices this loop does not change"""
        out, seen = [], []
        ds = [(p['n'], p['t']) for p in fr.fn.d['params'] or []]
        for b in fr.fn.dom[h]:
            if b != h:
                ds += [(i['r'], i['t']) for i in fr.fn.blocks[b]['instrs'] if i.get('r') and 't' in i]
        if not hasattr(fr, 'regtypes'):
            fr.regtypes = {}
        for n, t in ds:
            v = fr.regs.get(n)
            if n not in vars and isinstance(v, Slice) and not any(self.samevalue(v, w) for w in seen):
                seen.append(v)
                out.append(n)
                fr.regtypes[n] = t
        return out

    def evalhint(self, s, fr, hcl, vs, vars, wild, hintenv, h=None):
        env = self.rootenv(s)
        # variables of the current function
        for p in fr.fn.d['params'] or []:
            if p['n'] in fr.regs:
                env.setdefault(p['n'], (fr.regs[p['n']], p['t']))
        for c, v in s.cells.items():
            nm = self.cellnames.get(c)
            if nm:
                env[nm] = (v, self.celltypes[c])
        if h is not None and h in fr.fn.loops:
            # variables last merged in a block every path to the loop goes through
            doms = sorted((b for b in fr.fn.dom[h] if b != h), key=lambda b: len(fr.fn.dom[b]))
            for b in doms:
                for i in fr.fn.blocks[b]['instrs']:
                    if i['op'] == 'phi' and i.get('c') and i['r'] in fr.regs:
                        env[i['c']] = (fr.regs[i['r']], i['t'])
        for n, (v, t, nm) in vars.items():
            env[nm] = (vs.get(n, v), t)
        for w, n in wild.items():
            env[w] = (vs.get(n, vars[n][0]), vars[n][1]) if n in vars else (fr.regs[n], fr.regtypes[n])
        if hintenv:
            env.update(hintenv(s, vs))
        oh = self.oldheap
        return Ev(self, s, env, old=oh, acq=s.held[-1].snap if s.held else s.sections[-1][2] if s.sections else None, oldenv=self.entryenv).bool(hcl.e)

    def boundcand(self, s, fr, i, vs, vars, strict=False):
        saved = dict(fr.regs)
        try:
            fr.regs.update({n: v for n, v in vs.items()})
            x = self.recompute(s, fr, i['x'], vars)
            y = self.recompute(s, fr, i['y'], vars)
        finally:
            fr.regs.clear()
            fr.regs.update(saved)
        if not (z3.is_int(x) and z3.is_int(y)):
            return None
        o = i['o']
        if strict:
            # i+1 < n checked at the head: i < n
            if o == '<':
                return x - 1 < y
            if o == '>':
                return y - 1 < x
            return None
        return {'<': x <= y, '<=': x <= y + 1, '>': x >= y, '>=': x >= y - 1, '!=': x <= y}[o]

    def recompute(self, s, fr, v, vars):
        """value of an operand from the loop variables, through arithmetic and len"""
        if v['k'] != 'reg' or v['n'] in vars:
            return self.val(fr, v)
        for b in fr.fn.blocks:
            for i in b['instrs']:
                if i.get('r') == v['n']:
                    if i['op'] == 'binop' and i['o'] in ('+', '-'):
                        x, y = self.recompute(s, fr, i['x'], vars), self.recompute(s, fr, i['y'], vars)
                        return x + y if i['o'] == '+' else x - y
                    if i['op'] == 'call' and i.get('fn', {}).get('n') == 'len':
                        a = self.recompute(s, fr, i['args'][0], vars)
                        if isinstance(a, Slice):
                            return a.len
                    if i['op'] == 'unop' and i['o'] == '*':
                        p = self.recompute(s, fr, i['x'], vars)
                        sm = self.mode
                        self.mode = 'quiet'
                        try:
                            return self.load(s.copy(), p, i['t'])
                        finally:
                            self.mode = sm
                    if i['op'] == 'fieldaddr':
                        x = self.recompute(s, fr, i['x'], vars)
                        return self.fieldaddr(s, x, i)
                    return fr.regs[v['n']]
        return fr.regs[v['n']]

    def rootenv(self, st):
        return dict(self.entryenv)

    from_ops = None


import ops  # noqa: E402  adds the instructions
ops.State, ops.Frame, ops.Held, ops.Obl = State, Frame, Held, Obl
for _n in dir(ops):
    if _n.startswith(('op_', 'm_')):
        setattr(Engine, _n[2:] if _n.startswith('m_') else _n, getattr(ops, _n))
