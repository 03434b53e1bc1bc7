"""Evaluation of specification expressions over a symbolic state."""
import z3
from core import *
from spec import SpecError

GS = {'int': I, 'bool': B, 'byte': BV8, 'bytes': BYTES, 'string': S, 'ref': I, 'ints': z3.ArraySort(I, I), 'set': z3.ArraySort(I, B), 'map': z3.ArraySort(I, I), 'sets': z3.ArraySort(I, z3.ArraySort(I, B)), 'bytess': z3.ArraySort(I, BYTES)}


def gsort(s):
    if s in GS:
        return GS[s]
    if s.startswith('ref_') or s.startswith('*'):
        return I
    raise SpecError('unknown ghost sort ' + s)


class Ev:
    """eng: engine, st: state, env: name -> (value, type), heap: heap to read, old: old heap"""

    inq = False

    def __init__(self, eng, st, env, heap=None, old=None, head=None, acq=None, rel=None, headenv=None, oldenv=None):
        self.eng, self.st, self.env = eng, st, env
        self.heap = heap if heap is not None else st.heap
        self.old, self.head, self.acq, self.rel, self.headenv = old, head, acq, rel, headenv
        self.oldenv = oldenv
        self.T = eng.T

    def withheap(self, h, env=None):
        if h is None:
            raise SpecError('no such state')
        return self.sub(Ev(self.eng, self.st, env or self.env, h, self.old, self.head, self.acq, self.rel, self.headenv, self.oldenv))

    def withenv(self, extra):
        e = dict(self.env)
        e.update(extra)
        return self.sub(Ev(self.eng, self.st, e, self.heap, self.old, self.head, self.acq, self.rel, self.headenv, self.oldenv))

    def sub(self, ev):
        ev.inq = self.inq
        return ev

    # -- entry points
    def bool(self, e):
        v, t = self.ev(e)
        if not z3.is_bool(v):
            raise SpecError('not a bool: %s' % (e,))
        return v

    def rd(self, name, sort):
        return self.eng.hget(self.heap, name, sort)

    def ghostty(self, g):
        if g.startswith('ref_'):
            return self.T.id('*' + g[4:])
        if g in ('int', 'bool', 'string'):
            return self.T.id(g)
        if g == 'byte':
            return self.T.id('uint8')
        return g

    def field(self, v, t, f):
        T = self.T
        if isinstance(t, str):
            raise SpecError('field %s of %s' % (f, t))
        k = T.k(t)
        if k == 'struct' and isinstance(v, StructV):
            if f in v.f:
                return v.f[f], T.field(t, f)['t']
            for g in T.fields(t):
                if g['emb']:
                    try:
                        return self.field(v.f[g['n']], g['t'], f)
                    except SpecError:
                        pass
            raise SpecError('no field ' + f)
        if k == 'ptr':
            st = T.elem(t)
        elif k == 'struct':
            st = t
        elif k == 'iface':
            st = t
        else:
            raise SpecError('field %s of %s' % (f, T.s(t)))
        sn = T.sname(st)
        key = sn + '.' + f
        if key in self.eng.spec.ghostfields:
            gs, fl = self.eng.spec.ghostfields[key]
            ref = self.eng.refof(self.st, v)
            return z3.Select(self.rd(key, z3.ArraySort(I, gsort(gs))), ref), self.ghostty(gs)
        if T.k(st) != 'struct':
            raise SpecError('no field %s in %s' % (f, sn))
        fd = T.field(st, f)
        if fd is not None:
            ref = self.eng.refof(self.st, v)
            if T.k(fd['t']) in ('struct', 'array') and not T.is_extern_struct(fd['t']):
                return FieldPtr(sn, f, ref, fd['t']), fd['t']
            r = self.eng.loadfield(self.st, self.heap, sn, f, ref, fd['t'])
            if not self.inq and T.k(fd['t']) == 'ptr' and self.st is not self.eng.ast:
                self.eng.assumeinv(self.st, fd['t'], r)
            if not self.inq and isinstance(r, Slice) and self.st is not self.eng.ast and self.eng.entryterm(r.base):
                self.eng.typefacts(self.st, fd['t'], r)
            return r, fd['t']
        for g in T.fields(st):
            if g['emb'] and T.k(g['t']) in ('ptr', 'struct'):
                inner, it = self.field(v, t, g['n'])
                try:
                    return self.field(inner, it, f)
                except SpecError:
                    pass
        raise SpecError('no field %s in %s' % (f, sn))

    def num(self, v):
        if isinstance(v, tuple) or not z3.is_expr(v):
            raise SpecError('not a number: %r' % (v,))
        if z3.is_bv(v):
            return self.eng.bitsum(v)
        return v

    def coerce(self, a, b):
        """a, b terms -> comparable terms"""
        if isinstance(a, (Slice,)) or isinstance(b, (Slice,)):
            if isinstance(a, Slice) and isinstance(b, Slice):
                return [(x, y) for x, y in zip(a, b)]
            s, o = (a, b) if isinstance(a, Slice) else (b, a)
            return [(s.base, o)]
        if isinstance(a, FieldPtr) or isinstance(b, FieldPtr):
            a, b = self.eng.refof(self.st, a), self.eng.refof(self.st, b)
        if isinstance(a, (Closure, FuncV)) or isinstance(b, (Closure, FuncV)):
            a, b = [self.eng.intern(self.st, x) if isinstance(x, (Closure, FuncV)) else x for x in (a, b)]
        if z3.is_bv(a) and z3.is_int_value(b):
            return [(a, z3.BitVecVal(b.as_long(), a.size()))]
        if z3.is_bv(b) and z3.is_int_value(a):
            return [(z3.BitVecVal(a.as_long(), b.size()), b)]
        if z3.is_bv(a) and z3.is_bv(b) and a.size() != b.size():
            return [(self.num(a), self.num(b))]
        if z3.is_bv(a) != z3.is_bv(b):
            return [(self.num(a), self.num(b))]
        return [(a, b)]

    def ev(self, e):
        T = self.T
        k = e[0]
        INT, BOOL = T.id('int'), T.id('bool')
        if k == 'num':
            return z3.IntVal(e[1]), INT
        if k == 'str':
            return z3.StringVal(e[1]), T.id('string')
        if k == 'id':
            n = e[1]
            if n in self.env:
                return self.env[n]
            if n == 'true':
                return z3.BoolVal(True), BOOL
            if n == 'false':
                return z3.BoolVal(False), BOOL
            if n == 'nil':
                return z3.IntVal(0), 'nil'
            if n in self.eng.spec.ghosts:
                gs = self.eng.spec.ghosts[n][0]
                return self.rd('tl:' + n, gsort(gs)), self.ghostty(gs)
            if n in self.eng.spec.consts:
                return self.ev(self.eng.spec.consts[n])
            if n in self.eng.globals:
                t = self.eng.globals[n]
                return self.eng.loadglobal(self.st, n, t, self.heap), t
            raise SpecError('unknown name ' + n)
        if k == 'field':
            if e[1][0] == 'id' and e[1][1] not in self.env:
                n = e[1][1] + '.' + e[2]
                if n in self.eng.extglobals:
                    t = self.eng.extglobals[n]
                    return self.eng.loadglobal(self.st, n, t, self.heap), t
            v, t = self.ev(e[1])
            return self.field(v, t, e[2])
        if k == 'un':
            v, t = self.ev(e[2])
            if e[1] == '!':
                return z3.Not(v), BOOL
            return -self.num(v), INT
        if k == 'ite':
            c = self.bool(e[1])
            a, t = self.ev(e[2])
            b, t2 = self.ev(e[3])
            (a, b), = self.coerce(a, b)
            return z3.If(c, a, b), (t if t != 'nil' else t2)
        if k == 'store':
            a, t = self.ev(e[1])
            i, _ = self.ev(e[2])
            v, _ = self.ev(e[3])
            return z3.Store(a, self.ix(i), v), t
        if k == 'index':
            return self.index(e)
        if k == 'bin':
            return self.bin(e)
        if k == 'quant':
            return self.quant(e)
        if k == 'call':
            return self.call(e)
        raise SpecError('cannot evaluate %r' % (e,))

    def ix(self, i):
        if isinstance(i, FieldPtr):
            return self.eng.refof(self.st, i)
        return i

    def index(self, e):
        T = self.T
        a, t = self.ev(e[1])
        i, it = self.ev(e[2])
        i = self.ix(i)
        if z3.is_bv(i):
            i = self.num(i)
        if isinstance(a, Slice):
            et = T.elem(t)
            return self.eng.loadelem(self.st, self.heap, et, a.base, a.off + i), et
        if isinstance(a, FieldPtr) and T.k(a.t) == 'array':
            et = T.elem(a.t)
            return self.eng.loadelem(self.st, self.heap, et, self.eng.refof(self.st, a), i), et
        if isinstance(a, ArrV):
            return T.pack(a.et, [z3.Select(a.arr[s], i) for s, _ in T.flat(a.et)]), a.et
        if not isinstance(t, (str, tuple)) and T.k(t) == 'map':
            return self.eng.mapval(self.heap, t, a, i), T.d(t)['e']
        if z3.is_array(a):
            r = z3.Select(a, i)
            rt = 'bytes' if r.sort() == BYTES else T.id('uint8') if r.sort() == BV8 else T.id('bool') if r.sort() == B else T.id('int')
            return r, rt
        if z3.is_string(a):
            return a[i], 'char'
        raise SpecError('cannot index %r' % (e,))

    def bin(self, e):
        T = self.T
        INT, BOOL = T.id('int'), T.id('bool')
        op = e[1]
        if op in ('&&', '||', '==>', '<==>'):
            a, b = self.bool(e[2]), self.bool(e[3])
            return {'&&': z3.And, '||': z3.Or, '==>': z3.Implies, '<==>': lambda x, y: x == y}[op](a, b), BOOL
        a, ta = self.ev(e[2])
        b, tb = self.ev(e[3])
        if op in ('==', '!='):
            ps = self.coerce(a, b)
            r = z3.And([x == y for x, y in ps]) if len(ps) > 1 else ps[0][0] == ps[0][1]
            return (r if op == '==' else z3.Not(r)), BOOL
        if op == '++':
            return z3.Concat(a, b), ta
        if op in ('&', '|', '^'):
            (a, b), = self.coerce(a, b)
            f = {'&': band, '|': bor, '^': bxor}[op]
            return bv_bytewise(f, a, b), ta
        if op == '%' and z3.is_int_value(b) and z3.is_bv(a):
            pass
        a, b = self.num(a), self.num(b)
        f = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}
        if op in f:
            return f[op](a, b), BOOL
        g = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y, '%': lambda x, y: x % y}
        return g[op](a, b), INT

    def quant(self, e):
        _, q, vs, trig, body = e
        env, zs = {}, []
        for n, ty in vs:
            so = gsort(ty) if ty in GS else I
            z = z3.FreshConst(so, n)
            zs.append(z)
            env[n] = (z, self.ghostty(ty) if ty != 'ref' else self.T.id('int'))
            if ty not in GS and ty != 'int':
                env[n] = (z, self.ghostty('ref_' + ty))
        ev = self.withenv(env)
        ev.inq = True
        b = ev.bool(body)
        pats = []
        for t in trig:
            ts = [ev.ev(x)[0] for x in t]
            if len(ts) == 1 and isinstance(ts[0], Slice):
                pats += [[x] for x in (ts[0].base, ts[0].off, ts[0].len)]
                continue
            if len(ts) == 1 and (z3.is_app(ts[0]) and ts[0].decl().kind() != z3.Z3_OP_UNINTERPRETED and not self.okpat(ts[0])):
                pats += [[x] for x in self.selects(ts[0], zs)]
                continue
            pats.append(ts)
        if len(vs) == 1:
            pats = [p for p in pats if len(p) > 1 or self.okpat(p[0])]
        b, pats = self.shifted(zs, b, pats)
        pats = [z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats]
        f = z3.ForAll if q == 'forall' else z3.Exists
        try:
            return (f(zs, b, patterns=pats) if pats else f(zs, b)), self.T.id('bool')
        except z3.Z3Exception:
            return f(zs, b), self.T.id('bool')

    def shifted(self, zs, b, pats):
        """quantify over positions in memory instead of indices: off + k can only be matched when it is one variable"""
        def occurs(t, z):
            todo, seen = [t], set()
            while todo:
                x = todo.pop()
                if x.eq(z):
                    return True
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    todo += x.children()
            return False

        def idx(p, z, out):
            if z3.is_app(p):
                if z3.is_select(p) and p.arg(1).sort() == I and occurs(p.arg(1), z):
                    out.append(p.arg(1))
                for x in p.children():
                    idx(x, z, out)
        sub = []
        for z in zs:
            if z.sort() != I:
                continue
            out = []
            for p in pats:
                for t in p:
                    idx(t, z, out)
            rs = [z3.simplify(o - z) for o in out]
            if not rs or any(occurs(r, y) for r in rs for y in zs) or any(not r.eq(rs[0]) for r in rs) or z3.is_int_value(rs[0]):
                continue
            sub.append((z, z - rs[0]))
        if not sub:
            return b, pats
        def fix(x):
            out, todo, seen = {}, [x], set()
            while todo:
                y = todo.pop()
                if y.get_id() in seen or not z3.is_app(y):
                    continue
                seen.add(y.get_id())
                todo += y.children()
                if z3.is_select(y) and y.arg(1).sort() == I and y.arg(1).num_args():
                    out[y.arg(1).get_id()] = y.arg(1)
            ps = [(y, z3.simplify(y)) for y in out.values()]
            return z3.substitute(x, *[(y, w) for y, w in ps if not y.eq(w)])
        return fix(z3.substitute(b, *sub)), [[fix(z3.substitute(t, *sub)) for t in p] for p in pats]

    def okpat(self, t):
        todo = [t]
        while todo:
            x = todo.pop()
            if not z3.is_app(x):
                continue
            if z3.is_bool(x) and x.num_args() and x.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) or x.decl().kind() == z3.Z3_OP_ITE:
                return False
            todo += x.children()
        return True

    def selects(self, t, zs):
        out, todo, seen = [], [t], set()
        ids = {z.get_id() for z in zs}

        def has(x):
            return x.get_id() in ids or any(has(y) for y in x.children())
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if z3.is_select(x) and has(x) and self.okpat(x):
                out.append(x)
                continue
            todo += x.children()
        return out

    def call(self, e):
        T, eng = self.T, self.eng
        INT, BOOL = T.id('int'), T.id('bool')
        n, a = e[1], e[2]
        if n == 'old':
            return self.withheap(self.old, dict(self.env, **self.oldenv) if self.oldenv else None).ev(a[0])
        if n == 'head':
            return self.withheap(self.head, dict(self.env, **(self.headenv or {}))).ev(a[0])
        if n == 'acq':
            return self.withheap(self.acq).ev(a[0])
        if n == 'rel':
            return self.withheap(self.rel).ev(a[0])
        if n in ('len', 'cap', 'base', 'off'):
            v, t = self.ev(a[0])
            if isinstance(v, Slice):
                return {'len': v.len, 'cap': v.cap, 'base': v.base, 'off': v.off}[n], INT
            if n == 'len' and z3.is_string(v):
                return strlen(v), INT
            if n == 'len' and not isinstance(t, str) and T.k(t) == 'map':
                return eng.maplen(self.heap, t, v), INT
            if n == 'len' and not isinstance(t, str) and T.k(t) == 'array':
                return z3.IntVal(T.d(t)['n']), INT
            if n == 'base' and isinstance(v, FieldPtr):
                return eng.refof(self.st, v), INT
            raise SpecError('%s of %r' % (n, e))
        if n == 'ref':
            v, t = self.ev(a[0])
            return eng.refof(self.st, v), INT
        if n == 'int':
            return self.num(self.ev(a[0])[0]), INT
        if n == 'bv':     # bv(n, x)
            v, _ = self.ev(a[1])
            w = a[0][1]
            if z3.is_bv(v):
                return conv_bv(v, w), T.id('uint%d' % w)
            if z3.is_int_value(v):
                return z3.BitVecVal(v.as_long(), w), T.id('uint%d' % w)
            return eng.int2bv(self.st, v, w), T.id('uint%d' % w)
        if n == 'rotl32':
            v, t = self.ev(a[0])
            return bv_rotl(v, a[1][1] if a[1][0] == 'num' else -a[1][2][1]), t
        if n == 'byteof':   # byteof(k, v): k-th byte of v, little endian, k constant
            v, _ = self.ev(a[1])
            return bytes_of(v)[a[0][1]], T.id('uint8')
        if n == 'closed':
            v, t = self.ev(a[0])
            if T.k(t) in ('ptr', 'struct'):
                v, t = self.field(v, t, 'done')
            return eng.chclosed(v), BOOL
        if n == 'fatal':
            v, _ = self.ev(a[0])
            return eng.isfatal(v), BOOL
        if n == 'u32':       # byte j of the big endian representation of the number, in 32 bits
            return z3.Function('u32', I, I, BV8)(self.ev(a[0])[0], self.ev(a[1])[0]), T.id('uint8')
        if n == 'ctxch':     # what Done returns
            v, _ = self.ev(a[0])
            return z3.Function('ctxdonech', I, I)(v), T.id('int')
        if n == 'ctxdone':
            v, _ = self.ev(a[0])
            return eng.ctxdone(v), BOOL
        if n == 'isdt':      # isdt("*T", v)
            v, _ = self.ev(a[1])
            return z3.And(v != 0, eng.dt(v) == eng.tag(T.id(a[0][1]))), BOOL
        if n == 'has':
            m, t = self.ev(a[0])
            kx, _ = self.ev(a[1])
            return eng.mapdom(self.heap, t, m, self.ix(kx)), BOOL
        if n == 'elems':     # the set of the elements of a slice
            v, t = self.ev(a[0])
            return eng.elems(self.st, v, T.elem(t), self.heap), 'set'
        if n == 'dom':
            m, t = self.ev(a[0])
            return z3.Select(eng.mapdomarr(self.heap, t), m), 'set'
        if n == 'vals':
            m, t = self.ev(a[0])
            return z3.Select(eng.mapvalarr(self.heap, t)[0], m), 'map'
        if n == 'mem':
            v, t = self.ev(a[0])
            if isinstance(v, Slice):
                return eng.sel(self.st, eng.memarr(self.heap, T.elem(t))[0], v.base), 'bytes'
            if isinstance(v, FieldPtr):
                return eng.sel(self.st, eng.memarr(self.heap, T.elem(v.t))[0], eng.refof(self.st, v)), 'bytes'
            raise SpecError('mem of %r' % (e,))
        if n == 'bytesat':
            v, t = self.ev(a[0])
            return eng.sel(self.st, self.rd('mem:uint8', z3.ArraySort(I, BYTES)), v), 'bytes'
        if n == 'unbox':     # unbox("*T", v): what an interface value holds
            v, _ = self.ev(a[1])
            t = T.id(a[0][1])
            return eng.unbox(self.st, v, t), t
        if n == 'str':
            v, t = self.ev(a[0])
            if isinstance(v, Slice):
                return eng.sof(eng.sel(self.st, eng.memarr(self.heap, T.elem(t))[0], v.base), v.off, v.len), T.id('string')
            raise SpecError('str of %r' % (e,))
        if n == 'contains':   # contains(s, v): what slices.Contains reports
            v, t = self.ev(a[0])
            x, _ = self.ev(a[1])
            arr = eng.sel(self.st, eng.memarr(self.heap, T.elem(t))[0], v.base)
            return z3.Function('contains', arr.sort(), I, I, x.sort(), B)(arr, v.off, v.len, x), BOOL
        if n == 'sof':
            x = [self.ev(y)[0] for y in a]
            return eng.sof(*x), T.id('string')
        if n == 'held' or n == 'rheld':
            v, _ = self.ev(a[1])
            return eng.heldpred(self.st, a[0][1], eng.refof(self.st, v), n == 'rheld'), BOOL
        if n == 'fresh':
            v, _ = self.ev(a[0])
            v = v.base if isinstance(v, Slice) else eng.refof(self.st, v)
            return v > (self.freshtop if getattr(self, 'freshtop', None) is not None else self.st.entrytop), BOOL
        if n == 'allocated':   # existed when this is evaluated
            v, _ = self.ev(a[0])
            return (v.base if isinstance(v, Slice) else eng.refof(self.st, v)) <= self.st.top, BOOL
        if n == 'min':
            x, y = self.num(self.ev(a[0])[0]), self.num(self.ev(a[1])[0])
            return z3.If(x < y, x, y), INT
        if n == 'max':
            x, y = self.num(self.ev(a[0])[0]), self.num(self.ev(a[1])[0])
            return z3.If(x > y, x, y), INT
        if n == 'iface':   # iface("T", v)  the interface value holding v
            v, t = self.ev(a[1])
            return eng.box(self.st, v, T.id(a[0][1])), INT
        if n == 'pair':    # the interface value holding the array [2]any{x, y}
            x = [self.ev(y) for y in a]
            arr = z3.Store(z3.Store(z3.K(I, z3.IntVal(0)), 0, eng.refof(self.st, x[0][0])), 1, eng.refof(self.st, x[1][0]))
            return eng.boxarr(self.st, arr), INT
        if n == 'emptyset':
            return z3.K(I, z3.BoolVal(False)), 'set'
        if n == 'as':       # as("T", v): retype
            v, _ = self.ev(a[1])
            return v, T.id(a[0][1])
        if n == 'isslice':
            v, t = self.ev(a[0])
            return z3.BoolVal(isinstance(v, Slice)), BOOL
        if n in eng.spec.preds:
            ps, body = eng.spec.preds[n]
            if len(ps) != len(a):
                raise SpecError('arity of ' + n)
            env = {}
            for p, x in zip(ps, a):
                env[p] = self.ev(x)
            base = {k2: v2 for k2, v2 in self.env.items() if k2 == 'entry'}
            base.update(env)
            return self.sub(Ev(eng, self.st, base, self.heap, self.old, self.head, self.acq, self.rel, self.headenv, self.oldenv)).ev(body)
        if n in eng.spec.ufuns:
            ats, rt = eng.spec.ufuns[n]
            f = z3.Function(n, *([gsort(x) for x in ats] + [gsort(rt)]))
            args = []
            for x, so in zip(a, ats):
                v, t = self.ev(x)
                v = self.ix(v)
                if isinstance(v, Slice):
                    raise SpecError('slice passed to ' + n)
                if gsort(so) == I and z3.is_bv(v):
                    v = self.num(v)
                if gsort(so) == BV8 and z3.is_int_value(v):
                    v = z3.BitVecVal(v.as_long(), 8)
                args.append(v)
            if len(args) != len(ats):
                raise SpecError('arity of ' + n)
            return f(*args), self.ghostty(rt)
        raise SpecError('unknown function ' + n)
