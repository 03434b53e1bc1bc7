"""Types, sorts and values of the verifier."""
import re
import z3
from collections import namedtuple

I, B, S = z3.IntSort(), z3.BoolSort(), z3.StringSort()
BV8 = z3.BitVecSort(8)
BYTES = z3.ArraySort(I, BV8)

Slice = namedtuple('Slice', 'base off len cap')
Closure = namedtuple('Closure', 'fn binds')
FuncV = namedtuple('FuncV', 'name')
StructV = namedtuple('StructV', 't f')      # f: dict name -> value
ArrV = namedtuple('ArrV', 'arr n et')       # arr: dict suffix -> z3 array
TupleV = namedtuple('TupleV', 'vs')
CellPtr = namedtuple('CellPtr', 'id t')
FieldPtr = namedtuple('FieldPtr', 'tn fn ref t')
ElemPtr = namedtuple('ElemPtr', 'base idx t')
GlobalPtr = namedtuple('GlobalPtr', 'n t')
MapIter = namedtuple('MapIter', 'm t cell dom')
SeqIter = namedtuple('SeqIter', 's')
Opaque = namedtuple('Opaque', 'what')


class Unsupported(Exception):
    pass


UINT = {'uint8': 8, 'byte': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64, 'uint': 64, 'uintptr': 64}
SINT = {'int': 64, 'int64': 64, 'int32': 32, 'int16': 16, 'int8': 8, 'rune': 32, 'untyped int': 64, 'untyped rune': 32}


class Types:
    def __init__(self, dump):
        self.T = dump['types']
        self.byname = {}
        for i, t in enumerate(self.T):
            self.byname.setdefault(t['s'], i)
            if t['k'] == 'named':
                self.byname.setdefault(t['name'], i)

    def canon(self, t):
        return re.sub(r'\[[kK]eyType\]', '', self.T[t]['s'])

    def id(self, s):
        if s not in self.byname:
            for i, t in enumerate(self.T):
                if re.sub(r'\[[kK]eyType\]', '', t['s']) == s:
                    self.byname[s] = i
                    return i
            raise Unsupported('unknown type ' + s)
        return self.byname[s]

    def u(self, t):
        while self.T[t]['k'] == 'named':
            t = self.T[t]['u']
        return t

    def k(self, t):
        return self.T[self.u(t)]['k']

    def d(self, t):
        return self.T[self.u(t)]

    def s(self, t):
        return self.T[t]['s']

    def elem(self, t):
        return self.d(t)['e']

    def sname(self, t):
        """name of a struct type"""
        if self.T[t]['k'] == 'named':
            return re.sub(r'\[[kK]eyType\]', '', self.T[t]['name'])
        return 'struct%d' % t

    def is_extern_struct(self, t):
        """structs of other packages are opaque, except the fields of requests"""
        return self.T[t]['k'] == 'named' and '.' in self.T[t]['name'] and self.k(t) == 'struct' and self.T[t]['name'] not in ('net/http.Request', 'bufio.ReadWriter')

    def fields(self, t):
        return self.d(t)['f']

    def field(self, t, name):
        for f in self.fields(t):
            if f['n'] == name:
                return f
        return None

    def sort(self, t):
        """z3 sort of a scalar type, None for composite ones"""
        d = self.d(t)
        k = d['k']
        if k == 'basic':
            n = d['name']
            if n in UINT:
                return z3.BitVecSort(UINT[n])
            if n in SINT:
                return I
            if n in ('bool', 'untyped bool'):
                return B
            if n in ('string', 'untyped string'):
                return S
            if n in ('float64', 'untyped float'):
                return I
            return I
        if k in ('ptr', 'map', 'chan', 'func', 'iface', 'tparam', 'other'):
            return I
        if k == 'struct' and (self.is_extern_struct(t) or not d['f']):
            return I
        return None

    def flat(self, t):
        """components of a value: list of (suffix, sort)"""
        so = self.sort(t)
        if so is not None:
            return [('', so)]
        k = self.k(t)
        if k == 'slice':
            return [('#b', I), ('#o', I), ('#l', I), ('#c', I)]
        if k == 'array':
            return [('#a' + s, z3.ArraySort(I, so)) for s, so in self.flat(self.elem(t))]
        if k == 'struct':
            return [('.' + f['n'] + s, so) for f in self.fields(t) for s, so in self.flat(f['t'])]
        raise Unsupported('type ' + self.s(t))

    def pack(self, t, terms):
        """terms: list in flat order -> value"""
        if self.sort(t) is not None:
            return terms[0]
        k = self.k(t)
        if k == 'slice':
            return Slice(*terms)
        if k == 'array':
            return ArrV({s: x for (s, _), x in zip(self.flat(self.elem(t)), terms)}, self.d(t)['n'], self.elem(t))
        out, i = {}, 0
        for f in self.fields(t):
            n = len(self.flat(f['t']))
            out[f['n']] = self.pack(f['t'], terms[i:i + n])
            i += n
        return StructV(t, out)

    def unpack(self, t, v):
        if self.sort(t) is not None:
            return [v]
        k = self.k(t)
        if k == 'slice':
            return list(v)
        if k == 'array':
            return [v.arr[s] for s, _ in self.flat(self.elem(t))]
        out = []
        for f in self.fields(t):
            out += self.unpack(f['t'], v.f[f['n']])
        return out

    def isuint8(self, t):
        return self.d(t)['k'] == 'basic' and self.d(t)['name'] in ('uint8', 'byte')


def bitsum(v):
    """exact integer value of a bit vector"""
    n = v.size()
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return z3.IntVal(v.as_long())
    if n == 8 and z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
        return z3.BV2Int(v)
    if n > 8 and n % 8 == 0 and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_CONCAT:
        return z3.Sum([bitsum(b) * (1 << (8 * i)) for i, b in enumerate(bytes_of(v))])
    terms = []
    for i in range(n):
        b = z3.simplify(z3.Extract(i, i, v))
        if z3.is_bv_value(b):
            if b.as_long():
                terms.append(z3.IntVal(1 << i))
        else:
            terms.append(z3.IntVal(1 << i) * z3.If(b == 1, z3.IntVal(1), z3.IntVal(0)))
    if not terms:
        return z3.IntVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def bytes_of(v):
    """little endian list of the bytes of a bit vector"""
    n = v.size() // 8
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_CONCAT and all(c.size() % 8 == 0 for c in v.children()):
        out = []
        for c in reversed(v.children()):
            out += bytes_of(c)
        return out
    if n == 1:
        return [v]
    if z3.is_bv_value(v):
        x = v.as_long()
        return [z3.BitVecVal((x >> (8 * i)) & 255, 8) for i in range(n)]
    return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]


def of_bytes(bs):
    if len(bs) == 1:
        return bs[0]
    return z3.Concat(*reversed(bs))


def conv_bv(v, n):
    m = v.size()
    if n == m:
        return v
    if m % 8 == 0 and n % 8 == 0:
        bs = bytes_of(v)
        if n < m:
            return of_bytes(bs[:n // 8])
        return of_bytes(bs + [z3.BitVecVal(0, 8)] * ((n - m) // 8))
    if n < m:
        return z3.Extract(n - 1, 0, v)
    return z3.ZeroExt(n - m, v)


def bv_shift(v, k):
    """shift left by k bits (negative: right)"""
    n = v.size()
    if k % 8 == 0 and n % 8 == 0:
        bs, m = bytes_of(v), n // 8
        z = z3.BitVecVal(0, 8)
        k //= 8
        if k >= 0:
            return of_bytes(([z] * k + bs)[:m])
        return of_bytes((bs[-k:] + [z] * (-k))[:m])
    if k >= 0:
        return v << k
    return z3.LShR(v, -k)


def bv_rotl(v, k):
    n = v.size()
    k %= n
    if k % 8 == 0:
        bs, k = bytes_of(v), k // 8
        m = n // 8
        return of_bytes([bs[(i - k) % m] for i in range(m)])
    return z3.RotateLeft(v, k)


def isc(b, x):
    return z3.is_bv_value(b) and b.as_long() == x


def bv_bytewise(op, x, y):
    if x.size() % 8 or x.size() == 8:
        return op(x, y)
    out = []
    for a, b in zip(bytes_of(x), bytes_of(y)):
        r = None
        if op is bor or op is bxor:
            if isc(a, 0):
                r = b
            elif isc(b, 0):
                r = a
        if op is band and (isc(a, 0) or isc(b, 0)):
            r = z3.BitVecVal(0, 8)
        out.append(op(a, b) if r is None else r)
    return of_bytes(out)


def bor(a, b): return a | b
def band(a, b): return a & b
def bxor(a, b): return a ^ b


_slen = z3.Function('slen', S, I)


def strlen(x):
    """length of a string: strings are uninterpreted but for literals and concatenations"""
    if z3.is_string_value(x):
        return z3.IntVal(len(x.as_string()))
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        r = strlen(x.arg(0))
        for j in range(1, x.num_args()):
            r = r + strlen(x.arg(j))
        return z3.simplify(r)
    return _slen(x)


def mkstore(arr, idx, val):
    """store, dropping what the same index held before"""
    while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE and arr.arg(1).eq(idx):
        arr = arr.arg(0)
    return z3.Store(arr, idx, val)
