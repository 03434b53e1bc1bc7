"""Contract files: parser for the specification language of gov."""
import re

TOK = re.compile(r'''\s*(?:(?P<num>0x[0-9a-fA-F]+|\d+)|(?P<str>"(?:[^"\\]|\\.)*")|(?P<id>[?]?[A-Za-z_][A-Za-z_0-9']*(?:\$\d+)?)|(?P<op><==>|==>|\|\||&&|==|!=|<=|>=|::|\+\+|[-+*/%^&|<>!()\[\]{},.?:=]))''')


class SpecError(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise SpecError('bad token at: ' + s[i:i + 40])
        i = m.end()
        for k in ('num', 'str', 'id', 'op'):
            if m.group(k) is not None:
                v = m.group(k)
                if k == 'num':
                    v = int(v, 0)
                elif k == 'str':
                    v = v[1:-1].encode().decode('unicode_escape')
                out.append((k, v))
    return out


BINPREC = {'<==>': 1, '==>': 2, '||': 3, '&&': 4, '==': 5, '!=': 5, '<': 5, '<=': 5, '>': 5, '>=': 5, 'in': 5,
           '+': 7, '-': 7, '|': 7, '^': 7, '++': 7, '*': 8, '/': 8, '%': 8, '&': 8}


class P:
    def __init__(self, s):
        self.t, self.i, self.src = tokenize(s), 0, s

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('eof', None)

    def eat(self, v=None):
        k = self.peek()
        if v is not None and k[1] != v:
            raise SpecError('expected %r, got %r in: %s' % (v, k[1], self.src))
        self.i += 1
        return k

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] in ('op', 'id')

    def expr(self, prec=0):
        if self.peek()[0] == 'id' and self.peek()[1] in ('forall', 'exists'):
            return self.quant()
        l = self.unary()
        while True:
            k, v = self.peek()
            if v == '?' and prec <= 0 and k == 'op':
                self.eat()
                a = self.expr(0)
                self.eat(':')
                b = self.expr(0)
                l = ('ite', l, a, b)
                continue
            if v not in BINPREC or k not in ('op', 'id') or BINPREC[v] < prec:
                return l
            p = BINPREC[v]
            self.eat()
            r = self.expr(p if v == '==>' else p + 1)
            l = ('bin', v, l, r)

    def quant(self):
        q = self.eat()[1]
        vs = []
        while True:
            n = self.eat()[1]
            ty = 'int'
            if self.at(':'):
                self.eat()
                ty = self.eat()[1]
            vs.append((n, ty))
            if self.at(','):
                self.eat()
                continue
            break
        self.eat('::')
        trig = []
        while self.at('{'):
            self.eat()
            t = [self.expr(0)]
            while self.at(','):
                self.eat()
                t.append(self.expr(0))
            self.eat('}')
            trig.append(t)
        return ('quant', q, vs, trig, self.expr(0))

    def unary(self):
        k, v = self.peek()
        if k == 'op' and v in ('!', '-'):
            self.eat()
            return ('un', v, self.unary())
        return self.postfix(self.atom())

    def atom(self):
        k, v = self.eat()
        if k == 'num':
            return ('num', v)
        if k == 'str':
            return ('str', v)
        if k == 'id':
            return ('id', v)
        if v == '(':
            e = self.expr(0)
            self.eat(')')
            return e
        raise SpecError('unexpected %r in: %s' % (v, self.src))

    def postfix(self, e):
        while True:
            if self.at('.'):
                self.eat()
                e = ('field', e, self.eat()[1])
            elif self.at('['):
                self.eat()
                i = self.expr(0)
                if self.at(':='):
                    pass
                if self.at(':'):
                    self.eat()
                    self.eat('=')
                    v = self.expr(0)
                    self.eat(']')
                    e = ('store', e, i, v)
                    continue
                self.eat(']')
                e = ('index', e, i)
            elif self.at('(') and e[0] == 'id':
                self.eat()
                args = []
                while not self.at(')'):
                    args.append(self.expr(0))
                    if self.at(','):
                        self.eat()
                self.eat(')')
                e = ('call', e[1], args)
            else:
                return e


def parse_expr(s):
    p = P(s)
    e = p.expr(0)
    if p.peek()[0] != 'eof':
        raise SpecError('trailing %r in: %s' % (p.peek()[1], s))
    return e


def split_top(s, sep=','):
    out, d, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{':
                d += 1
            if ch in ')]}':
                d -= 1
            if ch == sep and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Clause:
    __slots__ = ('kind', 'tags', 'label', 'src', 'e', 'when', 'e2', 'loc', 'info')

    def __init__(self, kind, tags, label, src, e=None, when=None):
        self.kind, self.tags, self.label, self.src, self.e, self.when = kind, tags, label, src, e, when
        self.e2, self.loc, self.info = None, None, None


class Contract:
    def __init__(self, name, params, results, kind):
        self.name, self.params, self.results, self.kind = name, params, results, kind
        self.requires, self.ensures, self.modifies, self.hints = [], [], [], []
        self.effects, self.atomics, self.lets, self.ghosts, self.closures = [], [], [], [], []
        self.sets = set()
        self.inside = {}
        self.lemmas, self.afters, self.started = [], [], []
        self.steps, self.panics, self.blocks = [], [], []
        self.cases = []
        self.sectionc = []
        self.modwhen = {}
        self.pools = {}
        self.flags = set()
        self.file = ''

    def tags(self):
        t = set()
        for c in self.requires + self.ensures + self.atomics + self.sectionc + self.effects + self.closures + self.steps + [x for p in self.pools.values() for x in p['requires'] + p['does']]:
            t |= set(c.tags)
        return t


class Spec:
    def __init__(self):
        self.contracts = {}   # package functions
        self.externs = {}     # trusted functions
        self.callbacks = {}   # user callbacks, by field
        self.sends, self.recvs = {}, {}
        self.ghostfields = {}  # 'T.f' -> (type, flags)
        self.ghosts = {}       # thread local scalars: name -> (type, init expr or None)
        self.preds = {}        # name -> (params, ast)
        self.ufuns = {}        # name -> ([argtypes], rettype)
        self.axioms = []
        self.invs = {}         # type -> (var, [Clause])
        self.fields = {}       # 'T.f' -> (class, info, tags)
        self.locks = {}        # name -> dict
        self.consts = {}
        self.lemmas, self.afters = [], []
        self.onces = {}
        self.trusted = []
        self.ghosttags = {}
        self.onstore = {}
        self.otherwise = {}
        self.receivers = {}
        self.groups = {}

    def load(self, path):
        text = open(path).read()
        cur = None
        lines = []
        for n, raw in enumerate(text.split('\n'), 1):
            ln = re.sub(r'(^|\s)#.*$', '', raw).rstrip()
            if not ln.strip():
                continue
            ind = len(ln) - len(ln.lstrip())
            if ind >= 4 and lines:
                lines[-1][2] += ' ' + ln.strip()
            else:
                lines.append([n, ind, ln.strip()])
        for n, ind, ln in lines:
            try:
                if ind == 0:
                    cur = self.top(ln, path)
                else:
                    self.clause(cur, ln)
            except SpecError as e:
                raise SpecError('%s:%d: %s' % (path, n, e))
            except Exception as e:
                raise SpecError('%s:%d: %r in %s' % (path, n, e, ln))

    def top(self, ln, path):
        kw, rest = ln.split(None, 1)
        if kw in ('func', 'extern', 'callback', 'onsend', 'onrecv'):
            m = re.match(r'(\(\*?[\w./-]+\)\.[\w$]+|[\w./$\[\]*-]+)\s*(?:\(([^)]*)\))?\s*(?:\(([^)]*)\))?\s*$', rest)
            if not m:
                raise SpecError('bad header ' + ln)
            name = m.group(1)
            params = [p.strip() for p in (m.group(2) or '').split(',') if p.strip()]
            results = [p.strip() for p in (m.group(3) or '').split(',') if p.strip()]
            c = Contract(name, params, results, kw)
            c.file = path
            {'func': self.contracts, 'extern': self.externs, 'callback': self.callbacks,
             'onsend': self.sends, 'onrecv': self.recvs}[kw][name] = c
            return c
        if kw == 'ghost':
            mt = re.match(r'\[([^\]]*)\]\s*(.*)$', rest)
            if mt:
                rest = mt.group(2)
                self.ghosttags[re.match(r'[\w./]+', rest).group(0)] = [x.strip() for x in mt.group(1).split(',')]
            m = re.match(r'(\w[\w./]*)\.(\w+)\s*:\s*(\w+)\s*(.*)$', rest)
            if m:
                self.ghostfields[m.group(1) + '.' + m.group(2)] = (m.group(3), m.group(4).split())
                return None
            m = re.match(r'(\w+)\s*:\s*(\w+)\s*(?:=\s*(.*))?$', rest)
            self.ghosts[m.group(1)] = (m.group(2), parse_expr(m.group(3)) if m.group(3) else None)
            return None
        if kw == 'pred':
            m = re.match(r'(\w+)\(([^)]*)\)\s*=\s*(.*)$', rest)
            self.preds[m.group(1)] = ([p.strip() for p in m.group(2).split(',') if p.strip()], parse_expr(m.group(3)))
            return None
        if kw == 'ufun':
            m = re.match(r'(\w+)\(([^)]*)\)\s*:\s*(\w+)$', rest)
            self.ufuns[m.group(1)] = ([p.strip() for p in m.group(2).split(',') if p.strip()], m.group(3))
            return None
        if kw == 'axiom':
            self.axioms.append(Clause('axiom', [], '', rest, parse_expr(rest)))
            return None
        if kw == 'lemma':
            m = re.match(r'(?:\[([^\]]*)\]\s*)?(\w+)\s*:\s*(.*)$', rest)
            self.lemmas.append(Clause('lemma', [t.strip() for t in (m.group(1) or '').split(',') if t.strip()], m.group(2), m.group(3), parse_expr(m.group(3))))
            return None
        if kw == 'const':
            m = re.match(r'(\w+)\s*=\s*(.*)$', rest)
            self.consts[m.group(1)] = parse_expr(m.group(2))
            return None
        if kw == 'invariant':
            m = re.match(r'([\w./]+)\((\w+)\)$', rest)
            self.invs[m.group(1)] = (m.group(2), [])
            return ('inv', m.group(1))
        if kw == 'lock':
            # lock NAME = mutex T.f | mu T.f   rank N
            m = re.match(r'(\w+)\s*=\s*(mutex|mu|token)\s+([\w.]+)\s+rank\s+(\d+)$', rest)
            d = {'name': m.group(1), 'kind': m.group(2), 'field': m.group(3), 'rank': int(m.group(4)), 'guards': [], 'invs': [], 'var': 'self'}
            if d['kind'] == 'mu':
                d['path'] = parse_expr('self.' + d['field'])
            self.locks[m.group(1)] = d
            return ('lock', d)
        if kw == 'field':
            # field T.f immutable | guarded LOCK(expr) | atomic | confined   [tags]
            m = re.match(r'(?:\[([^\]]*)\]\s*)?([\w./]+)\s+(\w+)\s*(.*)$', rest)
            self.fields[m.group(2)] = (m.group(3), m.group(4), [t.strip() for t in (m.group(1) or '').split(',') if t.strip()])
            return None
        if kw == 'once':
            m = re.match(r'(?:\[([^\]]*)\]\s*)?([\w./]+)\s+rank\s+(\d+)$', rest)
            d = {'field': m.group(2), 'rank': int(m.group(3)), 'guards': [], 'invs': [], 'tags': []}
            self.onces[m.group(2)] = d
            return ('lock', d)
        if kw == 'group':
            m = re.match(r'(\w+)\s*=\s*(.*)$', rest)
            self.groups[m.group(1)] = split_top(m.group(2))
            return None
        if kw == 'onstore':
            # onstore T.f(self, v) LOC := expr
            m = re.match(r'([\w.]+(?:\[-?\])?)\s*\((\w+),\s*(\w+)(?:,\s*(\w+))?\)\s+(.*?)\s*:=\s*(.*)$', rest)
            self.onstore.setdefault(m.group(1), []).append((m.group(2), m.group(3), m.group(4), parse_expr(m.group(5)), parse_expr(m.group(6))))
            return None
        if kw == 'otherwise':
            # otherwise T.f(self) LOC := expr   when a select found the channel not ready
            m = re.match(r'([\w.]+)\s*\((\w+)\)\s+(.*?)\s*:=\s*(.*)$', rest)
            self.otherwise.setdefault(m.group(1), []).append((m.group(2), parse_expr(m.group(3)), parse_expr(m.group(4))))
            return None
        if kw == 'receiver':
            # receiver T.f FUNC   only FUNC receives from the channel, and one goroutine at a time runs it
            m = re.match(r'([\w.]+)\s+(.*)$', rest)
            self.receivers[m.group(1)] = m.group(2).strip()
            return None
        if kw == 'trust':
            self.trusted.append(rest)
            return None
        raise SpecError('unknown declaration ' + kw)

    def clause(self, cur, ln):
        kw = ln.split(None, 1)[0]
        rest = ln[len(kw):].strip()
        tags, label = [], ''
        m = re.match(r'\[((?:C\d+|[A-Z]\w*)(?:\s*,\s*\w+)*)\]\s*(.*)$', rest)
        if m:
            tags = [t.strip() for t in m.group(1).split(',')]
            rest = m.group(2)
        m = re.match(r'([A-Za-z_]\w*)\s*:(?![:=])\s+(.*)$', rest)
        if m and kw not in ('let', 'modifies', 'ghost'):
            label, rest = m.group(1), m.group(2)
        if isinstance(cur, tuple) and cur[0] == 'inv':
            self.invs[cur[1]][1].append(Clause('inv', tags, label, rest if kw == 'holds' else ln, parse_expr(rest)))
            return
        if isinstance(cur, tuple) and cur[0] == 'lock':
            d = cur[1]
            if kw in ('guards', 'modifies'):
                d['guards'] += split_top(rest)
            elif kw == 'holds':
                d['invs'].append(Clause('lockinv', tags, label, rest, parse_expr(rest)))
            elif kw in ('retires', 'mayretire'):
                d.setdefault('retires', []).append((kw, rest.split('(')[0], tags))
            else:
                raise SpecError('bad lock clause ' + kw)
            return
        c = cur
        if kw in ('requires', 'ensures', 'hint', 'step', 'assumes', 'defs', 'blocks', 'lemma'):
            cl = Clause(kw, tags, label, rest, parse_expr(rest))
            {'requires': c.requires, 'ensures': c.ensures, 'hint': c.hints, 'step': c.steps, 'assumes': c.ensures, 'defs': c.ensures, 'blocks': c.blocks, 'lemma': c.lemmas}[kw].append(cl)
        elif kw == 'modifies':
            parts = re.split(r'\s+when\s+', rest, maxsplit=1)
            for p in split_top(parts[0]):
                for q in (self.groups[p[1:]] if p.startswith('@') else [p]):
                    if q not in [x for x, _ in c.modifies]:
                        c.modifies.append((q, parse_expr(q)))
                        if len(parts) > 1:
                            c.modwhen[q] = parse_expr(parts[1])
        elif kw in ('acquires', 'releases', 'retires', 'publishes', 'holds', 'rholds', 'blockson', 'worker'):
            parts = re.split(r'\s+when\s+', rest, maxsplit=1)
            cl = Clause(kw, tags, label, rest, parse_expr(parts[0]), parse_expr(parts[1]) if len(parts) > 1 else None)
            c.effects.append(cl)
        elif kw == 'atomic':
            # atomic LOCK(expr): expr
            m = re.match(r'(\w+)\(([^()]*(?:\([^()]*\))*[^()]*)\)\s+(.*)$', rest)
            cl = Clause('atomic', tags, label, rest, parse_expr(m.group(3)))
            cl.info = (m.group(1), parse_expr(m.group(2)))
            c.atomics.append(cl)
        elif kw == 'section':
            # section LOCK(expr): what the last critical section of that lock did
            m = re.match(r'(\w+)\(([^()]*(?:\([^()]*\))*[^()]*)\)\s+(?:when\s+(.*?)\s+do\s+)?(.*)$', rest)
            cl = Clause('section', tags, label, rest, parse_expr(m.group(4)), parse_expr(m.group(3)) if m.group(3) else None)
            cl.info = (m.group(1), parse_expr(m.group(2)))
            c.sectionc.append(cl)
        elif kw == 'closure':
            # closure CALLEE.PARAM ensures expr
            m = re.match(r'(\S+)\s+(\d+)\s+(.*)$', rest)
            cl = Clause('closure', tags, label, rest, parse_expr(m.group(3)))
            cl.info = (m.group(1), int(m.group(2)))
            c.closures.append(cl)
        elif kw == 'after':
            # after CALLEE expr: used, when it can be proved there, from the end of each call of CALLEE on
            n, rest = rest.split(None, 1)
            c.afters.append((n, Clause(kw, tags, label, rest, parse_expr(rest))))
        elif kw == 'inside':
            # inside r = r.conn.reader
            m = re.match(r'(\w+)\s*=\s*\1\.(\w+)\.(\w+)$', rest)
            n, cf, sf = m.groups()
            c.inside[n] = (cf, sf)
            for q in ('%s.%s != nil' % (n, cf), '%s == %s.%s.%s' % (n, n, cf, sf)):
                c.requires.append(Clause('requires', tags, label, q, parse_expr(q)))
        elif kw == 'pool':
            # pool *T(x) requires|does|gives expr: items of type *T handed over a local channel to workers: what they are, what a
            # worker has done with one before it takes the next, and what of that still holds when all workers are done
            m = re.match(r'(\S+)\((\w+)\)\s+(requires|does|gives)\s+(.*)$', rest)
            p = c.pools.setdefault(m.group(1), {'var': m.group(2), 'requires': [], 'does': [], 'gives': []})
            cl = Clause('pool', tags, label, m.group(4), parse_expr(m.group(4)))
            p['requires' if m.group(3) == 'requires' else 'does'].append(cl)
            if m.group(3) == 'gives':
                p['gives'].append(cl)
        elif kw == 'cases':
            c.cases.append(tuple(parse_expr(x) for x in rest.split(' else ')))
        elif kw == 'panics':
            c.panics.append(Clause('panics', tags, label, rest, parse_expr(rest)))
        elif kw == 'let':
            m = re.match(r'(\w+)\s*=\s*(.*)$', rest)
            c.lets.append((m.group(1), parse_expr(m.group(2))))
        elif kw == 'started':
            m = re.match(r'(.*?)\s*:=\s*(.*)$', rest)
            c.started.append((parse_expr(m.group(1)), parse_expr(m.group(2))))
        elif kw in ('ghost', 'set'):
            # set: the value is known to callers from the assignment itself
            m = re.match(r'(.*?)\s*:=\s*(.*)$', rest)
            c.ghosts.append((parse_expr(m.group(1)), parse_expr(m.group(2)), rest))
            if kw == 'set':
                c.sets.add(rest)
        elif kw in ('inline', 'pure', 'trusted', 'constructor', 'nopublish', 'goroutine', 'mayclose', 'noframe', 'nullable', 'skip', 'yieldfn', 'nolocks', 'anylocks', 'opaque', 'unverified', 'nonil', 'fresh', 'locks', 'noinv', 'overflow', 'bounded', 'merge', 'recvinv', 'detached', 'strings', 'short', 'elements'):
            c.flags.add(kw)
            if rest:
                c.flags |= {kw + ':' + x.strip() for x in rest.split(',')}
        else:
            raise SpecError('unknown clause ' + kw)
