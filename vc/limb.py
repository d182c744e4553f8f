"""Exact machine-arithmetic verifier for prime_field.cpp.

Executes the typed AST of a function symbolically over limbs.  Unsigned 64 and
128 bit operations are exact: every wrap-around, shift and mask introduces the
integer quotient it denotes (x = q*2^k + r, 0 <= r < 2^k).  Values are
polynomials over the limbs with integer coefficients; products of limbs are
monomials with interval and McCormick facts, so that every obligation is linear
integer arithmetic over monomials.  Callees are used through their contracts,
functions without a contract are inlined."""
import math, re, time, itertools, subprocess, tempfile, os, copy
import z3
import cxxast
import terms
from engine import Obligation, Unsupported, Dead
STATS = terms.STATS

PRIME = 16798108731015832284940804142231733909759579603404752749028378864165570215949
W = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
     'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, '__int128': 128, 'unsigned __int128': 128}
SIGNED = {'char', 'signed char', 'short', 'int', 'long', 'long long', '__int128'}
ALIAS = {'__uint128_t': 'unsigned __int128', '__int128_t': '__int128', 'size_t': 'unsigned long', 'std::size_t': 'unsigned long', 'uint64_t': 'unsigned long',
         'unsigned': 'unsigned int', 'uint32_t': 'unsigned int', 'int64_t': 'long', 'int32_t': 'int', 'u64': 'unsigned long', 'size_type': 'unsigned long',
         'std::basic_string<char>::size_type': 'unsigned long', 'std::string::size_type': 'unsigned long'}

VB = {}       # variable -> (lo, hi)
DEF = {}      # variable -> [(Lin, lo, hi)]   facts that define it
_q = {}
QD = {}
RNG = {}      # non-constant part of a remainder -> its range


def note_range(l, lo, hi):
    c0 = l.d.get((), 0)
    RNG[tuple(sorted((m, c) for m, c in l.d.items() if m))] = (lo - c0, hi - c0)


def reset():
    VB.clear(), DEF.clear(), _q.clear(), RNG.clear(), QD.clear(), _bit.clear()


class Lin:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if c}

    @staticmethod
    def c(k):
        return Lin({(): int(k)})

    @staticmethod
    def v(name, lo, hi):
        VB[name] = (lo, hi)
        return Lin({(name,): 1})

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def __add__(self, o):
        o = o if isinstance(o, Lin) else Lin.c(o)
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Lin(d)

    def __neg__(self):
        return Lin({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-(o if isinstance(o, Lin) else Lin.c(o)))

    def __mul__(self, o):
        if not isinstance(o, Lin):
            return Lin({m: c * o for m, c in self.d.items()})
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = tuple(sorted(m + n))
                d[k] = d.get(k, 0) + c * e
        return Lin(d)

    def key(self):
        return tuple(sorted(self.d.items()))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def interval(self):
        lo, hi = self._interval()
        k = tuple(sorted((m, c) for m, c in self.d.items() if m))
        if k and RNG:
            g = 0
            for _, c in k:
                g = math.gcd(g, c)
            r = RNG.get(tuple((m, c // g) for m, c in k))
            if r is not None:
                c0 = self.d.get((), 0)
                lo, hi = max(lo, r[0] * g + c0), min(hi, r[1] * g + c0)
        return lo, hi

    def _interval(self):
        lo = hi = 0
        for m, c in self.d.items():
            a, b = mono_bounds(m)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    def __repr__(self):
        return ' + '.join(('%d*' % c if c != 1 else '') + ('*'.join(m) or '1') for m, c in sorted(self.d.items())) or '0'


def mono_bounds(m):
    lo = hi = 1
    for v in m:
        a, b = VB[v]
        cs = (lo * a, lo * b, hi * a, hi * b)
        lo, hi = min(cs), max(cs)
    return lo, hi


def quot(x, k):
    """floor(x / 2^k)"""
    r = quot0(x, k)
    if r.const() is None:
        lo, hi = x.interval()
        lo, hi = lo >> k, hi >> k
        l2, h2 = r.interval()
        if lo > l2 or hi < h2:
            note_range(r, max(lo, l2), min(hi, h2))
    return r


def quot0(x, k):
    n = 1 << k
    c = x.const()
    if c is not None:
        return Lin.c(c >> k)
    # part with coefficients divisible by 2^k is divided exactly
    ex = Lin({m: c for m, c in x.d.items() if c % n == 0})
    rest = x - ex
    ex = Lin({m: c // n for m, c in ex.d.items()})
    if len(rest.d) == 1:
        (m, c), = rest.d.items()
        if c == 1 and len(m) == 1 and m[0] in QD:      # floor(floor(y/2^a)/2^b) = floor(y/2^(a+b))
            y, j = QD[m[0]]
            return ex + quot(y, j + k)
    # low part that fits below a power of two is dropped: floor((A + 2^j B)/2^k) = floor(B/2^(k-j)) for 0 <= A < 2^j
    js = sorted({(c & -c).bit_length() - 1 for c in rest.d.values()}, reverse=True)
    for j in js:
        if not 0 < j <= k:
            continue
        A = Lin({m: c for m, c in rest.d.items() if c % (1 << j)})
        if not A.d:
            return ex + quot(Lin({m: c >> j for m, c in rest.d.items()}), k - j)
        lo, hi = A.interval()
        if lo >= 0 and hi < (1 << j):
            return ex + quot(Lin({m: c >> j for m, c in (rest - A).d.items()}), k - j)
    lo, hi = rest.interval()
    if lo >> k == hi >> k:
        return ex + (lo >> k)
    key = (rest.key(), k)
    if key not in _q:
        name = 'q%d' % len(_q)
        _q[key] = name
        v = Lin.v(name, lo >> k, hi >> k)
        DEF[name] = [(rest - v * n, 0, n - 1)]
        QD[name] = (rest, k)
        note_range(rest - v * n, 0, n - 1)
    return ex + Lin({(_q[key],): 1})


def quotp(x, p):
    """floor(x / p) for an arbitrary positive p"""
    c = x.const()
    if c is not None:
        return Lin.c(c // p)
    lo, hi = x.interval()
    key = (x.key(), ('p', p))
    if key not in _q:
        name = 'k%d' % len(_q)
        _q[key] = name
        v = Lin.v(name, lo // p, hi // p)
        DEF[name] = [(x - v * p, 0, p - 1)]
        note_range(x - v * p, 0, p - 1)
    return Lin({(_q[key],): 1})


def wrap(x, k):
    r = x - quot(x, k) * (1 << k)
    if r.const() is None:
        lo, hi = r.interval()
        if lo < 0 or hi >= (1 << k):
            note_range(r, max(lo, 0), min(hi, (1 << k) - 1))
    return r


class Cond:
    """lin op 0"""
    __slots__ = ('op', 'l')
    NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '<=': '>', '>': '<='}

    def __init__(self, op, l):
        self.op, self.l = op, l

    def neg(self):
        return Cond(self.NEG[self.op], self.l)

    def value(self):
        lo, hi = self.l.interval()
        r = {'==': (lo == hi == 0, lo > 0 or hi < 0), '!=': (lo > 0 or hi < 0, lo == hi == 0), '<': (hi < 0, lo >= 0), '>=': (lo >= 0, hi < 0),
             '<=': (hi <= 0, lo > 0), '>': (lo > 0, hi <= 0)}[self.op]
        return True if r[0] else False if r[1] else None

    def __repr__(self):
        return '%r %s 0' % (self.l, self.op)


def zv(m):
    return z3.Int('*'.join(m))


def zlin(l):
    t = [z3.IntVal(c) * zv(m) if m else z3.IntVal(c) for m, c in l.d.items()]
    return z3.Sum(t) if t else z3.IntVal(0)


def zcond(c):
    z = zlin(c.l)
    return {'==': z == 0, '!=': z != 0, '<': z < 0, '>=': z >= 0, '<=': z <= 0, '>': z > 0}[c.op]


def closure(lins):
    """facts about every monomial the given forms depend on"""
    out, seen, seenv = [], set(), set()
    work = list(lins)
    while work:
        l = work.pop()
        for m in l.d:
            if not m or m in seen:
                continue
            seen.add(m)
            lo, hi = mono_bounds(m)
            out.append(zv(m) >= lo)
            out.append(zv(m) <= hi)
            for v in m:
                if v not in seenv:
                    seenv.add(v)
                    work.append(Lin({(v,): 1}))
                    for (d, a, b) in DEF.get(v, ()):
                        z = zlin(d)
                        out.append(z == a if a == b else z3.And(z >= a, z <= b))
                        work.append(d)
            if len(m) == 2 and all(VB[v][0] >= 0 for v in m):
                x, y = (m[0],), (m[1],)
                (xl, xh), (yl, yh) = VB[m[0]], VB[m[1]]
                X, Y, M = zv(x), zv(y), zv(m)
                out += [M >= xl * Y + yl * X - xl * yl, M >= xh * Y + yh * X - xh * yh, M <= xh * Y + yl * X - xh * yl, M <= xl * Y + yh * X - xl * yh]
    return out


def solve(conds, timeout=20, want_model=False):
    """'unsat' | 'sat' | 'unknown', model"""
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', int(timeout * 1000))
    for c in conds:
        s.add(zcond(c))
    for f in closure([c.l for c in conds]):
        s.add(f)
    t = time.time()
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        m = s.model()
        return 'sat', {str(d): m[d].as_long() for d in m.decls()}
    # second opinion
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic QF_LIA)\n' + s.to_smt2().replace('(set-info :status unknown)', ''))
    t = time.time()
    try:
        o = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout + 5).stdout.decode()
    except subprocess.TimeoutExpired:
        o = ''
    os.unlink(f.name)
    STATS['time'] += time.time() - t
    if o.startswith('unsat'):
        return 'unsat', None
    if o.startswith('sat'):
        return 'sat', None
    STATS['unknown'] += 1
    return 'unknown', None


class Obj:
    def __init__(self, t, f):
        self.t, self.f = t, f

    def copy(self):
        return Obj(self.t, {k: cp(v) for k, v in self.f.items()})

    def __repr__(self):
        return '%s%r' % (self.t, self.f)


def cp(v):
    return v.copy() if isinstance(v, Obj) else v


class Ref:
    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        return self.c.f[self.k] if isinstance(self.c, Obj) else self.c[self.k]

    def set(self, v):
        v = cp(v)
        if isinstance(self.c, Obj):
            self.c.f[self.k] = v
        else:
            self.c[self.k] = v


class PtrV:
    def __init__(self, arr, off=0):
        self.arr, self.off = arr, off


class Uninit:
    def __repr__(self):
        return '<uninitialised>'


UN = Uninit()


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


def ctype(t):
    t = t.replace('const ', '').replace('volatile ', '').replace(' const', '').strip()
    t = t.replace('prime_field::', '').replace('class ', '').replace('struct ', '')
    while t.endswith('&'):
        t = t[:-1].strip()
    return ALIAS.get(t, t)


def node_type(n):
    t = n.get('type', {})
    return ctype(t.get('desugaredQualType') or t.get('qualType', ''))


STRUCTS = {'u256b': [('lo', 'unsigned long long'), ('mid', 'unsigned long long'), ('hi', 'unsigned __int128')],
           'u512b': [('lo', 'unsigned __int128'), ('mid', 'unsigned __int128'), ('hi', 'u256b')],
           'field_element': [('value', 'u512b')]}


def val256(o):
    return o.f['lo'] + o.f['mid'] * (1 << 64) + o.f['hi'] * (1 << 128)


def val512(o):
    return o.f['lo'] + o.f['mid'] * (1 << 128) + val256(o.f['hi']) * (1 << 256)


def val(o):
    if isinstance(o, Ref):
        o = o.get()
    if o.t == 'u256b':
        return val256(o)
    if o.t == 'u512b':
        return val512(o)
    return val512(o.f['value'])


def u256(l):
    """limbs of a value known to lie in [0, 2^256)"""
    a = quot(l, 64)
    b = quot(a, 64)
    return Obj('u256b', {'lo': wrap(l, 64), 'mid': wrap(a, 64), 'hi': b})


def u512(l):
    a = quot(l, 128)
    b = quot(a, 128)
    return Obj('u512b', {'lo': wrap(l, 128), 'mid': wrap(a, 128), 'hi': u256(b)})


def fe(l):
    return Obj('field_element', {'value': u512(l)})


def sym256(nm):
    return Obj('u256b', {'lo': Lin.v(nm + '.lo', 0, 2 ** 64 - 1), 'mid': Lin.v(nm + '.mid', 0, 2 ** 64 - 1), 'hi': Lin.v(nm + '.hi', 0, 2 ** 128 - 1)})


def sym512(nm):
    return Obj('u512b', {'lo': Lin.v(nm + '.lo', 0, 2 ** 128 - 1), 'mid': Lin.v(nm + '.mid', 0, 2 ** 128 - 1), 'hi': sym256(nm + '.hi')})


def sym512lo(nm):
    """a 512-bit object holding a value below 2^256"""
    return Obj('u512b', {'lo': Lin.v(nm + '.lo', 0, 2 ** 128 - 1), 'mid': Lin.v(nm + '.mid', 0, 2 ** 128 - 1), 'hi': u256(Lin.c(0))})


class Path:
    def __init__(self, plan):
        self.plan, self.pos = list(plan), 0
        self.conds = []


class Exec:
    def __init__(self, prog, label, contracts):
        self.prog, self.label, self.contracts = prog, label, contracts
        self.obls, self.dropped, self.havocs, self.used = [], set(), [], set()
        self.undecided = []
        self.maxsteps = 3000000
        self.models = []
        self.assume = []

    # ---- decisions
    def decide(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, Lin):
            c = Cond('!=', c)
        v = c.value()
        if v is not None:
            return v
        p = self.p
        if p.pos < len(p.plan):
            r = p.plan[p.pos]
            p.pos += 1
            p.conds.append(c if r else c.neg())
            return r
        t, _ = solve(self.assume + p.conds + [c], 10)
        if t == 'unsat':
            p.plan.append(None)
            p.pos += 1
            p.plan[-1] = ('f', False)
            r = False
        else:
            f, _ = solve(self.assume + p.conds + [c.neg()], 10)
            if f == 'unsat':
                p.plan.append(('f', True))
                r = True
            else:
                p.plan.append(True)
                r = True
            p.pos += 1
        p.conds.append(c if r else c.neg())
        return r

    def explore(self, fn):
        out, work = [], [[]]
        n = 0
        while work:
            plan = work.pop()
            n += 1
            if n > 3000:
                raise Unsupported('too many paths')
            self.p = Path([x[1] if isinstance(x, tuple) else x for x in plan])
            self.steps = 0
            k = len(plan)
            try:
                out.append((self.p, fn()))
            except Dead:
                pass
            full = self.p.plan
            for i in range(k, len(full)):
                if full[i] is True:
                    work.append([x[1] if isinstance(x, tuple) else x for x in full[:i]] + [False])
        return out

    # ---- obligations
    def prove(self, name, c, definite=True):
        """c: Cond or bool under the current path"""
        if isinstance(c, bool):
            ok, r, m = c, 'sat', None
            if ok:
                r = 'unsat'
            else:
                r, m = solve(self.assume + self.p.conds, 20)
                ok = r == 'unsat'
        else:
            v = c.value()
            if v is True:
                r, m = 'unsat', None
            else:
                r, m = solve(self.assume + self.p.conds + [c.neg()], 45)
        ok = r == 'unsat' if not (isinstance(c, bool) and c) else True
        d = ''
        if not ok:
            d = '%s: cannot show %s under %s' % (r, str(c)[:600], str(self.p.conds)[:1500])
            if m:
                m = {k: v for k, v in m.items() if '*' not in k}
                d += ' || countermodel ' + str(m)[:2500]
                self.models.append(m)
        self.obls.append(Obligation(self.label, name, ok, d, r == 'sat' and definite))
        return ok

    def prove_eq(self, name, a, b):
        if a == b:
            self.obls.append(Obligation(self.label, name, True))
            return True
        return self.prove(name, Cond('==', a - b))

    # ---- statements
    def call(self, fn, this, args):
        ps = [c for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        env = {}
        for p, a in zip(ps, args):
            t = p['type']['qualType']
            if t.rstrip().endswith('&'):
                env[p['id']] = a if isinstance(a, Ref) else Ref([cp(a)], 0)
            else:
                env[p['id']] = Ref([self.conv(cp(self.rv(a)), ctype(p['type'].get('desugaredQualType') or t))], 0)
        fr = {'env': env, 'this': this}
        for c in fn.get('inner', []):
            if c.get('kind') == 'CXXCtorInitializer':
                m = c.get('anyInit', {}).get('name')
                if m is None:
                    raise Unsupported('base or delegating initialiser')
                if c.get('inner'):
                    v = self.rv(self.ev(c['inner'][0], fr))
                    this.get().f[m] = cp(v)
        body = [c for c in fn['inner'] if c.get('kind') == 'CompoundStmt'][0]
        try:
            self.stmt(body, fr)
        except Ret as r:
            return r.v
        return None

    def conv(self, v, t):
        if isinstance(v, (Lin, bool, Cond)) and t in W:
            return self.cast(v, t)
        return v

    def stmt(self, n, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('too many steps')
        k = n['kind']
        if k == 'CompoundStmt':
            for c in n.get('inner', []):
                self.stmt(c, fr)
        elif k == 'DeclStmt':
            for d in n['inner']:
                if d['kind'] == 'VarDecl':
                    self.var(d, fr)
        elif k == 'ReturnStmt':
            raise Ret(cp(self.rv(self.ev(n['inner'][0], fr))) if n.get('inner') else None)
        elif k == 'IfStmt':
            inner = n['inner']
            if n.get('hasInit') or n.get('hasVar'):
                raise Unsupported('if with declaration')
            if self.decide(self.truth(self.rv(self.ev(inner[0], fr)))):
                self.stmt(inner[1], fr)
            elif len(inner) > 2:
                self.stmt(inner[2], fr)
        elif k == 'ForStmt':
            init, _, cond, inc, body = n['inner']
            if init.get('kind'):
                self.stmt(init, fr)
            while not cond.get('kind') or self.decide(self.truth(self.rv(self.ev(cond, fr)))):
                try:
                    self.stmt(body, fr)
                except Brk:
                    break
                except Cnt:
                    pass
                if inc.get('kind'):
                    self.ev(inc, fr)
        elif k == 'WhileStmt':
            cond, body = n['inner'][-2:]
            while self.decide(self.truth(self.rv(self.ev(cond, fr)))):
                try:
                    self.stmt(body, fr)
                except Brk:
                    break
                except Cnt:
                    pass
        elif k == 'DoStmt':
            body, cond = n['inner']
            while True:
                try:
                    self.stmt(body, fr)
                except Brk:
                    break
                except Cnt:
                    pass
                if not self.decide(self.truth(self.rv(self.ev(cond, fr)))):
                    break
        elif k == 'BreakStmt':
            raise Brk()
        elif k == 'ContinueStmt':
            raise Cnt()
        elif k == 'NullStmt':
            pass
        elif k == 'SwitchStmt':
            raise Unsupported('switch')
        else:
            self.ev(n, fr)

    def default(self, t):
        t = ctype(t)
        if t in STRUCTS:
            return self.construct(t, 'void ()', [])
        m = re.match(r'(.*?)\s*\[(\d+)\](.*)$', t)
        if m:
            return {'_arr': (m.group(1) + m.group(3))}
        if t.startswith(('std::vector', 'vector')):
            return Obj('vector', {'v': []})
        if t.startswith(('std::string', 'std::basic_string')):
            return ''
        return UN

    def var(self, d, fr):
        t = d['type']['qualType']
        ct = ctype(d['type'].get('desugaredQualType') or t)
        init = [c for c in d.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal', 'Cleanups'))]
        if init:
            v = self.ev(init[0], fr)
            if t.rstrip().endswith('&'):
                fr['env'][d['id']] = v if isinstance(v, Ref) else Ref([cp(v)], 0)
                return
            v = cp(self.rv(v))
            if isinstance(v, str) and 'char' in ct and '[' in ct:
                v = list(v)
        else:
            v = self.default(ct)
        if isinstance(v, dict):
            pass
        fr['env'][d['id']] = Ref([self.conv(v, ct)], 0)

    # ---- expressions
    def rv(self, v):
        if isinstance(v, Ref):
            v = v.get()
        return v

    def truth(self, v):
        if isinstance(v, Lin):
            c = v.const()
            if c is not None:
                return c != 0
            return Cond('!=', v)
        if v is UN:
            raise Unsupported('branch on an uninitialised value')
        return v

    def num(self, v):
        v = self.rv(v)
        if isinstance(v, bool):
            return Lin.c(int(v))
        if isinstance(v, Cond):
            return Lin.c(1 if self.decide(v) else 0)
        if isinstance(v, str) and len(v) == 1:
            return Lin.c(ord(v))
        if not isinstance(v, Lin):
            raise Unsupported('number expected, got %r' % (v,))
        return v

    def cast(self, v, t):
        if t == 'bool':
            return self.truth(v)
        v = self.num(v)
        if t in W:
            if t in SIGNED:
                lo, hi = v.interval()
                h = 1 << (W[t] - 1)
                if -h <= lo and hi < h:
                    return v
                # two's complement reinterpretation
                u = wrap(v, W[t])
                if self.decide(Cond('>=', u - h)):
                    return u - (1 << W[t])
                return u
            return wrap(v, W[t])
        raise Unsupported('cast to ' + t)

    def ev(self, n, fr):
        f = getattr(self, 'e_' + n['kind'], None)
        if f is None:
            raise Unsupported('expression ' + n['kind'])
        return f(n, fr)

    def _pass(self, n, fr):
        return self.ev(n['inner'][0], fr)
    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = _pass

    def e_IntegerLiteral(self, n, fr):
        return Lin.c(int(n['value']))

    def e_CharacterLiteral(self, n, fr):
        return Lin.c(int(n['value']))

    def e_CXXBoolLiteralExpr(self, n, fr):
        return bool(n['value'])

    def e_StringLiteral(self, n, fr):
        import ast
        return ast.literal_eval(n['value'])

    def e_CXXThisExpr(self, n, fr):
        return fr['this']

    def e_DeclRefExpr(self, n, fr):
        d = n['referencedDecl']
        if d['id'] in fr['env']:
            return fr['env'][d['id']]
        q = self.prog.qual.get(d['id'], d.get('name'))
        return self.globref(q, d)

    def globref(self, q, d):
        nm = q.split('::')[-1]
        if nm not in self.glob:
            g = self.prog.globals.get(q) or self.prog.byid.get(d['id'])
            if g is None or d.get('kind') != 'VarDecl':
                raise Unsupported('reference to ' + q)
            init = [c for c in g.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal', 'Cleanups'))]
            t = ctype(g['type'].get('desugaredQualType') or g['type']['qualType'])
            if init and 'const' in g['type']['qualType']:
                self.glob[nm] = self.conv(cp(self.rv(self.ev(init[0], {'env': {}, 'this': None}))), t)
            else:
                self.glob[nm] = self.default(t) if t not in W else UN
        return Ref(self.glob, nm)

    def e_MemberExpr(self, n, fr):
        b = self.ev(n['inner'][0], fr)
        o = self.rv(b)
        if isinstance(o, Ref):      # pointer to object
            o = o.get()
        if isinstance(o, PtrV):
            o = o.arr
        if not isinstance(o, Obj):
            raise Unsupported('member of %r' % (o,))
        return Ref(o, n['name'])

    def e_ImplicitCastExpr(self, n, fr):
        ck = n.get('castKind')
        v = self.ev(n['inner'][0], fr)
        if ck == 'LValueToRValue':
            v = self.rv(v)
            if v is UN:
                raise Unsupported('read of an uninitialised variable')
            return cp(v)
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            return self.cast(self.rv(v), node_type(n))
        if ck == 'IntegralToBoolean':
            return self.truth(self.num(v))
        if ck in ('NoOp', 'ConstructorConversion', 'FunctionToPointerDecay', 'UserDefinedConversion', 'DerivedToBase'):
            return v
        if ck == 'ArrayToPointerDecay':
            return PtrV(v.get() if isinstance(v, Ref) else v)
        if ck in ('ToVoid',):
            return None
        if ck in ('NullToPointer',):
            return None
        raise Unsupported('cast ' + str(ck))
    e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = e_ImplicitCastExpr

    def e_UnaryOperator(self, n, fr):
        op = n['opcode']
        v = self.ev(n['inner'][0], fr)
        t = node_type(n)
        if op == '~':
            w = self.num(v)
            if t in SIGNED:
                return -w - 1
            return Lin.c((1 << W[t]) - 1) - w
        if op == '-':
            return self.arith_wrap(-self.num(v), t)
        if op == '+':
            return self.num(v)
        if op == '!':
            c = self.truth(self.rv(v))
            return (not c) if isinstance(c, bool) else c.neg()
        if op in ('++', '--'):
            old = self.num(v)
            new = self.arith_wrap(old + (1 if op == '++' else -1), t)
            v.set(new)
            return old if n.get('isPostfix') else v
        if op == '*':
            w = self.rv(v)
            if isinstance(w, PtrV):
                return Ref(w.arr, w.off)
            return w if isinstance(w, Ref) else v
        if op == '&':
            return v
        raise Unsupported('unary ' + op)

    def arith_wrap(self, v, t):
        if t not in W:
            raise Unsupported('arithmetic at type ' + t)
        if t in SIGNED:
            lo, hi = v.interval()
            h = 1 << (W[t] - 1)
            if not (-h <= lo and hi < h):
                self.prove('no signed overflow', Cond('>=', v + h))
                self.prove('no signed overflow', Cond('<', v - h))
            return v
        return wrap(v, W[t])

    def arith(self, op, a, b, t):
        if op in ('+', '-', '*'):
            r = a + b if op == '+' else a - b if op == '-' else a * b
            return self.arith_wrap(r, t)
        if op in ('<<', '>>'):
            k = b.const()
            if k is None:
                raise Unsupported('shift by %r' % b)
            if not 0 <= k < W[t]:
                self.prove('shift amount %d is below the operand width %d' % (k, W[t]), False)
                raise Dead()
            if op == '<<':
                return self.arith_wrap(a * (1 << k), t)
            return quot(a, k)
        if op in ('/', '%'):
            k = b.const()
            if k is None or k <= 0 or a.interval()[0] < 0:
                raise Unsupported('division')
            q = quotp(a, k) if k & (k - 1) else quot(a, k.bit_length() - 1)
            return q if op == '/' else a - q * k
        if op in ('&', '|', '^'):
            return self.bitop(op, a, b, t)
        raise Unsupported('operator ' + op)

    def bitop(self, op, a, b, t):
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            return Lin.c({'&': ca & cb, '|': ca | cb, '^': ca ^ cb}[op])
        if op == '&':
            for x, c in ((a, cb), (b, ca)):
                if c is not None:
                    c &= (1 << W[t]) - 1
                    if c & (c + 1) == 0:
                        return wrap(x, c.bit_length())
                    s = (c & -c).bit_length() - 1
                    h = c >> s
                    if h & (h + 1) == 0:          # contiguous mask
                        return wrap(quot(x, s), h.bit_length()) * (1 << s)
        else:
            for x, y in ((a, b), (b, a)):
                lo, hi = x.interval()
                if lo >= 0:
                    k = hi.bit_length()
                    if all(c % (1 << k) == 0 for c in y.d.values()):
                        return x + y              # disjoint bits
        la, ha = a.interval()
        lb, hb = b.interval()
        if la < 0 or lb < 0:
            raise Unsupported('bit operation on signed values %r %r' % (a, b))
        hi = min(ha, hb) if op == '&' else (1 << max(ha.bit_length(), hb.bit_length())) - 1
        nm = '(%s %s %s)' % tuple([op] + sorted([repr(a), repr(b)]))
        nm = 'bit%s%d' % ({'&': 'and', '|': 'or', '^': 'xor'}[op], _bit.setdefault(nm, len(_bit)))
        r = Lin.v(nm, 0, hi)
        if op == '|' and nm not in DEF:
            DEF[nm] = [(r - a, 0, hi), (r - b, 0, hi), (a + b - r, 0, ha + hb)]
        if op == '&' and nm not in DEF:
            DEF[nm] = [(a - r, 0, ha), (b - r, 0, hb)]
        return r

    def e_BinaryOperator(self, n, fr):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            t = self.ev(l, fr)
            v = cp(self.rv(self.ev(r, fr)))
            t.set(self.conv(v, node_type(l)))
            return t
        if op == ',':
            self.ev(l, fr)
            return self.ev(r, fr)
        if op in ('&&', '||'):
            a = self.decide(self.truth(self.rv(self.ev(l, fr))))
            if op == '&&' and not a:
                return False
            if op == '||' and a:
                return True
            return self.truth(self.rv(self.ev(r, fr)))
        a, b = self.rv(self.ev(l, fr)), self.rv(self.ev(r, fr))
        if isinstance(a, PtrV):
            k = self.num(b).const()
            return PtrV(a.arr, a.off + (k if op == '+' else -k))
        if op in ('==', '!=', '<', '<=', '>', '>='):
            a, b = self.num(a), self.num(b)
            c = Cond(op, a - b)
            v = c.value()
            return c if v is None else v
        return self.arith(op, self.num(a), self.num(b), node_type(n))

    def e_CompoundAssignOperator(self, n, fr):
        op = n['opcode'][:-1]
        l, r = n['inner']
        tgt = self.ev(l, fr)
        b = self.num(self.ev(r, fr))
        ct = ctype((n.get('computeResultType') or n['type']).get('desugaredQualType') or (n.get('computeResultType') or n['type'])['qualType'])
        a = self.cast(self.num(tgt), ct) if ct in W else self.num(tgt)
        tgt.set(self.cast(self.arith(op, a, b, ct), node_type(l)))
        return tgt

    def e_ConditionalOperator(self, n, fr):
        c, a, b = n['inner']
        # assert(...)
        if self.decide(self.truth(self.rv(self.ev(c, fr)))):
            return self.ev(a, fr)
        return self.ev(b, fr)

    def e_ArraySubscriptExpr(self, n, fr):
        b = self.rv(self.ev(n['inner'][0], fr))
        i = self.num(self.ev(n['inner'][1], fr)).const()
        if i is None:
            raise Unsupported('symbolic subscript')
        if isinstance(b, str):
            b = PtrV(b)
        if not isinstance(b, PtrV):
            raise Unsupported('subscript of %r' % (b,))
        a, i = b.arr, i + b.off
        if isinstance(a, Ref):
            a = a.get()
        if isinstance(a, str):
            if not 0 <= i <= len(a):
                self.prove('string index in bounds', False)
                raise Dead()
            return Lin.c(ord(a[i]) if i < len(a) else 0)
        if isinstance(a, dict):
            if '_len' in a and not 0 <= i < a['_len']:
                self.prove('array index in bounds', False)
                raise Dead()
            if i not in a and '_arr' in a:
                a[i] = self.default(a['_arr'])
            return Ref(a, i)
        return Ref(a, i)

    def e_CXXDefaultArgExpr(self, n, fr):
        return None

    def e_CXXNullPtrLiteralExpr(self, n, fr):
        return None

    def e_CXXNewExpr(self, n, fr):
        if not n.get('isArray'):
            raise Unsupported('new')
        sz = [c for c in n['inner'] if c.get('kind')]
        k = self.num(self.ev(sz[0], fr)).const()
        return PtrV({'_arr': node_type(n).rstrip('* '), '_len': k if k is not None else 0})

    def e_CXXDeleteExpr(self, n, fr):
        self.dropped.add('delete expressions')
        return None

    def e_InitListExpr(self, n, fr):
        raise Unsupported('initialiser list')

    # ---- calls
    def construct(self, t, sig, args):
        t = ctype(t)
        if t not in STRUCTS:
            if t.startswith(('std::basic_string', 'std::string', 'string')):
                v = self.rv(args[0]) if args else ''
                return v.arr if isinstance(v, PtrV) else v
            if t.startswith(('std::vector', 'vector')):
                if len(args) == 1 and isinstance(self.rv(args[0]), Obj):
                    return cp(self.rv(args[0]))
                if args:
                    raise Unsupported('vector constructor')
                return Obj('vector', {'v': []})
            if 'mpz_class' in t or '__gmp_expr' in t:
                return self.mpz(args)
            raise Unsupported('constructor of ' + t)
        ps = re.sub(r'prime_field::', '', (sig or '')).replace('const ', '')
        m = re.match(r'void \((.*)\)', ps)
        a = m.group(1).replace('&', '').strip() if m else ''
        a = ', '.join(ctype(x) for x in a.split(',')) if a else ''
        if a == t:
            return cp(self.rv(args[0]))
        key = '%s(%s)' % (t, a)
        h = self.contracts.get(key)
        if h:
            self.used.add(key)
            return h(self, None, args)
        q = [q for q in self.prog.funcs if q.split('::')[-2:] == [t, t]]
        for f in self.prog.funcs.get(q[0], []) if q else []:
            fa = re.match(r'void \((.*)\)', f['type']['qualType'].replace('prime_field::', ''))
            fa = fa.group(1).replace('const ', '').replace('&', '').strip()
            fa = ', '.join(ctype(x) for x in fa.split(',')) if fa else ''
            if fa == a:
                o = Obj(t, {nm: (UN if ft in W else self.construct(ft, 'void ()', [])) for nm, ft in STRUCTS[t]})
                r = Ref([o], 0)
                self.call(f, r, args)
                return r.get()
        raise Unsupported('constructor %s' % key)

    def e_CXXConstructExpr(self, n, fr):
        args = [self.ev(a, fr) for a in n.get('inner', []) if a.get('kind') != 'CXXDefaultArgExpr']
        return self.construct(node_type(n), n.get('ctorType', {}).get('qualType'), args)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def mpz(self, args):
        v = self.rv(args[0])
        if len(args) == 1 and isinstance(v, Obj) and v.t == 'mpz':
            return v
        base = self.num(args[1]).const() if len(args) > 1 else None
        if not isinstance(v, PtrV) or base != 2:
            raise Unsupported('mpz_class constructor')
        a, i, r = v.arr, v.off, Lin.c(0)
        while True:
            x = a.get(i, UN)
            if x is UN:
                raise Unsupported('unterminated string')
            c = x.const() if isinstance(x, Lin) else None
            if c == 0:
                break
            d = x - 48
            lo, hi = d.interval()
            if lo < 0 or hi > 1:
                self.prove('digit of the numeral is 0 or 1', Cond('>=', d))
                self.prove('digit of the numeral is 0 or 1', Cond('<=', d - 1))
            r = r * 2 + d
            i += 1
        return Obj('mpz', {'v': r})

    def invoke(self, q, did, this, args, nargs):
        t = q.split('::')
        key = '::'.join(t[-2:]) if len(t) > 1 and t[-2] in STRUCTS else t[-1]
        h = self.contracts.get(key)
        if h and key != self.target:
            self.used.add(key)
            return h(self, this, args)
        fn = self.prog.bodyof.get(did)
        if fn is None:
            raise Unsupported('call to ' + q)
        return self.call(fn, this, args)

    def callee(self, n):
        f = n['inner'][0]
        while f.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            f = f['inner'][0]
        return f

    def e_CallExpr(self, n, fr):
        f = self.callee(n)
        d = f.get('referencedDecl')
        if not d:
            raise Unsupported('indirect call')
        name = d['name']
        if name == '__assert_fail':
            self.prove('assert not violated', False)
            raise Dead()
        args = [self.ev(a, fr) for a in n['inner'][1:]]
        if name in ('__builtin_clzll', '__builtin_clzl'):
            x = self.num(args[0])
            self.prove('clz operand is not zero', Cond('>=', x - 1))
            for c in range(64):
                if self.decide(Cond('>=', x - (1 << (63 - c)))):
                    return Lin.c(c)
            raise Dead()
        if name == 'rand':
            self.nrand = getattr(self, 'nrand', 0) + 1
            return Lin.v('rand%d' % self.nrand, 0, 2 ** 31 - 1)
        if name in ('printf', 'fprintf', 'srand', 'time', 'fflush', 'puts'):
            self.dropped.add('calls to ' + name)
            return Lin.c(0)
        q = self.prog.qual.get(d['id'])
        if name in ('strlen',):
            v = self.rv(args[0])
            v = v.arr if isinstance(v, PtrV) else v
            if isinstance(v, str):
                return Lin.c(len(v))
        if name == 'move':
            return args[0]
        if name == 'swap':
            a, b = cp(args[0].get()), cp(args[1].get())
            args[0].set(b)
            args[1].set(a)
            return None
        if q is None:
            raise Unsupported('call to ' + name)
        return self.invoke(q, d['id'], None, args, len(args))

    def e_CXXMemberCallExpr(self, n, fr):
        m = n['inner'][0]
        while m.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            m = m['inner'][0]
        o = self.ev(m['inner'][0], fr)
        args = [self.ev(a, fr) for a in n['inner'][1:]]
        did = m.get('referencedMemberDecl')
        q = self.prog.qual.get(did)
        ov = self.rv(o)
        if isinstance(ov, Ref):
            o, ov = ov, ov.get()
        if q is None or not isinstance(ov, Obj) or ov.t not in STRUCTS:
            nm = m['name']
            if isinstance(ov, str):
                if nm in ('c_str', 'data'):
                    return PtrV(ov)
                if nm in ('length', 'size'):
                    return Lin.c(len(ov))
            if isinstance(ov, Obj) and ov.t == 'vector':
                if nm == 'push_back':
                    ov.f['v'] = ov.f['v'] + [self.rv(args[0])]
                    return None
                if nm == 'reserve':
                    return None
                if nm == 'size':
                    return Lin.c(len(ov.f['v']))
            raise Unsupported('method %s' % nm)
        return self.invoke(q, did, o if isinstance(o, Ref) else Ref([o], 0), args, len(args))

    def e_CXXOperatorCallExpr(self, n, fr):
        f = self.callee(n)
        d = f['referencedDecl']
        args = [self.ev(a, fr) for a in n['inner'][1:]]
        q = self.prog.qual.get(d['id'])
        if d['name'] == 'operator=' and (q is None or self.prog.bodyof.get(d['id']) is None or self.prog.bodyof[d['id']].get('isImplicit')):
            args[0].set(cp(self.rv(args[1])))
            return args[0]
        if q is None:
            if d['name'] == 'operator[]' and isinstance(self.rv(args[0]), str):
                i = self.num(args[1]).const()
                return Lin.c(ord(self.rv(args[0])[i]))
            raise Unsupported('operator ' + d['name'])
        if d['kind'] == 'FunctionDecl':
            return self.invoke(q, d['id'], None, args, len(args))
        o = args[0]
        return self.invoke(q, d['id'], o if isinstance(o, Ref) else Ref([o], 0), args[1:], len(args) - 1)


_bit = {}
