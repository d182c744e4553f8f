"""Symbolic executor / verification-condition generator.

Walks the clang AST of the real functions (see cxxast).  Control flow is
explored path by path (``Path.decide``); loops of unknown length are cut: a
closed form of the loop state after k iterations is proposed (``Loop``), and
accepted only after the obligations ``init`` (holds for k=0) and ``preserve``
(one symbolic execution of the body takes the closed form at k to the closed
form at k+1) are discharged for symbolic k.  Variables for which no closed
form is found are havocked, so an unproved loop can only lose information."""
import copy, itertools, re, os
import z3
from terms import *
import cxxast


class Unsupported(Exception):
    pass


class Dead(Exception):
    pass


class Loc:
    __slots__ = ('base', 'idx')

    def __init__(self, base, idx=()):
        self.base, self.idx = base, tuple(idx)

    def f(self, name):
        return Loc(self.base + '.' + name, self.idx)

    def __repr__(self):
        return '&%s%s' % (self.base, list(self.idx) if self.idx else '')


class Ptr:
    __slots__ = ('base', 'idx', 'off')

    def __init__(self, base, idx=(), off=None):
        self.base, self.idx = base, tuple(idx)
        self.off = IV(0) if off is None else off

    def at(self, i):
        return Loc(self.base, self.idx + (simp(self.off + i),))

    def __repr__(self):
        return 'ptr(%s%s+%s)' % (self.base, list(self.idx), self.off)


class PIte:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class SV:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f

    def __repr__(self):
        return '%s%r' % (self.t, self.f)


_uid = itertools.count(1)


class Big:
    """u512b value v with v = poly (mod p) and lo <= v <= hi (v taken mod 2^512)"""
    __slots__ = ('p', 'lo', 'hi', 'uid')

    def __init__(self, p, lo=0, hi=P - 1):
        self.p, self.lo, self.hi = p, lo, hi
        self.uid = next(_uid)

    def __repr__(self):
        return 'Big(%r)' % self.p


class Opaque:
    def __init__(self, tag=''):
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


class FCond:
    """comparison of two Big values that intervals cannot decide"""
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b


class Arr:
    """content of one memory region: default function plus later writes"""
    __slots__ = ('kind', 'fn', 'writes', 'name')

    def __init__(self, kind, fn, writes=(), name=None):
        self.kind, self.fn, self.writes, self.name = kind, fn, writes, name


class State:
    def __init__(self):
        self.mem = {}      # region base -> Arr; base+'#size' holds the extents
        self.forall = []   # facts established by completed loops

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.forall = list(self.forall)
        return s


class Path:
    def __init__(self, ctx):
        self.ctx = ctx
        self.plan, self.pos = [], 0
        self.decs = []       # decided integer conditions on this path
        self.facts = []      # (poly, True) poly==0 ; (poly, False) poly!=0 ; ('cmp',..)
        self.refine = {}
        self.counters = []   # enclosing loop counters
        self.loopnodes = []
        self.seq = {}        # per callee sequence numbers of external calls
        self.trace = []      # external calls in order
        self.eid, self.nloop = None, 0
        self.insts = []         # outermost loops executed: (trip count, fact known of every iteration i below it)

    def copy(self):
        p = Path(self.ctx.copy())
        p.decs = list(self.decs)
        p.facts = list(self.facts)
        p.refine = dict(self.refine)
        p.counters = list(self.counters)
        p.loopnodes = list(self.loopnodes)
        p.seq = dict(self.seq)
        p.trace = list(self.trace)
        p.insts = list(self.insts)
        return p

    def next_choice(self):
        if self.pos < len(self.plan):
            c = self.plan[self.pos]
        else:
            c = True
            self.plan.append(True)
        self.pos += 1
        return c

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.ctx.implies(cond):
            return True
        if self.ctx.implies(z3.Not(cond)):
            return False
        c = self.next_choice()
        q = cond if c else simp(z3.Not(cond))
        self.ctx.add(q)
        self.decs.append(q)
        return c


class Obligation:
    __slots__ = ('fn', 'name', 'ok', 'detail', 'definite')

    def __init__(self, fn, name, ok, detail='', definite=True):
        self.fn, self.name, self.ok, self.detail, self.definite = fn, name, ok, detail, definite


INT_T = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'long long': (64, True),
         'unsigned long': (64, False), 'unsigned long long': (64, False), 'size_t': (64, False),
         'unsigned __int128': (128, False), '__uint128_t': (128, False), '__int128': (128, True),
         'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'bool': (1, False),
         'short': (16, True), 'unsigned short': (16, False), 'std::size_t': (64, False)}


def clean(t):
    t = t.strip()
    t = re.sub(r'\b(const|class|struct|volatile)\b', '', t)
    t = re.sub(r'\s+', ' ', t).strip()
    return t


def tstr(node):
    t = node.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def strip_ref(t):
    t = clean(t)
    while t.endswith('&'):
        t = t[:-1].strip()
    return t


BIGTYPES = ('prime_field::u512b', 'u512b', 'prime_field::u256b', 'u256b')
OPAQUE_PAT = re.compile(r'chrono|ostream|basic_|random_oracle|FILE|_IO_FILE|double|float')


class Engine:
    def __init__(self, prog, mode='abstract', contracts=None, unroll=600, maxpaths=4000):
        self.prog = prog
        self.mode = mode
        self.contracts = contracts or {}
        self.obls = []
        self.quiet = 0
        self.cur = '?'
        self.defcache = {}
        self.decl_log = []
        self.heap_ids = {}
        self.ext_ids = {}
        self.ndims = {}
        self.ndims0 = {}
        self.recs = {}
        self.rec_ph = {}
        self.new_target = None
        self.stack = []
        self.counter = itertools.count()
        self.nexp = 0
        self.loopcache = {}
        self.unroll = unroll
        self.maxpaths = maxpaths
        self.notes = []
        self.havocs = []        # variables a loop summary could not cover
        self.bound_checks = True
        self.dropped = set()
        self.inlined = set()
        self.called_contracts = set()
        self.strings = {}
        self.depth = 0
        self.text = None
        self.init_store = {}    # base -> Arr
        self.peel = False       # run the first iteration of outermost loops separately
        self.views = {}         # flat array -> log2 of the number of columns
        self.found_views = set()    # those that come from the code's own index arithmetic
        self.globals_val = {}

    # ------------------------------------------------------------ types
    def rec(self, t):
        t = strip_ref(t)
        if t in self.prog.records:
            return t
        for q in self.prog.records:
            if q.endswith('::' + t):
                return q
        return None

    def kind(self, t):
        t = strip_ref(t)
        if t.endswith(']'):
            return 'array'
        if t.endswith('*'):
            return 'ptr'
        if t in INT_T:
            return 'int'
        r = self.rec(t)
        if self.mode == 'abstract' and r in ('prime_field::u512b', 'prime_field::u256b'):
            return 'big'
        if r:
            return 'rec'
        if t.startswith('std::pair<'):
            return 'pair'
        if OPAQUE_PAT.search(t):
            return 'opaque'
        if t.startswith('enum ') or t in ('void',):
            return 'opaque'
        return 'opaque'

    def fields(self, t):
        t = strip_ref(t)
        if t.startswith('std::pair<'):
            inner = t[len('std::pair<'):-1]
            d, parts, cur = 0, [], ''
            for ch in inner:
                if ch == ',' and d == 0:
                    parts.append(cur)
                    cur = ''
                    continue
                d += (ch == '<') - (ch == '>')
                cur += ch
            parts.append(cur)
            return [('first', parts[0].strip()), ('second', parts[1].strip())]
        r = self.prog.records[self.rec(t)]
        out = []
        for c in r.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                out.append((c['name'], c['type'].get('desugaredQualType') or c['type']['qualType']))
        return out

    # ------------------------------------------------------------ memory
    @staticmethod
    def table_of(base):
        return base[:base.rindex('[]') + 2] if '[]' in base else base

    def flat(self, name, idx):
        """the initial contents are specified by flat position"""
        if self.found_views and len(idx) >= 2:
            b = self.table_of(name)
            if b in self.found_views and len(idx) == b.count('[]') + 1:
                return tuple(idx[:-2]) + (simp(idx[-2] * pow2(self.views[b]) + idx[-1]),)
        return idx

    def default_arr(self, base, kind, init_name=None):
        name = init_name or base
        if kind == 'big':
            return Arr('big', lambda idx, path: Big(sel(name, self.flat(name, idx))), (), name)
        if kind == 'int':
            def fn(idx, path, name=name):
                idx = self.flat(name, idx)
                if not idx:
                    e = z3.Int(name)
                else:
                    e = z3.Function(name, *([z3.IntSort()] * (len(idx) + 1)))(*[simp(i) for i in idx])
                return e
            return Arr('int', fn, (), name)
        if kind == 'ptr':
            return Arr('ptr', lambda idx, path: Ptr(name + '[]', idx), (), name)
        return Arr('opaque', lambda idx, path: Opaque(name), (), name)

    def arr(self, st, base, kind):
        a = st.mem.get(base)
        if a is None:
            a = self.base_arr(base, kind)
            st.mem[base] = a
        return a

    def base_arr(self, base, kind):
        a = self.init_store.get(base) or self.defcache.get(base)
        if a is None:
            a = self.defcache[base] = self.default_arr(base, kind)
        return a

    def read_arr(self, a, idx, path):
        """value at idx; unresolved aliasing becomes a conditional value"""
        pend = []
        val = None
        for widx, w in reversed(a.writes):
            conds = []
            distinct = False
            for x, y in zip(widx, idx):
                c = const(simp(x - y))
                if c is not None:
                    if c != 0:
                        distinct = True
                        break
                else:
                    conds.append(x == y)
            if distinct:
                continue
            if conds:
                q = simp(z3.And(conds) if len(conds) > 1 else conds[0])
                if path.ctx.implies(q):
                    conds = []
                elif path.ctx.implies(z3.Not(q)):
                    continue
            if not conds:
                val = w
                break
            pend.append((q, w))
        else:
            val = a.fn(idx, path)
        for q, w in reversed(pend):
            val = self.vite(q, w, val, path)
        return val

    def vite(self, c, a, b, path):
        if isinstance(a, Big) and isinstance(b, Big):
            la, ha = self.bounds_of(a, path)
            lb, hb = self.bounds_of(b, path)
            return Big(ite(c, a.p, b.p), min(la, lb), max(ha, hb))
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)) or a is None or b is None:
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base and len(a.idx) == len(b.idx) and \
                    all(x.eq(y) for x, y in zip(a.idx + (a.off,), b.idx + (b.off,))):
                return a
            return PIte(c, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('merge')
        a, b = self.toint(a), self.toint(b)
        return simp(z3.If(c, a, b))

    def load_leaf(self, st, loc, kind, path):
        self.ndims[loc.base] = len(loc.idx)
        a = self.arr(st, loc.base, kind)
        v = self.read_arr(a, loc.idx, path)
        while isinstance(v, PIte):
            v = v.a if path.decide(v.c) else v.b
        return v

    def store_leaf(self, st, loc, kind, val, path):
        if '[]' in loc.base and re.match(r'(hv|P)\d+!', loc.base):
            raise Unsupported('write through an unknown pointer')
        self.ndims[loc.base] = len(loc.idx)
        a = self.arr(st, loc.base, kind)
        if not loc.idx:
            st.mem[loc.base] = Arr(a.kind, a.fn, (((), val),), a.name)
        else:
            w = a.writes
            if w and len(w[-1][0]) == len(loc.idx) and all(x.get_id() == y.get_id() for x, y in zip(w[-1][0], loc.idx)):
                w = w[:-1]
            st.mem[loc.base] = Arr(a.kind, a.fn, w + ((tuple(simp(i) for i in loc.idx), val),), a.name)

    def load(self, st, loc, t, path):
        k = self.kind(t)
        if k in ('rec', 'pair'):
            return SV(strip_ref(t), {n: self.load(st, loc.f(n), ft, path) for n, ft in self.fields(t)
                                     if self.kind(ft) != 'opaque'})
        if k == 'array':
            return Ptr(loc.base + '[]', loc.idx)
        return self.load_leaf(st, loc, k, path)

    def store(self, st, loc, t, val, path):
        k = self.kind(t)
        if k in ('rec', 'pair'):
            if isinstance(val, Loc):
                val = self.load(st, val, t, path)
            if isinstance(val, Opaque):
                return
            for n, ft in self.fields(t):
                if n in val.f:
                    self.store(st, loc.f(n), ft, val.f[n], path)
            return
        if k == 'opaque':
            return
        if k == 'big' and isinstance(val, SV):
            raise Unsupported('struct into big')
        self.store_leaf(st, loc, k, val, path)

    def check_bounds(self, st, loc, path, node):
        """region bounds obligation for the last index"""
        if not self.bound_checks or not loc.idx:
            return
        base = loc.base
        sb = base + '#size'
        a = st.mem.get(sb) or self.init_store.get(sb)
        if a is None:
            return
        i = loc.idx[-1]
        n = self.views.get(base)
        if n is not None:
            i = loc.idx[-2]
            sz = self.toint(self.read_arr(a, loc.idx[:-2], path))
            ms = self.monomials(sz)
            if len(ms) != 1 or ms[0][1] is None:
                raise Unsupported('size of a table')
            f, q, co = ms[0]
            rows = IV(co) * (IV(1) if path.ctx.eq(q.arg(0), n) else pow2(q.arg(0) - n))
            for y in f:
                rows = rows * y
            self.oblige(path, z3.And(q.arg(0) >= n, i >= 0, i < simp(rows)), 'bounds', node, base)
            return
        sz = self.toint(self.read_arr(a, loc.idx[:-1], path))
        self.oblige(path, z3.And(i >= 0, i < sz), 'bounds', node, base)

    # ------------------------------------------------------------ obligations
    def line(self, node):
        off = None
        r = node.get('range', {}).get('begin', {})
        if 'expansionLoc' in r:
            r = r['expansionLoc']
        off = r.get('offset')
        if off is None:
            return '?'
        if self.text is None:
            try:
                self.text = open(os.path.join(cxxast.REPO, self.prog.tu), 'rb').read()
            except OSError:
                self.text = b''
        return self.text[:off].count(b'\n') + 1

    def oblige(self, path, cond, what, node=None, detail=''):
        if self.quiet:
            if not isinstance(cond, bool):
                path.ctx.add(cond)
            return True
        ok = path.ctx.implies(cond) if not isinstance(cond, bool) else cond
        if not ok and not path.ctx.feasible():
            ok = True
        name = what + (' line %s' % self.line(node) if node is not None else '')
        d = ''
        if not ok:
            r, s = path.ctx.check([z3.Not(cond)] if not isinstance(cond, bool) else [])
            d = '%s: cannot show %s under %s' % (detail, cond, path.ctx.cons[-12:])
            if r == z3.sat:
                d += ' ; countermodel ' + str(s.model())[:1500]
        self.obls.append(Obligation(self.cur, name, ok, d))
        if not isinstance(cond, bool):
            path.ctx.add(cond)
        return ok

    def record(self, name, ok, detail='', definite=True):
        if not self.quiet:
            self.obls.append(Obligation(self.cur, name, ok, detail, definite))

    # ------------------------------------------------------------ big arithmetic (contracts of prime_field)
    def bounds_of(self, b, path):
        lo, hi = b.lo, b.hi
        r = path.refine.get(b.uid)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def big_need(self, b, path, lo, hi, what, node):
        l, h = self.bounds_of(b, path)
        ok = l >= lo and h <= hi
        if not self.quiet:
            self.obls.append(Obligation(self.cur, '%s line %s' % (what, self.line(node)), ok,
                                        '' if ok else 'range [%d,%d] not within [%d,%d]' % (l, h, lo, hi)))
        return ok

    def big_add(self, a, b, path, node):
        la, ha = self.bounds_of(a, path)
        lb, hb = self.bounds_of(b, path)
        r = Big(a.p + b.p, la + lb, ha + hb)
        if r.hi >= 2 ** 512:
            self.record('no-wrap 512 line %s' % self.line(node), False, 'sum may reach 2^512')
        return r

    def big_sub(self, a, b, path, node):
        la, ha = self.bounds_of(a, path)
        lb, hb = self.bounds_of(b, path)
        return Big(a.p - b.p, la - hb, ha - lb)

    def big_mul(self, a, b, path, node):
        self.big_need(a, path, 0, 2 ** 256 - 1, 'mul-operand<2^256', node)
        self.big_need(b, path, 0, 2 ** 256 - 1, 'mul-operand<2^256', node)
        la, ha = self.bounds_of(a, path)
        lb, hb = self.bounds_of(b, path)
        return Big(a.p * b.p, max(la, 0) * max(lb, 0), ha * hb)

    def big_mod(self, a, b, path, node):
        self.big_need(a, path, 0, LIM - 1, 'reduce-operand<2^508', node)
        l, h = self.bounds_of(a, path)
        return Big(a.p, 0, P - 1)

    def fe(self, v):
        if isinstance(v, Big):
            return v
        if isinstance(v, SV):
            return v.f['value']
        raise Unsupported('field element expected, got %r' % (v,))

    def mkfe(self, b):
        return SV('prime_field::field_element', {'value': b})

    def fe_op(self, op, a, b, path, node):
        a, b = self.fe(a), self.fe(b)
        self.big_need(a, path, 0, P - 1, 'canonical-operand', node)
        self.big_need(b, path, 0, P - 1, 'canonical-operand', node)
        if op == '+':
            return self.mkfe(Big(a.p + b.p))
        if op == '-':
            return self.mkfe(Big(a.p - b.p))
        if op == '*':
            return self.mkfe(Big(a.p * b.p))
        raise Unsupported(op)

    def big_cmp(self, op, a, b, path, node):
        """returns python bool or FCond"""
        la, ha = self.bounds_of(a, path)
        lb, hb = self.bounds_of(b, path)
        if op == '>=':
            if la >= hb:
                return True
            if ha < lb:
                return False
        elif op == '<':
            if ha < lb:
                return True
            if la >= hb:
                return False
        elif op == '>':
            if la > hb:
                return True
            if ha <= lb:
                return False
        elif op == '<=':
            if ha <= lb:
                return True
            if la > hb:
                return False
        elif op in ('!=', '=='):
            self.big_need(a, path, 0, P - 1, 'canonical-compare', node)
            self.big_need(b, path, 0, P - 1, 'canonical-compare', node)
            d = a.p - b.p
            if d.is_zero():
                return op == '=='
            c = d.const()
            if c is not None:
                return op == '!='
        if op in ('>=', '<', '>', '<=') and (la < 0 or lb < 0):
            self.record('ordered-compare-no-wrap line %s' % self.line(node), False, 'negative operand')
        return FCond(op, a, b)

    # ------------------------------------------------------------ decisions
    def truth(self, v, path):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, FCond):
            op, a, b = v.op, v.a, v.b
            if op in ('!=', '=='):
                d = a.p - b.p
                for q, t in path.facts:
                    if isinstance(q, Poly) and (q - d).is_zero() or isinstance(q, Poly) and (q + d).is_zero():
                        return t if op == '==' else not t
                c = path.next_choice()
                eq = c if op == '==' else not c
                path.facts.append((d, eq))
                return c
            c = path.next_choice()
            rel = op if c else {'>=': '<', '<': '>=', '>': '<=', '<=': '>'}[op]
            la, ha = self.bounds_of(a, path)
            lb, hb = self.bounds_of(b, path)
            if rel in ('>=', '>'):
                x = 1 if rel == '>' else 0
                path.refine[a.uid] = (max(la, lb + x), ha)
                path.refine[b.uid] = (lb, min(hb, ha - x))
            else:
                x = 1 if rel == '<' else 0
                path.refine[a.uid] = (la, min(ha, hb - x))
                path.refine[b.uid] = (max(lb, la + x), hb)
            path.facts.append((('cmp', rel), True))
            return c
        if isinstance(v, Opaque):
            raise Unsupported('branch on opaque value ' + v.tag)
        if isinstance(v, Ptr) or v is None:
            return v is not None
        if z3.is_bool(v):
            return path.decide(v)
        return path.decide(v != 0)

    # ------------------------------------------------------------ exploration
    def explore(self, path, st, fn):
        """run fn(path, state) over all decision sequences; yields (path, state, result)"""
        out = []
        work = [[]]
        n = 0
        self.nexp += 1
        eid = self.nexp
        c0 = next(self.counter)
        top = c0
        cache = self.loopcache[eid] = {}
        while work:
            plan = work.pop()
            p = path.copy()
            p.plan, p.pos = list(plan), 0
            p.eid, p.nloop = eid, 0
            s = st.copy()
            self.counter = itertools.count(c0 + 1)     # same names on every path
            n += 1
            if n > self.maxpaths:
                raise Unsupported('too many paths')
            try:
                r = fn(p, s)
                out.append((p, s, r))
            except Dead:
                pass
            top = max(top, next(self.counter))
            for i in range(len(plan), len(p.plan)):
                work.append(p.plan[:i] + [False])
            # continuation of an outer plan is not our business
        self.counter = itertools.count(top + 1)
        del self.loopcache[eid]
        return out

    # ------------------------------------------------------------ functions
    def params(self, fn):
        return [c for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def body(self, fn):
        for c in fn.get('inner', []):
            if c.get('kind') == 'CompoundStmt':
                return c
        return None

    def call_fn(self, fn, this, args, st, path, site=None, env=None):
        """inline a function body"""
        self.depth += 1
        if self.depth > 25:
            self.depth -= 1
            raise Unsupported('recursion too deep in ' + fn.get('name', '?'))
        fr = Frame(self, this, next(self.counter))
        if env:
            fr.env.update(env)
        self.stack.append(site['id'] if site else fn.get('id'))
        self.inlined.add(fn.get('_q', fn.get('name')))
        try:
            for pd, a in zip(self.params(fn), args):
                self.bind_param(fr, pd, a, st, path)
            # constructor initialisers
            for c in fn.get('inner', []):
                if c.get('kind') == 'CXXCtorInitializer':
                    self.ctor_init(fr, c, st, path)
            sig = self.stmt(self.body(fn), fr, st, path)
        finally:
            self.depth -= 1
            self.stack.pop()
        if sig and sig[0] == 'return':
            return sig[1]
        return None

    def ctor_init(self, fr, c, st, path):
        m = c.get('anyInit')
        if m and m.get('kind') == 'FieldDecl' and c.get('inner'):
            t = m['type'].get('desugaredQualType') or m['type']['qualType']
            v = self.rval(c['inner'][0], fr, st, path)
            self.store(st, fr.this.f(m['name']), t, v, path)

    def bind_param(self, fr, pd, a, st, path):
        t = tstr(pd)
        if clean(t).endswith('&'):
            if isinstance(a, Loc):
                fr.env[pd['id']] = a
                return
            loc = Loc('%s%d.%s' % ('f', fr.n, pd.get('name', 'arg')))
            self.store(st, loc, strip_ref(t), a, path)
            fr.env[pd['id']] = loc
            return
        loc = Loc('f%d.%s' % (fr.n, pd.get('name', 'arg')))
        if isinstance(a, Loc):
            a = self.load(st, a, t, path)
        self.store(st, loc, t, a, path)
        fr.env[pd['id']] = loc

    # ------------------------------------------------------------ statements
    def stmt(self, n, fr, st, path):
        if not n or 'kind' not in n:
            return None
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, fr, st, path)
        self.ev(n, fr, st, path)
        return None

    def s_CompoundStmt(self, n, fr, st, path):
        for c in n.get('inner', []):
            sig = self.stmt(c, fr, st, path)
            if sig:
                return sig
        return None

    def s_NullStmt(self, n, fr, st, path):
        return None

    def s_DeclStmt(self, n, fr, st, path):
        for d in n.get('inner', []):
            if d.get('kind') != 'VarDecl':
                continue
            self.var_decl(d, fr, st, path)
        return None

    def var_decl(self, d, fr, st, path):
        t = tstr(d)
        init = None
        for c in d.get('inner', []):
            if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal')) or c.get('kind') in ('ExprWithCleanups',):
                init = c
        if '(lambda at' in t:
            while init is not None and init.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXConstructExpr', 'CXXBindTemporaryExpr'):
                init = init['inner'][0] if init.get('inner') else None
            fr.env[d['id']] = self.ev(init, fr, st, path)
            return
        kind = self.kind(t)
        if d.get('storageClass') == 'static' and kind != 'array':
            self.notes.append('static local ' + d.get('name', ''))
        if clean(t).endswith('&'):
            v = self.ev(init, fr, st, path)
            if not isinstance(v, Loc):
                loc = Loc('f%d.%s' % (fr.n, d['name']))
                self.store(st, loc, strip_ref(t), v, path)
                v = loc
            fr.env[d['id']] = v
            return
        loc = Loc('f%d.%s~%s' % (fr.n, d['name'], d['id'][2:]))
        fr.env[d['id']] = loc
        self.decl_log.append(loc.base)
        if kind == 'opaque':
            # timers, streams, oracles: evaluate nothing
            self.dropped.add('local of type ' + strip_ref(t)[:60])
            return
        if init is None:
            st.mem.pop(loc.base, None)
            if kind == 'array':
                m = re.search(r'\[(\d+)\]', t)
                if m:
                    self.set_size(st, loc.base + '[]', loc.idx, IV(int(m.group(1))), path)
            return
        if kind == 'array':
            if init.get('kind') == 'InitListExpr':
                et = t[:t.index('[')]
                for i, c in enumerate(init.get('inner', [])):
                    self.store(st, Loc(loc.base + '[]', (IV(i),)), et, self.rval(c, fr, st, path), path)
                return
            if init.get('kind') == 'CXXConstructExpr':
                return
            raise Unsupported('array init')
        v = self.rval(init, fr, st, path)
        if v is None:
            return
        self.store(st, loc, t, v, path)

    def s_ReturnStmt(self, n, fr, st, path):
        v = None
        if n.get('inner'):
            v = self.rval(n['inner'][0], fr, st, path)
        return ('return', v)

    def s_BreakStmt(self, n, fr, st, path):
        return ('break',)

    def s_ContinueStmt(self, n, fr, st, path):
        return ('continue',)

    def s_IfStmt(self, n, fr, st, path):
        inner = [c for c in n['inner'] if c]
        if n.get('hasInit') or n.get('hasVar'):
            self.stmt(inner[0], fr, st, path)
            inner = inner[1:]
        c = self.rval(inner[0], fr, st, path)
        if self.truth(c, path):
            return self.stmt(inner[1], fr, st, path)
        if len(inner) > 2:
            return self.stmt(inner[2], fr, st, path)
        return None

    def s_SwitchStmt(self, n, fr, st, path):
        v = self.rval(n['inner'][-2], fr, st, path)
        body = n['inner'][-1]
        # flatten
        items = []

        def flat(c):
            if c.get('kind') == 'CaseStmt':
                val = self.rval(c['inner'][0], fr, st, path)
                items.append(('case', val))
                flat(c['inner'][-1])
            elif c.get('kind') == 'DefaultStmt':
                items.append(('default', None))
                flat(c['inner'][-1])
            else:
                items.append(('stmt', c))
        for c in body.get('inner', []):
            flat(c)
        start = None
        for i, (k, val) in enumerate(items):
            if k == 'case':
                if self.truth(simp(self.toint(v) == self.toint(val)), path):
                    start = i
                    break
        if start is None:
            for i, (k, _) in enumerate(items):
                if k == 'default':
                    start = i
        if start is None:
            return None
        for k, c in items[start:]:
            if k == 'stmt':
                sig = self.stmt(c, fr, st, path)
                if sig:
                    if sig[0] == 'break':
                        return None
                    return sig
        return None

    def s_ForStmt(self, n, fr, st, path):
        inner = n['inner']
        init, cond, inc, body = inner[0], inner[2], inner[3], inner[4]
        if init:
            self.stmt(init, fr, st, path)
        return self.loop(n, cond, inc, body, fr, st, path)

    def s_WhileStmt(self, n, fr, st, path):
        inner = [c for c in n['inner'] if c]
        return self.loop(n, inner[0], None, inner[1], fr, st, path)

    def s_DoStmt(self, n, fr, st, path):
        body, cond = n['inner'][0], n['inner'][1]
        sig = self.stmt(body, fr, st, path)
        if sig:
            if sig[0] == 'break':
                return None
            if sig[0] == 'return':
                return sig
        return self.loop(n, cond, None, body, fr, st, path)

    # one iteration; returns signal or None
    def iteration(self, cond, inc, body, fr, st, path, assume=True):
        if cond:
            c = self.rval(cond, fr, st, path)
            if assume:
                if isinstance(c, (FCond, Opaque)):
                    raise Unsupported('loop condition over field values')
                if not isinstance(c, bool):
                    cc = c if z3.is_bool(c) else (c != 0)
                    cc = simp(cc)
                    if z3.is_false(cc):
                        raise Dead()
                    path.ctx.add(cc)
                    if not path.ctx.feasible():
                        raise Dead()
                elif not c:
                    raise Dead()
        sig = self.stmt(body, fr, st, path)
        if sig and sig[0] in ('break', 'return'):
            return sig
        if inc:
            self.ev(inc, fr, st, path)
        return None

    def loop(self, node, cond, inc, body, fr, st, path):
        # concrete unrolling while the condition is a constant
        n = 0
        while True:
            c = self.rval(cond, fr, st, path) if cond else True
            if not isinstance(c, (bool, FCond, Opaque)):
                c = simp(c if z3.is_bool(c) else (c != 0))
                if z3.is_true(c):
                    c = True
                elif z3.is_false(c):
                    c = False
            if c is False:
                return None
            if c is not True:
                break
            n += 1
            if n > self.unroll:
                raise Unsupported('unroll limit')
            sig = self.stmt(body, fr, st, path)
            if sig:
                if sig[0] == 'break':
                    return None
                if sig[0] == 'return':
                    return sig
            if inc:
                self.ev(inc, fr, st, path)
        if n and not z3.is_bool(c):
            raise Unsupported('mixed loop')
        from loops import Loop
        first = 0
        if self.peel and not path.counters and cond and z3.is_bool(c) and path.ctx.implies(c):
            # the first iteration on its own
            path.counters, path.loopnodes = path.counters + [IV(0)], path.loopnodes + [node['id']]
            sig = self.stmt(body, fr, st, path)
            if sig:
                raise Unsupported('jump out of a peeled iteration')
            if inc:
                self.ev(inc, fr, st, path)
            path.counters, path.loopnodes = path.counters[:-1], path.loopnodes[:-1]
            first = 1
        cache = self.loopcache.get(path.eid)
        path.nloop += 1
        key = (path.nloop, tuple(path.plan[:path.pos]))
        if cache is not None and key in cache:
            # same decisions so far: the loop has been cut on an earlier path, continue from that state
            L, snap_st, snap_p, nxt = cache[key]
            L = copy.copy(L)
            st.mem, st.forall = dict(snap_st.mem), list(snap_st.forall)
            q = snap_p.copy()
            for a in ('ctx', 'decs', 'facts', 'refine', 'counters', 'loopnodes', 'seq', 'trace'):
                setattr(path, a, getattr(q, a))
            L.st, L.path = st, path
            self.counter = itertools.count(nxt)
            return L.finish()
        L = Loop(self, node, cond, inc, body, fr, st, path)
        L.first = first
        if cache is None:
            return L.run()
        snap_st, snap_p = st.copy(), path.copy()
        L.prepare()
        nxt = next(self.counter)
        self.counter = itertools.count(nxt)
        cache[key] = (copy.copy(L), snap_st, snap_p, nxt)
        return L.finish()

    # ------------------------------------------------------------ expressions
    def rval(self, n, fr, st, path):
        v = self.ev(n, fr, st, path)
        if isinstance(v, Loc):
            return self.load(st, v, tstr(n), path)
        return v

    def ev(self, n, fr, st, path):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(n, fr, st, path)

    def _pass(self, n, fr, st, path):
        return self.ev(n['inner'][0], fr, st, path)

    e_ExprWithCleanups = e_ParenExpr = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = _pass
    e_ConstantExpr = e_CXXDefaultInitExpr = e_SubstNonTypeTemplateParmExpr = _pass

    def e_FullExpr(self, n, fr, st, path):
        return self._pass(n, fr, st, path)

    def toint(self, v):
        if isinstance(v, bool):
            return IV(1 if v else 0)
        if isinstance(v, int):
            return IV(v)
        if z3.is_bool(v):
            return z3.If(v, IV(1), IV(0))
        return v

    def e_IntegerLiteral(self, n, fr, st, path):
        return IV(int(n['value']))

    def e_CharacterLiteral(self, n, fr, st, path):
        return IV(int(n['value']))

    def e_CXXBoolLiteralExpr(self, n, fr, st, path):
        return bool(n['value']) if isinstance(n['value'], bool) else n['value'] == 'true'

    def e_FloatingLiteral(self, n, fr, st, path):
        return Opaque('float')

    def e_StringLiteral(self, n, fr, st, path):
        import ast as pyast
        s = pyast.literal_eval(n['value']) if n['value'].startswith('"') else n['value']
        base = 'str%d[]' % next(self.counter)
        self.strings[base] = s
        data = [ord(c) for c in s] + [0]
        for i, c in enumerate(data):
            self.store_leaf(st, Loc(base, (IV(i),)), 'int', IV(c), path)
        self.set_size(st, base, (), IV(len(data)), path)
        return Ptr(base, ())

    def e_CXXNullPtrLiteralExpr(self, n, fr, st, path):
        return None

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n, fr, st, path):
        return fr.this   # treated as pointer-to-Loc

    def e_DeclRefExpr(self, n, fr, st, path):
        d = n['referencedDecl']
        i = d['id']
        f = fr
        if i in f.env:
            return f.env[i]
        q = self.prog.qual.get(i)
        if d['kind'] in ('VarDecl',):
            q = q or d['name']
            if q in self.globals_val:
                return self.globals_val[q](self, st, path)
            if self.kind(tstr(n)) == 'opaque':
                return Opaque(q)
            g = self.prog.globals.get(q)
            if g is not None and 'init' in g and 'const' in g['type']['qualType']:
                ini = [c for c in g.get('inner', []) if 'kind' in c]
                if ini:
                    return self.rval(ini[0], fr, st, path)
            return Loc('::' + q)
        if d['kind'] == 'EnumConstantDecl':
            raise Unsupported('enum constant')
        return ('fn', i, d['name'])

    def e_MemberExpr(self, n, fr, st, path):
        b = n['inner'][0]
        name = n['name']
        if tstr(n) == '<bound member function type>':
            return ('method', n, b)
        v = self.ev(b, fr, st, path)
        if n.get('isArrow'):
            if isinstance(v, Loc):
                if is_this(b):
                    return v.f(name)
                v = self.load(st, v, tstr(b), path)
            if isinstance(v, Ptr):
                return v.at(IV(0)).f(name)
            if isinstance(v, Opaque):
                return Opaque(v.tag + '->' + name)
            raise Unsupported('-> on %r' % (v,))
        if isinstance(v, Loc):
            return v.f(name)
        if isinstance(v, SV):
            return v.f[name]
        if isinstance(v, Opaque):
            return Opaque(v.tag + '.' + name)
        if isinstance(v, Big):
            raise Unsupported('limb access in abstract mode')
        raise Unsupported('member %s of %r' % (name, v))

    def e_ArraySubscriptExpr(self, n, fr, st, path):
        b, i = n['inner']
        p = self.rval(b, fr, st, path)
        idx = self.toint(self.rval(i, fr, st, path))
        if not isinstance(p, Ptr):
            raise Unsupported('subscript of %r' % (p,))
        loc = self.at(p, idx, path)
        self.bounds_obl(st, loc, path, n)
        return loc

    # flat arrays holding 2^n columns per row are addressed as (row, column)
    def at(self, p, idx, path):
        x = simp(p.off + idx)
        n = self.views.get(p.base)
        if n is None:
            n = self.new_view(p, x)
            if n is None:
                return p.at(idx)
        return Loc(p.base, p.idx + self.split(x, n, path))

    def new_view(self, p, x):
        if p.base in self.ndims or any(b.startswith(p.base + '.') and '[]' not in b[len(p.base):] and not b.endswith('#size') for b in self.ndims):
            return None
        for f, q, c in self.monomials(x):
            if q is not None and f and not any(const(y) is not None for y in f):
                self.views[p.base] = q.arg(0)
                self.found_views.add(p.base)
                return q.arg(0)
        return None

    @staticmethod
    def monomials(x):
        """[(other factors, pow2 factor or None, coefficient)]"""
        x = z3.simplify(x, som=True)
        out = []
        for t in (x.children() if z3.is_add(x) else [x]):
            fs, q, co, rest = [t], None, 1, []
            while fs:
                f = fs.pop(0)
                if z3.is_mul(f):
                    fs = list(f.children()) + fs
                    continue
                if const(f) is not None:
                    co *= const(f)
                elif q is None and z3.is_app(f) and f.decl().name() == 'pow2':
                    q = f
                else:
                    rest.append(f)
            out.append((rest, q, co))
        return out

    def split(self, x, n, path):
        row, col = IV(0), IV(0)
        for f, q, co in self.monomials(x):
            m = IV(co)
            for y in f:
                m = m * y
            if q is not None and path.ctx.eq(q.arg(0), n):
                row = row + m
            else:
                col = col + (m * q if q is not None else m)
        row, col = simp(row), simp(col)
        if not path.ctx.implies(z3.And(col >= 0, col < pow2(n))):
            if const(row) == 0:
                return shr(x, n), lowf(simp(x), simp(n))
            raise Unsupported('index %s of a table with 2^(%s) columns' % (x, n))
        return row, col

    def bounds_obl(self, st, loc, path, n):
        # size tables are keyed by region; struct regions share the size of the region
        self.check_bounds(st, loc, path, n)

    def e_UnaryOperator(self, n, fr, st, path):
        op = n['opcode']
        s = n['inner'][0]
        if op == '*':
            v = self.rval(s, fr, st, path)
            if isinstance(v, Loc):
                return v        # *this
            if isinstance(v, Ptr):
                loc = self.at(v, IV(0), path)
                self.bounds_obl(st, loc, path, n)
                return loc
            raise Unsupported('deref %r' % (v,))
        if op == '&':
            v = self.ev(s, fr, st, path)
            if isinstance(v, Loc):
                return ('addr', v)
            raise Unsupported('address of %r' % (v,))
        if op in ('++', '--'):
            loc = self.ev(s, fr, st, path)
            t = tstr(s)
            old = self.load(st, loc, t, path)
            d = 1 if op == '++' else -1
            if isinstance(old, Ptr):
                new = Ptr(old.base, old.idx, simp(old.off + d))
            else:
                new = self.arith('+', self.toint(old), IV(d), t, path, n)
            self.store(st, loc, t, new, path)
            return old if n.get('isPostfix') else loc
        v = self.rval(s, fr, st, path)
        if op == '!':
            if isinstance(v, bool):
                return not v
            if isinstance(v, FCond):
                return FCond({'!=': '==', '==': '!=', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[v.op], v.a, v.b)
            if z3.is_bool(v):
                return z3.Not(v)
            return simp(v == 0)
        if op == '-':
            return self.arith('-', IV(0), self.toint(v), tstr(n), path, n)
        if op == '+':
            return v
        if op == '~':
            return self.arith('~', self.toint(v), None, tstr(n), path, n)
        raise Unsupported('unary ' + op)

    # integer arithmetic, abstract mode: mathematical integers
    def arith(self, op, a, b, t, path, n):
        if op == '+':
            return simp(a + b)
        if op == '-':
            return simp(a - b)
        if op == '*':
            return simp(a * b)
        if op == '/':
            c = const(b)
            if c is None or c <= 0:
                raise Unsupported('division')
            if not path.ctx.implies(a >= 0):
                return z3.If(a >= 0, a / b, -(-a / b))       # truncation towards zero
            return simp(a / b)
        if op == '%':
            c = const(b)
            if c is None or c <= 0:
                raise Unsupported('remainder')
            if not path.ctx.implies(a >= 0):
                raise Unsupported('remainder of possibly negative value')
            return simp(a % b)
        if op == '<<':
            if const(a) == 1 and const(b) is None:
                self.oblige(path, z3.And(b >= 0, b <= 30), 'shift-range', n)
            return shl(a, b)
        if op == '>>':
            c = const(b)
            if c is None:
                self.oblige(path, z3.And(b >= 0, b <= 31), 'shift-range', n)
                # (1<<e) >> n
            return shr(a, b)
        if op in ('&', '|', '^') and all(path.ctx.implies(z3.And(x >= 0, x <= 1)) for x in (a, b)):
            if op == '^':
                return simp(z3.If(a == b, IV(0), IV(1)))
            return simp(z3.If(z3.And(a == 1, b == 1), IV(1), IV(0)) if op == '&' else z3.If(z3.Or(a == 1, b == 1), IV(1), IV(0)))
        if op == '&':
            for x, m in ((a, b), (b, a)):
                c = const(m)
                if c is not None and c >= 0 and (c & (c + 1)) == 0:
                    return simp(x % IV(c + 1))
                m1 = simp(m + 1)
                if z3.is_app(m1) and m1.decl().name() == 'pow2':
                    return lowf(simp(x), m1.arg(0))
            raise Unsupported('& %s' % b)
        if op == '|':
            ca, cb = const(a), const(b)
            if ca is not None and cb is not None and ca >= 0 and cb >= 0:
                return IV(ca | cb)
            for x, y in ((a, b), (b, a)):
                c = const(y)
                if c == 1 and path.ctx.implies(x % 2 == 0):
                    return simp(x + 1)
                if c == 0:
                    return x
                y1 = simp(y)
                if z3.is_app(y1) and y1.decl().name() == 'pow2' and path.ctx.implies(z3.And(x >= 0, x < y1)):
                    return simp(x + y)
                if c is not None and c > 0 and (c & (c - 1)) == 0 and path.ctx.implies(z3.And(x >= 0, x < c)):
                    return simp(x + y)
                if c is None:    # (i << n) | x
                    ms = self.monomials(y)
                    if all(q is not None and path.ctx.implies(z3.And(q.arg(0) >= 0, x >= 0, x < q)) for f, q, co in ms):
                        return simp(x + y)
            raise Unsupported('| %s %s' % (a, b))
        if op == '^':
            for x, y in ((a, b), (b, a)):
                if const(y) == 1:
                    return simp(x + 1 - 2 * (x % 2))
            raise Unsupported('^')
        raise Unsupported('operator ' + op)

    def compare(self, op, a, b):
        a, b = self.toint(a), self.toint(b)
        r = {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        r = simp(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def e_BinaryOperator(self, n, fr, st, path):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            loc = self.ev(l, fr, st, path)
            if isinstance(loc, Opaque):
                return loc
            if self.is_new(r) and isinstance(loc, Loc) and loc.idx and not self.arr(st, loc.base, 'ptr').writes:
                # cell of an array of pointers owns the region named after it
                self.new_target = loc
                try:
                    self.rval(r, fr, st, path)
                finally:
                    self.new_target = None
                return loc
            v = self.rval(r, fr, st, path)
            self.assign(loc, tstr(l), v, fr, st, path, r)
            return loc
        if op == ',':
            self.ev(l, fr, st, path)
            return self.ev(r, fr, st, path)
        if op in ('&&', '||'):
            a = self.rval(l, fr, st, path)
            ta = self.truth(a, path)
            if op == '&&' and not ta:
                return False
            if op == '||' and ta:
                return True
            return self.truth(self.rval(r, fr, st, path), path)
        a = self.rval(l, fr, st, path)
        b = self.rval(r, fr, st, path)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('expr')
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None:
                raise Unsupported('pointer comparison')
            return self.compare(op, a, b)
        if isinstance(a, Ptr):
            d = self.toint(b)
            return Ptr(a.base, a.idx, simp(a.off + d) if op == '+' else simp(a.off - d))
        if isinstance(b, Ptr) and op == '+':
            return Ptr(b.base, b.idx, simp(b.off + self.toint(a)))
        return self.arith(op, self.toint(a), self.toint(b), tstr(n), path, n)

    def is_new(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
            n = n['inner'][0]
        return n.get('kind') == 'CXXNewExpr'

    def assign(self, loc, t, v, fr, st, path, rnode=None):
        if not isinstance(loc, Loc):
            raise Unsupported('assignment to %r' % (loc,))
        self.store(st, loc, t, v, path)

    def e_CompoundAssignOperator(self, n, fr, st, path):
        op = n['opcode'][:-1]
        l, r = n['inner']
        loc = self.ev(l, fr, st, path)
        if isinstance(loc, Opaque) or self.kind(tstr(l)) == 'opaque':
            return loc
        b = self.rval(r, fr, st, path)
        a = self.load(st, loc, tstr(l), path)
        if isinstance(a, Ptr):
            d = self.toint(b)
            v = Ptr(a.base, a.idx, simp(a.off + d) if op == '+' else simp(a.off - d))
        else:
            a, b = self.toint(a), self.toint(b)
            if strip_ref(tstr(l)) == 'bool' and const(a) is None:
                path.ctx.add(z3.And(a >= 0, a <= 1))       # type invariant of bool
            v = self.arith(op, a, b, tstr(l), path, n)
        self.store(st, loc, tstr(l), v, path)
        return loc

    def e_ConditionalOperator(self, n, fr, st, path):
        c, a, b = n['inner']
        # assert() expands to a conditional whose false arm calls __assert_fail
        if self.is_assert_fail(b):
            v = self.rval(c, fr, st, path)
            self.do_assert(v, path, n)
            return None
        if self.truth(self.rval(c, fr, st, path), path):
            return self.ev(a, fr, st, path)
        return self.ev(b, fr, st, path)

    def is_assert_fail(self, b):
        while b.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'):
            b = b['inner'][0]
        if b.get('kind') != 'CallExpr':
            return False
        f = b['inner'][0]
        while f.get('kind') == 'ImplicitCastExpr':
            f = f['inner'][0]
        return f.get('referencedDecl', {}).get('name') == '__assert_fail'

    def do_assert(self, v, path, n):
        if isinstance(v, bool):
            self.oblige(path, v, 'assert', n)
            if not v:
                raise Dead()
            return
        if isinstance(v, (FCond, Opaque)):
            raise Unsupported('assert over field values')
        c = v if z3.is_bool(v) else (v != 0)
        self.oblige(path, c, 'assert', n)

    def e_ImplicitCastExpr(self, n, fr, st, path):
        ck = n.get('castKind')
        s = n['inner'][0]
        if ck == 'LValueToRValue':
            v = self.ev(s, fr, st, path)
            if isinstance(v, Loc):
                return self.load(st, v, tstr(s), path)
            return v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'UncheckedDerivedToBase', 'DerivedToBase'):
            return self.ev(s, fr, st, path)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(s, fr, st, path)
            if isinstance(v, Loc):
                return Ptr(v.base + '[]', v.idx)
            return v
        if ck in ('IntegralCast',):
            v = self.rval(s, fr, st, path)
            return self.int_cast(v, tstr(s), tstr(n), path, n)
        if ck in ('IntegralToBoolean',):
            v = self.rval(s, fr, st, path)
            if isinstance(v, bool) or z3.is_bool(v):
                return v
            return self.compare('!=', v, IV(0))
        if ck in ('PointerToBoolean',):
            v = self.rval(s, fr, st, path)
            return v is not None
        if ck in ('ConstructorConversion', 'UserDefinedConversion'):
            return self.ev(s, fr, st, path)
        if ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral'):
            return Opaque('float')
        if ck in ('NullToPointer',):
            return None
        if ck in ('ToVoid',):
            self.ev(s, fr, st, path)
            return None
        if ck == 'BitCast':
            return self.ev(s, fr, st, path)
        raise Unsupported('cast ' + str(ck))

    e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = e_ImplicitCastExpr

    def int_cast(self, v, ft, tt, path, n):
        if isinstance(v, Opaque):
            return v
        v = self.toint(v) if not isinstance(v, bool) else IV(1 if v else 0)
        if ft == 'bool' and const(v) is None:
            path.ctx.add(z3.And(v >= 0, v <= 1))       # type invariant of bool
        return v

    def e_CXXDefaultArgExpr(self, n, fr, st, path):
        return self.ev(n['inner'][0], fr, st, path) if n.get('inner') else Opaque('default')

    def e_InitListExpr(self, n, fr, st, path):
        t = tstr(n)
        if self.kind(t) in ('rec', 'pair'):
            fs = self.fields(t)
            vals = {}
            for (nm, ft), c in zip(fs, n.get('inner', [])):
                vals[nm] = self.rval(c, fr, st, path)
            return SV(strip_ref(t), vals)
        if len(n.get('inner', [])) == 1:
            return self.rval(n['inner'][0], fr, st, path)
        raise Unsupported('init list ' + t)

    def e_ImplicitValueInitExpr(self, n, fr, st, path):
        return self.default_value(tstr(n), st, path)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def default_value(self, t, st, path):
        k = self.kind(t)
        if k == 'int':
            return IV(0)
        if k == 'big':
            return Big(ZERO, 0, 0)
        if k == 'ptr':
            return None
        if k == 'rec':
            return self.construct(t, None, [], st, path, None)
        return Opaque('default')

    # ------------------------------------------------------------ constructors
    def ctor_node(self, t, sig, nargs):
        r = self.rec(t)
        if r is None:
            return None
        short = r.split('::')[-1]
        cands = [f for f in self.prog.funcs.get(r + '::' + short, []) if not f.get('isImplicit')]
        for f in cands:
            if sig and clean(f['type']['qualType']) == clean(sig):
                return f
        c2 = [f for f in cands if len(self.params(f)) == nargs]
        if len(c2) == 1 and sig is None:
            return c2[0]
        return None

    def construct(self, t, sig, args, st, path, n):
        """value of a newly constructed object of record type t"""
        r = self.rec(t)
        h = self.contracts.get(('ctor', r))
        if h:
            v = h(self, args, sig, st, path, n)
            if v is not NotImplemented:
                self.called_contracts.add('%s::%s' % (r, r.split('::')[-1]))
                return v
        f = self.ctor_node(t, sig, len(args))
        if f is None:
            if not args:
                # implicit default constructor: fields default-initialised
                vals = {}
                for nm, ft in self.fields(t):
                    k = self.kind(ft)
                    if k in ('rec', 'pair', 'big'):
                        vals[nm] = self.default_value(ft, st, path)
                return SV(strip_ref(t), vals)
            raise Unsupported('constructor of %s %s' % (t, sig))
        loc = Loc('tmp%d' % next(self.counter))
        # default-initialise record members first
        for nm, ft in self.fields(t):
            if self.kind(ft) in ('rec', 'pair', 'big'):
                self.store(st, loc.f(nm), ft, self.default_value(ft, st, path), path)
        self.call_fn(f, loc, args, st, path)
        return self.load(st, loc, t, path)

    def e_CXXConstructExpr(self, n, fr, st, path):
        t = tstr(n)
        k = self.kind(t)
        args = [c for c in n.get('inner', [])]
        sig = n.get('ctorType', {}).get('qualType')
        if k == 'opaque':
            return Opaque(strip_ref(t))
        if k == 'array':
            return None
        if len(args) == 1 and sig and self.is_copy_sig(sig, t):
            return self.rval(args[0], fr, st, path)
        vals = [self.ev(a, fr, st, path) for a in args]
        if k == 'big':
            if not vals:
                return Big(ZERO, 0, 0)
            if len(vals) == 1:
                v = vals[0]
                if isinstance(v, Loc):
                    v = self.load(st, v, tstr(args[0]), path)
                if isinstance(v, Big):
                    return v
                c = const(self.toint(v)) if not isinstance(v, Opaque) else None
                if c is not None and c >= 0:
                    return Big(Poly.c(c), c, c)
                raise Unsupported('big from symbolic int')
            raise Unsupported('big ctor')
        if k == 'pair':
            if not vals:
                return SV(strip_ref(t), {})
            fs = self.fields(t)
            out = {}
            for (nm, ft), v, a in zip(fs, vals, args):
                out[nm] = self.load(st, v, tstr(a), path) if isinstance(v, Loc) else v
            return SV(strip_ref(t), out)
        return self.construct(t, sig, vals, st, path, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def is_copy_sig(self, sig, t):
        m = re.match(r'void \((.*)\)', sig)
        if not m:
            return False
        a = m.group(1)
        if not a.rstrip(' noexcept').endswith('&') and '&' not in a:
            return False
        a = strip_ref(a.replace('noexcept', ''))
        tt = strip_ref(t)
        if a == tt or tt.endswith('::' + a) or a.endswith('::' + tt):
            return True
        if tt.startswith('std::pair<') and a.startswith(('std::pair<', 'pair<')):
            return True
        return False

    # ------------------------------------------------------------ new / delete
    def e_CXXNewExpr(self, n, fr, st, path):
        t = strip_ref(tstr(n))
        et = t[:-1].strip()
        if not n.get('isArray'):
            raise Unsupported('scalar new')
        size = None
        for c in n.get('inner', []):
            if c.get('kind') in ('CXXConstructExpr', 'InitListExpr', 'ImplicitValueInitExpr'):
                continue
            v = self.rval(c, fr, st, path)
            if size is None:
                size = self.toint(v)
        idx = tuple(path.counters)
        sk = (n['id'], tuple(self.stack), tuple(path.loopnodes))
        i = path.seq.get(sk, 0)
        path.seq[sk] = i + 1
        key = (sk, i)
        base = 'heap%d' % self.heap_ids.setdefault(key, len(self.heap_ids))
        tgt = getattr(self, 'new_target', None)
        if tgt is not None:
            ptr = Ptr(tgt.base + '[]', tgt.idx)
        else:
            ptr = Ptr(base + '[]', idx)
        self.reset_region(ptr.base, ptr.idx, et, size, st, path, self.heap_ids.setdefault(key, len(self.heap_ids)))
        return ptr

    def set_size(self, st, base, pre, size, path):
        sb = base + '#size'
        a = st.mem.get(sb)
        if a is None:
            a = self.init_store.get(sb) or self.defcache.get(sb)
            if a is None:
                a = self.defcache[sb] = self.default_arr(sb, 'int')
            st.mem[sb] = a
        self.store_leaf(st, Loc(sb, pre), 'int', size, path)

    def leafs(self, b, t, dv):
        kk = self.kind(t)
        if kk in ('rec', 'pair'):
            for nm, ft in self.fields(t):
                self.leafs(b + '.' + nm, ft, dv)
        elif kk in ('big', 'int', 'ptr'):
            dv[b] = (kk, t)

    def reset_region(self, base, pre, et, size, st, path, site=None):
        """contents after new T[size]: records/field elements are zero-initialised by their constructors,
        plain ints are unspecified"""
        dv = {}
        self.leafs(base, et, dv)
        if size is not None:
            self.set_size(st, base, pre, size, path)
        for b, (kk, t) in dv.items():
            if size is not None and b != base:
                self.set_size(st, b, pre, size, path)
            old = self.arr(st, b, kk)
            # unspecified contents, different for every execution of this allocation
            un = self.default_arr(b + '@u%s' % ('n%d' % site if site is not None else next(self.counter)), kk)
            when = tuple(path.counters) if site is not None else ()

            def fn(idx, p, old=old, un=un, pre=pre, kk=kk, b=b, when=when):
                q = simp(z3.And([x == y for x, y in zip(pre, idx)])) if pre else z3.BoolVal(True)
                nv = Big(ZERO, 0, 0) if kk == 'big' else Ptr(b + '[]', idx) if kk == 'ptr' else un.fn(when + tuple(idx), p)
                if z3.is_true(q) or p.ctx.implies(q):
                    return nv
                ov = self.read_arr(old, idx, p)
                if z3.is_false(q) or p.ctx.implies(z3.Not(q)):
                    return ov
                return self.vite(q, nv, ov, p)
            st.mem[b] = Arr(kk, fn, (), b)
            self.ndims0[b] = len(pre) + 1

    def has_zero_ctor(self, t):
        return True

    def e_CXXDeleteExpr(self, n, fr, st, path):
        self.dropped.add('delete expressions')
        return None

    # ------------------------------------------------------------ calls
    def callee(self, n, fr, st, path):
        f = n['inner'][0]
        while f.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            f = f['inner'][0]
        return f

    def e_CallExpr(self, n, fr, st, path):
        f = self.callee(n, fr, st, path)
        d = f.get('referencedDecl')
        if not d:
            raise Unsupported('indirect call')
        name = d['name']
        q = self.prog.qual.get(d['id'], name)
        args = n['inner'][1:]
        h = self.contracts.get(q) or self.contracts.get(name)
        if h:
            self.called_contracts.add(q)
            vals = [self.ev(a, fr, st, path) for a in args]
            return h(self, None, vals, args, st, path, n)
        if name in ('printf', 'fprintf', 'puts', 'fflush', 'fclose', 'srand', 'perror', 'putchar', 'free'):
            self.dropped.add('calls to ' + name)
            return IV(0)
        if name == 'strlen':
            v = self.rval(args[0], fr, st, path)
            if isinstance(v, Ptr) and v.base in self.strings and const(v.off) == 0:
                return IV(len(self.strings[v.base]))
            raise Unsupported('strlen of a non-literal')
        if name == '__assert_fail':
            self.oblige(path, False, 'assert', n)
            raise Dead()
        if name in ('abort', 'exit'):
            self.oblige(path, False, name + ' not reached', n)
            raise Dead()
        if name == 'make_pair':
            vals = [self.rval(a, fr, st, path) for a in args]
            return SV(strip_ref(tstr(n)), {'first': vals[0], 'second': vals[1]})
        if name in ('move', 'forward'):
            return self.ev(args[0], fr, st, path)
        if name == 'swap' and len(args) == 2:
            la, lb = [self.ev(a, fr, st, path) for a in args]
            va, vb = self.load(st, la, tstr(args[0]), path), self.load(st, lb, tstr(args[0]), path)
            self.store(st, la, tstr(args[0]), vb, path)
            self.store(st, lb, tstr(args[0]), va, path)
            return None
        if name in ('fill', 'fill_n', 'copy', 'copy_n') and len(args) == 3:
            return self.algorithm(name, args, n, fr, st, path)
        if name in ('min', 'max') and len(args) == 2 and self.kind(strip_ref(tstr(n))) == 'int':
            a, b = [self.toint(self.rval(x, fr, st, path)) for x in args]
            return simp(z3.If(a <= b, a, b) if name == 'min' else z3.If(a >= b, a, b))
        if name in ('now', 'duration_cast', 'clock', 'time', 'count'):
            self.dropped.add('timer calls')
            return Opaque('time')
        fn = self.prog.bodyof.get(d['id'])
        if fn is not None:
            vals = [self.ev(a, fr, st, path) for a in args]
            vals = [self.decay(v, a, st, path) for v, a in zip(vals, args)]
            return self.call_fn(fn, None, vals, st, path, n)
        if self.kind(tstr(n)) == 'opaque':
            self.dropped.add('call to ' + name)
            return Opaque(name)
        raise Unsupported('call to ' + q)

    def decay(self, v, a, st, path):
        return v

    def e_CXXMemberCallExpr(self, n, fr, st, path):
        m = n['inner'][0]
        while m.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            m = m['inner'][0]
        objn = m['inner'][0]
        ot = strip_ref(tstr(objn))
        args = n['inner'][1:]
        if ot.endswith('*'):
            ot = ot[:-1].strip()
        did = m.get('referencedMemberDecl')
        q = self.prog.qual.get(did)
        if q is None:
            if self.kind(ot) == 'opaque' or OPAQUE_PAT.search(ot):
                h = self.contracts.get(ot.split('<')[0] + '::' + m['name'])
                if h:
                    obj = self.ev(objn, fr, st, path)
                    vals = [self.ev(a, fr, st, path) for a in args]
                    return h(self, obj, vals, args, st, path, n)
                self.dropped.add('call to %s::%s' % (ot.split('<')[0], m['name']))
                return Opaque(m['name'])
            raise Unsupported('method %s of %s' % (m['name'], ot))
        obj = self.ev(objn, fr, st, path)
        if m.get('isArrow') and isinstance(obj, Loc) and not is_this(objn):
            pv = self.load(st, obj, tstr(objn), path)
            obj = pv
        if isinstance(obj, Ptr):
            obj = obj.at(IV(0))
        h = self.contracts.get(q)
        if h:
            self.called_contracts.add(q)
            vals = [self.ev(a, fr, st, path) for a in args]
            return h(self, obj, vals, args, st, path, n)
        fn = self.prog.bodyof.get(did)
        if fn is None:
            raise Unsupported('method without contract or body ' + q)
        vals = [self.ev(a, fr, st, path) for a in args]
        if not isinstance(obj, Loc):
            loc = Loc('tmp%d' % next(self.counter))
            self.store(st, loc, ot, obj, path)
            obj = loc
        return self.call_fn(fn, obj, vals, st, path, n)

    def e_LambdaExpr(self, n, fr, st, path):
        """closure: captured variables by reference share the cell, by value get a copy"""
        fn = None
        env = dict(fr.env)
        for c in n.get('inner', []):
            k = c.get('kind')
            if k == 'CXXRecordDecl':
                for m in c.get('inner', []):
                    if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()':
                        fn = m
                    if m.get('kind') == 'FunctionTemplateDecl':
                        raise Unsupported('generic lambda')
            elif k in ('CompoundStmt', 'CXXThisExpr', 'DeclRefExpr'):
                pass
            else:
                x = c
                while x.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') and x.get('inner'):
                    x = x['inner'][0]
                if x.get('kind') != 'DeclRefExpr':
                    raise Unsupported('lambda capture ' + str(k))
                v = self.rval(c, fr, st, path)
                loc = Loc('cap%d.%s' % (next(self.counter), x['referencedDecl'].get('name', 'x')))
                self.store(st, loc, tstr(c), v, path)
                env[x['referencedDecl']['id']] = loc
        if fn is None:
            raise Unsupported('lambda without body')
        return ('lambda', fn, env, fr.this)

    def algorithm(self, name, args, n, fr, st, path):
        """std::fill, fill_n, copy, copy_n as the loop they are specified to be"""
        t = tstr(args[0])
        dst = args[-1] if name.startswith('copy') else args[0]
        et = clean(tstr(dst)).rstrip()
        if not et.endswith('*') or not clean(t).rstrip().endswith('*'):
            raise Unsupported('call to ' + name)
        et = strip_ref(et[:-1])
        uid = n['id'] + name
        rng = {'range': n.get('range', {})}

        def var(nm, ty, v):
            loc = Loc('f%d.%s~%s' % (fr.n, nm, uid[2:]))
            self.store(st, loc, ty, v, path)
            fr.env[uid + nm] = loc
            self.decl_log.append(loc.base)

        def ref(nm, ty):
            return dict(kind='DeclRefExpr', type={'qualType': ty}, valueCategory='lvalue', id=uid + 'r' + nm,
                        referencedDecl=dict(id=uid + nm, kind='VarDecl', name=nm, type={'qualType': ty}), **rng)

        def rv(x, ty):
            return dict(kind='ImplicitCastExpr', castKind='LValueToRValue', id=x['id'] + 'c', type={'qualType': ty}, inner=[x], **rng)

        def cell(nm):
            return dict(kind='ArraySubscriptExpr', id=uid + 's' + nm, type={'qualType': et}, valueCategory='lvalue',
                        inner=[rv(ref(nm, et + ' *'), et + ' *'), rv(ref('i', 'int'), 'int')], **rng)
        a = self.rval(args[0], fr, st, path)
        if name.endswith('_n'):
            cnt = self.toint(self.rval(args[1], fr, st, path))
        else:
            b = self.rval(args[1], fr, st, path)
            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base and len(a.idx) == len(b.idx)):
                raise Unsupported('call to ' + name)
            cnt = simp(b.off - a.off)
        var('first', et + ' *', a)
        var('count', 'int', cnt)
        if name.startswith('copy'):
            d = self.rval(dst, fr, st, path)
            var('to', et + ' *', d)
            asg = (cell('to'), rv(cell('first'), et))
        else:
            v = self.ev(args[-1], fr, st, path)
            if isinstance(v, Loc):
                v = self.load(st, v, tstr(args[-1]), path)
            var('value', et, v)
            asg = (cell('first'), rv(ref('value', et), et))
        zero = dict(kind='IntegerLiteral', value='0', id=uid + '0', type={'qualType': 'int'}, **rng)
        iv = dict(kind='VarDecl', id=uid + 'i', name='i', type={'qualType': 'int'}, init='c', inner=[zero], **rng)
        loop = dict(kind='ForStmt', id=uid, inner=[
            dict(kind='DeclStmt', id=uid + 'd', inner=[iv], **rng), {},
            dict(kind='BinaryOperator', opcode='<', id=uid + 'lt', type={'qualType': 'bool'},
                 inner=[rv(ref('i', 'int'), 'int'), rv(ref('count', 'int'), 'int')], **rng),
            dict(kind='UnaryOperator', opcode='++', id=uid + 'inc', type={'qualType': 'int'}, inner=[ref('i', 'int')], **rng),
            dict(kind='BinaryOperator', opcode='=', id=uid + 'as', type={'qualType': et}, inner=list(asg), **rng)], **rng)
        self.stmt(loop, fr, st, path)
        if name.startswith('copy'):
            return Ptr(d.base, d.idx, simp(d.off + cnt)) if isinstance(d, Ptr) else None
        return None

    def e_CXXOperatorCallExpr(self, n, fr, st, path):
        f = self.callee(n, fr, st, path)
        d = f.get('referencedDecl')
        name = d['name']
        q = self.prog.qual.get(d['id'])
        args = n['inner'][1:]
        if q is None:
            if name == 'operator()':
                lam = self.ev(args[0], fr, st, path)
                if isinstance(lam, tuple) and lam[0] == 'lambda':
                    vals = [self.ev(a, fr, st, path) for a in args[1:]]
                    return self.call_fn(lam[1], lam[3], vals, st, path, n, lam[2])
            ts = ' '.join(tstr(a) for a in args) + tstr(n)
            if name == 'operator=' and strip_ref(tstr(args[0])).startswith('std::pair<'):
                loc = self.ev(args[0], fr, st, path)
                self.store(st, loc, tstr(args[0]), self.rval(args[1], fr, st, path), path)
                return loc
            if OPAQUE_PAT.search(ts) or self.kind(tstr(n)) == 'opaque':
                h = self.contracts.get('std::' + name)
                if h:
                    vals = [self.ev(a, fr, st, path) for a in args]
                    return h(self, None, vals, args, st, path, n)
                self.dropped.add('stream/timer operators')
                return Opaque(name)
            raise Unsupported('operator %s on %s' % (name, ts[:80]))
        vals = [self.ev(a, fr, st, path) for a in args]
        if name == 'operator=':
            fn = self.prog.bodyof.get(d['id'])
            if fn is None or fn.get('isImplicit') or self.kind(tstr(args[0])) == 'big':
                v = vals[1]
                if isinstance(v, Loc):
                    v = self.load(st, v, tstr(args[1]), path)
                self.store(st, vals[0], tstr(args[0]), v, path)
                return vals[0]
        h = self.contracts.get(q)
        if h:
            self.called_contracts.add(q)
            return h(self, vals[0], vals[1:], args[1:], st, path, n)
        fn = self.prog.bodyof.get(d['id'])
        if fn is None:
            raise Unsupported('operator without contract ' + q)
        obj = vals[0]
        if d['kind'] == 'FunctionDecl':
            return self.call_fn(fn, None, vals, st, path, n)
        if not isinstance(obj, Loc):
            loc = Loc('tmp%d' % next(self.counter))
            self.store(st, loc, tstr(args[0]), obj, path)
            obj = loc
        return self.call_fn(fn, obj, vals[1:], st, path, n)


def is_this(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CXXConstCastExpr', 'CXXStaticCastExpr') and n.get('inner'):
        n = n['inner'][0]
    return n.get('kind') == 'CXXThisExpr'


class Frame:
    def __init__(self, eng, this, n):
        self.eng, self.this, self.n = eng, this, n
        self.env = {}


# ------------------------------------------------------------ contracts of prime_field / polynomial (abstract mode)
def _b(e, v, a, st, path):
    if isinstance(v, Loc):
        v = e.load(st, v, 'prime_field::u512b', path)
    if isinstance(v, SV):
        v = v.f['value']
    if not isinstance(v, Big):
        c = const(e.toint(v))
        if c is None:
            raise Unsupported('big operand %r' % (v,))
        return Big(Poly.c(c), c, c)
    return v


def _f(e, v, st, path):
    if isinstance(v, Loc):
        v = e.load(st, v, 'prime_field::field_element', path)
    return v


def u512_bin(op):
    def h(e, obj, vals, args, st, path, n):
        a, b = _b(e, obj, None, st, path), _b(e, vals[0], None, st, path)
        return {'+': e.big_add, '-': e.big_sub, '*': e.big_mul, '%': e.big_mod}[op](a, b, path, n)
    return h


def u512_cmp(op):
    def h(e, obj, vals, args, st, path, n):
        a, b = _b(e, obj, None, st, path), _b(e, vals[0], None, st, path)
        return e.big_cmp(op, a, b, path, n)
    return h


def fe_bin(op):
    def h(e, obj, vals, args, st, path, n):
        return e.fe_op(op, _f(e, obj, st, path), _f(e, vals[0], st, path), path, n)
    return h


def fe_cmp(op):
    def h(e, obj, vals, args, st, path, n):
        a, b = e.fe(_f(e, obj, st, path)), e.fe(_f(e, vals[0], st, path))
        return e.big_cmp(op, a, b, path, n)
    return h


def fe_ctor(e, args, sig, st, path, n):
    if not args:
        return e.mkfe(Big(ZERO, 0, 0))
    v = args[0]
    if isinstance(v, Loc):
        v = e.load(st, v, 'int', path)
    if isinstance(v, SV):
        return v
    v = e.toint(v)
    c = const(v)
    if c is not None and c >= 0:
        return e.mkfe(Big(Poly.c(c), c, c))
    return e.mkfe(Big(i2f(v)))


def fe_random(e, obj, vals, args, st, path, n):
    nm = ext_name(e, path, 'random', n)
    return e.mkfe(Big(sel(nm, path.counters)))


def ext_name(e, path, callee, n):
    """name of the value returned by this execution of an external call: static call path, plus how often
    it was executed in the same iteration of the enclosing loops (whose counters are the index)"""
    sk = (n['id'], tuple(e.stack), tuple(path.loopnodes))
    i = path.seq.get(sk, 0)
    path.seq[sk] = i + 1
    return '%s#%d' % (callee, e.ext_ids.setdefault((callee, sk, i), len(e.ext_ids)))


def poly_eval(names):
    def h(e, obj, vals, args, st, path, n):
        t = {2: 'linear_poly', 3: 'quadratic_poly', 4: 'cubic_poly', 5: 'quadruple_poly', 6: 'quintuple_poly'}[len(names)]
        o = e.load(st, obj, t, path) if isinstance(obj, Loc) else obj
        x = vals[0]
        if isinstance(x, Loc):
            x = e.load(st, x, 'prime_field::field_element', path)
        x = e.fe(x)
        e.big_need(x, path, 0, P - 1, 'canonical-operand', n)
        acc = ZERO
        for nm in names:
            c = e.fe(o.f[nm])
            e.big_need(c, path, 0, P - 1, 'canonical-operand', n)
            acc = acc * x.p + c.p
        return e.mkfe(Big(acc))
    return h


def poly_add(t, names):
    def h(e, obj, vals, args, st, path, n):
        a = e.load(st, obj, t, path) if isinstance(obj, Loc) else obj
        b = e.load(st, vals[0], t, path) if isinstance(vals[0], Loc) else vals[0]
        return SV(t, {k: e.fe_op('+', a.f[k], b.f[k], path, n) for k in names})
    return h


def poly_mul(t1, n1, tr, nr):
    def h(e, obj, vals, args, st, path, n):
        a = e.load(st, obj, t1, path) if isinstance(obj, Loc) else obj
        b = e.load(st, vals[0], 'linear_poly', path) if isinstance(vals[0], Loc) else vals[0]
        ca = [e.fe(a.f[k]).p for k in n1]
        cb = [e.fe(b.f[k]).p for k in ('a', 'b')]
        for v in [a.f[k] for k in n1] + [b.f['a'], b.f['b']]:
            e.big_need(e.fe(v), path, 0, P - 1, 'canonical-operand', n)
        out = [ZERO] * (len(ca) + 1)
        for i, x in enumerate(ca):
            for j, y in enumerate(cb):
                out[i + j] = out[i + j] + x * y
        return SV(tr, {k: e.mkfe(Big(v)) for k, v in zip(nr, out)})
    return h


def poly_ctor(t, names):
    def h(e, args, sig, st, path, n):
        if not args:
            return SV(t, {k: e.mkfe(Big(ZERO, 0, 0)) for k in names})
        vs = [e.load(st, v, 'prime_field::field_element', path) if isinstance(v, Loc) else v for v in args]
        if len(vs) == len(names):
            return SV(t, dict(zip(names, vs)))
        if t == 'linear_poly' and len(vs) == 1:
            return SV(t, {'a': e.mkfe(Big(ZERO, 0, 0)), 'b': vs[0]})
        return NotImplemented
    return h


def global_mod(e, st, path):
    return Big(ZERO, P, P)


def field_contracts():
    c = {}
    F = 'prime_field::field_element::'
    U = 'prime_field::u512b::'
    for op in '+-*':
        c[F + 'operator' + op] = fe_bin(op)
    for op in ('==', '!='):
        c[F + 'operator' + op] = fe_cmp(op)
    for op in '+-*%':
        c[U + 'operator' + op] = u512_bin(op)
    for op in ('!=', '>', '>=', '<'):
        c[U + 'operator' + op] = u512_cmp(op)
    c[('ctor', 'prime_field::field_element')] = fe_ctor
    c['prime_field::random'] = fe_random
    c['prime_field::init_random'] = lambda e, o, v, a, st, p, n: None
    names = {'linear_poly': 'ab', 'quadratic_poly': 'abc', 'cubic_poly': 'abcd', 'quadruple_poly': 'abcde',
             'quintuple_poly': 'abcdef'}
    for t, ns in names.items():
        c[t + '::eval'] = poly_eval(list(ns))
        c[t + '::operator+'] = poly_add(t, list(ns))
        c[('ctor', t)] = poly_ctor(t, list(ns))
    c['linear_poly::operator*'] = poly_mul('linear_poly', list('ab'), 'quadratic_poly', list('abc'))
    c['quadratic_poly::operator*'] = poly_mul('quadratic_poly', list('abc'), 'cubic_poly', list('abcd'))
    return c


def mod_globals():
    return {'prime_field::mod': global_mod, 'prime_field::mod_512': global_mod}
