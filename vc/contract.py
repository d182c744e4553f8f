"""Running a function under its contract and checking the postcondition."""
import time, os, re
import z3
from terms import *
import terms, engine as E
from engine import *
import cxxast

_progs = {}


def program(tu):
    if tu not in _progs:
        _progs[tu] = cxxast.load(tu)
    return _progs[tu]


class Fun:
    """one function under contract.
    pre(F) : adds preconditions / input regions
    args(F): python values of the parameters
    post(F, path, state, result): calls F.ensure_*"""
    def __init__(self, tu, qual, nparams=None, contracts=None, this='this', label=None, contains=None):
        self.tu, self.qual = tu, qual
        self.label = label or qual
        self.prog = program(tu)
        self.fn = self.prog.fn(qual, nparams, contains)
        self.e = Engine(self.prog, 'abstract', contracts if contracts is not None else field_contracts())
        self.e.globals_val = mod_globals()
        self.e.cur = self.label
        self.ctx = Ctx()
        self.st = State()
        self.path = Path(self.ctx)
        self.this = Loc(this)
        self.paths = 0
        self.undecided = []
        self.wall = 0.0

    # -- preconditions
    def require(self, *cs):
        for c in cs:
            self.path.ctx.add(c)

    def size(self, base, fn):
        self.e.init_store[base + '#size'] = Arr('int', lambda i, p: fn(*i), (), base + '#size')

    def run(self, args, post):
        t0 = time.time()
        e = self.e
        if not self.path.ctx.feasible():
            e.obls.append(Obligation(self.label, 'precondition satisfiable', False, 'contradictory precondition', False))
            return self
        e.obls.append(Obligation(self.label, 'precondition satisfiable', True))
        try:
            res = e.explore(self.path, self.st, lambda p, s: e.call_fn(self.fn, self.this, args, s, p))
            self.paths = len(res)
            if not res:
                e.obls.append(Obligation(self.label, 'a normal exit is reachable', False, '', False))
            for p, s, r in res:
                post(self, p, s, r)
        except Unsupported as x:
            self.undecided.append('outside the supported subset: %s' % x)
        except Fail as x:
            self.undecided.append('prover: ' + x.why)
        except z3.Z3Exception as x:
            self.undecided.append('z3: %s' % str(x)[:200])
        except RecursionError:
            self.undecided.append('recursion limit')
        self.wall = time.time() - t0
        return self

    # -- postconditions
    def field(self, v):
        if isinstance(v, Poly):
            return v
        b = self.e.fe(v)
        return b.p

    def ensure_zero(self, path, poly, name):
        try:
            Prover.zero(path.ctx, poly, fuel=2)
            self.e.obls.append(Obligation(self.label, name, True))
            return True
        except Fail as x:
            self.e.obls.append(Obligation(self.label, name, False, fail_text(x), definite(x)))
            return False

    def ensure_eq(self, path, got, want, name, canonical=True):
        if canonical and not isinstance(got, Poly):
            l, h = self.e.bounds_of(self.e.fe(got), path)
            ok = l >= 0 and h <= P - 1
            self.e.obls.append(Obligation(self.label, name + ' canonical', ok, '' if ok else 'range [%d, %d]' % (l, h)))
        return self.ensure_zero(path, self.field(got) - want, name)

    def ensure(self, path, cond, name):
        ok = path.ctx.implies(cond) if not isinstance(cond, bool) else cond
        d = ''
        df = True
        if not ok and not path.ctx.feasible():
            ok = True
        if not ok:
            r, s = path.ctx.check([z3.Not(cond)] if not isinstance(cond, bool) else [])
            d = 'cannot show %s' % cond
            if r == z3.sat:
                d += '; countermodel ' + str(s.model())[:1500]
            df = 'hv' not in str(cond)
        self.e.obls.append(Obligation(self.label, name, ok, d, df))
        return ok

    def fail(self, name, detail='', definite=True):
        self.e.obls.append(Obligation(self.label, name, False, detail, definite))

    def cell(self, path, st, base, idx, kind='big'):
        a = self.e.arr(st, base, kind)
        b = self.e.table_of(base)
        if b in self.e.found_views and len(idx) == b.count('[]'):
            idx = tuple(idx[:-1]) + tuple(self.e.split(simp(idx[-1]), self.e.views[b], path))
        return self.e.read_arr(a, tuple(idx), path)

    def report(self):
        return {'function': self.label, 'source': self.tu, 'obligations': len(self.e.obls),
                'discharged': sum(o.ok for o in self.e.obls), 'paths': self.paths,
                'undecided': self.undecided, 'wall_s': round(self.wall, 2)}


def definite(x):
    """a residual that mentions havocked state, or a depth limit, is a tool limit rather than a refutation"""
    if x.poly is None or x.why != 'residual polynomial is not zero':
        return False
    names = sel_names(x.poly)
    if any(re.match(r'(hv|P)\d+!|stale', n) for n in names):
        return False
    if 'hv' in str([c for c in x.ctx.cons]):
        return False
    return True


def fail_text(x):
    s = '%s: %s' % (x.why, str(x.poly)[:1200])
    if x.ctx is not None:
        s += ' || path condition: ' + '; '.join(str(c).replace('\n', ' ')[:160] for c in x.ctx.cons[-14:])
        r, m = x.ctx.check()
        if r == z3.sat:
            s += ' || integer model: ' + str(m.model())[:800].replace('\n', ' ')
    return s


_zid = [0]


def uf(name, n):
    return z3.Function(name, *([z3.IntSort()] * (n + 1)))
