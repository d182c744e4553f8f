"""Terms of the verifier.

Machine integers are z3 ``Int`` expressions.  Field values are multivariate
polynomials over F_p whose indeterminates ("atoms") are array cells, sums,
products, equality-table values, multilinear folds and conditional values.
``Prover.zero(ctx, poly)`` is the equality back end: it splits on the integer
conditions with z3, unfolds the defining equations of the recursive spec
symbols, identifies cells whose indices z3 proves equal and finally requires
the polynomial to be identically zero."""
import itertools, time
import z3

P = 16798108731015832284940804142231733909759579603404752749028378864165570215949
LIM = 2 ** 508

pow2f = z3.Function('pow2', z3.IntSort(), z3.IntSort())
shrf = z3.Function('shr', z3.IntSort(), z3.IntSort(), z3.IntSort())
lowf = z3.Function('low', z3.IntSort(), z3.IntSort(), z3.IntSort())

_fresh = itertools.count()


def fresh_int(name='k'):
    return z3.Int('%s!%d' % (name, next(_fresh)))


def IV(n):
    return z3.IntVal(n)


def is_const(e):
    return z3.is_int_value(e)


def const(e):
    """python int if e is constant else None"""
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return None


def simp(e):
    return z3.simplify(e)


def pow2(e):
    c = const(e)
    if c is not None:
        if c < 0:
            return pow2f(IV(c))
        return IV(2 ** c)
    return pow2f(simp(e))


def shr(x, n):
    c = const(n)
    if c is not None and c >= 0:
        if c == 0:
            return x
        return simp(x / IV(2 ** c)) if const(x) is not None else x / IV(2 ** c)
    if z3.is_app(x) and x.decl().name() == 'shr' and x.num_args() == 2:     # shift counts are never negative
        return shrf(x.arg(0), simp(x.arg(1) + n))
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_IDIV:
        c = const(x.arg(1))
        if c is not None and c > 0 and c & (c - 1) == 0:
            return shrf(simp(x.arg(0)), simp(n + (c.bit_length() - 1)))
    return shrf(simp(x), simp(n))


def shl(x, n):
    c = const(n)
    if c is not None:
        return simp(x * IV(2 ** c))
    if const(x) == 1:
        return pow2(n)
    return x * pow2(n)


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'd', 'key')
    table = {}
    byid = []

    @staticmethod
    def make(kind, key, d):
        k = (kind,) + key
        a = Atom.table.get(k)
        if a is None:
            a = Atom()
            a.id = len(Atom.byid)
            a.kind = kind
            a.d = d
            a.key = k
            Atom.byid.append(a)
            Atom.table[k] = a
        return a

    def __repr__(self):
        return show_atom(self)


def show_atom(a):
    d = a.d
    if a.kind == 'sel':
        return '%s[%s]' % (d[0], ','.join(str(simp(i)) for i in d[1]))
    if a.kind == 'int':
        return 'F(%s)' % simp(d[0])
    if a.kind == 'ite':
        return 'ite(%s, %s, %s)' % (d[0], d[1], d[2])
    if a.kind == 'sum':
        return 'SUM{%s in [%s,%s)} (%s)' % (d[0], simp(d[1]), simp(d[2]), d[3])
    if a.kind == 'prod':
        return 'PROD{%s in [%s,%s)} (%s)' % (d[0], simp(d[1]), simp(d[2]), d[3])
    if a.kind == 'eq':
        return 'EQ{%s}(%s | %s; n=%s, x=%s)' % (d[0], d[1], d[2], simp(d[3]), simp(d[4]))
    if a.kind == 'fold':
        return 'FOLD(%s; %s|%s; n=%s, x=%s)' % (d[2], d[4], d[5], simp(d[6]), simp(d[7]))
    if a.kind == 'rec':
        return '%s<%s>' % (d[0].name, ','.join(str(simp(i)) for i in d[1]))
    return a.kind + str(a.key)


class Poly:
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t if t is not None else {}

    @staticmethod
    def c(n):
        n %= P
        return Poly({(): n} if n else {})

    @staticmethod
    def atom(a):
        return Poly({(a.id,): 1})

    def __add__(self, o):
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = (r.get(m, 0) + c) % P
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: (-c) % P for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = (r.get(m, 0) + c1 * c2) % P
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    def is_zero(self):
        return not self.t

    def same(self, o):
        return self.t == o.t

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in list(self.t.items())[:12]:
            cs = str(c) if c < P // 2 else '-' + str(P - c)
            fs = '*'.join(repr(Atom.byid[i]) for i in m)
            out.append(cs if not m else (fs if cs == '1' else cs + '*' + fs))
        if len(self.t) > 12:
            out.append('...(%d terms)' % len(self.t))
        return ' + '.join(out)


ZERO = Poly()
ONE = Poly.c(1)


def _ek(e):
    return e.get_id()


_keep = []


def sel(name, idx):
    idx = tuple(simp(i) for i in idx)
    a = Atom.make('sel', (name,) + tuple(_ek(i) for i in idx), (name, idx))
    return Poly.atom(a)


def i2f(e):
    c = const(e)
    if c is not None:
        return Poly.c(c)
    e = simp(e)
    return Poly.atom(Atom.make('int', (_ek(e),), (e,)))


def _pk(p):
    return tuple(sorted(p.t.items()))


def ite(c, t, e):
    if isinstance(c, bool):
        return t if c else e
    c = simp(c)
    if z3.is_true(c):
        return t
    if z3.is_false(c):
        return e
    if t.same(e):
        return t
    return Poly.atom(Atom.make('ite', (_ek(c), _pk(t), _pk(e)), (c, t, e)))


def mksum(var, lo, hi, body):
    if body.is_zero():
        return ZERO
    lo, hi = simp(lo), simp(hi)
    cl, ch = const(lo), const(hi)
    if cl is not None and ch is not None and ch <= cl:
        return ZERO
    if cl != 0:       # index from 0
        body = psubst(body, [(var, simp(var + lo))])
        return mksum(var, IV(0), simp(hi - lo), body)
    # collapse  SUM ite(var == e, t, 0)
    if downward(var, hi, body):      # summed from the last term to the first: reverse
        body = psubst(body, [(var, simp(hi - 1 - var))])
    if len(body.t) == 1:
        (m, c), = body.t.items()
        if len(m) == 1 and Atom.byid[m[0]].kind == 'ite':
            cond, t, e = Atom.byid[m[0]].d
            r = collapse(var, lo, hi, cond, t, e)
            if r is not None:
                return r * Poly.c(c)
    return Poly.atom(Atom.make('sum', (_ek(var), _ek(lo), _ek(hi), _pk(body)), (var, lo, hi, body)))


def downward(var, hi, body):
    """the body mentions var only as hi - 1 - var"""
    state = [0]

    def expr(e):
        if not occurs(var, e):
            return True
        if z3.is_int(e) and (z3.is_add(e) or z3.is_mul(e) or z3.is_sub(e) or e.get_id() == var.get_id()):
            if const(simp(e + var - (hi - 1))) == 0:
                state[0] += 1
                return True
            if not z3.is_app(e) or e.num_args() == 0:
                return False
            return all(expr(c) for c in e.children()) if all(x.get_id() != var.get_id() for x in e.children()) and not any(
                z3.is_mul(x) and any(y.get_id() == var.get_id() for y in x.children()) for x in e.children()) and not (
                z3.is_mul(e) and any(y.get_id() == var.get_id() for y in e.children())) else False
        return all(expr(c) for c in e.children())

    def poly(p):
        for i in p.atoms():
            es, ps = aexprs(Atom.byid[i])
            if not all(expr(e) for e in es) or not all(poly(q) for q in ps):
                return False
        return True
    return poly(body) and state[0] > 0


def collapse(var, lo, hi, cond, t, e):
    if not e.is_zero():
        return None
    conj = list(cond.children()) if z3.is_and(cond) else [cond]
    for i, q in enumerate(conj):
        if z3.is_eq(q):
            l, r = q.children()
            if not z3.is_int(l):
                continue
            d = simp(l - r)
            d0 = simp(z3.substitute(d, (var, IV(0))))
            d1 = simp(z3.substitute(d, (var, IV(1))))
            co = const(d1 - d0)
            if co in (1, -1) and not occurs(var, d0):
                # d = co*var + d0 must be affine
                if const(simp(d - (co * var + d0))) != 0:
                    continue
                val = simp(-d0) if co == 1 else simp(d0)
                rest = [simp(z3.substitute(x, (var, val))) for j, x in enumerate(conj) if j != i]
                c = z3.And([lo <= val, val < hi] + rest)
                return ite(c, psubst(t, [(var, val)]), ZERO)
    return None


def mkprod(var, lo, hi, body):
    lo, hi = simp(lo), simp(hi)
    return Poly.atom(Atom.make('prod', (_ek(var), _ek(lo), _ek(hi), _pk(body)), (var, lo, hi, body)))


def mkeq(var, A, B, n, x):
    """EQ(0,x)=1 ; EQ(n+1,x) = x<2^n ? EQ(n,x)*A(n) : EQ(n,x-2^n)*B(n)"""
    n, x = simp(n), simp(x)
    if const(n) == 0:
        return ONE
    return Poly.atom(Atom.make('eq', (_ek(var), _pk(A), _pk(B), _ek(n), _ek(x)), (var, A, B, n, x)))


def mkfold(xvar, init, var, A, B, n, x):
    """FOLD(0,x)=init(x) ; FOLD(n+1,x) = FOLD(n,2x)*A(n) + FOLD(n,2x+1)*B(n)"""
    n, x = simp(n), simp(x)
    if const(n) == 0:
        return psubst(init, [(xvar, x)])
    return Poly.atom(Atom.make('fold', (_ek(xvar), _pk(init), _ek(var), _pk(A), _pk(B), _ek(n), _ek(x)),
                               (None, xvar, init, var, A, B, n, x)))


class RecDef:
    """recursively defined cell family: name, unfold(idx)->Poly"""
    def __init__(self, name, unfold):
        self.name, self.unfold = name, unfold


def mkrec(rd, idx):
    idx = tuple(simp(i) for i in idx)
    return Poly.atom(Atom.make('rec', (id(rd),) + tuple(_ek(i) for i in idx), (rd, idx)))


_occ = {}


def occurs(var, e):
    key = (var.get_id(), e.get_id())
    r = _occ.get(key)
    if r is not None:
        return r
    seen, st, res = set(), [e], False
    vid = var.get_id()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == vid:
            res = True
            break
        st.extend(x.children())
    _occ[key] = res
    _keep.append((var, e))
    return res


def poccurs(var, p):
    return any(aoccurs(var, Atom.byid[i]) for i in p.atoms())


def aexprs(a):
    d = a.d
    if a.kind == 'sel':
        return list(d[1]), []
    if a.kind == 'int':
        return [d[0]], []
    if a.kind == 'ite':
        return [d[0]], [d[1], d[2]]
    if a.kind in ('sum', 'prod'):
        return [d[1], d[2]], [d[3]]
    if a.kind == 'eq':
        return [d[3], d[4]], [d[1], d[2]]
    if a.kind == 'fold':
        return [d[6], d[7]], [d[2], d[4], d[5]]
    if a.kind == 'rec':
        return list(d[1]), []
    raise ValueError(a.kind)


def aoccurs(var, a):
    es, ps = aexprs(a)
    return any(occurs(var, e) for e in es) or any(poccurs(var, p) for p in ps)


def esubst(e, subs):
    return simp(z3.substitute(e, *subs))


def asubst(a, subs):
    d = a.d
    if a.kind == 'sel':
        return sel(d[0], [esubst(i, subs) for i in d[1]])
    if a.kind == 'int':
        return i2f(esubst(d[0], subs))
    if a.kind == 'ite':
        return ite(esubst(d[0], subs), psubst(d[1], subs), psubst(d[2], subs))
    if a.kind in ('sum', 'prod'):
        v, lo, hi, b = d
        nb = psubst(b, subs)
        f = mksum if a.kind == 'sum' else mkprod
        return f(v, esubst(lo, subs), esubst(hi, subs), nb)
    if a.kind == 'eq':
        v, A, B, n, x = d
        return mkeq(v, psubst(A, subs), psubst(B, subs), esubst(n, subs), esubst(x, subs))
    if a.kind == 'fold':
        _, xv, init, v, A, B, n, x = d
        return mkfold(xv, psubst(init, subs), v, psubst(A, subs), psubst(B, subs),
                      esubst(n, subs), esubst(x, subs))
    if a.kind == 'rec':
        return mkrec(d[0], [esubst(i, subs) for i in d[1]])
    raise ValueError(a.kind)


_subst_cache = {}


def psubst(p, subs):
    if not p.t:
        return p
    key = tuple((v.get_id(), e.get_id()) for v, e in subs)
    out = ZERO
    repl = {}
    for i in p.atoms():
        ck = (i, key)
        r = _subst_cache.get(ck)
        if r is None:
            a = Atom.byid[i]
            if any(aoccurs(v, a) for v, _ in subs):
                r = asubst(a, subs)
            else:
                r = Poly.atom(a)
            _subst_cache[ck] = r
            _keep.append(subs)
        repl[i] = r
    return preplace(p, repl)


def preplace(p, repl):
    """replace atoms (by id) with polys"""
    if not any(i in repl and repl[i].t != {(i,): 1} for i in p.atoms()):
        return p
    out = {}
    acc = ZERO
    for m, c in p.t.items():
        if not any(i in repl for i in m):
            out[m] = (out.get(m, 0) + c) % P
            continue
        q = Poly({(): c})
        for i in m:
            q = q * (repl[i] if i in repl else Poly({(i,): 1}))
        acc = acc + q
    return Poly({m: c for m, c in out.items() if c}) + acc


def map_sel(p, fn):
    """rebuild p replacing every sel atom by fn(atom) (Poly or None), also inside binders"""
    repl = {}
    for i in p.atoms():
        a = Atom.byid[i]
        if a.kind == 'sel':
            r = fn(a)
            if r is not None:
                repl[i] = r
        elif a.kind == 'int':
            pass
        else:
            d = a.d
            if a.kind == 'ite':
                t, e = map_sel(d[1], fn), map_sel(d[2], fn)
                if not (t.same(d[1]) and e.same(d[2])):
                    repl[i] = ite(d[0], t, e)
            elif a.kind in ('sum', 'prod'):
                b = map_sel(d[3], fn)
                if not b.same(d[3]):
                    repl[i] = (mksum if a.kind == 'sum' else mkprod)(d[0], d[1], d[2], b)
            elif a.kind == 'eq':
                A, B = map_sel(d[1], fn), map_sel(d[2], fn)
                repl[i] = mkeq(d[0], A, B, d[3], d[4])
            elif a.kind == 'fold':
                repl[i] = mkfold(d[1], map_sel(d[2], fn), d[3], map_sel(d[4], fn), map_sel(d[5], fn), d[6], d[7])
    return preplace(p, repl)


def map_rec(p, old, new):
    """rebuild p with the recursive family old replaced by new"""
    repl = {}
    for i in p.atoms():
        a = Atom.byid[i]
        d = a.d
        if a.kind == 'rec':
            if d[0] is old:
                repl[i] = mkrec(new, d[1])
        elif a.kind == 'ite':
            repl[i] = ite(d[0], map_rec(d[1], old, new), map_rec(d[2], old, new))
        elif a.kind in ('sum', 'prod'):
            repl[i] = (mksum if a.kind == 'sum' else mkprod)(d[0], d[1], d[2], map_rec(d[3], old, new))
        elif a.kind == 'eq':
            repl[i] = mkeq(d[0], map_rec(d[1], old, new), map_rec(d[2], old, new), d[3], d[4])
        elif a.kind == 'fold':
            repl[i] = mkfold(d[1], map_rec(d[2], old, new), d[3], map_rec(d[4], old, new), map_rec(d[5], old, new), d[6], d[7])
    return preplace(p, repl)


def sel_names(p, acc=None, deep=True):
    acc = set() if acc is None else acc
    for i in p.atoms():
        a = Atom.byid[i]
        if a.kind == 'sel':
            acc.add(a.d[0])
        elif a.kind == 'rec':
            acc.add(a.d[0].name)
        elif deep and a.kind != 'int':
            for q in aexprs(a)[1]:
                sel_names(q, acc)
    return acc


# ---------------------------------------------------------------- integer context
_subs_cache = {}
UF_AX = {}      # uninterpreted function name -> fn(args, app) -> facts (contract preconditions)


def special_terms(e):
    """pow2/shr/low applications and applications of functions with registered facts occurring in e"""
    i = e.get_id()
    r = _subs_cache.get(i)
    if r is not None:
        return r[1]
    out = {}
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n in ('pow2', 'shr', 'low') or n in UF_AX:
                out[x.get_id()] = x
        st.extend(x.children())
    r = list(out.values())
    _subs_cache[i] = (e, r)
    return r


STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}


_ax1, _ax2 = {}, {}


def _c1(t, f):
    r = _ax1.get(t.get_id())
    if r is None:
        r = _ax1[t.get_id()] = (t, f(t))
    return r[1]


def _c2(tag, a, b, f):
    k = (tag, a.get_id(), b.get_id())
    r = _ax2.get(k)
    if r is None:
        r = _ax2[k] = (a, b, f(a, b))
    return r[2]


def _conj(l):
    return z3.And(l) if len(l) > 1 else l[0]


def _pow1(t):
    e = t.arg(0)
    return _conj([z3.Implies(e >= 0, z3.And(t >= 1, t > e)), z3.Implies(e == 0, t == 1),
                  z3.Implies(e >= 1, z3.And(t >= 2, t % 2 == 0)),
                  z3.Implies(z3.And(e >= 0, e <= 30), t <= 2 ** 30)])


def _pow2(a, b):
    ea, eb = a.arg(0), b.arg(0)
    d = const(simp(eb - ea))
    if d is not None:     # the distance of the exponents is known
        if d < 0:
            a, b, ea, eb, d = b, a, eb, ea, -d
        return z3.Implies(ea >= 0, b == IV(2 ** d) * a) if d <= 64 else z3.Implies(ea >= 0, b >= IV(2 ** 64) * a)
    return _conj([z3.Implies(z3.And(ea >= 0, eb == ea + 1), b == 2 * a), z3.Implies(z3.And(eb >= 0, ea == eb + 1), a == 2 * b),
                  z3.Implies(z3.And(ea >= 0, ea < eb), 2 * a <= b), z3.Implies(z3.And(eb >= 0, eb < ea), 2 * b <= a),
                  z3.Implies(ea == eb, a == b)])


def _shr1(t):
    x, n = t.arg(0), t.arg(1)
    return _conj([z3.Implies(n == 0, t == x), z3.Implies(z3.And(x >= 0, n >= 0), z3.And(t >= 0, t <= x)),
                  z3.Implies(z3.And(x >= 0, n == 1), t == x / 2)])


def _shrpow(t, q):
    x, n = t.arg(0), t.arg(1)
    e = q.arg(0)
    pe = pow2(e - n)
    return (_conj([z3.Implies(z3.And(n >= 0, n <= e, x >= 0, x < q), t < pe),
                   z3.Implies(z3.And(n >= 0, n <= e, x == q), t == pe),
                   z3.Implies(z3.And(n >= 0, n <= e, x == q - 1), t == pe - 1),
                   z3.Implies(z3.And(n > e, e >= 0, x >= 0, x <= q), t == 0)]), pe)


def _shr2(a, b):
    if a.arg(0).get_id() != b.arg(0).get_id():
        return None
    return _conj([z3.Implies(z3.And(b.arg(1) >= 0, a.arg(1) == b.arg(1) + 1), a == b / 2),
                  z3.Implies(z3.And(b.arg(1) >= 0, a.arg(1) == b.arg(1)), a == b)])


def _low1(t):
    x, n = t.arg(0), t.arg(1)
    pn = pow2(n)
    return (_conj([z3.Implies(n >= 0, z3.And(t >= 0, t < pn)), z3.Implies(z3.And(n >= 0, x >= 0), t <= x),
                   z3.Implies(z3.And(n >= 0, x >= 0, x < pn), t == x)]), pn)


def axioms(terms):
    """ground instances of the defining axioms of pow2 / shr / low"""
    pows, shrs, lows = {}, {}, {}
    for t in terms:
        n = t.decl().name()
        (pows if n == 'pow2' else shrs if n == 'shr' else lows)[t.get_id()] = t
    ax = []
    newp = []
    for t in shrs.values():
        ax.append(_c1(t, _shr1))
        for q in list(pows.values()):
            f, pe = _c2('sp', t, q, _shrpow)
            ax.append(f)
            if not is_const(pe):
                newp.append(pe)
    for t in newp:
        pows[t.get_id()] = t
    for a, b in itertools.permutations(list(shrs.values()), 2):
        f = _c2('ss', a, b, _shr2)
        if f is not None:
            ax.append(f)
    for t in lows.values():
        f, pn = _c1(t, _low1)
        if not is_const(pn):
            pows[pn.get_id()] = pn
        ax.append(f)
    pl = list(pows.values())
    for t in pl:
        ax.append(_c1(t, _pow1))
    for a, b in itertools.combinations(pl, 2):
        ax.append(_c2('pp', a, b, _pow2))
    return ax


_uf_cache = {}


def uf_facts(h, t):
    k = (id(h), t.get_id())
    r = _uf_cache.get(k)
    if r is None:
        r = (h, t, [f for f in h([t.arg(i) for i in range(t.num_args())], t)])
        _uf_cache[k] = r
    return r[2]


class Held:
    def __init__(self, m, ids, terms):
        self.m, self.ids, self.terms = m, ids, terms

    def model(self):
        return self.m


class Ctx:
    """a set of integer facts; implication is decided by z3"""
    def __init__(self, cons=(), parent=None):
        self.cons = list(cons)
        self.known = {}       # expr id -> True (implied) ; monotone
        self.notknown = {}    # expr id -> number of cons at time
        self._ids = set(c.get_id() for c in self.cons)
        self.models = []

    def copy(self):
        c = Ctx()
        c.models = self.models
        c.cons = list(self.cons)
        c._ids = set(self._ids)
        c.known = dict(self.known)
        c.notknown = dict(self.notknown)
        return c

    def add(self, e):
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        e = simp(e)
        if z3.is_true(e):
            return
        if e.get_id() in self._ids:
            return
        if z3.is_and(e):
            for c in e.children():
                self.add(c)
            return
        self._ids.add(e.get_id())
        self.cons.append(e)

    def reuse(self, extra):
        """a model found earlier that satisfies everything asked here (and was subject to the axioms of all terms involved)"""
        for h in reversed(self.models):
            for e in itertools.chain(extra, reversed(self.cons)):
                i = e.get_id()
                if i in h.ids:
                    continue
                if any(t.get_id() not in h.terms for t in special_terms(e)) or not z3.is_true(h.m.eval(e, model_completion=True)):
                    break
                h.ids[i] = e
            else:
                self.models.remove(h)
                self.models.append(h)
                return h
        return None

    def check(self, extra=()):
        h = self.reuse(extra)
        if h is not None:
            STATS['reused'] = STATS.get('reused', 0) + 1
            return z3.sat, h
        s = z3.Solver()
        s.set('timeout', 10000)
        es = self.cons + list(extra)
        terms, done = {}, set()
        work = list(es)
        for _ in range(4):
            new = []
            for e in work:
                for t in special_terms(e):
                    terms[t.get_id()] = t
                    if t.get_id() not in done:
                        done.add(t.get_id())
                        h = UF_AX.get(t.decl().name())
                        if h:
                            new.extend(uf_facts(h, t))
            es = es + new
            work = new
            if not new:
                break
        s.add(es)
        terms = [t for t in terms.values() if t.decl().name() in ('pow2', 'shr', 'low')]
        if terms:
            s.add(axioms(terms))
        t0 = time.time()
        r = s.check()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t0
        if r == z3.unknown:
            STATS['unknown'] += 1
        if r == z3.sat:
            self.models.append(Held(s.model(), {e.get_id(): e for e in es}, done))
            if len(self.models) > 40:
                del self.models[:8]
        return r, s

    def implies(self, e):
        if isinstance(e, bool):
            return e
        e = simp(e)
        if z3.is_true(e):
            return True
        i = e.get_id()
        if i in self._ids or i in self.known:
            return True
        n = len(self.cons)
        if self.notknown.get(i, (None, -1))[1] == n:
            return False
        if z3.is_and(e):
            return all(self.implies(c) for c in e.children())
        r, _ = self.check([z3.Not(e)])
        if r == z3.unsat:
            self.known[i] = e
            return True
        self.notknown[i] = (e, n)
        return False

    def feasible(self):
        r, _ = self.check()
        return r != z3.unsat

    def with_(self, *es):
        c = self.copy()
        for e in es:
            c.add(e)
        return c

    def eq(self, a, b):
        d = simp(a - b)
        c = const(d)
        if c is not None:
            return c == 0
        return self.implies(a == b)


# ---------------------------------------------------------------- ring equality
class Fail(Exception):
    def __init__(self, poly, ctx, why='residual polynomial is not zero'):
        self.poly, self.ctx, self.why = poly, ctx, why
        Exception.__init__(self, why)


class Prover:
    leaves = 0
    splits = 0

    @staticmethod
    def zero(ctx, p, depth=0, fuel=1):
        """raises Fail if p==0 cannot be shown under ctx"""
        if depth > 60:
            raise Fail(p, ctx, 'depth limit')
        p = Prover.norm(ctx, p)
        if p.is_zero():
            Prover.leaves += 1
            return
        # 1. conditional atoms
        for i in sorted(p.atoms()):
            a = Atom.byid[i]
            if a.kind == 'ite':
                c = a.d[0]
                for cond, val in ((c, a.d[1]), (z3.Not(c), a.d[2])):
                    cx = ctx.with_(cond)
                    if not cx.feasible():
                        continue
                    Prover.splits += 1
                    Prover.zero(cx, preplace(p, {i: val}), depth + 1, fuel)
                return
        # 2. recursive symbols
        q = Prover.unfold(ctx, p)
        if q is not None:
            return Prover.zero(ctx, q, depth + 1, fuel)
        if fuel > 0:   # recursive cells
            repl = {}
            for i in p.atoms():
                a = Atom.byid[i]
                if a.kind == 'rec':
                    u = a.d[0].unfold(ctx, a.d[1])
                    if u is not None:
                        repl[i] = u
            if repl:
                return Prover.zero(ctx, preplace(p, repl), depth + 1, fuel - 1)
        # 3. sums
        q = Prover.sums(ctx, p, depth, fuel)
        if q is not None:
            return Prover.zero(ctx, q, depth + 1, fuel)
        if not ctx.feasible():
            Prover.leaves += 1
            return
        raise Fail(p, ctx)

    @staticmethod
    def ext_eq(ctx, a, b, depth=0):
        """do atoms a,b of the same kind denote the same value?"""
        if a.kind != b.kind or depth > 6:
            return False
        da, db = a.d, b.d
        if a.kind == 'sel':
            return da[0] == db[0] and len(da[1]) == len(db[1]) and all(ctx.eq(x, y) for x, y in zip(da[1], db[1]))
        if a.kind == 'int':
            return ctx.eq(da[0], db[0])
        if a.kind == 'rec':
            return da[0] is db[0] and all(ctx.eq(x, y) for x, y in zip(da[1], db[1]))

        def body_eq(va, pa, vb, pb, lo, hi):
            f = fresh_int('x')
            q = psubst(pa, [(va, f)]) - psubst(pb, [(vb, f)])
            if q.is_zero():
                return True
            c = ctx.with_(f >= lo, f < hi)
            try:
                Prover.zero(c, q, 40)
                return True
            except Fail:
                return False
        if a.kind in ('sum', 'prod'):
            return ctx.eq(da[1], db[1]) and ctx.eq(da[2], db[2]) and body_eq(da[0], da[3], db[0], db[3], da[1], da[2])
        if a.kind == 'eq':
            return (ctx.eq(da[3], db[3]) and ctx.eq(da[4], db[4]) and
                    body_eq(da[0], da[1], db[0], db[1], IV(0), da[3]) and
                    body_eq(da[0], da[2], db[0], db[2], IV(0), da[3]))
        if a.kind == 'fold':
            return (ctx.eq(da[6], db[6]) and ctx.eq(da[7], db[7]) and
                    body_eq(da[3], da[4], db[3], db[4], IV(0), da[6]) and
                    body_eq(da[3], da[5], db[3], db[5], IV(0), da[6]) and
                    body_eq(da[1], da[2], db[1], db[2], IV(0), pow2(da[6])))
        return False

    @staticmethod
    def norm(ctx, p):
        """identify atoms proved equal; resolve decided conditionals"""
        changed = True
        while changed:
            changed = False
            for i in p.atoms():
                a = Atom.byid[i]
                if a.kind == 'ite':
                    c = a.d[0]
                    if ctx.implies(c):
                        p = preplace(p, {i: a.d[1]})
                        changed = True
                        break
                    if ctx.implies(z3.Not(c)):
                        p = preplace(p, {i: a.d[2]})
                        changed = True
                        break
        ids = sorted(p.atoms())
        groups = {}
        repl = {}
        for i in ids:
            a = Atom.byid[i]
            if a.kind == 'ite':
                continue
            g = groups.setdefault((a.kind, a.d[0] if a.kind == 'sel' else (id(a.d[0]) if a.kind == 'rec' else None)), [])
            for r in g:
                if Prover.ext_eq(ctx, r, a):
                    repl[i] = Poly.atom(r)
                    break
            else:
                g.append(a)
        if repl:
            p = preplace(p, repl)
        return p

    @staticmethod
    def unfold(ctx, p):
        ats = [Atom.byid[i] for i in sorted(p.atoms())]
        # trivial cases
        for a in ats:
            d = a.d
            if a.kind == 'sum' and ctx.implies(d[2] <= d[1]):
                return preplace(p, {a.id: ZERO})
            if a.kind == 'prod' and ctx.implies(d[2] <= d[1]):
                return preplace(p, {a.id: ONE})
            if a.kind == 'eq' and ctx.implies(d[3] == 0):
                return preplace(p, {a.id: ONE})
            if a.kind == 'fold' and ctx.implies(d[6] == 0):
                return preplace(p, {a.id: psubst(d[2], [(d[1], d[7])])})
        for a, b in itertools.permutations(ats, 2):
            if a.kind != b.kind:
                continue
            da, db = a.d, b.d
            if a.kind in ('sum', 'prod') and ctx.eq(da[1], db[1]) and ctx.eq(da[2], db[2] + 1):
                last = psubst(da[3], [(da[0], db[2])])
                if a.kind == 'sum':
                    r = mksum(da[0], da[1], db[2], da[3]) + last
                else:
                    r = mkprod(da[0], da[1], db[2], da[3]) * last
                if ctx.implies(da[1] <= db[2]):
                    return preplace(p, {a.id: r})
            if a.kind == 'rec' and da[0] is db[0] and ctx.eq(da[1][da[0].pos], db[1][da[0].pos] + 1):
                u = da[0].unfold(ctx, da[1])
                if u is not None:
                    return preplace(p, {a.id: u})
            if a.kind == 'eq' and ctx.eq(da[3], db[3] + 1):
                n = db[3]
                v, A, B, _, x = da
                An, Bn = psubst(A, [(v, n)]), psubst(B, [(v, n)])
                r = ite(x < pow2(n), mkeq(v, A, B, n, x) * An, mkeq(v, A, B, n, simp(x - pow2(n))) * Bn)
                return preplace(p, {a.id: r})
            if a.kind == 'fold' and ctx.eq(da[6], db[6] + 1):
                n = db[6]
                _, xv, init, v, A, B, _, x = da
                An, Bn = psubst(A, [(v, n)]), psubst(B, [(v, n)])
                r = mkfold(xv, init, v, A, B, n, 2 * x) * An + mkfold(xv, init, v, A, B, n, 2 * x + 1) * Bn
                return preplace(p, {a.id: r})
        # joining of two half tables:  EQ(h, low(x,h)) * EQ'(n-h, shr(x,h)) -> EQ(n, x)
        eqs = [a for a in ats if a.kind == 'eq']
        for a, b in itertools.permutations(eqs, 2):
            q = Prover.join(ctx, p, a, b)
            if q is not None:
                return q
        return None

    @staticmethod
    def join(ctx, p, a, b):
        """lemma EQ_join (by induction on m from the defining recursion of EQ):
        EQ[A,B](h, x mod 2^h) * EQ[A(.+h),B(.+h)](m, x div 2^h) = EQ[A,B](h+m, x),  0<=x<2^(h+m)"""
        v, A, B, h, xl = a.d
        w, A2, B2, m, xh = b.d
        if not (z3.is_app(xl) and xl.decl().name() == 'low' and z3.is_app(xh) and xh.decl().name() == 'shr'):
            return None
        if not (ctx.eq(xl.arg(1), h) and ctx.eq(xh.arg(1), h) and ctx.eq(xl.arg(0), xh.arg(0))):
            return None
        x = xl.arg(0)
        f = fresh_int('t')
        c = ctx.with_(f >= 0, f < m)
        for S, S2 in ((A, A2), (B, B2)):
            d = psubst(S, [(v, simp(f + h))]) - psubst(S2, [(w, f)])
            try:
                Prover.zero(c, d, 40)
            except Fail:
                return None
        if not ctx.implies(z3.And(x >= 0, x < pow2(h + m), h >= 0, m >= 0)):
            return None
        new = mkeq(v, A, B, simp(h + m), x)
        out, hit = {}, False
        acc = ZERO
        for mono, co in p.t.items():
            ml = list(mono)
            k = 0
            while a.id in ml and b.id in ml:
                ml.remove(a.id)
                ml.remove(b.id)
                k += 1
            if k:
                hit = True
                q = Poly({tuple(sorted(ml)): co})
                for _ in range(k):
                    q = q * new
                acc = acc + q
            else:
                acc = acc + Poly({mono: co})
        return acc if hit else None

    @staticmethod
    def exchange(ctx, a):
        """sum_i m(i) sum_g f(g,i) = sum_g m(t(g)) f(g,t(g)) [lo <= t(g) < hi], provided f(g,i) = 0 for i != t(g)"""
        import loops
        v, lo, hi, body = a.d
        if not any(Atom.byid[i].kind == 'sum' or Atom.byid[i].kind == 'ite' for i in body.atoms()):
            return None
        iv = fresh_int('i')
        cx = ctx.with_(iv >= lo, iv < hi)
        body = Prover.norm(cx, psubst(body, [(v, iv)]))
        inner = {}
        for i in body.atoms():
            b = Atom.byid[i]
            if b.kind == 'sum' and not occurs(iv, b.d[1]) and not occurs(iv, b.d[2]):
                inner[i] = b
        if not inner:
            return None
        rest, out, hit = {}, ZERO, False
        for m, c in body.t.items():
            s = [i for i in m if i in inner]
            r = None
            if s:
                b = inner[s[0]]
                ml = list(m)
                ml.remove(s[0])
                gv = fresh_int('g')
                f = psubst(b.d[3], [(b.d[0], gv)])
                co = Poly({tuple(ml): c})
                eqs = []
                loops.scan_eqs(f, eqs)
                seen = set()
                for q in eqs:
                    af = loops.affine(simp(q.arg(0) - q.arg(1)), iv)
                    if not af or af[0] not in (1, -1):
                        continue
                    t = simp(-af[1]) if af[0] == 1 else simp(af[1])
                    if t.get_id() in seen or occurs(iv, t):
                        continue
                    seen.add(t.get_id())
                    try:
                        Prover.zero(cx.with_(gv >= b.d[1], gv < b.d[2], iv != t), f, 40)
                    except Fail:
                        continue
                    r = mksum(gv, b.d[1], b.d[2], ite(z3.And(lo <= t, t < hi), psubst(f * co, [(iv, t)]), ZERO))
                    break
            if r is None:
                rest[m] = c
            else:
                out, hit = out + r, True
        if not hit:
            return None
        return out + mksum(iv, lo, hi, Poly(rest))

    @staticmethod
    def sums(ctx, p, depth, fuel=1):
        """combine all terms linear in one sum atom with the same range and
        require the combined body to vanish pointwise"""
        sums = {}
        for i in p.atoms():
            if Atom.byid[i].kind == 'sum':
                sums[i] = Atom.byid[i]
        if not sums:
            return None
        groups = []
        rest = {}
        for i in list(sums):
            q = Prover.exchange(ctx, sums[i])
            if q is not None:
                return preplace(p, {i: q})
        for m, c in p.t.items():
            s = [i for i in m if i in sums]
            if not s:
                rest[m] = c
                continue
            a = sums[s[0]]
            ml = list(m)
            ml.remove(s[0])
            for g in groups:
                if ctx.eq(g[0], a.d[1]) and ctx.eq(g[1], a.d[2]):
                    break
            else:
                g = [a.d[1], a.d[2], fresh_int('s'), ZERO]
                groups.append(g)
            g[3] = g[3] + psubst(a.d[3], [(a.d[0], g[2])]) * Poly({tuple(ml): c})
        for lo, hi, v, body in groups:
            cx = ctx.with_(v >= lo, v < hi)
            if not cx.feasible():
                continue
            Prover.zero(cx, body, depth + 1, fuel)
        return Poly(rest)
