"""Contracts of the linear-time prover and verifier (src/linear_gkr/*_fast_track.cpp)."""
from contract import *

PTU = 'src/linear_gkr/prover_fast_track.cpp'
VTU = 'src/linear_gkr/verifier_fast_track.cpp'
MAXBL = 28

T = z3.Int
F2 = Poly.c(2)


def mle(S, n, r, om=None):
    """multilinear extension of x -> S(x), x < 2^n, at r (low bit of x is bound by r[0])"""
    xv, t = fresh_int('x'), fresh_int('t')
    A = om(t) if om else ONE - r(t)
    return mkfold(xv, S(xv), t, A, r(t), n, IV(0))


def eqt(n, x, r, om=None):
    """eq~(bits of x, r)"""
    t = fresh_int('t')
    A = om(t) if om else ONE - r(t)
    return mkeq(t, A, r(t), n, x)


def Sum(lo, hi, f):
    t = fresh_int('t')
    return mksum(t, lo, hi, f(t))


class Circ:
    """well-formed layered circuit stored under base (e.g. 'this.C')"""
    def __init__(self, F, base='this.C', types=tuple(range(11)), mb=None, free=False):
        """free: what evaluation alone needs - constants and relays in any layer, and only the wires a gate reads are in range"""
        self.F, self.base = F, base
        b = base + '.circuit[]'
        self.depth = z3.Int(base + '.total_depth')
        self.bl = uf(b + '.bit_length', 1)
        self.ty = uf(b + '.gates[].ty', 2)
        self.u = uf(b + '.gates[].u', 2)
        self.v = uf(b + '.gates[].v', 2)
        F.require(self.depth >= 2, self.depth <= 10000)
        F.size(b, lambda: self.depth)
        F.size(b + '.gates[]', lambda i: pow2(self.bl(i)))
        for f in ('ty', 'u', 'v'):
            F.size(b + '.gates[].' + f, lambda i: pow2(self.bl(i)))
        for f in ('gates', 'bit_length'):
            F.size(b + '.' + f, lambda: self.depth)
        bl, ty, u, v, depth = self.bl, self.ty, self.u, self.v, self.depth
        terms.UF_AX[b + '.bit_length'] = lambda a, t: [t >= 1, t <= MAXBL] + ([t <= mb] if mb is not None else []) + ([bl(IV(1)) == bl(IV(0))] if 4 in types and not free else [])
        allowed = [t for t in types if t not in (3, 4)]

        def inr(a):
            return z3.And(a[0] >= 1, a[0] < depth, a[1] >= 0, a[1] < pow2(bl(a[0])))

        def axty(a, t):
            if free:
                return [z3.Implies(z3.And(a[0] == 0, a[1] >= 0, a[1] < pow2(bl(a[0]))), z3.Or(t == 2, t == 3)),
                        z3.Implies(inr(a), z3.Or([t == x for x in sorted(set(types) | {2, 3})]))]
            r = [z3.Implies(z3.And(a[0] == 0, a[1] >= 0, a[1] < pow2(bl(a[0]))), z3.Or(t == 2, t == 3)),
                 z3.Implies(z3.And(inr(a), a[0] >= 2), z3.Or([t == x for x in allowed]))]
            if 4 in types:
                r.append(z3.Implies(z3.And(inr(a), a[0] == 1), t == 4))
            else:
                r.append(z3.Implies(z3.And(inr(a), a[0] == 1), z3.Or([t == x for x in allowed])))
            return r

        def axu(a, t):
            y, lim = ty(*a), pow2(bl(a[0] - 1))
            if free:
                return [t >= -2 ** 31, t < 2 ** 31, z3.Implies(z3.And(inr(a), y != 2, y != 3), t >= 0),
                        z3.Implies(z3.And(inr(a), y != 2, y != 3, y != 5), t < lim),
                        z3.Implies(z3.And(inr(a), y == 5), z3.And(t <= v(*a), v(*a) <= lim))]
            q = [t >= -2 ** 31, t < 2 ** 31,
                 z3.Implies(z3.And(inr(a), y != 5), z3.And(t >= 0, t < lim))]
            if 5 in types:
                q.append(z3.Implies(z3.And(inr(a), y == 5), z3.And(t >= 0, t <= v(*a), v(*a) <= lim)))
            if 4 in types:
                q.append(z3.Implies(z3.And(inr(a), y == 4), t == a[1]))
            return q

        def axv(a, t):
            y, lim = ty(*a), pow2(bl(a[0] - 1))
            if free:
                return [z3.Implies(z3.And(inr(a), z3.Or([y == x for x in (0, 1, 7, 8, 9)])), z3.And(t >= 0, t < lim)),
                        z3.Implies(z3.And(inr(a), y == 5), z3.And(t >= u(*a), t <= lim))]
            q = [z3.Implies(z3.And(inr(a), y != 5), z3.And(t >= 0, t < lim))]
            if 5 in types:
                q.append(z3.Implies(z3.And(inr(a), y == 5), z3.And(t >= u(*a), t <= lim)))
            q.append(z3.Implies(z3.And(inr(a), z3.Or(y == 4, y == 6, y == 10)), t == 0))
            return q
        terms.UF_AX[b + '.gates[].ty'] = axty
        terms.UF_AX[b + '.gates[].u'] = axu
        terms.UF_AX[b + '.gates[].v'] = axv

    def N(self, i):
        return pow2(self.bl(i))


def gate_value(c, i, g, val, types, free=False):
    """the defining equation of a gate of layer i>=1 from the values of layer i-1"""
    ty, u, v = c.ty(i, g), c.u(i, g), c.v(i, g)
    x, y = val(u), val(v)
    out = ZERO                                  # type 2: constant 0
    cases = {0: x + y, 1: x * y, 4: x, 5: Sum(u, v, val), 6: ONE - x, 7: x - y,
             8: x + y - F2 * x * y, 9: y - x * y, 10: x}
    for t, e in cases.items():
        if t in types:
            out = ite(ty == t, e, out)
    if free:
        out = ite(ty == 3, i2f(u), out)
    return out


def input_value(c, g):
    return ite(c.ty(IV(0), g) == 3, i2f(c.u(IV(0), g)), ZERO)


TYPES = tuple(range(11))


def complement(F, om, r):
    """precondition: om[t] = 1 - r[t] (the callers' contracts discharge it)"""
    F.e.init_store[om + '.value'] = Arr('big', lambda i, p: Big(ONE - sel(r + '.value', i)), ())


# ---------------------------------------------------------------- prover
def V_res(tu=PTU, qual='prover::V_res', order='om,r'):
    F = Fun(tu, qual)
    n = z3.Int('n')
    F.require(n >= 0, n <= MAXBL)
    for b, s in (('om[]', n), ('r[]', n), ('out[]', pow2(n))):
        F.size(b, lambda s=s: s)
        F.size(b + '.value', lambda s=s: s)
    complement(F, 'om[]', 'r[]')
    om, r, out = Ptr('om[]'), Ptr('r[]'), Ptr('out[]')
    a = [om, r] if order == 'om,r' else [r, om]

    def post(F, p, s, res):
        R = lambda t: sel('r[].value', (t,))
        F.ensure_eq(p, res, mle(lambda x: sel('out[].value', (x,)), n, R), 'result is the multilinear extension')
        unchanged(F, s, ['out[]', 'r[]', 'om[]', 'this.C', 'this.circuit_value'])
    return F.run(a + [out, n, pow2(n)], post)


def unchanged(F, s, bases):
    for b, a in s.mem.items():
        if b.endswith('#size') or not any(b == x or b.startswith((x + '.', x + '[')) for x in bases):
            continue
        ok = a is F.e.base_arr(b, a.kind)
        F.e.obls.append(Obligation(F.label, 'frame: %s unchanged' % b, ok, '' if ok else 'modified', False))


def evaluate(tu=PTU, types=TYPES, maxdepth=None):
    F = Fun(tu, 'prover::evaluate')
    c = Circ(F, types=types, free=True)
    if maxdepth:
        F.require(c.depth <= maxdepth)

    def post(F, p, s, res):
        V = 'this.circuit_value[][].value'
        i, g = z3.Int('L'), z3.Int('g')
        q = p.copy()
        q.ctx.add(z3.And(i >= 1, i < c.depth, g >= 0, g < c.N(i)))
        val = lambda j: (lambda x: F.cell(q, s, V, (j, x)).p)
        got = val(i)(g)
        want = gate_value(c, i, g, val(simp(i - 1)), types, True)
        F.ensure_zero(q, got - want, 'every gate of layer i>=1 has the value defined by its type')
        q = p.copy()
        q.ctx.add(z3.And(g >= 0, g < c.N(IV(0))))
        F.ensure_zero(q, F.cell(q, s, V, (IV(0), g)).p - input_value(c, g), 'layer 0 holds the inputs')
        ok = isinstance(res, Ptr) and res.base == 'this.circuit_value[][]' and p.ctx.eq(res.idx[0], c.depth - 1) and p.ctx.eq(res.off, IV(0))
        F.ensure(p, ok, 'returns the output layer')
        unchanged(F, s, ['this.C'])
    return F.run([], post)



def am_av(c, L, g, y, x):
    """gate polynomial of gate g seen as am*V(x) + av, summed over the gates whose left wire is x"""
    ty, u, v = c.ty(L, g), c.u(L, g), c.v(L, g)
    at = u == x
    am = {0: ONE, 1: y, 4: ONE, 6: -ONE, 7: ONE, 8: ONE - F2 * y, 9: -y, 10: ONE}
    av = {0: y, 6: ONE, 7: -y, 8: y, 9: y}
    A, B = ZERO, ZERO
    for t, e in am.items():
        if t in c.types:
            A = ite(z3.And(ty == t, at), e, A)
    if 5 in c.types:
        A = ite(z3.And(ty == 5, u <= x, x < v), ONE, A)
    for t, e in av.items():
        if t in c.types:
            B = ite(z3.And(ty == t, at), e, B)
    return A, B


def am_av2(c, L, g, xu, bu, y):
    """second phase: gate polynomial with left value xu=V(u*) and eq-table bu, as am*V(y)+av per right wire y"""
    ty, u, v = c.ty(L, g), c.u(L, g), c.v(L, g)
    b = bu(u)
    am = {0: ONE, 1: xu, 7: -ONE, 8: ONE - F2 * xu, 9: ONE - xu}
    av = {0: xu, 6: ONE - xu, 7: xu, 8: xu, 10: xu}
    A, B = ZERO, ZERO
    for t, e in am.items():
        if t in c.types:
            A = ite(z3.And(ty == t, v == y), b * e, A)
    for t, e in av.items():
        if t in c.types:
            B = ite(z3.And(ty == t, v == y), b * e, B)
    if 5 in c.types:
        B = ite(z3.And(ty == 5, y == 0), Sum(u, v, lambda j: bu(j)) * xu, B)
    return A, B


def prover_state(F, types=TYPES):
    mb = z3.Int('mb')
    F.require(mb >= 1, mb <= MAXBL)
    c = Circ(F, types=types, mb=mb)
    c.types, c.mb = types, mb
    L = z3.Int('this.sumcheck_layer_id')
    F.require(L >= 1, L < c.depth)
    F.require(z3.Int('this.length_g') == c.bl(L), z3.Int('this.length_u') == c.bl(simp(L - 1)),
              z3.Int('this.length_v') == c.bl(simp(L - 1)))
    for b in ('V_mult_add', 'addV_array', 'add_mult_sum', 'beta_g_sum', 'beta_u'):
        F.size('this.%s[]' % b, lambda: pow2(mb))
    for b in ('beta_g_r0_fhalf', 'beta_g_r0_shalf', 'beta_g_r1_fhalf', 'beta_g_r1_shalf', 'beta_u_fhalf', 'beta_u_shalf'):
        F.size('this.%s[]' % b, lambda: pow2(mb / 2 + 1))
    for b in ('r_0', 'r_1', 'one_minus_r_0', 'one_minus_r_1'):
        F.size('this.%s[]' % b, lambda: c.bl(L))
    F.size('this.circuit_value[][]', lambda i: c.N(i))
    for k in '01':
        complement(F, 'this.one_minus_r_%s[]' % k, 'this.r_%s[]' % k)
    c.L = L
    c.val = lambda i, x: sel('this.circuit_value[][].value', (i, x))
    m = lambda nm: (lambda t: sel('this.%s[].value' % nm, (t,)))
    al, be = sel('this.alpha.value', ()), sel('this.beta.value', ())
    c.W = lambda g: (al * eqt(c.bl(L), g, m('r_0')) +
                     be * eqt(c.bl(L), g, m('r_1')))
    return c


KEEP = ['this.C', 'this.circuit_value', 'this.r_0', 'this.r_1', 'this.one_minus_r_0', 'this.one_minus_r_1',
        'this.alpha', 'this.beta', 'this.sumcheck_layer_id', 'this.length_g', 'this.length_u', 'this.length_v']


def phase1_init():
    F = Fun(PTU, 'prover::sumcheck_phase1_init')
    c = prover_state(F)
    L = c.L

    def post(F, p, s, res):
        x = z3.Int('x')
        q = p.copy()
        q.ctx.add(z3.And(x >= 0, x < c.N(L - 1)))
        cell = lambda b: F.cell(q, s, 'this.%s.value' % b, (x,))
        F.ensure_eq(q, cell('V_mult_add[].b'), c.val(simp(L - 1), x), 'V table holds the values of the layer below')
        for part, nm in ((0, 'add_mult_sum'), (1, 'addV_array')):
            want = Sum(IV(0), c.N(L), lambda g: c.W(g) * am_av(c, L, g, c.val(simp(L - 1), c.v(L, g)), x)[part])
            F.ensure_eq(q, cell(nm + '[].b'), want, nm + ' is the gate-wise wiring sum')
        F.ensure(p, F.e.toint(F.cell(p, s, 'this.total_uv', (), 'int')) == c.N(L - 1), 'table length')
        unchanged(F, s, KEEP)
    return F.run([], post)



def update(qual, label=None, tables=('V_mult_add', 'addV_array', 'add_mult_sum')):
    F = Fun(PTU, qual)
    c = prover_state(F)
    n0 = z3.Int('this.total_uv')
    half, j = z3.Int('half'), z3.Int('j')
    F.require(half >= 1, half <= pow2(c.mb - 1), n0 == 2 * half, j >= 0)
    r = F.e.mkfe(Big(sel('prev', ())))
    rp = sel('prev', ())
    old = lambda tb, part: (lambda x: sel('this.%s[].%s.value' % (tb, part), (x,)))

    def Ev(tb, x):     # table entry bound to the previous challenge
        return ite(j == 0, old(tb, 'b')(x), old(tb, 'a')(x) * rp + old(tb, 'b')(x))

    def post(F, p, s, res):
        x = z3.Int('x')
        q = p.copy()
        q.ctx.add(z3.And(x >= 0, x < half))
        for tb in tables:
            lo, hi = Ev(tb, simp(2 * x)), Ev(tb, simp(2 * x + 1))
            F.ensure_eq(q, F.cell(q, s, 'this.%s[].b.value' % tb, (x,)), lo, tb + ' entry at 0')
            F.ensure_eq(q, F.cell(q, s, 'this.%s[].a.value' % tb, (x,)), hi - lo, tb + ' slope')

        def lin(tb, t):
            lo, hi = Ev(tb, simp(2 * t)), Ev(tb, simp(2 * t + 1))
            return hi - lo, lo
        V, av, am = tables
        co = {'a': lambda t: lin(am, t)[0] * lin(V, t)[0],
              'b': lambda t: lin(am, t)[0] * lin(V, t)[1] + lin(am, t)[1] * lin(V, t)[0] + lin(av, t)[0],
              'c': lambda t: lin(am, t)[1] * lin(V, t)[1] + lin(av, t)[1]}
        for k, f in co.items():
            F.ensure_eq(p, res.f[k], Sum(IV(0), half, f), 'coefficient %s of the round polynomial' % k)
        F.ensure(p, F.e.toint(F.cell(p, s, 'this.total_uv', (), 'int')) == half, 'table halves')
        unchanged(F, s, KEEP)
    return F.run([r, j], post)


def phase1_update():
    return update('prover::sumcheck_phase1_update')


def phase2_update():
    return update('prover::sumcheck_phase2_update')


def phase2_init():
    F = Fun(PTU, 'prover::sumcheck_phase2_init')
    c = prover_state(F)
    L = c.L
    n = c.bl(simp(L - 1))
    for b in ('ru[]', 'omu[]'):
        F.size(b, lambda: n)
    complement(F, 'omu[]', 'ru[]')
    hg = c.bl(L) / 2
    m = lambda nm: (lambda t: sel('this.%s[].value' % nm, (t,)))
    # half tables left by phase 1 (its postcondition)
    for k, sc in (('0', 'alpha'), ('1', 'beta')):
        rr = m('r_' + k)
        F.e.init_store['this.beta_g_r%s_fhalf[].value' % k] = Arr(
            'big', lambda i, p, rr=rr, sc=sc: Big(sel('this.%s.value' % sc, ()) * eqt(hg, i[0], rr)), ())
        F.e.init_store['this.beta_g_r%s_shalf[].value' % k] = Arr(
            'big', lambda i, p, rr=rr: Big(eqt(simp(c.bl(L) - hg), i[0], lambda t: rr(simp(t + hg)))), ())
    R = lambda t: sel('ru[].value', (t,))
    bu = lambda x: eqt(n, x, R)
    pr = sel('prev', ())
    xu = sel('this.V_mult_add[].a.value', (IV(0),)) * pr + sel('this.V_mult_add[].b.value', (IV(0),))

    def post(F, p, s, res):
        F.ensure_eq(p, F.e.load(s, Loc('this.v_u'), 'prime_field::field_element', p), xu, 'v_u is the bound V table')
        x = z3.Int('x')
        q = p.copy()
        q.ctx.add(z3.And(x >= 0, x < c.N(L - 1)))
        cell = lambda b: F.cell(q, s, 'this.%s.value' % b, (x,))
        F.ensure_eq(q, cell('V_mult_add[].b'), c.val(simp(L - 1), x), 'V table holds the values of the layer below')
        for part, nm in ((0, 'add_mult_sum'), (1, 'addV_array')):
            want = Sum(IV(0), c.N(L), lambda g: c.W(g) * am_av2(c, L, g, xu, bu, x)[part])
            F.ensure_eq(q, cell(nm + '[].b'), want, nm + ' is the gate-wise wiring sum')
        F.ensure(p, F.e.toint(F.cell(p, s, 'this.total_uv', (), 'int')) == c.N(L - 1), 'table length')
        unchanged(F, s, KEEP)
    return F.run([F.e.mkfe(Big(pr)), Ptr('ru[]'), Ptr('omu[]')], post)


def finalize():
    F = Fun(PTU, 'prover::sumcheck_finalize')
    c = prover_state(F)
    pr = sel('prev', ())
    xv = sel('this.V_mult_add[].a.value', (IV(0),)) * pr + sel('this.V_mult_add[].b.value', (IV(0),))

    def post(F, p, s, res):
        F.ensure_eq(p, res.f['first'], sel('this.v_u.value', ()), 'first claim is v_u')
        F.ensure_eq(p, res.f['second'], xv, 'second claim is the bound V table')
        unchanged(F, s, KEEP)
    return F.run([F.e.mkfe(Big(pr))], post)


def sumcheck_init(tu=PTU):
    F = Fun(tu, 'prover::sumcheck_init')
    a = [z3.Int(x) for x in ('l', 'bg', 'bu', 'bv')]
    al, be = F.e.mkfe(Big(sel('al', ()))), F.e.mkfe(Big(sel('be', ())))
    ps = [Ptr(x + '[]') for x in ('R0', 'R1', 'O0', 'O1')]

    def post(F, p, s, res):
        for nm, v in zip(('sumcheck_layer_id', 'length_g', 'length_u', 'length_v'), a):
            F.ensure(p, F.e.toint(F.cell(p, s, 'this.' + nm, (), 'int')) == v, nm)
        for nm, v in (('alpha', 'al'), ('beta', 'be')):
            F.ensure_eq(p, F.cell(p, s, 'this.%s.value' % nm, ()).p, sel(v, ()), nm)
        for nm, v in zip(('r_0', 'r_1', 'one_minus_r_0', 'one_minus_r_1'), ps):
            g = F.cell(p, s, 'this.' + nm, (), 'ptr')
            F.ensure(p, isinstance(g, Ptr) and g.base == v.base and const(g.off) == 0, nm + ' refers to the given vector')
    return F.run(a + [al, be] + ps, post)


def init_array():
    F = Fun(PTU, 'prover::init_array')
    mb = z3.Int('mb')
    F.require(mb >= 1, mb <= MAXBL)

    def post(F, p, s, res):
        for nm, want in [(x, pow2(mb)) for x in ('add_mult_sum', 'V_mult_add', 'addV_array', 'beta_g_sum', 'beta_u')] + \
                [(x, pow2(mb / 2 + 1)) for x in ('beta_g_r0_fhalf', 'beta_g_r0_shalf', 'beta_g_r1_fhalf', 'beta_g_r1_shalf',
                                                 'beta_u_fhalf', 'beta_u_shalf')]:
            g = F.cell(p, s, 'this.' + nm, (), 'ptr')
            ok = isinstance(g, Ptr)
            if ok:
                a = s.mem.get(g.base + '#size')
                sz = F.e.toint(F.e.read_arr(a, g.idx, p))
                F.ensure(p, sz >= want, nm + ' is large enough')
            else:
                F.fail(nm + ' allocated', repr(g), False)
    return F.run([mb], post)


if __name__ == '__main__':
    import sys
    for nm in sys.argv[1:]:
        F = globals()[nm]()
        print(F.report())
        for o in F.e.obls:
            if not o.ok:
                print('FAIL', o.name, o.definite, o.detail[:1500])
        print('notes', F.e.notes[-5:], F.e.havocs[-5:])
        print('dropped', F.e.dropped, STATS)
