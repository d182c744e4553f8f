"""Contracts of the C log C prover and its verifier (src/traditional_gkr/{prover_clogc,verifier_traditional}.cpp)."""
from spec_fastv import *
import spec_fast, spec_fastv

TPTU = 'src/traditional_gkr/prover_clogc.cpp'
TVTU = 'src/traditional_gkr/verifier_traditional.cpp'
TT = (0, 1, 2)
MAXDEPTH = 1000


def trad_state(F):
    mb = z3.Int('mb')
    F.require(mb >= 1, mb <= MAXBL)
    c = Circ(F, types=TT, mb=mb)
    F.require(c.depth <= MAXDEPTH)
    c.types, c.mb = TT, mb
    L = z3.Int('this.sumcheck_layer_id')
    F.require(L >= 1, L < c.depth)
    F.require(z3.Int('this.length_g') == c.bl(L), z3.Int('this.length_u') == c.bl(simp(L - 1)),
              z3.Int('this.length_v') == c.bl(simp(L - 1)))
    for b in ('V_mult_add', 'add_linear', 'mult_linear', 'beta_g_sum', 'beta_u'):
        F.size('this.%s[]' % b, lambda: pow2(mb))
    for b in ('beta_g_r0_fhalf', 'beta_g_r0_shalf', 'beta_g_r1_fhalf', 'beta_g_r1_shalf', 'beta_u_fhalf', 'beta_u_shalf'):
        F.size('this.%s[]' % b, lambda: pow2(mb / 2 + 1))
    for b in ('r_0', 'r_1', 'one_minus_r_0', 'one_minus_r_1'):
        F.size('this.%s[]' % b, lambda: c.bl(L))
    F.size('this.circuit_value[][]', lambda i: c.N(i))
    for k in '01':
        spec_fast.complement(F, 'this.one_minus_r_%s[]' % k, 'this.r_%s[]' % k)
    c.L = L
    c.val = lambda i, x: sel('this.circuit_value[][].value', (i, x))
    c.below = lambda x: c.val(simp(L - 1), x)
    c.factor = ONE
    m = lambda nm: (lambda t: sel('this.%s[].value' % nm, (t,)))
    al, be = sel('this.alpha.value', ()), sel('this.beta.value', ())
    c.W = lambda g: (al * eqt(c.bl(L), g, m('r_0')) +
                     be * eqt(c.bl(L), g, m('r_1')))
    return c


def t_V_res():
    return V_res(TPTU)


def t_evaluate():
    return evaluate(TPTU, TT, MAXDEPTH)


def t_sumcheck_init():
    return sumcheck_init(TPTU)


def t_init_array():
    F = Fun(TPTU, 'prover::init_array')
    mb = z3.Int('mb')
    F.require(mb >= 1, mb <= MAXBL)

    def post(F, p, s, res):
        for nm, want in [(x, pow2(mb)) for x in ('add_linear', 'mult_linear', 'V_mult_add', 'beta_g_sum', 'beta_u')] + \
                [(x, pow2(mb / 2 + 1)) for x in ('beta_g_r0_fhalf', 'beta_g_r0_shalf', 'beta_g_r1_fhalf', 'beta_g_r1_shalf',
                                                 'beta_u_fhalf', 'beta_u_shalf')]:
            g = F.cell(p, s, 'this.' + nm, (), 'ptr')
            if isinstance(g, Ptr):
                a = s.mem.get(g.base + '#size')
                F.ensure(p, F.e.toint(F.e.read_arr(a, g.idx, p)) >= want, nm + ' is large enough')
            else:
                F.fail(nm + ' allocated', repr(g), False)
    return F.run([mb], post)


def t_phase1_init():
    F = Fun(TPTU, 'prover::sumcheck_phase1_init')
    c = trad_state(F)
    L = c.L

    def post(F, p, s, res):
        x = z3.Int('x')
        q = p.copy()
        q.ctx.add(z3.And(x >= 0, x < c.N(L - 1)))
        F.ensure_eq(q, F.cell(q, s, 'this.V_mult_add[].value', (x,)), c.val(simp(L - 1), x), 'V table holds the values of the layer below')
        q = p.copy()
        q.ctx.add(z3.And(x >= 0, x < c.N(L)))
        F.ensure_eq(q, F.cell(q, s, 'this.beta_g_sum[].value', (x,)), c.W(x), 'gate weights are alpha eq(g,r0) + beta eq(g,r1)')
        F.ensure(p, F.e.toint(F.cell(p, s, 'this.total_uv', (), 'int')) == c.N(L - 1), 'table length')
        unchanged(F, s, KEEP)
    return F.run([], post)


def bit(x, j):
    """bit j of x"""
    return shr(x, j) % 2


def t_update(phase, tu=TPTU, state=None, keep=KEEP):
    F = Fun(tu, 'prover::sumcheck_phase%d_update' % phase)
    c = (state or trad_state)(F)
    L = c.L
    n = c.bl(simp(L - 1))
    j = z3.Int('j')
    F.require(j >= 0, j < n, z3.Int('this.total_uv') == c.N(L - 1))
    rp = sel('prev', ())
    V0 = lambda x: sel('this.V_mult_add[].value', (x,))
    B0 = lambda g: sel('this.beta_g_sum[].value', (g,))
    wire = (lambda g: c.u(L, g)) if phase == 1 else (lambda g: c.v(L, g))

    def V(x):
        return ite(j == 0, V0(x), V0(simp(2 * x)) * (ONE - rp) + V0(simp(2 * x + 1)) * rp)

    def B(g):
        return ite(j == 0, B0(g), B0(g) * ite(bit(wire(g), simp(j - 1)) == 1, rp, ONE - rp))

    def other(g):
        return c.below(c.v(L, g)) if phase == 1 else sel('this.v_u.value', ())

    def post(F, p, s, res):
        x = z3.Int('x')
        q = p.copy()
        q.ctx.add(z3.And(x >= 0, x < shr(c.N(L - 1), j)))
        F.ensure_eq(q, F.cell(q, s, 'this.V_mult_add[].value', (x,)), V(x), 'V table bound to the previous challenge')
        q = p.copy()
        q.ctx.add(z3.And(x >= 0, x < c.N(L)))
        F.ensure_eq(q, F.cell(q, s, 'this.beta_g_sum[].value', (x,)), B(x), 'gate weights bound to the previous challenge')

        def coef(g):
            w, y = B(g), other(g)
            k = shr(wire(g), simp(j + 1))
            lo = V(simp(2 * k))
            sl = V(simp(2 * k + 1)) - lo
            c0 = ite(c.ty(L, g) == 0, lo + y, ite(c.ty(L, g) == 1, lo * y, ZERO))
            c1 = ite(c.ty(L, g) == 0, sl, ite(c.ty(L, g) == 1, sl * y, ZERO))
            b = bit(wire(g), j) == 1
            return {'a': ite(b, w * c1, -w * c1), 'b': ite(b, w * c0, w * (c1 - c0)), 'c': ite(b, ZERO, w * c0)}
        for k in 'abc':
            F.ensure_eq(p, res.f[k], Sum(IV(0), c.N(L), lambda g: coef(g)[k]) * c.factor, 'coefficient %s of the round polynomial' % k)
        F.ensure(p, F.e.toint(F.cell(p, s, 'this.total_uv', (), 'int')) == c.N(L - 1), 'table length kept')
        unchanged(F, s, keep + ['this.v_u'])
    return F.run([F.e.mkfe(Big(rp)), j], post)


def t_phase1_update():
    return t_update(1)


def t_phase2_update():
    return t_update(2)


def t_phase2_init(tu=TPTU, state=None, keep=KEEP, vecs=True):
    F = Fun(tu, 'prover::sumcheck_phase2_init')
    c = (state or trad_state)(F)
    L = c.L
    n = c.bl(simp(L - 1))
    F.require(z3.Int('this.total_uv') == c.N(L - 1))
    for b in ('ru[]', 'omu[]'):
        F.size(b, lambda: n)
    spec_fast.complement(F, 'omu[]', 'ru[]')
    pr = sel('prev', ())
    V0 = lambda x: sel('this.V_mult_add[].value', (x,))

    def post(F, p, s, res):
        F.ensure_eq(p, F.e.load(s, Loc('this.v_u'), 'prime_field::field_element', p),
                    V0(IV(0)) * (ONE - pr) + V0(IV(1)) * pr, 'v_u is the bound V table')
        x = z3.Int('x')
        q = p.copy()
        q.ctx.add(z3.And(x >= 0, x < c.N(L - 1)))
        F.ensure_eq(q, F.cell(q, s, 'this.V_mult_add[].value', (x,)), c.below(x), 'V table holds the values of the layer below')
        q = p.copy()
        q.ctx.add(z3.And(x >= 0, x < c.N(L)))
        F.ensure_eq(q, F.cell(q, s, 'this.beta_g_sum[].value', (x,)),
                    sel('this.beta_g_sum[].value', (x,)) * ite(bit(c.u(L, x), simp(n - 1)) == 1, pr, ONE - pr),
                    'gate weights bound to the last challenge of phase 1')
        F.ensure(p, F.e.toint(F.cell(p, s, 'this.total_uv', (), 'int')) == c.N(L - 1), 'table length kept')
        unchanged(F, s, keep)
    return F.run([F.e.mkfe(Big(pr))] + ([Ptr('ru[]'), Ptr('omu[]')] if vecs else []), post)


def t_finalize(tu=TPTU, state=None, keep=KEEP):
    F = Fun(tu, 'prover::sumcheck_finalize')
    c = (state or trad_state)(F)
    pr = sel('prev', ())
    V0 = lambda x: sel('this.V_mult_add[].value', (x,))

    def post(F, p, s, res):
        F.ensure_eq(p, res.f['first'], sel('this.v_u.value', ()), 'first claim is v_u')
        F.ensure_eq(p, res.f['second'], V0(IV(0)) * (ONE - pr) + V0(IV(1)) * pr, 'second claim is the bound V table')
        unchanged(F, s, keep)
    return F.run([F.e.mkfe(Big(pr))], post)


TRAD = Cfg(TVTU, TT, {'add': 0, 'mult': 1}, False, MAXDEPTH)


def tv_pred(name):
    return pred(name, TRAD)


def tv_beta_init():
    return beta_init(TRAD)


def tv_V_in():
    return V_in(TVTU)


def tv_randomness():
    return generate_randomness(TVTU)


def tv_verify():
    return verify(TRAD)


if __name__ == '__main__':
    import sys
    for nm in sys.argv[1:]:
        F = tv_pred(nm) if nm in TRAD.preds else globals()[nm]()
        print(F.report())
        for o in F.e.obls:
            if not o.ok:
                print('FAIL', o.name, o.definite, o.detail[:1500])
        print('notes', F.e.notes[-5:], F.e.havocs[-5:])
        print('dropped', F.e.dropped, STATS)
