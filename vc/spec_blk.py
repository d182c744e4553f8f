"""Contracts of the data-parallel C log C prover and its verifier (src/traditional_gkr/*_bc_clogc.cpp):
2^m copies of one layered circuit, the copies differing only in their inputs."""
from spec_trad import *
import spec_trad

BPTU = 'src/traditional_gkr/prover_bc_clogc.cpp'
BVTU = 'src/traditional_gkr/verifier_bc_clogc.cpp'


class BCirc:
    def __init__(self, F, base='this.C', types=TT, mb=None, free=False):
        self.F, self.base, self.types, self.mb = F, base, types, mb
        b = base + '.blocks[]'
        c = b + '.circuit[]'
        self.nb = z3.Int(base + '.total_blocks')
        self.m = z3.Int(base + '.total_blocks_binary_length')
        self.depthU = uf(b + '.total_depth', 1)
        self.blU = uf(c + '.bit_length', 2)
        self.tyU = uf(c + '.gates[].ty', 3)
        self.uU = uf(c + '.gates[].u', 3)
        self.vU = uf(c + '.gates[].v', 3)
        Z = IV(0)
        self.depth = self.depthU(Z)
        self.bl = lambda i: self.blU(Z, simp(i) if z3.is_expr(i) else IV(i))
        self.ty = lambda i, g: self.tyU(Z, i, g)
        self.u = lambda i, g: self.uU(Z, i, g)
        self.v = lambda i, g: self.vU(Z, i, g)
        depth, nb, m = self.depth, self.nb, self.m
        F.require(m >= 0, m <= 14, nb == pow2(m))
        if mb is not None:
            F.require(m + mb <= MAXBL)
        F.size(b, lambda: nb)
        for f in ('circuit', 'total_depth'):
            F.size(b + '.' + f, lambda: nb)
        F.size(c, lambda k: depth)
        for f in ('gates', 'bit_length'):
            F.size(c + '.' + f, lambda k: depth)
        F.size(c + '.gates[]', lambda k, i: pow2(self.bl(i)))
        for f in ('ty', 'u', 'v'):
            F.size(c + '.gates[].' + f, lambda k, i: pow2(self.bl(i)))
        terms.UF_AX[b + '.total_depth'] = lambda a, t: [t >= 2, t <= 10000, t == self.depthU(Z)]
        terms.UF_AX[c + '.bit_length'] = lambda a, t: [t >= 1, t <= MAXBL - m] + ([t <= mb] if mb is not None else []) + ([t == self.blU(Z, a[1])] if const(a[0]) != 0 else [])

        def inr(a):
            return z3.And(a[1] >= 1, a[1] < depth, a[2] >= 0, a[2] < pow2(self.bl(a[1])), a[0] >= 0, a[0] < nb)

        def same(fn, a, t):
            return [] if const(a[0]) == 0 else [z3.Implies(z3.And(a[1] >= 1, a[0] >= 0, a[0] < nb), t == fn(Z, a[1], a[2]))]

        def axty(a, t):
            return [z3.Implies(z3.And(a[1] == 0, a[2] >= 0, a[2] < pow2(self.bl(a[1]))), z3.Or(t == 2, t == 3)),
                    z3.Implies(inr(a), z3.Or([t == x for x in (types + (3,) if free else types)]))] + same(self.tyU, a, t)

        def wire(fn):
            return lambda a, t: [t >= -2 ** 31, t < 2 ** 31, z3.Implies(z3.And(inr(a), self.tyU(*a) < 2) if free else inr(a), z3.And(t >= 0, t < pow2(self.bl(a[1] - 1))))] + same(fn, a, t)
        terms.UF_AX[c + '.gates[].ty'] = axty
        terms.UF_AX[c + '.gates[].u'] = wire(self.uU)
        terms.UF_AX[c + '.gates[].v'] = wire(self.vU)

    def N(self, i):
        return pow2(self.bl(i))


def b_fold(tu, qual, order):
    F = Fun(tu, qual)
    n, m = z3.Int('n'), z3.Int('m')
    F.require(n >= 0, m >= 0, n + m <= MAXBL)
    for b, s in (('og[]', n), ('rg[]', n), ('ob[]', m), ('rb[]', m), ('out[]', pow2(n + m))):
        F.size(b, lambda s=s: s)
        F.size(b + '.value', lambda s=s: s)
    spec_fast.complement(F, 'og[]', 'rg[]')
    spec_fast.complement(F, 'ob[]', 'rb[]')
    args = {'og': Ptr('og[]'), 'rg': Ptr('rg[]'), 'ob': Ptr('ob[]'), 'rb': Ptr('rb[]'), 'out': Ptr('out[]'), 'n': n, 'm': m, 'size': pow2(n + m)}
    vec_ = lambda nm: (lambda t: sel(nm + '[].value', (t,)))

    def post(F, p, s, res):
        F.ensure_eq(p, res, mle2(vec_('out'), n, vec_('rg'), None, m, vec_('rb'), None), 'result is the multilinear extension')
        unchanged(F, s, ['out[]', 'rg[]', 'og[]', 'rb[]', 'ob[]', 'this.C', 'this.circuit_value'])
    return F.run([args[x] for x in order.split()], post)


def b_V_res():
    return b_fold(BPTU, 'prover::V_res', 'og rg ob rb out n m size')


def bv_V_in():
    return b_fold(BVTU, 'verifier::V_in', 'rb ob rg og out m n size')


def b_evaluate():
    F = Fun(BPTU, 'prover::evaluate')
    c = BCirc(F, free=True)

    def post(F, p, s, res):
        cv = F.cell(p, s, 'this.circuit_value', (), 'ptr')
        if not isinstance(cv, Ptr):
            return F.fail('value tables allocated', repr(cv), False)
        V = cv.base + '[][].value'
        b, i, g = z3.Int('B'), z3.Int('L'), z3.Int('g')
        q = p.copy()
        q.ctx.add(z3.And(b >= 0, b < c.nb, i >= 1, i < c.depth, g >= 0, g < c.N(i)))
        val = lambda j: (lambda x: F.cell(q, s, V, (b, j, x)).p)
        F.ensure_zero(q, val(i)(g) - gate_value(c, i, g, val(simp(i - 1)), TT, True), 'every gate of layer i>=1 of every copy has the value defined by its type')
        q = p.copy()
        q.ctx.add(z3.And(b >= 0, b < c.nb, g >= 0, g < c.N(IV(0))))
        F.ensure_zero(q, F.cell(q, s, V, (b, IV(0), g)).p - i2f(c.uU(b, IV(0), g)), 'layer 0 holds the inputs of every copy')
        if not isinstance(res, Ptr):
            F.fail('returns an array', repr(res), False)
            return
        q = p.copy()
        top = simp(c.depth - 1)
        q.ctx.add(z3.And(b >= 0, b < c.nb, g >= 0, g < c.N(top)))
        loc = F.e.at(res, simp(b * pow2(c.bl(top)) + g), q)
        F.e.check_bounds(s, loc, q, F.fn)
        got = F.cell(q, s, res.base + '.value', loc.idx)
        F.ensure_eq(q, got, F.cell(q, s, V, (b, top, g)).p, 'returns the output layers of all copies, copy after copy')
        unchanged(F, s, ['this.C'])
    return F.run([], post)


BKEEP = KEEP + ['this.r_b_0', 'this.one_minus_r_b_0', 'this.block_binary_length']


def blk_state(F):
    mb = z3.Int('mb')
    F.require(mb >= 1, mb <= MAXBL)
    c = BCirc(F, mb=mb)
    L = z3.Int('this.sumcheck_layer_id')
    F.require(L >= 1, L < c.depth, z3.Int('this.block_binary_length') == c.m)
    F.require(z3.Int('this.length_g') == c.bl(L), z3.Int('this.length_u') == c.bl(L - 1), z3.Int('this.length_v') == c.bl(L - 1))
    for b in ('V_mult_add', 'V_mult_add_copy', 'add_linear', 'mult_linear', 'beta_g_sum', 'beta_u'):
        F.size('this.%s[]' % b, lambda: pow2(mb))
    for b in ('beta_g_r0_fhalf', 'beta_g_r0_shalf', 'beta_g_r1_fhalf', 'beta_g_r1_shalf', 'beta_u_fhalf', 'beta_u_shalf'):
        F.size('this.%s[]' % b, lambda: pow2(mb / 2 + 1))
    for b in ('r_0', 'r_1', 'one_minus_r_0', 'one_minus_r_1'):
        F.size('this.%s[]' % b, lambda: c.bl(L))
    for b in ('r_b_0', 'one_minus_r_b_0'):
        F.size('this.%s[]' % b, lambda: c.m)
    for k in ('0', '1', 'b_0'):
        spec_fast.complement(F, 'this.one_minus_r_%s[]' % k, 'this.r_%s[]' % k)
    F.size('this.block_beta_value[]', lambda: pow2(c.m))
    F.size('this.block_v_value[]', lambda: pow2(simp(c.m + mb)))
    F.e.views['this.block_v_value[]'] = z3.Int('this.length_u')
    F.size('this.circuit_value[]', lambda: c.nb)
    F.size('this.circuit_value[][]', lambda k: c.depth)
    F.size('this.circuit_value[][][]', lambda k, i: c.N(i))
    c.L = L
    c.bval = lambda k, i, x: sel('this.circuit_value[][][].value', (k, i, x))
    c.V0 = lambda k, x: sel('this.block_v_value[].value', (k, x))
    c.B0 = lambda k: sel('this.block_beta_value[].value', (k,))
    c.below = lambda x: sel('this.V_mult_add_copy[].value', (x,))
    c.factor = sel('this.beta_blk_val.value', ())
    m = lambda nm: (lambda t: sel('this.%s[].value' % nm, (t,)))
    al, be = sel('this.alpha.value', ()), sel('this.beta.value', ())
    c.W = lambda g: (al * eqt(c.bl(L), g, m('r_0')) + be * eqt(c.bl(L), g, m('r_1')))
    c.EB = lambda x: eqt(c.m, x, m('r_b_0'))
    return c


def b_sumcheck_init():
    F = Fun(BPTU, 'prover::sumcheck_init')
    a = [z3.Int(x) for x in ('l', 'bb', 'bg', 'bu', 'bv')]
    al, be = F.e.mkfe(Big(sel('al', ()))), F.e.mkfe(Big(sel('be', ())))
    ps = [Ptr(x + '[]') for x in ('RB', 'R0', 'R1', 'OB', 'O0', 'O1')]

    def post(F, p, s, res):
        for nm, v in zip(('sumcheck_layer_id', 'block_binary_length', 'length_g', 'length_u', 'length_v'), a):
            F.ensure(p, F.e.toint(F.cell(p, s, 'this.' + nm, (), 'int')) == v, nm)
        for nm, v in (('alpha', 'al'), ('beta', 'be')):
            F.ensure_eq(p, F.cell(p, s, 'this.%s.value' % nm, ()).p, sel(v, ()), nm)
        for nm, v in zip(('r_b_0', 'r_0', 'r_1', 'one_minus_r_b_0', 'one_minus_r_0', 'one_minus_r_1'), ps):
            g = F.cell(p, s, 'this.' + nm, (), 'ptr')
            F.ensure(p, isinstance(g, Ptr) and g.base == v.base and const(g.off) == 0, nm + ' refers to the given vector')
    return F.run(a + [al, be] + ps, post)


def b_init_array():
    F = Fun(BPTU, 'prover::init_array')
    mb, m = z3.Int('mb'), z3.Int('m')
    F.require(mb >= 1, m >= 0, mb + m <= MAXBL)

    def post(F, p, s, res):
        for nm, want in [(x, pow2(mb)) for x in ('add_linear', 'mult_linear', 'V_mult_add', 'V_mult_add_copy', 'beta_g_sum', 'beta_u')] + \
                [(x, pow2(mb / 2 + 1)) for x in ('beta_g_r0_fhalf', 'beta_g_r0_shalf', 'beta_g_r1_fhalf', 'beta_g_r1_shalf',
                                                 'beta_u_fhalf', 'beta_u_shalf')] + [('block_beta_value', pow2(m)), ('block_v_value', pow2(simp(m + mb)))]:
            g = F.cell(p, s, 'this.' + nm, (), 'ptr')
            if isinstance(g, Ptr):
                F.ensure(p, F.e.toint(F.e.read_arr(s.mem.get(g.base + '#size'), g.idx, p)) >= want, nm + ' is large enough')
            else:
                F.fail(nm + ' allocated', repr(g), False)
    return F.run([mb, m], post)


def b_phase0_init():
    F = Fun(BPTU, 'prover::sumcheck_phase0_init')
    c = blk_state(F)
    L = c.L

    def post(F, p, s, res):
        x, b = z3.Int('x'), z3.Int('B')
        q = p.copy()
        q.ctx.add(z3.And(b >= 0, b < c.nb, x >= 0, x < c.N(L - 1)))
        F.ensure_eq(q, F.cell(q, s, 'this.block_v_value[].value', (b, x)), c.bval(b, simp(L - 1), x), 'V table holds the values of the layer below of every copy')
        q = p.copy()
        q.ctx.add(z3.And(b >= 0, b < c.nb))
        F.ensure_eq(q, F.cell(q, s, 'this.block_beta_value[].value', (b,)), c.EB(b), 'copy weights are eq(b, r_b)')
        q = p.copy()
        q.ctx.add(z3.And(x >= 0, x < c.N(L)))
        F.ensure_eq(q, F.cell(q, s, 'this.beta_g_sum[].value', (x,)), c.W(x), 'gate weights are alpha eq(g,r0) + beta eq(g,r1)')
        unchanged(F, s, BKEEP)
    return F.run([], post)


def b_phase0_update():
    F = Fun(BPTU, 'prover::sumcheck_phase0_update')
    c = blk_state(F)
    L = c.L
    j = z3.Int('j')
    F.require(j >= 0, j < c.m)
    r = sel('prev', ())
    lin = lambda a, b: (b - a) * r + a
    V = lambda k, x: ite(j == 0, c.V0(k, x), lin(c.V0(simp(2 * k), x), c.V0(simp(2 * k + 1), x)))
    B = lambda k: ite(j == 0, c.B0(k), lin(c.B0(simp(2 * k)), c.B0(simp(2 * k + 1))))
    W = lambda g: sel('this.beta_g_sum[].value', (g,))

    def post(F, p, s, res):
        x, b = z3.Int('x'), z3.Int('B')
        q = p.copy()
        q.ctx.add(z3.And(b >= 0, b < pow2(c.m - j)))
        F.ensure_eq(q, F.cell(q, s, 'this.block_beta_value[].value', (b,)), B(b), 'copy weights bound to the previous challenge')
        q.ctx.add(z3.And(x >= 0, x < c.N(L - 1)))
        F.ensure_eq(q, F.cell(q, s, 'this.block_v_value[].value', (b, x)), V(b, x), 'V table bound to the previous challenge')

        def quad(k, g):
            u, v = c.u(L, g), c.v(L, g)
            k0, k1 = simp(2 * k), simp(2 * k + 1)
            u0, v0 = V(k0, u), V(k0, v)
            us, vs = V(k1, u) - u0, V(k1, v) - v0
            add, mul = c.ty(L, g) == 0, c.ty(L, g) == 1
            w = W(g)
            return (ite(mul, w * us * vs, ZERO), ite(add, w * (us + vs), ite(mul, w * (us * v0 + u0 * vs), ZERO)), ite(add, w * (u0 + v0), ite(mul, w * u0 * v0, ZERO)))

        def coef(k, i):
            q2, q1, q0 = [Sum(IV(0), c.N(L), lambda g, t=t: quad(k, g)[t]) for t in range(3)]
            b0 = B(simp(2 * k))
            bs = B(simp(2 * k + 1)) - b0
            return {'a': q2 * bs, 'b': q2 * b0 + q1 * bs, 'c': q1 * b0 + q0 * bs, 'd': q0 * b0}[i]
        for i in 'abcd':
            F.ensure_eq(p, res.f[i], Sum(IV(0), pow2(c.m - j - 1), lambda k: coef(k, i)), 'coefficient %s of the round polynomial' % i)
        unchanged(F, s, BKEEP + ['this.beta_g_sum'])
    return F.run([F.e.mkfe(Big(r)), j], post)


def b_phase1_init():
    F = Fun(BPTU, 'prover::sumcheck_phase1_init')
    c = blk_state(F)
    L = c.L
    r = sel('prev', ())
    bind = lambda a, b: ite(c.m == 0, a, (b - a) * r + a)

    def post(F, p, s, res):
        x = z3.Int('x')
        q = p.copy()
        q.ctx.add(z3.And(x >= 0, x < c.N(L - 1)))
        for nm in ('V_mult_add', 'V_mult_add_copy'):
            F.ensure_eq(q, F.cell(q, s, 'this.%s[].value' % nm, (x,)), bind(c.V0(IV(0), x), c.V0(IV(1), x)), nm + ' is the V table bound to the last challenge')
        F.ensure_eq(p, F.e.load(s, Loc('this.beta_blk_val'), 'prime_field::field_element', p), bind(c.B0(IV(0)), c.B0(IV(1))), 'copy weight bound to the last challenge')
        F.ensure(p, F.e.toint(F.cell(p, s, 'this.total_uv', (), 'int')) == c.N(L - 1), 'table length')
        unchanged(F, s, BKEEP + ['this.beta_g_sum'])
    return F.run([F.e.mkfe(Big(r))], post)


UKEEP = BKEEP + ['this.beta_blk_val', 'this.V_mult_add_copy']


def b_phase1_update():
    return t_update(1, BPTU, blk_state, UKEEP)


def b_phase2_update():
    return t_update(2, BPTU, blk_state, UKEEP)


def b_phase2_init():
    return t_phase2_init(BPTU, blk_state, UKEEP, False)


def b_finalize():
    return t_finalize(BPTU, blk_state, UKEEP)


BLKV = Cfg(BVTU, TT, {'add': 0, 'mult': 1}, False, None, BCirc, True)


def bv_pred(name):
    return pred(name, BLKV)


def bv_beta_init():
    return beta_init(BLKV)


def bv_randomness():
    return generate_randomness(BVTU, 0)


def bv_verify():
    return verify(BLKV)


if __name__ == '__main__':
    import sys
    for nm in sys.argv[1:]:
        F = bv_pred(nm) if nm in BLKV.preds else globals()[nm]()
        print(F.report())
        for o in F.e.obls:
            if not o.ok:
                print('FAIL', o.name, o.definite, o.detail[:1500])
        print('notes', F.e.notes[-5:], F.e.havocs[-5:])
        print('dropped', F.e.dropped, STATS)
