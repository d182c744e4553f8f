"""Contracts of the linear-time verifier (src/linear_gkr/verifier_fast_track.cpp)."""
from spec_fast import *
import spec_fast


def fresh_of(e, t, name, idx, st, path):
    """arbitrary (canonical) value of type t named after an external call"""
    k = e.kind(t)
    if k == 'big':
        return Big(sel(name, idx))
    if k in ('rec', 'pair'):
        return SV(strip_ref(t), {f: fresh_of(e, ft, name + '.' + f, idx, st, path) for f, ft in e.fields(t)})
    if k == 'int':
        return uf(name, len(idx))(*idx) if idx else z3.Int(name)
    if k == 'ptr':
        return Ptr(name + '[]', tuple(idx))
    if strip_ref(t) == 'void':
        return None
    return Opaque(name)


def prover_call(name, state=('v_u',)):
    """any prover whatsoever: returns anything, changes its own public members arbitrarily"""
    def h(e, obj, vals, args, st, path, n):
        nm = ext_name(e, path, name, n)
        idx = tuple(path.counters)
        vs = []
        for v, a in zip(vals, args):
            if isinstance(v, Loc) and e.kind(tstr(a)) != 'array':
                v = e.load(st, v, tstr(a), path)
            vs.append(v)
        if not e.quiet:
            d = e.calls.setdefault(name, {}).setdefault(nm, {})
            d[tuple(str(x) for x in path.decs)] = (vs, idx, path.copy(), st.copy())
        for m in state:
            t = dict(e.fields('prover')).get(m)
            if t:
                e.store(st, obj.f(m), t, fresh_of(e, t, nm + '@' + m, idx, st, path), path)
        return fresh_of(e, tstr(n), nm, idx, st, path)
    return h


def c_randomness(e, obj, vals, args, st, path, n):
    nm = ext_name(e, path, 'rand', n)
    size = e.toint(e.load(st, vals[0], 'int', path) if isinstance(vals[0], Loc) else vals[0])
    idx = tuple(path.counters)
    e.rands[nm] = len(idx)
    for b in (nm + '[]', nm + '[].value'):
        e.set_size(st, b, idx, size, path)
    return Ptr(nm + '[]', idx)


def vec(e, st, v, t, path):
    """contents of the vector a pointer argument refers to, as a function of the index"""
    if isinstance(v, Loc):
        v = e.load(st, v, 'prime_field::field_element *', path)
    if isinstance(v, PIte):
        a, b = vec(e, st, v.a, t, path), vec(e, st, v.b, t, path)
        return lambda i: ite(v.c, a(i), b(i))
    if not isinstance(v, Ptr):
        raise Unsupported('vector argument')
    arr = e.arr(st, v.base + '.value', 'big')
    snap = path.copy()

    def get(i):
        idx = e.at(v, i, snap).idx if v.base in e.views else v.idx + (simp(v.off + i),)
        return e.read_arr(arr, idx, snap).p
    return get


def scal(e, st, v, path):
    if isinstance(v, Loc):
        v = e.load(st, v, 'prime_field::field_element', path)
    return e.fe(v).p


def ival(e, st, v, path):
    if isinstance(v, Loc):
        v = e.load(st, v, 'int', path)
    return e.toint(v)


def complements(e, r, o, k, path, node):
    """obligation: o[t] = 1 - r[t] for 0 <= t < k"""
    if e.quiet:
        return
    t = fresh_int('t')
    ctx = path.ctx.with_(t >= 0, t < k)
    why = ''
    try:
        if ctx.feasible():
            Prover.zero(ctx, o(t) + r(t) - ONE, fuel=2)
    except Fail as x:
        why = fail_text(x)
    e.obls.append(Obligation(e.cur, 'the second vector holds 1 - r', not why, why, False))


def c_beta_init(c):
    def h(e, obj, vals, args, st, path, n):
        d = ival(e, st, vals[0], path)
        al, be = scal(e, st, vals[1], path), scal(e, st, vals[2], path)
        V = [vec(e, st, v, None, path) for v in vals[3:11]]
        r0, r1, ru, rv, o0, o1, ou, ov = V
        b = obj.base
        ng, nu = c.bl(d), c.bl(simp(d - 1))
        e.oblige(path, z3.And(d >= 1, d < c.depth), 'beta_init: layer in range', n)
        for r, o, k in ((r0, o0, ng), (r1, o1, ng), (ru, ou, nu), (rv, ov, nu)):
            complements(e, r, o, k, path, n)
        for nm, val in (('beta_g_r0', lambda x: al * eqt(ng, x, r0, o0)), ('beta_g_r1', lambda x: be * eqt(ng, x, r1, o1)),
                        ('beta_u', lambda x: eqt(nu, x, ru, ou)), ('beta_v', lambda x: eqt(nu, x, rv, ov))):
            def fn(idx, p, val=val):
                return Big(val(idx[-1]))
            st.mem['%s.%s[].value' % (b, nm)] = Arr('big', fn, (), nm)
        return None
    return h


def pred_sum(c, d, ty, tab):
    """sum over the gates of one type of (W0(g)+W1(g)) * Bu(u) * Bv(v)"""
    g0, g1, bu, bv = tab

    def term(g):
        u, v = c.u(d, g), c.v(d, g)
        w = g0(g) + g1(g)
        t = w * bu(u) * bv(v) if ty != 5 else w * bv(IV(0)) * Sum(u, v, lambda j: bu(j))
        return ite(c.ty(d, g) == ty, t, ZERO)
    return Sum(IV(0), c.N(d), term)


def tables(e, st, base, path):
    def tb(nm):
        a = e.arr(st, '%s.%s[].value' % (base, nm), 'big')
        return lambda x: e.read_arr(a, (simp(x),), path).p
    return [tb(x) for x in ('beta_g_r0', 'beta_g_r1', 'beta_u', 'beta_v')]


class Cfg:
    def __init__(self, tu, types, preds, relay, maxdepth=None, circ=None, blk=False):
        self.tu, self.types, self.preds, self.relay, self.maxdepth, self.circ, self.blk = tu, types, preds, relay, maxdepth, circ or Circ, blk


PRED = {'add': 0, 'mult': 1, 'not_gate': 6, 'xor_gate': 8, 'minus_gate': 7, 'NAAB_gate': 9, 'sum_gate': 5, 'relay_gate': 10}


FAST = Cfg(VTU, TYPES, PRED, True)


def c_pred(c, ty):
    def h(e, obj, vals, args, st, path, n):
        d = ival(e, st, vals[0], path)
        e.oblige(path, z3.And(d >= 1, d < c.depth), 'layer in range', n)
        return e.mkfe(Big(pred_sum(c, d, ty, tables(e, st, obj.base, path))))
    return h


def c_direct_relay(c):
    def h(e, obj, vals, args, st, path, n):
        d = ival(e, st, vals[0], path)
        rg, ru = vec(e, st, vals[1], None, path), vec(e, st, vals[2], None, path)
        return e.mkfe(Big(dr_spec(c, d, rg, ru)))
    return h


def dr_spec(c, d, rg, ru):
    t = fresh_int('t')
    return ite(d == 1, mkprod(t, IV(0), c.bl(d), ONE - rg(t) - ru(t) + F2 * rg(t) * ru(t)), ZERO)


def long_enough(e, st, v, size, path, n, parts=()):
    """the array handed to V_in has at least size entries (when the verifier allocated it)"""
    if isinstance(v, Loc):
        v = e.load(st, v, 'prime_field::field_element *', path)
    a = st.mem.get(v.base + '#size') if isinstance(v, Ptr) else None
    if a is not None:
        have = e.toint(e.read_arr(a, v.idx, path))
        if parts and const(v.off) == 0:      # 2^(a+b) = 2^a * 2^b
            ms = e.monomials(have)
            if len(ms) == 1 and ms[0][1] is not None and len(ms[0][0]) == 1 and ms[0][2] == 1:
                (y,), q, _ = ms[0]
                if path.ctx.eq(y, pow2(parts[0])) and path.ctx.eq(q.arg(0), parts[1]):
                    have = pow2(parts[0] + parts[1])
        e.oblige(path, have - v.off >= size, 'V_in: the table has that many entries', n)


def c_V_in(e, obj, vals, args, st, path, n):
    r, om, out = [vec(e, st, v, None, path) for v in vals[:3]]
    k, size = ival(e, st, vals[3], path), ival(e, st, vals[4], path)
    e.oblige(path, size == pow2(k), 'V_in: length is 2^size', n)
    complements(e, r, om, k, path, n)
    long_enough(e, st, vals[2], size, path, n)
    return e.mkfe(Big(mle(out, k, r, om)))


def mle2(S, n, rg, og, m, rb, ob):
    """multilinear extension of the 2^m x 2^n table S (flat index block*2^n + gate): gate coordinates first"""
    return mle(lambda x: fold_at(S, n, rg, og, x), m, rb, ob)


def fold_at(S, n, r, om, x):
    xv, t = fresh_int('x'), fresh_int('t')
    A = om(t) if om else ONE - r(t)
    return mkfold(xv, S(xv), t, A, r(t), n, x)


def c_V_in2(e, obj, vals, args, st, path, n):
    rb, ob, rg, og, out = [vec(e, st, v, None, path) for v in vals[:5]]
    m, k, size = [ival(e, st, v, path) for v in vals[5:8]]
    e.oblige(path, size == pow2(m + k), 'V_in: length is 2^(copies+gates)', n)
    complements(e, rb, ob, m, path, n)
    complements(e, rg, og, k, path, n)
    long_enough(e, st, vals[4], size, path, n, (m, k))
    return e.mkfe(Big(mle2(out, k, rg, og, m, rb, ob)))


def verifier_state(F, cfg=FAST):
    m = z3.Int('mb')
    F.require(m >= 1, m <= MAXBL)
    c = cfg.circ(F, types=cfg.types, mb=m)
    if cfg.maxdepth:
        F.require(c.depth <= cfg.maxdepth)
    c.types, c.mb, c.cfg = cfg.types, m, cfg
    for b in ('beta_g_r0', 'beta_g_r1', 'beta_u', 'beta_v'):
        F.size('this.%s[]' % b, lambda: pow2(m))
        F.size('this.%s[].value' % b, lambda: pow2(m))
    return c


def pred(name, cfg=FAST):
    F = Fun(cfg.tu, 'verifier::' + name)
    c = verifier_state(F, cfg)
    PRED = cfg.preds
    d = z3.Int('d')
    F.require(d >= 1, d < c.depth)

    def post(F, p, s, res):
        tab = tables(F.e, F.st, 'this', p)
        F.ensure_eq(p, res, pred_sum(c, d, PRED[name], tab), 'wiring predicate of gate type %d' % PRED[name])
        unchanged(F, s, ['this'])
    return F.run([d], post)


def beta_init(cfg=FAST):
    F = Fun(cfg.tu, 'verifier::beta_init')
    c = verifier_state(F, cfg)
    d = z3.Int('d')
    F.require(d >= 1, d < c.depth)
    names = ['R0', 'R1', 'RU', 'RV', 'O0', 'O1', 'OU', 'OV']
    for i, x in enumerate(names):
        n = c.bl(d) if x[1] in '01' else c.bl(simp(d - 1))
        F.size(x + '[]', lambda n=n: n)
        F.size(x + '[].value', lambda n=n: n)
    for x in ('0', '1', 'U', 'V'):
        spec_fast.complement(F, 'O%s[]' % x, 'R%s[]' % x)
    al, be = sel('al', ()), sel('be', ())
    v = lambda nm: (lambda t: sel(nm + '[].value', (t,)))

    def post(F, p, s, res):
        x = z3.Int('x')
        for nm, n, sc, r, o in (('beta_g_r0', c.bl(d), al, 'R0', 'O0'), ('beta_g_r1', c.bl(d), be, 'R1', 'O1'),
                                ('beta_u', c.bl(simp(d - 1)), ONE, 'RU', 'OU'), ('beta_v', c.bl(simp(d - 1)), ONE, 'RV', 'OV')):
            q = p.copy()
            q.ctx.add(z3.And(x >= 0, x < pow2(n)))
            F.ensure_eq(q, F.cell(q, s, 'this.%s[].value' % nm, (x,)), sc * eqt(n, x, v(r)), nm + ' is the equality table')
        unchanged(F, s, ['this.C'] + [x + '[]' for x in names])
    return F.run([d, F.e.mkfe(Big(al)), F.e.mkfe(Big(be))] + [Ptr(x + '[]') for x in names], post)


def direct_relay():
    F = Fun(VTU, 'verifier::direct_relay')
    c = verifier_state(F)
    d = z3.Int('d')
    F.require(d >= 1, d < c.depth)
    for x in ('RG', 'RU'):
        F.size(x + '[]', lambda: c.bl(simp(d if x == 'RG' else d - 1)))
        F.size(x + '[].value', lambda: c.bl(simp(d if x == 'RG' else d - 1)))
    v = lambda nm: (lambda t: sel(nm + '[].value', (t,)))

    def post(F, p, s, res):
        F.ensure_eq(p, res, dr_spec(c, d, v('RG'), v('RU')), 'relay predicate is eq~(g,u) on the input layer, 0 above')
        unchanged(F, s, ['this', 'RG[]', 'RU[]'])
    return F.run([d, Ptr('RG[]'), Ptr('RU[]')], post)


def generate_randomness(tu=VTU, least=1):
    F = Fun(tu, 'generate_randomness')
    n = z3.Int('n')
    F.require(n >= least, n <= 2 ** 20)

    def post(F, p, s, res):
        t = z3.Int('t')
        q = p.copy()
        q.ctx.add(z3.And(t >= 0, t < n))
        if not isinstance(res, Ptr):
            return F.fail('returns an array', repr(res), False)
        sz = F.e.toint(F.e.read_arr(s.mem[res.base + '#size'], res.idx, p))
        F.ensure(p, sz >= n, 'array length')
        b = F.cell(q, s, res.base + '.value', res.idx + (simp(res.off + t),))
        l, h = F.e.bounds_of(b, q)
        F.ensure(q, l >= 0 and h <= P - 1, 'entries canonical')
        # each entry is its own draw
        v = resolve_poly(q.ctx, b.p)
        ok = len(v.t) == 1 and list(v.t.values()) == [1] and len(list(v.t)[0]) == 1
        a = Atom.byid[list(v.t)[0][0]] if ok else None
        ok = bool(a is not None and a.kind == 'sel' and a.d[0].startswith('random#') and len(a.d[1]) == 1 and q.ctx.eq(a.d[1][0], t))
        F.ensure(q, ok, 'entry t is the t-th draw of the generator')
    return F.run([n], post)


def resolve_poly(ctx, p):
    from loops import resolve
    return resolve(ctx, p)


def V_in(tu=VTU):
    return V_res(tu, 'verifier::V_in', 'r,om')


PROVER = ('sumcheck_phase0_init', 'sumcheck_phase0_update', 'evaluate', 'V_res', 'sumcheck_init', 'sumcheck_phase1_init', 'sumcheck_phase1_update', 'sumcheck_phase2_init',
          'sumcheck_phase2_update', 'sumcheck_finalize', 'proof_init', 'delete_self', 'init_array')


def verify_setup(cfg=FAST):
    cs = field_contracts()
    F = Fun(cfg.tu, 'verifier::verify', contracts=cs)
    F.e.calls, F.e.rands = {}, {}
    c = verifier_state(F, cfg)
    for m in PROVER:
        cs['prover::' + m] = prover_call(m, ('v_u', 'beta_blk_val'))
    cs['generate_randomness'] = c_randomness
    cs['verifier::beta_init'] = c_beta_init(c)
    for k, ty in cfg.preds.items():
        cs['verifier::' + k] = c_pred(c, ty)
    if cfg.relay:
        cs['verifier::direct_relay'] = c_direct_relay(c)
    cs['verifier::V_in'] = c_V_in2 if cfg.blk else c_V_in
    cs['verifier::delete_self'] = lambda e, o, v, a, st, p, n: None
    return F, c


class Roles:
    pass


def one(F, name):
    d = F.e.calls.get(name, {})
    if len(d) != 1:
        raise Unsupported('%d call sites of prover::%s (one expected)' % (len(d), name))
    return list(d)[0]


def recs(F, name):
    (d,) = F.e.calls[name].values()
    return list(d.values())


def ev(p, x):
    a, b, c = p
    return (a * x + b) * x + c


def ev3(p, x):
    a, b, c, d = p
    return ((a * x + b) * x + c) * x + d


class Transcript:
    """the protocol specification, over the messages of an arbitrary prover and the verifier's own draws"""
    def __init__(self, F, c, roles):
        self.F, self.c, self.r = F, c, roles

    def P1(self, k, j):
        return [sel('%s.%s.value' % (self.r['p1'], x), (k, j)) for x in 'abc']

    def P0(self, k, j):
        return [sel('%s.%s.value' % (self.r['p0'], x), (k, j)) for x in 'abcd']

    def P2(self, k, j):
        return [sel('%s.%s.value' % (self.r['p2'], x), (k, j)) for x in 'abc']

    def rnd(self, role, *idx):
        return sel(self.r[role] + '[].value', idx)

    def RU(self, k):
        return lambda t: self.rnd('ru', k, t)

    def RV(self, k):
        return lambda t: self.rnd('rv', k, t)

    def L(self, k):
        return simp(self.c.depth - 1 - k)

    def n(self, k):
        return self.c.bl(simp(self.L(k) - 1))

    def alpha(self, k):
        return ite(k == 0, ONE, self.rnd('al', simp(k - 1), IV(0)))

    def beta(self, k):
        return ite(k == 0, ZERO, self.rnd('be', simp(k - 1), IV(0)))

    def g0(self, k):
        return lambda t: ite(k == 0, self.rnd('r0', t), self.rnd('ru', simp(k - 1), t))

    def g1(self, k):
        return lambda t: ite(k == 0, self.rnd('r1', t), self.rnd('rv', simp(k - 1), t))

    def b0(self, k):
        return lambda t: ite(k == 0, self.rnd('rb0', t), self.rnd('rb', simp(k - 1), t))

    def RB(self, k):
        return lambda t: self.rnd('rb', k, t)

    def copies(self, k):
        """weight of the copy index: the multilinear equality of the two challenge points"""
        if not self.c.cfg.blk:
            return ONE
        t = fresh_int('t')
        x, y = self.b0(k)(t), self.RB(k)(t)
        return mkprod(t, IV(0), self.c.m, x * y + (ONE - x) * (ONE - y))

    def vu(self, k):
        return sel(self.r['fin'] + '.first.value', (k,))

    def vv(self, k):
        return sel(self.r['fin'] + '.second.value', (k,))

    def claimed(self, k):
        return sel(self.r['p2i'] + '@v_u.value', (k,))

    def out(self):
        if self.c.cfg.blk:
            return mle2(lambda x: sel(self.r['ev'] + '[].value', (x,)), self.c.bl(simp(self.c.depth - 1)), lambda t: self.rnd('r0', t), None,
                        self.c.m, lambda t: self.rnd('rb0', t), None)
        return mle(lambda x: sel(self.r['ev'] + '[].value', (x,)), self.c.bl(simp(self.c.depth - 1)), lambda t: self.rnd('r0', t))

    def dr(self, k):
        if not self.c.cfg.relay:
            return ZERO
        return (self.alpha(k) * dr_spec(self.c, self.L(k), self.g0(k), self.RU(k)) +
                self.beta(k) * dr_spec(self.c, self.L(k), self.g1(k), self.RU(k)))

    def start(self, k):
        km = simp(k - 1)
        return ite(k == 0, self.out(), self.alpha(k) * self.vu(km) + self.beta(k) * self.vv(km))

    def claim0(self, k, j):
        jm = simp(j - 1)
        return ite(j == 0, self.start(k), ev3(self.P0(k, jm), self.rnd('rb', k, jm)))

    def C0(self, k, j):
        return ev3(self.P0(k, j), ZERO) + ev3(self.P0(k, j), ONE) - self.claim0(k, j)

    def claim1(self, k, j):
        base = self.claim0(k, self.c.m) if self.c.cfg.blk else self.start(k)
        jm = simp(j - 1)
        return ite(j == 0, base, ev(self.P1(k, jm), self.rnd('ru', k, jm)))

    def claim2(self, k, j):
        jm, nm = simp(j - 1), simp(self.n(k) - 1)
        return ite(j == 0, ev(self.P1(k, nm), self.rnd('ru', k, nm)),
                   ev(self.P2(k, jm), self.rnd('rv', k, jm)) + self.dr(k) * self.claimed(k))

    def C1(self, k, j):
        return ev(self.P1(k, j), ZERO) + ev(self.P1(k, j), ONE) - self.claim1(k, j)

    def C2(self, k, j):
        return ev(self.P2(k, j), ZERO) + ev(self.P2(k, j), ONE) + self.dr(k) * self.claimed(k) - self.claim2(k, j)

    def C3(self, k):
        c, L, x, y = self.c, self.L(k), self.vu(k), self.vv(k)
        ng, nu = c.bl(L), self.n(k)
        tab = [lambda g: self.alpha(k) * eqt(ng, g, self.g0(k)), lambda g: self.beta(k) * eqt(ng, g, self.g1(k)),
               lambda u: eqt(nu, u, self.RU(k)), lambda v: eqt(nu, v, self.RV(k))]
        vals = {0: x + y, 1: x * y, 5: x, 6: ONE - x, 7: x - y, 8: x + y - F2 * x * y, 9: y - x * y, 10: x}
        s = self.dr(k) * x
        for ty, e in vals.items():
            if ty in c.types:
                s = s + pred_sum(c, L, ty, tab) * e
        return self.claim2(k, nu) - self.copies(k) * s

    def C4(self, k):
        return self.vu(k) - self.claimed(k)

    def C5(self):
        K = simp(self.c.depth - 2)
        if not self.c.cfg.relay:
            K1 = simp(K + 1)
            n = self.c.bl(IV(0))
            m = (lambda r: mle2(lambda x: i2f(self.c.uU(shr(x, n), IV(0), lowf(x, n))), n, r, None, self.c.m, self.RB(K), None)) if self.c.cfg.blk else lambda r: mle(lambda x: input_value(self.c, x), self.c.bl(IV(0)), r)
            return (self.alpha(K1) * (self.vu(K) - m(self.RU(K))) + self.beta(K1) * (self.vv(K) - m(self.RV(K))))
        return self.vu(K) - mle(lambda x: input_value(self.c, x), self.c.bl(IV(0)), self.RU(K))


def fact_index(q, name):
    """index of the message symbol in a fact"""
    best = None
    for i in all_sels(q):
        a = Atom.byid[i]
        if a.d[0].startswith(name + '.'):
            return a.d[1]
    return None


def all_sels(p, out=None):
    out = set() if out is None else out
    for i in p.atoms():
        a = Atom.byid[i]
        if a.kind == 'sel':
            out.add(i)
        for q in aexprs(a)[1]:
            all_sels(q, out)
    return out


def zero(ctx, p):
    try:
        Prover.zero(ctx, p, fuel=2)
        return True, ''
    except Fail as x:
        return False, x


class Matcher:
    """both directions between the facts of the code and the checks of the specification"""
    def __init__(self, F, T, msgs):
        self.F, self.T, self.msgs = F, T, msgs      # msgs: check name -> (message symbol, number of indices)
        self.last = {}

    def which(self, q):
        names = sel_names(q)
        for nm, (sym, idx, fn) in self.msgs.items():
            if any(x.startswith(sym) for x in names):
                yield nm

    def match(self, ctx, q):
        """name of the specification check this fact is (up to sign), with the indices"""
        for nm, (sym, nidx, fn) in self.msgs.items():
            for ix in self.cands(q, sym, nidx):
                sp = fn(*ix)
                for sg in (1, -1):
                    ok, x = zero(ctx, q - sp if sg == 1 else q + sp)
                    if ok:
                        return nm, ix
                    if sg == 1:
                        self.last[nm] = x
        return None, None

    def cands(self, q, sym, nidx):
        if nidx == 0:
            return [()] if any(x.startswith(sym) for x in sel_names(q)) else []
        out = {}
        for i in all_sels(q):
            a = Atom.byid[i]
            if a.d[0].startswith(sym) and len(a.d[1]) == nidx:
                out[tuple(x.get_id() for x in a.d[1])] = a.d[1]
        return list(out.values())


def accept_ok(F, M, p, s, nm, ks, rng):
    """on acceptance, the specification check nm with symbolic indices ks in the range rng has been passed"""
    spec = M.msgs[nm][2](*ks)

    def holds(ctx, facts, foralls, depth):
        if not ctx.feasible():
            return True
        for q, t in facts:
            if t and (zero(ctx, q - spec)[0] or zero(ctx, q + spec)[0]):
                return True
        for fa in foralls:
            _, kv, K, surv = fa
            for kk in ks:
                if not ctx.implies(z3.And(kk >= 0, kk < K)):
                    continue
                good = bool(surv)
                n = 0
                for decs, fs, nested in surv:
                    sub = [(kv, kk)]
                    cx = ctx.with_(*[esubst(d, sub) for d in decs])
                    if not cx.feasible():
                        continue
                    n += 1
                    fs2 = [(psubst(q, sub), t) for q, t in fs if isinstance(q, Poly)]
                    if not holds(cx, fs2, [fsubst(x, sub) for x in nested], depth + 1):
                        good = False
                        break
                if good and n:
                    # the listed alternatives must be exhaustive for this iteration
                    if ctx.implies(z3.Or([z3.And([esubst(d, [(kv, kk)]) for d in decs]) if decs else z3.BoolVal(True)
                                          for decs, _, _ in surv])):
                        return True
        return False
    ctx = p.ctx.with_(*rng)
    if not ctx.feasible():
        F.fail('check %s: index range satisfiable' % nm, '', False)
        return
    ok = holds(ctx, [(q, t) for q, t in p.facts if isinstance(q, Poly)], s.forall, 0)
    F.e.obls.append(Obligation(F.label, 'acceptance implies check %s' % nm, ok,
                               '' if ok else 'the accepting path does not establish it', True))


def fsubst(fa, sub):
    tag, kv, K, surv = fa
    return (tag, kv, esubst(K, sub), [([esubst(d, sub) for d in decs],
                                      [(psubst(q, sub), t) if isinstance(q, Poly) else (q, t) for q, t in fs],
                                      [fsubst(x, sub) for x in nested]) for decs, fs, nested in surv])


def flat(foralls, ctx):
    """(context, fact) for every surviving-iteration fact"""
    for _, kv, K, surv in foralls:
        for decs, fs, nested in surv:
            cx = ctx.with_(kv >= 0, kv < K, *decs)
            for q, t in fs:
                if isinstance(q, Poly):
                    yield cx, q, t
            yield from flat(nested, cx)


def pick(F, cands, test):
    for x in cands:
        if test(x):
            return x
    return None


def verify_roles(F, c, exits):
    """challenge vectors are recognised by use, not by name"""
    r = {'p1': one(F, 'sumcheck_phase1_update'), 'p2': one(F, 'sumcheck_phase2_update'), 'fin': one(F, 'sumcheck_finalize'),
         'p2i': one(F, 'sumcheck_phase2_init'), 'ev': one(F, 'evaluate'), 'si': one(F, 'sumcheck_init')}
    one_d = [x for x, n in F.e.rands.items() if n == 0]
    two_d = [x for x, n in F.e.rands.items() if n == 1]
    # r_u / r_v: arguments of the next round message
    def arg_rand(name, pos):
        out = []
        for vs, idx, p, s in recs(F, name):
            v = scal(F.e, s, vs[pos], p)
            for i in all_sels(v):
                m = re.match(r'(rand#\d+)\[\]', Atom.byid[i].d[0])
                if m and m.group(1) not in out:
                    out.append(m.group(1))
        return out
    blk = c.cfg.blk
    ru, rv = arg_rand('sumcheck_phase1_update', 0), arg_rand('sumcheck_phase2_update', 0)
    al, be = arg_rand('sumcheck_init', 5 if blk else 4), arg_rand('sumcheck_init', 6 if blk else 5)
    rb = []
    if blk:
        r['p0'] = one(F, 'sumcheck_phase0_update')
        rb = arg_rand('sumcheck_phase0_update', 0)
        ru = [x for x in ru if x not in rb]
    for nm, v in (('ru', ru), ('rv', rv), ('al', al), ('be', be)) + ((('rb', rb),) if blk else ()):
        if len(v) != 1:
            raise Unsupported('role of challenge %s not unique: %s' % (nm, v))
        r[nm] = v[0]
    def vec_rand(pos):
        out = []
        for vs, idx, p, s in recs(F, 'sumcheck_init'):
            v = vec(F.e, s, vs[pos], None, p)(z3.Int('t0'))
            for i in all_sels(v):
                m = re.match(r'(rand#\d+)\[\]', Atom.byid[i].d[0])
                if m and m.group(1) in one_d and m.group(1) not in out:
                    out.append(m.group(1))
        return out
    for nm, pos in ((('rb0', 7), ('r0', 8), ('r1', 9)) if blk else (('r0', 6), ('r1', 7))):
        v = vec_rand(pos)
        if len(v) != 1:
            raise Unsupported('role of challenge %s not unique: %s' % (nm, v))
        r[nm] = v[0]
    return r


def verify(cfg=FAST):
    F, c = verify_setup(cfg)
    exits = []
    F.run([], lambda F, p, s, res: exits.append((p, s, res)))
    if F.undecided:
        return F
    t0 = time.time()
    try:
        verify_post(F, c, exits)
    except Unsupported as x:
        F.undecided.append('outside the supported subset: %s' % x)
    F.wall += time.time() - t0
    return F


BLK = ['sumcheck_phase0_init', 'sumcheck_phase0_update']
ORDER = ['evaluate', 'sumcheck_init', 'sumcheck_phase1_init', 'sumcheck_phase1_update', 'sumcheck_phase2_init',
         'sumcheck_phase2_update', 'sumcheck_finalize']


def verify_post(F, c, exits):
    r = verify_roles(F, c, exits)
    T = Transcript(F, c, r)
    blk = c.cfg.blk
    chal = [r[x] for x in ('ru', 'rv', 'al', 'be', 'r0', 'r1') + (('rb', 'rb0') if blk else ())]
    ok = len(set(chal)) == len(chal)
    F.e.obls.append(Obligation(F.label, 'challenges are independent draws', ok, '' if ok else str(r), True))
    msgs = {'round check, first phase': (r['p1'] + '.', 2, T.C1), 'round check, second phase': (r['p2'] + '.', 2, T.C2),
            'claimed V(u) is the final V(u)': (r['p2i'] + '@', 1, T.C4),
            'gate equation of the layer': (r['fin'] + '.', 1, T.C3),
            'input check': (r['fin'] + '.', 0, T.C5)}
    if not c.cfg.relay:
        del msgs['claimed V(u) is the final V(u)']
    if blk:
        msgs['round check, copy phase'] = (r['p0'] + '.', 2, T.C0)
    M = Matcher(F, T, msgs)
    k, j = z3.Int('K'), z3.Int('J')
    rk = [k >= 0, k <= c.depth - 2]
    rj = rk + [j >= 0, j < T.n(k)]
    acc = [x for x in exits if x[2] is True or (z3.is_expr(x[2]) and z3.is_true(simp(x[2])))]
    rej = [x for x in exits if x not in acc]
    if not acc:
        F.fail('an accepting exit exists', '', False)
    for p, s, res in acc:
        for nm, ks, rng in (('round check, copy phase', (k, j), rk + [j >= 0, j < c.m] if blk else rk), ('round check, first phase', (k, j), rj), ('round check, second phase', (k, j), rj),
                            ('claimed V(u) is the final V(u)', (k,), rk), ('gate equation of the layer', (k,), rk),
                            ('input check', (), [])):
            if nm not in msgs:
                continue
            accept_ok(F, M, p, s, nm, ks, rng)
        extra = 0
        for cx, q, t in list(flat(s.forall, p.ctx)) + [(p.ctx, q, t) for q, t in p.facts if isinstance(q, Poly)]:
            if not cx.feasible():
                continue
            nm, ix = M.match(cx, q)
            F.e.obls.append(Obligation(F.label, 'only the specified checks are required for acceptance', nm is not None and t,
                                       '' if nm else str(q)[:800], True))
    for p, s, res in rej:
        if not (res is False or (z3.is_expr(res) and z3.is_false(simp(res)))):
            F.fail('result is a decided boolean', str(res)[:200], False)
            continue
        fs = [(q, t) for q, t in p.facts if isinstance(q, Poly) and not t]
        nm = None
        for q, t in fs:
            nm, ix = M.match(p.ctx, q)
            if nm:
                break
        F.e.obls.append(Obligation(F.label, 'rejection only after a failed specified check', nm is not None,
                                   '' if nm else 'rejecting path: ' + str(fs)[:800], True))
    # what the prover is told
    e = F.e
    order = [x for x in e.calls if x in ORDER + BLK]
    F.ensure(F.path, order == (ORDER[:2] + BLK + ORDER[2:] if blk else ORDER), 'prover called in protocol order')
    t = z3.Int('tt')
    for vs, idx, p, s in recs(F, 'sumcheck_init'):
        k = idx[0]
        ints = [T.L(k)] + ([c.m] if blk else []) + [c.bl(T.L(k)), T.n(k), T.n(k)]
        for pos, want in enumerate(ints):
            F.ensure(p, ival(e, s, vs[pos], p) == want, 'sumcheck_init argument %d' % pos)
        o = len(ints)
        F.ensure_eq(p, scal(e, s, vs[o], p), T.alpha(k), 'sumcheck_init alpha')
        F.ensure_eq(p, scal(e, s, vs[o + 1], p), T.beta(k), 'sumcheck_init beta')
        vecs = [T.b0(k)] * blk + [T.g0(k), T.g1(k)]
        for pos, (f, om) in enumerate([(f, False) for f in vecs] + [(f, True) for f in vecs]):
            q = p.copy()
            q.ctx.add(z3.And(t >= 0, t < (c.m if blk and pos % len(vecs) == 0 else c.bl(T.L(k)))))
            F.ensure_eq(q, vec(e, s, vs[o + 2 + pos], None, q)(t), ONE - f(t) if om else f(t), 'sumcheck_init vector %d' % pos)
    if blk:
        for vs, idx, p, s in recs(F, 'sumcheck_phase1_init'):
            q = p.copy()
            q.ctx.add(c.m >= 1)
            F.ensure_eq(q, scal(e, s, vs[0], q), T.rnd('rb', idx[0], simp(c.m - 1)), 'phase 1 receives the last copy challenge')
    for name, role in (('sumcheck_phase1_update', 'ru'), ('sumcheck_phase2_update', 'rv')) + ((('sumcheck_phase0_update', 'rb'),) if blk else ()):
        for vs, idx, p, s in recs(F, name):
            k, j = idx
            q = p.copy()
            q.ctx.add(j >= 1)
            F.ensure_eq(q, scal(e, s, vs[0], q), T.rnd(role, k, simp(j - 1)), name + ' receives the previous challenge')
            F.ensure(p, ival(e, s, vs[1], p) == j, name + ' round number')
    for vs, idx, p, s in recs(F, 'sumcheck_phase2_init'):
        k = idx[0]
        F.ensure_eq(p, scal(e, s, vs[0], p), T.rnd('ru', k, simp(T.n(k) - 1)), 'phase 2 receives the last challenge')
        if blk:
            continue
        q = p.copy()
        q.ctx.add(z3.And(t >= 0, t < T.n(k)))
        F.ensure_eq(q, vec(e, s, vs[1], None, q)(t), T.rnd('ru', k, t), 'phase 2 receives r_u')
        F.ensure_eq(q, vec(e, s, vs[2], None, q)(t), ONE - T.rnd('ru', k, t), 'phase 2 receives 1-r_u')
    for vs, idx, p, s in recs(F, 'sumcheck_finalize'):
        k = idx[0]
        F.ensure_eq(p, scal(e, s, vs[0], p), T.rnd('rv', k, simp(T.n(k) - 1)), 'finalize receives the last challenge')


if __name__ == '__main__':
    import sys
    for nm in sys.argv[1:]:
        F = pred(nm) if nm in PRED else globals()[nm]()
        print(F.report())
        for o in F.e.obls:
            if not o.ok:
                print('FAIL', o.name, o.definite, o.detail[:1500])
        print('notes', F.e.notes[-5:], F.e.havocs[-5:])
        print('dropped', F.e.dropped, STATS)
