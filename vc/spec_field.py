"""Contracts of src/linear_gkr/prime_field.cpp, proved over limbs with exact machine arithmetic.

Global invariant after init (established by the job init_globals, required by everything else):
mod = mod_512 = p, minus_mod_512 = 2^512 - p, one = 1, zero = 0, my_factor = floor(2^508 / p)."""
from limb import *
from limb import val
TU = 'src/linear_gkr/prime_field.cpp'
P = PRIME
T64, T128, T256, T512 = 1 << 64, 1 << 128, 1 << 256, 1 << 512
PS = str(P)


def cmpc(op):
    def h(X, this, args):
        c = Cond(op, val(this) - val(args[0]))
        v = c.value()
        return c if v is None else v
    return h


def h_add(mk, k):
    return lambda X, this, args: mk(wrap(val(this) + val(args[0]), k))


def h_sub(mk, k):
    return lambda X, this, args: mk(wrap(val(this) - val(args[0]), k))


def need(X, name, c):
    v = c.value()
    if v is True:
        X.obls.append(Obligation(X.label, name, True))
        return
    X.prove(name, c)


def h_mul512(X, this, args):
    a, b = val(this), val(args[0])
    need(X, 'operands of the wide product are below 2^256', Cond('<', a - T256))
    need(X, 'operands of the wide product are below 2^256', Cond('<', b - T256))
    return u512(a * b)


def h_mulnohi(X, this, args):
    a, b = val(args[0]), val(args[1])
    need(X, 'operands of the half product are below 2^128', Cond('<', a - T128))
    need(X, 'operands of the half product are below 2^128', Cond('<', b - T128))
    args[2].set(u256(a * b))


def h_mod(X, this, args):
    x = val(this)
    need(X, 'reduction operand is below 2^508', Cond('<', x - (1 << 508)))
    need(X, 'reduction modulus is the field prime', Cond('==', val(args[0]) - P))
    return u512(x - quotp(x, P) * P)


def canon(X, *vs):
    for v in vs:
        need(X, 'field operand is canonical', Cond('<', v - P))


def h_fadd(X, this, args):
    a, b = val(this), val(args[0])
    canon(X, a, b)
    s = a + b
    return fe(s - quotp(s, P) * P)


def h_fsub(X, this, args):
    a, b = val(this), val(args[0])
    canon(X, a, b)
    s = a - b
    return fe(s - quotp(s, P) * P)


def h_fmul(X, this, args):
    a, b = val(this), val(args[0])
    canon(X, a, b)
    s = a * b
    return fe(s - quotp(s, P) * P)


def h_numeral(mk, k):
    def h(X, this, args):
        s, n, b = X.rv(args[0]), X.num(args[1]).const(), X.num(args[2]).const()
        if not isinstance(s, PtrV) or not isinstance(s.arr, str) or n is None or n > len(s.arr):
            raise Unsupported('numeral')
        r = 0
        for c in s.arr[s.off:s.off + n]:
            r = r * b + (ord(c) - 48)
        return mk(Lin.c(r % (1 << k)))
    return h


def h_fint(X, this, args):
    x = X.num(args[0])
    return fe(x - quotp(x, P) * P)


def h_random512(X, this, args):
    X.nrnd = getattr(X, 'nrnd', 0) + 1
    r = [Lin.v('rnd%d.%d' % (X.nrnd, i), 0, 2 ** 31 - 1) for i in range(3)]
    this.set(u512(r[0] + r[1] * T128 + r[2] * T256))


def h_bitat(X, this, args):
    i = X.num(args[0]).const()
    if i is None:
        raise Unsupported('symbolic bit index')
    need(X, 'bit index in range', Cond('>=', Lin.c(i)))
    need(X, 'bit index in range', Cond('<', Lin.c(i - 256)))
    return wrap(quot(val(this), i), 1)


CON = {
    'u256b()': lambda X, t, a: u256(Lin.c(0)),
    'u256b(unsigned long long)': lambda X, t, a: u256(X.num(a[0])),
    'u256b(unsigned __int128)': lambda X, t, a: u256(X.num(a[0])),
    'u256b(char *, int, int)': h_numeral(u256, 256),
    'u256b::operator+': h_add(u256, 256),
    'u256b::operator-': h_sub(u256, 256),
    'u256b::operator*': lambda X, t, a: u256(wrap(val(t) * val(a[0]), 256)),
    'u256b::left_128': lambda X, t, a: u256(wrap(val(t) * T128, 256)),
    'u256b::bit_at': h_bitat, 'u256b::testBit': h_bitat,
    'u256b::operator<=': cmpc('<='), 'u256b::operator!=': cmpc('!='), 'u256b::operator>': cmpc('>'), 'u256b::operator<': cmpc('<'),
    'mul_no_hi': h_mulnohi,
    'u512b()': lambda X, t, a: u512(Lin.c(0)),
    'u512b(u256b)': lambda X, t, a: u512(val(a[0])),
    'u512b(unsigned __int128)': lambda X, t, a: u512(X.num(a[0])),
    'u512b(char *, int, int)': h_numeral(u512, 512),
    'u512b::operator+': h_add(u512, 512), 'u512b::operator-': h_sub(u512, 512), 'u512b::operator*': h_mul512, 'u512b::operator%': h_mod,
    'u512b::operator!=': cmpc('!='), 'u512b::operator>': cmpc('>'), 'u512b::operator>=': cmpc('>='), 'u512b::operator<': cmpc('<'),
    'u512b::random': h_random512,
    'field_element()': lambda X, t, a: fe(Lin.c(0)),
    'field_element(int)': h_fint,
    'field_element(unsigned long long)': lambda X, t, a: fe(X.num(a[0])),
    'field_element::operator+': h_fadd, 'field_element::operator-': h_fsub, 'field_element::operator*': h_fmul,
    'field_element::operator==': cmpc('=='), 'field_element::operator!=': cmpc('!='),
}
NEED_INIT = ('u512b::operator-', 'u512b::operator%')


def globs():
    return {'mod': u256(Lin.c(P)), 'mod_512': u512(Lin.c(P)), 'minus_mod_512': u512(Lin.c(T512 - P)), 'one': u256(Lin.c(1)), 'zero': u256(Lin.c(0)),
            'my_factor': u256(Lin.c((1 << 508) // P)), 'initialized': True}


class Res:
    def __init__(self, X, wall, paths):
        self.e, self.wall, self.paths = X, wall, paths

    def report(self):
        X = self.e
        return {'function': X.label, 'source': TU, 'obligations': len(X.obls), 'discharged': sum(o.ok for o in X.obls), 'paths': self.paths,
                'undecided': X.undecided, 'wall_s': round(self.wall, 2), 'models': X.models[:8]}


def find(X, key):
    """the definition the contract key names"""
    m = re.match(r'(\w+)\((.*)\)$', key)
    for q, lst in X.prog.funcs.items():
        t = q.split('::')
        for f in lst:
            if m:
                if t[-2:] != [m.group(1)] * 2:
                    continue
                fa = re.match(r'void \((.*)\)', f['type']['qualType'].replace('prime_field::', '')).group(1).replace('const ', '').replace('&', '').strip()
                fa = ', '.join(ctype(x) for x in fa.split(',')) if fa else ''
                if fa == m.group(2):
                    return f
            elif '::'.join(t[-len(key.split('::')):]) == key and (('::' in key) or len(t) <= 2 and t[-2:-1] != ['field_element']):
                return f
    raise Unsupported('definition of %s not found' % key)


def prove_fn(key, setup, post, label=None, glob=globs, assume=()):
    """setup(X) -> (this Ref or None, [args]); post(X, this, args, result) adds the postconditions"""
    t0 = time.time()
    prog = cxxast.load(TU)
    X = Exec(prog, label or key, {k: v for k, v in CON.items() if k != key})
    X.target = key
    n = 0
    try:
        f = find(X, key)

        def run():
            X.glob = glob()
            this, args = setup(X)
            r = X.call(f, this, args)
            return this, args, r
        for p, (this, args, r) in X.explore(run):
            n += 1
            X.p = p
            X.glob2 = X.glob
            post(X, this, args, r)
        if not n:
            X.obls.append(Obligation(X.label, 'a normal exit is reachable', False, '', False))
        else:
            X.obls.append(Obligation(X.label, 'a normal exit is reachable', True))
    except Unsupported as x:
        X.undecided.append('outside the supported subset: %s' % x)
    except cxxast.ExtractError as x:
        X.undecided.append('extraction: %s' % x)
    return Res(X, time.time() - t0, n)


def R(o):
    return Ref([o], 0)


def limbs_ok(X, o, nm='result'):
    if isinstance(o, Ref):
        o = o.get()
    for k, v in o.f.items():
        if isinstance(v, Obj):
            limbs_ok(X, v, nm + '.' + k)
        elif v is UN:
            X.prove(nm + '.' + k + ' is set', False)


def binop(key, mk, spec, sym):
    def setup(X):
        X.a, X.b = sym('a'), sym('b')
        return R(X.a.copy()), [R(X.b.copy())]

    def post(X, this, args, r):
        limbs_ok(X, r)
        X.prove_eq('value of the result', val(r), spec(val(X.a), val(X.b)))
        X.prove_eq('operand unchanged', val(this), val(X.a))
        X.prove_eq('operand unchanged', val(args[0]), val(X.b))
    return prove_fn(key, setup, post)


def compare(key, op, sym):
    def setup(X):
        X.a, X.b = sym('a'), sym('b')
        return R(X.a.copy()), [R(X.b.copy())]

    def post(X, this, args, r):
        d = val(X.a) - val(X.b)
        if not isinstance(r, bool):
            r = X.decide2(r) if False else r
        if isinstance(r, bool):
            X.prove('comparison result agrees with the integers', Cond(op, d) if r else Cond(op, d).neg())
        else:
            # undecided condition: both directions
            for s, c in ((r, Cond(op, d)), (r.neg(), Cond(op, d).neg())):
                X.p.conds.append(s)
                X.prove('comparison result agrees with the integers', c)
                X.p.conds.pop()
    return prove_fn(key, setup, post)


def ctor(key, args, spec):
    t = key.split('(')[0]

    def setup(X):
        X.args = args(X)
        o = Obj(t, {nm: (UN if ft in W else Obj(ft, {}) if ft not in STRUCTS else X.construct(ft, 'void ()', [])) for nm, ft in STRUCTS[t]})
        return R(o), [R(a) for a in X.args]

    def post(X, this, a, r):
        limbs_ok(X, this)
        v = val(this)
        X.prove_eq('constructed value', v, spec(*X.args))
    return prove_fn(key, setup, post)


def u64v(nm='x'):
    return lambda X: [Lin.v(nm, 0, T64 - 1)]


def u128v(nm='x'):
    return lambda X: [Lin.v(nm, 0, T128 - 1)]


def fsym(nm):
    """a canonical field element: limbs with value below p"""
    o = sym512lo(nm)
    return Obj('field_element', {'value': o})


def with_assume(fn):
    return fn


def fbin(key, spec):
    def setup(X):
        X.a, X.b = fsym('a'), fsym('b')
        # the last one is a consequence of the first two (both operands are nonnegative)
        X.assume = [Cond('<', val(X.a) - P), Cond('<', val(X.b) - P), Cond('<=', val(X.a) * val(X.b) - (P - 1) ** 2)]
        return R(X.a.copy()), [R(X.b.copy())]

    def post(X, this, args, r):
        limbs_ok(X, r)
        v = val(r)
        s = spec(val(X.a), val(X.b))
        X.prove('result is canonical', Cond('>=', v))
        X.prove('result is canonical', Cond('<', v - P))
        X.prove_eq('result is the residue', v, s - quotp(s, P) * P)
        X.prove_eq('operand unchanged', val(this), val(X.a))
        X.prove_eq('operand unchanged', val(args[0]), val(X.b))
    return prove_fn(key, setup, post)


# ------------------------------------------------------------------ jobs
def u256_arith():
    reset()
    out = [ctor('u256b()', lambda X: [], lambda: Lin.c(0)), ctor('u256b(unsigned long long)', u64v(), lambda x: x), ctor('u256b(unsigned __int128)', u128v(), lambda x: x)]
    out.append(binop('u256b::operator+', u256, lambda a, b: wrap(a + b, 256), sym256))
    out.append(binop('u256b::operator-', u256, lambda a, b: wrap(a - b, 256), sym256))
    return out


def u256_mul():
    reset()
    out = [binop('u256b::operator*', u256, lambda a, b: wrap(a * b, 256), sym256)]

    def setup(X):
        X.a = sym256('a')
        return R(X.a.copy()), []

    def post(X, this, args, r):
        X.prove_eq('value of the result', val(r), wrap(val(X.a) * T128, 256))
    out.append(prove_fn('u256b::left_128', setup, post))

    def setup2(X):
        X.a, X.b = [Obj('u256b', {'lo': Lin.v(n + '.lo', 0, T64 - 1), 'mid': Lin.v(n + '.mid', 0, T64 - 1), 'hi': Lin.c(0)}) for n in 'ab']
        return None, [R(X.a.copy()), R(X.b.copy()), R(sym256('old'))]

    def post2(X, this, args, r):
        limbs_ok(X, args[2])
        X.prove_eq('half product', val(args[2]), val(X.a) * val(X.b))
    out.append(prove_fn('mul_no_hi', setup2, post2))
    return out


def u256_cmp():
    reset()
    return [compare('u256b::operator' + o, o, sym256) for o in ('<=', '!=', '>', '<')]


def u256_bits():
    reset()
    out = []
    for key in ('u256b::bit_at', 'u256b::testBit'):
        rs = []
        for i in range(256):
            def setup(X):
                X.a = sym256('a')
                return R(X.a.copy()), [Lin.c(i)]

            def post(X, this, args, r):
                X.prove_eq('bit %d' % i, X.num(r), wrap(quot(val(X.a), i), 1))
            rs.append(prove_fn(key, setup, post))
        r = rs[0]
        for x in rs[1:]:
            r.e.obls += x.e.obls
            r.e.undecided += x.e.undecided
            r.wall += x.wall
        out.append(r)
    out.append(bitlen('u256b::bitLen', sym256))
    return out


def bitlen(key, sym):
    def setup(X):
        X.a = sym('a')
        X.assume = [Cond('>=', val(X.a) - 1)]
        return R(X.a.copy()), []

    def post(X, this, args, r):
        k = X.num(r).const()
        if k is None or not 1 <= k <= 512:
            X.prove('bit length is in range', False)
            return
        X.prove('value is below 2^bitLen', Cond('<', val(X.a) - (1 << k)))
        X.prove('value is at least 2^(bitLen-1)', Cond('>=', val(X.a) - (1 << (k - 1))))
    return prove_fn(key, setup, post)


def u512_ctor():
    reset()
    return [ctor('u512b()', lambda X: [], lambda: Lin.c(0)), ctor('u512b(unsigned __int128)', u128v(), lambda x: x), ctor('u512b(u256b)', lambda X: [sym256('x')], lambda x: val(x))]


def u512_addsub():
    reset()
    return [binop('u512b::operator+', u512, lambda a, b: wrap(a + b, 512), sym512), binop('u512b::operator-', u512, lambda a, b: wrap(a - b, 512), sym512)]


def u512_mul():
    reset()
    return binop('u512b::operator*', u512, lambda a, b: a * b, sym512lo)


def u512_mod():
    reset()

    def setup(X):
        X.a = sym512('a')
        X.assume = [Cond('<', val(X.a) - (1 << 508))]
        return R(X.a.copy()), [R(u256(Lin.c(P)))]

    def post(X, this, args, r):
        limbs_ok(X, r)
        x, v = val(X.a), val(r)
        X.prove('remainder is below the prime', Cond('<', v - P))
        X.prove('remainder is not negative', Cond('>=', v))
        congruent(X, 'remainder is congruent to the operand', x, v)
        X.prove_eq('operand unchanged', val(this), x)
    return prove_fn('u512b::operator%', setup, post)


def congruent(X, name, x, v):
    """x - v = p*k + 2^512*w with w = 0: coefficients of the difference are multiples of p once the wrap quotients are shown to be 0"""
    d = x - v
    bad = [m for m, c in d.d.items() if c % P]
    for m in bad:
        if m and X.prove('no wrap-around in %s (%s)' % (name, '*'.join(m)), Cond('==', Lin({m: 1}))):
            d = Lin({a: c for a, c in d.d.items() if a != m})
    ok = all(c % P == 0 for c in d.d.values())
    if not ok:
        return X.prove_eq(name, v, x - quotp(x, P) * P)
    X.obls.append(Obligation(X.label, name, True))


def u512_cmp():
    reset()
    return [compare('u512b::operator' + o, o, sym512) for o in ('!=', '>', '>=', '<')]


def fe_ctor():
    reset()
    out = [ctor('field_element()', lambda X: [], lambda: Lin.c(0)), ctor('field_element(unsigned long long)', u64v(), lambda x: x)]
    out.append(ctor('field_element(int)', lambda X: [Lin.v('x', -2 ** 31, 2 ** 31 - 1)], lambda x: x - quotp(x, P) * P))
    return out


def fe_add():
    reset()
    return fbin('field_element::operator+', lambda a, b: a + b)


def fe_sub():
    reset()
    return fbin('field_element::operator-', lambda a, b: a - b)


def fe_mul():
    reset()
    out = [fbin('field_element::operator*', lambda a, b: a * b)]

    def setup(X):
        X.a, X.b = fsym('a'), fsym('b')
        return R(X.a.copy()), [R(X.b.copy())]

    def post(X, this, args, r):
        X.prove_eq('unreduced product', val(r), val(X.a) * val(X.b))
    out.append(prove_fn('field_element::mul_non_mod', setup, post))
    return out


def fe_cmp():
    reset()

    def f512(nm):
        return Obj('field_element', {'value': sym512(nm)})
    return [compare('field_element::operator==', '==', f512), compare('field_element::operator!=', '!=', f512)]


def fe_bits():
    reset()
    out = []

    def f512(nm):
        return Obj('field_element', {'value': sym512(nm)})

    def s1(X):
        X.a = f512('a')
        return R(X.a.copy()), []

    def bit(x, i):
        return wrap(quot(x, i), 1)

    def p1(X, this, args, r):
        x = val(X.a)
        arr = r.arr if isinstance(r, PtrV) else None
        if not isinstance(arr, dict):
            X.prove('returns the digit buffer', False)
            return
        for i in range(512):
            g = arr.get(r.off + i, UN)
            if g is UN:
                X.prove('digit %d is set' % i, False)
            else:
                X.prove_eq('digit %d' % i, X.num(g), bit(x, i) + 48)
    out.append(prove_fn('field_element::to_string', s1, p1))

    def s2(X):
        X.a = fsym('a')
        return R(X.a.copy()), []

    def p2(X, this, args, r):
        v = r.f['v']
        X.prove('256 bits', len(v) == 256)
        x = val(X.a)
        for i, b in enumerate(v[:256]):
            b = b if isinstance(b, Lin) else b
            if isinstance(b, Cond):
                ok = b.op == '!=' and b.l == bit(x, i)
                if not ok:
                    for s, c in ((b, Cond('==', bit(x, i) - 1)), (b.neg(), Cond('==', bit(x, i)))):
                        X.p.conds.append(s)
                        X.prove('bit %d' % i, c)
                        X.p.conds.pop()
                else:
                    X.obls.append(Obligation(X.label, 'bit %d' % i, True))
            else:
                X.prove_eq('bit %d' % i, X.num(b), bit(x, i))
    out.append(prove_fn('field_element::bit_stream', s2, p2))

    def p3(X, this, args, r):
        X.prove_eq('exported integer', r.f['v'], val(X.a))
    out.append(prove_fn('field_element::to_gmp_class', s2, p3))
    out.append(bitlen('field_element::bitLen', f512))
    return out


def rand_fn():
    reset()
    out = []

    def s1(X):
        return R(sym512('old')), []

    def p1(X, this, args, r):
        limbs_ok(X, this)
        v = val(this)
        X.prove('raw random value is below 2^508', Cond('<', v - (1 << 508)))
        X.prove('raw random value is not negative', Cond('>=', v))
        # three independent draws reach three limbs
        vs = {m for m in v.d if m}
        X.prove('every limb group carries a fresh draw', len([m for m in vs if m[0].startswith('rand')]) >= 3)
    out.append(prove_fn('u512b::random', s1, p1))

    def s2(X):
        return None, []

    def p2(X, this, args, r):
        v = val(r)
        X.prove('random element is canonical', Cond('<', v - P))
        X.prove('random element is canonical', Cond('>=', v))
        rs = sorted({m[0] for l in [v] + [d for x in v.d for q in x for (d, _, _) in DEF.get(q, ())] for m in l.d if m and m[0].startswith('rnd')})
        X.prove('depends on every draw', len(rs) >= 3)
    out.append(prove_fn('random', s2, p2))
    return out


def init_globals():
    reset()

    def setup(X):
        return None, [PS, Lin.c(10)]

    def post(X, this, args, r):
        g = X.glob
        for nm, v in (('mod', P), ('mod_512', P), ('minus_mod_512', T512 - P), ('one', 1), ('zero', 0), ('my_factor', (1 << 508) // P)):
            o = g.get(nm)
            if o is None or not isinstance(o, Obj):
                X.prove('%s is initialised' % nm, False)
            else:
                X.prove_eq('%s after initialisation' % nm, val(o), Lin.c(v))
        X.prove('initialized flag', g.get('initialized') is True)
    # before init: zero-initialised statics
    r = prove_fn('init', setup, post, glob=lambda: {})
    # the numeral constructor itself, for the numerals init uses
    out = [r]
    for t, mk, k in (('u256b', u256, 256), ('u512b', u512, 512)):
        key = t + '(char *, int, int)'
        for s in (PS, str((1 << 508) // P), '0', '1', str((1 << 256) - 1), '007', '18446744073709551616'):
            def setup2(X):
                return R(mk(Lin.c(0))), [PtrV(s), Lin.c(len(s)), Lin.c(10)]

            def post2(X, this, args, r):
                X.prove_eq('numeral', val(this), Lin.c(int(s) % (1 << k)))
            x = prove_fn(key, setup2, post2)
            x.e.label = key + ' ' + s[:20]
            out.append(x)
    return out


JOBS = ('u256_arith', 'u256_mul', 'u256_cmp', 'u256_bits', 'u512_ctor', 'u512_addsub', 'u512_mul', 'u512_mod', 'u512_cmp', 'fe_ctor', 'fe_add', 'fe_sub', 'fe_mul', 'fe_cmp', 'fe_bits', 'rand_fn', 'init_globals')

if __name__ == '__main__':
    import sys
    for nm in sys.argv[1:]:
        rs = globals()[nm]()
        for r in rs if isinstance(rs, list) else [rs]:
            print(r.report())
            for o in r.e.obls:
                if not o.ok:
                    print('FAIL', o.name, o.definite, o.detail[:600])
