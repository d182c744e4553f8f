"""Contracts of src/linear_gkr/polynomial.cpp: every constructor, sum, product and evaluation."""
from contract import *

TU = 'src/linear_gkr/polynomial.cpp'
NAMES = {'linear_poly': 'ab', 'quadratic_poly': 'abc', 'cubic_poly': 'abcd', 'quadruple_poly': 'abcde', 'quintuple_poly': 'abcdef'}


def cons():
    """prime_field contracts only: the polynomial functions are what is verified"""
    return {k: v for k, v in field_contracts().items() if not ('_poly' in (k if isinstance(k, str) else k[1]))}


def horner(cs, x):
    a = ZERO
    for c in cs:
        a = a * x + c
    return a


def fld(b, k):
    return sel('%s.%s.value' % (b, k), ())


def pfun(t, op):
    ns = list(NAMES[t])
    F = Fun(TU, '%s::%s' % (t, op), contracts=cons())
    me = [fld('this', k) for k in ns]
    if op == 'eval':
        x = sel('x', ())

        def post(F, p, s, res):
            F.ensure_eq(p, res, horner(me, x), 'value of the polynomial')
        return F.run([F.e.mkfe(Big(x))], post)
    arg = 'linear_poly' if op == 'operator*' else t
    other = [fld('other', k) for k in NAMES[arg]]
    out = [a + b for a, b in zip(me, other)]
    if op == 'operator*':
        out = [ZERO] * (len(me) + 1)
        for i, a in enumerate(me):
            for j, b in enumerate(other):
                out[i + j] = out[i + j] + a * b
    rn = 'abcdef'[:len(out)]

    def post(F, p, s, res):
        for k, w in zip(rn, out):
            F.ensure_eq(p, res.f[k], w, 'coefficient ' + k)
    return F.run([Loc('other')], post)


def ctors(t):
    out = []
    ns = list(NAMES[t])
    prog = program(TU)
    for f in prog.funcs.get('%s::%s' % (t, t), []):
        if f.get('isImplicit') or t + ' &' in f['type']['qualType']:
            continue
        np = len([c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl'])
        if np == 0:
            continue
        F = Fun(TU, '%s::%s' % (t, t), np, contracts=cons(), contains='field_element')
        a = [sel('arg%d' % i, ()) for i in range(np)]
        want = a if np == len(ns) else [ZERO] * (len(ns) - 1) + a

        def post(F, p, s, res, want=want):
            for k, w in zip(ns, want):
                F.ensure_eq(p, F.cell(p, s, 'this.%s.value' % k, ()).p, w, 'coefficient ' + k)
        out.append(F.run([F.e.mkfe(Big(x)) for x in a], post))
    return out


def all_poly():
    out = []
    for t in NAMES:
        out += ctors(t)
        out.append(pfun(t, 'eval'))
        out.append(pfun(t, 'operator+'))
    out.append(pfun('linear_poly', 'operator*'))
    out.append(pfun('quadratic_poly', 'operator*'))
    return out


if __name__ == '__main__':
    for F in all_poly():
        print(F.report())
        for o in F.e.obls:
            if not o.ok:
                print('FAIL', o.name, o.definite, o.detail[:600])
