"""Contracts of the circuit readers (verifier::read_circuit and variants): the circuit in memory is the one the file describes.

The file is an arbitrary well-formed one: a depth, then per layer its size and that many lines "type id operand operand".
A read is identified by the loop iterations that surround it (0 loops: depth, 1: layer size, 2: a line of the layer), and the
values read in one iteration by their order, so the contract does not depend on names or on how reads are grouped."""
from spec_blk import *

NBU = uf('file.bits', 1)
TYU, UU, VU = [uf('file.' + x, 2) for x in ('ty', 'u', 'v')]
WIDTH = {'int': 'd', 'long long': 'lld', 'long': 'ld'}


class File:
    """the tokens of the file"""
    def __init__(self, F, types, input_types):
        self.F, self.types = F, types
        self.d = z3.Int('file.depth')
        F.require(self.d >= 1, self.d <= 999)
        self.sites = {}         # loop depth -> [(site, number of fields)]
        self.order = []
        i32 = lambda a, t: [t >= -2 ** 31, t < 2 ** 31]
        terms.UF_AX['file.bits'] = lambda a, t: [t >= 0, t <= 20]
        terms.UF_AX['file.u'] = i32
        terms.UF_AX['file.v'] = i32
        terms.UF_AX['file.ty'] = lambda a, t: i32(a, t) + [z3.Implies(a[0] == 0, z3.Or([t == x for x in input_types]))]

    def token(self, counters, pos):
        c = [simp(x) for x in counters]
        if len(c) == 0:
            if pos != 0:
                raise Unsupported('more than one number read before the layers')
            return self.d
        if len(c) == 1:
            if pos != 0:
                raise Unsupported('more than one number read per layer')
            return pow2(NBU(c[0]))
        if len(c) == 2:
            if pos > 3:
                raise Unsupported('more than four numbers read per gate')
            return (TYU(*c), c[1], UU(*c), VU(*c))[pos]
        raise Unsupported('read inside three loops')

    def scan(self, e, obj, vals, args, st, path, n):
        lit = args[1]
        while lit.get('kind') != 'StringLiteral':
            if not lit.get('inner'):
                raise Unsupported('format is not a literal')
            lit = lit['inner'][0]
        fmt = lit['value'].strip('"')
        convs = re.findall(r'%(\*?)(\d*)([a-z]+)', fmt)
        if re.sub(r'%[a-z]+|\s|\\n', '', fmt) or any(a or b for a, b, _ in convs):
            raise Unsupported('format ' + fmt)
        depth = len(path.counters)
        sites = self.sites.setdefault(depth, [])
        key = (n['id'], tuple(e.stack))
        at = 0
        for k, m in sites:
            if k == key:
                break
            at += m
        else:
            sites.append((key, sum(1 for _, _, c in convs if c != 'n')))
        i = 0
        for (_, _, c), v, a in zip(convs, vals[2:], args[2:]):
            if not (isinstance(v, tuple) and v[0] == 'addr'):
                raise Unsupported('scanf target')
            t = tstr(a).replace('*', '').strip()
            if c == 'n':
                e.store(st, v[1], t, fresh_int('off'), path)
                continue
            e.oblige(path, WIDTH.get(t) == c, 'conversion matches the width of the variable', n)
            e.store(st, v[1], t, self.token(path.counters, at + i), path)
            i += 1
        return IV(len(convs))


def read_contracts(F, cs, fl):
    cs['fscanf'] = fl.scan
    cs['fopen'] = lambda e, o, v, a, st, p, n: Opaque('file')
    cs['fclose'] = lambda e, o, v, a, st, p, n: IV(0)

    def init(e, obj, vals, args, st, path, n):
        for i, v in enumerate(vals):
            e.store(st, Loc('ghost.init%d' % i), 'int', ival(e, st, v, path), path)
    cs['prover::init_array'] = init


def bits(k):
    return z3.If(NBU(k) == 0, IV(1), NBU(k))


def reader(tu, qual, kind, args):
    cs = field_contracts()
    F = Fun(tu, qual, contracts=cs)
    fast = kind == 'fast'
    F.e.peel = fast
    fl = File(F, TYPES if fast else TT, (2, 3))
    read_contracts(F, cs, fl)
    C = 'this.C'
    if kind == 'blk':
        m = z3.Int('this.C.total_blocks_binary_length')
        nb = z3.Int('n_copy')
        F.require(nb >= 1, nb == z3.Int('this.C.total_blocks'), m >= 0, m <= 8, nb == pow2(m))
        F.size('this.C.blocks[]', lambda: nb)
        for f in ('circuit', 'total_depth'):
            F.size('this.C.blocks[].' + f, lambda: nb)

    def post(F, p, s, res):
        e = F.e
        k, g, b = z3.Int('K'), z3.Int('G'), z3.Int('B')
        pre = ()
        q = p.copy()
        q.ctx.add(z3.And(k >= 0, k < fl.d))
        if kind == 'blk':
            q.ctx.add(z3.And(b >= 0, b < nb))
            pre = (b,)
            root = 'this.C.blocks[].circuit'
            td = F.cell(q, s, 'this.C.blocks[].total_depth', pre, 'int')
        else:
            root = 'this.C.circuit'
            td = F.cell(q, s, 'this.C.total_depth', (), 'int')
        F.ensure(q, e.toint(td) == fl.d + (1 if fast else 0), 'depth')
        cir = F.cell(q, s, root, pre, 'ptr')
        if not isinstance(cir, Ptr):
            return F.fail('layers allocated', repr(cir), False)

        def layer(q, idx, want, name):
            """layer number idx of the circuit has the gates given by want(g), padded"""
            ix = cir.idx + (simp(cir.off + idx),)
            F.ensure(q, e.toint(F.cell(q, s, cir.base + '.bit_length', ix, 'int')) == bits(k), name + ': bit length')
            gp = F.cell(q, s, cir.base + '.gates', ix, 'ptr')
            if not isinstance(gp, Ptr):
                return F.fail(name + ': gates allocated', repr(gp), False)
            q = q.copy()
            q.ctx.add(z3.And(g >= 0, g < pow2(bits(k))))
            sz = e.toint(F.cell(q, s, gp.base + '#size', gp.idx, 'int'))
            F.ensure(q, sz >= pow2(bits(k)), name + ': a gate for every index')
            gi = gp.idx + (simp(gp.off + g),)
            for f, w in zip(('ty', 'u', 'v'), want(g)):
                F.ensure(q, e.toint(F.cell(q, s, gp.base + '.' + f, gi, 'int')) == w, '%s: %s of every gate' % (name, f))
        line = lambda g: (TYU(k, g), UU(k, g), z3.If(TYU(k, g) == 6, 0, VU(k, g)) if fast else VU(k, g))
        pad = lambda w, d: (lambda g: [z3.If(g < pow2(NBU(k)), x, y) for x, y in zip(w(g), d)])
        if fast:
            q0 = q.copy()
            q0.ctx.add(k == 0)
            layer(q0, IV(0), pad(line, (2, 0, 0)), 'input layer')
            layer(q0, IV(1), lambda g: (IV(4), g, IV(0)), 'relay layer above the inputs')
            q1 = q.copy()
            q1.ctx.add(k >= 1)
            layer(q1, simp(k + 1), pad(line, (2, 0, 0)), 'layer')
        else:
            layer(q, k, pad(line, (2, 0, 0)), 'layer')
        # sizes of the tables: k is any layer
        for b_ in ('beta_g_r0', 'beta_g_r1', 'beta_u', 'beta_v'):
            t = F.cell(q, s, 'this.' + b_, (), 'ptr')
            if not isinstance(t, Ptr):
                F.fail(b_ + ' allocated', repr(t), False)
                continue
            sz = e.toint(F.cell(q, s, t.base + '#size', t.idx, 'int'))
            q2 = with_max(e, q, k)
            F.ensure(q2, sz >= pow2(bits(k)), 'table %s long enough for every layer' % b_)
        q2 = with_max(e, q, k)
        told = lambda i: e.toint(F.cell(q2, s, 'ghost.init%d' % i, (), 'int'))
        F.ensure(q2, told(0) >= bits(k), 'prover tables long enough for every layer')
        F.ensure(q2, told(0) <= 28, 'table sizes stay in the range the provers are verified for')
        if kind == 'blk':
            F.ensure(q2, told(1) == m, 'prover told the number of copies')
    return F.run(args(F), post)


def with_max(e, q, k):
    """instance at iteration k of the running maxima of the loops"""
    q = q.copy()
    for K, fact in q.insts:
        i = simp(k - 1) if e.peel else k
        q.ctx.add(z3.Implies(z3.And(i >= 0, i < K), fact(K, i)))
    return q


def r_fast():
    return reader(VTU, 'verifier::read_circuit', 'fast', lambda F: [Opaque('path')])


def r_trad():
    return reader(TVTU, 'verifier::read_circuit_from_FILE', 'trad', lambda F: [Opaque('file')])


def r_blk():
    return reader(BVTU, 'verifier::read_circuit', 'blk', lambda F: [Opaque('path'), z3.Int('n_copy')])


if __name__ == '__main__':
    import sys
    for nm in sys.argv[1:]:
        F = globals()[nm]()
        print(F.report())
        for o in F.e.obls:
            if not o.ok:
                print('FAIL', o.name, o.definite, o.detail[:1500])
        print('notes', F.e.notes[-5:], F.e.havocs[-5:])
        print('dropped', F.e.dropped, STATS)
