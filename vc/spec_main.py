"""Contracts of the programs (main_fast_track.cpp, bclogc.cpp, bc_clogc.cpp): success is reported exactly when every
verification that was asked for was run, on a properly prepared verifier, and accepted.

The verifier and prover methods are used through contracts that check the order of preparation; what verify() answers is arbitrary."""
from spec_read import *

ACC = uf('verdict', 1)          # answer of verification number i
PRIME = '16798108731015832284940804142231733909759579603404752749028378864165570215949'


def literal(a):
    while a.get('kind') != 'StringLiteral':
        if not a.get('inner'):
            return None
        a = a['inner'][0]
    return a['value'].strip('"')


def text_of(e, v, a):
    """the string a printf argument denotes, if it is a literal"""
    if isinstance(v, Ptr) and v.base in e.strings and const(v.off) == 0:
        return e.strings[v.base]
    return literal(a)


def slot(loc, what):
    """which verifier or prover: its index in the array the program made, 0 for a single one"""
    if isinstance(loc, Ptr):
        loc = loc.at(IV(0))
    if isinstance(loc, tuple) and loc[0] == 'addr':
        loc = loc[1]
    if not isinstance(loc, Loc) or len(loc.idx) > 1:
        raise Unsupported('%s object %r' % (what, loc))
    return loc, (loc.idx if loc.idx else (IV(0),))


def main_contracts(F, blk, n):
    e0 = F.e
    G = lambda f: Loc('ghost.' + f)

    def put(e, st, path, f, idx, v):
        e.store(st, Loc('ghost.' + f, idx), 'int', v, path)

    def get(e, st, path, f, idx):
        return e.toint(e.load(st, Loc('ghost.' + f, idx), 'int', path))

    def init(e, obj, vals, args, st, path, node):
        s = text_of(e, vals[0], args[0])
        e.oblige(path, s == PRIME, 'the field is the one the protocol is defined over', node)
        e.oblige(path, e.toint(vals[1]) == 10, 'the modulus is given in decimal', node)
        put(e, st, path, 'field', (), IV(1))

    def get_prover(e, obj, vals, args, st, path, node):
        l, i = slot(obj, 'verifier')
        m, j = slot(e.rval_of(vals[0], args[0], st, path) if hasattr(e, 'rval_of') else vals[0], 'prover')
        e.oblige(path, simp(i[0] - j[0]) == 0, 'every verifier has its own prover', node)
        put(e, st, path, 'prover', i, IV(1))

    def set_blocks(e, obj, vals, args, st, path, node):
        l, i = slot(obj, 'verifier')
        put(e, st, path, 'blocks', i, e.toint(vals[0]))
        put(e, st, path, 'logblocks', i, e.toint(vals[1]))

    def read(e, obj, vals, args, st, path, node):
        l, i = slot(obj, 'verifier')
        e.oblige(path, get(e, st, path, 'prover', i) == 1, 'the verifier has a prover before it reads the circuit', node)
        if blk:
            e.oblige(path, get(e, st, path, 'blocks', i) == e.toint(vals[1]), 'as many copies are read as there are blocks', node)
        put(e, st, path, 'read', i, IV(1))

    def get_circuit(e, obj, vals, args, st, path, node):
        m, j = slot(obj, 'prover')
        c = vals[0]
        if isinstance(c, SV):
            put(e, st, path, 'given', j, IV(1))
            return
        if not isinstance(c, Loc):
            raise Unsupported('circuit argument %r' % (c,))
        i = c.idx if c.idx else (IV(0),)
        e.oblige(path, simp(i[0] - j[0]) == 0, 'the prover gets the circuit of its own verifier', node)
        e.oblige(path, get(e, st, path, 'read', i) == 1, 'the circuit was read before the prover gets it', node)
        put(e, st, path, 'given', j, IV(1))

    def verify(e, obj, vals, args, st, path, node):
        l, i = slot(obj, 'verifier')
        e.oblige(path, get(e, st, path, 'field', ()) == 1, 'the field is initialised before the verification', node)
        for f, t in (('prover', 'the verifier has a prover'), ('read', 'the verifier has read the circuit'), ('given', 'the prover has the circuit')):
            e.oblige(path, get(e, st, path, f, i) == 1, t + ' before the verification', node)
        if blk:
            e.oblige(path, z3.And(get(e, st, path, 'blocks', i) == n, get(e, st, path, 'logblocks', i) == z3.Int('log_n_copy')), 'the number of blocks is the requested one', node)
        put(e, st, path, 'ran', i, IV(1))
        return ACC(i[0]) == 1

    def printf(e, obj, vals, args, st, path, node):
        t = literal(args[0]) or ''
        if '%s' in t:
            ss = [text_of(e, v, a) for v, a in zip(vals[1:], args[1:])]
            t = ' '.join(x for x in ss if x)
        if re.search(r'\bPass\b', t):
            put(e, st, path, 'out', (), IV(1))
            put(e, st, path, 'outs', (), simp(get(e, st, path, 'outs', ()) + 1))
        elif re.search(r'\bFail\b', t):
            put(e, st, path, 'out', (), IV(0))
            put(e, st, path, 'outs', (), simp(get(e, st, path, 'outs', ()) + 1))
        return IV(0)

    def scan(e, obj, vals, args, st, path, node):
        src = vals[0]
        if literal(args[1]) != '%d' or len(vals) != 3 or not (isinstance(vals[2], tuple) and vals[2][0] == 'addr'):
            raise Unsupported('sscanf')
        which = None
        if isinstance(src, Ptr):
            a = src.idx + (src.off,)
            which = const(simp(a[0])) if a else None
        if which not in (2, 3):
            raise Unsupported('command line argument %r' % (src,))
        e.store(st, vals[2][1], 'int', (z3.Int('n_copy') if which == 2 else z3.Int('log_n_copy')), path)
        return IV(1)
    return {'prime_field::init': init, 'verifier::get_prover': get_prover, 'verifier::set_blocks': set_blocks,
            'verifier::read_circuit': read, 'verifier::read_circuit_from_FILE': read, 'prover::get_circuit': get_circuit,
            'verifier::verify': verify, 'printf': printf, 'sscanf': scan, 'puts': printf,
            'fopen': lambda e, o, v, a, st, p, n: Opaque('file'), 'fclose': lambda e, o, v, a, st, p, n: IV(0),
            ('ctor', 'prover'): lambda *a: None, ('ctor', 'verifier'): lambda *a: None}


def program_run(tu, kind, all_accept):
    F = Fun(tu, 'main', label='main (%s%s)' % (tu.split('/')[-1], ', every verification accepting' if all_accept else ''))
    n = z3.Int('n_copy') if kind != 'fast' else IV(1)
    if kind != 'fast':
        F.require(n >= 1, n <= 2 ** 20, z3.Int('log_n_copy') >= 0, z3.Int('log_n_copy') <= 30)
    terms.UF_AX['verdict'] = (lambda a, t: [t == 1]) if all_accept else (lambda a, t: [t >= 0, t <= 1])
    F.e.contracts = main_contracts(F, kind == 'blk', n)
    for f in ('field', 'outs'):
        F.e.store(F.st, Loc('ghost.' + f), 'int', IV(0), F.path)
    for f in ('prover', 'read', 'given', 'ran', 'blocks', 'logblocks'):
        F.e.init_store['ghost.' + f] = Arr('int', lambda i, p: IV(0), (), 'ghost.' + f)
    F.e.bound_checks = False

    def post(F, p, s, res):
        e = F.e
        k = z3.Int('K')
        g = lambda f, i=(): e.toint(e.load(s, Loc('ghost.' + f, i), 'int', p))
        F.ensure(p, g('outs') == 1, 'one verdict is reported')
        q = p.copy()
        q.ctx.add(z3.And(k >= 0, k < n))
        number = (k,) if kind == 'trad' else (IV(0),)
        q = with_max(e, q, k)
        if all_accept:
            F.ensure(p, g('out') == 1, 'success is reported when every verification accepts')
        else:
            r = e.toint(e.load(s, Loc('ghost.ran', number), 'int', q))
            F.ensure(q, z3.Or(g('out') == 0, r == 1), 'no success is reported unless every verification ran')
            F.ensure(q, z3.Or(g('out') == 0, ACC(number[0]) == 1), 'no success is reported unless every verification accepts')
    args = [] if kind == 'fast' else []
    return F.run([z3.Int('argc'), Ptr('argv[]', ())], post)


def both(tu, kind):
    return [program_run(tu, kind, False), program_run(tu, kind, True)]


def m_fast():
    return both('src/linear_gkr/main_fast_track.cpp', 'fast')


def m_trad():
    return both('src/traditional_gkr/bclogc.cpp', 'trad')


def m_blk():
    return both('src/traditional_gkr/bc_clogc.cpp', 'blk')


if __name__ == '__main__':
    import sys
    for nm in sys.argv[1:]:
        for F in globals()[nm]():
            print(F.report())
            for o in F.e.obls:
                if not o.ok:
                    print('FAIL', o.name, o.definite, o.detail[:1500])
            print('notes', F.e.notes[-5:], F.e.havocs[-5:])
            print('dropped', F.e.dropped, STATS)
