"""Loop cutting.

For a loop with ghost iteration counter k every modified location gets a
candidate closed form CF(k, x) (value of the location with index x when k
iterations have been completed).  Candidates come from one symbolic execution
of the body on an arbitrary pre-state; they are *proposals* only.  They are
used after (a) init: CF(0,x) = value on entry and (b) preserve: executing the
real body from the state described by CF(k,.) gives CF(k+1,.) for every x,
have both been discharged for symbolic k and x.  A location whose candidate is
not inductive is havocked (and the set of candidates re-checked)."""
import re
import z3
from terms import *
import terms as terms_
import engine as E


def affine(expr, var):
    """(a, c) with expr == a*var + c, a constant, c free of var; else None"""
    d0 = simp(z3.substitute(expr, (var, IV(0))))
    d1 = simp(z3.substitute(expr, (var, IV(1))))
    a = const(d1 - d0)
    if a is None or occurs(var, d0):
        return None
    if const(simp(expr - (IV(a) * var + d0))) != 0:
        return None
    return a, d0


def resolve_int(ctx, r):
    """decide the conditionals of an integer term that the context settles"""
    if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ITE:
        c = r.arg(0)
        if ctx.implies(c):
            return resolve_int(ctx, r.arg(1))
        if ctx.implies(z3.Not(c)):
            return resolve_int(ctx, r.arg(2))
        return simp(z3.If(c, resolve_int(ctx.with_(c), r.arg(1)), resolve_int(ctx.with_(z3.Not(c)), r.arg(2))))
    return r


def resolve(ctx, p, depth=0):
    """resolve decided conditionals at the top level of a polynomial"""
    if depth > 40:
        return p
    for i in sorted(p.atoms()):
        a = Atom.byid[i]
        if a.kind == 'ite':
            if ctx.implies(a.d[0]):
                return resolve(ctx, preplace(p, {i: a.d[1]}), depth + 1)
            if ctx.implies(z3.Not(a.d[0])):
                return resolve(ctx, preplace(p, {i: a.d[2]}), depth + 1)
    return p


def deep(ctx, p, depth=0):
    """drop the branches of conditionals (also nested ones) that ctx excludes"""
    if depth > 12:
        return p
    repl = {}
    for i in sorted(p.atoms()):
        a = Atom.byid[i]
        if a.kind != 'ite':
            continue
        c, t, e = a.d
        cx, cy = ctx.with_(c), ctx.with_(z3.Not(c))
        if not cx.feasible():
            repl[i] = deep(cy, e, depth + 1)
        elif not cy.feasible():
            repl[i] = deep(cx, t, depth + 1)
        else:
            repl[i] = ite(c, deep(cx, t, depth + 1), deep(cy, e, depth + 1))
    return preplace(p, repl) if repl else p


def scan_eqs(p, out, seen=None):
    seen = set() if seen is None else seen
    for i in p.atoms():
        if i in seen:
            continue
        seen.add(i)
        a = Atom.byid[i]
        if a.kind == 'ite':
            scan_eqs_z3(a.d[0], out)
            scan_eqs(a.d[1], out, seen)
            scan_eqs(a.d[2], out, seen)


def scan_eqs_z3(e, out):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and z3.is_int(x.arg(0)):
            out.append(x)
        st.extend(x.children())


def z3_map_uf(e, names, fn):
    """replace applications of functions in names by fn(name, args)"""
    subs = []
    st, seen = [e], set()
    hits = {}
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            hits[x.get_id()] = x
        st.extend(x.children())
    if not hits:
        return e
    for x in hits.values():
        args = [z3_map_uf(x.arg(i), names, fn) for i in range(x.num_args())]
        r = fn(x.decl().name(), args)
        if r is None:
            raise E.Unsupported('unresolved integer region')
        subs.append((x, r))
    return simp(z3.substitute(e, *subs))


class Form:
    """closed form over k and index variables xs"""
    def __init__(self, kind, pat, xs, k, val, canon=(0, P - 1)):
        self.kind, self.pat, self.xs, self.k, self.val, self.canon = kind, pat, xs, k, val, canon

    def at(self, k, idx):
        subs = [(self.k, k)] + list(zip(self.xs, idx))
        if self.kind == 'big':
            return psubst(self.val, subs)
        if self.kind == 'int':
            return simp(z3.substitute(self.val, *subs))
        return ptr_subst(self.val, subs)

    def arr(self, k, name):
        def fn(idx, path):
            v = self.at(k, idx)
            if self.kind == 'big':
                return E.Big(resolve(path.ctx, v), *self.canon)
            return v
        return E.Arr(self.kind, fn, (), name)


def ptr_subst(v, subs):
    if isinstance(v, E.Ptr):
        return E.Ptr(v.base, [esubst(i, subs) for i in v.idx], esubst(v.off, subs))
    if isinstance(v, E.PIte):
        c = esubst(v.c, subs)
        if z3.is_true(c):
            return ptr_subst(v.a, subs)
        if z3.is_false(c):
            return ptr_subst(v.b, subs)
        return E.PIte(c, ptr_subst(v.a, subs), ptr_subst(v.b, subs))
    return v


class Loop:
    uid = 0

    def __init__(self, e, node, cond, inc, body, fr, st, path):
        self.e, self.node, self.cond, self.inc, self.body = e, node, cond, inc, body
        self.fr, self.st, self.path = fr, st, path
        Loop.uid += 1
        self.uid = Loop.uid
        self.k = fresh_int('k')
        self.c0 = next(e.counter)
        self.d0 = len(e.decl_log)
        self.mod = {}        # base -> kind
        self.dims = {}
        self.forms = {}
        self.dead = set()    # demoted
        self.s0cache = {}
        self.tent = {}
        self.first = 0       # iterations executed before this loop

    # ---------------------------------------------------------------- helpers
    def local(self, base):
        if base.endswith('#size'):
            base = base[:-5]
        b = base
        m = re.match(r'(f|tmp|str)(\d+)', b)
        if m and int(m.group(2)) >= self.c0:
            return True
        root = b.split('[')[0]
        if root in self.declared:
            return True
        return any(root.startswith(x + '.') for x in self.declared)

    def pname(self, b):
        return 'P%d!%s' % (self.uid, b)

    def head(self, k):
        s = self.st.copy()
        for b, kind in self.mod.items():
            f = self.forms.get(b)
            if f is not None:
                s.mem[b] = f.arr(k, b)
            else:
                s.mem[b] = self.e.default_arr(b, kind, self.pname(b))
        return s

    def base_path(self):
        p = self.path.copy()
        p.counters = p.counters + [simp(self.k + self.first) if self.first else self.k]
        p.loopnodes = p.loopnodes + [self.node['id']]
        p.decs = []
        p.ctx.add(self.k >= 0)
        p.nfacts = len(p.facts)
        return p

    def exec(self):
        e = self.e
        h = self.head(self.k)
        n0 = len(h.forall)

        def fn(p, s):
            return e.iteration(self.cond, self.inc, self.body, self.fr, s, p)
        bp = self.base_path()
        runs = e.explore(bp, h, fn)
        for p, s, sig in runs:
            s.nfor = n0
        self.nf0 = bp.nfacts
        self.declared = set(e.decl_log[self.d0:])
        return h, runs

    def changed(self, h, runs):
        out = {}
        for p, s, sig in runs:
            if sig:
                continue
            for b, a in s.mem.items():
                if self.local(b):
                    continue
                old = h.mem.get(b)
                if old is None:
                    old = self.e.init_store.get(b) or self.e.defcache.get(b)
                if a is not old:
                    out[b] = a.kind
                    if a.writes:
                        self.dims[b] = len(a.writes[-1][0])
        return out

    # ---------------------------------------------------------------- run
    def run(self):
        self.prepare()
        return self.finish()

    def prepare(self):
        e = self.e
        e.quiet += 1
        try:
            self.infer()
        finally:
            e.quiet -= 1
        if not e.quiet:
            self.houdini()

    def infer(self):
        self.inc_forms()
        h, runs = None, None
        for _ in range(8):
            try:
                h, runs = self.exec()
            except E.Unsupported:
                # the body needs to know how its own counters advance
                n0 = set(self.forms)
                for c in (self.body.get('inner', []) if self.body and self.body.get('kind') == 'CompoundStmt' else []):
                    if c.get('kind') in ('UnaryOperator', 'CompoundAssignOperator') or c.get('kind') == 'BinaryOperator' and c.get('opcode') == '=':
                        self.inc_forms(c)
                if set(self.forms) == n0:
                    raise
                continue
            ch = self.changed(h, runs)
            new = {b: k for b, k in ch.items() if b not in self.mod}
            if new:
                self.mod.update(new)
                continue
            nf = self.scalar_forms(h, runs)
            if nf:
                continue
            break
        self.runs = runs
        live = [r for r in runs if not r[2]]
        if live:
            self.regions(live)

    # ---------------------------------------------------------------- integers and pointers
    def classify(self, h, r, x0):
        if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ITE and self.path.ctx.implies(x0 >= 0) and const(simp(r - z3.If(h >= 0, h / 2, -(-h / 2)))) == 0:
            return lambda x0, k: shr(x0, k)
        d = const(simp(r - h))
        if d is not None:
            return lambda x0, k: simp(x0 + d * k)
        if const(simp(r - h / 2)) == 0:
            return lambda x0, k: shr(x0, k)
        if const(simp(r - 2 * h)) == 0:
            return lambda x0, k: shl(x0, k)
        return None

    def inc_forms(self, inc=None):
        inc = inc or self.inc
        if not inc:
            return
        e = self.e
        s = self.st.copy()
        p = self.path.copy()
        self.declared = set()
        before = dict(s.mem)
        try:
            e.ev(inc, self.fr, s, p)
        except (E.Unsupported, E.Dead):
            return
        for b, a in s.mem.items():
            if b not in self.forms and before.get(b) is not a and a.kind == 'int' and a.writes and a.writes[-1][0] == ():
                hv = fresh_int('h')
                s2 = self.st.copy()
                s2.mem[b] = E.Arr('int', lambda i, pp, hv=hv: hv, (), b)
                try:
                    e.ev(inc, self.fr, s2, self.path.copy())
                except (E.Unsupported, E.Dead):
                    continue
                r = e.toint(e.read_arr(s2.mem[b], (), p))
                f = self.classify(hv, r, self.s0(b, 'int', ()))
                if f:
                    self.add_int(b, f)

    def add_int(self, b, f):
        x0 = self.s0(b, 'int', ())
        self.mod[b] = 'int'
        self.dims[b] = 0
        self.forms[b] = Form('int', 'counter', [], self.k, f(x0, self.k))

    def s0(self, b, kind, idx):
        a = self.st.mem.get(b) or self.e.base_arr(b, kind)
        v = self.e.read_arr(a, tuple(idx), self.path)
        if kind == 'big':
            return v.p
        if kind == 'int':
            return self.e.toint(v)
        return v

    def scalar_forms(self, h, runs):
        live = [r for r in runs if not r[2]]
        if not live:
            return False
        got = False
        for b, kind in list(self.mod.items()):
            if b in self.forms or b in self.dead:
                continue
            if kind == 'int' and self.dim(b, live) == 0:
                hv = z3.Int(self.pname(b))
                fs = []
                vals = []
                for p, s, _ in live:
                    r = self.e.toint(self.e.read_arr(s.mem[b], (), p))
                    vals.append((p, r))
                rs = [r for _, r in vals]
                f = self.classify(hv, rs[0], self.s0(b, 'int', ()))
                if f and all(const(simp(r - rs[0])) == 0 for r in rs):
                    self.add_int(b, f)
                    got = True
                    continue
                pre = [self.pname(x) for x in self.mod if x not in self.forms]
                alike = all(const(simp(r - rs[0])) == 0 for r in rs)      # the branches taken do not matter
                if not any(mentions(r, pre) for r in rs) and (alike or not any(mentions(c, pre) for p, _ in vals for c in p.decs)):
                    m = simp(rs[0]) if alike else self.merge([(p, r) for p, r in vals])
                    if m is not None:
                        x0 = self.s0(b, 'int', ())
                        v = z3.If(self.k == 0, x0, z3.substitute(m, (self.k, self.k - 1)))
                        self.forms[b] = Form('int', 'overwrite', [], self.k, simp(v))
                        got = True
                        continue
                if self.max_form(b, hv, vals, pre) or self.bool_form(b, hv, vals, pre):
                    got = True
                    continue
            if kind == 'ptr' and self.dim(b, live) > 0:
                # cells that own the region named after them
                xs = [fresh_int('x') for _ in range(self.dim(b, live))]
                own = E.Ptr(b + '[]', xs)
                if repr(self.s0(b, 'ptr', xs)) == repr(own):
                    self.forms[b] = Form('ptr', 'own regions', xs, self.k, own)
                    got = True
                continue
            if kind == 'ptr' and self.dim(b, live) == 0:
                vals = [(p, self.e.read_arr(s.mem[b], (), p)) for p, s, _ in live]
                v = vals[0][1]
                if isinstance(v, E.Ptr) and all(isinstance(w, E.Ptr) and w.base == v.base and
                                                all(simp(x - y).eq(IV(0)) for x, y in zip(w.idx + (w.off,), v.idx + (v.off,)))
                                                for _, w in vals):
                    pre = [self.pname(x) for x in self.mod if x not in self.forms]
                    if v.base == self.pname(b) + '[]' and not v.idx:
                        c = const(v.off)
                        if c is not None:      # p += c
                            x0 = self.s0(b, 'ptr', ())
                            if isinstance(x0, E.Ptr):
                                self.forms[b] = Form('ptr', 'advance', [], self.k,
                                                     E.Ptr(x0.base, x0.idx, simp(x0.off + c * self.k)))
                                got = True
                        continue
                    if any(v.base.startswith(x) for x in pre) or any(mentions(i, pre) for i in v.idx + (v.off,)):
                        continue
                    x0 = self.s0(b, 'ptr', ())
                    v1 = ptr_subst(v, [(self.k, self.k - 1)])
                    self.forms[b] = Form('ptr', 'overwrite', [], self.k, E.PIte(self.k == 0, x0, v1))
                    got = True
        return got

    def max_form(self, b, hv, vals, pre):
        """running maximum: m = max(m, v(k)), v free of loop-carried values"""
        def leaves(r):
            if not mentions(r, pre):
                return [r]
            return leaves(r.arg(1)) + leaves(r.arg(2)) if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ITE else [r]
        new = []
        vals = [(p, resolve_int(p.ctx, simp(r))) for p, r in vals]
        for p, r in vals:
            ls = {}
            for x in leaves(r):
                if const(simp(x - hv)) == 0:
                    continue
                if mentions(x, pre):
                    return False
                ls[simp(x).get_id()] = simp(x)
            if len(ls) > 1:
                x = resolve_int(p.ctx, simp(z3.substitute(r, (hv, IV(-10 ** 9)))))     # max(-oo, v) = v
                if mentions(x, pre):
                    return False
                ls = {0: x}
            new += [(p, x) for x in ls.values()]
        if not new:
            return False
        free = lambda p: [c for c in p.decs if not mentions(c, pre)]
        v = new[-1][1]
        for p, r in reversed(new[:-1]):
            v = simp(z3.If(z3.And(free(p)), r, v)) if free(p) and const(simp(r - v)) != 0 else v
        if not all(p.ctx.implies(r == z3.If(v >= hv, v, hv)) for p, r in vals):
            return False
        if not occurs(self.k, v):
            x0 = self.s0(b, 'int', ())
            self.forms[b] = Form('int', 'maximum with a fixed value', [], self.k, z3.If(z3.Or(self.k == 0, v <= x0), x0, v))
            return True
        if self.path.counters:
            return False
        x0 = self.s0(b, 'int', ())
        name = 'max%d!%s' % (self.uid, b)
        mx = z3.Function(name, z3.IntSort(), z3.IntSort())
        k = self.k
        top = None
        for c in (20, 24, 28, 30):
            if self.path.ctx.implies(x0 <= c) and all(p.ctx.implies(v <= c) for p, _ in vals):
                top = c
                break

        def ax(a, t):
            j = a[0]
            w = lambda i: z3.substitute(v, (k, i))
            return [z3.Implies(j == 0, t == x0), t >= x0, z3.Implies(j >= 1, z3.And(t >= w(simp(j - 1)), t >= w(IV(0))))] + ([t <= top] if top is not None else [])
        terms_.UF_AX[name] = ax
        f = Form('int', 'maximum', [], k, mx(k))
        f.step = z3.And(z3.Implies(v >= mx(k), mx(k + 1) == v), z3.Implies(v < mx(k), mx(k + 1) == mx(k)))
        f.inst = lambda K, i: mx(K) >= z3.substitute(v, (k, i))
        self.forms[b] = f
        return True

    def bool_form(self, b, hv, vals, pre):
        """running conjunction (absorbing value 0) or disjunction (absorbing value 1) of v(k), v free of loop-carried values"""
        if self.path.counters or not self.path.ctx.implies(z3.And(self.s0(b, 'int', ()) >= 0, self.s0(b, 'int', ()) <= 1)):
            return False
        m = simp(vals[0][1]) if all(const(simp(r - vals[0][1])) == 0 for _, r in vals) else self.merge(vals)
        if m is None:
            return False
        for a in (0, 1):
            v = simp(z3.substitute(m, (hv, IV(1 - a))))
            if mentions(v, pre) or not all(p.ctx.implies(z3.And(v >= 0, v <= 1)) and p.ctx.with_(hv >= 0, hv <= 1).implies(r == z3.If(hv == a, IV(a), v)) for p, r in vals):
                continue
            x0 = self.s0(b, 'int', ())
            if all(p.ctx.implies(v == 1 - a) for p, _ in vals):
                self.forms[b] = Form('int', 'unchanged', [], self.k, x0)
                return True
            name = 'conj%d!%s' % (self.uid, b)
            cj = z3.Function(name, z3.IntSort(), z3.IntSort())
            k = self.k
            w = lambda i: z3.substitute(v, (k, i))
            terms_.UF_AX[name] = lambda ar, t: [t >= 0, t <= 1, z3.Implies(ar[0] == 0, t == x0),
                                                z3.Implies(z3.And(ar[0] >= 1, t != a), z3.And(x0 != a, w(simp(ar[0] - 1)) != a, w(IV(0)) != a))]
            f = Form('int', 'running conjunction' if a == 0 else 'running disjunction', [], k, cj(k))
            f.step = cj(k + 1) == z3.If(cj(k) == a, IV(a), v)
            f.inst = lambda K, i: z3.Implies(cj(K) != a, z3.And(cj(i) != a, w(i) != a))
            self.forms[b] = f
            return True
        return False

    def dim(self, b, live):
        if b in self.dims:
            return self.dims[b]
        base = b
        if '[]' not in b.replace('#size', ''):
            self.dims[b] = 0
            return 0
        # count index positions: probe the widest index used anywhere
        for p, s, _ in live:
            a = s.mem.get(b)
            if a is not None and getattr(a, 'nd', None) is not None:
                self.dims[b] = a.nd
                return a.nd
        a = self.st.mem.get(b)
        if a is not None and a.writes:
            self.dims[b] = len(a.writes[-1][0])
            return self.dims[b]
        nd = self.e.ndims.get(b, self.e.ndims0.get(b))
        if nd is None:
            raise E.Unsupported('unknown dimension of ' + b)
        self.dims[b] = nd
        return nd

    def merge(self, vals):
        """[(path, value)] -> single conditional value, or None"""
        groups = []
        for p, v in vals:
            key = tuple(c.get_id() for c in p.decs)
            nf = [f for f in p.facts[self.nf0:] if isinstance(f[0], Poly)]
            for g in groups:
                if g[0] == key:
                    if not self.same(p, g[2], v):
                        return None
                    break
            else:
                groups.append((key, p, v))
        # paths that differ in field facts only must agree (handled above); if decisions of one
        # path are a prefix of another the field facts matter
        out = groups[-1][2]
        for key, p, v in reversed(groups[:-1]):
            c = simp(z3.And(p.decs)) if p.decs else z3.BoolVal(True)
            if isinstance(v, Poly):
                out = ite(c, v, out)
            else:
                out = simp(z3.If(c, v, out))
        return out

    def same(self, p, a, b):
        if isinstance(a, Poly):
            d = a - b
            if d.is_zero():
                return True
            try:
                Prover.zero(p.ctx, d)
                return True
            except Fail:
                return False
        return const(simp(a - b)) == 0

    # ---------------------------------------------------------------- regions
    def regions(self, live):
        e = self.e
        todo = {}
        for b, kind in self.mod.items():
            if b in self.forms or b in self.dead:
                continue
            try:
                nd = self.dim(b, live)
            except E.Unsupported:
                continue
            xs = [fresh_int('x') for _ in range(nd)]
            if kind == 'ptr':
                continue
            vals = []
            canon = True
            for p, s, _ in live:
                v = e.read_arr(s.mem[b], tuple(xs), p)
                if kind == 'big':
                    l, hh = e.bounds_of(v, p)
                    if l < 0 or hh > P - 1:
                        canon = False
                    v = v.p
                else:
                    v = e.toint(v)
                vals.append((p, v))
            s0 = self.s0(b, kind, xs)
            todo[b] = (kind, xs, vals, s0, canon)
        progress = True
        while progress and todo:
            progress = False
            for b in list(todo):
                kind, xs, vals, s0, canon = todo[b]
                try:
                    f = self.pattern(b, kind, xs, vals, s0)
                except E.Unsupported:
                    f = None
                if f is not None:
                    if kind == 'big' and not canon:
                        f.canon = (0, 2 ** 600)
                    self.forms[b] = f
                    del todo[b]
                    progress = True
            if not progress and todo and not self.tent:
                # mutually dependent element-wise updates: propose that every read of the others
                # sees the value on entry (checked afterwards like every other candidate)
                self.tent = {b: (todo[b][1], todo[b][3]) for b in todo if todo[b][0] == 'big' and todo[b][1]}
                got = {}
                for b in list(self.tent):
                    kind, xs, vals, s0, canon = todo[b]
                    try:
                        f = self.p_map(b, xs, vals, s0)
                    except E.Unsupported:
                        f = None
                    if f is not None:
                        if not canon:
                            f.canon = (0, 2 ** 600)
                        got[b] = f
                self.tent = {}
                for b, f in got.items():
                    self.forms[b] = f
                    del todo[b]
                    progress = True
        self.unresolved = set(todo)

    def pattern(self, b, kind, xs, vals, s0):
        if kind == 'big':
            for f in (self.p_overwrite, self.p_add, self.p_mul, self.p_map, self.p_add_any, self.p_eq, self.p_fold):
                r = f(b, xs, vals, s0)
                if r is not None:
                    return r
            return None
        return self.p_imap(b, xs, vals, s0)

    def ctx0(self):
        return self.live_ctx.copy()

    @property
    def live_ctx(self):
        c = getattr(self, '_lc', None)
        if c is None:
            bp = self.base_path()
            h = self.head(self.k)
            if self.cond:
                self.e.quiet += 1
                try:
                    v = self.e.rval(self.cond, self.fr, h, bp)
                finally:
                    self.e.quiet -= 1
                if not isinstance(v, (bool, E.FCond, E.Opaque)):
                    bp.ctx.add(v if z3.is_bool(v) else v != 0)
            c = self._lc = bp.ctx
        return c

    def subst_pre(self, p, k, own=None, ownfn=None):
        """replace pre-state cells by closed forms at k; None if some region is unresolved"""
        bad = []
        names = {self.pname(b): b for b in self.mod}

        def fn(a):
            b = names.get(a.d[0])
            if b is None:
                if a.d[0].startswith('P%d!' % self.uid):
                    bad.append(a.d[0])
                return None
            if b == own:
                return ownfn(list(a.d[1]))
            f = self.forms.get(b)
            if f is None and b in self.tent:
                ys, v = self.tent[b]
                return psubst(v, list(zip(ys, a.d[1])))
            if f is None:
                bad.append(b)
                return None
            return f.at(k, a.d[1])
        r = map_sel(p, fn)
        if bad:
            return None
        if self.int_pre(r):
            return None
        return r

    def int_pre(self, p, seen=None):
        """does p mention an unresolved integer pre-state?"""
        names = [self.pname(b) for b, k in self.mod.items() if k == 'int' and b not in self.forms]
        if not names:
            return False

        def rec(q):
            for i in q.atoms():
                es, ps = aexprs(Atom.byid[i])
                if any(mentions(x, names) for x in es):
                    return True
                if any(rec(y) for y in ps):
                    return True
            return False
        return rec(p)

    def has_pre(self, p, b):
        return self.pname(b) in sel_names(p)

    # value independent of its own previous value (scalars)
    def p_overwrite(self, b, xs, vals, s0):
        if xs or any(self.has_pre(v, b) for _, v in vals):
            return None
        m = self.merge(vals)
        if m is None:
            return None
        m = self.subst_pre(m, self.k)
        if m is None:
            return None
        if any('k!' in '' for _ in ()):
            return None
        v = ite(self.k == 0, s0, psubst(m, [(self.k, simp(self.k - 1))]))
        return Form('big', 'overwrite', xs, self.k, v)

    def delta(self, ctx, v, prex, depth=0):
        if depth < 30 and len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1 and Atom.byid[m[0]].kind == 'ite':
                cd, t, f = Atom.byid[m[0]].d
                ct, cf = ctx.with_(cd), ctx.with_(z3.Not(cd))
                if not ct.feasible():
                    return self.delta(cf, f, prex, depth + 1)
                if not cf.feasible():
                    return self.delta(ct, t, prex, depth + 1)
                return ite(cd, self.delta(ct, t, prex, depth + 1), self.delta(cf, f, prex, depth + 1))
        return Prover.norm(ctx, v - prex)

    def p_add_any(self, b, xs, vals, s0):
        return self.p_add(b, xs, vals, s0, False)

    def p_add(self, b, xs, vals, s0, strict=True):
        prex = sel(self.pname(b), xs)
        pid = list(prex.t)[0][0]
        ds = []
        for p, v in vals:
            d = self.delta(p.ctx, v, prex)
            if self.atom_in(d, pid) or (strict and self.has_pre(d, b)):
                return None
            ds.append((p, d))
        m = self.merge(ds)
        if m is None:
            return None
        m = self.subst_pre(m, self.k, b, lambda idx: psubst(s0, list(zip(xs, idx))))
        if m is None:
            return None
        m = resolve(self.ctx0(), m)
        t = fresh_int('t')
        v = s0 + mksum(t, IV(0), self.k, psubst(m, [(self.k, t)]))
        return Form('big', 'additive', xs, self.k, v)

    def atom_in(self, p, pid):
        for i in p.atoms():
            if i == pid:
                return True
            for q in aexprs(Atom.byid[i])[1]:
                if self.atom_in(q, pid):
                    return True
        return False

    def p_mul(self, b, xs, vals, s0):
        if xs:
            return None
        prex = sel(self.pname(b), xs)
        pid = list(prex.t)[0][0]
        fs = []
        for p, v in vals:
            v = resolve(p.ctx, v)
            q = {}
            for m, c in v.t.items():
                if m.count(pid) != 1:
                    return None
                ml = list(m)
                ml.remove(pid)
                q[tuple(ml)] = c
            q = Poly(q)
            if self.atom_in(q, pid):
                return None
            fs.append((p, q))
        m = self.merge(fs)
        if m is None:
            return None
        m = self.subst_pre(m, self.k)
        if m is None:
            return None
        t = fresh_int('t')
        return Form('big', 'multiplicative', xs, self.k, s0 * mkprod(t, IV(0), self.k, psubst(m, [(self.k, t)])))

    def prefix(self, xs, m):
        """equalities fixing the leading indices of the written cells"""
        if len(xs) <= 1:
            return []
        eqs = []
        scan_eqs(m, eqs)
        out = []
        for d in range(len(xs) - 1):
            hit = None
            for q in eqs:
                ex = simp(q.arg(0) - q.arg(1))
                af = affine(ex, xs[d])
                if af and af[0] in (1, -1):
                    val = simp(-af[1]) if af[0] == 1 else af[1]
                    if occurs(self.k, val) or any(occurs(x, val) for x in xs):
                        continue
                    hit = val
                    break
            if hit is None:
                return None
            out.append((xs[d], hit))
        return out

    def p_eq(self, b, xs, vals, s0):
        if not xs:
            return None
        m = self.merge(vals)
        if m is None:
            return None
        pre = self.prefix(xs, m)
        if pre is None:
            return None
        y = xs[-1]
        M = pow2(self.k)
        ctx = self.ctx0()
        for v, val in pre:
            ctx.add(v == val)
        px = [val for _, val in pre]
        if pre:
            m = psubst(m, pre)
        c1 = ctx.with_(y >= 0, y < M)
        A = self.linear(Prover.norm(c1, resolve(c1, m)), [sel(self.pname(b), px + [y])], c1)
        if A is None or A[0].is_zero():
            return None
        c2 = ctx.with_(y >= M, y < 2 * M)
        B = self.linear(Prover.norm(c2, resolve(c2, m)), [sel(self.pname(b), px + [simp(y - M)])], c2)
        if B is None:
            return None
        A, B = A[0], B[0]
        if any(poccurs(y, q) for q in (A, B)):
            return None
        A, B = self.subst_pre(A, self.k), self.subst_pre(B, self.k)
        if A is None or B is None or self.has_pre(A, b) or self.has_pre(B, b):
            return None
        t = fresh_int('t')
        A, B = psubst(A, [(self.k, t)]), psubst(B, [(self.k, t)])
        zero = psubst(s0, pre + [(y, IV(0))])
        cond = z3.And([v == val for v, val in pre] + [y >= 0, y < pow2(self.k)])
        v = ite(cond, zero * mkeq(t, A, B, self.k, y), s0)
        return Form('big', 'eq-doubling', xs, self.k, v)

    def linear(self, p, ats, ctx):
        """coefficients of p with respect to the given cells; None if there is a rest"""
        ids = []
        p0 = p
        for a in ats:
            aid = list(a.t)[0][0]
            # identify the representative used in p
            rep = None
            for i in p.atoms():
                if i == aid or (Atom.byid[i].kind == 'sel' and Prover.ext_eq(ctx, Atom.byid[i], Atom.byid[aid])):
                    rep = i
                    break
            ids.append(rep)
        out = [dict() for _ in ats]
        for m, c in p.t.items():
            hit = [j for j, i in enumerate(ids) if i is not None and i in m]
            if len(hit) != 1 or m.count(ids[hit[0]]) != 1:
                return None
            ml = list(m)
            ml.remove(ids[hit[0]])
            out[hit[0]][tuple(ml)] = c
        return [Poly(o) for o in out]

    def p_fold(self, b, xs, vals, s0):
        if not xs:
            return None
        m = self.merge(vals)
        if m is None:
            return None
        pre = self.prefix(xs, m)
        if pre is None:
            return None
        y = xs[-1]
        ctx = self.ctx0()
        for v, val in pre:
            ctx.add(v == val)
        px = [val for _, val in pre]
        if pre:
            m = psubst(m, pre)
        ctx.add(y >= 0)
        m = resolve(ctx, m)
        if len(m.t) != 1:
            return None
        (mono, c), = m.t.items()
        if c != 1 or len(mono) != 1 or Atom.byid[mono[0]].kind != 'ite':
            return None
        cd, T, F = Atom.byid[mono[0]].d
        c1 = ctx.with_(cd)
        T = Prover.norm(c1, resolve(c1, T))
        co = self.linear(T, [sel(self.pname(b), px + [simp(2 * y)]), sel(self.pname(b), px + [simp(2 * y + 1)])], c1)
        if co is None:
            return None
        A, B = co
        if any(poccurs(y, q) for q in (A, B)):
            return None
        A, B = self.subst_pre(A, self.k), self.subst_pre(B, self.k)
        if A is None or B is None or self.has_pre(A, b) or self.has_pre(B, b):
            return None
        t = fresh_int('t')
        A, B = psubst(A, [(self.k, t)]), psubst(B, [(self.k, t)])
        km = simp(self.k - 1)
        win = z3.Or(self.k == 0, z3.substitute(cd, (self.k, km)))
        stale = sel('stale%d!%s' % (self.uid, b), [self.k] + list(xs))
        xv = fresh_int('x')
        init = psubst(s0, pre + [(y, xv)])
        v = ite(win, mkfold(xv, init, t, A, B, self.k, y), stale)
        f = Form('big', 'fold', xs, self.k, v)
        if pre:
            f.val = ite(z3.And([vv == val for vv, val in pre]), v, s0)
        f.partial = (win, pre)
        return f

    def windows(self, xs, m):
        eqs = []
        if isinstance(m, Poly):
            scan_eqs(m, eqs)
        else:
            scan_eqs_z3(m, eqs)
        cands = {}
        for q in eqs:
            ex = simp(q.arg(0) - q.arg(1))
            for d, x in enumerate(xs):
                af = affine(ex, x)
                if not af or af[0] not in (1, -1):
                    continue
                val = simp(-af[1]) if af[0] == 1 else af[1]
                if any(occurs(z, val) for z in xs):
                    continue
                ak = affine(val, self.k)
                if not ak or ak[0] not in (1, -1):
                    continue
                key = (ak[0], simp(ak[1]).get_id())
                cands.setdefault(d, {})[key] = (ak[0], simp(ak[1]))
        return {d: list(v.values()) for d, v in cands.items()}

    def p_map(self, b, xs, vals, s0):
        if not xs:
            return None
        m = self.merge(vals)
        if m is None:
            return None
        ctx = self.ctx0()
        prex = sel(self.pname(b), xs)
        for d, wins in self.windows(xs, m).items():
            ws = self.map_ok(ctx, m, prex, xs[d], wins)
            if ws is None:
                continue
            fixed = self.fixed_dims(ctx, m, prex, xs, d)
            return self.map_form(b, xs, d, ws, m, s0, ctx, fixed)
        return None

    def fixed_dims(self, ctx, m, prex, xs, d):
        """other index positions that are the same for every written cell"""
        eqs = []
        scan_eqs(m, eqs)
        out = {}
        for dd, x in enumerate(xs):
            if dd == d:
                continue
            for q in eqs:
                af = affine(simp(q.arg(0) - q.arg(1)), x)
                if not af or af[0] not in (1, -1):
                    continue
                val = simp(-af[1]) if af[0] == 1 else af[1]
                if occurs(self.k, val) or any(occurs(z, val) for z in xs):
                    continue
                try:
                    Prover.zero(ctx.with_(x != val), m - prex)
                    out[dd] = val
                    break
                except Fail:
                    continue
        return out

    def map_ok(self, ctx, m, prex, x, wins):
        cands = [[w] for w in wins] + ([wins] if len(wins) > 1 else [])
        for ws in cands:
            c = ctx.with_(*[x != a * self.k + cc for a, cc in ws])
            try:
                Prover.zero(c, m - prex)
                return ws
            except Fail:
                continue
        return None

    def map_form(self, b, xs, d, ws, m, s0, ctx, fixed={}):
        x = xs[d]

        def tof(a, c, xx):
            return simp((xx - c) * a)

        def inwin(a, c, y, t):
            q = tof(a, c, y[d])
            return z3.And([q >= 0, q < t] + [y[dd] == val for dd, val in fixed.items()])

        def written(y, t):
            return z3.Or([inwin(a, c, y, t) for a, c in ws])
        used = []
        # the family is indexed by the enclosing loops' counters and the cell
        par = tuple(self.path.counters)
        ph = self.e.rec_ph.setdefault((self.node['id'], b), RecDef('SELF!' + b, None))
        ph.pos = len(par) + d
        rows = []
        for a, c in ws:
            t = tof(a, c, x)
            ck = ctx.copy()
            ck.add(x == a * self.k + c)
            for dd, val in fixed.items():
                ck.add(xs[dd] == val)

            def own(idx, ck=ck):
                w = simp(written(idx, self.k))
                if z3.is_false(w) or ck.implies(z3.Not(w)):
                    return psubst(s0, list(zip(xs, idx)))
                # maybe inside a binder: cannot decide here
                used.append(1)
                nw = ck.with_(z3.Not(w))
                return ite(w, mkrec(ph, par + tuple(idx)), resolve(nw, psubst(s0, list(zip(xs, idx)))))
            mm = resolve(ck, m)
            r = self.subst_pre(mm, self.k, b, own)
            if r is None:
                return None
            if used and par:
                r = deep(ck, r)
            r = psubst(r, [(self.k, t)])
            rows.append((a, c, r))

        if used:
            if len(rows) > 1:
                return None
            a, c, r = rows[0]
            cv = [z3.Int('rx!%d' % i) for i in range(len(par) + len(xs))]
            body = psubst(r, list(zip(par + tuple(xs), cv)))
            key = (self.node['id'], b, tuple(sorted(body.t.items())))
            rd = self.e.recs.get(key)
            if rd is None:      # families with the same defining equation are the same
                rd = self.e.recs[key] = RecDef('REC%d!%s' % (self.uid, b), None)
                rd.pos = ph.pos
                full = map_rec(body, ph, rd)
                rd.unfold = lambda cx, idx: psubst(full, list(zip(cv, idx)))
            val = ite(inwin(a, c, xs, self.k), mkrec(rd, par + tuple(xs)), s0)
            return Form('big', 'recursive map', xs, self.k, val)
        val = s0
        for a, c, r in reversed(rows):
            val = ite(inwin(a, c, xs, self.k), r, val)
        return Form('big', 'map', xs, self.k, val)

    def p_imap(self, b, xs, vals, s0):
        """integer arrays: only the element-wise pattern"""
        if not xs:
            return None
        m = self.merge(vals)
        if m is None:
            return None
        pn = self.pname(b)
        ctx = self.ctx0()
        prex = z3.Function(pn, *([z3.IntSort()] * (len(xs) + 1)))(*xs)
        for d, wins in self.windows(xs, m).items():
            for ws in [[w] for w in wins]:
                a, c = ws[0]
                if not ctx.with_(xs[d] != a * self.k + c).implies(m == prex):
                    continue
                t = simp((xs[d] - c) * a)
                ck = ctx.with_(xs[d] == a * self.k + c)
                names = {self.pname(q): q for q, kd in self.mod.items() if kd == 'int'}

                def fn(name, args):
                    q = names[name]
                    if q == b:
                        # own cells: only not-yet-written ones
                        w = (args[d] - c) * a
                        if ck.implies(z3.Not(z3.And(w >= 0, w < self.k))):
                            return simp(z3.substitute(s0, *zip(xs, args)))
                        return None
                    f = self.forms.get(q)
                    return f.at(self.k, args) if f else None
                r = z3_map_uf(m, set(names), fn)
                r = simp(z3.substitute(r, (self.k, t)))
                v = z3.If(z3.And(t >= 0, t < self.k), r, s0)
                return Form('int', 'map', xs, self.k, simp(v))
        return None

    # ---------------------------------------------------------------- checking
    def houdini(self):
        e = self.e
        for _ in range(20):
            e.quiet += 1
            try:
                h, runs = self.exec()
                ch = self.changed(h, runs)
                new = {b: k for b, k in ch.items() if b not in self.mod}
                if new:
                    self.mod.update(new)
                    continue
                bad = self.check(runs)
            finally:
                e.quiet -= 1
            if not bad:
                break
            for b in bad:
                self.forms.pop(b, None)
                self.dead.add(b)
        # the run whose obligations count
        self.h, self.runs = self.exec()
        for b, f in self.forms.items():
            e.record('loop line %s: %s[%s] init and preserve' % (e.line(self.node), f.pat, re.sub(r'~[0-9a-f]+|^f[0-9]+[.]', '', b)), True)

    def check(self, runs):
        bad = set()
        e = self.e
        why = {}
        for b, f in list(self.forms.items()):
            kind = self.mod[b]
            xs = [fresh_int('x') for _ in f.xs]
            # init
            try:
                if kind == 'big':
                    Prover.zero(self.path.ctx, f.at(IV(0), xs) - self.s0(b, 'big', xs))
                elif kind == 'int':
                    if not self.path.ctx.implies(f.at(IV(0), xs) == self.s0(b, 'int', xs)):
                        raise Fail(None, None, 'int init')
                else:
                    a = f.at(IV(0), xs)
                    if repr(a) != repr(self.s0(b, 'ptr', xs)):
                        raise Fail(None, None, 'ptr init')
            except Fail as x:
                bad.add(b)
                e.notes.append('loop line %s: init of %s fails: %s %s' % (e.line(self.node), b, x.why, str(x.poly)[:300]))
                continue
            for p, s, sig in runs:
                if sig:
                    continue
                a = s.mem.get(b)
                try:
                    v = e.read_arr(a, tuple(xs), p)
                    kn = simp(self.k + 1)
                    if kind == 'big':
                        l, hh = e.bounds_of(v, p)
                        if l < f.canon[0] or hh > f.canon[1]:
                            if f.canon[1] == P - 1:
                                f.canon = (0, 2 ** 600)
                                raise Fail(None, None, 'not canonical')
                        ctx = p.ctx
                        g = f.at(kn, xs)
                        if getattr(f, 'partial', None):
                            win, pre = f.partial
                            w = esubst(win, [(f.k, kn)] + list(zip(f.xs, xs)))
                            pc = [esubst(vv, list(zip(f.xs, xs))) == val for vv, val in pre]
                            ctx = ctx.with_(xs[-1] >= 0)
                            if pc:
                                # outside the prefix nothing changes
                                Prover.zero(ctx.with_(z3.Not(z3.And(pc))), g - v.p)
                                ctx = ctx.with_(*pc)
                            ctx = ctx.with_(w)
                        Prover.zero(ctx, g - v.p)
                    elif kind == 'int':
                        cx = p.ctx.with_(f.step) if getattr(f, 'step', None) is not None else p.ctx
                        if not cx.implies(f.at(kn, xs) == e.toint(v)):
                            raise Fail(None, None, 'int preserve: %s vs %s' % (f.at(kn, xs), v))
                    else:
                        g = f.at(kn, xs)
                        while isinstance(g, E.PIte):
                            if p.ctx.implies(g.c):
                                g = g.a
                            elif p.ctx.implies(z3.Not(g.c)):
                                g = g.b
                            else:
                                raise Fail(None, None, 'ptr')
                        if not (isinstance(v, E.Ptr) and isinstance(g, E.Ptr) and g.base == v.base and
                                all(p.ctx.eq(q, r) for q, r in zip(g.idx + (g.off,), v.idx + (v.off,)))):
                            raise Fail(None, None, 'ptr preserve %r %r' % (g, v))
                except Fail as x:
                    bad.add(b)
                    e.notes.append('loop line %s: preserve of %s (%s) fails: %s %s' % (
                        e.line(self.node), b, f.pat, x.why, str(x.poly)[:400]))
                    break
                except E.Unsupported as x:
                    bad.add(b)
                    break
        return bad

    # ---------------------------------------------------------------- after the loop
    def condition(self, k):
        p = self.path.copy()
        p.ctx.add(k >= 0)
        s = self.head(k)
        self.e.quiet += 1
        try:
            v = self.e.rval(self.cond, self.fr, s, p)
        finally:
            self.e.quiet -= 1
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, (E.FCond, E.Opaque)):
            raise E.Unsupported('loop condition')
        return simp(v if z3.is_bool(v) else v != 0)

    def solve(self):
        """number of iterations"""
        k = self.k
        if not self.cond:
            K = fresh_int('K')
            self.path.ctx.add(K >= 0)
            return K
        c = self.condition(k)
        for cand in self.candidates(c):
            # cand = number of iterations if >= 0
            ok = self.path.ctx.with_(cand >= 0)
            before = ok.with_(k >= 0, k < cand)
            if before.implies(c) and ok.implies(z3.Not(z3.substitute(c, (k, cand)))):
                if not self.path.ctx.implies(cand >= 0):
                    neg = self.path.ctx.with_(cand < 0)
                    if neg.feasible() and not neg.implies(z3.Not(z3.substitute(c, (k, IV(0))))):
                        continue
                    if not self.path.decide(cand >= 0):
                        return IV(0)
                return simp(cand)
        K = fresh_int('K')
        self.path.ctx.add(K >= 0)
        self.path.ctx.add(z3.Not(z3.substitute(c, (k, K))))
        self.path.ctx.add(z3.Or(K == 0, z3.substitute(c, (k, simp(K - 1)))))
        return K

    def candidates(self, c):
        out = []
        st = [c]
        while st:
            x = st.pop()
            if z3.is_not(x) or z3.is_and(x) or z3.is_or(x):
                st.extend(x.children())
                continue
            if z3.is_app(x) and x.num_args() == 2 and z3.is_int(x.arg(0)):
                d = simp(x.arg(0) - x.arg(1))
                a = affine(d, self.k)
                if a and a[0] in (1, -1):
                    z = simp(-a[1]) if a[0] == 1 else a[1]   # root
                    out += [z, simp(z + 1), simp(z - 1)]
            # x halved until it vanishes
            todo = [x]
            while todo:
                y = todo.pop()
                todo.extend(y.children())
                if z3.is_app(y) and y.decl().name() == 'shr' and y.num_args() == 2:
                    ps, seen = [y.arg(0)], []
                    while ps:
                        w = ps.pop()
                        ps.extend(w.children())
                        if z3.is_app(w) and w.decl().name() == 'pow2':
                            seen += [w.arg(0), simp(w.arg(0) + 1)]
                    out += seen
        return out

    def instances(self, exits, live, K):
        """facts known of every iteration below K of an outermost loop"""
        if self.path.counters:
            return []
        out = [(K, f.inst) for f in self.forms.values() if getattr(f, 'inst', None)]
        if exits:       # the loop went on: one of the branches that do not leave it was taken
            pre = [self.pname(x) for x in self.mod if x not in self.forms]
            fact = z3.Or([z3.And([c for c in p.decs if not mentions(c, pre)]) for p, _, _ in live])
            out.append((K, lambda K, i: z3.substitute(fact, (self.k, i))))
        return out

    def finish(self):
        e, st, path = self.e, self.st, self.path
        exits = [r for r in self.runs if r[2]]
        live = [r for r in self.runs if not r[2]]
        surv = []
        for p, s, sig in live:
            facts = [f for f in p.facts[self.nf0:] if isinstance(f[0], Poly)]
            nested = s.forall[s.nfor:]
            if facts or nested:
                surv.append((list(p.decs), facts, nested))
        for ex in exits:
            if path.next_choice():
                continue
            p, s, sig = ex
            path.ctx = p.ctx.copy()
            path.facts = list(p.facts)
            path.refine = dict(p.refine)
            path.seq = dict(p.seq)
            path.trace = list(p.trace)
            path.decs = path.decs + list(p.decs)
            path.insts = list(p.insts) + self.instances(exits, live, self.k)
            path.exits = getattr(path, 'exits', []) + [(self.node['id'], self.k)]
            st.mem = dict(s.mem)
            st.forall = list(s.forall)
            if surv:
                st.forall.append(('forall', self.k, self.k, surv))
            if sig[0] == 'break':
                return None
            return sig
        K = self.solve()
        h = self.head(K)
        path.insts = path.insts + self.instances(exits, live, K)
        for b, kind in self.mod.items():
            if b in self.forms:
                st.mem[b] = h.mem[b]
            else:
                nm = 'hv%d!%s' % (self.uid, b)
                e.havocs.append((e.line(self.node), b))
                st.mem[b] = e.default_arr(b, kind, nm)
        # names drawn inside the loop
        for p, s, sig in live:
            for key, v in p.seq.items():
                path.seq[key] = max(v, path.seq.get(key, 0))
        if surv:
            st.forall.append(('forall', self.k, K, surv))
        return None


def mentions(e, names):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
            return True
        st.extend(x.children())
    return False
