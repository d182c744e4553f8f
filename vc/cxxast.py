"""Front end: obtains the typed AST of the code under /repo from clang on every
run (``-ast-dump=json``) and keeps the declarations that come from the
repository itself.  Nothing is rewritten: the executor walks these nodes.

What extraction drops: declarations located outside /repo (standard library,
gmp); their uses are recognised by name in the executor."""
import json, os, re, subprocess, sys, tempfile, time

REPO = os.environ.get('LIBRA_REPO', '/repo')
CLANG = 'clang++'
FLAGS = ['-std=c++11', '-march=native', '-I' + REPO + '/include', '-fsyntax-only',
         '-Wno-everything']


class ExtractError(Exception):
    pass


def _chunks(path):
    """yield (file_of_decl, text) of every top-level declaration"""
    cur, depth_file, start_file = [], None, None
    last_file = None
    inside = False
    filere = re.compile(r'^\s*"file": "(.*)"')
    with open(path, encoding='utf-8', errors='replace') as f:
        keep = None
        prev = ''
        for line in f:
            prevline, prev = prev, line
            if not inside:
                if line.startswith('    {') and line.rstrip() == '    {':
                    inside, cur, keep, start_file = True, [line], None, last_file
                continue
            if line.startswith('    }') and line.rstrip() in ('    }', '    },'):
                inside = False
                if keep:
                    cur.append('    }')
                    yield start_file, ''.join(cur)
                continue
            if '"file": "' in line and '"includedFrom"' not in prevline:
                m = filere.match(line)
                if m:
                    last_file = m.group(1)
                    if keep is None:
                        start_file = last_file
            if keep is None:
                # decide once the "range" of the decl begins
                if line.startswith('      "range"'):
                    keep = bool(start_file and start_file.startswith(REPO + '/'))
                    if not keep:
                        cur = []
                else:
                    cur.append(line)
                    continue
            if keep:
                cur.append(line)


class Program:
    def _walk(self, d, scope):
        k = d.get('kind')
        i = d.get('id')
        if i:
            self.byid[i] = d
        name = d.get('name', '')
        if k == 'NamespaceDecl':
            for c in d.get('inner', []):
                self._walk(c, scope + [name])
            return
        if k == 'LinkageSpecDecl':
            for c in d.get('inner', []):
                self._walk(c, scope)
            return
        if k == 'CXXRecordDecl':
            q = '::'.join(scope + [name])
            if d.get('completeDefinition') or q not in self.records:
                if d.get('completeDefinition'):
                    self.records[q] = d
            for c in d.get('inner', []):
                if c.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl',
                                     'CXXRecordDecl', 'VarDecl', 'EnumDecl'):
                    if c.get('kind') == 'CXXRecordDecl' and c.get('isImplicit'):
                        continue
                    self._walk(c, scope + [name])
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl',
                 'CXXConversionDecl'):
            par = d.get('parentDeclContextId')
            if par and par in self.qual:
                q = self.qual[par] + '::' + name
            else:
                q = '::'.join(scope + [name])
            self.qual[i] = q
            d['_q'] = q
            if d.get('isImplicit'):
                d['_implicit'] = True
            for c in d.get('inner', []):
                if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                    self.funcs.setdefault(q, []).append(d)
                    break
            return
        if k == 'VarDecl':
            q = '::'.join(scope + [name])
            self.qual[i] = q
            if q not in self.globals or 'init' in d:
                self.globals[q] = d
            return
        if k == 'FunctionTemplateDecl':
            for c in d.get('inner', []):
                if c.get('kind') == 'FunctionDecl':
                    self._walk(c, scope)
            return

    def fn(self, q, nparams=None, contains=None):
        lst = self.funcs.get(q, [])
        out = []
        for f in lst:
            ps = [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            if nparams is not None and len(ps) != nparams:
                continue
            if contains is not None and contains not in f['type']['qualType']:
                continue
            out.append(f)
        if len(out) != 1:
            raise ExtractError('function %s: %d candidates in %s' % (q, len(out), self.tu))
        return out[0]


_cache = {}


def load(src, extra_flags=()):
    """src: path relative to /repo"""
    key = (src, tuple(extra_flags))
    if key in _cache:
        return _cache[key]
    full = os.path.join(REPO, src)
    if not os.path.exists(full):
        raise ExtractError('missing source file ' + src)
    t = time.time()
    with tempfile.NamedTemporaryFile(prefix='libra_ast_', suffix='.json', delete=False) as tf:
        out = tf.name
    try:
        r = subprocess.run([CLANG] + FLAGS + list(extra_flags) +
                           ['-Xclang', '-ast-dump=json', full],
                           stdout=open(out, 'wb'), stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise ExtractError('clang rejected %s: %s' % (src, r.stderr.decode()[-2000:]))
        decls = []
        for fname, text in _chunks(out):
            decls.append(json.loads(text))
    finally:
        os.unlink(out)
    # two passes so that parentDeclContextId (class id) is known
    prog = Program.__new__(Program)
    quals = {}

    def recq(d, scope):
        if d.get('kind') == 'NamespaceDecl':
            for c in d.get('inner', []):
                recq(c, scope + [d.get('name', '')])
        elif d.get('kind') == 'CXXRecordDecl':
            quals[d['id']] = '::'.join(scope + [d.get('name', '')])
            for c in d.get('inner', []):
                if c.get('kind') == 'CXXRecordDecl' and not c.get('isImplicit'):
                    recq(c, scope + [d.get('name', '')])
    for d in decls:
        recq(d, [])
    prog.funcs, prog.records, prog.globals = {}, {}, {}
    prog.byid, prog.bodyof, prog.qual = {}, {}, dict(quals)
    prog.tu = src
    for d in decls:
        prog._walk(d, [])
    prog.__init2__()
    prog.time = time.time() - t
    _cache[key] = prog
    return prog


def _init2(self):
    for q, lst in self.funcs.items():
        for fn in lst:
            self.bodyof[fn['id']] = fn
            if 'previousDecl' in fn:
                self.bodyof[fn['previousDecl']] = fn
    sig = {}
    for q, lst in self.funcs.items():
        for fn in lst:
            sig[(q, fn['type']['qualType'])] = fn
    for i, d in self.byid.items():
        if i not in self.bodyof and i in self.qual:
            fn = sig.get((self.qual[i], d.get('type', {}).get('qualType')))
            if fn:
                self.bodyof[i] = fn


Program.__init2__ = _init2

if __name__ == '__main__':
    for s in sys.argv[1:]:
        p = load(s)
        print(s, '%.1fs' % p.time)
        for q in sorted(p.funcs):
            print('  ', q, [f['type']['qualType'] for f in p.funcs[q]])
        print('  records', list(p.records))
        print('  globals', list(p.globals))
