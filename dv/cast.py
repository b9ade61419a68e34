"""Extraction: clang JSON AST of /repo's current headers -> table of instantiated functions.

Nothing is rewritten: the executor interprets the AST clang produced for the real source."""
import json, os, re, subprocess, tempfile, hashlib, sys

REPO = os.environ.get('VP_REPO', '/repo')

class ExtractError(Exception):
    pass

def include_dir(scratch):
    inc = os.path.join(scratch, 'inc')
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, 'bezman')
    if not os.path.islink(link):
        os.symlink(REPO, link)
    return inc

def load_tu(tu, scratch, defines=()):
    inc = include_dir(scratch)
    out = os.path.join(scratch, os.path.basename(tu) + hashlib.md5(repr(defines).encode()).hexdigest()[:6] + '.json')
    cmd = [next((c for c in ('/usr/bin/clang++-18', '/usr/bin/clang++') if os.path.exists(c)), 'clang++'), '-std=c++17', '-I' + inc, '-fsyntax-only', '-w'] + ['-D' + d for d in defines] + \
          ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=bezman', tu]
    with open(out, 'w') as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True, timeout=300)
    if r.returncode != 0:
        raise ExtractError('clang failed: ' + r.stderr[-1500:])
    s = open(out).read()
    os.unlink(out)
    dec = json.JSONDecoder(); i = 0; tops = []
    n = len(s)
    while True:
        while i < n and s[i].isspace(): i += 1
        if i >= n: break
        o, i = dec.raw_decode(s, i)
        tops.append(o)
    return tops

class Fn:
    __slots__ = ('id', 'name', 'qual', 'rec', 'node', 'params', 'body', 'inits', 'kind', 'type', 'targs', 'static', 'const', 'defaulted', 'lam', 'exc')
    def __repr__(self): return f'<Fn {self.qual} {self.type}>'

class Rec:
    __slots__ = ('id', 'name', 'qual', 'targs', 'fields', 'bases', 'node', 'statics', 'aliases')

def qt(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''

def templ_args(node):
    out = []
    for c in node.get('inner', ()):
        if c.get('kind') == 'TemplateArgument':
            if 'value' in c: out.append(str(c['value']))
            elif 'type' in c: out.append(c['type'].get('desugaredQualType') or c['type']['qualType'])
            elif c.get('isPack') or c.get('inner'):
                out.append([ (x.get('type', {}).get('qualType') if 'type' in x else str(x.get('value'))) for x in c.get('inner', ())])
            else: out.append('?')
    return out

def norm(s):
    return ' '.join(s.replace('bezman::', '').replace('utils::', '').replace('std::size_t', 'unsigned long')
                    .replace('std::', '').replace('size_t', 'unsigned long').split())

class Program:
    def __init__(self):
        self.fns = {}        # decl id -> Fn
        self.recs = {}       # decl id -> Rec
        self.recs_by_name = {}
        self.vars = {}       # decl id -> VarDecl (static members, globals)
        self.enums = {}
        self.prev = {}       # decl id -> previous decl id
        self.aliases = {}

    def add(self, tops):
        for t in tops:
            self._walk(t, ['bezman'] if False else [], None, None)
        return self

    def _walk(self, n, path, rec, targs):
        k = n.get('kind')
        name = n.get('name', '')
        if k in ('NamespaceDecl',):
            for c in n.get('inner', ()):
                self._walk(c, path + [name], rec, None)
            return
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            for c in n.get('inner', ()):
                # instantiations are complete decls among the inner nodes; the pattern is walked too
                self._walk(c, path, rec, None)
            return
        if k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl', 'ClassTemplatePartialSpecializationDecl'):
            r = Rec(); r.id = n['id']; r.name = name; r.qual = '::'.join(path + [name])
            r.targs = templ_args(n) if k == 'ClassTemplateSpecializationDecl' else []
            r.fields = []; r.node = n; r.statics = {}; r.aliases = {}
            r.bases = [ (b['type'].get('desugaredQualType') or b['type']['qualType']) for b in n.get('bases', ())]
            for c in n.get('inner', ()):
                if c.get('kind') in ('TypeAliasDecl', 'TypedefDecl'): r.aliases[c.get('name', '')] = qt(c)
                if c.get('kind') == 'FieldDecl':
                    r.fields.append((c.get('name', ''), qt(c), c['id'], c))
            if n.get('completeDefinition') or r.fields or r.targs:
                self.recs[r.id] = r
                key = rec_name(r)
                if key not in self.recs_by_name or n.get('completeDefinition'):
                    self.recs_by_name[key] = r
            for c in n.get('inner', ()):
                self._walk(c, path + [name], r, None)
            return
        if k in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            f = Fn(); f.id = n['id']; f.name = name; f.qual = '::'.join(path + [name]); f.rec = rec
            f.node = n; f.kind = k; f.type = (n.get('type') or {}).get('qualType', '')
            f.params = [c for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
            f.inits = [c for c in n.get('inner', ()) if c.get('kind') == 'CXXCtorInitializer']
            b = [c for c in n.get('inner', ()) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
            f.body = b[-1] if b else None
            f.targs = templ_args(n)
            f.static = n.get('storageClass') == 'static'
            f.defaulted = bool(n.get('explicitlyDefaulted')) or bool(n.get('isImplicit'))
            f.const = f.type.rstrip().endswith('const') or ' const ' in f.type.split(')')[-1]
            f.lam = None; f.exc = None
            old = self.fns.get(f.id)
            if old is None or (old.body is None and f.body is not None):
                self.fns[f.id] = f
            if n.get('previousDecl'):
                self.prev[n['id']] = n['previousDecl']
                if f.body is not None:
                    p = n['previousDecl']
                    while p is not None:
                        if p in self.fns and self.fns[p].body is None:
                            self.fns[p].node = n; self.fns[p].body = f.body; self.fns[p].params = f.params; self.fns[p].inits = f.inits
                            if self.fns[p].rec is not None: f.rec = self.fns[p].rec; f.qual = self.fns[p].qual
                        p = self.prev.get(p)
            # local records / lambdas are reached by the executor from the body
            self._locals(f.body, path + [name])
            return
        if k == 'VarDecl':
            self.vars[n['id']] = n
            if rec is not None: rec.statics[name] = n
            return
        if k == 'EnumDecl':
            val = -1
            for c in n.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    v = None
                    for e in c.get('inner', ()):
                        v = _constval(e)
                    val = v if v is not None else val + 1
                    self.enums[c['id']] = val
            return
        if k in ('FriendDecl', 'LinkageSpecDecl'):
            for c in n.get('inner', ()):
                self._walk(c, path if k == 'LinkageSpecDecl' else path[:-1], rec if k != 'FriendDecl' else rec, None)
            return

    def _locals(self, n, path):
        pass

def _constval(e):
    if e is None: return None
    if 'value' in e and e.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
        try: return int(e['value'])
        except ValueError: return None
    for c in e.get('inner', ()):
        v = _constval(c)
        if v is not None: return v
    return None

def rec_name(r):
    a = r.targs
    if not a: return norm(r.qual)
    def s(x): return x if isinstance(x, str) else ', '.join(x)
    return norm(r.qual) + '<' + ', '.join(norm(s(x)) for x in a) + '>'

def ptypes(f):
    """parameter type strings with the record's own aliases resolved"""
    out = []
    for p in f.params:
        t = qt(p)
        if f.rec is not None:
            for _ in range(4):
                u = re.sub(r'\b(\w+)\b', lambda m: f.rec.aliases.get(m.group(1), m.group(1)) if m.group(1) in f.rec.aliases and f.rec.aliases[m.group(1)] != m.group(1) else m.group(1), t, count=0) if any(a in t for a in f.rec.aliases) else t
                if u == t: break
                t = u
        out.append(t)
    return out

def ast_text(n):
    """AST without addresses, locations and declaration numbers"""
    if isinstance(n, list): return [ast_text(c) for c in n]
    if isinstance(n, str): return re.sub(r'\((lambda|unnamed \w+|anonymous \w+) at [^)]*\)', r'(\1)', n)
    if not isinstance(n, dict): return n
    out = {}
    for k, v in n.items():
        if isinstance(v, str) and v.startswith('0x'): continue
        if k in ('id', 'loc', 'range', 'previousDecl', 'parentDeclContextId', 'line', 'file', 'col', 'offset', 'tokLen', 'isUsed', 'isReferenced', 'mangledName', 'typeAliasDeclId', 'templateParams'): continue
        if k in ('referencedDecl', 'foundReferencedDecl', 'referencedMemberDecl', 'decl', 'ownedTagDecl'):
            if isinstance(v, dict): v = {x: v.get(x) for x in ('kind', 'name')}
            else: continue
            out[k] = v; continue
        out[k] = ast_text(v)
    if n.get('kind') in ('NullStmt', 'FullComment'): return {'kind': 'NullStmt'}
    return out
def code_hash(nodes):
    h = sorted(hashlib.md5(json.dumps(ast_text(n), sort_keys=True).encode()).hexdigest() for n in nodes)
    return hashlib.md5(json.dumps(sorted(set(h))).encode()).hexdigest()[:16]
def loop_shape(n):
    """how a loop is driven, whatever its body: kind, initial value, comparison, step"""
    if not isinstance(n, dict): return str(n)
    k = n.get('kind')
    if k == 'CXXForRangeStmt': return 'range'
    def ops(x, out):
        if isinstance(x, dict):
            if x.get('kind') in ('BinaryOperator', 'UnaryOperator', 'CompoundAssignOperator'): out.append(x.get('opcode'))
            for c in x.get('inner', ()): ops(c, out)
        return out
    if k == 'WhileStmt': return 'while ' + ' '.join(ops(n['inner'][0], []))
    if k == 'ForStmt':
        init, cv, cond, inc, body = n['inner']
        return f'for {json.dumps(ast_text(init), sort_keys=True) if init.get("kind") else ""} | {" ".join(ops(cond, [])[:1])} | {" ".join(ops(inc, []))}'
    return str(k)
