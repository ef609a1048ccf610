"""Whole-package resolution: every name, attribute and package function the source refers to exists, and calls between
the package's own parts fit their callees.  Flow-sensitive only where needed (locals that no path has bound)."""
import ast
import builtins
import importlib
import os
import re
import sys

PKG = 'pynlo'
OBJ = set(dir(object)) | {'__dict__', '__module__', '__doc__', '__class__', '__name__', '__weakref__', '__annotations__'}
FN = {'__name__', '__doc__', '__dict__', '__module__', '__call__', '__defaults__', '__code__', '__wrapped__', '__get__'}
BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__'}
TYPE_ATTRS = set()
for _t in (str, bytes, list, dict, set, tuple, int, float, complex, type, BaseException, OSError, KeyError, type(os), type(lambda: 0),
           range, slice, memoryview, property, type((lambda: (yield))()), frozenset):
    TYPE_ATTRS |= set(dir(_t))


class Mod(object):
    def __init__(self, name, path, tree, pkg):
        self.name, self.path, self.tree, self.pkg = name, path, tree, pkg
        self.defs = {}          # name -> list of ('fn', node) / ('cls', Cls) / ('mod', dotted) / ('from', mod, name) / ('var', node)
        self.open = False       # a star import of something we cannot see, or dynamic globals


class Cls(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.attrs = {}         # name -> list of nodes
        self.stores = set()     # self.x = ...
        self.open = False
        self.bases = []         # Cls or None
        self.subs = []


class Problem(object):
    def __init__(self, label, where, what):
        self.label, self.where, self.what = label, where, what


class Package(object):
    def __init__(self, root, site=None):
        self.root, self.site = root, site
        self.mods, self.problems, self.classes = {}, [], []
        self.counts = dict(files=0, functions=0, names=0, attributes=0, calls=0, imports=0)
        self.funcs, self.sites = set(), set()
        self.ext_cache = {}
        self.load()

    # ------------------------------------------------------------------ reading
    def load(self):
        base = os.path.join(self.root, 'src', PKG)
        for d, sub, files in sorted(os.walk(base)):
            sub.sort()
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, os.path.join(self.root, 'src'))
                name = rel[:-3].replace(os.sep, '.')
                pkg = name.rsplit('.', 1)[0] if '.' in name else ''
                if f == '__init__.py':
                    name = name[:-9]
                    pkg = name
                self.counts['files'] += 1
                try:
                    src = open(p, encoding='utf-8').read()
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(src)
                except (SyntaxError, ValueError, UnicodeDecodeError) as e:
                    self.problems.append(Problem('%s parses' % name, '%s:%s' % (os.path.relpath(p, self.root), getattr(e, 'lineno', 0)),
                                                 'not valid Python: %s' % e))
                    continue
                self.mods[name] = Mod(name, os.path.relpath(p, self.root), tree, pkg)
        for m in self.mods.values():
            self.collect(m)
        for c in self.classes:
            for b in c.node.bases:
                r = self.resolve_expr(c.mod, b)
                if r and r[0] == 'cls':
                    c.bases.append(r[1])
                    r[1].subs.append(c)
                elif isinstance(b, ast.Name) and b.id == 'object':
                    pass
                else:
                    c.open = True
        # attributes set from outside: anything.x = ... defines x wherever it might be looked up
        self.foreign = set()
        self.set_names = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    self.foreign.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.foreign.add(n.args[1].value)
                    else:
                        for c in self.classes:
                            c.open = True
        self.known_attrs = set(self.foreign) | TYPE_ATTRS
        for c in self.classes:
            self.known_attrs |= set(c.attrs) | c.stores
        for m in self.mods.values():
            self.known_attrs |= set(m.defs)

    def bind(self, m, t, node):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                m.defs.setdefault(n.id, []).append(('var', node))

    def collect(self, m):
        def block(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.defs.setdefault(s.name, []).append(('fn', s) if not s.decorator_list else ('var', s))
                elif isinstance(s, ast.ClassDef):
                    m.defs.setdefault(s.name, []).append(('cls', self.klass(m, s)))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        m.defs.setdefault(a.asname or a.name.split('.')[0], []).append(('mod', a.name if a.asname else a.name.split('.')[0]))
                elif isinstance(s, ast.ImportFrom):
                    src = self.source_of(m, s)
                    for a in s.names:
                        if a.name == '*':
                            m.defs.setdefault('*', []).append(('star', src))
                            if not src.startswith(PKG + '.'):
                                m.open = True
                        else:
                            m.defs.setdefault(a.asname or a.name, []).append(('from', src, a.name))
                else:
                    for f in ('body', 'orelse', 'finalbody'):
                        block([x for x in getattr(s, f, []) if isinstance(x, ast.stmt)])
                    for h in getattr(s, 'handlers', []):
                        if h.name:
                            m.defs.setdefault(h.name, []).append(('var', h))
                        block(h.body)
                    for f in ('targets', 'target', 'items'):
                        v = getattr(s, f, None)
                        for x in (v if isinstance(v, list) else [v] if v is not None else []):
                            self.bind(m, x, s)
                    for n in ast.walk(s):
                        if isinstance(n, ast.NamedExpr):
                            self.bind(m, n.target, s)
        block(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    m.defs.setdefault(x, []).append(('var', n))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'globals', 'execfile'):
                m.open = True
            if isinstance(n, ast.FunctionDef) and n.name == '__getattr__' and n in m.tree.body:
                m.open = True

    def klass(self, m, node):
        c = Cls(m, node)
        self.classes.append(c)
        if node.keywords or node.decorator_list:
            c.open = True

        def block(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    c.attrs.setdefault(self.mangle(c, s.name), []).append(s)
                    if s.name in ('__getattr__', '__getattribute__', '__setattr__'):
                        c.open = True
                elif isinstance(s, ast.ClassDef):
                    c.attrs.setdefault(self.mangle(c, s.name), []).append(s)
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    for a in s.names:
                        c.attrs.setdefault((a.asname or a.name).split('.')[0], []).append(s)
                else:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            c.attrs.setdefault(self.mangle(c, n.id), []).append(s)
                    for f in ('body', 'orelse', 'finalbody'):
                        block([x for x in getattr(s, f, []) if isinstance(x, ast.stmt)])
        block(node.body)
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                if isinstance(n.ctx, ast.Store):
                    c.stores.add(self.mangle(c, n.attr))
            if isinstance(n, ast.Attribute) and n.attr in ('__dict__', '__slots__'):
                c.open = True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('vars', 'exec', 'eval'):
                c.open = True
        return c

    @staticmethod
    def mangle(c, name):
        if name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (c.name.lstrip('_'), name)
        return name

    def source_of(self, m, s):
        if not s.level:
            return s.module or ''
        base = m.pkg.split('.')
        base = base[:len(base) - (s.level - 1)]
        return '.'.join(base + ([s.module] if s.module else []))

    # --------------------------------------------------------------- resolution
    def lookup(self, modname, name, seen=()):
        """what `name` in package module `modname` is: (kind, ...) / 'unknown' / None when it does not exist"""
        if (modname, name) in seen:
            return ('unknown',)
        seen = seen + ((modname, name),)
        m = self.mods.get(modname)
        if m is None:
            return ('unknown',)
        d = m.defs.get(name)
        if d:
            if len(d) > 1 and len({repr(x) for x in d}) > 1:
                return ('unknown',)
            x = d[0]
            if x[0] == 'from':
                return self.from_(x[1], x[2], seen)
            return x
        if modname + '.' + name in self.mods:
            return ('mod', modname + '.' + name)
        if name in BUILTIN and name.startswith('__'):
            return ('unknown',)
        for x in m.defs.get('*', []):
            if x[1] in self.mods and not name.startswith('_'):
                r = self.lookup(x[1], name, seen)
                if r:
                    return r
        if m.open:
            return ('unknown',)
        return None

    def from_(self, src, name, seen=()):
        if src in self.mods:
            return self.lookup(src, name, seen)
        if src.split('.')[0] == PKG:
            return None
        if self.ext_has(src, name) is False:
            return None
        return ('extname', src, name)

    def ext_dir(self, dotted):
        for base in self.site or ():
            p = os.path.join(base, *dotted.split('.'))
            if os.path.isdir(p):
                return p
            for e in ('.py', '.pyi'):
                if os.path.exists(p + e):
                    return p + e
        return None

    def ext_has(self, src, name):
        """is `name` an attribute of external module `src`?  False only when the installed sources never mention it"""
        k = (src, name)
        if k in self.ext_cache:
            return self.ext_cache[k]
        r = None
        p = self.ext_dir(src)
        if p:
            r = False
            pat = re.compile(r'\b%s\b' % re.escape(name))
            files = []
            if os.path.isfile(p):
                files = [p]
            else:
                for f in sorted(os.listdir(p)):
                    q = os.path.join(p, f)
                    if f.split('.')[0] == name or f.endswith(('.so', '.pyd')) and name.lstrip('_') in f:
                        r = True
                    if f.endswith(('.py', '.pyi')) and os.path.isfile(q):
                        files.append(q)
                init = [os.path.join(p, '__init__.pyi'), os.path.join(p, '__init__.py')]
                star = False
                for q in init:
                    if os.path.exists(q) and re.search(r'import \*|__getattr__|globals\(\)', open(q, errors='replace').read()):
                        star = True
                if not star:
                    files = [q for q in init if os.path.exists(q)]
            for q in files:
                if r:
                    break
                if pat.search(open(q, errors='replace').read()):
                    r = True
        self.ext_cache[k] = r
        return r

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m.name, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if r and r[0] == 'mod':
                if r[1] in self.mods:
                    return self.lookup(r[1], e.attr)
                return ('mod', r[1] + '.' + e.attr)
        return ('unknown',)

    def mro(self, c, seen=None):
        out = [c]
        for b in c.bases:
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def below(self, c):
        out = []
        for s in c.subs:
            out.append(s)
            out += self.below(s)
        return out

    def is_open(self, c):
        return any(x.open for x in self.mro(c) + self.below(c))

    def has_attr(self, c, name):
        """may an instance of c or of one of its subclasses carry `name`?"""
        if name in OBJ or name in self.foreign:
            return True
        return any(name in x.attrs or name in x.stores for x in self.mro(c) + self.below(c)) or self.is_open(c)

    def method(self, c, name):
        """the one function `name` means on an instance of c, when that is certain"""
        if self.is_open(c) or name in self.foreign or any(name in x.stores for x in self.mro(c) + self.below(c)):
            return None
        if any(name in x.attrs for x in self.below(c)):
            return None
        for x in self.mro(c):
            if name in x.attrs:
                d = x.attrs[name]
                if len(d) == 1 and isinstance(d[0], ast.FunctionDef):
                    return d[0]
                return None
        return None

    # ----------------------------------------------------------------- checking
    def problem(self, label, m, node, fn, what):
        self.problems.append(Problem(label, '%s:%s %s' % (m.path, getattr(node, 'lineno', 0), fn), what))

    def check(self):
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    src = self.source_of(m, n)
                    if src.split('.')[0] != PKG and not self.site:
                        continue
                    for a in n.names:
                        self.counts['imports'] += 1
                        if src.split('.')[0] == PKG and src not in self.mods:
                            self.problem('%s: import of %s' % (m.name, src), m, n, '<module>', 'no module %s in the package' % src)
                        elif a.name != '*' and self.from_(src, a.name) is None:
                            self.problem('%s: import of %s from %s' % (m.name, a.name, src), m, n, '<module>', '%s has no %s' % (src, a.name))
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        self.counts['imports'] += 1
                        if a.name.split('.')[0] == PKG and a.name not in self.mods:
                            self.problem('%s: import of %s' % (m.name, a.name), m, n, '<module>', 'no module %s in the package' % a.name)
            self.external_imports(m)
            Scope(self, m).run()
        self.ducks()
        return self.problems

    def external_imports(self, m):
        """a module imported unconditionally must exist"""
        if not self.site:
            return
        guarded = set()
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Try, ast.If)):
                guarded |= {id(x) for x in ast.walk(n)}
        for n in ast.walk(m.tree):
            if id(n) in guarded:
                continue
            names = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module] if isinstance(n, ast.ImportFrom) and not n.level and n.module else []
            for x in names:
                top = x.split('.')[0]
                if top == PKG or top in sys.stdlib_module_names:
                    continue
                if self.ext_dir(top) is None and not self.ext_binary(top):
                    self.problem('%s: import of %s' % (m.name, x), m, n, '<module>', 'no module %s is part of Python, of the package or installed' % x)

    def ext_binary(self, top):
        for base in self.site:
            for f in os.listdir(base):
                if f.split('.')[0] == top:
                    return True
        return False

    # a parameter (or an attribute of an instance) is one object: some class must have everything that is read from it
    def ducks(self):
        for m in self.mods.values():
            for fn in ast.walk(m.tree):
                if isinstance(fn, ast.FunctionDef):
                    stored = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
                    inner = {x for f in ast.walk(fn) if isinstance(f, (ast.FunctionDef, ast.Lambda)) and f is not fn for x in params(f.args)}
                    tested = self.tested(fn)
                    use = {}
                    for n in ast.walk(fn):
                        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                            use.setdefault(n.value.id, []).append(n)
                    ps = params(fn.args)
                    owner = next((c for c in self.classes if fn in c.node.body), None)
                    for x in ps[1:] if owner else ps:
                        if x not in stored | inner | tested:
                            self.duck(m, fn, x, use.get(x, []))
        for c in self.classes:
            if c.open:
                continue
            tested = self.tested(c.node)
            use = {}
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == 'self':
                    use.setdefault(n.value.attr, []).append(n)
            for x, ns in sorted(use.items()):
                if x not in tested and 'self.' + x not in tested:
                    self.duck(c.mod, c.node, 'self.' + x, ns)

    @staticmethod
    def tested(tree):
        out = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'hasattr', 'getattr', 'type', 'issubclass', 'setattr', 'callable'):
                for a in n.args[:1]:
                    out.add(ast.unparse(a))
            if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
                pass
        return out

    def duck(self, m, fn, x, nodes):
        read = {}
        for n in nodes:
            read.setdefault(n.attr, n)
        names = {a for a in read if a not in OBJ}
        self.counts['receivers'] = self.counts.get('receivers', 0) + (1 if len(names) > 2 else 0)
        if len(names) < 3:
            return
        def has(c, a):
            return a in self.foreign or any(a in y.attrs or a in y.stores or y.open for y in self.mro(c) + self.below(c))
        best = [(sum(1 for a in names if has(c, a)), c) for c in self.classes if not any(y.open for y in self.mro(c) + self.below(c))]
        if not best:
            return
        top = max(b[0] for b in best)
        if top == len(names) or top != len(names) - 1:
            return
        for k, c in best:
            if k == top:
                # the rest must be specific to the package
                a = next(a for a in names if not has(c, a))
                rest = [b for b in names - {a} if b not in TYPE_ATTRS]
                if len(rest) < 2 or a in TYPE_ATTRS:
                    return
        cs = [c for k, c in best if k == top]
        miss = {next(a for a in names if not has(c, a)) for c in cs}
        if len(miss) == 1:
            a = miss.pop()
            if any(p.label == '%s: attribute %s' % (m.name, a) for p in self.problems):
                return
            self.problem('%s: %s of %s' % (m.name, a, x), m, read[a], getattr(fn, 'name', ''), 'the only classes that have %s (%s) have no %s' % (
                ', '.join(sorted(names - {a})[:6]), ', '.join(sorted({c.name for c in cs})), a))


def own(fn):
    """nodes of a function body without those of nested functions, classes and lambdas"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            for d in getattr(n, 'decorator_list', []):
                stack.append(d)
            if not isinstance(n, ast.ClassDef):
                stack += n.args.defaults + [x for x in n.args.kw_defaults if x is not None]
            continue
        stack += list(ast.iter_child_nodes(n))


def params(a):
    return [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + \
        ([a.kwarg.arg] if a.kwarg else [])


class Scope(object):
    def __init__(self, P, m):
        self.P, self.m = P, m

    def run(self):
        m = self.m
        self.nodes([s for s in m.tree.body], [set()], None, '<module>', None, None, top=True)

    # names bound in a function
    def locals_of(self, fn):
        out, glob = set(params(fn.args)), set()
        if isinstance(fn, ast.Lambda):
            for n in ast.walk(fn.body):
                if isinstance(n, ast.NamedExpr):
                    out.add(n.target.id)
            return out, glob
        for n in own(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if a.name != '*':
                        out.add((a.asname or a.name.split('.')[0]))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
        return out - glob, glob

    def nodes(self, body, scopes, cls, qual, fn, selfname, top=False):
        """check every expression of a body; scopes = name sets, innermost last"""
        types = self.types(fn) if fn is not None else {}
        if fn is None:
            types = {}
        stack = list(body)
        todo = []
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                todo.append(n)
                stack += list(getattr(n, 'decorator_list', [])) + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]
                continue
            if isinstance(n, ast.ClassDef):
                todo.append(n)
                stack += n.bases + n.decorator_list + [k.value for k in n.keywords]
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                self.nodes(list(ast.iter_child_nodes(n)), scopes + [names], cls, qual, None if fn is None else fn, selfname if selfname not in names else None)
                continue
            self.one(n, scopes, cls, qual, selfname, types)
            stack += list(ast.iter_child_nodes(n))
        for n in todo:
            if isinstance(n, ast.ClassDef):
                c = next((x for x in self.P.classes if x.node is n), None)
                names = set(c.attrs) if c else {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
                    {x.name for x in n.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
                # class names are visible in the class body, not inside its methods
                plain = [s for s in n.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))]
                fns = [s for s in n.body if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))]
                self.nodes(plain, scopes + [names], c, n.name, None, None)
                for f in fns:
                    for e in f.decorator_list + f.args.defaults + [x for x in f.args.kw_defaults if x is not None]:
                        self.nodes([e], scopes + [names], c, n.name, None, None)
                    self.function(f, scopes, c, n.name + '.' + f.name, True)
            else:
                self.function(n, scopes, cls, (qual + '.' if qual != '<module>' else '') + getattr(n, 'name', '<lambda>'), False, selfname)

    def function(self, f, scopes, cls, qual, direct, outer_self=None):
        P = self.P
        loc, glob = self.locals_of(f)
        sn = outer_self if outer_self not in loc else None
        if direct and cls is not None:
            deco = {d.id for d in f.decorator_list if isinstance(d, ast.Name)}
            a = f.args.posonlyargs + f.args.args
            if a and not deco & {'staticmethod', 'classmethod'} and not f.name == '__new__':
                sn = a[0].arg
                if any(isinstance(n, ast.Name) and n.id == sn and isinstance(n.ctx, ast.Store) for n in ast.walk(f)):
                    sn = None
            elif not a and not f.args.vararg and 'staticmethod' not in deco:
                P.problem('%s.%s takes the instance' % (P_name(self.m), qual), self.m, f, qual, 'a method without parameters cannot be called on an instance')
        if not isinstance(f, ast.Lambda):
            P.counts['functions'] += 1
            P.funcs.add('%s:%s' % (self.m.name, qual))
            dyn = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'locals', 'eval', 'vars') for n in ast.walk(f))
            if not dyn:
                Bound(self, f, loc - set(params(f.args)), qual).go()
        body = f.body if isinstance(f.body, list) else [f.body]
        self.nodes(body, scopes + [loc | glob], cls, qual, f, sn)

    # locals whose every binding is one constructor call of a package class
    def types(self, fn):
        out, bad = {}, set(params(fn.args))
        if isinstance(fn, ast.Lambda):
            return {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                t = n.targets[0].id
                r = None
                if isinstance(n.value, ast.Call):
                    r = self.callee(n.value.func, fn)
                if r and r[0] == 'cls' and out.get(t, r[1]) is r[1]:
                    out[t] = r[1]
                else:
                    bad.add(t)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
                bad.add(n.name)
        single = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                single.add(id(n.targets[0]))
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in single:
                bad.add(n.id)
        return {k: v for k, v in out.items() if k not in bad}

    def callee(self, f, fn=None):
        if isinstance(f, ast.Name):
            if fn is not None and f.id in self.locals_of(fn)[0]:
                return ('unknown',)
            return self.P.lookup(self.m.name, f.id)
        if isinstance(f, ast.Attribute):
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and not (fn is not None and root.id in self.locals_of(fn)[0]):
                return self.P.resolve_expr(self.m, f)
        return ('unknown',)

    # ------------------------------------------------------------------- nodes
    def one(self, n, scopes, cls, qual, selfname, types):
        P, m = self.P, self.m
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            P.counts['names'] += 1
            if cls is not None and any(P.mangle(cls, n.id) in s for s in scopes):
                return
            if any(n.id in s for s in scopes) or n.id in BUILTIN or n.id in ('__class__', '__qualname__', '__module__'):
                return
            if P.lookup(m.name, n.id) is None:
                P.problem('%s: name %s' % (m.name, n.id), m, n, qual, 'name %s is not defined anywhere' % n.id)
            return
        if isinstance(n, ast.Attribute):
            self.attribute(n, scopes, cls, qual, selfname, types)
        if isinstance(n, ast.Call):
            self.call(n, scopes, cls, qual, selfname, types)

    def shadowed(self, name, scopes):
        return any(name in s for s in scopes)

    def attribute(self, n, scopes, cls, qual, selfname, types):
        P, m = self.P, self.m
        P.counts['attributes'] += 1
        v = n.value
        if isinstance(v, ast.Name) and selfname and v.id == selfname and cls is not None:
            a = P.mangle(cls, n.attr)
            if isinstance(n.ctx, ast.Load):
                if not P.has_attr(cls, a):
                    P.problem('%s.%s: attribute %s' % (m.name, cls.name, n.attr), m, n, qual,
                              'no class method, class variable or assignment defines %s.%s' % (cls.name, n.attr))
            elif isinstance(n.ctx, ast.Store):
                self.readonly(cls, a, n, qual)
            return
        if isinstance(v, ast.Name) and v.id in types:
            c = types[v.id]
            a = n.attr
            if isinstance(n.ctx, ast.Load):
                if not self.exact(c, a):
                    P.problem('%s: %s of a %s' % (m.name, a, c.name), m, n, qual, 'a %s has no attribute %s' % (c.name, a))
            return
        if not isinstance(n.ctx, ast.Load):
            return
        root = v
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and not self.shadowed(root.id, scopes):
            r = P.resolve_expr(m, v)
            if r and r[0] == 'mod':
                if r[1] in P.mods:
                    if P.lookup(r[1], n.attr) is None:
                        P.problem('%s: %s of module %s' % (m.name, n.attr, r[1]), m, n, qual, 'module %s has no %s' % (r[1], n.attr))
                    return
                if P.ext_has(r[1], n.attr) is False:
                    P.problem('%s: %s of module %s' % (m.name, n.attr, r[1]), m, n, qual, 'module %s has no %s' % (r[1], n.attr))
                return
            if r and r[0] == 'cls' and isinstance(v, ast.Name):
                c = r[1]
                if not P.is_open(c) and n.attr not in OBJ | set(dir(type)) and not any(n.attr in x.attrs for x in P.mro(c)) and n.attr not in P.foreign:
                    P.problem('%s: %s of class %s' % (m.name, n.attr, c.name), m, n, qual, 'class %s has no %s' % (c.name, n.attr))
                return
        # a receiver of unknown type: the attribute must exist on something
        if n.attr not in P.known_attrs and not self.external(n.attr):
            P.problem('%s: attribute %s' % (m.name, n.attr), m, n, qual, 'nothing in the package or the libraries it uses has an attribute %s' % n.attr)

    def external(self, attr):
        """does some installed library used by this module know the attribute?"""
        P = self.P
        k = ('*attr', self.m.name, attr)
        if k in P.ext_cache:
            return P.ext_cache[k]
        tops = set()
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.Import):
                tops |= {a.name.split('.')[0] for a in n.names}
            elif isinstance(n, ast.ImportFrom) and not n.level:
                tops.add((n.module or '').split('.')[0])
        tops.discard(PKG)
        res = False
        for t in sorted(tops | {'numpy'}):
            if t in sys.stdlib_module_names:
                if attr in stdlib_attrs(t):
                    res = True
                    break
                continue
            d = P.ext_dir(t)
            if d is None:
                res = True          # a library we cannot see may define anything
                break
            if mentions(d, attr):
                res = True
                break
        P.ext_cache[k] = res
        return res

    def exact(self, c, a):
        P = self.P
        if a in OBJ or a in P.foreign or any(x.open for x in P.mro(c)):
            return True
        return any(a in x.attrs or a in x.stores for x in P.mro(c))

    def readonly(self, cls, a, n, qual):
        P = self.P
        if P.is_open(cls):
            return
        for x in P.mro(cls):
            if a in x.attrs:
                d = x.attrs[a]
                prop = [s for s in d if isinstance(s, ast.FunctionDef) and any(isinstance(e, ast.Name) and e.id == 'property' for e in s.decorator_list)]
                if len(d) == 1 and prop:
                    if not any(a in y.attrs for y in P.below(cls)):
                        P.problem('%s.%s: %s can be set' % (self.m.name, cls.name, a), self.m, n, qual, '%s is a property without a setter' % a)
                return

    # ------------------------------------------------------------------- calls
    def call(self, n, scopes, cls, qual, selfname, types):
        P, m = self.P, self.m
        f = n.func
        target, skip, name = None, 0, None
        if isinstance(f, ast.Name) and not self.shadowed(f.id, scopes):
            r = P.lookup(m.name, f.id)
            target, skip, name = self.from_result(r)
        elif isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and selfname and v.id == selfname and cls is not None:
                d = P.method(cls, P.mangle(cls, f.attr))
                if d is not None:
                    target, skip = self.bound(d)
                    name = '%s.%s' % (cls.name, f.attr)
            elif isinstance(v, ast.Name) and v.id in types:
                d = P.method(types[v.id], f.attr)
                if d is not None:
                    target, skip = self.bound(d)
                    name = '%s.%s' % (types[v.id].name, f.attr)
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and cls is not None:
                c = cls
                if len(v.args) == 2:
                    r = P.lookup(m.name, v.args[0].id) if isinstance(v.args[0], ast.Name) else None
                    c = r[1] if r and r[0] == 'cls' else None
                    if isinstance(v.args[0], ast.Name) and c is not None and c is not cls and c not in P.mro(cls):
                        P.problem('%s.%s: super' % (m.name, cls.name), m, n, qual, 'super(%s, ...) in class %s' % (c.name, cls.name))
                if c is not None and not any(x.open for x in P.mro(c)):
                    for x in P.mro(c)[1:]:
                        if f.attr in x.attrs:
                            d = x.attrs[f.attr]
                            if len(d) == 1 and isinstance(d[0], ast.FunctionDef) and not c.subs and len(c.bases) == 1:
                                target, skip = self.bound(d[0])
                                name = 'super().' + f.attr
                            break
                    else:
                        if f.attr not in OBJ and not any(len(s.bases) > 1 for s in P.below(c) + [c]):
                            P.problem('%s.%s: super().%s' % (m.name, cls.name, f.attr), m, n, qual, 'no base class defines %s' % f.attr)
            else:
                root = v
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(root, ast.Name) and not self.shadowed(root.id, scopes):
                    r = P.resolve_expr(m, v)
                    if r and r[0] == 'cls':
                        c = r[1]
                        for x in P.mro(c):
                            if f.attr in x.attrs and not P.is_open(c):
                                d = x.attrs[f.attr]
                                if len(d) == 1 and isinstance(d[0], ast.FunctionDef):
                                    deco = d[0].decorator_list
                                    if not deco:
                                        target, skip, name = d[0], 0, '%s.%s' % (c.name, f.attr)
                                break
                    elif r and r[0] == 'mod' and r[1] in P.mods:
                        target, skip, name = self.from_result(P.lookup(r[1], f.attr))
        if target is None:
            return
        P.counts['calls'] += 1
        P.sites.add('%s:%s' % (m.path, n.lineno))
        bad = fits(target.args, skip, n)
        if bad:
            P.problem('%s: call of %s' % (m.name, name), m, n, qual, '%s: %s' % (name, bad))

    def bound(self, d):
        deco = d.decorator_list
        if not deco:
            return d, 1
        if len(deco) == 1 and isinstance(deco[0], ast.Name):
            if deco[0].id == 'staticmethod':
                return d, 0
            if deco[0].id == 'classmethod':
                return d, 1
        return None, 0

    def from_result(self, r):
        if r and r[0] == 'fn':
            return r[1], 0, r[1].name
        if r and r[0] == 'cls':
            c = r[1]
            if any(x.open for x in self.P.mro(c)):
                return None, 0, None
            for x in self.P.mro(c):
                if '__new__' in x.attrs:
                    return None, 0, None
                if '__init__' in x.attrs:
                    d = x.attrs['__init__']
                    if len(d) == 1 and isinstance(d[0], ast.FunctionDef) and not d[0].decorator_list:
                        return d[0], 1, c.name
                    return None, 0, None
        return None, 0, None


def P_name(m):
    return m.name


def fits(a, skip, call):
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    npos = sum(1 for x in call.args if not isinstance(x, ast.Starred))
    if npos > len(pos) and not a.vararg:
        return 'takes %d positional arguments, given %d' % (len(pos), npos)
    kw = {k.arg for k in call.keywords if k.arg}
    only = {x.arg for x in a.kwonlyargs}
    po = {x.arg for x in a.posonlyargs}
    for k in kw:
        if k not in (set(pos) - po) | only and not a.kwarg:
            return 'has no parameter %s' % k
        if not star and k in pos[:npos]:
            return 'parameter %s given twice' % k
    if not star:
        allpos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        need = [x for x in allpos[:len(allpos) - nd]][skip:]
        for x in need[npos:]:
            if x not in kw:
                return 'required parameter %s not given' % x
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kw:
                return 'required parameter %s not given' % x.arg
    return None


_std = {}
def stdlib_attrs(t):
    if t not in _std:
        out = set()
        try:
            mod = importlib.import_module(t)
        except Exception:
            mod = None
        for x in dir(mod):
            out.add(x)
            v = getattr(mod, x, None)
            if isinstance(v, type):
                out |= set(dir(v))
            elif isinstance(v, type(os)):
                out |= set(dir(v))
        _std[t] = out
    return _std[t]


_text = {}
def mentions(d, attr):
    pat = re.compile(r'\b%s\b' % re.escape(attr))
    if os.path.isfile(d):
        return bool(pat.search(open(d, errors='replace').read()))
    if d not in _text:
        out = []
        for b, sub, fs in os.walk(d):
            sub[:] = [x for x in sub if x not in ('tests', '__pycache__', 'test', 'testing')]
            for f in fs:
                if f.endswith(('.py', '.pyi', '.pyx', '.pxd')):
                    try:
                        out.append(open(os.path.join(b, f), errors='replace').read())
                    except OSError:
                        pass
        _text[d] = out
    return any(attr in t and pat.search(t) for t in _text[d])


class Bound(object):
    """locals that no path to a use has bound"""
    def __init__(self, scope, fn, names, qual):
        self.s, self.fn, self.names, self.qual = scope, fn, names, qual
        self.loop = []
        self.quiet = False
        self.seen = set()

    def go(self):
        self.block(self.fn.body, set())

    def use(self, e, st):
        """check the loads of an expression, add what it binds"""
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                stack.append(n.generators[0].iter)
                continue
            if isinstance(n, ast.NamedExpr):
                st.add(n.target.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.names and n.id not in st and n.id not in self.seen:
                if any(isinstance(x, ast.NamedExpr) and x.target.id == n.id for x in ast.walk(e)):
                    continue
                self.seen.add(n.id)
                self.s.P.problem('%s.%s: %s has a value' % (self.s.m.name, self.qual, n.id), self.s.m, n, self.qual,
                                 'local %s is read where no path has assigned it' % n.id)
            stack += list(ast.iter_child_nodes(n))

    def store(self, t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.add(n.id)
        for n in ast.walk(t):
            if isinstance(n, (ast.Attribute, ast.Subscript)):
                self.use(n, st)
                break

    def block(self, body, st):
        """st: names possibly bound; returns None when the end is not reached"""
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    @staticmethod
    def join(*sts):
        sts = [s for s in sts if s is not None]
        return set().union(*sts) if sts else None

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return st | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | {(a.asname or a.name.split('.')[0]) for a in s.names}
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            st = set(st)
            for t in s.targets:
                self.store(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            self.use(s.value, st)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            else:
                self.use(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.use(s.value, st)
                st = set(st)
                self.store(s.target, st)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.use(x, st)
            return None
        if isinstance(s, ast.If):
            st = set(st)
            self.use(s.test, st)
            return self.join(self.block(s.body, set(st)), self.block(s.orelse, set(st)))
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            # anything bound in the loop may be bound when an iteration starts
            st = set(st)
            self.use(s.iter if not isinstance(s, ast.While) else s.test, st | bound_in(s) if isinstance(s, ast.While) else st)
            inner = st | bound_in(s)
            self.block(s.body, set(inner))
            out = self.block(s.orelse, set(inner)) if s.orelse else inner
            return self.join(out, inner)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            b = self.block(s.body, set(st))
            half = st | bound_in_list(s.body)
            outs = []
            for h in s.handlers:
                outs.append(self.block(h.body, half | ({h.name} if h.name else set())))
            o = self.block(s.orelse, set(b)) if b is not None and s.orelse else b
            j = self.join(o, *outs)
            if s.finalbody:
                f = self.block(s.finalbody, half | bound_in_list([x for h in s.handlers for x in h.body] + s.orelse))
                if f is None:
                    return None
                return None if j is None else j | f
            return j
        if isinstance(s, (ast.With, ast.AsyncWith)):
            st = set(st)
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, st)
            r = self.block(s.body, set(st))
            return r if r is not None else st | bound_in_list(s.body)
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Delete):
            return st
        if s.__class__.__name__ == 'Match':
            return st | bound_in(s)
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return st
        st = set(st)
        for x in ast.iter_child_nodes(s):
            self.use(x, st)
        return st


def bound_in(s):
    return bound_in_list([s])


def bound_in_list(body):
    out = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name.split('.')[0]) for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif n.__class__.__name__ in ('MatchAs', 'MatchStar') and n.name:
                out.add(n.name)
    return out
