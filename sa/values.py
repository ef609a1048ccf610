"""Abstract values of the interpreter (everything that is not a plain Node)."""
from .core import mk, NONE


class Val(object):
    __slots__ = ()


class Arr(Val):
    """reference to a mutable array-like cell; path = chain of view indices"""
    __slots__ = ('loc', 'path')

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, path

    def __eq__(self, o):
        return isinstance(o, Arr) and o.loc == self.loc and o.path == self.path

    def __hash__(self):
        return hash(('Arr', self.loc, self.path))

    def __repr__(self):
        return 'Arr(%s%s)' % (self.loc, '' if not self.path else ',view')


class TupV(Val):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, TupV) and len(o.items) == len(self.items) and all(
            same(a, b) for a, b in zip(self.items, o.items))

    def __hash__(self):
        return hash(('T', len(self.items)))

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class _LocV(Val):
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return type(o) is type(self) and o.loc == self.loc

    def __hash__(self):
        return hash((type(self).__name__, self.loc))

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, self.loc)


class ListV(_LocV):
    __slots__ = ()


class SetV(_LocV):
    __slots__ = ()


class DictV(_LocV):
    __slots__ = ()


class Obj(Val):
    __slots__ = ('oid', 'cls')

    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls

    def __eq__(self, o):
        return isinstance(o, Obj) and o.oid == self.oid

    def __hash__(self):
        return hash(('O', self.oid))

    def __repr__(self):
        return 'Obj(%s#%s)' % (self.cls.name, self.oid)


class XObj(Val):
    """external model object with immutable descriptor data"""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, data):
        self.kind, self.data = kind, data

    def __eq__(self, o):
        return isinstance(o, XObj) and o.kind == self.kind and o.data == self.data

    def __hash__(self):
        return hash(('X', self.kind))

    def __repr__(self):
        return 'X<%s>' % self.kind


class Cls(Val):
    __slots__ = ('name', 'module', 'bases', 'mro', 'node', 'qual')

    def __init__(self, name, module, bases, node):
        self.name, self.module, self.bases, self.node = name, module, bases, node
        self.qual = '%s.%s' % (module, name)
        self.mro = [self]
        for b in bases:
            if isinstance(b, Cls):
                for m in b.mro:
                    if m not in self.mro:
                        self.mro.append(m)

    def __repr__(self):
        return 'Cls(%s)' % self.qual


class Fn(Val):
    __slots__ = ('name', 'node', 'module', 'frame', 'cls', 'defaults', 'kwdefaults', 'qual', 'uid')
    _n = [0]

    def __init__(self, name, node, module, frame, cls, defaults, kwdefaults, qual):
        self.name, self.node, self.module, self.frame, self.cls = name, node, module, frame, cls
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
        Fn._n[0] += 1
        self.uid = Fn._n[0]

    def __repr__(self):
        return 'Fn(%s)' % self.qual


class BM(Val):
    __slots__ = ('self', 'fn')

    def __init__(self, s, fn):
        self.self, self.fn = s, fn

    def __eq__(self, o):
        return isinstance(o, BM) and same(o.self, self.self) and o.fn is self.fn

    def __hash__(self):
        return hash(('BM', self.fn.uid if isinstance(self.fn, Fn) else 0))

    def __repr__(self):
        return 'BM(%r.%r)' % (self.self, self.fn)


class XM(Val):
    """bound method of a modelled (non-repository) value"""
    __slots__ = ('self', 'name')

    def __init__(self, s, name):
        self.self, self.name = s, name

    def __eq__(self, o):
        return isinstance(o, XM) and same(o.self, self.self) and o.name == self.name

    def __hash__(self):
        return hash(('XM', self.name))

    def __repr__(self):
        return 'XM(%r.%s)' % (self.self, self.name)


class Ext(Val):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(('E', self.name))

    def __repr__(self):
        return 'Ext(%s)' % self.name


class ModV(Val):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(('M', self.name))

    def __repr__(self):
        return 'Mod(%s)' % self.name


class PropV(Val):
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticV(Val):
    __slots__ = ('fn', 'kind')

    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind


class SuperV(Val):
    __slots__ = ('self', 'after')

    def __init__(self, s, after):
        self.self, self.after = s, after


class PV(Val):
    """value depends on a condition node"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PV) and o.c is self.c and same(self.a, o.a) and same(self.b, o.b)

    def __hash__(self):
        return hash(('PV', self.c.id))

    def __repr__(self):
        return 'PV(%r ? %r : %r)' % (self.c, self.a, self.b)


class Undef(Val):
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class SymList(Val):
    """symbolic sequence content (loops the analysis cannot unroll)"""
    __slots__ = ('node',)

    def __init__(self, node):
        self.node = node

    def __eq__(self, o):
        return isinstance(o, SymList) and o.node is self.node

    def __hash__(self):
        return hash(('SL', self.node.id))


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Arr, TupV, _LocV, Obj, XObj, BM, XM, Ext, ModV, PV, SymList)):
        return a == b
    return False
