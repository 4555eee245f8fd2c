"""Abstract values of the analysis.

Immutable values (structural identity): Const, Sym, Term, Cat, Lin, Tup.
Heap objects (identity): everything deriving from HObj.
"""


class V:
    __slots__ = ()
    ty = 'any'


class Const(V):
    __slots__ = ('v', '_h')

    def __init__(self, v):
        self.v = v
        self._h = hash((type(v).__name__, v))

    def __eq__(self, o):
        return self is o or (type(o) is Const and type(o.v) is type(self.v)
                             and o.v == self.v)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return repr(self.v)

    @property
    def ty(self):
        return {str: 'str', bool: 'bool', int: 'int', bytes: 'bytes',
                type(None): 'none'}.get(type(self.v), 'any')


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
EMPTY = Const('')


class Sym(V):
    """An unknown input value.  ``props`` are facts assumed about it:

    generic   -- (str) different from every literal of the program
    nonempty  -- (str) not the empty string
    code      -- (str) Python expression text; when spliced in generated code
                 it is a hole whose value is ``value``
    lo        -- (int) lower bound
    notnone   -- not None
    """
    __slots__ = ('name', 'ty', 'props')

    def __init__(self, name, ty='any', **props):
        self.name = name
        self.ty = ty
        self.props = props

    def __eq__(self, o):
        return self is o or (type(o) is Sym and o.name == self.name)

    def __hash__(self):
        return hash(('sym', self.name))

    def __repr__(self):
        return '<%s>' % self.name


class Term(V):
    __slots__ = ('op', 'args', 'ty', '_h', 'props')

    def __init__(self, op, args=(), ty='any', **props):
        self.op = op
        self.args = tuple(args)
        self.ty = ty
        self.props = props
        self._h = hash((op, self.args))

    def __eq__(self, o):
        return self is o or (type(o) is Term and o._h == self._h
                             and o.op == self.op and o.args == self.args)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class Cat(V):
    """Concatenation of string pieces (normalised, at least two parts)."""
    __slots__ = ('parts', '_h')
    ty = 'str'

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._h = hash(self.parts)

    def __eq__(self, o):
        return self is o or (type(o) is Cat and o.parts == self.parts)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return 'cat(%s)' % ' '.join(map(repr, self.parts))


class Lin(V):
    """Linear integer expression: const + sum(coef*atom)."""
    __slots__ = ('c', 'atoms', '_h')
    ty = 'int'

    def __init__(self, c, atoms):
        self.c = c
        self.atoms = tuple(sorted(((a, k) for a, k in dict(atoms).items() if k),
                                  key=lambda t: repr(t[0])))
        self._h = hash((self.c, self.atoms))

    def __eq__(self, o):
        return self is o or (type(o) is Lin and o.c == self.c
                             and o.atoms == self.atoms)

    def __hash__(self):
        return self._h

    def __repr__(self):
        s = ' + '.join(('%s' % (a,)) if k == 1 else '%d*%s' % (k, a)
                       for a, k in self.atoms)
        return '(%s%+d)' % (s, self.c) if self.c else '(%s)' % s


def lin_parts(v):
    """(const, {atom: coef}) of an integer value."""
    if type(v) is Const:
        return int(v.v), {}
    if type(v) is Lin:
        return v.c, dict(v.atoms)
    return 0, {v: 1}


def mk_lin(c, atoms):
    atoms = {a: k for a, k in atoms.items() if k}
    if not atoms:
        return Const(c)
    if c == 0 and len(atoms) == 1:
        (a, k), = atoms.items()
        if k == 1:
            return a
    return Lin(c, atoms)


def lin_add(a, b, sign=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sign * v
    return mk_lin(ca + sign * cb, d)


def lin_scale(a, n):
    c, d = lin_parts(a)
    return mk_lin(c * n, {k: v * n for k, v in d.items()})


class Tup(V):
    __slots__ = ('items', '_h')
    ty = 'tuple'

    def __init__(self, items):
        self.items = tuple(items)
        self._h = None

    def __eq__(self, o):
        return self is o or (type(o) is Tup and o.items == self.items)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.items)
        return self._h

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class Star:
    """Unknown number (>= 0) of elements; ``make(interp, i)`` returns the
    i-th element; marks abstract length."""
    def __init__(self, name, make, minlen=0, cap=None):
        self.name = name
        self.make = make
        self.minlen = minlen
        self.cap = cap

    def __repr__(self):
        return '*%s' % self.name


class HObj(V):
    """Heap object: mutable, identity.  ``base`` objects exist before the
    scenario starts; writes to them are journalled and undone."""
    __slots__ = ('oid', 'base', 'label')
    fields = ()
    _n = 0

    def __init__(self):
        HObj._n += 1
        self.oid = HObj._n
        self.base = False
        self.label = None

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.oid

    def snapshot(self):
        out = {}
        for f in self.fields:
            v = getattr(self, f)
            out[f] = v.copy() if isinstance(v, (dict, list, set)) else v
        return out

    def restore(self, snap):
        for f, v in snap.items():
            setattr(self, f, v.copy() if isinstance(v, (dict, list, set)) else v)

    def __repr__(self):
        return '<%s#%d%s>' % (type(self).__name__, self.oid,
                              ' ' + self.label if self.label else '')


class Obj(HObj):
    __slots__ = ('cls', 'attrs', 'data')
    fields = ('cls', 'attrs', 'data')

    def __init__(self, cls, data=None):
        super().__init__()
        self.cls = cls
        self.attrs = {}
        self.data = data      # model payload (files, regexes ...)

    def __repr__(self):
        return '<%s obj#%d%s>' % (self.cls.name if self.cls else '?', self.oid,
                                  ' ' + self.label if self.label else '')


class ListO(HObj):
    __slots__ = ('items', 'kind', 'maxlen')
    fields = ('items', 'maxlen')
    ty = 'list'

    def __init__(self, items=(), kind='list', maxlen=None):
        super().__init__()
        self.items = list(items)
        self.kind = kind        # list | deque
        self.maxlen = maxlen

    def __repr__(self):
        return '<%s#%d %r>' % (self.kind, self.oid, self.items[:4])


class SetO(HObj):
    __slots__ = ('items', 'kind')
    fields = ('items',)
    ty = 'set'

    def __init__(self, items=(), kind='set'):
        super().__init__()
        self.items = dict.fromkeys(items)
        self.kind = kind


class DictO(HObj):
    __slots__ = ('d', 'rest', 'factory', 'cls', 'attrs')
    fields = ('d', 'rest', 'attrs')
    ty = 'dict'

    def __init__(self, d=None, rest=None, factory=None, cls=None):
        super().__init__()
        self.d = dict(d or {})
        self.rest = rest        # name of the unknown remainder or None
        self.factory = factory  # defaultdict
        self.cls = cls          # user subclass
        self.attrs = {}

    def __repr__(self):
        return '<dict#%d%s %s>' % (self.oid, ' ' + self.label if self.label else '',
                                   list(self.d)[:5])


class FuncO(HObj):
    __slots__ = ('name', 'node', 'glob', 'closure', 'defaults', 'kwdefaults',
                 'attrs', 'defcls', 'code', 'module', 'isgen', 'qual')
    fields = ('attrs', 'defaults', 'kwdefaults', 'code', 'name')

    def __init__(self, name, node, glob, closure, defaults, kwdefaults, module,
                 qual):
        super().__init__()
        self.name = name
        self.node = node
        self.glob = glob
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.attrs = {}
        self.defcls = None
        self.code = None
        self.module = module
        self.isgen = False
        self.qual = qual

    def __repr__(self):
        return '<func %s>' % self.qual


class CodeO(HObj):
    """Code object of a function."""
    __slots__ = ('func', 'attrs')
    fields = ('attrs',)

    def __init__(self, func, attrs):
        super().__init__()
        self.func = func
        self.attrs = attrs


class BoundO(HObj):
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        super().__init__()
        self.func = func
        self.self_ = self_

    def __eq__(self, o):
        return type(o) is BoundO and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))


class ClassO(HObj):
    __slots__ = ('name', 'bases', 'mro', 'ns', 'module', 'builtin', 'qual')
    fields = ('ns',)

    def __init__(self, name, bases, ns, module=None, builtin=None):
        super().__init__()
        self.name = name
        self.bases = bases
        self.ns = ns            # dict str -> V
        self.module = module
        self.builtin = builtin  # name of builtin type it models
        self.mro = [self]
        self.qual = name

    def __repr__(self):
        return '<class %s>' % self.name

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def issub(self, other):
        return other in self.mro


class DescO(HObj):
    """property / classmethod / staticmethod wrapper."""
    __slots__ = ('kind', 'fget', 'fset', 'fdel')

    def __init__(self, kind, fget, fset=None):
        super().__init__()
        self.kind = kind
        self.fget = fget
        self.fset = fset


class ModO(HObj):
    __slots__ = ('name', 'ns', 'opaque', 'file')

    def __init__(self, name, opaque=False, file=None):
        super().__init__()
        self.name = name
        self.ns = DictO()
        self.ns.label = 'module:' + name
        self.opaque = opaque
        self.file = file

    def __repr__(self):
        return '<module %s>' % self.name


class GenO(HObj):
    """Generator / iterator backed by a host generator."""
    __slots__ = ('gen', 'done', 'name', 'running', 'view')

    def __init__(self, gen, name='gen', view=None):
        super().__init__()
        self.view = view        # a collection: starts again for every iteration
        self.gen = gen
        self.done = False
        self.name = name
        self.running = False

    def __repr__(self):
        return '<gen %s>' % self.name


class Native(HObj):
    """Modelled external function."""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        super().__init__()
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<native %s>' % self.name


class PartialO(HObj):
    __slots__ = ('func', 'args', 'kw')

    def __init__(self, func, args, kw):
        super().__init__()
        self.func, self.args, self.kw = func, args, kw


class SuperO(HObj):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        super().__init__()
        self.cls, self.obj = cls, obj


# ---------------------------------------------------------------- strings
def is_str(v):
    return v.ty == 'str'


def cat(*vals):
    """Normalised concatenation of string values."""
    parts = []
    for v in vals:
        ps = v.parts if type(v) is Cat else (v,)
        for p in ps:
            if type(p) is Const:
                if p.v == '':
                    continue
                if parts and type(parts[-1]) is Const:
                    parts[-1] = Const(parts[-1].v + p.v)
                    continue
            elif (type(p) is Term and p.op == 'slice' and parts
                    and type(parts[-1]) is Term and parts[-1].op == 'slice'
                    and parts[-1].args[0] == p.args[0]
                    and parts[-1].args[2] == p.args[1]):
                parts[-1] = mk_slice(p.args[0], parts[-1].args[1], p.args[2])
                continue
            parts.append(p)
    if not parts:
        return EMPTY
    if len(parts) == 1:
        return parts[0]
    return Cat(parts)


def str_len(v):
    if type(v) is Const:
        return Const(len(v.v))
    if type(v) is Cat:
        r = Const(0)
        for p in v.parts:
            r = lin_add(r, str_len(p))
        return r
    if type(v) is Term and v.op == 'slice':
        return lin_add(v.args[2], v.args[1], -1)
    return Term('len', (v,), 'int', lo=1 if v.props.get('nonempty') else 0)


def mk_slice(x, a, b):
    """x[a:b] where a, b are normalised non-negative positions."""
    if a == b:
        return EMPTY
    if type(x) is Term and x.op == 'slice':
        off = x.args[1]
        return mk_slice(x.args[0], lin_add(off, a), lin_add(off, b))
    if a == Const(0) and b == str_len(x):
        return x
    if type(x) is Const and type(a) is Const and type(b) is Const:
        return Const(x.v[a.v:b.v])
    if type(x) is Cat:
        # resolve the positions to part boundaries where possible
        pos = Const(0)
        bounds = [pos]
        for p in x.parts:
            pos = lin_add(pos, str_len(p))
            bounds.append(pos)

        def locate(q):
            for i, bd in enumerate(bounds):
                d = lin_add(q, bd, -1)
                if type(d) is Const:
                    k = d.v
                    if k == 0:
                        return i, 0
                    if (k > 0 and i < len(x.parts) and type(x.parts[i]) is Const
                            and k < len(x.parts[i].v)):
                        return i, k
            return None
        la, lb = locate(a), locate(b)
        if la is not None and lb is not None:
            out = []
            (i, k), (j, m) = la, lb
            for n in range(i, min(j + 1, len(x.parts))):
                p = x.parts[n]
                lo = k if n == i else 0
                if n == j:
                    if m == 0:
                        continue
                    out.append(Const(p.v[lo:m]))
                elif lo:
                    out.append(Const(p.v[lo:]))
                else:
                    out.append(p)
            return cat(*out)
        # inside one symbolic part: relative to its start
        for i, p in enumerate(x.parts):
            if type(p) is Const:
                continue
            ra, rb = lin_add(a, bounds[i], -1), lin_add(b, bounds[i], -1)
            if _about(ra, p) and _about(rb, p):
                return mk_slice(p, ra, rb)
    return Term('slice', (x, a, b), 'str')


def _about(pos, p):
    c, d = lin_parts(pos)
    return bool(d) and all(type(a) is Term and a.args and a.args[0] == p for a in d)


class Hom:
    """helpers for character homomorphisms: Term('hom', (base, ((ch, repl)...)))"""
    @staticmethod
    def make(base, mapping):
        m = {k: v for k, v in mapping.items() if k != v}
        if not m:
            return base
        if type(base) is Const:
            return Const(''.join(m.get(c, c) for c in base.v))
        if type(base) is Cat:
            return cat(*[Hom.make(p, m) for p in base.parts])
        if type(base) is Term and base.op == 'hom':
            inner = dict(base.args[1])
            comp = {}
            for ch in set(inner) | set(m):
                s = inner.get(ch, ch)
                comp[ch] = ''.join(m.get(c, c) for c in s)
            return Hom.make(base.args[0], comp)
        return Term('hom', (base, tuple(sorted(m.items()))), 'str')


class SliceO(HObj):
    """slice(a, b, c)"""
    __slots__ = ('items',)
    ty = 'slice'

    def __init__(self, items):
        super().__init__()
        self.items = list(items)
