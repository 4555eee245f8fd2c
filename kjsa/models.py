"""Models of builtins, builtin methods and the standard library."""
import ast
import re as _re
import html.entities as _he

from .values import *
from . import host as _host
from .interp import (Unsupported, Infeasible, PyExc, Frame, ScopeInfo,
                     scope_info)

BUILTIN_TYPES = ['type', 'str', 'int', 'bool', 'float', 'bytes', 'dict', 'list',
                 'tuple', 'set', 'frozenset', 'function', 'generator', 'module',
                 'NoneType', 'ellipsis', 'deque', 'defaultdict', 'regex', 'match',
                 'range', 'bytearray', 'complex', 'memoryview', 'code']


def install(ip):
    obj = ClassO('object', [], {}, builtin='object')
    ip.types['object'] = obj
    for n in BUILTIN_TYPES:
        c = ClassO(n, [obj], {}, builtin=n)
        c.mro = [c, obj]
        ip.types[n] = c
    for sub, base in (('bool', 'int'), ('defaultdict', 'dict')):
        ip.types[sub].mro = [ip.types[sub], ip.types[base], obj]
    T = ip.types
    obj.ns['__init__'] = Native('object.__init__', lambda ip, a, k: NONE)
    obj.ns['__new__'] = Native('object.__new__', lambda ip, a, k: Obj(a[0]))
    obj.ns['__init_subclass__'] = DescO('classmethod', Native(
        'object.__init_subclass__', lambda ip, a, k: NONE))
    B = ip.builtins
    for n in ('object', 'type', 'str', 'int', 'bool', 'float', 'bytes', 'dict',
              'list', 'tuple', 'set', 'frozenset', 'bytearray', 'complex',
              'memoryview'):
        B[n] = T[n]
    B['True'], B['False'], B['None'] = TRUE, FALSE, NONE
    B['NotImplemented'] = Const('NotImplemented')
    for n, fn in list(globals().items()):
        if n.startswith('b_'):
            B[n[2:]] = Native(n[2:], fn)
    m = ModO('builtins')
    ip.builtins_mod = m
    ip.modules['builtins'] = m
    # exceptions
    ip.modules['builtins_exc'] = None
    del ip.modules['builtins_exc']
    exc = ip.load_module('builtins_exc')
    for k, v in exc.ns.d.items():
        if type(v) is ClassO:
            B[k.v] = v
    for k, v in B.items():
        m.ns.d[Const(k)] = v


# ===================================================================== helpers
def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def cstr(ip, v):
    v = ip.resolve(v)
    if type(v) is Const:
        return v.v
    raise Unsupported('constant expected, got %r' % (v,))


# ===================================================================== builtins
def b_len(ip, a, k):
    v = ip.resolve(a[0])
    t = type(v)
    if t is ListO:
        ip.expand_stars(v)
        return Const(len(v.items))
    if t in (Tup, SetO):
        return Const(len(v.items))
    if t is GenO and v.view is not None:
        return Const(len(list(v.view())))
    if t is DictO:
        if v.rest is not None:
            return Term('len', (v,), 'int', lo=len(v.d))
        return Const(len(v.d))
    if t is Const:
        try:
            return Const(len(v.v))
        except TypeError as e:
            ip.raise_('TypeError', str(e))
    if v.ty == 'str':
        return str_len(v)
    if t is Obj:
        m = v.cls.lookup('__len__')
        if m is not None:
            return ip.call(m, [v], {})
        ip.raise_('TypeError', "object of type '%s' has no len()" % v.cls.name)
    if isinstance(v, HObj):
        if _host.has(v, '__len__'):
            raise Unsupported('len(%r)' % (v,))
        ip.raise_('TypeError', 'object has no len()')
    return Term('len', (v,), 'int', lo=0)


def b_isinstance(ip, a, k):
    return Const(ip.isinstance_(a[0], a[1]))


def b_issubclass(ip, a, k):
    c, s = a
    specs = s.items if type(s) is Tup else [s]
    if type(c) is not ClassO:
        return Const(ip.ask(('issubclass', c, s)))
    return Const(any(type(x) is ClassO and c.issub(x) for x in specs))


def b_hasattr(ip, a, k):
    return Const(ip.hasattr_(a[0], cstr(ip, a[1])))


def b_getattr(ip, a, k):
    o, n = ip.resolve(a[0]), ip.resolve(a[1])
    default = a[2] if len(a) > 2 else None
    if type(n) is not Const:
        return sym_getattr(ip, o, n, default)
    if default is not None:
        if type(o) in (Sym, Term) and method(ip, o, n.v) is None:
            if not ip.hasattr_(o, n.v):
                return default
            return ip.getattr(o, n.v)
        try:
            v = ip.getattr_opt(o, n.v)
        except PyExc as e:
            if isinstance(e.val, Obj) and e.val.cls.issub(ip.exc_class('AttributeError')):
                return default
            raise
        return default if v is None else v
    return ip.getattr(o, n.v)


def sym_getattr(ip, o, n, default):
    """getattr with a computed name: split over the attributes whose name fits
    the shape of the name, plus 'none of them'."""
    if type(o) is not Obj:
        raise Unsupported('getattr with unknown name')
    if type(n) is Cat and type(n.parts[0]) is Const and len(n.parts) == 2:
        pre = n.parts[0].v
        part = ip.resolve(n.parts[1])
        names = set()
        for c in o.cls.mro:
            names.update(x for x in c.ns if x.startswith(pre))
        names.update(x for x in o.attrs if x.startswith(pre))
        dom = [Const(x[len(pre):]) for x in sorted(names)]
        if type(part) in (Sym, Term):
            if ip.in_consts(part, dom):
                part = ip.resolve(part)
                if type(part) is not Const:
                    cand = sorted(ip.domain[part][1], key=repr)
                    i = ip.choose(len(cand), ('attrname', n))
                    ip.domain[part] = ('in', frozenset([cand[i]]))
                    part = cand[i]
                return ip.getattr(o, pre + part.v)
            if default is not None:
                return default
            ip.raise_('AttributeError', n)
    raise Unsupported('getattr with unknown name %r' % (n,))


def b_setattr(ip, a, k):
    ip.setattr(a[0], cstr(ip, a[1]), a[2])
    return NONE


def b_delattr(ip, a, k):
    ip.delattr(a[0], cstr(ip, a[1]))
    return NONE


def b_repr(ip, a, k):
    return ip.repr_(a[0])


def b_iter(ip, a, k):
    if len(a) > 1:
        def go():
            while True:
                v = ip.call(a[0], [], {})
                if ip.decide_eq(v, a[1]):
                    return
                yield v
        return GenO(go(), 'iter(f, sentinel)')
    return ip.get_iter(a[0])


def b_next(ip, a, k):
    return ip.next_(a[0], a[1] if len(a) > 1 else None)


def b_range(ip, a, k):
    vals = [ip.resolve(x) for x in a]
    if all(type(x) is Const for x in vals):
        try:
            return ListO([Const(i) for i in range(*[x.v for x in vals])])
        except TypeError as e:
            ip.raise_('TypeError', str(e))
    if len(vals) == 1:
        lo, hi, step = Const(0), vals[0], Const(1)
    else:
        lo, hi = vals[:2]
        step = vals[2] if len(vals) > 2 else Const(1)
    return ListO([Star('range', lambda ip, i: lin_add(lo, lin_scale(step, i)))])


def b_enumerate(ip, a, k):
    start = ip.resolve(arg(a, k, 1, 'start', Const(0)))

    def go():
        i = start
        for x in ip.iterate(a[0]):
            yield Tup([i, x])
            i = lin_add(i, Const(1))
    return GenO(go(), 'enumerate')


def b_zip(ip, a, k):
    def go():
        its = [ip.iterate(x) for x in a]
        while True:
            row = []
            for it in its:
                try:
                    row.append(next(it))
                except StopIteration:
                    return
            yield Tup(row)
    return GenO(go(), 'zip')


def b_map(ip, a, k):
    def go():
        if len(a) == 2:
            for x in ip.iterate(a[1]):
                yield ip.call(a[0], [x], {})
            return
        for t in ip.iterate(b_zip(ip, a[1:], {})):
            yield ip.call(a[0], list(t.items), {})
    return GenO(go(), 'map')


def b_filter(ip, a, k):
    def go():
        for x in ip.iterate(a[1]):
            if (ip.truth(x) if ip.is_none(a[0]) else
                    ip.truth(ip.call(a[0], [x], {}))):
                yield x
    return GenO(go(), 'filter')


def b_reversed(ip, a, k):
    v = a[0]
    return GenO(iter(list(reversed(ip.to_items(v)))), 'reversed')


def b_sorted(ip, a, k):
    items = ip.to_items(a[0])
    return ListO(sort_items(ip, items, k))


def sort_items(ip, items, k):
    key = k.get('key')
    rev = 'reverse' in k and ip.truth(k['reverse'])
    dec = [(ip.call(key, [x], {}) if key is not None and not ip.is_none(key) else x, x)
           for x in items]
    if all(type(d[0]) is Const for d in dec):
        try:
            dec.sort(key=lambda d: d[0].v, reverse=rev)
        except TypeError as e:
            ip.raise_('TypeError', str(e))
        return [d[1] for d in dec]
    out = []
    for d in dec:          # stable insertion
        i = len(out)
        while i > 0 and ip.order('gt' if rev else 'lt', d[0], out[i - 1][0]):
            i -= 1
        out.insert(i, d)
    return [d[1] for d in out]


def b_sum(ip, a, k):
    r = a[1] if len(a) > 1 else Const(0)
    for x in ip.iterate(a[0]):
        r = ip.binop(ast.Add(), r, x)
    return r


def _minmax(ip, a, k, op):
    items = list(a) if len(a) > 1 else ip.to_items(a[0])
    if not items:
        if 'default' in k:
            return k['default']
        ip.raise_('ValueError', 'empty sequence')
    key = k.get('key')
    f = (lambda x: ip.call(key, [x], {})) if key is not None else (lambda x: x)
    best = items[0]
    for x in items[1:]:
        if ip.order(op, ip.resolve(f(x)), ip.resolve(f(best))):
            best = x
    return best


def b_max(ip, a, k):
    return _minmax(ip, a, k, 'gt')


def b_min(ip, a, k):
    return _minmax(ip, a, k, 'lt')


def b_abs(ip, a, k):
    v = ip.resolve(a[0])
    if type(v) is Const:
        return Const(abs(v.v))
    return Term('abs', (v,), 'int', lo=0)


def b_any(ip, a, k):
    return Const(any(ip.truth(x) for x in ip.iterate(a[0])))


def b_all(ip, a, k):
    return Const(all(ip.truth(x) for x in ip.iterate(a[0])))


def b_callable(ip, a, k):
    v = ip.resolve(a[0])
    if type(v) in (FuncO, BoundO, Native, ClassO, PartialO):
        return TRUE
    if type(v) is Obj:
        return Const(v.cls.lookup('__call__') is not None)
    if type(v) in (Sym, Term) and v.ty == 'any':
        return Const(ip.ask(('callable', v)))
    return FALSE


def b_id(ip, a, k):
    return Term('id', (a[0],), 'int')


def b_hash(ip, a, k):
    return Term('hash', (a[0],), 'int')


def b_print(ip, a, k):
    f = k.get('file', NONE)
    if f is NONE:
        ip.event('print', tuple(a))
        return NONE
    sep, end = k.get('sep', NONE), k.get('end', NONE)
    out = []
    for i, x in enumerate(a):
        if i:
            out.append(Const(' ') if sep is NONE else sep)
        out.append(ip.to_str(x))
    out.append(Const('\n') if end is NONE else end)
    ip.call(ip.getattr(f, 'write'), [cat(*out)], {})
    return NONE


def b_slice(ip, a, k):
    a = list(a)
    if len(a) == 1:
        a = [NONE, a[0]]
    return SliceO((a + [NONE])[:3])


def b_chr(ip, a, k):
    v = ip.resolve(a[0])
    if type(v) is Const and isinstance(v.v, int):
        if not -2 ** 63 <= v.v < 2 ** 63:
            ip.raise_('OverflowError', 'int too large to convert to int')
        if not 0 <= v.v < 0x110000:
            ip.raise_('ValueError', 'chr() arg out of range')
        return Const(chr(v.v))
    return Term('chr', (v,), 'str', nonempty=True)


def b_ord(ip, a, k):
    v = ip.resolve(a[0])
    if type(v) is Const:
        return Const(ord(v.v))
    return Term('ord', (v,), 'int', lo=0)


def b_property(ip, a, k):
    return DescO('property', a[0] if a else k.get('fget'),
                 a[1] if len(a) > 1 else k.get('fset'))


def b_classmethod(ip, a, k):
    return DescO('classmethod', a[0])


def b_staticmethod(ip, a, k):
    return DescO('staticmethod', a[0])


def b_dir(ip, a, k):
    o = ip.resolve(a[0])
    names = set()
    if type(o) is ClassO:
        for c in o.mro:
            names.update(c.ns)
    elif type(o) is Obj:
        names.update(o.attrs)
        for c in o.cls.mro:
            names.update(c.ns)
    elif type(o) is ModO:
        names.update(x.v for x in o.ns.d)
    else:
        raise Unsupported('dir(%r)' % (o,))
    names.update(('__class__', '__dict__', '__doc__', '__module__')
                 if type(o) is Obj else ('__doc__', '__module__'))
    names = [n for n in names if ip.getattr_opt(o, n) is not None]
    return ListO([Const(n) for n in sorted(names)])


def b_vars(ip, a, k):
    return ip.getattr(a[0], '__dict__')


def b_open(ip, a, k):
    return ip.call(ip.load_module('io').ns.d[Const('open')], a, k)


def b_super(ip, a, k):
    return SuperO(a[0], a[1])


def b___import__(ip, a, k):
    raise Unsupported('__import__')


def b_eval(ip, a, k):
    raise Unsupported('eval')


def b_format(ip, a, k):
    return ip.format_spec(a[0], a[1] if len(a) > 1 else EMPTY)


def b_divmod(ip, a, k):
    x, y = ip.resolve(a[0]), ip.resolve(a[1])
    if type(x) is Const and type(y) is Const:
        return Tup([Const(x.v // y.v), Const(x.v % y.v)])
    q = Term('FloorDiv', (x, y), 'int', lo=0)
    return Tup([q, Term('Mod', (x, y), 'int', lo=0)])


# intrinsics available to stubs and drivers
def b___sym__(ip, a, k):
    name = cstr(ip, a[0])
    ty = cstr(ip, a[1]) if len(a) > 1 else 'any'
    return Sym(name, ty, **{n: (v.v if type(v) is Const else v) for n, v in k.items()})


def b___fresh__(ip, a, k):
    name = ip.fresh(cstr(ip, a[0]))
    ty = cstr(ip, a[1]) if len(a) > 1 else 'any'
    return Sym(name, ty, **{n: (v.v if type(v) is Const else v) for n, v in k.items()})


def b___term__(ip, a, k):
    ty = k.pop('ty').v if 'ty' in k else 'any'
    return Term(cstr(ip, a[0]), tuple(a[1:]), ty)


def b___event__(ip, a, k):
    ip.event(cstr(ip, a[0]), *a[1:])
    return NONE


def b___fork__(ip, a, k):
    return Const(ip.ask(('fork',) + tuple(a)))


def b___choose__(ip, a, k):
    return a[ip.choose(len(a), 'choose')]


OPTIONAL_HOOKS = {'file.may_fail', 'babel.import'}


def b___hook__(ip, a, k):
    """call the scenario hook registered under a name"""
    h = ip.config.get('hooks', {}).get(cstr(ip, a[0]))
    if h is None:
        if a[0].v in OPTIONAL_HOOKS:
            return NONE
        raise Unsupported('no model of ' + a[0].v)
    r = h(ip, *a[1:])
    return NONE if r is None else r


# ---------------------------------------------------------------- exec
class CodeRender:
    """Turn the text of generated code into parseable Python with holes."""
    def __init__(self, ip):
        self.ip = ip
        self.holes = {}     # identifier -> value
        self.raw = {}       # hole marker -> Sym text
        self.n = 0

    def render(self, v):
        parts = v.parts if type(v) is Cat else (v,)
        return ''.join(self.part(p) for p in parts)

    def part(self, p):
        p = self.ip.resolve(p)
        if type(p) is Const:
            return p.v
        if type(p) is Term and p.op == 'repr':
            self.n += 1
            name = 'KJLIT_%d' % self.n
            self.holes[name] = p.args[0]
            return "'%s_'" % name
        if type(p) is Term and p.op == 'repeat' and p.args[0] == Const(' '):
            raise Unsupported('symbolic indentation')
        if type(p) is Term and p.op in ('strip', 'lstrip', 'rstrip'):
            return self.part(p.args[0])
        if type(p) is Term and p.op == 'slice' and type(p.args[0]) is Sym and \
                p.args[0].props.get('code') and all(
                    _strippy(q, p.args[0]) for q in p.args[1:]):
            return self.part(p.args[0])
        if type(p) is Sym and p.props.get('code'):
            for nm, s in self.raw.items():
                if s == p:
                    return '%sa if %sb else %sc' % (nm, nm, nm)
            self.n += 1
            nm = 'KJE%d_' % self.n
            self.raw[nm] = p
            return '%sa if %sb else %sc' % (nm, nm, nm)
        # any other unknown text in code position
        for nm, s in self.raw.items():
            if s == p and nm.startswith('KJRAW'):
                return nm
        self.n += 1
        name = 'KJRAW_%d' % self.n
        self.raw[name] = p
        return name


def _strippy(q, s):
    c, d = lin_parts(q)
    return all(type(a) is Term and a.op in ('pos', 'len') and a.args[0] == s for a in d)


class _Collapse(ast.NodeTransformer):
    def __init__(self, cr, ip):
        self.cr, self.ip = cr, ip

    def visit_Constant(self, n):
        # a quoted text is a literal whose value is the unknown text
        if isinstance(n.value, str) and 'KJLIT_' in n.value:
            out = None
            for w in _re.split(r'(KJLIT_\d+_)', n.value):
                if not w:
                    continue
                e = ast.copy_location(ast.Name(id=w[:-1], ctx=ast.Load())
                                      if w.startswith('KJLIT_') else ast.Constant(value=w), n)
                out = e if out is None else ast.copy_location(
                    ast.BinOp(left=out, op=ast.Add(), right=e), n)
            return out
        return n

    def visit_IfExp(self, n):
        if isinstance(n.body, ast.Name) and n.body.id.startswith('KJE'):
            nm = n.body.id[:-1]
            if (isinstance(n.test, ast.Name) and n.test.id == nm + 'b' and
                    isinstance(n.orelse, ast.Name) and n.orelse.id == nm + 'c'):
                s = self.cr.raw[nm]
                self.cr.holes[nm + 'v'] = s
                return ast.copy_location(ast.Name(id=nm + 'v', ctx=ast.Load()), n)
        self.generic_visit(n)
        return n


def parse_generated(ip, text, mode='exec'):
    """Parse a generated program; returns (tree, source) or raises the
    program's SyntaxError."""
    cr = CodeRender(ip)
    src = cr.render(text)
    try:
        tree = ast.parse(src, '<generated>', mode)
    except SyntaxError as e:
        ip.config.setdefault('_gen_src', src)
        exc = ip.instantiate(ip.exc_class(
            'IndentationError' if isinstance(e, IndentationError) else 'SyntaxError'),
            [Const(str(e.msg))], {})
        exc.attrs.update(msg=Const(str(e.msg)), filename=Const('<string>'),
                         lineno=Const(e.lineno or 0), offset=Const(e.offset or 0),
                         text=Const(e.text or ''))
        ip.event('generated-syntax-error', Const(str(e)), Const(src))
        raise PyExc(exc, ip.where())
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)) and \
                ("'KJLIT_" in str(n.value) or isinstance(n.value, bytes) and
                 b'KJLIT_' in n.value):
            ip.event('repr-in-literal', Const(n.value))
        elif isinstance(n, ast.JoinedStr) and 'KJLIT_' in ast.dump(n):
            ip.event('repr-in-literal', Const(ast.dump(n)))
    if _re.search(r"[rR]'KJLIT_", src):
        ip.event('repr-in-literal', Const(src))
    tree = _Collapse(cr, ip).visit(tree)
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            if n.id.startswith('KJE') and n.id[-1] in 'abc':
                ip.event('splice', cr.raw[n.id[:-1]], Const(src))
                raise Unsupported('expression text spliced into a larger expression')
            if n.id.startswith('KJRAW_'):
                h = ip.config.get('hooks', {}).get('rawvalue')
                cr.holes[n.id] = h(ip, cr.raw[n.id]) if h else \
                    Term('eval', (cr.raw[n.id],), 'str')
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            if 'KJRAW_' in n.value or _re.search(r'KJE\d+_a if', n.value):
                bad = [s for nm, s in cr.raw.items() if nm in n.value]
                ip.event('raw-in-literal', tuple(bad), Const(src))
    holes = dict(ip.config.get('holes', {}))
    for nm, v in cr.holes.items():
        if type(v) is Sym and nm.startswith('KJE'):
            v = code_value(ip, v)
        holes[nm] = v
    ip.config['holes'] = holes
    return tree, src


def code_value(ip, s):
    """Value of the user expression whose text is the code symbol s."""
    val = s.props.get('value')
    if val is not None:
        return val
    return Sym('val(%s)' % s.name, 'any')


def b_exec(ip, a, k):
    text = ip.resolve(a[0])
    g = a[1] if len(a) > 1 else NONE
    if type(g) is not DictO:
        raise Unsupported('exec without dict')
    if type(text) is Obj and text.data and text.data.get('kind') == 'compiled':
        tree, src = text.data['tree'], text.data['src']
    else:
        if text.ty != 'str':
            raise Unsupported('exec of %r' % (text,))
        tree, src = parse_generated(ip, text)
    ip.event('exec', text, Const(src))
    if Const('__builtins__') not in g.d:
        ip.touch(g, '__builtins__')
        g.d[Const('__builtins__')] = ip.builtins_mod
    fr = Frame('<generated>', g, '<generated>')
    fr.glob = g
    ip.run_frame(fr, tree.body)
    return NONE


def b_compile(ip, a, k):
    text = ip.resolve(a[0])
    mode = cstr(ip, arg(a, k, 2, 'mode', Const('exec')))
    h = ip.config.get('hooks', {}).get('compile')
    if h:
        r = h(ip, text, mode)
        if r is not None:
            return r
    if mode == 'exec' and text.ty == 'str':
        tree, src = parse_generated(ip, text)
        o = Obj(ip.types['code'], data=dict(kind='compiled', tree=tree, src=src))
        return o
    if type(text) is Const and isinstance(text.v, str) and '\0' in text.v:
        ip.raise_('ValueError', 'source code string cannot contain null bytes')
    u = unmatched_brace(text) if mode == 'eval' else None
    if type(text) is Const and u is None:
        # blanks before an expression do not matter to the compiler
        lead = len(text.v) - len(text.v.lstrip(' \t')) if mode == 'eval' else 0
        try:
            ast.parse(text.v[lead:], mode=mode)
        except SyntaxError as e:
            exc = ip.instantiate(ip.exc_class('SyntaxError'), [Const(str(e.msg))], {})
            exc.attrs.update(msg=Const(str(e.msg)), lineno=Const(e.lineno or 0),
                             offset=Const((e.offset or 0) + (lead if e.lineno == 1 else 0)))
            raise PyExc(exc, ip.where())
        return Obj(ip.types['code'])
    if u is not None:
        line, off = u
        exc = ip.instantiate(ip.exc_class('SyntaxError'), [Const("unmatched '}'")], {})
        exc.attrs.update(msg=Const("unmatched '}'"), lineno=Const(line), offset=Const(off),
                         filename=Const('<string>'))
        raise PyExc(exc, ip.where())
    # unknown text: it may or may not be valid Python
    if ip.ask(('compiles', text)):
        return Obj(ip.types['code'])
    exc = ip.instantiate(ip.exc_class('SyntaxError'), [Const('invalid syntax')], {})
    exc.attrs.update(msg=Const('invalid syntax'),
                     lineno=Term('err_lineno', (text,), 'int', lo=1),
                     offset=Term('err_offset', (text,), 'int', lo=1),
                     filename=Const('<string>'))
    raise PyExc(exc, ip.where())


def unmatched_brace(text):
    """(line, column) of the first unmatched '}' if it lies in the known prefix
    of the text and what precedes it is a complete expression"""
    pre = text.parts[0] if type(text) is Cat else text
    if type(pre) is not Const:
        return None
    for i, ch in enumerate(pre.v):
        if ch == '}':
            head = pre.v[:i]
            try:
                ast.parse(head.strip() and '(' + head + '\n)', mode='eval')
            except SyntaxError:
                continue
            return head.count('\n') + 1, i - (head.rfind('\n') + 1) + 1
    return None


def line_table(ip, node, first):
    """a line table as the compiler of Python 3.6 to 3.9 lays it out, with
    config line_step bytes per line of code (empty unless configured)"""
    step = ip.config.get('line_step')
    if not step or not isinstance(node, ast.FunctionDef):
        return b''
    out, line, size = [], first, 0
    for n in code_lines(node):
        bd, ld = size, n - line
        while bd > 255:
            out += [255, 0]
            bd -= 255
        while ld > 127:
            out += [bd, 127]
            bd, ld = 0, ld - 127
        while ld < -128:
            out += [bd, 128]
            bd, ld = 0, ld + 128
        out += [bd, ld & 255]
        line, size = n, step
    return bytes(out)


def code_lines(node):
    """the lines of the statements of a function, in the order of its code"""
    out = []

    def exprs(n):
        """operands in order, then the line of the expression itself"""
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr) and not isinstance(x, ast.Lambda):
                exprs(x)
        add(n.lineno)

    def add(n):
        if not out or out[-1] != n:
            out.append(n)

    def go(body):
        for s in body:
            add(s.lineno)
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    exprs(x)
            add(s.lineno)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                go(getattr(s, f, ()) or ())
    go(node.body)
    return out


def code_of(ip, f):
    node = f.node
    a = node.args
    params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
    first = getattr(node, 'lineno', 0)
    decs = getattr(node, 'decorator_list', None)
    if decs:
        first = min([first] + [d.lineno for d in decs])
    attrs = dict(
        co_argcount=Const(len(a.posonlyargs) + len(a.args)),
        co_posonlyargcount=Const(len(a.posonlyargs)),
        co_kwonlyargcount=Const(len(a.kwonlyargs)),
        co_name=Const(f.name), co_filename=Const('<string>'),
        co_firstlineno=Const(first), co_lnotab=Const(line_table(ip, node, first)),
        co_varnames=Tup([Const(p) for p in params]))
    c = CodeO(f, attrs)
    for n in ('co_nlocals', 'co_stacksize', 'co_flags', 'co_code', 'co_consts',
              'co_names', 'co_freevars', 'co_cellvars', 'co_qualname', 'co_linetable',
              'co_exceptiontable'):
        attrs[n] = Term('code.' + n, (c,))
    attrs['replace'] = Native('code.replace', lambda ip, a_, k_: _code_replace(ip, c, k_))
    return c


def _code_replace(ip, c, k):
    at = dict(c.attrs)
    at.update(k)
    c2 = CodeO(c.func, at)
    at['replace'] = Native('code.replace', lambda ip, a_, k_: _code_replace(ip, c2, k_))
    ip.event('code', c2, at['co_filename'], at['co_firstlineno'], at['co_lnotab'])
    return c2


def make_code(ip, a, k):
    """types.CodeType(*args): keep the identity of the wrapped code."""
    src = None
    for x in a:
        if type(x) is Term and x.op == 'code.co_code':
            src = x.args[0]
    if src is None:
        raise Unsupported('CodeType from unknown parts')
    names = ['co_argcount', 'co_posonlyargcount', 'co_kwonlyargcount', 'co_nlocals',
             'co_stacksize', 'co_flags', 'co_code', 'co_consts', 'co_names',
             'co_varnames', 'co_filename', 'co_name', 'co_firstlineno', 'co_lnotab',
             'co_freevars', 'co_cellvars']
    if len(a) not in (14, 16):
        ip.raise_('TypeError', 'code() takes 14 to 16 arguments (%d given)' % len(a))
    if len(a) == 14:
        names.remove('co_freevars')
        names.remove('co_cellvars')
    at = dict(src.attrs)
    for n, v in zip(names, a):
        old = src.attrs[n]
        if n not in ('co_filename', 'co_firstlineno', 'co_lnotab', 'co_name') and v != old:
            ip.event('code-field-mixup', Const(n), v)
            ip.raise_('TypeError', 'code(): field %s built from %r' % (n, v))
        at[n] = v
    c = CodeO(src.func, at)
    ip.event('code', c, at['co_filename'], at['co_firstlineno'], at['co_lnotab'])
    return c


def make_function(ip, a, k):
    """types.FunctionType(code, globals, name, defaults, closure)"""
    names = ('code', 'globals', 'name', 'argdefs', 'closure')
    vals = dict(zip(names, a))
    vals.update(k)
    code, g = vals['code'], vals['globals']
    if type(code) is not CodeO:
        raise Unsupported('FunctionType of %r' % (code,))
    if type(g) is not DictO:
        ip.raise_('TypeError', 'FunctionType globals must be a dict')
    src = code.func
    clo = vals.get('closure', NONE)
    if src.closure is not None and (clo is NONE or clo == NONE):
        # function with free variables needs its closure
        if _has_free(src):
            ip.raise_('TypeError', 'arg 5 (closure) must be tuple')
    dv = vals.get('argdefs', NONE)
    defaults = list(dv.items) if type(dv) is Tup else []
    name = vals.get('name', Const(src.name))
    f = FuncO(name.v if type(name) is Const else src.name, src.node, g, src.closure,
              defaults, {}, src.module, src.qual)
    f.isgen = src.isgen
    f.defcls = src.defcls
    f.code = code
    return f


def _has_free(f):
    si = scope_info(f.node)
    used = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)} - si.localnames
    p = f.closure
    while p is not None:
        if p.localnames and used & p.localnames:
            return True
        p = p.parent
    return False


# ===================================================================== classes
def construct(ip, cls, args, kw):
    n = cls.builtin
    if n == 'type':
        if len(args) == 1:
            v = ip.resolve(args[0])
            c = ip.class_of(v)
            return c if c is not None else Term('type', (v,))
        name, bases, ns = args
        d = {}
        for k, v in ns.d.items():
            d[k.v] = v
        c = ip.make_class(cstr(ip, name), list(bases.items), d)
        c.qual = c.name
        return c
    if n == 'str':
        if not args:
            return EMPTY
        if len(args) > 1 or 'encoding' in kw:
            return Term('decode', (args[0], arg(args, kw, 1, 'encoding')), 'str')
        return ip.to_str(args[0])
    if n == 'int':
        v = ip.resolve(args[0]) if args else Const(0)
        if type(v) is Const:
            try:
                return Const(int(v.v, args[1].v) if len(args) > 1 else int(v.v))
            except (ValueError, TypeError) as e:
                ip.raise_(type(e).__name__, str(e))
        if v.ty == 'int':
            return v
        return Term('int', tuple(args), 'int')
    if n == 'bool':
        return Const(ip.truth(args[0]) if args else False)
    if n == 'float':
        v = ip.resolve(args[0])
        if type(v) is Const:
            return Const(float(v.v))
        return Term('float', (v,))
    if n == 'bytearray':
        if args and type(ip.resolve(args[0])) is Const and isinstance(ip.resolve(args[0]).v, int):
            return ListO([Const(0)] * ip.resolve(args[0]).v, n)
        return ListO(ip.to_items(args[0]) if args else [], n)
    if n in ('list', 'deque'):
        maxlen = arg(args, kw, 1, 'maxlen')
        items = ip.to_items(args[0]) if args else []
        ml = None
        if maxlen is not None and not ip.is_none(maxlen):
            ml = cstr(ip, maxlen)
            items = items[-ml:] if ml else []
        return ListO(items, n, ml)
    if n == 'tuple':
        return Tup(ip.to_items(args[0]) if args else [])
    if n in ('set', 'frozenset'):
        return SetO([ip.resolve(x) for x in ip.to_items(args[0])] if args else [], n)
    if n in ('dict', 'defaultdict'):
        d = DictO()
        a = list(args)
        if n == 'defaultdict':
            if a:
                d.factory = a.pop(0)
                if ip.is_none(d.factory):
                    d.factory = None
        if a:
            ip.dict_update(d, a[0])
        for k, v in kw.items():
            ip.dict_set(d, Const(k), v)
        return d
    if n == 'bytes':
        if not args:
            return Const(b'')
        v = ip.resolve(args[0])
        if type(v) is ListO or type(v) is Tup:
            items = [ip.resolve(x) for x in v.items]
            if all(type(x) is Const for x in items):
                try:
                    return Const(bytes([x.v for x in items]))
                except ValueError as e:
                    ip.raise_('ValueError', str(e))
            for x in items:
                if type(x) is not Const:
                    # every element must be in range(256)
                    if not (ip.order('ge', x, Const(0)) and ip.order('lt', x, Const(256))):
                        ip.raise_('ValueError', 'bytes must be in range(0, 256)')
            return Term('bytes', tuple(items), 'bytes')
        if is_str(v):
            return Term('encode', (v, args[1] if len(args) > 1 else NONE), 'bytes')
        return Term('bytes', (v,), 'bytes')
    if n == 'module':
        return ModO(cstr(ip, args[0]))
    if n == 'code':
        return make_code(ip, args, kw)
    if n == 'function':
        return make_function(ip, args, kw)
    raise Unsupported('construct %s' % n)


def obj_attr(ip, o, name):
    return None


def class_attr(ip, c, name):
    if c.builtin:
        if c.builtin in ('str', 'dict', 'list', 'set', 'bytes'):
            if c.builtin == 'dict' and name == 'fromkeys':
                def fromkeys(ip, a, k):
                    d = DictO()
                    for x in ip.iterate(a[0]):
                        ip.dict_set(d, x, a[1] if len(a) > 1 else NONE)
                    return d
                return Native('dict.fromkeys', fromkeys)
            if c.builtin == 'str' and name == 'maketrans':
                return Native('str.maketrans', _maketrans)

            def unbound(ip, a, k):
                m = method(ip, ip.resolve(a[0]), name)
                if m is None:
                    raise Unsupported('%s.%s' % (c.builtin, name))
                return ip.call(m, a[1:], k)
            return Native('%s.%s' % (c.builtin, name), unbound)
    if name == '__doc__':
        return NONE
    if name == '__subclasses__':
        raise Unsupported('__subclasses__')
    return None


def _maketrans(ip, a, k):
    d = DictO()
    if len(a) == 1:
        for kk, v in a[0].d.items():
            ip.dict_set(d, Const(ord(kk.v)) if type(kk.v) is str else kk, v)
    else:
        for x, y in zip(cstr(ip, a[0]), cstr(ip, a[1])):
            ip.dict_set(d, Const(ord(x)), Const(y))
    return d


def super_attr(ip, s, name):
    o = s.obj
    if type(o) is DictO:
        m = method(ip, o, name)
        if m is not None:
            return m
        if name == '__init__':
            def init(ip, a, k):
                if a:
                    ip.dict_update(o, a[0])
                for kk, v in k.items():
                    ip.dict_set(o, Const(kk), v)
                return NONE
            return Native('dict.__init__', init)
        if name == '__setitem__':
            return Native('dict.__setitem__', lambda ip, a, k: (ip.dict_set(o, a[0], a[1]), NONE)[1])
        if name == '__getitem__':
            return Native('dict.__getitem__', lambda ip, a, k: ip.getitem(o, a[0]))
    if name == '__init__':
        return Native('object.__init__', lambda ip, a, k: NONE)
    return None


def type_has(ip, c, name):
    probe = {'str': Const(''), 'dict': None}
    b = c.builtin
    import builtins
    pt = getattr(builtins, b, None)
    if pt is None:
        return False
    return hasattr(pt, name)


# ===================================================================== methods
def method(ip, o, name):
    t = type(o)
    if t is ListO:
        fn = globals().get('l_' + name)
    elif t is DictO:
        fn = globals().get('d_' + name)
    elif t is SetO:
        fn = globals().get('st_' + name)
    elif t is Tup:
        fn = globals().get('tp_' + name)
    elif t is GenO:
        fn = globals().get('g_' + name)
    elif o.ty == 'str':
        fn = globals().get('s_' + name)
        if fn is None and hasattr(str, name) and not name.startswith('__'):
            def fn(ip, s, a, k, name=name):
                s = ip.resolve(s)
                aa = [ip.resolve(x) for x in a]
                if type(s) is Const and all(type(x) is Const for x in aa):
                    return lift(getattr(s.v, name)(*[x.v for x in aa]))
                return Term('str.' + name, (s,) + tuple(a),
                            'bool' if name.startswith('is') else 'any')
        elif fn is None and name == '__len__':
            fn = lambda ip, s, a, k: str_len(s)
    elif o.ty == 'bytes':
        fn = globals().get('by_' + name)
    elif o.ty == 'int':
        fn = None
    elif t in (Sym, Term):
        c = ip.class_of(o)
        if c is not None and c.builtin == 'str':
            fn = globals().get('s_' + name)
            if fn is not None:
                return Native('str.' + name, lambda ip, a, k: fn(
                    ip, Term('str', (o,), 'str'), a, k))
        fn = None
    else:
        fn = None
    if fn is None:
        return None
    return Native('%s.%s' % (t.__name__, name), lambda ip, a, k: fn(ip, o, a, k))


def lift(v):
    if isinstance(v, list):
        return ListO([lift(x) for x in v])
    if isinstance(v, tuple):
        return Tup([lift(x) for x in v])
    if isinstance(v, dict):
        return DictO({lift(x): lift(y) for x, y in v.items()})
    if isinstance(v, (set, frozenset)):
        return SetO([lift(x) for x in v])
    return Const(v)


# ---- list
def l_append(ip, o, a, k):
    ip.touch(o, 'append')
    o.items.append(a[0])
    if o.maxlen is not None:
        while len(o.items) > o.maxlen:
            o.items.pop(0)
    return NONE


def l_appendleft(ip, o, a, k):
    ip.touch(o, 'appendleft')
    o.items.insert(0, a[0])
    return NONE


def l_extend(ip, o, a, k):
    items = ip.to_items(a[0])
    ip.touch(o, 'extend')
    o.items.extend(items)
    if o.maxlen is not None:
        o.items = o.items[-o.maxlen:]
    return NONE


def l_insert(ip, o, a, k):
    ip.expand_stars(o)
    i = cstr(ip, a[0])
    ip.touch(o, 'insert')
    o.items.insert(i, a[1])
    return NONE


def l_pop(ip, o, a, k):
    ip.expand_stars(o)
    if not o.items:
        ip.raise_('IndexError', 'pop from empty list')
    ip.touch(o, 'pop')
    i = cstr(ip, a[0]) if a else -1
    if not -len(o.items) <= i < len(o.items):
        ip.raise_('IndexError', 'pop index out of range')
    return o.items.pop(i)


def l_popleft(ip, o, a, k):
    return l_pop(ip, o, [Const(0)], {})


def l_remove(ip, o, a, k):
    ip.expand_stars(o)
    for i, x in enumerate(o.items):
        if ip.decide_eq(x, a[0]):
            ip.touch(o, 'remove')
            del o.items[i]
            return NONE
    ip.raise_('ValueError', 'list.remove(x): x not in list')


def l_rotate(ip, o, a, k):
    n = cstr(ip, a[0]) if a else 1
    ip.touch(o, 'rotate')
    if o.items:
        n %= len(o.items)
        o.items = o.items[-n:] + o.items[:-n] if n else o.items
    return NONE


def l_extendleft(ip, o, a, k):
    for x in ip.to_items(a[0]):
        l_appendleft(ip, o, [x], {})
    return NONE


def l_decode(ip, o, a, k):
    return ip.call(ip.getattr(construct(ip, ip.types['bytes'], [o], {}), 'decode'), a, k)


def l_index(ip, o, a, k):
    ip.expand_stars(o)
    for i, x in enumerate(o.items):
        if ip.decide_eq(x, a[0]):
            return Const(i)
    ip.raise_('ValueError', 'not in list')


def l_count(ip, o, a, k):
    ip.expand_stars(o)
    return Const(sum(1 for x in o.items if ip.decide_eq(x, a[0])))


def l_reverse(ip, o, a, k):
    ip.expand_stars(o)
    ip.touch(o, 'reverse')
    o.items.reverse()
    return NONE


def l_sort(ip, o, a, k):
    ip.expand_stars(o)
    items = sort_items(ip, list(o.items), k)
    ip.touch(o, 'sort')
    o.items = items
    return NONE


def l_clear(ip, o, a, k):
    ip.touch(o, 'clear')
    o.items = []
    return NONE


def l_copy(ip, o, a, k):
    return ListO(o.items, o.kind)


def l___iter__(ip, o, a, k):
    return ip.get_iter(o)


def l___len__(ip, o, a, k):
    return b_len(ip, [o], {})


def l___getitem__(ip, o, a, k):
    return ip.getitem(o, a[0])


def tp_index(ip, o, a, k):
    for i, x in enumerate(o.items):
        if ip.decide_eq(x, a[0]):
            return Const(i)
    ip.raise_('ValueError', 'not in tuple')


def tp_count(ip, o, a, k):
    return Const(sum(1 for x in o.items if ip.decide_eq(x, a[0])))


def tp___len__(ip, o, a, k):
    return Const(len(o.items))


def tp___iter__(ip, o, a, k):
    return ip.get_iter(o)


# ---- dict
def d_get(ip, o, a, k):
    v = ip.dict_get(o, a[0])
    if v is None:
        return arg(a, k, 1, 'default', NONE)
    return v


def d_items(ip, o, a, k):
    def go():
        for kk in list(ip.iterate(o)):
            v = ip.dict_get(o, kk)
            yield Tup([kk, v if v is not None else ip.rest_value(o, kk)])
    return GenO(None, 'dict.items', go)


def d_iteritems(ip, o, a, k):
    return None


def d_keys(ip, o, a, k):
    return GenO(None, 'dict.keys', lambda: ip.iterate(o))


def d_values(ip, o, a, k):
    def go():
        for kk in ip.iterate(o):
            v = ip.dict_get(o, kk)
            yield v if v is not None else ip.rest_value(o, kk)
    return GenO(None, 'dict.values', go)


def d_update(ip, o, a, k):
    if a:
        ip.dict_update(o, a[0])
    for kk, v in k.items():
        ip.dict_set(o, Const(kk), v)
    return NONE


def d_setdefault(ip, o, a, k):
    v = ip.dict_get(o, a[0])
    if v is None:
        v = a[1] if len(a) > 1 else NONE
        ip.dict_set(o, a[0], v)
    return v


def d_pop(ip, o, a, k):
    kk = ip.dict_find(o, a[0])
    if kk is None:
        if o.rest is not None and ip.ask(('inrest', o.rest, ip.resolve(a[0]))):
            raise Unsupported('pop from open dict')
        if len(a) > 1:
            return a[1]
        ip.raise_('KeyError', a[0])
    ip.touch(o, kk)
    return o.d.pop(kk)


def d_popitem(ip, o, a, k):
    if not o.d:
        ip.raise_('KeyError', 'dictionary is empty')
    ip.touch(o, 'popitem')
    last = arg(a, k, 0, 'last', TRUE)
    kk = list(o.d)[-1 if ip.truth(last) else 0]
    return Tup([kk, o.d.pop(kk)])


def d_move_to_end(ip, o, a, k):
    kk = ip.dict_find(o, a[0])
    if kk is None:
        ip.raise_('KeyError', a[0])
    ip.touch(o, 'move_to_end')
    v = o.d.pop(kk)
    if ip.truth(arg(a, k, 1, 'last', TRUE)):
        o.d[kk] = v
    else:
        rest = dict(o.d)
        o.d.clear()
        o.d[kk] = v
        o.d.update(rest)
    return NONE


def d_copy(ip, o, a, k):
    n = DictO(o.d, o.rest, o.factory)
    return n


def d_clear(ip, o, a, k):
    ip.touch(o, 'clear')
    o.d = {}
    o.rest = None
    return NONE


def d_has_key(ip, o, a, k):
    return None


def d___contains__(ip, o, a, k):
    return Const(ip.dict_has(o, a[0]))


def d___getitem__(ip, o, a, k):
    return ip.getitem(o, a[0])


def d___setitem__(ip, o, a, k):
    ip.dict_set(o, a[0], a[1])
    return NONE


def d___len__(ip, o, a, k):
    return b_len(ip, [o], {})


def d___iter__(ip, o, a, k):
    return ip.get_iter(o)


del d_iteritems, d_has_key


# ---- set
def st_add(ip, o, a, k):
    v = ip.resolve(a[0])
    if v not in o.items:
        ip.touch(o, 'add')
        o.items[v] = None
    return NONE


def st_update(ip, o, a, k):
    for s in a:
        for x in ip.iterate(s):
            st_add(ip, o, [x], {})
    return NONE


def st_discard(ip, o, a, k):
    v = ip.resolve(a[0])
    if v in o.items:
        ip.touch(o, 'discard')
        del o.items[v]
    return NONE


def st_remove(ip, o, a, k):
    v = ip.resolve(a[0])
    if v not in o.items:
        ip.raise_('KeyError', v)
    return st_discard(ip, o, a, k)


def st_clear(ip, o, a, k):
    ip.touch(o, 'clear')
    o.items = {}
    return NONE


def st_copy(ip, o, a, k):
    return SetO(o.items, o.kind)


def st_union(ip, o, a, k):
    out = list(o.items)
    for s in a:
        out += ip.to_items(s)
    return SetO(out, o.kind)


def st_isdisjoint(ip, o, a, k):
    return Const(not any(ip.contains(o, x) for x in ip.iterate(a[0])))


def st_intersection(ip, o, a, k):
    out = list(o.items)
    for s in a:
        other = SetO([ip.resolve(x) for x in ip.iterate(s)])
        out = [x for x in out if ip.contains(other, x)]
    return SetO(out, o.kind)


def st_difference(ip, o, a, k):
    out = list(o.items)
    for s in a:
        other = SetO([ip.resolve(x) for x in ip.iterate(s)])
        out = [x for x in out if not ip.contains(other, x)]
    return SetO(out, o.kind)


def st_symmetric_difference(ip, o, a, k):
    other = SetO([ip.resolve(x) for x in ip.iterate(a[0])])
    return SetO([x for x in o.items if not ip.contains(other, x)] +
                [x for x in other.items if not ip.contains(o, x)], o.kind)


def _st_inplace(fn):
    def f(ip, o, a, k):
        r = fn(ip, o, a, k)
        ip.touch(o, 'update')
        o.items = dict.fromkeys(r.items)
        return NONE
    return f


st_intersection_update = _st_inplace(st_intersection)
st_difference_update = _st_inplace(st_difference)
st_symmetric_difference_update = _st_inplace(st_symmetric_difference)


def st_pop(ip, o, a, k):
    if not o.items:
        ip.raise_('KeyError', 'pop from an empty set')
    if len(o.items) > 1:
        raise Unsupported('set.pop')
    ip.touch(o, 'pop')
    x = next(iter(o.items))
    o.items = {}
    return x


def st_issuperset(ip, o, a, k):
    return Const(all(x in o.items for x in ip.to_items(a[0])))


def st_issubset(ip, o, a, k):
    other = ip.to_items(a[0])
    return Const(all(x in other for x in o.items))


def st___contains__(ip, o, a, k):
    return Const(ip.contains(o, a[0]))


def st___iter__(ip, o, a, k):
    return ip.get_iter(o)


# ---- generator
def g___next__(ip, o, a, k):
    return ip.next_(o)


def g___iter__(ip, o, a, k):
    return ip.get_iter(o)


def g_close(ip, o, a, k):
    ip.gen_close(o)
    return NONE


def g_send(ip, o, a, k):
    try:
        return ip.gen_next(o, None if a[0] is NONE else a[0])
    except StopIteration as e:
        return _stop(ip, e)


def g_throw(ip, o, a, k):
    v = a[1] if len(a) > 1 and a[1] is not NONE else a[0]
    if type(v) is ClassO:
        v = ip.call(v, [], {})
    try:
        return ip.gen_throw(o, PyExc(v, ip.loc()))
    except StopIteration as e:
        return _stop(ip, e)


def _stop(ip, e):
    v = ip.call(ip.exc_class('StopIteration'), [e.value] if e.value not in (None, NONE) else [], {})
    v.attrs['value'] = e.value if e.value is not None else NONE
    raise PyExc(v, ip.loc())


def g_isdisjoint(ip, o, a, k):
    return Const(not any(ip.contains(a[0], x) for x in ip.iterate(o)))


# ---- str
def allconst(ip, s, a):
    return type(s) is Const and all(type(ip.resolve(x)) is Const for x in a)


def s_join(ip, s, a, k):
    out = []
    first = True
    for x in ip.iterate(a[0]):
        x = ip.resolve(x)
        if not is_str(x):
            if type(x) in (Sym, Term) and x.ty == 'any':
                if not ip.isinstance_(x, ip.types['str']):
                    ip.raise_('TypeError', 'sequence item: expected str instance')
                x = Term('str', (x,), 'str')
            else:
                ip.raise_('TypeError', 'sequence item: expected str instance, %s found'
                          % ip.describe(x))
        if not first:
            out.append(s)
        out.append(x)
        first = False
    return cat(*out)


def s_startswith(ip, s, a, k):
    p = ip.resolve(a[0])
    s = ip.resolve(s)
    if type(p) is Tup:
        return Const(any(s_startswith(ip, s, [x], {}).v for x in p.items))
    if type(s) is Const and type(p) is Const:
        return Const(s.v.startswith(p.v, *[x.v for x in a[1:]]))
    if type(p) is Const:
        if p.v == '':
            return TRUE
        head = s.parts[0] if type(s) is Cat else s
        if type(head) is Const:
            n = min(len(head.v), len(p.v))
            if head.v[:n] != p.v[:n]:
                return FALSE
            if len(head.v) >= len(p.v):
                return TRUE
        elif type(head) is Sym and head.props.get('generic') and \
                not head.props.get('open_prefix'):
            return FALSE
        elif p.v[0] in ip.excluded(head):
            return FALSE
        d = ip.domain.get(s)
        if d and d[0] == 'in':
            rs = {c.v.startswith(p.v) for c in d[1]}
            if len(rs) == 1:
                return Const(rs.pop())
        return Const(ip.ask(('startswith', head if type(head) is not Const else s, p)))
    if type(s) is Cat and s.parts[0] == p:
        return TRUE
    if type(s) is Term and s.op == 'slice' and type(p) is Term and p.op == 'slice' and \
            s.args[0] == p.args[0] and s.args[1] == p.args[1]:
        return TRUE
    if s == p:
        return TRUE
    return Const(ip.ask(('startswith', s, p)))


def s_endswith(ip, s, a, k):
    p = ip.resolve(a[0])
    s = ip.resolve(s)
    if type(p) is Tup:
        return Const(any(s_endswith(ip, s, [x], {}).v for x in p.items))
    if type(s) is Const and type(p) is Const:
        return Const(s.v.endswith(p.v))
    if type(p) is Const:
        if p.v == '':
            return TRUE
        tail = s.parts[-1] if type(s) is Cat else s
        if type(tail) is Const:
            n = min(len(tail.v), len(p.v))
            if tail.v[-n:] != p.v[-n:]:
                return FALSE
            if len(tail.v) >= len(p.v):
                return TRUE
        elif type(tail) is Sym and tail.props.get('generic'):
            return FALSE
        elif p.v[-1] in ip.excluded(tail):
            return FALSE
    return Const(ip.ask(('endswith', s, p)))


def positions(ip, s):
    """(ls, rs, len): first non-blank position, end of the last non-blank,
    length -- abstract positions of an unknown string."""
    n = str_len(s)
    ls = Term('pos', (s, 'ls'), 'int', lo=0)
    rs = Term('pos', (s, 'rs'), 'int', lo=0)
    ip.edges.add((ls, n, False))
    ip.edges.add((rs, n, False))
    if ip.facts.get(('blank', s)) is False:
        ip.edges.add((ls, rs, True))
    return ls, rs, n


def _base_slice(s):
    if type(s) is Term and s.op == 'slice':
        return s.args
    return s, Const(0), str_len(s)


def is_blank(ip, s):
    """str.strip() == '' ?"""
    s = ip.resolve(s)
    if type(s) is Const:
        return not s.v.strip()
    if type(s) is Cat:
        for p in s.parts:
            if type(p) is Const and p.v.strip():
                return False
        return all(is_blank(ip, p) for p in s.parts)
    if s.props.get('nonblank'):
        return False
    if s.props.get('blank'):
        return True
    if type(s) is Term and s.op == 'hom' and all(
            not ch.isspace() and r.strip() for ch, r in s.args[1]):
        return is_blank(ip, s.args[0])
    if type(s) is Term and s.op == 'slice':
        x, a, b = s.args
        ls, rs, n = positions(ip, x)
        if a in (Const(0), ls) and b in (n, rs):
            return is_blank(ip, x)
        if a == Const(0) and b == ls or a == rs and b == n:
            return True
    if type(s) is Term and s.op == 'repr':
        return False
    if ip.facts.get(('truth', s)) is False:
        return True
    r = ip.ask(('blank', s))
    if not r:
        ip.facts[('truth', s)] = True
        d = ip.domain.get(s)
    return r


def _strip(ip, s, a, left, right):
    s = ip.resolve(s)
    if allconst(ip, s, a):
        v = [x.v for x in map(ip.resolve, a)]
        f = str.strip if left and right else str.lstrip if left else str.rstrip
        return Const(f(s.v, *v))
    if a and not ip.is_none(a[0]):
        ch = ip.resolve(a[0])
        if type(ch) is Const and type(s) in (Sym, Term):
            if s.props.get('trimmed') and not ch.v.strip() or \
                    set(ch.v) <= ip.excluded(s):
                return s
        if type(s) is not Cat:
            return Term(('strip' if left and right else 'lstrip' if left else 'rstrip')
                        + '_chars', (s, a[0]), 'str', excl=''.join(sorted(ip.excluded(s))))
        return Term(('strip' if left and right else 'lstrip' if left else 'rstrip') + '_chars',
                    (s, a[0]), 'str')
    if type(s) in (Sym, Term) and s.props.get('trimmed'):
        return s
    if type(s) is Cat:
        parts = list(s.parts)
        if left:
            while parts:
                p = parts[0]
                if type(p) is Const:
                    q = p.v.lstrip()
                    parts[0] = Const(q)
                    if q:
                        break
                    parts.pop(0)
                elif is_blank(ip, p):
                    parts.pop(0)
                else:
                    parts[0] = _strip(ip, p, [], True, False)
                    break
        if right:
            while parts:
                p = parts[-1]
                if type(p) is Const:
                    q = p.v.rstrip()
                    parts[-1] = Const(q)
                    if q:
                        break
                    parts.pop()
                elif is_blank(ip, p):
                    parts.pop()
                else:
                    parts[-1] = _strip(ip, p, [], False, True)
                    break
        return cat(*parts)
    if is_blank(ip, s):
        return EMPTY
    if type(s) is Term and s.op == 'hom' and all(
            not ch.isspace() and r.strip() == r and r for ch, r in s.args[1]):
        return Hom.make(_strip(ip, s.args[0], a, left, right), dict(s.args[1]))
    x, lo, hi = _base_slice(s)
    ls, rs, n = positions(ip, x)
    if type(s) is Term and s.op == 'slice':
        nb = {Const(0): 'start', ls: 'ls', rs: 'rs', n: 'end'}
        if nb.get(lo) in ('start', 'ls') and nb.get(hi) in ('end', 'rs'):
            return mk_slice(x, ls if left else lo, rs if right else hi)
        ls2, rs2, n2 = positions(ip, s)
        return Term('slice', (s, ls2 if left else Const(0), rs2 if right else n2), 'str')
    return mk_slice(s, ls if left else Const(0), rs if right else n)


def s_strip(ip, s, a, k):
    return _strip(ip, s, a, True, True)


def s_lstrip(ip, s, a, k):
    return _strip(ip, s, a, True, False)


def s_rstrip(ip, s, a, k):
    return _strip(ip, s, a, False, True)


def s_isspace(ip, s, a, k):
    s = ip.resolve(s)
    if type(s) is Const:
        return Const(s.v.isspace())
    return Const(ip.truth(s) and is_blank(ip, s))


def s_replace(ip, s, a, k):
    s = ip.resolve(s)
    old, new = ip.resolve(a[0]), ip.resolve(a[1])
    cnt = arg(a, k, 2, 'count')
    if type(s) is Const and type(old) is Const and type(new) is Const and (
            cnt is None or type(cnt) is Const):
        return Const(s.v.replace(old.v, new.v, *([cnt.v] if cnt is not None else [])))
    if type(old) is Const and type(new) is Const and cnt is None and len(old.v) == 1:
        return hom_apply(ip, s, {old.v: new.v})
    if type(s) is Cat and type(old) is Const and cnt is None and all(
            type(p) is Const or not (set(old.v) - ip.excluded(p)) != set(old.v)
            or p.props.get('generic') for p in s.parts):
        if all(type(p) is Const or p.props.get('generic') or
               set(old.v) <= ip.excluded(p) for p in s.parts):
            return cat(*[Const(p.v.replace(old.v, new.v)) if type(p) is Const
                         and type(new) is Const else p for p in s.parts])
    if type(s) is Sym and type(old) is Const and (
            s.props.get('generic') or set(old.v) <= ip.excluded(s)) and old.v:
        return s
    if type(s) is Sym and s.props.get('code') and type(old) is Const:
        return s
    return Term('replace', (s, old, new) + ((cnt,) if cnt is not None else ()), 'str')


def hom_apply(ip, s, m):
    parts = s.parts if type(s) is Cat else (s,)
    out = []
    for p in parts:
        if type(p) is Const:
            out.append(Const(''.join(m.get(c, c) for c in p.v)))
        else:
            ex = ip.excluded(p)
            mm = {c: r for c, r in m.items() if c not in ex}
            out.append(Hom.make(p, mm))
    return cat(*out)


def s_translate(ip, s, a, k):
    t = a[0]
    if type(t) is not DictO or t.rest is not None:
        raise Unsupported('translate')
    m = {}
    for kk, v in t.d.items():
        v = ip.resolve(v)
        if type(kk) is not Const or type(v) is not Const:
            raise Unsupported('translate table')
        r = v.v
        m[chr(kk.v)] = '' if r is None else (chr(r) if isinstance(r, int) else r)
    return hom_apply(ip, ip.resolve(s), m)


def s_count(ip, s, a, k):
    s = ip.resolve(s)
    c = ip.resolve(a[0])
    if type(s) is Const and type(c) is Const:
        return Const(s.v.count(c.v, *[ip.resolve(x).v for x in a[1:]]))
    if type(c) is Const and len(c.v) == 1 and len(a) == 1:
        tot = Const(0)
        for p in (s.parts if type(s) is Cat else (s,)):
            if type(p) is Const:
                n = Const(p.v.count(c.v))
            elif c.v in ip.excluded(p):
                n = Const(0)
            elif type(p) is Term and p.op == 'slice':
                x, lo, hi = p.args
                n = lin_add(count_to(ip, x, c, hi), count_to(ip, x, c, lo), -1)
            elif type(p) is Term and p.op == 'hom' and all(
                    ch != c.v and c.v not in r for ch, r in p.args[1]):
                n = s_count(ip, p.args[0], a, k)
            else:
                n = count_to(ip, p, c, str_len(p))
            tot = lin_add(tot, n)
        return tot
    return Term('count', (s,) + tuple(a), 'int', lo=0)


def count_to(ip, x, c, pos):
    """number of c in x[:pos]"""
    if pos == Const(0):
        return Const(0)
    return Term('nl', (x, c, pos), 'int', lo=0)


def s_splitlines(ip, s, a, k):
    s = ip.resolve(s)
    if type(s) is Const:
        return lift(s.v.splitlines(*[ip.truth(x) for x in a]))
    if '\n' in ip.excluded(s) or (type(s) is Sym and s.props.get('oneline')):
        return ListO([s])
    return ListO([Star('lines:%r' % (s,), lambda ip, i: Term(
        'line', (s, Const(i)), 'str'))])


def segments(ip, s, sep):
    """the pieces of s around every sep; None if they depend on unknowns"""
    parts = s.parts if type(s) is Cat else (s,)
    if not sep or not all(type(p) is Const or p.props.get('generic') or
                          sep[0] in ip.excluded(p) for p in parts):
        return None
    out = [[]]
    for p in parts:
        if type(p) is Const:
            seg = p.v.split(sep)
            out[-1].append(Const(seg[0]))
            for q in seg[1:]:
                out.append([Const(q)])
        else:
            out[-1].append(p)
    return [cat(*ps) for ps in out]


def joined(sep, segs):
    out = []
    for x in segs:
        out += [Const(sep), x]
    return cat(*out[1:])


def s_split(ip, s, a, k):
    s = ip.resolve(s)
    aa = [ip.resolve(x) for x in a]
    if 'maxsplit' in k:
        aa = (aa or [NONE]) + [ip.resolve(k['maxsplit'])]
    if type(s) is Const and all(type(x) is Const for x in aa):
        return lift(s.v.split(*[x.v for x in aa]))
    if aa and type(aa[0]) is Const and isinstance(aa[0].v, str) and \
            all(type(x) is Const for x in aa):
        segs = segments(ip, s, aa[0].v)
        if segs is not None:
            n = aa[1].v if len(aa) > 1 else -1
            if 0 <= n < len(segs) - 1:
                segs = segs[:n] + [joined(aa[0].v, segs[n:])]
            return ListO(segs)
    if type(s) is Sym and s.props.get('generic'):
        return ListO([s])
    if len(aa) == 2 and aa[1] == Const(1) and type(aa[0]) is Const and \
            isinstance(aa[0].v, str):
        if ip.str_has(s, aa[0].v):
            return ListO([Term('part0', (s, aa[0]), 'str'),
                          Term('part2', (s, aa[0]), 'str')])
        return ListO([s])
    return ListO([Term('splitpart', (s, Tup(aa), Const(0)), 'str'),
                  Star('split:%r' % (s,), lambda ip, i: Term(
                      'splitpart', (s, Tup(aa), Const(i + 1)), 'str'), cap=1)])


def s_rsplit(ip, s, a, k):
    s = ip.resolve(s)
    aa = [ip.resolve(x) for x in a]
    if 'maxsplit' in k:
        aa = (aa or [NONE]) + [ip.resolve(k['maxsplit'])]
    if type(s) is Const and all(type(x) is Const for x in aa):
        return lift(s.v.rsplit(*[x.v for x in aa]))
    if aa and type(aa[0]) is Const and isinstance(aa[0].v, str) and \
            all(type(x) is Const for x in aa):
        segs = segments(ip, s, aa[0].v)
        if segs is not None:
            n = aa[1].v if len(aa) > 1 else -1
            if 0 <= n < len(segs) - 1:
                m = len(segs) - n
                segs = [joined(aa[0].v, segs[:m])] + segs[m:]
            return ListO(segs)
        if len(aa) == 2 and aa[1] == Const(1):
            if ip.str_has(s, aa[0].v):
                return ListO([Term('rsplit0', (s, aa[0]), 'str'),
                              Term('rsplit1', (s, aa[0]), 'str')])
            return ListO([s])
    raise Unsupported('rsplit')


def s_partition(ip, s, a, k):
    s = ip.resolve(s)
    c = ip.resolve(a[0])
    if type(s) is Const and type(c) is Const:
        return lift(s.v.partition(c.v))
    if type(c) is not Const:
        raise Unsupported('partition')
    segs = segments(ip, s, c.v)
    if segs is not None:
        if len(segs) == 1:
            return Tup([s, EMPTY, EMPTY])
        return Tup([segs[0], c, joined(c.v, segs[1:])])
    if ip.str_has(s, c.v):
        return Tup([Term('part0', (s, c), 'str'), c, Term('part2', (s, c), 'str')])
    return Tup([s, EMPTY, EMPTY])


def s_rpartition(ip, s, a, k):
    s = ip.resolve(s)
    c = ip.resolve(a[0])
    if type(s) is Const and type(c) is Const:
        return lift(s.v.rpartition(c.v))
    if type(c) is not Const:
        raise Unsupported('rpartition')
    segs = segments(ip, s, c.v)
    if segs is not None:
        if len(segs) == 1:
            return Tup([EMPTY, EMPTY, s])
        return Tup([joined(c.v, segs[:-1]), c, segs[-1]])
    if ip.str_has(s, c.v):
        return Tup([Term('rsplit0', (s, c), 'str'), c, Term('rsplit1', (s, c), 'str')])
    return Tup([EMPTY, EMPTY, s])


def s_find(ip, s, a, k):
    s = ip.resolve(s)
    aa = [ip.resolve(x) for x in a]
    if type(s) is Const and all(type(x) is Const for x in aa):
        return Const(s.v.find(*[x.v for x in aa]))
    start = aa[1] if len(aa) > 1 else Const(0)
    key = ('found', s, aa[0], start)
    if not ip.ask(key):
        return Const(-1)
    p = Term('pos', (s, ('find', aa[0], start)), 'int', lo=0)
    ip.edges.add((start, p, False))
    ip.edges.add((p, str_len(s), True))
    return p


def s_rfind(ip, s, a, k):
    s = ip.resolve(s)
    aa = [ip.resolve(x) for x in a]
    if type(s) is Const and all(type(x) is Const for x in aa):
        return Const(s.v.rfind(*[x.v for x in aa]))
    if not ip.ask(('found', s, aa[0], Const(0))):
        return Const(-1)
    p = Term('pos', (s, ('rfind', aa[0])), 'int', lo=0)
    ip.edges.add((p, str_len(s), True))
    return p


def s_index(ip, s, a, k):
    r = s_find(ip, s, a, k)
    if r == Const(-1):
        ip.raise_('ValueError', 'substring not found')
    return r


def _case(name):
    def f(ip, s, a, k):
        s = ip.resolve(s)
        if type(s) is Const:
            return Const(getattr(s.v, name)())
        if type(s) is Cat:
            return cat(*[f(ip, p, a, k) for p in s.parts])
        if type(s) is Sym and name in s.props.get('case', ()):
            return s
        d = ip.domain.get(s)
        if d and d[0] == 'in':
            cand = sorted(d[1], key=repr)
            if all(getattr(c.v, name)() == c.v for c in cand):
                return s
        return Term(name, (s,), 'str', nonempty=s.props.get('nonempty', False))
    return f


s_lower = _case('lower')
s_upper = _case('upper')


def coded(ip, f, enc, errors):
    try:
        return Const(f(cstr(ip, enc), cstr(ip, errors)))
    except (UnicodeEncodeError, UnicodeDecodeError, LookupError) as e:
        ip.raise_(type(e).__name__, str(e))


def s_encode(ip, s, a, k):
    s = ip.resolve(s)
    enc = arg(a, k, 0, 'encoding', Const('utf-8'))
    if type(s) is Const and type(enc) is Const:
        return coded(ip, s.v.encode, enc, arg(a, k, 1, 'errors', Const('strict')))
    return Term('encode', (s, enc), 'bytes')


def by_decode(ip, s, a, k):
    enc = arg(a, k, 0, 'encoding', Const('utf-8'))
    s = ip.resolve(s)
    if type(s) is Const:
        return coded(ip, s.v.decode, enc, arg(a, k, 1, 'errors', Const('strict')))
    if type(s) is Term and s.op == 'encode' and s.args[1] == enc:
        return s.args[0]
    return Term('decode', (s, enc), 'str')


def by_join(ip, s, a, k):
    parts = [ip.resolve(x) for x in ip.iterate(a[0])]
    if type(s) is Const and all(type(x) is Const for x in parts):
        return Const(s.v.join([x.v for x in parts]))
    return Term('bjoin', (s,) + tuple(parts), 'bytes')


def s_format(ip, s, a, k):
    s = ip.resolve(s)
    if type(s) is not Const:
        raise Unsupported('format on unknown')
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s.v):
        out.append(Const(lit))
        if field is None:
            continue
        m = _re.match(r'^(\w*)(.*)$', field)
        base, restf = m.group(1), m.group(2)
        if base == '':
            v = a[auto]
            auto += 1
        elif base.isdigit():
            v = a[int(base)]
        else:
            if base not in k:
                ip.raise_('KeyError', base)
            v = k[base]
        for acc in _re.findall(r'\.(\w+)|\[(\w+)\]', restf):
            if acc[0]:
                v = ip.getattr(v, acc[0])
            else:
                v = ip.getitem(v, Const(int(acc[1]) if acc[1].isdigit() else acc[1]))
        if conv == 'r':
            v = ip.repr_(v)
        if spec:
            v = ip.format_spec(v, Const(spec))
        out.append(ip.to_str(v))
    return cat(*out)


# ===================================================================== re
class RegexInfo:
    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags
        try:
            self.rx = _re.compile(pattern, flags)
        except _re.error as e:
            self.rx = None
        self.charset = self._charset()

    def _charset(self):
        """set of characters if the regex matches exactly single characters"""
        try:
            p = list(_re._parser.parse(self.pattern, self.flags))
        except Exception:
            return None
        if len(p) != 1:
            return None
        op, av = p[0]
        name = str(op)
        if name == 'LITERAL':
            return {chr(av)}
        if name == 'IN':
            out = set()
            for o, x in av:
                if str(o) == 'LITERAL':
                    out.add(chr(x))
                else:
                    return None
            return out
        if name == 'BRANCH':
            out = set()
            for br in av[1]:
                br = list(br)
                if len(br) != 1 or str(br[0][0]) not in ('LITERAL', 'IN'):
                    return None
                if str(br[0][0]) == 'LITERAL':
                    out.add(chr(br[0][1]))
                else:
                    for o, x in br[0][1]:
                        if str(o) != 'LITERAL':
                            return None
                        out.add(chr(x))
            return out
        return None

    def required(self):
        """list of sets: every match contains all characters of one of them"""
        if getattr(self, '_req', None) is None:
            icase = self.flags & _re.I

            def walk(seq):
                alts = [frozenset()]
                for op, av in seq:
                    o = str(op)
                    if o == 'LITERAL':
                        ch = chr(av)
                        sub = [frozenset() if icase and ch.isalpha() else frozenset(ch)]
                    elif o == 'BRANCH':
                        sub = [x for br in av[1] for x in walk(list(br))]
                    elif o == 'SUBPATTERN':
                        sub = walk(list(av[3]))
                    elif o in ('MAX_REPEAT', 'MIN_REPEAT') and av[0] > 0:
                        sub = walk(list(av[2]))
                    else:
                        continue
                    alts = list(dict.fromkeys(a | b for a in alts for b in sub))[:64]
                return alts
            try:
                self._req = walk(list(_re._parser.parse(self.pattern, self.flags)))
            except Exception:
                self._req = [frozenset()]
        return self._req

    def group_sets(self):
        """alternatives of the top-level structure: list of sets of groups that
        are set together (from the parsed pattern)."""
        names = {v: k for k, v in self.rx.groupindex.items()}

        def walk(seq):
            alts = [frozenset()]
            for op, av in seq:
                o = str(op)
                if o == 'BRANCH':
                    sub = []
                    for br in av[1]:
                        sub.extend(walk(list(br)))
                elif o == 'SUBPATTERN':
                    g, _, _, body = av
                    sub = [s | ({names[g]} if g in names else set())
                           for s in walk(list(body))]
                elif o in ('MAX_REPEAT', 'MIN_REPEAT'):
                    lo, hi, body = av
                    sub = walk(list(body))
                    if lo == 0:
                        sub = sub + [frozenset()]
                else:
                    sub = [frozenset()]
                alts = [a | b for a in alts for b in sub]
            return list(dict.fromkeys(alts))
        return walk(list(_re._parser.parse(self.pattern, self.flags)))


def re_compile(ip, a, k):
    p = ip.resolve(a[0])
    fl = ip.resolve(arg(a, k, 1, 'flags', Const(0)))
    if type(p) is Obj and p.cls is ip.types['regex']:
        return p
    o = Obj(ip.types['regex'])
    if type(p) is Const and type(fl) is Const:
        o.data = RegexInfo(p.v, int(fl.v))
    else:
        o.data = None
    o.attrs['pattern'] = p
    ids = ip.rx_ids
    o.label = 'rx%d' % ids.setdefault(p, len(ids))
    for n in ('search', 'match', 'fullmatch', 'finditer', 'findall', 'sub', 'split'):
        o.attrs[n] = Native('regex.' + n, (lambda n: lambda ip, a, k: rx_call(ip, o, n, a, k))(n))
    return o


def rx_call(ip, rx, name, a, k):
    info = rx.data
    if name == 'sub':
        return rx_sub(ip, rx, a, k)
    s = ip.resolve(a[0])
    rest = [ip.resolve(x) for x in a[1:]]
    if info is not None and type(s) is Const and all(type(x) is Const for x in rest):
        return rx_const(ip, info, name, s, rest)
    if info is not None and info.rx is not None and not rest and \
            name in ('search', 'match', 'finditer'):
        ms = rx_located(ip, info, s)
        if ms is not None:
            if name == 'finditer':
                return GenO(iter(ms), 'finditer')
            if name == 'search':
                return ms[0] if ms else NONE
            if not ms:
                return NONE
    if name == 'search' and len(rest) == 1 and rest[0] == Const(0):
        return rx_call(ip, rx, name, a[:1], k)
    if name == 'search' and len(rest) == 1:
        return rx_search_from(ip, rx, info, s, rest[0])
    if info is not None and info.rx is not None and name == 'match' and len(rest) < 2 and \
            all(type(x) is Const for x in rest):
        ms = rx_located(ip, info, s, rest[0].v if rest else 0)
        if ms is not None:
            return ms[0] if ms else NONE
    if name in ('search', 'match', 'fullmatch'):
        key = ('rx', name, rx.attrs['pattern'], s) + tuple(rest)
        if info is not None and info.charset is not None and name == 'search' and not rest:
            hit = rx_charset_hit(ip, info.charset, s)
            if hit is False:
                return NONE
            if hit is None:
                # split on: some character of the set occurs
                unk = [p for p in (s.parts if type(s) is Cat else (s,))
                       if type(p) is not Const]
                if not ip.ask(key):
                    for p in unk:
                        ip.excl.setdefault(p, set()).update(info.charset)
                    return NONE
        elif not ip.ask(key):
            return NONE
        return mk_match(ip, rx, s, 0)
    if name == 'finditer':
        return GenO(rx_finditer(ip, rx, s), 'finditer')
    if name == 'findall':
        return ListO([Star('findall', lambda ip, i: Term('found', (s, rx.attrs['pattern'],
                                                                   Const(i)), 'str'))])
    raise Unsupported('regex.%s on unknown text' % name)


def rx_search_from(ip, rx, info, s, pos):
    """the first match at or after pos"""
    if info is not None and info.rx is not None:
        ms = rx_located(ip, info, s)
        if ms is not None:
            for i, m in enumerate(ms):
                c = ip.cmp_int(m.data['start'], pos)
                if c is None:
                    break
                if c >= 0:
                    if i and ip.cmp_int(pos, ms[i - 1].data['end']) not in (0, 1):
                        break       # might start inside a match
                    return m
            else:
                if not ms or ip.cmp_int(pos, ms[-1].data['end']) in (0, 1):
                    return NONE
    key = ('rx', 'search', rx.attrs['pattern'], s, pos)
    seen = ip.counters.setdefault(('search', rx.attrs['pattern'], s), [Const(0)])
    if pos in seen:
        if not ip.facts.get(key):
            return NONE
        return mk_match(ip, rx, s, seen.index(pos))
    last = Term('pos', (s, ('me', rx.label or 'rx', len(seen) - 1)), 'int', lo=0)
    if ip.cmp_int(pos, last) not in (0, 1) and len(seen) > 1:
        raise Unsupported('search inside earlier matches')
    if len(seen) >= (ip.config.get('match_cap') or ip.STAR_CAP) or not ip.ask(key):
        ip.facts[key] = False
        return NONE
    seen.append(pos)
    m = mk_match(ip, rx, s, len(seen) - 1)
    st = m.data['start']
    if ip.cmp_int(st, pos) is None:
        if type(pos) in (Sym, Term):
            ip.edges.add((pos, st, False))
        diff = lin_add(st, pos, -1)
        ip.facts[('cmpset', diff)] = frozenset((0, 1))
        ip.facts[('cmpset', lin_scale(diff, -1))] = frozenset((0, -1))
    return m


_ALPHA = list('aZ_09.-+ \n\t%{}[]()$\\<>"\'&;:=#/!?,*@|~^`\xa0\u2028')


def rx_located(ip, info, s, begin=None):
    """matches of a regex in a text with unknown parts, when they do not
    depend on the unknown parts; else None.  Every unknown part is varied
    over the representative characters it may contain."""
    parts = s.parts if type(s) is Cat else (s,)
    unk = [i for i, p in enumerate(parts) if type(p) is not Const]
    if begin is not None and not (type(parts[0]) is Const and begin <= len(parts[0].v)):
        return None
    ex = {i: ip.excluded(parts[i]) for i in unk}
    allex = set.intersection(*ex.values()) if ex else set()
    if len(unk) == len(parts) and not all(r & allex for r in info.required()):
        return None
    if any('\x01' in p.v for p in parts if type(p) is Const):
        return None
    may_empty = {i: not (parts[i].props.get('nonempty') or
                         ip.facts.get(('truth', parts[i]))) for i in unk}
    alpha = _ALPHA + sorted(set(''.join(chr(x) for x in range(33, 127)))
                            & set(info.pattern) - set(_ALPHA))

    def locate(subst):
        text, owner = [], []
        for i, p in enumerate(parts):
            t = p.v if type(p) is Const else subst[i]
            for k, ch in enumerate(t):
                text.append(ch)
                owner.append((i, k) if type(p) is Const else (i, None))
        owner.append((len(parts), 0))
        text = ''.join(text)

        def at(pos, end=False):
            if end and pos > 0:
                i, k = owner[pos - 1]
                return None if k is None else (i, k + 1)
            i, k = owner[pos]
            return None if k is None else (i, k)
        out = []
        first = info.rx.match(text, begin) if begin is not None else None
        for m in info.rx.finditer(text) if begin is None else [first] if first else []:
            if m.end() == m.start():
                if begin is None:
                    return None
                spans = [((0, m.start()),) * 2]
            else:
                spans = [(at(m.start()), at(m.end(), True))]
            if None in spans[0]:
                return None
            for g in range(1, (info.rx.groups or 0) + 1):
                if m.start(g) < 0:
                    spans.append(None)
                elif m.start(g) == m.end(g):
                    spans.append((at(m.start(g), True),) * 2)
                else:
                    spans.append((at(m.start(g)), at(m.end(g), True)))
                if spans[-1] and None in spans[-1]:
                    return None
            out.append(tuple(spans))
        return out
    neutral = {i: '\x01' for i in unk}
    base = locate(neutral)
    if base is None:
        return None
    for i in unk:
        tries = [ch for ch in alpha if ch not in ex[i]]
        tries += [ch + '\x01' for ch in tries] + ['\x01' + ch for ch in tries]
        if may_empty[i]:
            tries.append('')
        for t in tries:
            r = locate(dict(neutral, **{i: t}) if False else {**neutral, i: t})
            if r != base:
                return None
    if len(unk) > 1 and locate({i: '' if may_empty[i] else '\x01' for i in unk}) != base:
        return None
    bounds = [Const(0)]
    for p in parts:
        bounds.append(lin_add(bounds[-1], str_len(p)))

    def pos(x):
        return lin_add(bounds[x[0]], Const(x[1]))
    names = {v: k for k, v in info.rx.groupindex.items()}
    out = []
    for spans in base:
        o = Obj(ip.types['match'])
        sp = [None if x is None else (pos(x[0]), pos(x[1])) for x in spans]
        o.data = dict(start=sp[0][0], end=sp[0][1])

        def gi(ip, g):
            g = ip.resolve(g)
            if type(g) is not Const:
                raise Unsupported('group name')
            return info.rx.groupindex[g.v] if isinstance(g.v, str) else g.v

        def text(x, default=NONE):
            return default if x is None else mk_slice(s, x[0], x[1])

        def add(n, fn):
            o.attrs[n] = Native('match.' + n, fn)
        add('start', lambda ip, a, k, sp=sp: (lambda x: Const(-1) if x is None else x[0])(
            sp[gi(ip, a[0]) if a else 0]))
        add('end', lambda ip, a, k, sp=sp: (lambda x: Const(-1) if x is None else x[1])(
            sp[gi(ip, a[0]) if a else 0]))
        add('span', lambda ip, a, k, sp=sp: Tup(sp[gi(ip, a[0]) if a else 0] or
                                                (Const(-1), Const(-1))))
        add('group', lambda ip, a, k, sp=sp: text(sp[gi(ip, a[0]) if a else 0])
            if len(a) < 2 else Tup([text(sp[gi(ip, g)]) for g in a]))
        add('groups', lambda ip, a, k, sp=sp: Tup([text(x, *a) for x in sp[1:]]))
        add('groupdict', lambda ip, a, k, sp=sp: DictO(
            {Const(n): text(sp[g], *a) for g, n in names.items()}))
        last = [g for g, x in enumerate(sp) if x is not None and g in names]
        o.attrs['lastgroup'] = Const(names[last[-1]]) if last else NONE
        o.attrs['string'] = s
        out.append(o)
    return out


def rx_charset_hit(ip, cs, s):
    unk = False
    for p in (s.parts if type(s) is Cat else (s,)):
        if type(p) is Const:
            if set(p.v) & cs:
                return True
        elif not cs <= ip.excluded(p):
            unk = True
    return None if unk else False


def rx_const(ip, info, name, s, rest):
    f = getattr(info.rx, name)
    r = f(s.v, *[x.v for x in rest])
    if name in ('search', 'match', 'fullmatch'):
        return NONE if r is None else const_match(ip, r)
    if name == 'finditer':
        ms = [const_match(ip, m) for m in r]
        return GenO(iter(ms), 'finditer')
    return lift(r)


def const_match(ip, m):
    o = Obj(ip.types['match'])
    o.data = m
    N = lambda n, fn: o.attrs.__setitem__(n, Native('match.' + n, fn))
    N('start', lambda ip, a, k: Const(m.start(*[ip.resolve(x).v for x in a])))
    N('end', lambda ip, a, k: Const(m.end(*[ip.resolve(x).v for x in a])))
    N('span', lambda ip, a, k: lift(m.span(*[ip.resolve(x).v for x in a])))
    N('group', lambda ip, a, k: lift(m.group(*[ip.resolve(x).v for x in a])))
    N('groups', lambda ip, a, k: lift(m.groups()))
    N('groupdict', lambda ip, a, k: DictO({Const(x): Const(y)
                                           for x, y in m.groupdict().items()}))
    o.attrs['lastgroup'] = Const(m.lastgroup)
    o.attrs['string'] = Const(m.string)
    return o


def mk_match(ip, rx, s, i):
    """i-th match of rx in the unknown text s"""
    o = Obj(ip.types['match'])
    o.label = 'match%d' % i
    info = rx.data
    pat = rx.attrs['pattern']
    pid = rx.label or 'rx'
    st = Term('pos', (s, ('ms', pid, i)), 'int', lo=0)
    en = Term('pos', (s, ('me', pid, i)), 'int', lo=0)
    n = str_len(s)
    can_empty = info is not None and info.rx is not None and info.rx.match('') is not None
    ip.edges.add((st, en, not can_empty))
    ip.edges.add((en, n, False))
    if i > 0:
        ip.edges.add((Term('pos', (s, ('me', pid, i - 1)), 'int', lo=0), st, False))
    o.data = dict(text=s, start=st, end=en, i=i, pat=pat)
    names = list(info.rx.groupindex) if info is not None else []

    def alt():
        if 'alt' not in o.data:
            sets = info.group_sets() if names else [frozenset()]
            sets = list(dict.fromkeys(sets))
            j = ip.choose(len(sets), ('regex alternative', i))
            o.data['alt'] = sets[j]
            ip.event('match-alt', o, Const(i), tuple(sorted(sets[j])))
        return o.data['alt']

    def group(g):
        if g == 0:
            return mk_slice(s, st, en)
        if isinstance(g, int):
            inv = {v: kk for kk, v in info.rx.groupindex.items()}
            g = inv.get(g, g)
        if isinstance(g, str):
            if info is not None and g not in info.rx.groupindex:
                ip.raise_('IndexError', 'no such group')
            if g not in alt():
                return NONE
            gs = Term('pos', (s, ('gs', g, i)), 'int', lo=0)
            ge = Term('pos', (s, ('ge', g, i)), 'int', lo=0)
            ip.edges.update({(st, gs, False), (gs, ge, False), (ge, en, False)})
            # groups at the end of the pattern end where the match ends
            if group_at_end(info, g):
                ge = en
                ip.edges.add((gs, en, False))
            return mk_slice(s, gs, ge)
        return Term('group', (s, pat, Const(i), g), 'str', maybe_none=True)

    def groupf(ip, a, k):
        gs = [ip.resolve(x).v for x in a] or [0]
        vals = [group(g) for g in gs]
        return vals[0] if len(vals) == 1 else Tup(vals)
    N = lambda nme, fn: o.attrs.__setitem__(nme, Native('match.' + nme, fn))
    N('start', lambda ip, a, k: st if not a else _gpos(ip, o, s, a[0], 'gs', group))
    N('end', lambda ip, a, k: en if not a else _gpos(ip, o, s, a[0], 'ge', group))
    N('span', lambda ip, a, k: Tup([st, en]))
    N('group', groupf)
    N('groupdict', lambda ip, a, k: DictO({Const(g): group(g) for g in names}))
    N('groups', lambda ip, a, k: Tup([group(j + 1) for j in range(info.rx.groups)]))
    o.attrs['string'] = s
    o.attrs['__getitem__'] = Native('match.getitem', groupf)

    class _L:
        pass
    return o


def _gpos(ip, o, s, g, kind, group):
    g = ip.resolve(g)
    if g == Const(0):
        return o.data['start' if kind == 'gs' else 'end']
    v = group(g.v)
    if v == NONE:
        return Const(-1)
    if type(v) is Term and v.op == 'slice':
        return v.args[1 if kind == 'gs' else 2]
    raise Unsupported('group position')


def group_at_end(info, g):
    """every pattern alternative containing group g ends with it"""
    idx = info.rx.groupindex[g]

    def ends(seq):
        seq = [x for x in seq if str(x[0]) not in ('AT', 'ASSERT', 'ASSERT_NOT')]
        if not seq:
            return False
        op, av = seq[-1]
        o = str(op)
        if o == 'SUBPATTERN':
            if av[0] == idx:
                return True
            return ends(list(av[3]))
        if o == 'BRANCH':
            return any(ends(list(b)) for b in av[1])
        return False
    return ends(list(_re._parser.parse(info.pattern, info.flags)))


def rx_finditer(ip, rx, s):
    st = Star('finditer', lambda ip, i: mk_match(ip, rx, s, i),
              cap=ip.config.get('match_cap'))
    return ip.star_elems(st)


def rx_sub(ip, rx, a, k):
    repl, s = a[0], ip.resolve(a[1])
    info = rx.data
    repl_c = ip.resolve(repl)
    if info is not None and type(s) is Const and type(repl_c) is Const:
        return Const(info.rx.sub(repl_c.v, s.v))
    if info is not None and info.rx is not None and type(s) is Const and len(a) == 2 and not k:
        out, end = [], 0
        for m in info.rx.finditer(s.v):
            r = ip.call(repl, [const_match(ip, m)], {})
            if ip.resolve(r).ty != 'str':
                raise Unsupported('result of the callback of sub')
            out += [Const(s.v[end:m.start()]), r]
            end = m.end()
        return cat(*out, Const(s.v[end:]))
    if info is not None and info.charset is not None and len(a) == 2:
        m = {}
        for ch in info.charset:
            if type(repl_c) is Const and '\\' not in repl_c.v:
                m[ch] = repl_c.v
                continue
            r = ip.resolve(ip.call(repl, [const_match(ip, info.rx.match(ch))], {}))
            if type(r) is not Const:
                raise Unsupported('sub callback')
            m[ch] = r.v
        return hom_apply(ip, s, m)
    return Term('resub', (rx.attrs['pattern'], repl, s), 'str')


def re_func(name):
    def f(ip, a, k):
        flags = k.pop('flags', None)
        rx = re_compile(ip, [a[0]] + ([flags] if flags is not None else []), {})
        return rx_call(ip, rx, name, a[1:], k)
    return f


# ===================================================================== modules
def native_module(ip, name):
    if name == 're':
        d = {n: Const(int(getattr(_re, n))) for n in (
            'VERBOSE', 'IGNORECASE', 'MULTILINE', 'ASCII', 'DOTALL', 'UNICODE',
            'I', 'M', 'X', 'S', 'U', 'A')}
        d['compile'] = Native('re.compile', re_compile)
        d['escape'] = Native('re.escape', lambda ip, a, k: Const(_re.escape(cstr(ip, a[0]))))
        for n in ('search', 'match', 'finditer', 'findall', 'sub', 'split', 'fullmatch'):
            d[n] = Native('re.' + n, re_func(n))
        d['error'] = ip.exc_class('ValueError')
        return d
    if name == 'types':
        return dict(LambdaType=ip.types['function'], FunctionType=ip.types['function'], CodeType=ip.types['code'],
                    GeneratorType=ip.types['generator'], ModuleType=ip.types['module'],
                    MethodType=Native('MethodType', lambda ip, a, k: BoundO(a[0], a[1])))
    if name == 'sys':
        return dict(version_info=Tup([Const(3), Const(9), Const(18), Const('final'), Const(0)]),
                    modules=DictO(), maxsize=Const(2 ** 63 - 1),
                    intern=Native('sys.intern', lambda ip, a, k: a[0]))
    if name == 'collections':
        return dict(defaultdict=ip.types['defaultdict'], deque=ip.types['deque'],
                    OrderedDict=ip.types['dict'])
    if name == 'html.entities':
        return dict(html5=DictO({Const(a): Const(b) for a, b in _he.html5.items()}))
    if name == 'nine':
        B = ip.builtins
        ident = Native('identity', lambda ip, a, k: a[0])
        mk = lambda n: Native('nine.' + n, lambda ip, a, k: ip.get_iter(
            ip.call(ip.getattr(a[0], n), [], {})))
        return dict(IS_PYTHON2=FALSE, IS_PYPY=TRUE, basestring=B['str'],
                    native_str=B['str'], str=B['str'], chr=B['chr'], long=B['int'],
                    range=B['range'], map=B['map'], filter=B['filter'], zip=B['zip'],
                    integer_types=Tup([B['int']]), class_types=B['type'],
                    iteritems=mk('items'), iterkeys=mk('keys'), itervalues=mk('values'),
                    nine=ident, implements_to_string=ident, implements_iterator=ident,
                    implements_repr=ident)
    if name == 'operator':
        def attrgetter(ip, a, k):
            def get(o, n):
                for part in n.split('.'):
                    o = ip.getattr(o, part)
                return o
            ns = [cstr(ip, x) for x in a]
            if len(ns) > 1:
                return Native('attrgetter', lambda ip, b, kk: Tup([get(b[0], n) for n in ns]))
            return Native('attrgetter', lambda ip, b, kk: get(b[0], ns[0]))

        def itemgetter(ip, a, k):
            if len(a) > 1:
                return Native('itemgetter', lambda ip, b, kk: Tup(
                    [ip.getitem(b[0], i) for i in a]))
            return Native('itemgetter', lambda ip, b, kk: ip.getitem(b[0], a[0]))
        return dict(attrgetter=Native('attrgetter', attrgetter),
                    itemgetter=Native('itemgetter', itemgetter))
    return None


# functions of the standard library without state: on constants, their value is looked up
PURE = {'textwrap': ('dedent', 'indent', 'fill', 'shorten'), 'keyword': ('iskeyword', 'issoftkeyword'),
        'html': ('unescape',), 'string': ('capwords',), 'ast': ('literal_eval',),
        'unicodedata': ('normalize', 'category', 'name'), 'json': ('dumps', 'loads'),
        'math': ('ceil', 'floor', 'sqrt'), 'urllib.parse': ('quote', 'unquote', 'urlparse'),
        'fnmatch': ('fnmatch', 'fnmatchcase', 'translate'), 'posixpath': (),
        'xml.sax.saxutils': ()}


def pure(ip, mod, name):
    if name not in PURE.get(mod, ()):
        return None
    import importlib
    f = getattr(importlib.import_module(mod), name)

    def run(ip, a, k):
        a = [ip.resolve(x) for x in a]
        k = {n: ip.resolve(x) for n, x in k.items()}
        if not all(type(x) is Const for x in a) or not all(type(x) is Const for x in k.values()):
            raise Unsupported('%s.%s of an unknown value' % (mod, name))
        try:
            return lift(f(*[x.v for x in a], **{n: x.v for n, x in k.items()}))
        except Exception as e:
            ip.raise_(type(e).__name__, str(e))
    return Native('%s.%s' % (mod, name), run)
