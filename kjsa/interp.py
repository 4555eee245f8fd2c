"""Path-partitioned abstract interpreter for the Python subset used by kajiki.

The analyser reads source text only (``ast``); it never imports or executes
repository code.  Values are abstract (see values.py); a branch on a value the
analysis does not know splits the trace partition (``choose``), and the facts
assumed on each side are kept so correlated branches stay consistent.
"""
import ast
import collections.abc
from collections.abc import MutableMapping
import os
import sys

from .values import *
from . import host

sys.setrecursionlimit(60000)


NOTNUM = ''.join(chr(i) for i in range(128) if chr(i) not in '-0123456789')


class Unsupported(Exception):
    """Construct or value outside the modelled fragment: partition undecided."""


class Infeasible(Exception):
    """The facts of this partition contradict each other: drop it."""


class PyExc(Exception):
    """Exception raised by the analysed program."""
    def __init__(self, val, loc=None):
        Exception.__init__(self)
        self.val = val
        self.loc = loc


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Frame:
    __slots__ = ('func', 'locals', 'localnames', 'globalnames', 'parent',
                 'glob', 'node', 'module', 'cls', 'isclass', 'name', 'exc',
                 'nonlocalnames')

    def __init__(self, name, glob, module, parent=None, localnames=None,
                 isclass=False):
        self.name = name
        self.locals = {}
        self.localnames = localnames
        self.globalnames = ()
        self.nonlocalnames = ()
        self.parent = parent
        self.glob = glob
        self.node = None
        self.module = module
        self.cls = None
        self.isclass = isclass
        self.func = None
        self.exc = None


class ScopeInfo:
    __slots__ = ('localnames', 'globalnames', 'nonlocalnames', 'isgen')


def _bind_names(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            _bind_names(e, out)
    elif isinstance(t, ast.Starred):
        _bind_names(t.value, out)


def scope_info(node):
    cached = getattr(node, '_kjscope', None)
    if cached:
        return cached
    names, glob, nonl = set(), set(), set()
    isgen = False
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(p.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            todo.extend(n.decorator_list)
            if not isinstance(n, ast.ClassDef):
                todo.extend(n.args.defaults)
                todo.extend(d for d in n.args.kw_defaults if d)
            else:
                todo.extend(n.bases)
            continue
        if isinstance(n, ast.Lambda):
            todo.extend(n.args.defaults)
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # only the first iterable is evaluated in this scope
            todo.append(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    _bind_names(w.target, names)
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen = True
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.NamedExpr):
            _bind_names(n.target, names)
        todo.extend(ast.iter_child_nodes(n))
    si = ScopeInfo()
    si.globalnames = glob
    si.nonlocalnames = nonl
    si.localnames = names - glob - nonl
    si.isgen = isgen
    node._kjscope = si
    return si


class _Everything:
    def __contains__(self, x):
        return True


class AttrDict(MutableMapping):
    """the attributes of an object, seen as its __dict__"""
    def __init__(self, obj):
        self.obj = obj

    def __getitem__(self, k):
        if type(k) is not Const:
            raise KeyError(k)
        return self.obj.attrs[k.v]

    def __setitem__(self, k, v):
        self.obj.attrs[k.v] = v

    def __delitem__(self, k):
        del self.obj.attrs[k.v]

    def __iter__(self):
        return iter([Const(k) for k in self.obj.attrs])

    def __len__(self):
        return len(self.obj.attrs)


class Event:
    __slots__ = ('kind', 'data', 'loc')

    def __init__(self, kind, data, loc):
        self.kind, self.data, self.loc = kind, data, loc

    def __repr__(self):
        return '%s%r@%s' % (self.kind, self.data, self.loc)


class Interp:
    STAR_CAP = 2
    MAX_STEPS = 900000
    MAX_DEPTH = 400

    def __init__(self, root, stub_dir):
        self.root = root              # directory that contains package kajiki
        self.stub_dir = stub_dir
        self.modules = {}
        self.trees = {}
        self.journal = {}
        self.base_n = 0
        self.watch_n = None
        self.stack = []
        self.analysed = {}            # qualname -> set of statement lines
        self.consulted = set()
        self.config = {}              # scenario configuration for models
        self.rx_ids = {}
        self.reset_path([])
        from . import models
        self.models = models
        self.builtins = {}
        self.types = {}
        models.install(self)

    # ------------------------------------------------------------ partitions
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.facts = {}
        self.domain = {}       # abstract value -> ('in'|'out', frozenset of Const)
        self.vtypes = {}       # abstract value -> [exact class|None, set(not)]
        self.alias = {}        # unknown -> an unknown that is equal to it
        self.excl = {}         # abstract str -> set of chars known absent
        self.edges = set()     # (p, q, strict) : p <= q
        self.events = []
        self.steps = 0
        self.counters = {}
        self.stack = []
        self.notes = []
        self.writes = []
        self.entered = set()

    def fresh(self, name):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return '%s%d' % (name, n) if n else name

    def choose(self, n, label):
        i = len(self.trace)
        idx = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((n, idx, label, self.loc()))
        return idx

    def ask(self, key, label=None):
        if key in self.facts:
            return self.facts[key]
        idx = self.choose(2, label or key)
        val = (idx == 0)
        self.facts[key] = val
        return val

    def explore(self, fn, max_paths=4000):
        """Run ``fn`` for every partition; yields (outcome, value).

        outcome: 'ok' | 'exc' | 'undecided'."""
        prefix = []
        n = 0
        while True:
            self.reset_path(prefix)
            try:
                try:
                    v = fn()
                    yield 'ok', v
                except PyExc as e:
                    yield 'exc', e
                except Infeasible:
                    pass
                except Unsupported as e:
                    yield 'undecided', e
                except RecursionError as e:
                    yield 'undecided', Unsupported('host recursion limit')
                except (GeneratorExit, KeyboardInterrupt):
                    raise
                except Exception as e:
                    if os.environ.get('KJSA_DEBUG'):
                        raise
                    yield 'undecided', Unsupported('engine: %s: %s' % (type(e).__name__, e))
            finally:
                trace = self.trace
                self.undo()
            n += 1
            # next partition (depth first)
            while trace and trace[-1][1] + 1 >= trace[-1][0]:
                trace.pop()
            if not trace:
                return
            if n >= max_paths:
                yield 'undecided', Unsupported('more than %d partitions' % max_paths)
                return
            prefix = [t[1] for t in trace]
            prefix[-1] += 1

    # ------------------------------------------------------------ heap
    def touch(self, o, what=None):
        if type(o) is DictO and type(o.d) is AttrDict:
            return self.touch(o.d.obj, what.v if type(what) is Const else what)
        if o.oid <= self.base_n and o not in self.journal:
            self.journal[o] = o.snapshot()
        if self.watch_n is not None and o.oid <= self.watch_n:
            prior = None
            if isinstance(what, str) and type(o) in (Obj, ClassO, FuncO):
                prior = (o.ns if type(o) is ClassO else o.attrs).get(what)
            elif type(o) is DictO and isinstance(what, V):
                prior = o.d.get(what)
            self.writes.append((o, what, prior, self.loc(), self.where()))

    def undo(self):
        for o, snap in self.journal.items():
            o.restore(snap)
        self.journal.clear()
        self.watch_n = None

    def seal(self):
        """Everything allocated so far is base state."""
        self.journal.clear()
        self.base_n = HObj._n

    # ------------------------------------------------------------ locations
    def loc(self):
        for fr in reversed(self.stack):
            if fr.node is not None and fr.module is not None:
                return '%s:%d' % (fr.module, getattr(fr.node, 'lineno', 0))
        return '?'

    def where(self):
        for fr in reversed(self.stack):
            if fr.module is not None and not fr.module.startswith('<stub'):
                return '%s (%s:%s)' % (fr.name, fr.module,
                                       getattr(fr.node, 'lineno', 0))
        return '?'

    def callchain(self):
        return [fr.name for fr in self.stack]

    def event(self, kind, *data):
        self.events.append(Event(kind, data, self.where()))

    # ------------------------------------------------------------ modules
    def module_file(self, name):
        rel = name.replace('.', '/')
        for base in (self.root, self.stub_dir):
            if base == self.stub_dir:
                cand = [os.path.join(base, name + '.py')]
            else:
                cand = [os.path.join(base, rel + '.py'),
                        os.path.join(base, rel, '__init__.py')]
            for c in cand:
                if os.path.isfile(c):
                    return c
        return None

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        # packages first
        if '.' in name:
            parent = self.load_module(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        else:
            parent = None
        f = self.module_file(name)
        m = ModO(name, opaque=f is None, file=f)
        self.modules[name] = m
        if parent is not None:
            self.touch(parent.ns)
            parent.ns.d[Const(name.rsplit('.', 1)[1])] = m
        native = self.models.native_module(self, name)
        if native:
            m.opaque = False
            for k, v in native.items():
                m.ns.d[Const(k)] = v
        if f:
            is_stub = f.startswith(self.stub_dir)
            with open(f, encoding='utf-8') as fh:
                src = fh.read()
            if not is_stub:
                self.consulted.add(f)
            tree = ast.parse(src, f)
            short = ('<stub>' + os.path.basename(f) if is_stub
                     else os.path.relpath(f, self.root))
            m.ns.d[Const('__name__')] = Const(name)
            m.ns.d[Const('__file__')] = Const(f)
            pkg = name if f.endswith('__init__.py') else name.rpartition('.')[0]
            m.ns.d[Const('__package__')] = Const(pkg)
            m.ns.d[Const('__builtins__')] = self.builtins_mod
            fr = Frame('<module %s>' % name, m.ns, short)
            self.run_module(fr, tree.body)
        return m

    def run_module(self, fr, body):
        """Module level: a definition without a model is an unmodelled value,
        undecided only where it is used."""
        for st in body:
            try:
                self.run_frame(fr, [st])
            except Unsupported as e:
                names = []
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    names = [st.name]
                elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                    for n in ast.walk(st):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            names.append(n.id)
                if not names:
                    raise
                for n in names:
                    fr.glob.d[Const(n)] = Sym('%s (%s)' % (n, e), 'any', unmodelled=True)

    def import_name(self, name):
        return self.load_module(name)

    # ------------------------------------------------------------ exceptions
    def exc_class(self, name):
        return self.modules['builtins_exc'].ns.d[Const(name)]

    def raise_(self, name, *args):
        e = self.instantiate(self.exc_class(name), [
            a if isinstance(a, V) else Const(a) for a in args], {})
        raise PyExc(e, self.where())

    # ------------------------------------------------------------ frames
    def run_frame(self, fr, body):
        """Execute a non-generator frame; returns the return value."""
        if len(self.stack) > self.MAX_DEPTH:
            raise Unsupported('call depth')
        self.stack.append(fr)
        try:
            for _ in self.exec_block(body, fr):
                raise Unsupported('yield outside generator')
        except ReturnSig as r:
            return r.v
        finally:
            self.stack.pop()
        return NONE

    def gen_frame(self, fr, body):
        """Host generator for an interpreted generator frame."""
        self.stack.append(fr)
        it = self.exec_block(body, fr)
        sent = thrown = None
        try:
            while True:
                try:
                    v = it.throw(thrown) if thrown is not None else it.send(sent)
                except StopIteration:
                    return NONE
                except ReturnSig as r:
                    return r.v
                self.stack.pop()
                ok = False
                sent = thrown = None
                try:
                    sent = yield v
                    ok = True
                except PyExc as e:
                    thrown = e
                    ok = True
                finally:
                    if ok:
                        self.stack.append(fr)
        finally:
            if self.stack and self.stack[-1] is fr:
                self.stack.pop()

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for st in stmts:
            m = getattr(self, 'x_' + type(st).__name__, None)
            fr.node = st
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                raise Unsupported('step budget')
            if m is None:
                raise Unsupported('statement %s' % type(st).__name__)
            r = m(st, fr)
            if r is not None:
                yield from r

    def x_Pass(self, st, fr):
        return None

    def x_Global(self, st, fr):
        return None

    x_Nonlocal = x_Global

    def x_Expr(self, st, fr):
        v = st.value
        if isinstance(v, ast.Yield):
            return self._yield(v, fr, None)
        if isinstance(v, ast.YieldFrom):
            return self._yield_from(v, fr, None)
        if isinstance(v, ast.Constant):
            return None
        self.eval(v, fr)

    def _yield(self, v, fr, target):
        val = self.eval(v.value, fr) if v.value is not None else NONE
        sent = yield val
        if target is not None:
            self.assign(target, NONE if sent is None else sent, fr)

    def _yield_from(self, v, fr, target):
        it = self.get_iter(self.eval(v.value, fr))
        result = NONE
        if type(it) is GenO:
            sent = thrown = None
            while True:
                try:
                    x = self.gen_throw(it, thrown) if thrown is not None \
                        else self.gen_next(it, sent)
                except StopIteration as e:
                    result = e.value if e.value is not None else NONE
                    break
                sent = thrown = None
                try:
                    sent = yield x
                except PyExc as e:
                    thrown = e
        else:
            for x in self.iterate(it):
                yield x
        if target is not None:
            self.assign(target, result, fr)

    def x_Assign(self, st, fr):
        if isinstance(st.value, ast.Yield):
            return self._yield(st.value, fr, st.targets[0])
        if isinstance(st.value, ast.YieldFrom):
            return self._yield_from(st.value, fr, st.targets[0])
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            new = self.augop(st.op, old, self.eval(st.value, fr))
            self.store_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            new = self.augop(st.op, old, self.eval(st.value, fr))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_slice(t.slice, fr)
            old = self.getitem(o, k)
            new = self.augop(st.op, old, self.eval(st.value, fr))
            self.setitem(o, k, new)
        else:
            raise Unsupported('augassign')

    def augop(self, op, a, b):
        if type(a) is ListO and isinstance(op, ast.Add):
            self.touch(a, '+=')
            a.items.extend(self.to_items(b))
            return a
        if type(a) is SetO and isinstance(op, ast.BitOr):
            self.touch(a, '|=')
            for x in self.iterate(b):
                a.items[x] = None
            return a
        return self.binop(op, a, b)

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.locals:
                    del fr.locals[t.id]
                elif fr.localnames is None and Const(t.id) in fr.glob.d:
                    self.touch(fr.glob, 'del ' + t.id)
                    del fr.glob.d[Const(t.id)]
                else:
                    self.raise_('NameError', "name '%s' is not defined" % t.id)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, fr), t.attr)
            else:
                raise Unsupported('del')

    def x_Return(self, st, fr):
        v = st.value
        if v is None:
            raise ReturnSig(NONE)
        raise ReturnSig(self.eval(v, fr))

    def x_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            return self.exec_block(st.body, fr)
        if st.orelse:
            return self.exec_block(st.orelse, fr)

    def x_While(self, st, fr):
        n = 0
        while True:
            fr.node = st
            before = len(self.trace)
            t = self.truth(self.eval(st.test, fr))
            if not t:
                yield from self.exec_block(st.orelse, fr)
                return
            if len(self.trace) > before:
                n += 1
                if n > self.STAR_CAP + 1:
                    # loop-head abstraction: further iterations repeat the
                    # same abstract transition
                    self.notes.append('while@%s bounded' % self.loc())
                    raise Infeasible()
            try:
                yield from self.exec_block(st.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                pass

    def x_For(self, st, fr):
        it = self.eval(st.iter, fr)
        for x in self.iterate(it):
            fr.node = st
            self.assign(st.target, x, fr)
            try:
                yield from self.exec_block(st.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                pass
        yield from self.exec_block(st.orelse, fr)

    def x_Break(self, st, fr):
        raise BreakSig()

    def x_Continue(self, st, fr):
        raise ContinueSig()

    def x_Raise(self, st, fr):
        if st.exc is None:
            if fr.exc is None:
                f = fr.parent
                self.raise_('RuntimeError', 'No active exception to reraise')
            raise fr.exc
        e = self.eval(st.exc, fr)
        if type(e) is ClassO:
            e = self.instantiate(e, [], {})
        if st.cause is not None:
            c = self.eval(st.cause, fr)
            if isinstance(e, Obj):
                e.attrs['__cause__'] = c
        raise PyExc(e, self.where())

    def x_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            msg = self.eval(st.msg, fr) if st.msg else Const('')
            self.raise_('AssertionError', msg)

    def x_Try(self, st, fr):
        def run():
            try:
                yield from self.exec_block(st.body, fr)
            except PyExc as e:
                depth = self.stack.index(fr) if fr in self.stack else None
                if depth is not None:
                    del self.stack[depth + 1:]
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.val, self.eval(h.type, fr)):
                        old = fr.exc
                        fr.exc = e
                        if h.name:
                            self.store_name(h.name, e.val, fr)
                        try:
                            yield from self.exec_block(h.body, fr)
                        finally:
                            fr.exc = old
                        return
                raise
            else:
                yield from self.exec_block(st.orelse, fr)
        if not st.finalbody:
            yield from run()
            return
        try:
            yield from run()
        except (PyExc, ReturnSig, BreakSig, ContinueSig) as sig:
            if fr in self.stack:
                del self.stack[self.stack.index(fr) + 1:]
            yield from self.exec_block(st.finalbody, fr)
            raise sig
        yield from self.exec_block(st.finalbody, fr)

    def exc_match(self, val, spec):
        if type(spec) is Tup:
            return any(self.exc_match(val, s) for s in spec.items)
        if type(spec) is not ClassO:
            return self.ask(('excmatch', val, spec))
        if isinstance(val, Obj):
            return val.cls.issub(spec)
        return self.isinstance_(val, spec)

    def x_With(self, st, fr):
        def go(i):
            if i == len(st.items):
                yield from self.exec_block(st.body, fr)
                return
            item = st.items[i]
            cm = self.eval(item.context_expr, fr)
            v = self.call(self.getattr(cm, '__enter__'), [], {})
            ex = self.getattr(cm, '__exit__')
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            try:
                yield from go(i + 1)
            except PyExc as e:
                if fr in self.stack:
                    del self.stack[self.stack.index(fr) + 1:]
                r = self.call(ex, [e.val.cls if isinstance(e.val, Obj) else NONE,
                                   e.val, NONE], {})
                if not self.truth(r):
                    raise
                return
            except (ReturnSig, BreakSig, ContinueSig):
                self.call(ex, [NONE, NONE, NONE], {})
                raise
            self.call(ex, [NONE, NONE, NONE], {})
        yield from go(0)

    def x_Import(self, st, fr):
        for al in st.names:
            self.importable(al.name)
            m = self.load_module(al.name)
            if al.asname:
                self.store_name(al.asname, m, fr)
            else:
                self.store_name(al.name.split('.')[0],
                                self.load_module(al.name.split('.')[0]), fr)

    def x_ImportFrom(self, st, fr):
        mod = st.module or ''
        if st.level:
            pkg = fr.glob.d.get(Const('__package__'), Const('')).v
            for _ in range(st.level - 1):
                pkg = pkg.rpartition('.')[0]
            mod = pkg + ('.' + mod if mod else '')
        if mod == '__future__':
            return
        self.importable(mod)
        m = self.load_module(mod)
        for al in st.names:
            if al.name == '*':
                for k, v in list(m.ns.d.items()):
                    if not k.v.startswith('_'):
                        self.store_name(k.v, v, fr)
                continue
            v = m.ns.d.get(Const(al.name))
            if v is None:
                sub = mod + '.' + al.name
                if self.module_file(sub) or self.models.native_module(self, sub):
                    v = self.load_module(sub)
                elif m.opaque:
                    v = self.opaque_attr(m, al.name)
                elif self.models.pure(self, mod, al.name) is not None:
                    v = self.models.pure(self, mod, al.name)
                elif host.has(m, al.name):
                    # used at module level only: an error where it is used
                    v = Sym('ext:%s.%s' % (mod, al.name), 'any', unmodelled=True)
                else:
                    self.raise_('ImportError', 'cannot import name %r from %r'
                                % (al.name, mod))
            self.store_name(al.asname or al.name, v, fr)

    def importable(self, name):
        if name in self.config.get('missing_modules', ()):
            self.raise_('ImportError', 'No module named %r' % name)

    def opaque_attr(self, m, name):
        if m.name in self.config.get('missing_modules', ()):
            self.raise_('ImportError', 'No module named %r' % m.name)
        if m.name.split('.')[0] in host.sys.stdlib_module_names:
            f = self.models.pure(self, m.name, name)
            if f is not None:
                return f
            return Sym('ext:%s.%s' % (m.name, name), 'any', unmodelled=True)
        return Sym('ext:%s.%s' % (m.name, name), 'any', notnone=True)

    def x_FunctionDef(self, st, fr):
        f = self.make_func(st, st.name, fr)
        v = f
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        self.store_name(st.name, v, fr)

    def make_func(self, node, name, fr):
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {p.arg: self.eval(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults)
               if d is not None}
        # class scopes are not enclosing scopes of their functions
        clos = fr
        while clos is not None and clos.isclass:
            clos = clos.parent
        if clos is not None and clos.localnames is None:
            clos = None
        base = fr.name if fr.name.startswith('<module') is False else ''
        modname = fr.glob.d.get(Const('__name__'))
        prefix = (fr.name + '.') if (fr.isclass or fr.localnames is not None) \
            else ((modname.v + '.') if type(modname) is Const else '')
        f = FuncO(name, node, fr.glob, clos, defaults, kwd, fr.module,
                  prefix + name)
        f.isgen = scope_info(node).isgen
        return f

    def x_ClassDef(self, st, fr):
        bases = [self.eval(b, fr) for b in st.bases]
        modname = fr.glob.d.get(Const('__name__'))
        prefix = (fr.name + '.') if (fr.isclass or fr.localnames is not None) \
            else ((modname.v + '.') if type(modname) is Const else '')
        cfr = Frame(prefix + st.name, fr.glob, fr.module, parent=fr, isclass=True)
        cfr.localnames = None
        kw = {}
        for k in st.keywords:
            if k.arg is None:
                raise Unsupported('class keywords')
            kw[k.arg] = self.eval(k.value, fr)
        meta = kw.pop('metaclass', None)
        if meta is not None and not (type(meta) is ClassO and meta.name in ('type', 'ABCMeta')
                                     and (meta.module or '').find('kajiki') < 0):
            raise Unsupported('metaclass')
        self.stack.append(cfr)
        try:
            for _ in self.exec_block(st.body, cfr):
                raise Unsupported('yield in class body')
        finally:
            self.stack.pop()
        doc = ast.get_docstring(st, clean=False)
        ns = dict(cfr.locals)
        if doc is not None:
            ns.setdefault('__doc__', Const(doc))
        ann = [s for s in st.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        if ann:
            ns['__annotations__'] = DictO({Const(s.target.id): Const(ast.unparse(s.annotation))
                                           for s in ann})
        cls = self.make_class(st.name, bases, ns, kw)
        cls.module = fr.module
        cls.qual = cfr.name
        v = cls
        for d in reversed(st.decorator_list):
            dec = self.eval(d, fr)
            v = self.call(dec, [v], {})
            if type(v) is Term or type(v) is Sym:
                v = cls       # unknown external class decorator: identity
        self.store_name(st.name, v, fr)

    def make_class(self, name, bases, ns, kw=None):
        bs = []
        for b in bases:
            if type(b) is ClassO:
                bs.append(b)
            elif type(b) is Sym or type(b) is Term:
                if b.props.get('unmodelled'):
                    raise Unsupported('class base %s has no model' % b)
                continue      # opaque external base
            else:
                raise Unsupported('class base %r' % (b,))
        if not bs:
            bs = [self.types['object']] if 'object' in self.types else []
        c = ClassO(name, bs, ns)
        c.mro = [c] + self._merge([list(b.mro) for b in bs] + [list(bs)])
        for f in ns.values():
            g = f
            if type(g) is DescO:
                g = g.fget
            if type(g) is FuncO and g.defcls is None:
                g.defcls = c
        for k, v in list(ns.items()):
            if type(v) is Obj and v.cls.lookup('__set_name__'):
                self.call(self.getattr(v, '__set_name__'), [c, Const(k)], {})
        for b in c.mro[1:]:
            f = b.ns.get('__init_subclass__')
            if f is not None:
                self.call(f.fget if type(f) is DescO else f, [c], dict(kw or {}))
                break
        return c

    @staticmethod
    def _merge(seqs):
        res = []
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('mro')
            res.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    # ------------------------------------------------------------ names
    def store_name(self, name, v, fr):
        if fr.localnames is None and not fr.isclass:
            self.touch(fr.glob, name)
            fr.glob.d[Const(name)] = v
        elif name in fr.globalnames:
            self.touch(fr.glob, name)
            fr.glob.d[Const(name)] = v
        elif name in fr.nonlocalnames:
            p = fr.parent
            while p is not None:
                if p.localnames is not None and name in p.localnames:
                    p.locals[name] = v
                    return
                p = p.parent
            raise Unsupported('nonlocal')
        else:
            fr.locals[name] = v

    def lookup(self, name, fr):
        if fr.isclass:
            if name in fr.locals:
                return fr.locals[name]
            p = fr.parent
            while p is not None and p.isclass:
                p = p.parent
            if p is not None and p.localnames is not None:
                return self.lookup(name, p)
            return self.lookup_global(name, fr)
        if fr.localnames is not None and name not in fr.globalnames:
            if name in fr.localnames:
                if name in fr.locals:
                    return fr.locals[name]
                self.raise_('UnboundLocalError',
                            "local variable '%s' referenced before assignment" % name)
            p = fr.parent
            while p is not None:
                if not p.isclass and p.localnames is not None and name in p.localnames:
                    if name in p.locals:
                        return p.locals[name]
                    self.raise_('NameError', "free variable '%s' referenced before "
                                "assignment in enclosing scope" % name)
                p = p.parent
        return self.lookup_global(name, fr)

    def lookup_global(self, name, fr):
        k = Const(name)
        v = fr.glob.d.get(k)
        if v is not None:
            return v
        if fr.glob.rest is not None:
            v = self.dict_get(fr.glob, k)
            if v is not None:
                return v
        v = self.builtins.get(name)
        if v is not None:
            return v
        hole = self.config.get('holes', {}).get(name)
        if hole is not None:
            return hole
        if host.builtin_name(name):
            raise Unsupported('builtin %s has no model' % name)
        self.event('unresolved-name', name)
        self.raise_('NameError', "name '%s' is not defined" % name)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('assign target')

    def unpack(self, elts, v, fr):
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        v = self.resolve(v)
        if type(v) in (Sym, Term) and not is_str(v):
            if stars:
                raise Unsupported('starred unpack of unknown')
            for i, e in enumerate(elts):
                self.assign(e, Term('item', (v, Const(i))), fr)
            return
        items = self.to_items(v)
        if stars:
            s = stars[0]
            after = len(elts) - s - 1
            for e, x in zip(elts[:s], items):
                self.assign(e, x, fr)
            mid = items[s:len(items) - after]
            self.assign(elts[s].value, ListO(mid), fr)
            for e, x in zip(elts[s + 1:], items[len(items) - after:]):
                self.assign(e, x, fr)
            return
        if len(items) != len(elts):
            self.raise_('ValueError', 'unpack: expected %d values, got %d'
                        % (len(elts), len(items)))
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return Const(e.value)

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getattr(o, e.attr)

    def e_Tuple(self, e, fr):
        return Tup(self.eval_elts(e.elts, fr))

    def e_List(self, e, fr):
        return ListO(self.eval_elts(e.elts, fr))

    def e_Set(self, e, fr):
        return SetO(self.eval_elts(e.elts, fr))

    def eval_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_items(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = DictO()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != is_and:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return Const(not self.truth(v))
        v = self.resolve(v)
        if isinstance(e.op, ast.USub):
            if type(v) is Const:
                return Const(-v.v)
            return lin_scale(v, -1)
        if type(v) is Const:
            if isinstance(e.op, ast.UAdd):
                return Const(+v.v)
            return Const(~v.v)
        raise Unsupported('unary op')

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            res = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return res
            if not self.truth(res):
                return FALSE
            left = right

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        while fr.name.endswith('.<comp>'):
            fr = fr.parent
        self.assign(e.target, v, fr)
        return v

    def e_Lambda(self, e, fr):
        return self.make_func(e, '<lambda>', fr)

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_JoinedStr(self, e, fr):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(Const(p.value))
            else:
                v = self.eval(p.value, fr)
                if p.conversion == 114:
                    v = self.repr_(v)
                elif p.conversion == 97:
                    raise Unsupported('!a')
                spec = None
                if p.format_spec is not None:
                    spec = self.eval(p.format_spec, fr)
                if spec is not None and spec != EMPTY:
                    v = self.format_spec(v, spec)
                else:
                    v = self.to_str(v)
                out.append(v)
        return cat(*out)

    def format_spec(self, v, spec):
        v = self.resolve(v)
        if type(v) is Const and type(spec) is Const:
            return Const(format(v.v, spec.v))
        if type(spec) is Const and spec.v in ('s', 'd'):
            return self.to_str(v)
        return Term('format', (v, spec), 'str')

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval_slice(e.slice, fr))

    def eval_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: NONE if x is None else self.eval(x, fr)
            return ('slice', g(s.lower), g(s.upper), g(s.step))
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        raise Unsupported('slice object')

    def e_Call(self, e, fr):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                'super' not in fr.locals:
            if not e.args:
                f = fr
                while f is not None and f.cls is None:
                    f = f.parent
                first = f.func.node.args.args[0].arg
                return SuperO(f.cls, f.locals[first])
            c = self.eval(e.args[0], fr)
            o = self.eval(e.args[1], fr)
            return SuperO(c, o)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'vars', 'dir') \
                and not e.args and e.func.id not in fr.locals:
            if e.func.id == 'globals':
                return fr.glob
            if e.func.id == 'dir':
                raise Unsupported('dir()')
            if fr.localnames is None and not fr.isclass:
                return fr.glob
            return DictO({Const(k): v for k, v in fr.locals.items()})
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.to_items(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if type(d) is not DictO:
                    raise Unsupported('** of %r' % (d,))
                if d.rest is not None:
                    raise Unsupported('** of open dict')
                for kk, vv in d.d.items():
                    if kk.v in kw:
                        self.raise_('TypeError', 'multiple values for keyword %r' % kk.v)
                    kw[kk.v] = vv
            else:
                kw[k.arg] = self.eval(k.value, fr)
        fr.node = e if hasattr(e, 'lineno') else fr.node
        return self.call(f, args, kw)

    # comprehensions
    def _comp(self, gens, fr, emit):
        def go(i, cfr):
            if i == len(gens):
                yield emit(cfr)
                return
            g = gens[i]
            it = self.eval(g.iter, fr if i == 0 else cfr)
            for x in self.iterate(it):
                self.assign(g.target, x, cfr)
                if all(self.truth(self.eval(c, cfr)) for c in g.ifs):
                    yield from go(i + 1, cfr)
        names = set()
        for g in gens:
            _bind_names(g.target, names)
        cfr = Frame(fr.name + '.<comp>', fr.glob, fr.module, parent=fr,
                    localnames=names)
        if fr.isclass:
            pass
        cfr.node = fr.node
        cfr.func = fr.func
        return go(0, cfr)

    def e_ListComp(self, e, fr):
        return ListO(list(self._comp(e.generators, fr,
                                     lambda c: self.eval(e.elt, c))))

    def e_SetComp(self, e, fr):
        return SetO(list(self._comp(e.generators, fr,
                                    lambda c: self.eval(e.elt, c))))

    def e_DictComp(self, e, fr):
        d = DictO()
        for k, v in self._comp(e.generators, fr, lambda c: (
                self.eval(e.key, c), self.eval(e.value, c))):
            self.dict_set(d, k, v)
        return d

    def e_GeneratorExp(self, e, fr):
        return GenO(self._comp(e.generators, fr, lambda c: self.eval(e.elt, c)),
                    'genexp')

    # ------------------------------------------------------------ resolve
    def resolve(self, v):
        """Replace an abstract value by what the facts pin it to."""
        t = type(v)
        if t is Sym or t is Term:
            if t is Sym and 'unmodelled' in v.props:
                raise Unsupported('%s has no model' % v.name)
            if self.alias and v in self.alias:
                return self.resolve(self.unaliased(v))
            if self.facts.get(('none', v)):
                return NONE
            d = self.domain.get(v)
            if d and d[0] == 'in' and len(d[1]) == 1:
                return next(iter(d[1]))
        return v

    def is_none(self, v):
        v = self.resolve(v)
        if type(v) is Const:
            return v.v is None
        if isinstance(v, HObj) or type(v) in (Cat, Lin, Tup):
            return False
        if v.props.get('notnone'):
            return False
        if v.ty in ('str', 'int', 'bool', 'bytes', 'tuple', 'list') and \
                not v.props.get('maybe_none'):
            return False
        if ('none', v) in self.facts:
            return self.facts[('none', v)]
        ty = self.vtypes.get(v)
        if ty and ty[0] is not None:
            self.facts[('none', v)] = False
            return False
        d = self.domain.get(v)
        if d and d[0] == 'in' and NONE not in d[1]:
            return False
        for k, val in self.facts.items():
            if k[0] == 'hasattr' and k[1] == v and val:
                return False
            if k[0] == 'truth' and k[1] == v and val:
                return False
        r = self.ask(('none', v))
        if r:
            if any(k[0] == 'attrread' and k[1] == v for k in self.facts):
                raise Infeasible()
        return r

    # ------------------------------------------------------------ truth
    def truth(self, v):
        v = self.resolve(v)
        t = type(v)
        if t is Const:
            return bool(v.v)
        if t is Tup:
            return bool(v.items)
        if t is ListO:
            return self.nonempty_items(v)
        if t is SetO:
            return bool(v.items)
        if t is DictO:
            if v.d:
                return True
            if v.rest is not None:
                return self.ask(('truth', v))
            return False
        if t is Obj:
            m = v.cls.lookup('__bool__')
            if m is not None:
                return self.truth(self.call(m, [v], {}))
            m = v.cls.lookup('__len__')
            if m is not None:
                return self.truth(self.call(m, [v], {}))
            return True
        if t is GenO and v.view is not None:
            return any(True for _ in v.view())
        if isinstance(v, HObj):
            return True
        if t is Cat:
            for p in v.parts:
                if type(p) is Const or p.props.get('nonempty'):
                    return True
            return any(self.truth(p) for p in v.parts)
        if t is Lin:
            return not self.decide_eq(v, Const(0))
        if v.ty == 'int':
            return not self.decide_eq(v, Const(0))
        if v.props.get('nonempty'):
            return True
        d = self.domain.get(v)
        if d and d[0] == 'in':
            ts = {bool(c.v) for c in d[1]}
            if len(ts) == 1:
                return ts.pop()
        ty = self.vtypes.get(v)
        if ty and ty[0] is not None:
            c = ty[0]
            if c.builtin is None and c.lookup('__bool__') is None and \
                    c.lookup('__len__') is None:
                return True
        if v.ty == 'str' and t is Term:
            if v.op == 'hom':
                # a homomorphism that never erases
                if all(r for _, r in v.args[1]):
                    return self.truth(v.args[0])
            if v.op == 'slice':
                return self.truth_int_pos(lin_add(v.args[2], v.args[1], -1))
            if v.op == 'repr':
                return True
        if ('truth', v) in self.facts:
            return self.facts[('truth', v)]
        if v.ty == 'any' and self.facts.get(('none', v)) is True:
            return False
        r = self.ask(('truth', v))
        if v.ty == 'str' or v.props.get('maybe_none') is None and v.ty == 'str':
            if r:
                self.facts[('eqc', v, EMPTY)] = False
        return r

    def truth_int_pos(self, n):
        """n (known >= 0) is > 0 ?"""
        s = self.cmp_int(n, Const(0))
        return s > 0 if s is not None else not self.decide_eq(n, Const(0))

    def nonempty_items(self, lst):
        known = [x for x in lst.items if not isinstance(x, Star)]
        if known:
            return True
        if not lst.items:
            return False
        self.expand_stars(lst)
        return bool(lst.items)

    def expand_stars(self, lst):
        """Materialise unknown repetitions of a list (splits the partition)."""
        if any(isinstance(x, Star) for x in lst.items):
            out = []
            for x in lst.items:
                if isinstance(x, Star):
                    out.extend(self.star_elems(x))
                else:
                    out.append(x)
            if lst.oid <= self.base_n and lst not in self.journal:
                self.journal[lst] = lst.snapshot()
            lst.items = out

    def star_elems(self, star):
        n = 0
        cap = star.cap or self.STAR_CAP
        while True:
            if n >= cap:
                return
            if n >= star.minlen:
                if self.choose(2, ('more', star.name, n)) == 1:
                    return
            yield star.make(self, n)
            n += 1

    # ------------------------------------------------------------ equality
    def decide_eq(self, a, b):
        """bool: does a == b (splits the partition if unknown)."""
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is Const and tb is Const:
            return a.v == b.v
        if ta is Tup and tb is Tup:
            if len(a.items) != len(b.items):
                return False
            return all(self.decide_eq(x, y) for x, y in zip(a.items, b.items))
        for x, y in ((a, b), (b, a)):
            if type(x) is Obj:
                m = x.cls.lookup('__eq__')
                if m is not None and m is not self.types['object'].ns.get('__eq__'):
                    r = self.call(m, [x, y], {})
                    if r is not self.builtins.get('NotImplemented'):
                        return self.truth(r)
        for x, y in ((a, b), (b, a)):
            if type(x) is GenO and x.view is not None and type(y) in (SetO, GenO):
                return self.as_set(x) == self.as_set(y)
        if ta is Tup or tb is Tup:
            o = b if ta is Tup else a
            if type(o) in (Sym, Term) and o.ty == 'any':
                return self.ask(('eq',) + self._pair(a, b))
            return False
        if ta is ListO and tb is ListO:
            self.expand_stars(a)
            self.expand_stars(b)
            if len(a.items) != len(b.items):
                return False
            return all(self.decide_eq(x, y) for x, y in zip(a.items, b.items))
        if ta is SetO and tb is SetO:
            return set(a.items) == set(b.items)
        if ta is DictO and tb is DictO:
            if a.rest or b.rest:
                raise Unsupported('open dict ==')
            if set(a.d) != set(b.d):
                return False
            return all(self.decide_eq(a.d[k], b.d[k]) for k in a.d)
        for x, y in ((a, b), (b, a)):
            # type(v) == C
            if type(x) is Term and x.op == 'type':
                if type(y) is ClassO:
                    return self.type_is(x.args[0], y)
                if type(y) is Term and y.op == 'type':
                    return self.ask(('eq',) + self._pair(a, b))
        if isinstance(a, HObj) and isinstance(b, HObj):
            if ta is BoundO and tb is BoundO:
                return a == b
            return False
        if isinstance(a, HObj) or isinstance(b, HObj):
            o = b if isinstance(a, HObj) else a
            if type(o) in (Sym, Term) and o.ty == 'any':
                return self.ask(('eq',) + self._pair(a, b))
            return False
        # numbers
        if a.ty in ('int', 'bool') and b.ty in ('int', 'bool') and \
                (ta in (Lin, Sym, Term) or tb in (Lin, Sym, Term)):
            s = self.cmp_int(a, b)
            if s is not None:
                return s == 0
            return self.ask_cmp(a, b, 'eq')
        if a.ty != b.ty and a.ty in ('str', 'int', 'bool', 'bytes', 'tuple', 'none') and \
                b.ty in ('str', 'int', 'bool', 'bytes', 'tuple', 'none') and \
                not (ta in (Sym, Term) and a.props.get('maybe_none')) and \
                not (tb in (Sym, Term) and b.props.get('maybe_none')):
            return False
        if a == b:
            return True
        if is_str(a) and is_str(b):
            r = self.str_mismatch(a, b)
            if r is not None:
                return r
        for x, y in ((a, b), (b, a)):
            if type(y) is Const and type(x) in (Sym, Term):
                return self.eq_const(x, y)
        return self.unify(a, b, self.ask(('eq',) + self._pair(a, b)))

    def unify(self, a, b, equal):
        """equal texts are interchangeable"""
        if equal and is_str(a) and is_str(b) and (type(a) is Cat or type(b) is Cat):
            a, b = self.unaliased(a), self.unaliased(b)
            if type(b) is Sym:
                a, b = b, a
            if type(a) is not Sym or self.mentions(b, a):
                if a != b:
                    raise Unsupported('equation of two texts')
            else:
                self.bind(a, b)
        elif equal and type(a) in (Sym, Term) and type(b) in (Sym, Term):
            ca, cb = self.class_of(a), self.class_of(b)
            if ca is not None and ca is cb and ca.builtin == 'str':
                a, b = self.unaliased(a), self.unaliased(b)
                if a != b:
                    # the one that says more stands for both
                    a, b = sorted((a, b), key=lambda v: (type(v) is Sym, repr(v)))
                    if not self.mentions(a, b):
                        self.bind(b, a)
        return equal

    def bind(self, x, v):
        d = self.domain.get(x)
        if is_str(v):
            ex = set(self.excluded(x))
            for q in (v.parts if type(v) is Cat else [v]) if ex else ():
                if type(q) is Const:
                    if set(q.v) & ex:
                        raise Infeasible()
                else:
                    self.excl[q] = set(self.excl.get(q, ())) | ex
        # what is known of the one is known of the other
        for k, val in list(self.facts.items()):
            if type(k) is tuple and any(type(y) is type(x) and y == x for y in k[1:]):
                n = tuple(v if type(y) is type(x) and y == x else y for y in k)
                if n[0] == 'eq' and len(n) == 3:
                    if n[1] == n[2]:
                        continue
                    n = ('eq',) + self._pair(n[1], n[2])
                self.facts.setdefault(n, val)
        self.alias[x] = v
        if d and type(v) is not Cat:
            e = self.domain.get(v)
            if e is None:
                self.domain[v] = d
            elif e[0] == d[0] == 'out':
                self.domain[v] = ('out', e[1] | d[1])
            else:
                s = e[1] & d[1] if e[0] == d[0] else \
                    e[1] - d[1] if e[0] == 'in' else d[1] - e[1]
                if not s:
                    raise Infeasible()
                self.domain[v] = ('in', s)

    def mentions(self, v, x):
        return v == x or type(v) in (Term, Cat) and any(
            self.mentions(y, x) for y in (v.args if type(v) is Term else v.parts)
            if isinstance(y, V))

    def unaliased(self, v):
        while type(v) in (Sym, Term) and v in self.alias:
            v = self.alias[v]
        t = type(v)
        if t is Term:
            args = tuple(self.unaliased(x) if isinstance(x, V) else x for x in v.args)
            return v if args == v.args else self.unaliased(Term(v.op, args, v.ty, **v.props))
        if t is Cat:
            return cat(*map(self.unaliased, v.parts))
        return v

    def _pair(self, a, b):
        return tuple(sorted((a, b), key=repr))

    def eq_const(self, x, c):
        if c.v is None:
            return self.is_none(x)
        if x.props.get('generic') and type(c.v) is str:
            return False
        if c.v == '' and x.props.get('nonempty'):
            return False
        if type(c.v) is str and x.ty == 'str' and set(c.v) & self.excluded(x):
            return False
        if type(c.v) is str and len(c.v) > 1 and type(x) is Term and x.op == 'slice' and \
                type(x.args[0]) is Sym and x.args[0].props.get('generic'):
            return False
        d = self.domain.get(x)
        if d:
            if d[0] == 'in' and c not in d[1]:
                return False
            if d[0] == 'out' and c in d[1]:
                return False
        if ('eqc', x, c) in self.facts:
            return self.facts[('eqc', x, c)]
        if c.v == '' and self.facts.get(('truth', x)) is True:
            return False
        if type(c.v) is str and c.v and self.facts.get(('truth', x)) is False:
            return False
        if type(c.v) is str and x.ty == 'any':
            ty = self.vtypes.get(x)
            if ty and ty[0] is not None and ty[0].builtin != 'str':
                return False
        r = self.ask(('eqc', x, c))
        if r:
            self.domain[x] = ('in', frozenset([c]))
        elif d is None:
            self.domain[x] = ('out', frozenset([c]))
        elif d[0] == 'in':
            s = d[1] - {c}
            if not s:
                raise Infeasible()
            self.domain[x] = ('in', s)
        else:
            self.domain[x] = ('out', d[1] | {c})
        return r

    def in_consts(self, x, consts):
        """x in {consts} for abstract x, as one partition split."""
        s = frozenset(consts)
        if x.props.get('generic'):
            s = frozenset(c for c in s if type(c.v) is not str)
            if not s and x.ty == 'str':
                return False
        if x.ty == 'str' and not x.props.get('maybe_none'):
            s = frozenset(c for c in s if type(c.v) is str)
        d = self.domain.get(x)
        if d:
            s = (s & d[1]) if d[0] == 'in' else (s - d[1])
            if d[0] == 'in' and s == d[1]:
                return True
        if not s:
            return False
        r = self.ask(('in', x, s))
        if r:
            self.domain[x] = ('in', s)
        elif d is None:
            self.domain[x] = ('out', s)
        elif d[0] == 'in':
            self.domain[x] = ('in', d[1] - s)
        else:
            self.domain[x] = ('out', d[1] | s)
        return r

    def str_mismatch(self, a, b):
        """False if the two string shapes cannot be equal, None if unknown."""
        def ends(v):
            ps = v.parts if type(v) is Cat else (v,)
            pre = ps[0].v if type(ps[0]) is Const else ''
            suf = ps[-1].v if type(ps[-1]) is Const else ''
            return pre, suf, len(ps) == 1 and type(ps[0]) is Const
        pa, sa, ca = ends(a)
        pb, sb, cb = ends(b)
        n = min(len(pa), len(pb))
        if pa[:n] != pb[:n]:
            return False
        n = min(len(sa), len(sb))
        if n and sa[-n:] != sb[-n:]:
            return False
        for x, y, cy in ((a, b, cb), (b, a, ca)):
            if cy and type(x) is Cat:
                minlen = sum(len(p.v) if type(p) is Const else
                             (1 if p.props.get('nonempty') else 0) for p in x.parts)
                if minlen > len(y.v):
                    return False
                if not all(p.v in y.v for p in x.parts if type(p) is Const):
                    return False
                if any(type(p) is Sym and p.props.get('generic') for p in x.parts):
                    return False
        if type(a) is Cat and type(b) is Cat:
            # strip common prefix/suffix parts
            pa_, pb_ = list(a.parts), list(b.parts)
            while pa_ and pb_ and pa_[0] == pb_[0]:
                pa_.pop(0), pb_.pop(0)
            while pa_ and pb_ and pa_[-1] == pb_[-1]:
                pa_.pop(), pb_.pop()
            if not pa_ and not pb_:
                return True
            if (not pa_ or not pb_):
                rest = pa_ or pb_
                if any(type(p) is Const or p.props.get('nonempty') for p in rest):
                    return False
            if len(pa_) == 1 and len(pb_) == 1:
                if type(pa_[0]) is Const and type(pb_[0]) is Const:
                    return False
        return None

    # ------------------------------------------------------------ ordering
    def nonneg(self, v):
        """v provably >= 0 ? (Lin over atoms and order edges)"""
        c, d = lin_parts(v)
        return self._nonneg(c, d, 6)

    def _lo(self, atom):
        p = getattr(atom, 'props', {})
        if 'lo' in p:
            return p['lo']
        if type(atom) is Term and atom.op in ('len', 'count', 'nl', 'pos'):
            return 0
        return None

    def _nonneg(self, c, d, fuel):
        neg = [a for a, k in d.items() if k < 0]
        if not neg:
            tot = c
            for a, k in d.items():
                lo = self._lo(a)
                if lo is None:
                    return False
                tot += k * lo
            return tot >= 0
        if fuel == 0:
            return False
        for q in neg:
            for (p_, q_, strict) in list(self.edges):
                # edge q <= p : use p - q >= strict
                if p_ == q and d.get(q_, 0) > 0:
                    d2 = dict(d)
                    d2[q] += 1
                    d2[q_] -= 1
                    d2 = {a: k for a, k in d2.items() if k}
                    if self._nonneg(c + (1 if strict else 0), d2, fuel - 1):
                        return True
                elif p_ == q and fuel > 1:
                    # q <= p  =>  -q >= -p
                    d2 = dict(d)
                    d2[q] += 1
                    d2[q_] = d2.get(q_, 0) - 1
                    d2 = {a: k for a, k in d2.items() if k}
                    if q_ != q and self._nonneg(c + (1 if strict else 0), d2, fuel - 2):
                        return True
        return False

    def cmp_int(self, a, b):
        """-1/0/1 if decided, None otherwise."""
        diff = lin_add(a, b, -1)
        if type(diff) is Const:
            return (diff.v > 0) - (diff.v < 0)
        c, d = lin_parts(diff)
        if self._nonneg(c - 1, dict(d), 6):
            return 1
        nd = {k: -v for k, v in d.items()}
        if self._nonneg(-c - 1, nd, 6):
            return -1
        key = ('cmp', diff)
        if key in self.facts:
            return self.facts[key]
        key2 = ('cmp', lin_scale(diff, -1))
        if key2 in self.facts:
            return -self.facts[key2]
        return None

    def ask_cmp(self, a, b, op):
        """Ordering split of a ? b; returns bool of the relation op."""
        diff = lin_add(a, b, -1)
        key = ('cmpset', diff)
        poss = self.facts.get(key, frozenset((-1, 0, 1)))
        c, d = lin_parts(diff)
        if 0 in poss or True:
            if self._nonneg(c, dict(d), 6):
                poss = poss - {-1}
            if self._nonneg(-c, {k: -v for k, v in d.items()}, 6):
                poss = poss - {1}
        want = {'eq': {0}, 'lt': {-1}, 'gt': {1}, 'le': {-1, 0}, 'ge': {0, 1}}[op]
        yes, no = poss & want, poss - want
        if not yes:
            return False
        if not no:
            return True
        r = self.choose(2, (op, a, b)) == 0
        new = frozenset(yes if r else no)
        self.facts[key] = new
        self.facts[('cmpset', lin_scale(diff, -1))] = frozenset(-x for x in new)
        if len(new) == 1:
            self.facts[('cmp', diff)] = next(iter(new))
        return r

    # ------------------------------------------------------------ compare
    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            r = self.is_(a, b)
            return Const(r if t is ast.Is else not r)
        if t is ast.Eq or t is ast.NotEq:
            r = self.decide_eq(a, b)
            return Const(r if t is ast.Eq else not r)
        if t is ast.In or t is ast.NotIn:
            r = self.contains(b, a)
            return Const(r if t is ast.In else not r)
        a, b = self.resolve(a), self.resolve(b)
        name = {ast.Lt: 'lt', ast.Gt: 'gt', ast.LtE: 'le', ast.GtE: 'ge'}[t]
        return Const(self.order(name, a, b))

    def as_set(self, v):
        return frozenset(self.resolve(x) for x in self.iterate(v))

    def order(self, name, a, b):
        if (type(a) is SetO or type(a) is GenO and a.view) and \
                (type(b) is SetO or type(b) is GenO and b.view):
            x, y = self.as_set(a), self.as_set(b)
            if not all(type(i) is Const for i in x | y):
                raise Unsupported('order of sets')
            return {'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[name]
        if type(a) is ListO and type(b) is ListO:
            self.expand_stars(a)
            self.expand_stars(b)
            return self.order(name, Tup(a.items), Tup(b.items))
        for x, y, n in ((a, b, name), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[name])):
            if type(x) is Obj and x.cls.lookup('__%s__' % n):
                r = self.call(x.cls.lookup('__%s__' % n), [x, y], {})
                if r is not self.builtins.get('NotImplemented'):
                    return self.truth(r)
        if type(a) is Const and type(b) is Const:
            try:
                return {'lt': lambda: a.v < b.v, 'gt': lambda: a.v > b.v,
                        'le': lambda: a.v <= b.v, 'ge': lambda: a.v >= b.v}[name]()
            except TypeError:
                self.raise_('TypeError', 'unorderable')
        if type(a) is Tup and type(b) is Tup:
            for x, y in zip(a.items, b.items):
                if not self.decide_eq(x, y):
                    return self.order(name[0] + 't', x, y)
            return self.order(name, Const(len(a.items)), Const(len(b.items)))
        if a == b:
            return name in ('le', 'ge')
        if is_str(a) or is_str(b):
            key = ('strcmp',) + self._pair(a, b)
            flip = key[1] != a
            if key not in self.facts:
                opts = [-1, 1]
                if type(a) in (Sym, Term) and type(b) in (Sym, Term) and \
                        not (a.props.get('distinct') or b.props.get('distinct')):
                    opts = [-1, 0, 1]
                self.facts[key] = opts[self.choose(len(opts), key)]
            s = self.facts[key] * (-1 if flip else 1)
            return {'lt': s < 0, 'gt': s > 0, 'le': s <= 0, 'ge': s >= 0}[name]
        for x in (a, b):
            if isinstance(x, HObj) or (type(x) is Const and x.v is None):
                if type(x) is Obj and x.cls.lookup('__%s__' % name):
                    continue
                if not (type(x) is Const or type(x) is Obj):
                    raise Unsupported('order of %r and %r' % (a, b))
                self.raise_('TypeError', 'unorderable types')
        s = self.cmp_int(a, b)
        if s is not None:
            return {'lt': s < 0, 'gt': s > 0, 'le': s <= 0, 'ge': s >= 0}[name]
        return self.ask_cmp(a, b, name)

    def is_(self, a, b):
        if type(b) is Const and b.v is None:
            return self.is_none(a)
        if type(a) is Const and a.v is None:
            return self.is_none(b)
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return True
        if isinstance(a, HObj) and isinstance(b, HObj):
            return type(a) is BoundO and a == b and False
        if type(a) is Const and type(b) is Const:
            return a == b
        for x, y in ((a, b), (b, a)):
            if type(x) is Term and x.op == 'type' and type(y) is ClassO:
                return self.type_is(x.args[0], y)
        if isinstance(a, HObj) != isinstance(b, HObj):
            o = b if isinstance(a, HObj) else a
            if type(o) in (Sym, Term) and o.ty == 'any':
                return self.ask(('is',) + self._pair(a, b))
            return False
        for x, y in ((a, b), (b, a)):
            if type(y) is Const and type(y.v) is bool:
                if x.ty not in ('bool', 'any'):
                    return False
                if x.ty == 'bool':
                    return self.truth(x) == y.v
                return self.eq_const(x, y)
        if a == b:
            return True
        return self.ask(('is',) + self._pair(a, b))

    def contains(self, c, x):
        c = self.resolve(c)
        x = self.resolve(x)
        t = type(c)
        if t is Const and type(c.v) is str:
            if type(x) is Const:
                if type(x.v) is not str:
                    self.raise_('TypeError', 'in <string> requires string')
                return x.v in c.v
            return self.ask(('substr', x, c))
        if t in (Cat, Sym, Term) and c.ty == 'str':
            if type(x) is Const:
                return self.str_has(c, x.v)
            return self.ask(('substr', x, c))
        if t is DictO:
            return self.dict_has(c, x)
        if t is SetO or t is Tup or t is ListO:
            if t is ListO:
                self.expand_stars(c)
            items = list(c.items)
            if type(x) in (Sym, Term):
                consts = [i for i in items if type(i) is Const]
                others = [i for i in items if type(i) is not Const]
                if consts and self.in_consts(x, consts):
                    return True
                return any(self.decide_eq(x, i) for i in others)
            if type(x) is Const and t is SetO and all(type(i) is Const for i in items):
                return x in c.items or any(i.v == x.v for i in items)
            return any(self.decide_eq(x, i) for i in items)
        if t is Obj:
            m = c.cls.lookup('__contains__')
            if m is not None:
                return self.truth(self.call(m, [c, x], {}))
            return any(self.decide_eq(x, i) for i in self.iterate(c))
        if t is GenO:
            return any(self.decide_eq(x, i) for i in self.iterate(c))
        if t is Const and isinstance(c.v, bytes) and type(x) is Const:
            return x.v in c.v
        if t in (Sym, Term):
            return self.ask(('contains', c, x))
        raise Unsupported('in %r' % (c,))

    def str_has(self, s, sub):
        """does abstract string s contain constant sub"""
        parts = s.parts if type(s) is Cat else (s,)
        for p in parts:
            if type(p) is Const and sub in p.v:
                return True
        unknown = []
        for p in parts:
            if type(p) is Const:
                continue
            if len(sub) == 1 and sub in self.excluded(p):
                continue
            unknown.append(p)
        if not unknown and len(sub) == 1:
            return False
        if len(unknown) == 1 and len(sub) == 1:
            return self.ask_has(unknown[0], sub)
        return self.ask(('has', s, sub))

    def ask_has(self, p, ch):
        r = self.ask(('has', p, ch))
        if not r:
            self.excl.setdefault(p, set()).add(ch)
        return r

    def excluded(self, p):
        """characters known absent from an abstract piece"""
        s = set(self.excl.get(p, ()))
        if type(p) in (Sym, Term):
            s |= set(p.props.get('excl', ()))
        if type(p) is Term and p.op == 'slice':
            s |= self.excluded(p.args[0])
        if type(p) is Term and p.op == 'repr' and p.args[0].ty in ('str', 'int'):
            s |= set('\n\r\t\f\v\0')
        if type(p) is Term and p.op == 'hom':
            m = dict(p.args[1])
            base = self.excluded(p.args[0])
            out = set()
            cand = set(m) | base
            produced = set(''.join(m.values()))
            for ch in cand:
                if (ch in m or ch in base) and ch not in produced:
                    out.add(ch)
            s |= out
        return s

    # ------------------------------------------------------------ types
    def class_of(self, v):
        v = self.resolve(v)
        t = type(v)
        if t is Obj:
            return v.cls
        if t is DictO:
            return v.cls or self.types['defaultdict' if v.factory else 'dict']
        if t is ListO:
            return self.types[v.kind]
        if t is SetO:
            return self.types[v.kind]
        if t is Tup:
            return self.types['tuple']
        if t is ClassO:
            return self.types['type']
        if t in (FuncO, BoundO, Native, PartialO):
            return self.types['function']
        if t is GenO:
            return self.types['generator']
        if t is ModO:
            return self.types['module']
        if t is Const:
            return self.types[{str: 'str', int: 'int', bool: 'bool', float: 'float',
                               bytes: 'bytes', type(None): 'NoneType',
                               type(Ellipsis): 'ellipsis'}[type(v.v)]]
        if v.ty in ('str', 'int', 'bool', 'bytes') and not (
                t in (Sym, Term) and v.props.get('maybe_none')):
            return self.types[v.ty]
        ty = self.vtypes.get(v)
        if ty and ty[0] is not None:
            return ty[0]
        p = v.props.get('cls') if t in (Sym, Term) else None
        if p is not None:
            return p
        return None

    def isinstance_(self, v, spec):
        v = self.resolve(v)
        if type(spec) is Tup:
            for s in spec.items:
                if self.isinstance_(v, s):
                    return True
            return False
        c = self.class_of(v)
        if type(spec) is Native and spec.name in ('property', 'classmethod', 'staticmethod'):
            return type(v) is DescO and v.kind == spec.name
        if type(spec) is not ClassO:
            if isinstance(spec, HObj) or type(spec) in (Sym, Term) and spec.props.get('unmodelled'):
                raise Unsupported('isinstance of %r' % (spec,))
            return self.ask(('isinstance', v, spec))
        if (spec.module or '').endswith('collections.abc.py') and \
                not (type(v) in (Sym, Term) and c is None):
            if c is not None and c.issub(spec):
                return True
            a = getattr(collections.abc, spec.name)
            if type(v) is Obj or c is not None and c.builtin is None:
                names = {'Hashable': '', 'Callable': '__call__', 'Sized': '__len__',
                         'Container': '__contains__', 'Iterable': '__iter__',
                         'Iterator': '__next__'}.get(spec.name)
                return names is not None and (not names or c.lookup(names) is not None)
            if type(v) is GenO and v.view is not None:
                return isinstance({'dict.keys': {}.keys(), 'dict.values': {}.values(),
                                   'dict.items': {}.items()}.get(v.name, ()), a)
            h = host.sample(v)
            if type(v) is Const and v.v is None:
                h = None
            elif h is None:
                raise Unsupported('isinstance of %r' % (spec,))
            return isinstance(h, a)
        if c is not None:
            if spec.builtin == 'int' and c.builtin == 'bool':
                return True
            return c.issub(spec)
        if spec.builtin == 'object':
            return True
        if self.facts.get(('none', v)):
            return False
        # unknown value
        ty = self.vtypes.setdefault(v, [None, set()])
        if any(spec.issub(n) for n in ty[1]):
            return False
        r = self.ask(('isinstance', v, spec))
        if r:
            ty[0] = spec
            self.facts[('none', v)] = False
        else:
            ty[1].add(spec)
        return r

    def type_is(self, v, cls):
        v = self.resolve(v)
        c = self.class_of(v)
        if c is not None:
            return c is cls
        return self.isinstance_(v, cls)

    # ------------------------------------------------------------ to_str
    def to_str(self, v):
        v = self.resolve(v)
        t = type(v)
        if v.ty == 'str' and not (t in (Sym, Term) and v.props.get('maybe_none')):
            return v
        if t is Const:
            return Const(str(v.v))
        if t is Obj:
            m = v.cls.lookup('__str__')
            if m is not None:
                r = self.call(m, [v], {})
                return r
            m = v.cls.lookup('__repr__')
            if m is not None:
                return self.call(m, [v], {})
            return Term('objstr', (v,), 'str', nonempty=True)
        if t in (Tup, ListO, DictO):
            return self.repr_(v)
        if isinstance(v, HObj):
            return Term('objstr', (v,), 'str', nonempty=True)
        if v.ty in ('int', 'bool'):
            return Term('str', (v,), 'str', nonempty=True, excl=NOTNUM)
        c = self.class_of(v)
        if c is not None and c.builtin is None:
            m = c.lookup('__str__')
            if m is not None:
                return self.call(m, [v], {})
            return Term('objstr', (v,), 'str', nonempty=True)
        if c is not None and c.builtin == 'str':
            return Term('str', (v,), 'str')
        return Term('str', (v,), 'str')

    def repr_(self, v):
        v = self.resolve(v)
        t = type(v)
        if t is Const:
            return Const(repr(v.v))
        if t is Tup:
            out = [Const('(')]
            for i, x in enumerate(v.items):
                if i:
                    out.append(Const(', '))
                out.append(self.repr_(x))
            out.append(Const(',)' if len(v.items) == 1 else ')'))
            return cat(*out)
        if t is ListO:
            self.expand_stars(v)
            out = [Const('[')]
            for i, x in enumerate(v.items):
                if i:
                    out.append(Const(', '))
                out.append(self.repr_(x))
            out.append(Const(']'))
            return cat(*out)
        if t is DictO and v.rest is None and not v.factory and v.cls is None:
            out = [Const('{')]
            for i, (k, x) in enumerate(v.d.items()):
                if i:
                    out.append(Const(', '))
                out += [self.repr_(k), Const(': '), self.repr_(x)]
            out.append(Const('}'))
            return cat(*out)
        if t is Obj:
            m = v.cls.lookup('__repr__')
            if m is not None:
                return self.call(m, [v], {})
        return Term('repr', (v,), 'str', nonempty=True)

    # ------------------------------------------------------------ binop
    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        t = type(op)
        if t is ast.Mod and is_str(a):
            return self.percent(a, b)
        if type(a) is Const and type(b) is Const:
            try:
                return Const(self._constop(t, a.v, b.v))
            except TypeError as e:
                self.raise_('TypeError', str(e))
            except ZeroDivisionError as e:
                self.raise_('ZeroDivisionError', str(e))
        if t is ast.Add:
            if is_str(a) and is_str(b):
                return cat(a, b)
            if is_str(a) or is_str(b):
                o = b if is_str(a) else a
                if isinstance(o, HObj) or type(o) in (Tup, Lin) or o.ty in ('int', 'bool', 'none', 'bytes'):
                    self.raise_('TypeError', 'can only concatenate str (not "%s") to str'
                                % o.ty)
                c = self.class_of(o)
                if c is not None and not c.issub(self.types['str']):
                    self.raise_('TypeError', 'can only concatenate str (not "%s") to str'
                                % c.name)
                # unknown value concatenated to a string: it is a str or raises
                if c is None:
                    if not self.isinstance_(o, self.types['str']):
                        self.raise_('TypeError', 'can only concatenate str')
                    o = Term('str', (o,), 'str')
                    return cat(a, o) if is_str(a) else cat(o, b)
                o = Term('str', (o,), 'str')
                return cat(a, o) if is_str(a) else cat(o, b)
            if type(a) is ListO and type(b) is ListO:
                return ListO(a.items + b.items)
            if type(a) is Tup and type(b) is Tup:
                return Tup(a.items + b.items)
            if a.ty in ('int', 'bool') and b.ty in ('int', 'bool'):
                return lin_add(a, b)
        if t is ast.Sub and a.ty in ('int', 'bool') and b.ty in ('int', 'bool'):
            return lin_add(a, b, -1)
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if type(x) is Const and type(x.v) is int and y.ty == 'int':
                    return lin_scale(y, x.v)
                if type(x) is Const and type(x.v) is int:
                    if type(y) is ListO:
                        return ListO(y.items * x.v)
                    if type(y) is Tup:
                        return Tup(y.items * x.v)
                    if is_str(y):
                        return cat(*([y] * max(0, x.v)))
            if is_str(a) and b.ty == 'int' or is_str(b) and a.ty == 'int':
                return Term('repeat', (a, b) if is_str(a) else (b, a), 'str')
        if t in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
            if type(a) is GenO and a.view is not None:
                a = SetO(list(a.view()))
            if type(b) is GenO and b.view is not None:
                b = SetO(list(b.view()))
        if t is ast.BitXor and type(a) is SetO and type(b) is SetO:
            return SetO([x for x in a.items if x not in b.items] +
                        [x for x in b.items if x not in a.items], a.kind)
        if t is ast.BitOr and type(a) is SetO and type(b) is SetO:
            return SetO(list(a.items) + list(b.items), a.kind)
        if t is ast.BitAnd and type(a) is SetO and type(b) is SetO:
            return SetO([x for x in a.items if x in b.items], a.kind)
        if t is ast.Sub and type(a) is SetO and type(b) is SetO:
            return SetO([x for x in a.items if x not in b.items], a.kind)
        if t is ast.BitOr and type(a) is DictO and type(b) is DictO:
            d = DictO()
            self.dict_update(d, a)
            self.dict_update(d, b)
            return d
        name = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__',
                ast.Mod: '__mod__', ast.BitOr: '__or__', ast.Div: '__truediv__',
                ast.BitAnd: '__and__', ast.FloorDiv: '__floordiv__'}.get(t)
        if type(a) is Obj and name and a.cls.lookup(name):
            return self.call(a.cls.lookup(name), [a, b], {})
        rn = name and '__r' + name[2:]
        if type(b) is Obj and rn and b.cls.lookup(rn):
            return self.call(b.cls.lookup(rn), [b, a], {})
        if isinstance(a, HObj) or isinstance(b, HObj):
            for x in (a, b):
                if type(x) in (Sym, Term) and x.ty == 'any':
                    return Term(t.__name__, (a, b))
            if name and (host.has(a, name) or rn and host.has(b, rn)):
                raise Unsupported('%s of %r and %r' % (name, a, b))
            self.raise_('TypeError', 'unsupported operand types')
        ty = 'int' if a.ty == 'int' and b.ty == 'int' else 'any'
        return Term(t.__name__, (a, b), ty)

    @staticmethod
    def _constop(t, x, y):
        import operator as o
        return {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Mod: o.mod,
                ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Pow: o.pow,
                ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.BitXor: o.xor,
                ast.LShift: o.lshift, ast.RShift: o.rshift}[t](x, y)

    def percent(self, fmt, args):
        if type(fmt) is not Const:
            raise Unsupported('% with unknown format')
        f = fmt.v
        if type(args) is Tup:
            vals = list(args.items)
        else:
            vals = [args]
        out = []
        i = 0
        n = 0
        import re as _re
        for m in _re.finditer(r'%(\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])', f):
            out.append(Const(f[i:m.start()]))
            i = m.end()
            conv = m.group(4)
            if conv == '%':
                out.append(Const('%'))
                continue
            if m.group(2):
                if type(args) is not DictO:
                    raise Unsupported('%(name)')
                v = self.dict_get(args, Const(m.group(2)))
                if v is None:
                    self.raise_('KeyError', m.group(2))
            else:
                if n >= len(vals):
                    self.raise_('TypeError', 'not enough arguments for format string')
                v = vals[n]
                n += 1
            rv = self.resolve(v)
            if type(rv) is Const and not (conv == 's' and not m.group(3)):
                try:
                    out.append(Const(('%' + m.group(3) + conv) % (rv.v,)))
                except TypeError as e:
                    self.raise_('TypeError', str(e))
                continue
            if m.group(3):
                out.append(Term('fmt', (Const(m.group(3) + conv), v), 'str'))
            elif conv == 's':
                out.append(self.to_str(v))
            elif conv == 'r':
                out.append(self.repr_(v))
            elif conv in 'di':
                out.append(Term('str', (v,), 'str', nonempty=True))
            else:
                out.append(Term('fmt', (Const(conv), v), 'str'))
        out.append(Const(f[i:]))
        if n < len(vals) and type(args) is Tup:
            self.raise_('TypeError', 'not all arguments converted')
        return cat(*out)

    # ------------------------------------------------------------ dicts
    def dict_find(self, d, k):
        """existing key equal to k (may split), or None"""
        k = self.resolve(k)
        if k in d.d:
            return k
        if type(k) is Const:
            if isinstance(k.v, (int, float)) and not isinstance(k.v, str):
                for kk in d.d:
                    if type(kk) is Const and type(kk.v) is not str and kk.v == k.v:
                        return kk
            for kk in d.d:
                if type(kk) in (Sym, Term, Cat, Lin) and kk.ty in ('str', 'any', 'int'):
                    if self.decide_eq(kk, k):
                        return kk
            return None
        if type(k) is Obj and k.cls.lookup('__eq__') is not None and \
                k.cls.lookup('__eq__') is not self.types['object'].ns.get('__eq__'):
            for kk in d.d:
                if type(kk) is Obj and self.decide_eq(kk, k):
                    return kk
            return None
        if isinstance(k, HObj):
            return None
        consts = [kk for kk in d.d if type(kk) is Const]
        if type(k) in (Sym, Term):
            if consts and self.in_consts(k, consts):
                k2 = self.resolve(k)
                if type(k2) is Const:
                    return k2
                # split over the candidates
                dom = sorted(self.domain[k][1], key=repr)
                i = self.choose(len(dom), ('key', k))
                self.domain[k] = ('in', frozenset([dom[i]]))
                return dom[i]
            for kk in d.d:
                if type(kk) is not Const and self.decide_eq(kk, k):
                    return kk
            return None
        for kk in d.d:
            if self.decide_eq(kk, k):
                return kk
        return None

    def dict_get(self, d, k):
        kk = self.dict_find(d, k)
        if kk is not None:
            return d.d[kk]
        if d.rest is not None:
            k = self.resolve(k)
            if self.ask(('inrest', d.rest, k)):
                v = self.rest_value(d, k)
                return v
        return None

    def rest_value(self, d, k):
        mk = self.config.get('rest_value')
        if mk:
            v = mk(self, d, k)
            if v is not None:
                return v
        return Term('ctx', (Const(d.rest), k))

    def dict_has(self, d, k):
        if self.dict_find(d, k) is not None:
            return True
        if d.rest is not None:
            return self.ask(('inrest', d.rest, self.resolve(k)))
        return False

    def dict_set(self, d, k, v):
        k = self.resolve(k)
        kk = self.dict_find(d, k)
        self.touch(d, k)
        d.d[kk if kk is not None else k] = v

    def dict_del(self, d, k):
        kk = self.dict_find(d, k)
        if kk is None:
            if d.rest is not None and self.ask(('inrest', d.rest, self.resolve(k))):
                raise Unsupported('del from open dict')
            self.raise_('KeyError', k)
        self.touch(d, k)
        del d.d[kk]

    def dict_update(self, d, src):
        src = self.resolve(src)
        if type(src) is DictO:
            if src.rest is not None:
                self.touch(d, '<rest>')
                d.rest = src.rest if d.rest is None else d.rest
            for k, v in list(src.d.items()):
                self.dict_set(d, k, v)
            return
        if type(src) in (ListO, Tup, GenO):
            for p in self.iterate(src):
                k, v = self.to_items(p)
                self.dict_set(d, k, v)
            return
        if type(src) is Obj and src.cls.lookup('keys'):
            for k in self.iterate(self.call(self.getattr(src, 'keys'), [], {})):
                self.dict_set(d, k, self.getitem(src, k))
            return
        if self.is_none(src) or type(src) is Const:
            self.raise_('TypeError', 'object is not iterable')
        raise Unsupported('dict.update(%r)' % (src,))

    # ------------------------------------------------------------ iteration
    def to_items(self, v):
        return list(self.iterate(v))

    def iterate(self, v):
        """Host iterator over the elements of an abstract iterable."""
        v = self.resolve(v)
        t = type(v)
        if t is Tup:
            return iter(v.items)
        if t is ListO:
            self.expand_stars(v)
            return self._live(v)
        if t is GenO:
            return v.view() if v.view is not None else self._drain(v)
        if t is SetO:
            return iter(list(v.items))
        if t is DictO:
            if v.rest is not None:
                return self._iter_open(v)
            return iter(list(v.d))
        if t is Const:
            if isinstance(v.v, str):
                return iter([Const(c) for c in v.v])
            if isinstance(v.v, bytes):
                return iter([Const(c) for c in v.v])
            self.raise_('TypeError', "'%s' object is not iterable" % type(v.v).__name__)
        if t is Obj:
            m = v.cls.lookup('__iter__')
            if m is not None:
                r = self.call(self._bind(m, v), [], {})
                if r is v:
                    return self._next_iter(v)
                return self.iterate(r)
            if v.cls.lookup('__getitem__'):
                return self._by_index(v)
            self.raise_('TypeError', "'%s' object is not iterable" % v.cls.name)
        if t is ClassO and v.lookup('_iter_members_'):
            return self.iterate(self.call(self.getattr(v, '_iter_members_'), [], {}))
        if isinstance(v, HObj):
            if host.has(v, '__iter__'):
                raise Unsupported('iteration over %r' % (v,))
            self.raise_('TypeError', "object %r is not iterable" % (v,))
        if t in (Sym, Term):
            if self.is_none(v):
                self.raise_('TypeError', "'NoneType' object is not iterable")
            c = self.class_of(v)
            if c is not None and c.builtin is None:
                m = c.lookup('__iter__')
                if m is None:
                    self.raise_('TypeError', "'%s' object is not iterable" % c.name)
                r = self.call(self._bind(m, v), [], {})
                return self.iterate(r)
            if v.ty == 'int' or v.ty == 'bool':
                self.raise_('TypeError', "'int' object is not iterable")
            mk = v.props.get('elem')
            if v.ty == 'str':
                return self.star_elems(Star('chars:%r' % v, lambda ip, i: Term(
                    'idx', (v, Const(i)), 'str', nonempty=True)))
            return self.star_elems(Star('iter:%r' % (v,), mk or (
                lambda ip, i: Term('elem', (v, Const(i))))))
        raise Unsupported('iterate %r' % (v,))

    def _by_index(self, o):
        i = 0
        while True:
            try:
                v = self.getitem(o, Const(i))
            except PyExc as e:
                if isinstance(e.val, Obj) and e.val.cls.issub(self.exc_class('IndexError')):
                    return
                raise
            yield v
            i += 1

    def _live(self, lst):
        i = 0
        while i < len(lst.items):
            yield lst.items[i]
            i += 1

    def _iter_open(self, d):
        for k in list(d.d):
            yield k
        if self.config.get('iter_rest', True):
            st = Star('keys:%s' % d.rest, lambda ip, i: Sym(
                '%s.key%d' % (d.rest, i), 'str', generic=True, nonempty=True), cap=1)
            for k in self.star_elems(st):
                self.facts[('inrest', d.rest, k)] = True
                yield k

    def _drain(self, g):
        while True:
            try:
                yield self.gen_next(g)
            except StopIteration:
                return

    def gen_throw(self, g, exc):
        if g.done or not hasattr(g.gen, 'throw'):
            g.done = True
            raise exc
        return self.gen_next(g, None, exc)

    def gen_close(self, g):
        if g.done or not hasattr(g.gen, 'throw'):
            g.done = True
            return
        exc = self.exc_class('GeneratorExit')
        try:
            self.gen_throw(g, PyExc(self.call(exc, [], {}), self.loc()))
        except StopIteration:
            pass
        except PyExc as e:
            if not (isinstance(e.val, Obj) and e.val.cls.issub(exc)):
                raise
        else:
            self.raise_('RuntimeError', 'generator ignored GeneratorExit')

    def gen_next(self, g, sent=None, thrown=None):
        if g.done:
            raise StopIteration
        if g.running:
            self.raise_('ValueError', 'generator already executing')
        g.running = True
        depth = len(self.stack)
        try:
            if thrown is not None:
                return g.gen.throw(thrown)
            if sent is not None:
                return g.gen.send(sent)
            return next(g.gen)
        except StopIteration as e:
            g.done = True
            raise StopIteration(e.value)
        except PyExc:
            g.done = True
            del self.stack[depth:]
            raise
        finally:
            g.running = False

    def _next_iter(self, o):
        m = self.getattr(o, '__next__')
        while True:
            try:
                v = self.call(m, [], {})
            except PyExc as e:
                if isinstance(e.val, Obj) and e.val.cls.issub(self.exc_class('StopIteration')):
                    return
                raise
            yield v

    def get_iter(self, v):
        v = self.resolve(v)
        if type(v) is GenO:
            return v if v.view is None else GenO(v.view(), 'iter')
        if type(v) is Obj:
            m = v.cls.lookup('__iter__')
            if m is None:
                if v.cls.lookup('__getitem__'):
                    return GenO(self._by_index(v), 'iter')
                self.raise_('TypeError', "'%s' object is not iterable" % v.cls.name)
            return self.call(self._bind(m, v), [], {})
        return GenO(self.iterate(v), 'iter')

    def next_(self, it, default=None):
        it = self.resolve(it)
        if type(it) is GenO and it.view is None:
            try:
                return self.gen_next(it)
            except StopIteration as e:
                if default is not None:
                    return default
                self.models._stop(self, e)
        if type(it) is Obj and it.cls.lookup('__next__'):
            try:
                return self.call(self.getattr(it, '__next__'), [], {})
            except PyExc as e:
                if default is not None and isinstance(e.val, Obj) and \
                        e.val.cls.issub(self.exc_class('StopIteration')):
                    return default
                raise
        if type(it) in (Sym, Term) and self.class_of(it) is None and it.ty == 'any':
            # unknown iterator: position kept per path
            n = self.counters.get(('next', it), 0)
            ex = ('exhausted', it)
            if self.facts.get(ex) or n >= self.STAR_CAP or \
                    self.choose(2, ('next', it, n)) == 1:
                self.facts[ex] = True
                if default is not None:
                    return default
                self.raise_('StopIteration')
            self.counters[('next', it)] = n + 1
            mk = it.props.get('elem')
            return mk(self, n) if mk else Term('elem', (it, Const(n)))
        self.raise_('TypeError', "%r is not an iterator" % (it,))

    # ------------------------------------------------------------ items
    def norm_index(self, i, n):
        """position for index value i in a sequence of length value n"""
        i = self.resolve(i)
        if type(i) is Const:
            if i.v is None:
                return None
            if i.v < 0:
                return lin_add(n, i)
            return i
        if self.nonneg(i):
            return i
        neg = lin_scale(i, -1)
        c, d = lin_parts(neg)
        if self._nonneg(c - 1, dict(d), 6):
            return lin_add(n, i)
        s = self.cmp_int(i, Const(0))
        if s is not None:
            return lin_add(n, i) if s < 0 else i
        if self.nonneg(neg):
            # i <= 0, possibly 0
            if self.decide_eq(i, Const(0)):
                return Const(0)
            return lin_add(n, i)
        return i

    def getitem(self, o, k):
        o = self.resolve(o)
        t = type(o)
        if type(k) is SliceO:
            return self.getslice(o, *k.items)
        if isinstance(k, tuple):
            return self.getslice(o, k[1], k[2], k[3])
        k = self.resolve(k)
        if t is DictO:
            v = self.dict_get(o, k)
            if v is None:
                if o.factory is not None:
                    v = self.call(o.factory, [], {})
                    self.dict_set(o, k, v)
                    return v
                if o.cls is not None and o.cls.lookup('__missing__'):
                    return self.call(o.cls.lookup('__missing__'), [o, k], {})
                self.raise_('KeyError', k)
            return v
        if t is ListO or t is Tup:
            if t is ListO:
                self.expand_stars(o)
            if type(k) is Const and type(k.v) in (int, bool):
                if -len(o.items) <= k.v < len(o.items):
                    return o.items[k.v]
                self.raise_('IndexError', 'index out of range')
            if k.ty == 'int':
                raise Unsupported('symbolic index in list')
            self.raise_('TypeError', 'indices must be integers')
        if o.ty == 'str' or (t is Const and isinstance(o.v, (str, bytes))):
            if t is Const and type(k) is Const:
                try:
                    return Const(o.v[k.v])
                except IndexError:
                    self.raise_('IndexError', 'string index out of range')
            return self.str_index(o, k)
        if t is Obj:
            m = o.cls.lookup('__getitem__')
            if m is None and o.cls is self.types.get('match'):
                return self.call(self.getattr(o, 'group'), [k], {})
            if m is None:
                self.raise_('TypeError', "'%s' object is not subscriptable" % o.cls.name)
            return self.call(self._bind(m, o), [k], {})
        if t is ClassO:
            m = o.lookup('__class_getitem__')
            if m is not None:
                return self.call(m.fget if type(m) is DescO else m, [o, k], {})
            if o.builtin:
                return o
        if isinstance(o, HObj):
            if host.has(o, '__getitem__') or host.has(o, '__class_getitem__'):
                raise Unsupported('item of %r' % (o,))
            self.raise_('TypeError', 'not subscriptable: %r' % (o,))
        if t is Const:
            self.raise_('TypeError', "'%s' object is not subscriptable" % type(o.v).__name__)
        if self.is_none(o):
            self.raise_('TypeError', "'NoneType' object is not subscriptable")
        return Term('getitem', (o, k))

    def str_index(self, s, k):
        n = str_len(s)
        p = self.norm_index(k, n)
        if type(s) is Cat:
            parts = s.parts
            if p == Const(0):
                if type(parts[0]) is Const:
                    return Const(parts[0].v[0])
                if parts[0].props.get('nonempty'):
                    return self.str_index(parts[0], Const(0))
            if lin_add(p, n, -1) == Const(-1):
                if type(parts[-1]) is Const:
                    return Const(parts[-1].v[-1])
                return self.str_index(parts[-1], Const(-1))
            r = mk_slice(s, p, lin_add(p, Const(1)))
            if type(r) is Const:
                return r
        # out of range?
        d = lin_add(n, p, -1)     # n - p must be > 0
        c = self.cmp_int(d, Const(0))
        if type(s) in (Sym, Term) and s.props.get('nonempty') and \
                (p == Const(0) or lin_add(p, n, -1) == Const(-1)):
            c = 1
        if c is None:
            key = ('inrange', s, p)
            if p == Const(0) or lin_add(p, n, -1) == Const(-1):
                ok = self.truth(s)
            else:
                ok = self.ask(key)
            c = 1 if ok else 0
        if c <= 0:
            self.raise_('IndexError', 'string index out of range')
        return Term('idx', (s, p), 'str', nonempty=True)

    def getslice(self, o, a, b, step):
        t = type(o)
        if t is ListO or t is Tup:
            if t is ListO:
                self.expand_stars(o)
            vals = [self.resolve(x) for x in (a, b, step)]
            if all(type(x) is Const for x in vals):
                r = o.items[slice(vals[0].v, vals[1].v, vals[2].v)]
                return Tup(r) if t is Tup else ListO(r)
            raise Unsupported('symbolic list slice')
        if t is Const and isinstance(o.v, (str, bytes)):
            vals = [self.resolve(x) for x in (a, b, step)]
            if all(type(x) is Const for x in vals):
                return Const(o.v[slice(vals[0].v, vals[1].v, vals[2].v)])
        if o.ty == 'str':
            if step is not NONE and step != Const(1) and step != NONE:
                raise Unsupported('str slice step')
            n = str_len(o)
            pa = self.norm_index(a, n)
            pb = self.norm_index(b, n)
            pa = Const(0) if pa is None else pa
            pb = n if pb is None else pb
            # clamp when provable
            if pa == pb:
                return EMPTY
            return mk_slice(o, pa, pb)
        if t is Obj and o.cls.lookup('__getitem__'):
            return self.call(self._bind(o.cls.lookup('__getitem__'), o), [Tup([a, b, step])], {}) \
                if o.cls.lookup('_slices_') else self._no_slice()
        if isinstance(o, HObj):
            if host.has(o, '__getitem__'):
                raise Unsupported('slice of %r' % (o,))
            self.raise_('TypeError', 'not sliceable')
        return Term('slice', (o, a, b))

    def _no_slice(self):
        raise Unsupported('slice of object')

    def setitem(self, o, k, v):
        o = self.resolve(o)
        if type(o) is DictO:
            if o.cls is not None and o.cls.lookup('__setitem__'):
                self.call(o.cls.lookup('__setitem__'), [o, k, v], {})
                return
            self.dict_set(o, k, v)
            return
        if type(o) is ListO:
            self.expand_stars(o)
            if isinstance(k, tuple):
                vals = [self.resolve(x) for x in k[1:]]
                if not all(type(x) is Const for x in vals):
                    raise Unsupported('symbolic slice store')
                self.touch(o, 'slice=')
                o.items[slice(*[x.v for x in vals])] = self.to_items(v)
                return
            k = self.resolve(k)
            if type(k) is not Const:
                raise Unsupported('symbolic index store')
            self.touch(o, k)
            try:
                o.items[k.v] = v
            except IndexError:
                self.raise_('IndexError', 'assignment index out of range')
            return
        if type(o) is Obj and o.cls.lookup('__setitem__'):
            self.call(self._bind(o.cls.lookup('__setitem__'), o), [k, v], {})
            return
        if type(o) in (Sym, Term):
            self.event('setitem', o, k, v)
            return
        if host.has(o, '__setitem__'):
            raise Unsupported('item assignment to %r' % (o,))
        self.raise_('TypeError', 'object does not support item assignment')

    def delitem(self, o, k):
        o = self.resolve(o)
        if type(o) is DictO:
            self.dict_del(o, k)
        elif type(o) is ListO:
            self.expand_stars(o)
            self.touch(o, 'del')
            if isinstance(k, tuple):
                vals = [self.resolve(x) for x in k[1:]]
                del o.items[slice(*[x.v for x in vals])]
            else:
                k = self.resolve(k)
                try:
                    del o.items[k.v]
                except IndexError:
                    self.raise_('IndexError', 'del index')
        elif type(o) is Obj and o.cls.lookup('__delitem__'):
            self.call(self._bind(o.cls.lookup('__delitem__'), o), [k], {})
        else:
            raise Unsupported('delitem')

    # ------------------------------------------------------------ attributes
    def _bind(self, m, inst, cls=None):
        if type(m) is FuncO:
            return BoundO(m, inst)
        if type(m) is Native:
            return BoundO(m, inst)
        if type(m) is DescO:
            if m.kind == 'property':
                return self.call(m.fget, [inst], {})
            if m.kind == 'classmethod':
                return BoundO(m.fget, cls or self.class_of(inst))
            if m.kind == 'staticmethod':
                return m.fget
        if type(m) is Obj and m.cls.lookup('__get__'):
            return self.call(m.cls.lookup('__get__'),
                             [m, inst, cls or self.class_of(inst)], {})
        return m

    def getattr(self, o, name, default=None):
        v = self.getattr_opt(o, name)
        if v is None:
            if default is not None:
                return default
            o = self.resolve(o)
            self.event('missing-attr', o, name)
            self.raise_('AttributeError', "%s object has no attribute '%s'"
                        % (self.describe(o), name))
        return v

    def describe(self, o):
        c = self.class_of(o)
        if type(o) is ClassO:
            return 'type %s' % o.name
        if type(o) is ModO:
            return 'module %s' % o.name
        return "'%s'" % (c.name if c is not None else o)

    def getattr_opt(self, o, name):
        v = self._getattr_opt(o, name)
        if v is None:
            o = self.resolve(o)
            if host.has(o, name):
                v = self.object_attr(o, name)
                if v is None:
                    raise Unsupported('attribute %s of %s has no model' % (
                        name, self.describe(o)))
        return v

    def object_attr(self, o, name):
        """what every object has"""
        if name == '__hash__':
            if isinstance(o, (ListO, DictO, SetO)):
                return NONE
            return Native('__hash__', lambda ip, a, k: Term('hash', (o,), 'int'))
        if name == '__str__':
            return Native('__str__', lambda ip, a, k: ip.to_str(o))
        if name == '__repr__':
            return Native('__repr__', lambda ip, a, k: ip.repr_(o))
        if name == '__class__':
            return self.class_of(o)
        return None

    def _getattr_opt(self, o, name):
        """attribute value or None when (definitely) missing; splits for
        unknown objects."""
        o = self.resolve(o)
        t = type(o)
        if t is Obj:
            cv = o.cls.lookup(name)
            if type(cv) is DescO and cv.kind == 'property' or \
                    type(cv) is Obj and cv.cls.lookup('__set__') and cv.cls.lookup('__get__'):
                return self._bind(cv, o)
            if name in o.attrs:
                return o.attrs[name]
            if cv is not None:
                return self._bind(cv, o, o.cls)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                d = DictO()
                d.d = AttrDict(o)
                return d
            g = o.cls.lookup('__getattr__')
            if g is not None:
                try:
                    return self.call(g, [o, Const(name)], {})
                except PyExc as e:
                    if isinstance(e.val, Obj) and e.val.cls.issub(
                            self.exc_class('AttributeError')):
                        return None
                    raise
            mk = o.data.get('lazy') if isinstance(o.data, dict) else None
            if mk:
                v = mk(self, o, name)
                if v is not None:
                    o.attrs[name] = v
                return v
            return self.models.obj_attr(self, o, name)
        if t is ClassO:
            v = o.lookup(name)
            if v is not None:
                if type(v) is DescO:
                    if v.kind == 'property':
                        return v
                    if v.kind == 'classmethod':
                        return BoundO(v.fget, o)
                    return v.fget
                if type(v) is Obj and v.cls.lookup('__get__'):
                    return self.call(v.cls.lookup('__get__'), [v, NONE, o], {})
                return v
            if name == '__name__' or name == '__qualname__':
                return Const(o.name)
            if name == '__mro__':
                return Tup(o.mro)
            if name == '__bases__':
                return Tup(o.bases)
            if name == '__dict__':
                return DictO({Const(k): v for k, v in o.ns.items()})
            if name == '__module__':
                return Const(o.module or '')
            if name == '__class__':
                return self.types['type']
            return self.models.class_attr(self, o, name)
        if t is ModO:
            v = o.ns.d.get(Const(name))
            if v is not None:
                return v
            sub = o.name + '.' + name
            if sub in self.modules:
                return self.modules[sub]
            if name == '__dict__':
                return o.ns
            if name == '__name__':
                return Const(o.name)
            if o.opaque:
                return self.opaque_attr(o, name)
            return self.models.pure(self, o.name, name)
        if t is FuncO:
            return self.func_attr(o, name)
        if t is BoundO:
            if name == '__func__':
                return o.func
            if name == '__self__':
                return o.self_
            return self.getattr_opt(o.func, name)
        if t is SuperO:
            c = self.class_of(o.obj) if type(o.obj) is not ClassO else o.obj
            mro = c.mro
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.ns:
                    return self._bind(k.ns[name], o.obj, c)
            return self.models.super_attr(self, o, name)
        if t is CodeO:
            return o.attrs.get(name)
        if t is DictO and o.cls is not None:
            if name in o.attrs:
                return o.attrs[name]
            cv = o.cls.lookup(name)
            if cv is not None and not (type(cv) is Native):
                return self._bind(cv, o, o.cls)
        if t is Native and name in ('__name__', '__doc__', '__module__'):
            return Const(o.name)
        if t is DescO:
            if name == 'setter' and o.kind == 'property':
                def setter(ip, args, kw):
                    return DescO('property', o.fget, args[0])
                return Native('property.setter', setter)
            if name == '__func__':
                return o.fget
            return None
        m = self.models.method(self, o, name)
        if m is not None:
            return m
        if t in (Sym, Term):
            if self.is_none(o):
                return None
            c = self.class_of(o)
            if c is not None and c.builtin is None:
                cv = c.lookup(name)
                if cv is not None:
                    return self._bind(cv, o, c)
                key = ('hasattr', o, name)
                if self.facts.get(key) is False:
                    return None
                return Term('attr', (o, name))
            if c is not None and c.builtin:
                return None
            key = ('hasattr', o, name)
            if key in self.facts:
                if not self.facts[key]:
                    return None
                return Term('attr', (o, name))
            if name == '__class__':
                return Term('type', (o,))
            self.facts[('attrread', o, name)] = True
            return Term('attr', (o, name))
        return None

    def hasattr_(self, o, name):
        o = self.resolve(o)
        if type(o) in (Sym, Term) and self.models.method(self, o, name) is None:
            if o.ty != 'any':
                if host.has(o, name):
                    if self.object_attr(o, name) is None:
                        raise Unsupported('attribute %s of %s has no model' % (name, o.ty))
                    return True
                return False
            if self.is_none(o):
                return False
            c = self.class_of(o)
            if c is not None:
                if c.builtin:
                    return self.models.type_has(self, c, name)
                if c.lookup(name) is not None:
                    return True
                return False if c.builtin is None and not o.props.get('open') else \
                    self.ask(('hasattr', o, name))
            return self.ask(('hasattr', o, name))
        try:
            return self.getattr_opt(o, name) is not None
        except PyExc as e:
            if isinstance(e.val, Obj) and e.val.cls.issub(self.exc_class('AttributeError')):
                return False
            raise

    def func_attr(self, f, name):
        if name == '__code__':
            if f.code is None:
                f.code = self.models.code_of(self, f)
            return f.code
        if name in f.attrs:
            return f.attrs[name]
        if name in ('__name__', '__qualname__'):
            return Const(f.name)
        if name == '__defaults__':
            return Tup(f.defaults) if f.defaults else NONE
        if name == '__kwdefaults__':
            return DictO({Const(k): v for k, v in f.kwdefaults.items()}) \
                if f.kwdefaults else NONE
        if name == '__closure__':
            return Term('closure', (f,)) if f.closure is not None else NONE
        if name == '__globals__':
            return f.glob
        if name == '__doc__':
            d = ast.get_docstring(f.node, clean=False) \
                if isinstance(f.node, ast.FunctionDef) else None
            return NONE if d is None else Const(d)
        if name == '__module__':
            return Const(f.module)
        if name == '__dict__':
            return DictO({Const(k): v for k, v in f.attrs.items()})
        if name == '__get__':
            return Native('__get__', lambda ip, a, k: BoundO(f, a[0]))
        return None

    def setattr(self, o, name, v):
        o = self.resolve(o)
        t = type(o)
        if t is Obj:
            cv = o.cls.lookup(name)
            if type(cv) is DescO and cv.kind == 'property':
                if cv.fset is None:
                    self.raise_('AttributeError', "can't set attribute '%s'" % name)
                self.call(cv.fset, [o, v], {})
                return
            if type(cv) is Obj and cv.cls.lookup('__set__'):
                self.call(cv.cls.lookup('__set__'), [cv, o, v], {})
                return
            sa = o.cls.lookup('__setattr__')
            if sa is not None and type(sa) is FuncO:
                self.call(sa, [o, Const(name), v], {})
                return
            if not all('__slots__' in c.ns for c in o.cls.mro if c.builtin != 'object'):
                pass
            elif name not in self.slot_names(o.cls):
                self.raise_('AttributeError', "'%s' object has no attribute '%s'"
                            % (o.cls.name, name))
            self.touch(o, name)
            o.attrs[name] = v
            return
        if t is ClassO:
            self.touch(o, name)
            o.ns[name] = v
            return
        if t is FuncO:
            self.touch(o, name)
            if name == '__code__':
                o.code = v
            elif name == '__name__':
                o.name = v.v if type(v) is Const else o.name
            elif name == '__defaults__':
                o.defaults = list(v.items) if type(v) is Tup else []
            elif name == '__kwdefaults__':
                o.kwdefaults = {k.v: x for k, x in v.d.items()} if type(v) is DictO else {}
            else:
                o.attrs[name] = v
            return
        if t is ModO:
            self.touch(o.ns, name)
            o.ns.d[Const(name)] = v
            return
        if t is DictO and o.cls is not None:
            self.touch(o, name)
            o.attrs[name] = v
            return
        if t in (Sym, Term):
            if self.is_none(o):
                self.raise_('AttributeError', "'NoneType' object has no attribute %r" % name)
            self.event('setattr', o, name, v)
            self.facts[('attrval', o, name)] = v
            return
        if t is CodeO:
            raise Unsupported('code attr store')
        self.raise_('AttributeError', "cannot set attribute '%s' on %r" % (name, o))

    def slot_names(self, cls):
        names = set()
        for c in cls.mro:
            v = c.ns.get('__slots__')
            if v is not None:
                names.update([v.v] if type(v) is Const else
                             [x.v for x in self.iterate(v) if type(x) is Const])
                if any(n.startswith('__') and not n.endswith('__') for n in names):
                    names.update('_%s%s' % (c.name.lstrip('_'), n) for n in list(names))
        return names | {'__dict__'} if '__dict__' not in names else _Everything()

    def delattr(self, o, name):
        o = self.resolve(o)
        if type(o) is Obj:
            if name not in o.attrs:
                self.raise_('AttributeError', name)
            self.touch(o, name)
            del o.attrs[name]
        elif type(o) is ClassO and name in o.ns:
            self.touch(o, name)
            del o.ns[name]
        else:
            self.raise_('AttributeError', name)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.resolve(f)
        t = type(f)
        if t is FuncO:
            return self.call_func(f, args, kw)
        if t is BoundO:
            return self.call(f.func, [f.self_] + list(args), kw)
        if t is Native:
            return f.fn(self, list(args), kw)
        if t is ClassO:
            return self.instantiate(f, args, kw)
        if t is PartialO:
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.func, list(f.args) + list(args), k)
        if t is Obj:
            m = f.cls.lookup('__call__')
            if m is not None:
                return self.call(self._bind(m, f), args, kw)
            self.raise_('TypeError', "'%s' object is not callable" % f.cls.name)
        if t is DescO and f.kind in ('classmethod', 'staticmethod'):
            return self.call(f.fget, args, kw)
        if t is DictO and f.cls is not None and f.cls.lookup('__call__'):
            return self.call(f.cls.lookup('__call__'), [f] + list(args), kw)
        if isinstance(f, HObj) or t in (Const, Cat, Tup, Lin):
            self.raise_('TypeError', 'object %r is not callable' % (f,))
        # unknown callable
        if self.is_none(f):
            self.raise_('TypeError', "'NoneType' object is not callable")
        self.event('call', f, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])))
        h = self.config.get('on_call')
        if h:
            r = h(self, f, args, kw)
            if r is not None:
                return r
        if type(f) is Sym and f.name.startswith('ext:') and len(args) == 1 and not kw \
                and type(args[0]) in (FuncO, ClassO):
            return args[0]         # unknown external decorator: identity
        key = tuple(args) + tuple((k, v) for k, v in sorted(kw.items()))
        rty = f.props.get('returns', 'any') if type(f) is Sym else 'any'
        return Term('call', (f,) + key, rty)

    def call_func(self, f, args, kw):
        node = f.node
        code = f.code
        if code is not None and code.func is not f:
            node = code.func.node
        si = scope_info(node)
        hook = self.config.get('summaries')
        if hook:
            h = hook.get(f.qual)
            if h is not None:
                return h(self, f, args, kw)
        self.analysed[f.qual] = f.module
        self.entered.add(f.qual)
        fr = Frame(f.qual, f.glob, f.module, parent=f.closure,
                   localnames=si.localnames)
        fr.globalnames = si.globalnames
        fr.nonlocalnames = si.nonlocalnames
        fr.func = f
        fr.cls = f.defcls
        fr.node = node
        self.bind_args(f, node, fr, args, kw)
        if isinstance(node, ast.Lambda):
            self.stack.append(fr)
            if len(self.stack) > self.MAX_DEPTH:
                raise Unsupported('call depth')
            try:
                return self.eval(node.body, fr)
            finally:
                self.stack.pop()
        if si.isgen:
            return GenO(self.gen_frame(fr, node.body), f.qual)
        return self.run_frame(fr, node.body)

    def bind_args(self, f, node, fr, args, kw):
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        L = fr.locals
        kw = dict(kw)
        n = len(params)
        for p, v in zip(params, args):
            L[p] = v
        if len(args) > n:
            if not a.vararg:
                self.raise_('TypeError', '%s() takes %d positional arguments but %d '
                            'were given' % (f.name, n, len(args)))
        if a.vararg:
            L[a.vararg.arg] = Tup(args[n:])
        defaults = f.defaults
        for i, p in enumerate(params):
            if p in kw and i >= len(a.posonlyargs):
                if p in L and i < len(args):
                    self.raise_('TypeError', "%s() got multiple values for argument '%s'"
                                % (f.name, p))
                L[p] = kw.pop(p)
            elif p not in L:
                j = i - (n - len(defaults))
                if j >= 0:
                    L[p] = defaults[j]
                else:
                    self.raise_('TypeError', "%s() missing required argument '%s'"
                                % (f.name, p))
        for p in kwonly:
            if p in kw:
                L[p] = kw.pop(p)
            elif p in f.kwdefaults:
                L[p] = f.kwdefaults[p]
            else:
                self.raise_('TypeError', "%s() missing keyword argument '%s'" % (f.name, p))
        if a.kwarg:
            L[a.kwarg.arg] = DictO({Const(k): v for k, v in kw.items()})
        elif kw:
            self.raise_('TypeError', "%s() got an unexpected keyword argument '%s'"
                        % (f.name, sorted(kw)[0]))

    def instantiate(self, cls, args, kw):
        if cls.builtin and cls.builtin != 'object':
            return self.models.construct(self, cls, args, kw)
        bt = None
        for c in cls.mro:
            if c.builtin and c.builtin not in ('object',):
                bt = c.builtin
                break
        new = cls.lookup('__new__')
        if new is not None and type(new) is not Native:
            o = self.call(new.fget if type(new) is DescO else new, [cls] + list(args), kw)
            if not (type(o) is Obj and o.cls.issub(cls)):
                return o
        elif bt in ('dict', 'defaultdict'):
            o = DictO(cls=cls)
        elif bt in ('list',):
            raise Unsupported('list subclass')
        elif bt in ('str', 'int', 'tuple', 'set', 'frozenset'):
            raise Unsupported('%s subclass' % bt)
        else:
            o = Obj(cls)
        init = cls.lookup('__init__')
        if init is not None:
            self.call(self._bind(init, o), args, kw)
        elif bt in ('dict', 'defaultdict'):
            if args:
                self.dict_update(o, args[0])
            for k, v in kw.items():
                self.dict_set(o, Const(k), v)
        elif args or kw:
            self.raise_('TypeError', '%s() takes no arguments' % cls.name)
        return o
