"""Scenario layer: abstract template documents and helpers shared by rules."""
import os
from .interp import (Interp, PyExc, Unsupported, Infeasible)
from .values import *
from . import values as _v

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')


# ------------------------------------------------------------ abstract docs
def S(x):
    return Const(x) if isinstance(x, (str, int, bool, bytes)) or x is None else x


class El:
    def __init__(self, tag, attrs=(), *kids):
        self.tag = S(tag)
        if isinstance(attrs, dict):
            attrs = attrs.items()
        self.attrs = [(S(k), S(v)) for k, v in attrs]
        self.kids = kids


class Tx:
    """character data; may be delivered in several chunks"""
    def __init__(self, *chunks):
        self.chunks = [S(c) for c in chunks]


class Cm:
    def __init__(self, data):
        self.data = S(data)


class PI:
    def __init__(self, target, data):
        self.target, self.data = S(target), S(data)


class CD:
    """CDATA section"""
    def __init__(self, *chunks):
        self.chunks = [S(c) for c in chunks]


class Ent:
    """skipped (HTML) entity"""
    def __init__(self, name):
        self.name = S(name)


class Ln:
    """set the line number reported for what follows"""
    def __init__(self, n):
        self.n = S(n)


class SaxError:
    def __init__(self, msg='<msg>'):
        self.msg = msg


def code(name, value=None, **props):
    return Sym(name, 'str', code=True, nonempty=True, generic=True, value=value,
               trimmed=True, nonblank=True, oneline=True, **props)


def txt(name, **props):
    return Sym(name, 'str', **props)


def val(name, **props):
    return Sym(name, 'any', **props)


class Lab:
    """An interpreter with all of kajiki loaded, ready for scenarios."""

    def __init__(self, root='/repo', modules=('kajiki', 'kajiki.i18n')):
        self.ip = Interp(root, STUBS)
        self.hooks = {}
        self.default_hooks()
        self.ip.config['hooks'] = self.hooks
        for m in modules:
            try:
                self.ip.load_module(m)
            except PyExc as e:
                raise AnalysisError('module %s raises on import: %s' % (
                    m, describe(self.ip, e.val)))
        self.ip.seal()
        self.base_config = dict(self.ip.config)
        self.base_config['hooks'] = self.hooks
        self.stats = dict(partitions=0, ok=0, exc=0, undecided=0)

    # hooks ----------------------------------------------------------------
    def default_hooks(self):
        H = self.hooks
        self.docs = {}
        self.lineno = Const(1)

        def parse(ip, reader, handler, lex, source):
            if self.doc is not None:
                self.drive(ip, reader, handler, lex, self.doc)
            else:
                self.replay(ip, reader, handler, lex, source)
        self.doc = None

        H['sax.parse'] = parse
        H['sax.lineno'] = lambda ip, r: self.cur_line
        H['sax.colno'] = lambda ip, r: self.cur_col
        self.cur_col = Const(0)
        self.cur_line = Const(1)

        self.files = {}
        self.mtimes = {}

        def exists(ip, p):
            if type(p) is Const and self.files:
                return Const(p.v in self.files)
            return Const(ip.ask(('exists', p, self.epoch)))
        self.epoch = 0
        H['os.exists'] = exists
        H['os.join'] = lambda ip, a, *r: (
            Const(os.path.join(a.v, *[x.v for x in r]))
            if type(a) is Const and all(type(x) is Const for x in r)
            else Term('path.join', (a,) + r, 'str', nonempty=True))

        def mtime(ip, f):
            if type(f) is Const and self.files:
                if f.v not in self.files:
                    ip.raise_('FileNotFoundError', 'No such file or directory: %r' % f.v)
                return S(self.mtimes.get(f.v, 5))
            return Sym(ip.fresh('mtime'), 'int', lo=1, of=f)
        H['os.mtime'] = mtime

        def may_fail(ip, f):
            if type(f) is Const and self.files and f.v not in self.files:
                ip.raise_('FileNotFoundError', 'No such file or directory: %r' % f.v)
            return NONE
        H['file.may_fail'] = may_fail

        def pathfn(fn, op):
            def f(ip, p):
                if type(p) is Const:
                    r = fn(p.v)
                    return Tup([Const(x) for x in r]) if isinstance(r, tuple) else Const(r)
                if op == 'splitext':
                    return Tup([Term('path.root', (p,), 'str'), Term('path.ext', (p,), 'str')])
                return Term('path.' + op, (p,), 'str')
            return f
        H['os.splitext'] = pathfn(os.path.splitext, 'splitext')
        H['os.basename'] = pathfn(os.path.basename, 'basename')
        H['os.dirname'] = pathfn(os.path.dirname, 'dirname')
        H['os.abspath'] = pathfn(lambda p: os.path.normpath(os.path.join('/cwd', p)), 'abspath')
        H['os.normpath'] = pathfn(os.path.normpath, 'normpath')
        H['os.isabs'] = lambda ip, p: (Const(os.path.isabs(p.v)) if type(p) is Const
                                       else Const(ip.ask(('isabs', p))))
        H['file.read'] = lambda ip, f: self.file_content(ip, f)

        def shlex_split(ip, s, *a):
            if type(s) is not Const:
                raise Unsupported('shlex.split of unknown text')
            import shlex
            try:
                return ListO([Const(x) for x in shlex.split(s.v)])
            except ValueError as e:
                ip.raise_('ValueError', str(e))
        H['shlex.split'] = shlex_split

        # thread locals: one dictionary per object and thread
        def slots(ip, o):
            if o.oid <= ip.base_n and o not in ip.journal:
                ip.journal[o] = o.snapshot()
            d = o.data or {}
            k = 'thread-%s' % ip.config.get('thread', 1)
            if k not in d:
                d = dict(d)
                d[k] = DictO({})
                o.data = d
            return d[k]

        def local_get(ip, o, name):
            return slots(ip, o).d.get(name, NONE)

        def local_set(ip, o, name, v):
            d = slots(ip, o)
            ip.touch(d, name.v)
            d.d[name] = v
        H['local.get'], H['local.set'] = local_get, local_set
        H['thread'] = lambda ip: Const(ip.config.get('thread', 1))

        def randint(ip, a, b):
            # one representative per draw; the case of repeated draws is the
            # subject of C26, which replaces this hook
            ip.counters['randint'] = n = ip.counters.get('randint', 0) + 1
            return Const(n + 1000)
        H['randint'] = randint

    def file_content(self, ip, f):
        n = f.attrs['name']
        if type(n) is Const and self.files:
            if n.v not in self.files:
                raise Unsupported('read of a file that does not exist')
            data = self.files[n.v]
            mode, enc = f.attrs['mode'], f.attrs['encoding']
            binary = type(mode) is Const and 'b' in mode.v
            if isinstance(data, str) and binary:
                data = data.encode('utf-8')
            if isinstance(data, bytes):
                if binary:
                    return Const(data)
                if type(enc) is not Const:
                    raise Unsupported('file read with an unknown encoding')
                if enc.v is None:
                    # the locale decides: nothing like the text of the file
                    return Const(data.decode('ascii', 'surrogateescape'))
                try:
                    return Const(data.decode(enc.v))
                except UnicodeDecodeError as e:
                    ip.raise_('UnicodeDecodeError', str(e))
                except LookupError as e:
                    ip.raise_('LookupError', str(e))
            return S(data)
        return Sym('content(%r)' % (n,), 'str')

    def replay(self, ip, reader, handler, lex, source):
        """the events expat delivers for the concrete bytes it is given"""
        bf = source.attrs.get('_bytefile', NONE)
        cf = source.attrs.get('_charfile', NONE)
        if bf != NONE:
            data = bf.attrs['_data']
        elif cf != NONE:
            data = cf.attrs['_data']
        else:
            raise Unsupported('XML source without a stream')
        if type(data) is not Const:
            raise Unsupported('XML source with unknown parts')
        data = data.v
        if isinstance(data, str):
            enc, data = 'utf-8', data.encode('utf-8', 'surrogatepass')
        else:
            e = source.attrs.get('_encoding', NONE)
            enc = e.v if type(e) is Const else None
        feats = {}
        fd = reader.attrs['_features']
        for k, v in fd.d.items():
            feats[k.v] = bool(v.v) if type(v) is Const else None
        call = lambda o, n, *a: ip.call(ip.getattr(o, n), list(a), {})
        AI = ip.load_module('xml.sax.xmlreader').ns.d[Const('AttributesImpl')]
        has_lex = lex is not None and lex != NONE
        for ev in expat_events(data, enc, feats):
            kind, line, col = ev[:3]
            self.cur_line, self.cur_col = Const(line), Const(col)
            a = [Const(x) if isinstance(x, str) or x is None else x for x in ev[3:]]
            if kind == 'error':
                m = ip.load_module('xml.sax._exceptions').ns.d[Const('SAXParseException')]
                raise PyExc(ip.instantiate(m, [a[0], NONE, reader], {}), ip.where())
            if kind == 'startElement':
                d = DictO({Const(k): Const(v) for k, v in a[1]})
                a = [a[0], ip.instantiate(AI, [d], {})]
            if kind in ('comment', 'startCDATA', 'endCDATA', 'startDTD', 'endDTD'):
                if has_lex:
                    call(lex, kind, *a)
            else:
                call(handler, kind, *a)

    def drive(self, ip, reader, handler, lex, nodes):
        call = lambda o, n, *a: ip.call(ip.getattr(o, n), list(a), {})
        AI = ip.load_module('xml.sax.xmlreader').ns.d[Const('AttributesImpl')]
        has_lex = lex is not None and lex != NONE

        def walk(n):
            if isinstance(n, El):
                d = DictO({k: v for k, v in n.attrs})
                call(handler, 'startElement', n.tag, ip.instantiate(AI, [d], {}))
                for c in n.kids:
                    walk(c)
                call(handler, 'endElement', n.tag)
            elif isinstance(n, Tx):
                for c in n.chunks:
                    call(handler, 'characters', c)
            elif isinstance(n, Cm):
                if has_lex:
                    call(lex, 'comment', n.data)
            elif isinstance(n, PI):
                call(handler, 'processingInstruction', n.target, n.data)
            elif isinstance(n, CD):
                if has_lex:
                    call(lex, 'startCDATA')
                for c in n.chunks:
                    call(handler, 'characters', c)
                if has_lex:
                    call(lex, 'endCDATA')
            elif isinstance(n, Ent):
                call(handler, 'skippedEntity', n.name)
            elif isinstance(n, Ln):
                self.cur_line = n.n
            elif isinstance(n, SaxError):
                m = ip.load_module('xml.sax._exceptions').ns.d[Const('SAXParseException')]
                raise PyExc(ip.instantiate(m, [Const(n.msg), NONE, reader], {}), ip.where())
            elif callable(n):
                walk(n(ip))
            else:
                raise TypeError(n)
        call(handler, 'startDocument')
        if has_lex:
            call(lex, 'startDTD', Const('kajiki'), NONE, Const('kajiki.dtd'))
            call(lex, 'endDTD')
        for n in nodes:
            walk(n)
        call(handler, 'endDocument')

    # running ----------------------------------------------------------------
    def mod(self, name):
        return self.ip.load_module(name)

    def get(self, dotted):
        """value of a dotted public name, e.g. kajiki.XMLTemplate"""
        ip = self.ip
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            nm = '.'.join(parts[:i])
            if nm in ip.modules or ip.module_file(nm):
                v = ip.load_module(nm)
                for p in parts[i:]:
                    v = ip.getattr(v, p)
                return v
        raise AnalysisError('anchor %s not found' % dotted)

    def call(self, f, *a, **k):
        return self.ip.call(f, [S(x) for x in a], {n: S(x) for n, x in k.items()})

    def m(self, o, name, *a, **k):
        return self.call(self.ip.getattr(o, name), *a, **k)

    def explore(self, fn, max_paths=4000, **config):
        """yields Result for each partition of fn(self)"""
        ip = self.ip

        def run():
            ip.config.clear()
            ip.config.update(self.base_config)
            ip.config.update(config)
            ip.config.pop('holes', None)
            ip.config.pop('_gen_src', None)
            self.cur_line = Const(1)
            self.cur_col = Const(0)
            self.doc = None
            self.files = {}
            self.mtimes = {}
            self.epoch = 0
            return fn()
        for out, v in ip.explore(run, max_paths):
            self.stats['partitions'] += 1
            self.stats[out] += 1
            yield Result(self, out, v)

    variant = None      # options every template of the case is compiled with in addition

    def options(self, kw, loader=False):
        for k, v in (self.variant or {}).items():
            if not loader or k in ('is_fragment', 'base_globals'):
                kw.setdefault(k, v() if callable(v) else v)
        return kw

    def template(self, *doc, **kw):
        """compile an abstract document with the public XMLTemplate"""
        self.doc = doc
        self.options(kw)
        src = kw.pop('source', Const('<!-- abstract document -->'))
        return self.call(self.get('kajiki.XMLTemplate'), src, **kw)

    def compile(self, source, **kw):
        """compile a concrete source with the public XMLTemplate"""
        self.doc = None
        return self.call(self.get('kajiki.XMLTemplate'), S(source), **self.options(kw))

    def render(self, tpl, ctx=None):
        inst = self.call(tpl, ctx if ctx is not None else DictO())
        return self.m(inst, 'render')

    def chunks(self, tpl, ctx=None):
        inst = self.call(tpl, ctx if ctx is not None else DictO())
        return list(self.ip.iterate(inst))


_EXPAT = {}


def expat_events(data, enc, feats):
    """SAX events of a concrete document, from the XML parser of the standard
    library (the template text is data of the analysis, no repo code runs)"""
    key = (data, enc, tuple(sorted(feats.items())))
    if key in _EXPAT:
        return _EXPAT[key]
    import io
    import xml.sax
    from xml.sax import handler as h
    from xml.sax.handler import ContentHandler
    ev = []
    rd = xml.sax.make_parser()
    for f in (h.feature_external_ges, h.feature_external_pes):
        rd.setFeature(f, False)     # never fetch anything from the analysis

    def add(kind, *a):
        ev.append((kind, rd.getLineNumber() or 1, rd.getColumnNumber() or 0) + a)

    class H(ContentHandler):
        def startDocument(self): add('startDocument')
        def endDocument(self): add('endDocument')
        def startElement(self, n, a): add('startElement', n, list(a.items()))
        def endElement(self, n): add('endElement', n)
        def characters(self, c): add('characters', c)
        def ignorableWhitespace(self, c): add('characters', c)
        def processingInstruction(self, t, d): add('processingInstruction', t, d)
        def skippedEntity(self, n): add('skippedEntity', n)

    class L:
        def comment(self, c): add('comment', c)
        def startCDATA(self): add('startCDATA')
        def endCDATA(self): add('endCDATA')
        def startDTD(self, n, p, s): add('startDTD', n, p, s)
        def endDTD(self): add('endDTD')
    rd.setContentHandler(H())
    rd.setProperty(h.property_lexical_handler, L())
    src = xml.sax.xmlreader.InputSource()
    if enc:
        src.setEncoding(enc)
    src.setByteStream(io.BytesIO(data))
    src.setSystemId('kjsa')
    try:
        rd.parse(src)
    except xml.sax.SAXParseException as e:
        ev.append(('error', e.getLineNumber() or 1, e.getColumnNumber() or 0, e.getMessage()))
    _EXPAT[key] = ev
    return ev


class Result:
    def __init__(self, lab, outcome, v):
        ip = lab.ip
        self.lab = lab
        self.outcome = outcome
        self.value = v if outcome == 'ok' else None
        self.exc = v if outcome == 'exc' else None
        self.reason = str(v) if outcome == 'undecided' else None
        self.facts = dict(ip.facts)
        self.events = list(ip.events)
        self.writes = list(ip.writes)
        self.trace = list(ip.trace)
        self.domain = dict(ip.domain)
        self.functions = set(ip.entered)
        self.vtypes = dict(ip.vtypes)

    def exc_name(self):
        return self.exc.val.cls.name if isinstance(self.exc.val, Obj) else repr(self.exc.val)

    def exc_names(self):
        v = self.exc.val
        return {c.name for c in v.cls.mro} if isinstance(v, Obj) else {repr(v)}

    def exc_text(self):
        return describe(self.lab.ip, self.exc.val)


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, ...)."""


def describe(ip, v):
    if isinstance(v, Obj):
        a = v.attrs.get('args')
        return '%s%r' % (v.cls.name, a)
    return repr(v)


def show(v):
    """readable form of a rendered string"""
    t = type(v)
    if t is Cat:
        return ' '.join(show(p) for p in v.parts)
    if t is Term:
        if v.op == 'hom':
            m = dict(v.args[1])
            nm = {'&<>"': 'esc', '&<>': 'esc-text'}.get(
                ''.join(c for c in '&<>"' if m.get(c) == _ENT[c]))
            if nm and len(m) == len([c for c in m if m[c] == _ENT.get(c)]):
                return '%s(%s)' % (nm, show(v.args[0]))
            return 'map{%s}(%s)' % (','.join('%s:%s' % (a, b) for a, b in v.args[1]),
                                    show(v.args[0]))
        if v.op == 'slice':
            return '%s[%s:%s]' % tuple(show(a) for a in v.args)
        return '%s(%s)' % (v.op, ', '.join(
            show(a) if isinstance(a, V) else str(a)[:60] for a in v.args))
    if t is Lin:
        return repr(v)[:120]
    if t is Tup:
        return '(%s)' % ', '.join(map(show, v.items))
    if t is ListO:
        return '[%s]' % ', '.join(show(x) if isinstance(x, V) else repr(x)
                                  for x in v.items)
    return repr(v)


_ENT = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}
