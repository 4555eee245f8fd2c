"""C21 -- parsing fetches no external resource; template files are closed on every path."""
from ..check import *
from ..interp import PyExc

RULE = ('the XML reader parses only with external entities off and only the bytes of the '
        'template; the only file opened is the template, for reading, with the requested '
        'encoding, and it is closed on every path out of the load')
MIN = {'quick': 120}

GES = 'http://xml.org/sax/features/external-general-entities'
PES = 'http://xml.org/sax/features/external-parameter-entities'

DTDS = {
    'none': '',
    'html5': '<!DOCTYPE html>',
    'system': '<!DOCTYPE d SYSTEM "file:///etc/passwd">',
    'relative': '<!DOCTYPE d SYSTEM "z.xml">',
    'public': '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" '
              '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">',
    'entity': '<!DOCTYPE d [<!ENTITY e SYSTEM "file:///etc/passwd">]>',
    'entity-lines': '<!DOCTYPE d [\n<!ENTITY e SYSTEM "z.xml">\n]>',
    'parameter': '<!DOCTYPE d [<!ENTITY % p SYSTEM "http://h/p.dtd"> %p;]>',
    'both': '<!DOCTYPE d SYSTEM "a.dtd" [<!ENTITY % p SYSTEM "p.dtd"><!ENTITY e PUBLIC "i" '
            '"z.xml">%p;]>',
    'declaration': '<?xml version="1.0" encoding="utf-8"?>\n<!DOCTYPE d SYSTEM "z.xml">',
    'lower': '<!doctype d SYSTEM "z.xml">',
    'two': '<!DOCTYPE d>\n<!DOCTYPE d SYSTEM "z.xml">',
    'comment': '<!-- a --><!DOCTYPE d SYSTEM "z.xml">',
    'stylesheet': '<?xml-stylesheet href="z.xml"?>',
}
BODIES = {
    'plain': '<d>$x</d>',
    'entity': '<d>&e;</d>',
    'html-entity': '<d>&nbsp;</d>',
    'attribute': '<d a="&e;">$x</d>',
    'link': '<d><link href="file:///etc/passwd"/><script src="z.xml"/></d>',
    'xinclude': '<d xmlns:xi="http://www.w3.org/2001/XInclude"><xi:include href="z.xml"/></d>',
    'schema': '<d xsi:schemaLocation="a z.xsd">$x</d>',
    'cdata': '<d><![CDATA[<!DOCTYPE d SYSTEM "z.xml">&e;]]></d>',
}


def sax(cx):
    """every parse runs with external entities off, on the bytes given to it"""
    ip = cx.ip
    for e in ip.events:
        if e.kind == 'sax.parse':
            src, feats = e.data
            on = {}
            for k, v in feats.d.items():
                k, v = ip.resolve(k), ip.resolve(v)
                if type(k) is not Const or type(v) is not Const:
                    raise Unsupported('SAX feature not known')
                on[k.v] = v.v
            for f, what in ((GES, 'general'), (PES, 'parameter')):
                if on.get(f, False):
                    raise Finding('external %s entities are switched on when the template is '
                                  'parsed' % what)
            if not hasattr(src, 'attrs'):
                raise Finding('the XML reader is given a name to open: %r' % (src,))
            if (src.attrs.get('_bytefile', NONE) == NONE and
                    src.attrs.get('_charfile', NONE) == NONE):
                raise Finding('the XML reader is given no stream and opens the system id itself')
        if e.kind == 'sax.setEntityResolver':
            raise Unsupported('entity resolver')


def files(cx, allowed):
    """only the allowed files are opened, to be read, and every one is closed"""
    op, cl = {}, set()
    for e in cx.ip.events:
        if e.kind == 'file.open':
            f, name, mode = e.data[:3]
            op[id(f)] = (f, name)
            if type(name) is Const and name.v not in allowed:
                raise Finding('opens the file %r' % name.v)
            if type(name) is not Const or type(mode) is not Const:
                raise Unsupported('file opened is not known')
            if set(mode.v) & set('wax+'):
                raise Finding('opens the template file with mode %r' % mode.v)
        elif e.kind == 'file.close':
            cl.add(id(e.data[0]))
        elif e.kind == 'file.write':
            raise Finding('writes to a file')
    for k, (f, name) in op.items():
        if k not in cl:
            raise Finding('the file %r is not closed' % name.v)
    return len(op)


def check(c):
    # what the reader is told ------------------------------------------------------------
    for dn, dtd in DTDS.items():
        for bn, body in BODIES.items():
            def run(cx, src=dtd + body):
                for mode in (None, 'xml', 'html', 'html5'):
                    for frag in (False, True):
                        try:
                            t = cx.lab.compile(src, is_fragment=Const(frag),
                                               **({'mode': Const(mode)} if mode else {}))
                        except PyExc:
                            continue
                        finally:
                            sax(cx)
                            files(cx, ())
                        cx.render(t, x=cx.dyn('x', ('str',)))
                return NONE
            c.case('string/%s/%s' % (dn, bn), run, rule=RULE,
                   judge=lambda cx, r: (sax(cx), files(cx, ())))

    # any document under any name: no choice the code can make on them switches entities on
    for n, doc in {'text': lambda: [El('d', {'a': 'b'}, Tx('t'))],
                   'script': lambda: [El('script', {}, CD('t'))],
                   'comment': lambda: [Cm('c'), El('d', {}, PI('p', 'q'), Cm('c2'))]
                   }.items():
        for opts in ({}, {'strip_text': TRUE}, {'cdata_scripts': FALSE}):
            def run(cx, doc=doc, opts=opts):
                fn = cx.pick('name', ('none', 'any', 'odd'))
                o = dict(opts)
                if fn != 'none':
                    o['filename'] = txt('fn') if fn == 'any' else Const('http://h/a.xml')
                try:
                    t = cx.template(*doc(), **o)
                except PyExc:
                    pass
                sax(cx)
                files(cx, ())
                return NONE
            c.case('any/%s/%s' % (n, '-'.join(opts)), run, rule=RULE)

    # files --------------------------------------------------------------------------------
    XML = {
        'good': '<d>$x</d>',
        'doctype': '<!DOCTYPE d SYSTEM "z.xml"><d>$x</d>',
        'entities': DTDS['entity'] + '<d>&e;</d>',
        'empty': '',
        'not-well-formed': '<d>\n<b></d>',
        'unknown-entity': '<d>&bogus;</d>',
        'bad-else': '<d><py:else>a</py:else></d>',
        'bad-expression': '<d>${1 +}</d>',
        'bad-code': '<d py:if="1 +">a</d>',
        'bad-python': '<d><?py a = = 1 ?></d>',
        'undecodable': b'<d>\xff\xfe\xfa</d>',
    }
    TEXT = {
        'good': '$x\n%for i in [1]\na\n%end\n',
        'empty': '',
        'unterminated': '%if x\na\n',
        'bad-expression': '${1 +}',
        'bad-tag': '%bogus\n',
        'undecodable': b'a\xff\xfe\xfab',
    }

    def listdir(ip, package, d):
        pre = '/' + package.v + '/'
        return ListO([Const(n[len(pre):]) for n in c.lab.files if n.startswith(pre)])
    hooks = dict(c.lab.hooks)
    hooks['pkg.listdir'] = listdir
    hooks['pkg.filename'] = lambda ip, p, n: Const('/%s/%s' % (p.v, n.v))

    def setup(cx, ext, src):
        cx.lab.doc = None
        cx.lab.files = {'/t/a.' + ext: src, '/t/z.xml': '<z/>', '/t/kajiki.dtd': '',
                        '/t/p.dtd': ''}

    def direct(cx, ext):
        f = cx.lab.get('kajiki.TextTemplate' if ext == 'txt' else 'kajiki.XMLTemplate')
        return cx.lab.call(f, filename=Const('/t/a.' + ext))

    def loader(cx, ext, **opts):
        ld = cx.lab.call(cx.lab.get('kajiki.FileLoader'), Const('/t'), **opts)
        return cx.lab.m(ld, 'load', Const('a.' + ext))

    def package(cx, ext):
        ld = cx.lab.call(cx.lab.get('kajiki.PackageLoader'))
        return cx.lab.m(ld, 'load', Const('t.a'))

    def pyramid(cx, ext):
        ld = cx.lab.call(cx.lab.get('kajiki.integration.pyramid.PyramidKajikiLoader'),
                         mode=Const('xml'))
        return cx.lab.m(ld, 'load', Const('/t/a.' + ext))

    ways = {'direct': direct, 'loader': loader, 'package': package,
            'force': lambda cx, ext: loader(cx, ext, force_mode=Const(
                'text' if ext == 'txt' else 'html5'))}
    if c.module('kajiki.integration.pyramid'):
        ways['pyramid'] = pyramid
    for way, load in ways.items():
        for ext in ('xml', 'html', 'html5', 'txt'):
            if way in ('direct', 'pyramid') and ext in ('html', 'html5') or \
                    way == 'pyramid' and ext == 'txt':
                continue
            for name, src in (TEXT if ext == 'txt' else XML).items():
                def run(cx, load=load, ext=ext, src=src):
                    setup(cx, ext, src)
                    a = '/t/a.' + ext
                    try:
                        t = load(cx, ext)
                    except PyExc as e:
                        if 'Exception' not in {k.name for k in e.val.cls.mro}:
                            raise
                    else:
                        n = files(cx, {a})
                        cx.render(t, x=Const('v'))
                        if files(cx, {a}) != n:
                            raise Finding('rendering opens files')
                    sax(cx)
                    if not files(cx, {a}):
                        raise Unsupported('the file is not opened in a known way')
                    return NONE
                c.case('file/%s/%s/%s' % (way, ext, name), run, rule=RULE, hooks=hooks)

            # reading fails
            for exc in ('OSError', 'UnicodeDecodeError', 'MemoryError', 'KeyboardInterrupt'):
                def run(cx, load=load, ext=ext, exc=exc):
                    setup(cx, ext, '<d/>')

                    def read(ip, f):
                        ip.raise_(exc, 'read')
                    cx.ip.config['hooks'] = dict(hooks, **{'file.read': read})
                    try:
                        load(cx, ext)
                    except PyExc as e:
                        if e.val.cls.name != exc:
                            raise Finding('%s while reading becomes %s' % (
                                exc, describe(cx.ip, e.val)))
                    else:
                        raise Finding('%s while reading is lost' % exc)
                    if not files(cx, {'/t/a.' + ext}):
                        raise Unsupported('the file is not opened in a known way')
                    return NONE
                c.case('read-error/%s/%s/%s' % (way, ext, exc), run, rule=RULE)

    # several files: only the templates named through the loader
    DOCS = {
        'include': '<d><py:include href="b.xml"/>$x</d>',
        'import': '<d><py:import href="b.xml" alias="b"/>${b.f()}</d>',
        'extends': '<py:extends href="b.xml"><py:block name="k">$x</py:block></py:extends>',
    }
    for name, src in DOCS.items():
        for b in ('good', 'bad', 'doctype', 'missing'):
            def run(cx, src=src, b=b):
                cx.lab.doc = None
                body = '<b><py:def function="f()">1</py:def><py:block name="k">2</py:block>%s</b>'
                cx.lab.files = {'/t/a.xml': src, '/t/z.xml': '<z/>', '/t/c.xml': '<c/>'}
                if b != 'missing':
                    cx.lab.files['/t/b.xml'] = {'doctype': '<!DOCTYPE b SYSTEM "c.xml">'}.get(
                        b, '') + body % ('<u>' if b == 'bad' else '')
                ok = {'/t/a.xml', '/t/b.xml'}
                ld = cx.lab.call(cx.lab.get('kajiki.FileLoader'), Const('/t'))
                try:
                    t = cx.lab.m(ld, 'load', Const('a.xml'))
                    cx.render(t, x=Const('v'))
                except PyExc:
                    if b not in ('bad', 'missing'):
                        raise
                else:
                    if b in ('bad', 'missing'):
                        raise Finding('no error')
                sax(cx)
                files(cx, ok)
                return NONE
            c.case('several/%s/%s' % (name, b), run, rule=RULE)
