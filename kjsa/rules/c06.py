"""C06 -- rendering mode and DOCTYPE: inferred right, emitted once, only first."""
from ..check import *
from .c04 import frag

RULE = ('the mode is the explicit one, else the one of the DOCTYPE, else xml; the '
        'DOCTYPE of the source comes out once, first and verbatim, and never from a '
        'fragment, an included, imported or extending template')
VARIANTS = ('frag',)
MIN = {'quick': 100}

W3 = '"-//W3C//DTD '
# the public DTDs of HTML and XHTML with the mode they call for
DTDS = [
    ('html', None, None, 'html5'),
    ('html', 'XHTML 1.0 Transitional', 'http://www.w3.org/TR/xhtml1/DTD/xhtml1-transitional.dtd', 'xml'),
    ('html', 'XHTML 1.0 Strict', 'http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd', 'xml'),
    ('html', 'XHTML+RDFa 1.0', 'http://www.w3.org/MarkUp/DTD/xhtml-rdfa-1.dtd', 'xml'),
    ('html', 'XHTML 1.1', 'http://www.w3.org/TR/xhtml11/DTD/xhtml11.dtd', 'xml'),
    ('html', 'XHTML 1.0 Frameset', 'http://www.w3.org/TR/xhtml1/DTD/xhtml1-frameset.dtd', 'xml'),
    ('html', 'XHTML Basic 1.1', 'http://www.w3.org/TR/xhtml-basic/xhtml-basic11.dtd', 'xml'),
    ('html', 'HTML 4.01 Transitional', 'http://www.w3.org/TR/html4/loose.dtd', 'html'),
    ('html', 'HTML 4.01', 'http://www.w3.org/TR/html4/strict.dtd', 'html'),
    ('html', 'HTML 4.01 Frameset', 'http://www.w3.org/TR/html4/frameset.dtd', 'html'),
    ('x', None, None, 'xml'), ('html', 'HTML 9', 'http://x/y.dtd', 'xml'),
]


def dtd(root, fpi, uri):
    if fpi is None:
        return '<!DOCTYPE %s>' % root
    return '<!DOCTYPE %s PUBLIC "-//W3C//DTD %s//EN" "%s">' % (root, fpi, uri)


def body(mode, root='r'):
    if mode == 'xml':
        return '<%s><br/><i/></%s>' % (root, root)
    return '<%s><br><i></i></%s>' % (root, root)


SRC = '<r><br/><i/></r>'


def check(c):
    for root, fpi, uri, mode in DTDS:
        d = dtd(root, fpi, uri)
        variants = {'plain': d, 'wide': d.replace(' ', '  ', 1 if fpi is None else 9),
                    'lines': '<!DOCTYPE\n' + d[len('<!DOCTYPE '):].replace('" "', '"\n\t"'),
                    'upper': '<!DOCTYPE' + d[len('<!DOCTYPE'):].upper(),
                    'lower': '<!DOCTYPE' + d[len('<!DOCTYPE'):].lower()}
        for vn, v in variants.items():
            for sep in ('', '\n'):
                if sep and vn != 'plain':
                    continue
                key = '%s%s/%s%s' % (root, '/' + fpi if fpi else '', vn, '/newline' if sep else '')
                c.case('inferred/' + key,
                       lambda cx, v=v, sep=sep: cx.src(v + sep + SRC),
                       v + '\n' + body(mode), rule=RULE)
        for explicit in ('xml', 'html', 'html5'):
            c.case('explicit/%s%s/%s' % (root, '/' + fpi if fpi else '', explicit),
                   lambda cx, d=d, m=explicit: cx.src(d + SRC, opts=dict(mode=Const(m))),
                   d + '\n' + body(explicit), rule=RULE)
        c.case('fragment/%s%s' % (root, '/' + fpi if fpi else ''),
               lambda cx, d=d: cx.src(d + SRC, opts=dict(is_fragment=TRUE)),
               body(mode), rule=RULE)

    # no DOCTYPE in the source
    for m in (None, 'xml', 'html', 'html5'):
        for fr in (False, True):
            o = dict(is_fragment=Const(fr))
            if m:
                o['mode'] = Const(m)
            c.case('absent/%s/%s' % (m, 'fragment' if fr else 'standalone'),
                   lambda cx, o=o: cx.src(SRC, opts=o),
                   ('<!DOCTYPE html>\n' if m == 'html5' and not fr else '') + body(m or 'xml'),
                   rule=RULE, variants=fr)

    # what precedes the DOCTYPE is not emitted before it
    for pre in ('<?xml version="1.0"?>', '<?xml version="1.0"?>\n', '\n', '<!-- c -->',
                '  <!--! c -->\n'):
        if pre.strip() and pre[0] == ' ':
            pass
        c.case('prefix/%r' % pre,
               lambda cx, pre=pre: cx.src(pre + '<!DOCTYPE html>\n' + SRC),
               '<!DOCTYPE html>\n' + body('html5'), rule=RULE)

    # only at the start of the document it is one
    for key, src, out in (
            ('cdata', '<r><![CDATA[<!DOCTYPE html>]]><br/></r>',
             '<r><![CDATA[<!DOCTYPE html>]]><br/></r>'),
            ('comment', '<r><!--<!DOCTYPE html>--><br/></r>',
             '<r><!-- <!DOCTYPE html> --><br/></r>'),
            ('dropped', '<r><!--! <!DOCTYPE html>--><br/></r>', '<r><br/></r>'),
            ('comment-first', '<!-- <!DOCTYPE html> --><r><br/></r>', '<r><br/></r>'),
            ('attribute', '<r a="&lt;!DOCTYPE html>"><br/></r>',
             '<r a="&lt;!DOCTYPE html&gt;"><br/></r>'),
            ('expression', '<r>${"&lt;!DOCTYPE html>"}<br/></r>',
             '<r>&lt;!DOCTYPE html&gt;<br/></r>'),
            ('both', '<!-- <!DOCTYPE a> --><!DOCTYPE b><r><![CDATA[<!DOCTYPE b>]]><br/></r>',
             '<!DOCTYPE b>\n<r><![CDATA[<!DOCTYPE b>]]><br/></r>')):
        c.case('text/' + key, lambda cx, src=src: cx.src(src), out, rule=RULE)

    # any text of the DOCTYPE is kept
    def run(cx):
        t = Sym('dtd', 'str', nonempty=True, excl='<>[]')
        return cx.xml(El('r', {}, El('br')), opts=dict(
            source=cat(Const('<!DOCTYPE '), t, Const('><r><br/></r>'))))

    def judge(cx, r):
        v = norm(cx.ip, r.value)
        p = v.parts if type(v) is Cat else (v,)
        if not (len(p) == 3 and p[0] == Const('<!DOCTYPE ') and p[1] == Sym('dtd', 'str', excl='<>[]', nonempty=True)
                and p[2].v in ('>\n<r><br/></r>', '>\n<r><br></r>')):
            if free(v):
                raise Finding('DOCTYPE not emitted verbatim', v,
                              "'<!DOCTYPE ' <dtd> '>\\n<r>...</r>'")
            raise Unsupported('DOCTYPE ' + short(v))
    c.case('any-doctype', run, judge=judge, rule=RULE, witness=False,
           variants=False)

    # a DOCTYPE comes first whatever the root element is
    D = '<!DOCTYPE html>\n'
    for key, src, out in (
            ('if', '<r py:if="x">a</r>', '<r>a</r>'), ('for', '<r py:for="i in (1, 2)">$i</r>',
                                                      '<r>1</r><r>2</r>'),
            ('strip', '<r py:strip="">a</r>', 'a'), ('expr', '<r>$x</r>', '<r>1</r>'),
            ('block', '<r py:block="b">a</r>', '<r>a</r>'),
            ('with', '<r py:with="y=3">$y</r>', '<r>3</r>'),
            ('nop', '<py:nop>a<b>c</b></py:nop>', 'a<b>c</b>'),
            ('def', '<r><py:def function="f()">q</py:def>${f()}${f()}</r>', '<r>qq</r>')):
        c.case('first/' + key, lambda cx, s=src: cx.src(D + s, x=1), D + out, rule=RULE)

    # only the main function emits it, once per render of the template
    def run(cx):
        return cx.src('<!DOCTYPE html>\n<r><py:def function="f()"><i>q</i></py:def>'
                      '<py:block name="b">${f()}</py:block>${f()}</r>')
    c.case('once/functions', run, D + '<r><i>q</i><i>q</i></r>', rule=RULE)

    # through a loader -----------------------------------------------------------
    ext = {'xml': 'xml', 'html': 'html', 'html5': 'html5'}
    for e in ext:
        for e2 in ext:
            for inc in ('<py:include href="b.%s"/>',
                        '<py:import href="b.%s" alias="b"/>${b.__main__()}',
                        '<py:import href="b.%s" alias="b"/>${b.f()}'):
                def run(cx, e=e, e2=e2, inc=inc):
                    l = cx.files({'a.' + e: '<!DOCTYPE html><p>' + inc % e2 + '</p>',
                                  'b.' + e2: '<!DOCTYPE html><b><py:def function="f()">'
                                             '<i/></py:def>${f()}</b>'})
                    return cx.render(cx.load(l, 'a.' + e))

                def want(cx, e=e, e2=e2, inc=inc):
                    i = '<i></i>'   # the DOCTYPE decides where the extension does not
                    o = '<b>%s</b>' % i if 'f()' not in inc else i
                    return D + '<p>%s</p>' % o
                c.case('loader/%s-in-%s/%s' % (e2, e, inc.split()[0] + ('/call' if 'f()' in inc
                                                                         else '')),
                       run, want, rule=RULE)
    for pd, cd in ((1, 1), (1, 0), (0, 1), (0, 0)):
        for e in ext:
            def run(cx, pd=pd, cd=cd, e=e):
                l = cx.files({
                    'p.' + e: ('<!DOCTYPE html>' if pd else '') +
                    '<p><py:block name="b">x</py:block></p>',
                    'c.' + e: ('<!DOCTYPE html>' if cd else '') +
                    '<py:extends href="p.%s"><py:block name="b">y</py:block></py:extends>' % e})
                return cx.render(cx.load(l, 'c.' + e))
            c.case('loader/extends/%s/%d%d' % (e, pd, cd), run,
                   ('<!DOCTYPE html>\n' if pd or e == 'html5' else '') + '<p>y</p>', rule=RULE)
