"""C17 -- static text, entities, comments and CDATA come out as written."""
import itertools
from ..check import *
from ..check import cat as check_cat

RULE = ('the character data, entities, comments and CDATA sections of a document are emitted in '
        'order, once, each as written (text with &, <, > escaped, CDATA raw), however the '
        'parser splits them')
VARIANTS = ('frag',)
MIN = {'quick': 300}


def T(n):
    return txt(n, excl='$', trimmed=True, nonblank=True, nonempty=True)


def cat(*p):
    return check_cat(*[S(x) for x in p])


class Piece:
    """a node of the document and its required image"""
    def __init__(self, code, node, image, run):
        self.code, self.node, self.image, self.run = code, node, image, run


def piece(cx, code, n):
    """run: part of a run of text"""
    s = 't%d' % n
    if code == 'T':
        t = T(s)
        return Piece(code, Tx(t), [esc_static(t)], True)
    if code == 'S':         # in two chunks
        t, u = T(s), T(s + 'b')
        return Piece(code, Tx(t, u), [esc_static(t), esc_static(u)], True)
    if code == 'W':
        return Piece(code, Tx(' \n'), [' \n'], True)
    if code == 'N':
        return Piece(code, Ent('eacute'), ['\u00e9'], True)
    if code == 'A':
        return Piece(code, Tx('&'), ['&amp;'], True)
    if code == 'X':
        return Piece(code, Tx('${x}'), [cx.x.text], True)
    if code == 'D':
        return Piece(code, Tx('$$'), ['$'], True)
    if code == 'C':
        t = txt(s)
        return Piece(code, Cm(cat('c', t)), ['<!-- c', t, ' -->'], False)
    if code == '!':
        t = txt(s)
        return Piece(code, Cm(cat('!', t)), [], False)
    if code == 'R':
        t = T(s)
        return Piece(code, CD(t), ['<![CDATA[', t, ']]>'], False)
    if code == 'E':
        t = T(s)
        return Piece(code, El('b', {}, Tx(t)), ['<b>', esc_static(t), '</b>'], False)
    if code == 'I':
        t = T(s)
        return Piece(code, El('py:if', {'test': 'True'}, Tx(t)), [esc_static(t)], False)
    if code == 'P':
        return Piece(code, PI('py', 'q = 1'), [], False)
    raise TypeError(code)


ALL = 'TSWNAXDC!REIP'


def check(c):
    # sequences of nodes ---------------------------------------------------------------
    quick = c.tier == 'quick'
    seqs = [s for n in (1, 2) for s in itertools.product(ALL, repeat=n)]
    three = [s for s in itertools.product('TWAXCRE', repeat=3)
             if quick is False or (s[0] != s[2])]
    if not quick:
        three = list(itertools.product(ALL, repeat=3))
    seqs += three

    def wrap(kind, nodes):
        if kind == 'element':
            return El('d', {}, *nodes), '<d>', '</d>'
        if kind == 'for':
            return El('d', {}, El('py:for', {'each': 'i in (1,)'}, *nodes)), '<d>', '</d>'
        if kind == 'def':
            return El('d', {}, El('py:def', {'function': 'f()'}, *nodes),
                      El('py:if', {'test': 'True'}, Tx('${f()}'))), '<d>', '</d>'
        if kind == 'block':
            return El('d', {}, El('py:block', {'name': 'k'}, *nodes)), '<d>', '</d>'
        if kind == 'strip':
            return El('d', {}, El('i', {'py:strip': ''}, *nodes)), '<d>', '</d>'
        raise TypeError(kind)

    def family(key, seqs, kind='element', mode='xml', kinds=('str',)):
        # one case per first node keeps the number of cases readable
        groups = {}
        for s in seqs:
            groups.setdefault((len(s), s[0]), []).append(s)
        for (n, first), group in groups.items():
            def run(cx, group=group):
                s = group[cx.ip.choose(len(group), ('sequence',))]
                cx.kinds['nodes'] = ''.join(s)
                cx.x = cx.dyn('x', kinds)
                ps = [piece(cx, k, i) for i, k in enumerate(s)]
                doc, a, b = wrap(kind, [p.node for p in ps])
                cx.want = [a] + [y for p in ps for y in p.image] + [b]
                return cx.xml(doc, opts={'mode': Const(mode)}, x=cx.x)
            c.case('%s/%d/%s' % (key, n, first), run, lambda cx: cx.want, rule=RULE,
                   max_paths=6000)

    family('nodes', seqs)
    two = [s for n in (1, 2) for s in itertools.product(ALL, repeat=n)]
    some = two if not quick else [s for n in (1, 2) for s in itertools.product('TAXCRE', repeat=n)]
    for kind in ('for', 'def', 'block', 'strip'):
        family('nodes-in-' + kind, some, kind)
    for mode in ('html', 'html5'):
        def run(cx, mode=mode):
            s = some[cx.ip.choose(len(some), ('sequence',))]
            cx.kinds['nodes'] = ''.join(s)
            cx.x = cx.dyn('x', ('str',))
            ps = [piece(cx, k, i) for i, k in enumerate(s)]
            cx.want = ['<!DOCTYPE html>\n' if mode == 'html5' else '', '<d>'] + \
                [y for p in ps for y in p.image] + ['</d>']
            return cx.xml(El('d', {}, *[p.node for p in ps]), opts={'mode': Const(mode)}, x=cx.x)
        c.case('nodes-' + mode, run, lambda cx: cx.want, rule=RULE, max_paths=6000)

    # a text without any assumption on its blanks
    def run(cx):
        cx.t = t = txt('t', excl='$')
        return cx.xml(El('d', {}, Tx(t)))
    c.case('any-text', run, lambda cx: ['<d>', esc_static(cx.t), '</d>'], rule=RULE)

    # strip_text -----------------------------------------------------------------------
    # runs of text around other nodes; blanks at the ends of a run go, others stay
    LEFT, RIGHT = ('', ' ', '\n  ', '\t'), ('', ' ', ' \n')
    K = lambda n: txt(n, excl='$&<>', trimmed=True, nonblank=True, nonempty=True)

    def run(cx):
        parts = []
        out = ['<d>']
        shape = cx.pick('shape', ('one', 'two', 'mixed', 'expr', 'cdata', 'blank', 'nested'))
        l, r = cx.pick('left', LEFT), cx.pick('right', RIGHT)
        a, b = K('a'), K('b')
        cx.x = x = cx.dyn('x', ('int',))
        E, EO = El('e', {}), '<e/>'
        if shape == 'one':
            kids, o = [Tx(cat(l, a, r))], [a]
        elif shape == 'two':
            kids, o = [Tx(cat(l, a, r)), E, Tx(cat(r, b, l))], [a, EO, b]
        elif shape == 'mixed':
            kids, o = [Tx(l), Tx(a), Tx(' '), Tx(b), Tx(r)], [a, ' ', b]
        elif shape == 'expr':
            kids, o = [Tx(cat(l, a, ' ${x} ', b, r))], [a, ' ', x.text, ' ', b]
        elif shape == 'cdata':
            kids, o = [Tx(cat(l, a, r)), CD(cat(l, b, r)), Tx(l or ' ')], \
                [a, '<![CDATA[', b, ']]>']
        elif shape == 'blank':
            kids, o = [Tx(l or ' '), E, Tx(r or ' ')], [EO]
        else:
            kids, o = [Tx(l or ' '), El('py:if', {'test': 'True'}, Tx(cat(l, a, r))),
                       Tx(r or ' ')], [a]
        cx.want = ['<d>'] + o + ['</d>']
        cx.keep = kids
        return cx.xml(El('d', {}, *kids), opts={'strip_text': TRUE}, x=x)
    c.case('strip-text', run, lambda cx: cx.want, rule=RULE, max_paths=2000)

    def run(cx):
        l, r = cx.pick('left', LEFT), cx.pick('right', RIGHT)
        a, b = K('a'), K('b')
        cx.want = ['<d>', l, a, r, '<e>', r, '</e>', r, b, l, '</d>']
        return cx.xml(El('d', {}, Tx(cat(l, a, r)), El('e', {}, Tx(r)) if r else El('e', {}),
                         Tx(cat(r, b, l))), opts={'strip_text': FALSE})
    c.case('not-stripped', run, lambda cx: cx.want if cx.kinds['right'] else
           ['<d>'] + cx.want[1:4] + ['<e/>'] + cx.want[7:], rule=RULE)

    # entities ------------------------------------------------------------------------
    import html.entities as he
    names = sorted(n[:-1] for n in he.html5 if n.endswith(';'))

    def run(cx):
        k = cx.pick('part', tuple(range(8)))
        mine = names[k::8]
        cx.want = '<d>' + ''.join(
            he.html5[n + ';'].replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
            .replace('$', '$') + ',' for n in mine if n != 'dollar') + '</d>'
        return cx.xml(El('d', {}, *[y for n in mine if n != 'dollar'
                                    for y in (Ent(n), Tx(','))]))
    c.case('entities', run, lambda cx: cx.want, rule=RULE)

    for key, src, out in (
            ('xml', '<d>&lt;b&gt; &amp; &quot;&apos;</d>', '<d>&lt;b&gt; &amp; "\'</d>'),
            ('numeric', '<d>&#65;&#x42;&#160;&#38;&#60;</d>', '<d>AB\u00a0&amp;&lt;</d>'),
            ('html', '<d>a&nbsp;b&eacute;&copy;&AElig;c</d>', '<d>a\u00a0b\u00e9\u00a9\u00c6c</d>'),
            ('double', '<d>&amp;lt; &amp;amp;</d>', '<d>&amp;lt; &amp;amp;</d>'),
            ('in-cdata', '<d><![CDATA[&lt; &nbsp; <b>]]></d>', '<d><![CDATA[&lt; &nbsp; <b>]]></d>'),
            ('cdata-adjacent', '<d><![CDATA[a]]><![CDATA[<b>]]>&lt;</d>',
             '<d><![CDATA[a]]><![CDATA[<b>]]>&lt;</d>'),
            ('cdata-empty', '<d>a<![CDATA[]]>b</d>', '<d>a<![CDATA[]]>b</d>'),
            ('cdata-deep', '<d><b><![CDATA[<]]></b>&lt;<b>&lt;<![CDATA[>]]>&gt;</b></d>',
             '<d><b><![CDATA[<]]></b>&lt;<b>&lt;<![CDATA[>]]>&gt;</b></d>'),
            ('dollars', '<d>$$ $$$$ $ 5 $5 a$</d>', '<d>$ $$ $ 5 $5 a$</d>'),
            ('dollar-name', '<d>$$x $${x}</d>', '<d>$x ${x}</d>'),
            ('dollar-dots', '<d>$x, $x; ($x)</d>', '<d>7, 7; (7)</d>'),
            ('dollar-cdata', '<d><![CDATA[$$ $x]]></d>', '<d><![CDATA[$ 7]]></d>'),
            ('comment-dollar', '<d><!--$x ${ &lt; --></d>', '<d><!-- $x ${ &lt;  --></d>'),
            ('comments', '<d><!--a-->b<!--!c-->d<!-- !e --></d>',
             '<d><!-- a -->b' + 'd<!--  !e  --></d>'),
            ('unicode', '<d>\u00e9\u4e2d\U0001f600\u2028x</d>', '<d>\u00e9\u4e2d\U0001f600\u2028x</d>'),
            ('declaration', '<?xml version="1.0"?>\n<!DOCTYPE html>\n<d>t</d>', '<!DOCTYPE html>\n<d>t</d>'),
            ('doctype', '<!DOCTYPE html>\n<d>a &lt; b</d>', '<!DOCTYPE html>\n<d>a &lt; b</d>'),
            ('long', '<d>%s</d>' % ('ab &amp; ' * 200), '<d>%s</d>' % ('ab &amp; ' * 200)),
            ('longer', '<d>%s</d>' % ('ab ' * 30000 + 'c'), '<d>%s</d>' % ('ab ' * 30000 + 'c')),
            ('lines', '<d>\n a\n\tb\n\n</d>', '<d>\n a\n\tb\n\n</d>'),
            ('percent', '<d>100% %s %d {0} {x} \\n \\x41 \'"</d>',
             '<d>100% %s %d {0} {x} \\n \\x41 \'"</d>'),
            ('backslash', '<d>\\</d>', '<d>\\</d>'),
            ('triple', '<d>"""\'\'\'</d>', '<d>"""\'\'\'</d>'),
            ('namespaces', '<d xmlns="u" xmlns:q="v"><q:b>t</q:b></d>',
             '<d xmlns="u" xmlns:q="v"><q:b>t</q:b></d>'),
            ('comment-in-def', '<d><py:def function="f()"><!-- c -->t</py:def>${f()}</d>',
             '<d><!--  c  -->t</d>'),
            ('entity-around', '<d>&nbsp;<b>&nbsp;</b>&nbsp;x </d>',
             '<d>\u00a0<b>\u00a0</b>\u00a0x </d>'),
            ('expression-entities', '<d>${7 &lt; 8}&lt;$x&gt;</d>', '<d>True&lt;7&gt;</d>')):
        c.case('source/' + key, lambda cx, src=src: cx.src(src, x=Const(7)), out, rule=RULE)
        if key not in ('entity-around', 'lines', 'long', 'unicode') and 'x ' not in key:
            def run(cx, src=src):
                return cx.src(src, opts={'strip_text': TRUE}, x=Const(7))
            if not any(q in src for q in ('> ', ' <', '>\n ', '&#160;', '[ ')):
                c.case('source-strip/' + key, run, out, rule=RULE)
