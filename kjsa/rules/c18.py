"""C18 -- script and style: content raw, CDATA-protected in xml mode, optional."""
from ..check import *
from .c17 import T, cat

RULE = ('the text of script and style is emitted raw, in xml mode inside exactly one '
        '/*<![CDATA[*/ ... /*]]>*/ pair, its expressions evaluated and escaped; with '
        'cdata_scripts=False these elements are ordinary ones')
VARIANTS = ('frag',)
MIN = {'quick': 80}
L, R = '/*<![CDATA[*/', '/*]]>*/'


def check(c):
    def body(cx, shape):
        """(children, image of the raw content, image as an ordinary element)"""
        t, u, x = T('t'), T('u'), cx.x
        if shape == 'text':
            return [Tx(t)], [t], [esc_static(t)]
        if shape == 'chunks':
            return [Tx(t, u)], [t, u], [esc_static(t), esc_static(u)]
        if shape == 'spaces':
            return [Tx(cat('\n  ', t, ' \n'))], ['\n  ', t, ' \n'], ['\n  ', esc_static(t), ' \n']
        if shape == 'entity':
            return [Tx(t), Tx('<'), Tx(u)], [t, '<', u], [esc_static(t), '&lt;', esc_static(u)]
        if shape == 'html-entity':
            return [Tx(t), Ent('eacute'), Tx(u)], [t, '\u00e9', u], \
                [esc_static(t), '\u00e9', esc_static(u)]
        if shape == 'expr':
            return [Tx(cat(t, '${x}', u))], [t, x.text, u], [esc_static(t), x.text, esc_static(u)]
        if shape == 'only-expr':
            return [Tx('${x}')], [x.text], [x.text]
        if shape == 'dollar':
            return [Tx(cat('$$(', t, ')'))], ['$(', t, ')'], ['$(', esc_static(t), ')']
        if shape == 'cdata':
            return [CD(t)], [t], ['<![CDATA[', t, ']]>']
        if shape == 'cdata-expr':
            return [CD(cat(t, '${x}<'))], [t, x.text, '<'], ['<![CDATA[', t, x.text, '<]]>']
        if shape == 'cdata-mixed':
            return [Tx(cat('a', t)), CD(u), Tx('b<')], ['a', t, u, 'b<'], \
                ['a', esc_static(t), '<![CDATA[', u, ']]>b&lt;']
        if shape == 'cdata-two':
            return [CD(t), CD(u)], [t, u], ['<![CDATA[', t, ']]><![CDATA[', u, ']]>']
        if shape == 'cdata-commented':
            return [Tx('//'), CD(cat('\n', t, '\n//'))], ['//\n', t, '\n//'], \
                ['//<![CDATA[\n', t, '\n//]]>']
        if shape == 'blank':
            return [Tx(' \n ')], [' \n '], [' \n ']
        raise TypeError(shape)
    SHAPES = ('text', 'chunks', 'spaces', 'entity', 'html-entity', 'expr', 'only-expr', 'dollar',
              'cdata', 'cdata-expr', 'cdata-mixed', 'cdata-two', 'cdata-commented', 'blank')

    WRAP = {
        'plain': lambda e: (El('d', {}, e), '', ''),
        'root': None,
        'siblings': lambda e: (El('d', {}, Tx('<'), e, Tx('<')), '&lt;', '&lt;'),
        'if': lambda e: (El('d', {}, El('py:if', {'test': 'True'}, e)), '', ''),
        'for': lambda e: (El('d', {}, El('py:for', {'each': 'i in (1,)'}, e)), '', ''),
        'deep': lambda e: (El('d', {}, El('i', {}, e)), '<i>', '</i>'),
    }
    kinds = ('str', 'none', 'markup', 'int')
    for tag in ('script', 'style'):
        for mode in ('xml', 'html', 'html5'):
            for cdata in (True, False, None):
                for w in WRAP:
                    if w in ('if', 'for', 'deep') and (mode == 'html' or cdata is None):
                        continue

                    def run(cx, tag=tag, mode=mode, cdata=cdata, w=w):
                        cx.x = cx.dyn('x', kinds if w == 'plain' else ('str',))
                        shape = cx.pick('content', SHAPES)
                        kids, raw, plain = body(cx, shape)
                        e = El(tag, {}, *kids)
                        if WRAP[w]:
                            doc, a, b = WRAP[w](e)
                            a, b = '<d>' + a, b + '</d>'
                        else:
                            doc, a, b = e, '', ''
                        if cdata is False:
                            img = plain
                        elif mode == 'xml':
                            img = [L] + raw + [R]
                        else:
                            img = raw
                        dt = '<!DOCTYPE html>\n' if mode == 'html5' else ''
                        cx.want = [dt, a, '<%s>' % tag] + img + ['</%s>' % tag, b]
                        o = {'mode': Const(mode)}
                        if cdata is not None:
                            o['cdata_scripts'] = Const(cdata)
                        return cx.xml(doc, opts=o, x=cx.x)
                    c.case('%s/%s/%s/%s' % (tag, mode, cdata, w), run, lambda cx: cx.want,
                           rule=RULE)

    # concrete sources
    for mode in ('xml', 'html'):
        l, r = (L, R) if mode == 'xml' else ('', '')
        for key, src, out in (
                ('amp', '<d><script>a &amp;&amp; b &lt; c</script></d>',
                 '<d><script>%sa && b < c%s</script></d>' % (l, r)),
                ('style', '<d><style>p > b { c: "d" }</style></d>',
                 '<d><style>%sp > b { c: "d" }%s</style></d>' % (l, r)),
                ('author-comments',
                 '<d><script>/*<![CDATA[*/ a < b /*]]>*/</script></d>',
                 '<d><script>%s/**/ a < b /**/%s</script></d>' % (l, r)),
                ('attributes', '<d><script type="t" src="$x">a</script></d>',
                 '<d><script src="7" type="t">%sa%s</script></d>' % (l, r)),
                ('two', '<d><script>a</script>&lt;<style>b</style>&amp;<script>c</script></d>',
                 '<d><script>%sa%s</script>&lt;<style>%sb%s</style>&amp;<script>%sc%s</script></d>'
                 % (l, r, l, r, l, r)),
                ('directive', '<d><script py:if="x">a</script><script py:if="not x">b</script></d>',
                 '<d><script>%sa%s</script></d>' % (l, r)),
                ('loop', '<d><style py:for="i in (1, 2)">$i</style></d>',
                 '<d><style>%s1%s</style><style>%s2%s</style></d>' % (l, r, l, r)),
                ('function', '<d><py:def function="f(q)"><script>a=$q;</script></py:def>${f(1)}'
                 '${f("&lt;")}</d>',
                 '<d><script>%sa=1;%s</script><script>%sa=&lt;;%s</script></d>' % (l, r, l, r)),
                ('empty-script', '<d><script src="a"/></d>', '<d><script src="a"></script></d>'),
                ('quotes', '<d><script>\'"\\n\' + "\\\'"</script></d>',
                 '<d><script>%s\'"\\n\' + "\\\'"%s</script></d>' % (l, r)),
                ('lines', '<d><script>\n  a;\n\n  b;\n</script></d>',
                 '<d><script>%s\n  a;\n\n  b;\n%s</script></d>' % (l, r)),
                ('extends-block', '<d><py:block name="k"><script>a&lt;b</script></py:block></d>',
                 '<d><script>%sa<b%s</script></d>' % (l, r)),
                ('similar', '<d><scripts>a &lt; b</scripts><pre>c &lt;</pre></d>',
                 '<d><scripts>a &lt; b</scripts><pre>c &lt;</pre></d>')):
            c.case('source/%s/%s' % (mode, key), lambda cx, src=src, mode=mode: cx.src(
                src, opts={'mode': Const(mode)}, x=Const(7)), out, rule=RULE)
        for key, src, out in (
                ('plain', '<d><script>a &lt; b</script><style>c &gt; d</style></d>',
                 '<d><script>a &lt; b</script><style>c &gt; d</style></d>'),
                ('cdata', '<d><script><![CDATA[a < b]]></script></d>',
                 '<d><script><![CDATA[a < b]]></script></d>'),
                ('child', '<d><style>a<b>c</b><!-- d --></style></d>',
                 '<d><style>a<b>c</b><!--  d  --></style></d>'),
                ('expr', '<d><script>$x&lt;</script></d>', '<d><script>7&lt;</script></d>')):
            c.case('ordinary/%s/%s' % (mode, key), lambda cx, src=src, mode=mode: cx.src(
                src, opts={'mode': Const(mode), 'cdata_scripts': FALSE}, x=Const(7)), out,
                rule=RULE)

    # strip_text concerns script text like any other
    def run(cx):
        t = T('t')
        cx.want = ['<d><script>', L, t, R, '</script></d>']
        return cx.xml(El('d', {}, El('script', {}, Tx(cat('\n ', t, ' ')))),
                      opts={'strip_text': TRUE})
    c.case('strip-text', run, lambda cx: cx.want, rule=RULE)
