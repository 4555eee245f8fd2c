"""Documents and histories that are much longer, deeper or wider than those the other cases
are made of: what a rule demands does not depend on the size."""
from ..check import *

CASES = {}


def scale(*props):
    def add(fn):
        for p in props:
            CASES.setdefault(p, []).append(fn)
        return fn
    return add


def check(c, prop, rule):
    for fn in CASES.get(prop, ()):
        for key, run, want in fn():
            c.case('size/%s/%s' % (fn.__name__, key), run, want, rule=rule, variants=False)


def src(source, **ctx):
    return lambda cx: cx.src(source, **{k: v() if callable(v) else v for k, v in ctx.items()})


def text(source, **ctx):
    return lambda cx: cx.text(source, **ctx)


def ld(files, name='a.xml', **ctx):
    return lambda cx: cx.render(cx.load(cx.files(files), name), **ctx)


def seq(f, n, sep=''):
    return sep.join(f(i) for i in range(n))


LONG = 'lorem ipsum ' * 6000


@scale('C01')
def escape():
    t = LONG + '<&>"' + LONG + '&' * 400
    w = t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
    yield 'long', src('<d>$x</d>', x=Const(t)), '<d>%s</d>' % w
    yield 'content', src('<d py:content="x"/>', x=Const(t)), '<d>%s</d>' % w
    yield 'many', src('<d><py:for each="i in range(900)">$x</py:for></d>', x='<'), \
        '<d>%s</d>' % ('&lt;' * 900)


@scale('C02')
def attribute():
    t = 'v &"<' * 3000
    w = t.replace('&', '&amp;').replace('"', '&quot;').replace('<', '&lt;')
    yield 'long', src('<d a="$x"/>', x=Const(t)), '<d a="%s"/>' % w
    yield 'parts', src('<d a="%s"/>' % ('$x,' * 150), x='p'), '<d a="%s"/>' % ('p,' * 150)
    yield 'none-parts', src('<d a="%s"/>' % ('$n$x' * 80), n=NONE, x='p'), \
        '<d a="%s"/>' % ('p' * 80)
    yield 'all-none', src('<d a="%s"/>' % ('$n' * 80), n=NONE), '<d/>'
    yield 'many', src('<d %s/>' % seq(lambda i: 'a%03d="$x%d"' % (i, i % 3), 120, ' '),
                      x0='p', x1=NONE, x2='<'), \
        '<d%s/>' % seq(lambda i: ('' if i % 3 == 1 else
                                  ' a%03d="%s"' % (i, ('p', '', '&lt;')[i % 3])), 120)


@scale('C03')
def attrs():
    pairs = [('k%03d' % i, (Const('v%d' % i), NONE, Const('<'), Const(i))[i % 4])
             for i in range(160)]
    out = ''.join(' %s="%s"' % (k, '&lt;' if v.v == '<' else v.v)
                  for k, v in pairs if v is not NONE)
    yield 'dict', src('<d py:attrs="a"/>', a=lambda: DictO(
        {Const(k): v for k, v in reversed(pairs)})), '<d%s/>' % out
    yield 'pairs', src('<d py:attrs="a"/>', a=lambda: ListO(
        [Tup([Const(k), v]) for k, v in reversed(pairs)])), '<d%s/>' % out
    yield 'loop', src('<d><py:for each="i in range(400)"><p py:attrs="{\'i\': i}"/></py:for></d>'), \
        '<d>%s</d>' % seq(lambda i: '<p i="%d"/>' % i, 400)


@scale('C04')
def elements():
    deep = seq(lambda i: '<e%d>' % i, 60) + '<br/>' + \
        ''.join('</e%d>' % i for i in reversed(range(60)))
    yield 'deep', src(deep), deep
    wide = '<d>%s</d>' % seq(lambda i: '<e%d a="%d">t%d</e%d><p/>' % (i, i, i, i), 250)
    yield 'wide', src(wide), wide
    yield 'html', lambda cx: cx.src('<d>%s</d>' % ('<br/><p/>' * 200), opts=dict(
        mode=Const('html'))), '<d>%s</d>' % ('<br><p></p>' * 200)
    n = 'n' * 300
    yield 'name', src('<%s><%s/></%s>' % (n, n, n)), '<%s><%s/></%s>' % (n, n, n)


@scale('C05')
def strip():
    yield 'many', src('<d>%s</d>' % seq(lambda i: '<e py:strip="x%d">%d</e>' % (i % 2, i), 120),
                      x0=TRUE, x1=FALSE), \
        '<d>%s</d>' % seq(lambda i: ('<e>%d</e>' if i % 2 else '%d') % i, 120)
    yield 'deep', src('<d>%sz%s</d>' % (seq(lambda i: '<e%d py:strip="x">' % i, 40), ''.join(
        '</e%d>' % i for i in reversed(range(40)))), x=TRUE), '<d>z</d>'


@scale('C08')
def control():
    yield 'for', src('<d><py:for each="i in range(1500)">$i,</py:for></d>'), \
        '<d>%s</d>' % seq(lambda i: '%d,' % i, 1500)
    yield 'nested-for', src('<d><py:for each="i in range(30)"><py:for each="j in range(30)">'
                            '<b py:if="i == j">$i</b></py:for></py:for></d>'), \
        '<d>%s</d>' % seq(lambda i: '<b>%d</b>' % i, 30)
    cases = seq(lambda i: '<py:case value="%d">c%d</py:case>' % (i, i), 60)
    for v, w in ((0, 'c0'), (31, 'c31'), (59, 'c59'), (60, 'e')):
        yield 'switch-%d' % v, src('<d><py:switch test="v">%s<py:else>e</py:else></py:switch></d>'
                                   % cases, v=Const(v)), '<d>%s</d>' % w
    yield 'ifs', src('<d>%s</d>' % seq(lambda i: '<py:if test="v == %d">%d</py:if><py:else>.'
                                       '</py:else>' % (i, i), 80), v=Const(70)), \
        '<d>%s70%s</d>' % ('.' * 70, '.' * 9)
    yield 'switches', src('<d><py:for each="i in range(200)"><py:switch test="i % 3">'
                          '<py:case value="0">a</py:case><py:case value="1">'
                          '<py:switch test="i % 2"><py:case value="0">b</py:case>'
                          '<py:else>c</py:else></py:switch></py:case><py:else>d</py:else>'
                          '</py:switch></py:for></d>'), \
        '<d>%s</d>' % seq(lambda i: 'a' if i % 3 == 0 else 'd' if i % 3 == 2 else
                          'b' if i % 2 == 0 else 'c', 200)


@scale('C09')
def with_():
    yield 'deep', src('<d><py:with vars="v=0">%s[$v]%s[$v]</py:with></d>' % (
        seq(lambda i: '<py:with vars="v=v+1">', 60), '</py:with>' * 60)), '<d>[60][0]</d>'
    yield 'vars', src('<d py:with="%s">$v0,$v50,$v99</d>' % seq(
        lambda i: 'v%d=%d' % (i, i), 100, ';')), '<d>0,50,99</d>'
    yield 'loop', src('<d py:with="v=0"><py:for each="i in range(300)"><py:with vars="v=i">$v,'
                      '</py:with></py:for>[$v]</d>'), \
        '<d>%s[0]</d>' % seq(lambda i: '%d,' % i, 300)


@scale('C10')
def functions():
    yield 'many', src('<d>%s%s</d>' % (
        seq(lambda i: '<py:def function="f%d(a)">$a%d,</py:def>'.replace('$a%d', '${a}-%d')
            % (i, i), 120), seq(lambda i: '${f%d(%d)}' % (i, i * 2), 120))), \
        '<d>%s</d>' % seq(lambda i: '%d-%d,' % (i * 2, i), 120)
    yield 'recursive', src('<d><py:def function="f(n)">$n,<py:if test="n">${f(n-1)}</py:if>'
                           '</py:def>${f(60)}</d>'), \
        '<d>%s</d>' % ''.join('%d,' % i for i in range(60, -1, -1))
    yield 'calls', src('<d><py:def function="f(a)">$a,</py:def><py:for each="i in range(500)">'
                       '${f(i)}</py:for></d>'), '<d>%s</d>' % seq(lambda i: '%d,' % i, 500)
    yield 'parameters', src('<d><py:def function="f(%s)">$p0,$p39</py:def>${f(%s)}</d>' % (
        seq(lambda i: 'p%d' % i, 40, ', '), seq(str, 40, ', '))), '<d>0,39</d>'


@scale('C11')
def chain():
    n = 25
    files = {'t0.xml': '<d><py:block name="b">0</py:block>|<py:block name="k">k</py:block></d>'}
    for i in range(1, n):
        files['t%d.xml' % i] = '<py:extends href="t%d.xml"><py:block name="b">' \
            '${parent_block()}%d</py:block></py:extends>' % (i - 1, i)
    yield 'deep', ld(files, 't%d.xml' % (n - 1)), '<d>%s|k</d>' % seq(str, n)
    base = '<d>%s</d>' % seq(lambda i: '<py:block name="b%d">%d,</py:block>' % (i, i), 80)
    child = '<py:extends href="b.xml">%s</py:extends>' % seq(
        lambda i: '<py:block name="b%d">new</py:block>' % i if i % 2 else '', 80)
    yield 'wide', ld({'b.xml': base, 'a.xml': child}), \
        '<d>%s</d>' % seq(lambda i: 'new' if i % 2 else '%d,' % i, 80)


@scale('C12')
def includes():
    n = 30
    files = {'t%d.xml' % i: '<p>%d<py:include href="t%d.xml"/></p>' % (i, i + 1)
             for i in range(n)}
    files['t%d.xml' % n] = '<z/>'
    yield 'deep', ld(files, 't0.xml'), seq(lambda i: '<p>%d' % i, n) + '<z/>' + '</p>' * n
    yield 'many', ld({'a.xml': '<d><py:for each="i in range(120)"><py:include href="b.xml"/>'
                               '</py:for></d>', 'b.xml': '<b>$x</b>'}, x='v'), \
        '<d>%s</d>' % ('<b>v</b>' * 120)
    files = {'m%d.xml' % i: '<r><py:def function="f(a)">%d$a,</py:def></r>' % i
             for i in range(40)}
    files['a.xml'] = '<d>%s%s</d>' % (
        seq(lambda i: '<py:import href="m%d.xml"/>' % i, 40),
        seq(lambda i: '${m%d.f(x)}' % i, 40))
    yield 'imports', ld(files, x='v'), '<d>%s</d>' % seq(lambda i: '%dv,' % i, 40)


@scale('C13')
def renders():
    def run(cx):
        t = cx.lab.compile('<d a="$x" py:with="v=x"><py:switch test="x"><py:case value="3">three'
                           '</py:case><py:else>$v</py:else></py:switch></d>')
        return cat(Const(''), *[cx.render(t, x=Const(i % 5)) for i in range(60)])
    yield 'many', run, seq(lambda i: '<d a="%d">%s</d>' % (
        i % 5, 'three' if i % 5 == 3 else i % 5), 60)


@scale('C14')
def cache():
    def run(cx):
        n = 150
        loader = cx.files({'t%d.xml' % i: '<t>%d</t>' % i for i in range(n)},
                          reload=Const(cx.pick('reload', (True, False))))
        a = [cx.load(loader, 't%d.xml' % i) for i in range(n)]
        k = sum(1 for e in cx.ip.events if e.kind == 'exec')
        for i in range(n):
            if cx.load(loader, 't%d.xml' % i) is not a[i]:
                raise Finding('with %d templates loaded, an unchanged one is not the same' % n)
        if sum(1 for e in cx.ip.events if e.kind == 'exec') != k:
            raise Finding('an unchanged file is compiled again')
        return cat(Const(''), *[cx.render(t) for t in a])
    yield 'many', run, seq(lambda i: '<t>%d</t>' % i, 150)


@scale('C17')
def static():
    t = LONG.strip()
    yield 'text', src('<d>%s</d>' % t), '<d>%s</d>' % t
    yield 'entities', src('<d>%s</d>' % ('x&lt;&amp;&eacute;' * 400)), \
        '<d>%s</d>' % ('x&lt;&amp;\xe9' * 400)
    yield 'comments', src('<d>%s</d>' % seq(lambda i: '<!--c%d-->t%d' % (i, i), 150)), \
        '<d>%s</d>' % seq(lambda i: '<!-- c%d -->t%d' % (i, i), 150)
    yield 'cdata', src('<d>%s</d>' % seq(lambda i: '<![CDATA[<%d>]]>t' % i, 120)), \
        '<d>%s</d>' % seq(lambda i: '<![CDATA[<%d>]]>t' % i, 120)
    lines = seq(lambda i: '  line %d \n' % i, 800)
    yield 'lines', src('<d>%s</d>' % lines), '<d>%s</d>' % lines


@scale('C18')
def script():
    t = 'if (a < b && c > d) { "x" }\n' * 900
    yield 'xml', lambda cx: cx.src('<d><script><![CDATA[%s]]></script></d>' % t), \
        '<d><script>/*<![CDATA[*/%s/*]]>*/</script></d>' % t
    yield 'html', lambda cx: cx.src('<d><style><![CDATA[%s]]></style></d>' % t, opts=dict(
        mode=Const('html'))), '<d><style>%s</style></d>' % t
    yield 'many', lambda cx: cx.src('<d>%s</d>' % ('<script>a $x</script>' * 100), x='<v>',
                                    opts=dict(mode=Const('html'))), \
        '<d>%s</d>' % ('<script>a &lt;v&gt;</script>' * 100)


@scale('C22')
def stream():
    def chunks(source, **ctx):
        def run(cx):
            t = cx.lab.compile(source)
            a = cx.render(t, **ctx)
            it, out, end = cx.ip.get_iter(cx.lab.call(t, cx.ctx(**ctx))), [], Const(Ellipsis)
            while True:
                v = cx.ip.next_(it, end)
                if v is end:
                    break
                out.append(v)
            return cat(a, Const('|'), *out)
        return run
    w = '<d>%s</d>' % seq(lambda i: '%d,' % i, 5000)
    yield 'chunks', chunks('<d><py:for each="i in range(5000)">$i,</py:for></d>'), w + '|' + w
    w = '<d>%s%s</d>' % (seq(lambda i: '(%d' % (80 - i), 81), ')' * 81)
    yield 'nested', chunks('<d><py:def function="f(n)">($n<py:if test="n">${f(n-1)}</py:if>)'
                           '</py:def>${f(80)}</d>'), w + '|' + w
    w = '<d a="%s"/>' % ('(' * 71 + ')' * 71)
    yield 'nested-attribute', chunks('<d><py:def function="f(n)">(<py:if test="n">${f(n-1)}'
                                     '</py:if>)</py:def><d a="${f(70)}"/></d>'), \
        '<d>%s</d>|<d>%s</d>' % (w, w)
    yield 'nones', chunks('<d><py:for each="i in range(1200)">${None if i % 2 else i},'
                          '</py:for></d>'), \
        '|'.join(['<d>%s</d>' % seq(lambda i: ',' if i % 2 else '%d,' % i, 1200)] * 2)


@scale('C23')
def text_():
    yield 'lines', text(seq(lambda i: 'line %d $x\n' % i, 300), x='v'), \
        seq(lambda i: 'line %d v\n' % i, 300)
    yield 'long', text(LONG + '${x}' + LONG, x='v'), LONG + 'v' + LONG
    yield 'loop', text('%for i in range(900)\n$i,\n%end\n'), seq(lambda i: '%d,\n' % i, 900)
    yield 'tags', text(seq(lambda i: '%%if x == %d\nyes%d\n%%else\nno\n%%end\n' % (i, i), 60),
                       x=Const(41)), seq(lambda i: 'yes41\n' if i == 41 else 'no\n', 60)


@scale('C25')
def names():
    yield 'many', src('<d>%s</d>' % seq(lambda i: '$v%d,' % i, 250),
                      **{'v%d' % i: Const(i) for i in range(250)}), \
        '<d>%s</d>' % seq(lambda i: '%d,' % i, 250)
    n = 'v' * 200
    yield 'long', src('<d>$%s,$%s</d>' % (n, n + 'w'), **{n: 'a', n + 'w': 'b'}), '<d>a,b</d>'


@scale('C26')
def names_():
    yield 'attributes', src('<d>%s</d>' % seq(lambda i: '<e a="$x" b="$x" py:attrs="y"/>', 90),
                            x='v', y=lambda: DictO({Const('c'): Const('w')})), \
        '<d>%s</d>' % ('<e a="v" b="v" c="w"/>' * 90)
    yield 'nested-with', src('<d>%s%s</d>' % (
        seq(lambda i: '<py:for each="i in [1]"><e py:with="k=i"><py:switch test="k">'
            '<py:case value="1">', 12), '</py:case></py:switch></e></py:for>' * 12)), \
        '<d>%s%s</d>' % ('<e>' * 12, '</e>' * 12)
    yield 'calls', src('<d><py:def function="f(c)">${c(1)}</py:def>%s</d>' % seq(
        lambda i: '<py:call args="a" function="f(%%caller)">$a-%d,</py:call>' % i, 90)), \
        '<d>%s</d>' % seq(lambda i: '1-%d,' % i, 90)


@scale('C28')
def blocks():
    yield 'many', src('<d>%s</d>' % seq(lambda i: '<py:block name="b%d">%d,</py:block>' % (i, i),
                                        150)), '<d>%s</d>' % seq(lambda i: '%d,' % i, 150)
    yield 'deep', src('<d>%s%s</d>' % (seq(lambda i: '<py:block name="b%d">(' % i, 50),
                                       ')</py:block>' * 50)), '<d>%s%s</d>' % ('(' * 50, ')' * 50)


@scale('C29')
def expressions():
    e = '+'.join(['{1: 2}[1]'] * 120)
    yield 'long', src('<d>[${%s}]</d>' % e), '<d>[240]</d>'
    yield 'many', src('<d>%s</d>' % ("${{'a': '}'}['a']}," * 100)), '<d>%s</d>' % ('},' * 100)
    yield 'text', text("${{'a': '}'}['a']}," * 60), '},' * 60
    yield 'deep', src('<d>${%s1%s}</d>' % ('[' * 30, ']' * 30 + '[0]' * 30)), '<d>1</d>'
    yield 'lines', src('<d>[${(1 +\n%s 1)}]</d>' % ('1 +\n' * 150)), '<d>[152]</d>'
