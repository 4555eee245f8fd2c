"""C22 -- output is streamed in order; nested output is flattened, None dropped."""
from ..check import *
from ..interp import PyExc
from . import c13

RULE = ('iterating a template yields str pieces, never None, whose concatenation is render(); '
        'whenever an expression is evaluated, the pieces handed out so far are exactly the '
        'output before it')
VARIANTS = ('frag',)
MIN = {'quick': 160}

# f(k) stands for [k] in the output and notes what was handed out when it is called;
# g(k) notes the same and is None; h(k) in an attribute
LAZY = {
    'text': '<d>a ${f(1)} b ${f(2)}${f(3)} c<e>${f(4)}</e></d>',
    'none': '<d>a ${g(1)}b${f(1)}${g(2)}${f(2)}</d>',
    'root': '<d>${f(1)}</d>',
    'literal': '<d>a${literal(f(1))}b${f(2)}</d>',
    'content': '<d>a<b py:content="f(1)"/>c<b py:replace="f(2)"/>${f(3)}</d>',
    'if': '<d>a<py:if test="t(1)">b${f(1)}</py:if><b py:if="t(2)">${f(2)}</b>${f(3)}</d>',
    'else': '<d>a<py:if test="not t(1)">b${f(1)}</py:if><py:else>c${f(2)}</py:else>${f(3)}</d>',
    'for': '<d>a<py:for each="i in s">b${f(i)}c</py:for>${f(9)}</d>',
    'for-tag': '<d>a<u py:for="i in s"><i>$i</i>${f(i)}</u>d${f(9)}</d>',
    'for-nested': '<d><py:for each="i in (1, 2)"><py:for each="j in (3, 4)">${f(10 * i + j)}'
                  '</py:for>x${f(i)}</py:for></d>',
    'switch': '<d>a<py:switch test="v(1)">\n<py:case value="v(2)">b${f(2)}</py:case>'
              '<py:case value="v(1)">c${f(1)}</py:case>'
              '<py:else>e</py:else></py:switch>${f(3)}</d>',
    'with': '<d>a${f(1)}<py:with vars="z=v(7)">b${f(2)}$z</py:with>c${f(3)}</d>',
    'def': '<d><py:def function="m(q)">p${f(q)}r</py:def>a${m(1)}b${m(2)}${f(3)}</d>',
    'def-nested': '<d><py:def function="m(q)">p${n(q)}${f(10 + q)}r</py:def>'
                  '<py:def function="n(q)">s${f(q)}t</py:def>a${m(1)}b${m(2)}${f(3)}</d>',
    'def-deep': '<d><py:def function="m(q)">(<py:if test="q">${f(q)}${m(q - 1)}${f(10 + q)}</py:if>)'
                '</py:def>a${m(4)}b${f(30)}</d>',
    'def-inner': '<d><py:def function="m(q)"><py:def function="n()">p${f(q)}</py:def>x${n()}y'
                 '</py:def>a${m(1)}${m(2)}b</d>',
    'def-value': '<d><py:def function="m(q)">p${f(q)}r</py:def><?py z = m(1) ?>a${f(5)}$z${f(6)}</d>',
    'call': '<d><py:def function="m(c)">x${c(1)}y${f(5)}${c(2)}z</py:def>a'
            '<py:call args="q" function="m(%caller)">b${f(q)}c</py:call>${f(9)}</d>',
    'block': '<d>a<py:block name="k">b${f(1)}</py:block>${f(2)}</d>',
    'pi': '<d>a<?py z = v(1) ?>b${f(1)}$z<?py z = v(2) ?>${f(2)}</d>',
    'comment': '<d>a<!-- c -->${f(1)}<!-- e -->${f(2)}</d>',
    'i18n': '<d>Hello ${f(1)} world <b>again</b>${f(2)} bye</d>',
    'script': '<d><script>a ${f(1)} <![CDATA[ b ]]>${f(2)}</script><style>${f(3)}</style></d>',
    'void': '<d><br/>${f(1)}<hr/>${f(2)}</d>',
    'strip': '<d>a<b py:strip="t(1)">${f(1)}</b>${f(2)}</d>',
    'include': '<d>a${f(1)}<py:include href="b.xml"/>${f(2)}</d>',
    'import': '<d>a${f(1)}<py:import href="l.xml" alias="l"/>${l.n(2)}${f(3)}</d>',
    'extends': '<py:extends href="p.xml"><py:block name="k">C${f(1)}${parent_block()}${f(2)}'
               '</py:block></py:extends>',
    'extends-twice': '<py:extends href="m.xml"><py:block name="j">J${f(1)}${parent_block()}${f(2)}'
                     '</py:block></py:extends>',
    'attributes': '<d a="x">b<e a="${h(1)}" b="1${h(2)}">c${f(1)}</e>${f(2)}</d>',
    'attributes-py': '<d>b<e py:attrs="dict(k=h(1))">c${f(1)}</e>${f(2)}<e c="$u" a="${h(2)}"/></d>',
}
OTHER = {
    'b.xml': '<b>i${f(11)}<i py:for="j in (12, 13)">${f(j)}</i></b>',
    'l.xml': '<l><py:def function="n(q)">n${f(q)}${f(10 + q)}</py:def></l>',
    'p.xml': '<p>A${f(21)}<py:block name="k">K${f(22)}</py:block>B<py:block name="j">${f(23)}</py:block>'
             '${f(24)}</p>',
    'm.xml': '<py:extends href="p.xml"><py:block name="k">M${f(31)}</py:block></py:extends>',
}
TLAZY = {
    'text': 'a ${f(1)} b ${f(2)}${f(3)}\nc',
    'none': 'a ${g(1)}b${f(1)}${g(2)}',
    'for': 'a\n%for i in s\nb${f(i)}c\n%end\n${f(9)}',
    'if': 'a{%if t(1)%}b${f(1)}{%else%}x{%end%}${f(2)}',
    'def': '{%def m(q)%}p${f(q)}r{%end%}a${m(1)}b${m(2)}${f(3)}',
    'escapes': 'a${f(1)}\\\nb${f(2)}$$${f(3)}',
    'switch': 'a{%switch v(1)%}{%case v(2)%}b{%case v(1)%}${f(1)}{%end%}${f(2)}',
    'include': 'a${f(1)}{%include "t.txt"%}${f(2)}',
    'extends': '{%extends "q.txt"%}{%block k%}C${f(1)}{%end%}',
}
TOTHER = {'t.txt': 'i${f(11)}j${f(12)}',
          'q.txt': 'A${f(21)}{%block k%}K{%end%}B${f(22)}'}


class Tap:
    """the pieces handed out, and the checks at every evaluation"""
    def __init__(self, cx):
        self.cx, self.ip = cx, cx.ip
        self.out = []
        self.seen = []

    def now(self):
        return norm(self.ip, cat(*self.out)) if self.out else Const('')

    def fn(self, name, value, kind):
        def call(ip, a, kw):
            k = ip.resolve(a[0])
            if type(k) is not Const:
                raise Unsupported('unknown mark')
            self.seen.append((kind, k.v, self.now()))
            return value(k.v)
        return Native(name, call)

    def context(self, **kw):
        cx = self.cx

        def advance(ip, n):
            if n.v > 3:
                return NONE
            self.seen.append(('next', n.v, self.now()))
            return TRUE
        cx.ip.config['hooks'] = dict(cx.ip.config['hooks'], **{'source.next': advance})
        src = cx.lab.call(cx.kinds['Source']) if 'Source' in cx.kinds else \
            cx.lab.call(cx.lab.get('kjsa_values.Source'))
        return cx.ctx(f=self.fn('f', lambda k: Const('[%s]' % k), 'value'),
                      g=self.fn('g', lambda k: NONE, 'none'),
                      h=self.fn('h', lambda k: Const('(%s)' % k), 'attribute'),
                      t=self.fn('t', lambda k: TRUE, 'test'),
                      v=self.fn('v', lambda k: Const(k), 'test'), s=src, u=Const('U'), **kw)

    def pull(self, inst, stop=None):
        it = self.ip.get_iter(inst)
        end = Const(Ellipsis)
        while stop is None or len(self.out) < stop:
            v = self.ip.next_(it, end)
            if v is end:
                return
            self.out.append(piece(self.ip, v))


def piece(ip, v):
    v = ip.resolve(v)
    if v == NONE:
        raise Finding('None is handed out as a piece of the output')
    if not is_str(v):
        if isinstance(v, (HObj, Tup)) or type(v) is Const:
            raise Finding('a piece of the output is no text: %s' % describe(ip, v))
        raise Unsupported('piece of unknown type')
    return v


def text(ip, v, what):
    v = norm(ip, v)
    if type(v) is not Const:
        raise Unsupported(what)
    return v.v


def lazily(cx, tap, whole):
    """every evaluation happened when exactly the output before it was handed out"""
    whole = text(cx.ip, whole, 'output not known')
    pos = {}
    for kind, k, out in tap.seen:
        out = text(cx.ip, out, 'pieces not known')
        if not whole.startswith(out):
            raise Finding('pieces do not come in the order of the output')
        if kind == 'value':
            m = '[%s]' % k
            at = whole.find(m, pos.get(m, 0))
            pos[m] = at + 1
            if at < 0:
                raise Finding('the value of an expression is not in the output')
            if len(out) < at:
                raise Finding('f(%s) is evaluated when only %r of the output before it, %r, was '
                              'handed out' % (k, out, whole[:at]))
            if len(out) > at:
                raise Finding('f(%s) is evaluated after output that follows it was handed out' % k)
        elif kind == 'attribute':
            m = '(%s)' % k
            at = whole.rfind('<', 0, whole.find(m))
            if len(out) < at:
                raise Finding('the attribute expression h(%s) is evaluated when only %r of the '
                              'output before its element, %r, was handed out' % (
                                  k, out, whole[:at]))


def check(c):
    def load(cx, src, other, ext='xml', **opts):
        ld = cx.files(dict(other, **{'a.' + ext: src}), **opts)
        return cx.load(ld, 'a.' + ext)

    docs = [('', k, s, OTHER, 'xml', {}) for k, s in LAZY.items()] + \
        [('html-', k, s, OTHER, 'xml', {'force_mode': Const('html5')}) for k, s in LAZY.items()] + \
        [('text-', k, s, TOTHER, 'txt', {}) for k, s in TLAZY.items()] + \
        [('text-esc-', k, s, TOTHER, 'txt', {'autoescape_text': TRUE}) for k, s in TLAZY.items()]
    for pre, key, src, other, ext, opts in docs:
        def run(cx, src=src, other=other, ext=ext, opts=opts):
            t = load(cx, src, other, ext, **opts)
            tap = Tap(cx)
            tap.pull(cx.lab.call(t, tap.context()))
            if not any(k == 'value' for k, _, _ in tap.seen):
                raise Unsupported('no expression evaluated')
            ref = Tap(cx)
            whole = cx.render(t, ref.context())
            lazily(cx, tap, tap.now())
            if [x[:2] for x in tap.seen] != [x[:2] for x in ref.seen]:
                raise Finding('iterating and render() evaluate different expressions')
            cx.other = whole
            return tap.now()
        c.case('lazy/%s%s' % (pre, key), run, lambda cx: cx.other, rule=RULE)

        # an error in an expression comes after the output before it, and is the error
        def run(cx, src=src, other=other, ext=ext, opts=opts):
            t = load(cx, src, other, ext, **opts)
            ref = Tap(cx)
            whole = text(cx.ip, cx.render(t, ref.context()), 'output')
            marks = [k for kind, k, _ in ref.seen if kind == 'value']
            bad = cx.pick('bad', tuple(dict.fromkeys(marks)))
            cx.want = whole[:whole.index('[%s]' % bad)]
            tap = Tap(cx)

            def f(k):
                if k == bad:
                    cx.ip.raise_('LookupError', 'bad')
                return Const('[%s]' % k)
            ctx = tap.context()
            ctx.d[Const('f')] = tap.fn('f', f, 'value')
            try:
                tap.pull(cx.lab.call(t, ctx))
            except PyExc as e:
                if e.val.cls.name != 'LookupError':
                    raise
            else:
                raise Finding('the error raised by an expression is lost')
            return tap.now()

        c.case('error/%s%s' % (pre, key), run, lambda cx: cx.want, rule=RULE)

    # pieces are text and make up render(), for any values ----------------------------------
    kinds = ('str', 'none', 'markup', 'int')
    for pre, key, src, other, ext in \
            [('', k, s, c13.OTHER, 'xml') for k, s in c13.DOCS.items()] + \
            [('text-', k, s, c13.TOTHER, 'txt') for k, s in c13.TEXTS_.items()]:
        def run(cx, src=src, other=other, ext=ext):
            t = load(cx, src, other, ext)
            ctx = c13.context(cx, 1, kinds)
            cx.other = cx.render(t, ctx)
            tap = Tap(cx)
            tap.pull(cx.lab.call(t, ctx))
            return tap.now()
        c.case('pieces/%s%s' % (pre, key), run, lambda cx: cx.other, rule=RULE)

    # nesting ---------------------------------------------------------------------------------
    for n in (1, 2, 3, 5, 8) + ((13, 20) if c.tier == 'thorough' else ()):
        def run(cx, n=n):
            cx.v = cx.dyn('v', kinds)
            src = '<d>'
            for i in range(n):
                src += '<py:def function="m%d(q)">%s</py:def>' % (
                    i, '<i>$q</i>${None}' if i == 0 else '(${m%d(q)}$q${e()})' % (i - 1))
            src += '<py:def function="e()"></py:def>a${m%d(v)}b</d>' % (n - 1)
            t = cx.lab.compile(src)
            tap = Tap(cx)
            ctx = cx.ctx(v=cx.v)
            tap.pull(cx.lab.call(t, ctx))
            return tap.now()

        def want(cx, n=n):
            s = cx.v.text
            r = ['<i>', s, '</i>']
            for i in range(1, n):
                r = ['('] + r + [s, ')']
            return ['<d>a'] + r + ['b</d>']
        c.case('nested/%d' % n, run, want, rule=RULE)

        def run(cx, n=n):
            cx.v = cx.dyn('v', kinds)
            src = ''
            for i in range(n):
                src += '{%%def m%d(q)%%}%s{%%end%%}' % (
                    i, '<$q>${None}' if i == 0 else '(${m%d(q)}$q${e()})' % (i - 1))
            src += '{%%def e()%%}{%%end%%}a${m%d(v)}b' % (n - 1)
            t = cx.lab.call(cx.lab.get('kajiki.TextTemplate'), Const(src))
            tap = Tap(cx)
            tap.pull(cx.lab.call(t, cx.ctx(v=cx.v)))
            return tap.now()

        def want(cx, n=n):
            s = cx.v.raw
            r = ['<', s, '>']
            for i in range(1, n):
                r = ['('] + r + [s, ')']
            return ['a'] + r + ['b']
        c.case('nested-text/%d' % n, run, want, rule=RULE)

    # the flattener itself ---------------------------------------------------------------------
    try:
        F = c.lab.get('kajiki.util.flattener')
    except Exception:
        F = None
    if F is not None:
        TREES = [
            [], [None], ['x'], ['x', None, 'y'], [['x']], [[], ['x', []], None],
            [[['x', None], 'y'], 'z'], ['a', ['b', ['c', ['d', ['e'], 'f'], 'g'], 'h'], 'i'],
            [[[[]]]], [[None], [None, [None]]], [['x'], ['y'], ['z']],
        ]
        for i, tree in enumerate(TREES):
            for how in ('list', 'generator', 'wrapped'):
                def run(cx, tree=tree, how=how):
                    n = [0]
                    vals = []

                    def build(t):
                        items = []
                        for x in t:
                            if isinstance(x, list):
                                items.append(build(x))
                            elif x is None:
                                items.append(NONE)
                            else:
                                n[0] += 1
                                s = txt('%s%d' % (x, n[0]))
                                vals.append(s)
                                items.append(s)
                        v = ListO(items)
                        if how == 'generator':
                            v = cx.ip.get_iter(v)
                        r = cx.lab.call(F, v)
                        return cx.lab.call(F, r) if how == 'wrapped' else r
                    f = build(tree)
                    it, out, end = cx.ip.get_iter(f), [], Const(Ellipsis)
                    while True:
                        v = cx.ip.next_(it, end)
                        if v is end:
                            break
                        out.append(piece(cx.ip, v))
                    cx.vals = vals
                    a = cat(Const(''), *out)
                    vals0, n[0] = list(vals), 0
                    vals.clear()
                    b = cx.lab.m(build(tree), 'accumulate_str')
                    return cat(a, Const('|'), b)
                c.case('flattener/%d/%s' % (i, how), run,
                       lambda cx: list(cx.vals) + [Const('|')] + list(cx.vals), rule=RULE)
