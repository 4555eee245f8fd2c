"""C13 -- rendering has no side effects on templates, context or other renders."""
from ..check import *

RULE = ('no statement reachable from instantiating and rendering a template writes to an '
        'object that existed before, except a memo attribute or entry set for the first time; and the '
        'output of a render does not depend on renders before it or interleaved with it')
VARIANTS = ('frag',)
MIN = {'quick': 60}

LIB = '<r><py:def function="f(q)">(<i>$q</i>$x)</py:def></r>'
DOCS = {
    'text': '<d>a $x b ${y} c</d>',
    'attributes': '<d a="$x" b="1${y}2" c="k"><e py:attrs="m">$x</e></d>',
    'strip': '<d><b py:strip="x is None" a="$x">t</b></d>',
    'content': '<d><b py:content="x">t</b><b py:replace="y"/></d>',
    'if': '<d><b py:if="x is None">1</b><b py:else="">2$x</b></d>',
    'for': '<d><b py:for="i in l">$i$x</b></d>',
    'with': '<d>$x<py:with vars="x=y;z=x">[$x$z<py:with vars="x=1">$x</py:with>$x]</py:with></d>'
    .replace('<d>$x', '<d>'),
    'switch': '<d><py:switch test="x is None"><py:case value="True">1<py:switch test="y">'
              '<py:case value="2">3</py:case><py:else>4</py:else></py:switch></py:case>'
              '<py:else>2$x</py:else></py:switch></d>',
    'def': '<d><py:def function="f(q, k=3)"><py:def function="g(z)">$z$q$k</py:def>${g(x)}</py:def>'
           '${f(x)}${f(y, 4)}${f(x)}</d>',
    'call': '<d><py:def function="f(c)">{${c(x)}${c(1)}}</py:def>'
            '<py:call args="q" function="f(%caller)">$q$y</py:call></d>',
    'code': '<d><?py z = [x]\nz.append(y)?>${z[0]}${len(z)}<?py % k = 5 ?>$k</d>',
    'block': '<d><py:block name="k">[$x]</py:block>${y}</d>',
    'markup': '<d>${literal(x)}${m2}${m2}</d>',
    'script': '<d><script>a $x <![CDATA[ b ]]></script></d>',
    'comment': '<d><!-- c --><!-- $x -->t&nbsp;$x</d>',
    'helpers': '<d>${defined("x")}${value_of("x", 1)}${value_of("nope", y)}</d>',
    'i18n': '<d>Hello ${_(gettext("w"))} world <b>$x</b></d>',
    'include': '<d><py:include href="b.xml"/>$x<py:include href="b.xml"/></d>',
    'import': '<d><py:import href="lib.xml"/>${lib.f(x)}<py:import href="lib.xml" alias="m"/>'
              '${m.f(y)}</d>',
    'extends': '<py:extends href="p.xml"><py:block name="k">C$x${parent_block()}</py:block>'
               '<py:def function="h()">H$y</py:def></py:extends>',
    'extends2': '<py:extends href="m.xml"><py:block name="j">J$x${parent_block()}</py:block></py:extends>',
}
OTHER = {
    'b.xml': '<b py:with="z=x">$z<py:def function="bf()">$y</py:def>${bf()}</b>',
    'lib.xml': LIB,
    'p.xml': '<r><py:def function="h()">P</py:def><py:block name="k">K$x</py:block>'
             '<py:block name="j">J</py:block>${h()}${self.h()}</r>',
    'm.xml': '<py:extends href="p.xml"><py:block name="k">M$y</py:block></py:extends>',
}
TEXTS_ = {
    'text': 'a $x ${y}\n%for i in l\n$i$x\n%end\n{%def f(q)%}[$q]{%end%}${f(x)}',
    'switch': '%switch y\n%case 2\nA$x\n%else\nB\n%end\n',
    'include': '{%include "t.txt"%}{%import "t.txt" as t%}${t.f(x)}',
}
TOTHER = {'t.txt': '<$x>{%def f(q)%}($q){%end%}'}


def context(cx, n, kinds):
    """a fresh context with mutable values"""
    x = cx.dyn('x%d' % n, kinds)
    return cx.ctx(x=x, y=Const(n + 1), l=ListO([Const(1), Const(n)]),
                  m=DictO({Const('a'): Const(n), Const('b'): NONE}),
                  m2=cx.lab.call(cx.lab.get('kajiki.template.literal'), Const('<u>%d</u>' % n)))


def reach(o, seen):
    """heap objects reachable from o"""
    todo = [o]
    while todo:
        o = todo.pop()
        if id(o) in seen or not isinstance(o, (HObj, Tup)):
            continue
        seen[id(o)] = o
        if type(o) is DictO:
            todo += list(o.d.values()) + list(o.attrs.values())
        elif type(o) is ListO or type(o) is Tup:
            todo += [x for x in o.items if isinstance(x, V)]
        elif type(o) is Obj:
            todo += list(o.attrs.values())
    return seen


def namespace(d):
    return any(Const(k) in d.d for k in ('__builtins__', '__name__', 'kajiki', 'local'))


def written(cx, r):
    for o, what, prior, loc, where in r.writes:
        if id(o) in cx.ctxobjs:
            raise Finding('rendering changes the context or a value in it (%s)' % what,
                          where='%s %s' % (where, loc))
        if prior is None and isinstance(what, str) and type(o) in (Obj, ClassO, FuncO):
            continue        # a memo that did not exist before
        if prior is None and isinstance(what, V) and type(o) is DictO and not namespace(o):
            continue        # an entry of a memo: the other cases judge what it does
        if isinstance(prior, Const) and prior.v is None:
            continue
        raise Finding('rendering changes shared state: %r (%s)' % (o, what),
                      where='%s %s' % (where, loc))


def load(cx, key, text):
    if text:
        ld = cx.files(dict({'a.txt': TEXTS_[key]}, **TOTHER))
        names = ['t.txt', 'a.txt']
    else:
        ld = cx.files(dict({'a.xml': DOCS[key]}, **OTHER))
        names = list(OTHER) + ['a.xml']
    for n in names:
        if n in names[:-1]:
            t = cx.lab.m(ld, 'load', Const(n), is_fragment=TRUE)
        else:
            t = cx.load(ld, n)
    return t


def check(c):
    kinds = ('str', 'none', 'markup') if c.tier == 'thorough' else ('str', 'none')
    for text, docs in ((False, DOCS), (True, TEXTS_)):
        pre = 'text/' if text else ''
        for key in docs:
            # effects of one render
            def run(cx, key=key, text=text):
                t = load(cx, key, text)
                ctx = context(cx, 1, kinds)
                cx.ctxobjs = reach(ctx, {})
                cx.ip.watch_n = HObj._n
                out = cx.render(t, ctx)
                cx.ip.watch_n = None
                return out
            c.case('effects/%s%s' % (pre, key), run, judge=written, rule=RULE)

            # one after the other: A, B, A again
            def run(cx, key=key, text=text):
                t = load(cx, key, text)
                a = context(cx, 1, kinds)
                first = cx.render(t, a)
                cx.render(t, context(cx, 2, ('str', 'none')))
                cx.other = first
                return cx.render(t, a)
            c.case('again/%s%s' % (pre, key), run, lambda cx: cx.other, rule=RULE)

            def run(cx, key=key, text=text):
                t = load(cx, key, text)
                # reference from a template compiled separately
                b = context(cx, 2, ('str', 'none'))
                cx.other = cx.render(load(cx, key, text), b)
                cx.render(t, context(cx, 1, kinds))
                return cx.render(t, b)
            c.case('after/%s%s' % (pre, key), run, lambda cx: cx.other, rule=RULE)

            # interleaved piece by piece
            def run(cx, key=key, text=text):
                t = load(cx, key, text)
                a, b = context(cx, 1, kinds[:2]), context(cx, 2, ('str', 'none'))
                cx.other = cat(cx.render(t, a), '|', cx.render(t, b)) if False else \
                    [cx.render(t, a), Const('|'), cx.render(t, b)]
                ip = cx.ip
                its = [ip.get_iter(cx.lab.call(t, k)) for k in (a, b)]
                outs = [[], []]
                end = Const(Ellipsis)
                live = [0, 1]
                while live:
                    for i in list(live):
                        v = ip.next_(its[i], end)
                        if v is end:
                            live.remove(i)
                        else:
                            outs[i].append(v)
                return cat(*outs[0], Const('|'), *outs[1])
            c.case('interleaved/%s%s' % (pre, key), run, lambda cx: cx.other, rule=RULE)

    # abandoned half way, then rendered again
    for key in ('with', 'switch', 'def', 'call', 'extends'):
        def run(cx, key=key):
            t = load(cx, key, False)
            a = context(cx, 1, kinds)
            cx.other = cx.render(t, a)
            it = cx.ip.get_iter(cx.lab.call(t, context(cx, 2, ('str',))))
            end = Const(Ellipsis)
            for _ in range(cx.pick('pieces', (1, 2))):
                cx.ip.next_(it, end)
            return cx.render(t, a)
        c.case('abandoned/' + key, run, lambda cx: cx.other, rule=RULE)

    # the same instance rendered twice
    for key in ('text', 'attributes', 'for', 'switch', 'with', 'def', 'include', 'extends'):
        def run(cx, key=key):
            t = load(cx, key, False)
            i = cx.lab.call(t, context(cx, 1, kinds))
            cx.other = cx.lab.m(i, 'render')
            return cx.lab.m(i, 'render')
        c.case('instance/' + key, run, lambda cx: cx.other, rule=RULE)

    # two templates of one loader do not influence one another
    def run(cx):
        ld = cx.files({'a.xml': DOCS['def'], 'b.xml': DOCS['with'], 'c.xml': DOCS['switch']})
        ts = [cx.load(ld, n + '.xml') for n in 'abc']
        a = context(cx, 1, kinds)
        cx.other = cx.render(ts[0], a)
        for t in ts[1:]:
            cx.render(t, a)
        return cx.render(ts[0], a)
    c.case('other-templates', run, lambda cx: cx.other, rule=RULE)

    # no context at all
    def run(cx):
        t = cx.lab.compile('<d><?py % k = 5 ?>${defined("x")}<py:with vars="x=1">$x</py:with>$k</d>')
        a = cx.lab.m(cx.lab.call(t), 'render')
        b = cx.lab.m(cx.lab.call(t, cx.ctx(x=Const(7))), 'render')
        return cat(a, Const('|'), b, Const('|'), cx.lab.m(cx.lab.call(t), 'render'))
    c.case('no-context', run, '<d>False15</d>|<d>True15</d>|<d>False15</d>', rule=RULE)
