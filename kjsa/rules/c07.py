"""C07 -- a directive means the same as an attribute and as an element."""
from ..check import *
from .c04 import tagsym

RULE = ('both spellings of a directive give the same output; directive attributes on '
        'one element nest in the fixed documented order, and none reaches the output')
VARIANTS = ('frag',)
MIN = {'quick': 60}

ORDER = ['def', 'call', 'case', 'else', 'for', 'if', 'switch', 'with', 'replace', 'block']
ATTR = {'def': 'function', 'call': 'function', 'case': 'value', 'else': '', 'for': 'each',
        'if': 'test', 'switch': 'test', 'with': 'vars', 'replace': 'value', 'block': 'name',
        'extends': 'href'}


def elem(d, value, *kids):
    return El('py:' + d, {ATTR[d]: value} if ATTR[d] else {}, *kids)


AROUND = {'alone': lambda e: [e], 'after a comment': lambda e: [Cm(' a '), e],
          'after two': lambda e: [Cm('! a'), Cm('b'), e], 'before a comment': lambda e: [e, Cm('c')]}


def around(cx, doc, key=None):
    """the document with comments outside its root element"""
    k = len(key) % 4 if key else None
    return AROUND[tuple(AROUND)[k] if k is not None else cx.pick('root', tuple(AROUND)[:2])](doc)


def check(c):
    # -- one directive: attribute on an element == element around it -------------
    def pair(key, d, value, wrap, **ctx):
        for strip in ('tag', 'nop'):
            def run(cx, strip=strip):
                tag = tagsym()
                kw = {k: v(cx) if callable(v) else v for k, v in ctx.items()}
                inner = lambda a: El(tag, dict(a, k='1'), Tx('t$x')) if strip == 'tag' \
                    else El('py:nop', a, Tx('t$x'))
                cx.other = cx.xml(El('d', {}, *wrap(elem(d, value, inner({})))), **kw)
                return cx.xml(*around(cx, El('d', {}, *wrap(inner({'py:' + d: value})))), **kw)
            c.case('forms/%s/%s' % (key, strip), run, lambda cx: cx.other, rule=RULE)

    x = lambda cx: cx.dyn('x', ('str', 'none', 'markup')).value
    b = lambda cx: Const(cx.pick('p', (True, False)))
    pair('if', 'if', 'p', lambda e: [Tx('['), e, Tx(']')], x=x, p=b)
    pair('for', 'for', 'x in xs', lambda e: [Tx('['), e, Tx(']')],
         xs=lambda cx: ListO([Sym('x%d' % i, 'str') for i in range(cx.pick('n', (0, 1, 2)))]),
         x=NONE)
    pair('with', 'with', 'x=y', lambda e: [Tx('$x'), e][1:], x=x,
         y=lambda cx: Sym('y', 'str'))
    pair('replace', 'replace', 'x', lambda e: [Tx('['), e, Tx(']')], x=x)
    pair('block', 'block', 'bk', lambda e: [Tx('['), e, Tx(']')], x=x)
    pair('def', 'def', 'f(x)', lambda e: [e, Tx('[${f(1)}|${f(y)}]')], x=x,
         y=lambda cx: Sym('y', 'str'))
    pair('else', 'else', '', lambda e: [El('py:if', {'test': 'p'}, Tx('T')), e], x=x, p=b)
    pair('case', 'case', '1', lambda e: [elem('switch', 'v', e, elem('else', '', Tx('E')))],
         x=x, v=lambda cx: Const(cx.pick('v', (1, 2))))
    # py:switch "cannot be placed on a tag", but on a py: element
    def run(cx):
        kw = dict(v=Const(cx.pick('v', (1, 2, 3))))
        kids = [elem('case', '1', Tx('a')), elem('case', '2', Tx('b')), elem('else', '', Tx('c'))]
        cx.other = cx.xml(El('d', {}, elem('switch', 'v', *kids)), **kw)
        return cx.xml(El('d', {}, El('py:nop', {'py:switch': 'v'}, *kids)), **kw)
    c.case('forms/switch/nop', run, lambda cx: cx.other, rule=RULE)

    # py:call takes its args attribute from the element
    def run(cx):
        kw = dict(x=cx.dyn('x', ('str', 'none', 'markup')))
        dn = elem('def', 'f(c)', Tx('[${c(1)}${c(x)}]'))
        cx.other = cx.xml(El('d', {}, dn, El('py:call', {'args': 'q', 'function': 'f(%caller)'},
                                             Tx('<$q>'))), **kw)
        return cx.xml(El('d', {}, dn, El('py:nop', {'args': 'q', 'py:call': 'f(%caller)'},
                                         Tx('<$q>'))), **kw)
    c.case('forms/call/nop', run, lambda cx: cx.other, rule=RULE)

    # -- several directives on one element -----------------------------------------
    VAL = {'for': 'i in xs', 'if': 'p', 'with': 'i=9', 'replace': 'i', 'block': 'bk',
           'def': 'f(i=3)', 'case': '7', 'else': '', 'call': 'g(%caller)', 'switch': 'i'}
    names = ('for', 'if', 'with', 'replace', 'block')

    def combo(ds, key, **extra):
        """attributes in the order ds (outermost first) and every rotation"""
        orders = [list(ds), list(reversed(ds))]
        if len(ds) == 3:
            orders += [[ds[1], ds[0], ds[2]], [ds[1], ds[2], ds[0]]]
        for n, o in enumerate(orders):
            def run(cx, o=o, n=n):
                kw = dict(xs=ListO([Const(1), Sym('s', 'str', excl='&<>"')]), i=Const(7),
                          p=Const(cx.pick('p', (True, False))))
                t = lambda a: El('u', dict(a, k='1'), Tx('t$i'))
                nested = t({})
                for d in reversed(ds):
                    nested = elem(d, VAL[d], nested)
                cx.other = cx.xml(El('d', {}, Tx('['), nested, Tx(']')), **kw)
                # dictionaries keep the order in which the attributes are written
                return cx.xml(*around(cx, El('d', {}, Tx('['), t({'py:' + d: VAL[d] for d in o}),
                                             Tx(']')), key + str(n) * n), **kw)
            c.case('nesting/%s/%d' % (key, n), run, lambda cx: cx.other, rule=RULE)

    for i, a in enumerate(names):
        for b_ in names[i + 1:]:
            if a == 'for' and b_ == 'block' or a == 'with' and b_ == 'block':
                pass
            combo([a, b_], a + '-' + b_)
    for t in (('for', 'if', 'with'), ('for', 'with', 'replace'), ('if', 'with', 'replace'),
              ('for', 'if', 'replace')):
        combo(list(t), '-'.join(t))

    # def outermost, and case/else before for/if/with
    for d in ('for', 'if', 'with', 'replace'):
        def run(cx, d=d):
            cx.p = cx.pick('p', (True, False))
            kw = dict(xs=ListO([Const(1), Const(2)]), i=Const(7), p=Const(cx.p))
            t = lambda a: El('u', dict(a, k='1'), Tx('t$i'))
            cx.other = cx.xml(El('d', {}, elem('def', 'f(i=3)', elem(d, VAL[d], t({}))),
                                 Tx('${f()}${f(4)}')), **kw)
            return cx.xml(El('d', {}, t({'py:' + d: VAL[d], 'py:def': 'f(i=3)'}),
                             Tx('${f()}${f(4)}')), **kw)
        c.case('nesting/def-' + d, run, lambda cx: cx.other, rule=RULE)
        for sw in ('case', 'else'):
            def run(cx, d=d, sw=sw):
                kw = dict(xs=ListO([Const(1), Const(2)]), i=Const(7),
                          v=Const(cx.pick('v', (7, 8))), p=Const(cx.pick('p', (True, False))))
                t = lambda a: El('u', dict(a, k='1'), Tx('t$i'))
                pre = [elem('case', '0', Tx('z'))]
                cx.other = cx.xml(El('d', {}, elem('switch', 'v', *pre, elem(
                    sw, VAL[sw], elem(d, VAL[d], t({}))))), **kw)
                return cx.xml(El('d', {}, elem('switch', 'v', *pre, t(
                    {'py:' + d: VAL[d], 'py:' + sw: VAL[sw]}))), **kw)
            c.case('nesting/%s-%s' % (sw, d), run, lambda cx: cx.other, rule=RULE)

    # call outermost of for/if
    for d in ('for', 'if', 'with'):
        def run(cx, d=d):
            kw = dict(xs=ListO([Const(1), Const(2)]), i=Const(7),
                      p=Const(cx.pick('p', (True, False))))
            g = elem('def', 'g(c)', Tx('{${c()}|${c()}}'))
            t = lambda a: El('u', dict(a, k='1'), Tx('t$i'))
            cx.other = cx.xml(El('d', {}, g, elem('call', 'g(%caller)', elem(d, VAL[d], t({})))),
                              **kw)
            return cx.xml(El('d', {}, g, t({'py:' + d: VAL[d], 'py:call': 'g(%caller)'})), **kw)
        c.case('nesting/call-' + d, run, lambda cx: cx.other, rule=RULE)

    # -- directives of element form carrying further directive attributes ----------
    for outer in ('if', 'for', 'with'):
        for innr in ('if', 'for', 'with'):
            if outer == innr:
                continue
            first, second = sorted((outer, innr), key=ORDER.index)

            def run(cx, outer=outer, innr=innr, first=first, second=second):
                kw = dict(xs=ListO([Const(1), Const(2)]), i=Const(7),
                          p=Const(cx.pick('p', (True, False))))
                cx.other = cx.xml(El('d', {}, elem(first, VAL[first],
                                                   elem(second, VAL[second], Tx('t$i')))), **kw)
                return cx.xml(El('d', {}, El('py:' + outer, {ATTR[outer]: VAL[outer],
                                                             'py:' + innr: VAL[innr]},
                                             Tx('t$i'))), **kw)
            c.case('mixed/%s+%s' % (outer, innr), run, lambda cx: cx.other, rule=RULE)

    # -- directives never reach the output --------------------------------------------
    import itertools
    for d in ('if', 'for', 'with', 'replace', 'block', 'def'):
        for pos in ('root', 'child', 'grandchild'):
            def run(cx, d=d, pos=pos):
                e = El('u', {'py:' + d: VAL[d], 'a': '1'}, Tx('q'))
                doc = {'root': lambda: e, 'child': lambda: El('r', {}, e),
                       'grandchild': lambda: El('r', {}, El('s', {'py:if': '1'}, e))}[pos]()
                return cx.xml(*around(cx, doc), xs=ListO([Const(1)]), i=Const(7), p=TRUE)

            def judge(cx, r):
                v = r.value
                for p in (v.parts if type(v) is Cat else (v,)):
                    if type(p) is Const and ('py:' in p.v or ATTR_RX.search(p.v)):
                        raise Finding('a directive reaches the output', v)
            c.case('absent/%s/%s' % (d, pos), run, judge=judge, rule=RULE)


import re
ATTR_RX = re.compile(r'\b(function|each|test|vars)=')
