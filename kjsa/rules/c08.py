"""C08 -- if/else, switch/case and for execute like their Python counterparts."""
from ..check import *

RULE = ('the body rendered is the one the Python statement of the same name would '
        'execute, for every value of the tests and every length of the iterable')
VARIANTS = ('frag',)
MIN = {'quick': 60}


def E(name, attr, value, *kids):
    return El('py:' + name, {attr: value} if attr else {}, *kids)


def check(c):
    TF = (True, False)

    # -- if / else -------------------------------------------------------------
    def truths(cx, name='p'):
        k = cx.pick(name, ('True', 'False', 'None', 'zero', 'one', 'empty-str', 'str',
                           'empty-list', 'list'))
        v = {'True': TRUE, 'False': FALSE, 'None': NONE, 'zero': Const(0), 'one': Const(1),
             'empty-str': Const(''), 'str': Sym('s', 'str', nonempty=True),
             'empty-list': ListO(), 'list': ListO([NONE])}[k]
        return v, k in ('True', 'one', 'str', 'list')

    for form in ('element', 'attribute'):
        for has_else in TF:
            for empty in ('', 'if', 'else', 'both'):
                if empty in ('else', 'both') and not has_else:
                    continue

                def run(cx, form=form, has_else=has_else, empty=empty):
                    v, cx.t = truths(cx)
                    y = [] if empty in ('if', 'both') else [Tx('y')]
                    n = [] if empty in ('else', 'both') else [Tx('n')]
                    if form == 'element':
                        kids = [E('if', 'test', 'p', *y)]
                        if has_else:
                            kids.append(E('else', '', '', *n))
                    else:
                        kids = [El('i', {'py:if': 'p'}, *y)]
                        if has_else:
                            kids.append(El('b', {'py:else': ''}, *n))
                    return cx.xml(El('d', {}, Tx('['), *kids, Tx(']')), p=v)

                def want(cx, form=form, has_else=has_else, empty=empty):
                    y = '' if empty in ('if', 'both') else 'y'
                    n = '' if empty in ('else', 'both') else 'n'
                    if form == 'attribute':
                        y = '<i>y</i>' if y else '<i/>'
                        n = '<b>n</b>' if n else '<b/>'
                    return '<d>[%s]</d>' % (y if cx.t else n if has_else else '')
                c.case('if/%s/%s%s' % (form, 'else' if has_else else 'alone',
                                       '/empty-' + empty if empty else ''),
                       run, want, rule=RULE)

    # nested ifs: each else belongs to the if it follows
    def run(cx):
        cx.p, cx.q = cx.pick('p', TF), cx.pick('q', TF)
        return cx.xml(El('d', {}, E('if', 'test', 'p', Tx('1'),
                                    E('if', 'test', 'q', Tx('2')), E('else', '', '', Tx('3')),
                                    Tx('4')),
                         E('else', '', '', Tx('5'), E('if', 'test', 'q', Tx('6')), Tx('7')),
                         Tx('8')), p=Const(cx.p), q=Const(cx.q))

    def want(cx):
        a = '1%s4' % ('2' if cx.q else '3') if cx.p else '5%s7' % ('6' if cx.q else '')
        return '<d>%s8</d>' % a
    c.case('if/nested', run, want, rule=RULE)

    def run(cx):
        cx.p, cx.q = cx.pick('p', TF), cx.pick('q', TF)
        return cx.xml(El('d', {}, E('if', 'test', 'p', Tx('1')), E('if', 'test', 'q', Tx('2')),
                         E('else', '', '', Tx('3'))), p=Const(cx.p), q=Const(cx.q))
    c.case('if/sequence', run, lambda cx: '<d>%s%s</d>' % (
        '1' if cx.p else '', '2' if cx.q else '3'), rule=RULE)

    exprs = {'p or q': lambda p, q: p or q, 'p and q': lambda p, q: p and q,
             'p if q else not p': lambda p, q: p if q else not p,
             'not p': lambda p, q: not p, 'p == q': lambda p, q: p == q,
             '(lambda: p)()': lambda p, q: p, '[p, q].count(True) == 2': lambda p, q: p and q}
    for e, fn in exprs.items():
        def run(cx, e=e):
            cx.p, cx.q = cx.pick('p', TF), cx.pick('q', TF)
            return cx.xml(El('d', {}, El('i', {'py:if': e}), El('b', {'py:else': ''})),
                          p=Const(cx.p), q=Const(cx.q))
        c.case('if/expression/' + e, run, lambda cx, fn=fn: '<d><%s/></d>' % (
            'i' if fn(cx.p, cx.q) else 'b'), rule=RULE)

    # -- switch ------------------------------------------------------------------
    for ncase in (1, 2, 3):
        for has_else in TF:
            for ws in ('', ' \n '):
                def run(cx, ncase=ncase, has_else=has_else, ws=ws):
                    v = Sym('v', 'int')
                    ks = [Sym('k%d' % i, 'int') for i in range(ncase)]
                    cx.hit = next((i for i, k in enumerate(ks) if cx.eq(k, v)), None)
                    kids = []
                    for i in range(ncase):
                        kids += [Tx(ws)] if ws else []
                        kids.append(E('case', 'value', 'k%d' % i, Tx('c%d' % i)))
                    if has_else:
                        kids += [Tx(ws)] if ws else []
                        kids.append(E('else', '', '', Tx('e')))
                    return cx.xml(El('d', {}, Tx('['), E('switch', 'test', 'v', *kids),
                                     Tx(']')), v=v, **{'k%d' % i: k for i, k in enumerate(ks)})

                def want(cx, has_else=has_else):
                    if cx.hit is not None:
                        return '<d>[c%d]</d>' % cx.hit
                    return '<d>[%s]</d>' % ('e' if has_else else '')
                c.case('switch/%d%s%s' % (ncase, '/else' if has_else else '',
                                          '/spaces' if ws else ''), run, want, rule=RULE)

    # equality is that of Python, whatever the kind of the values
    vals = {'none': (NONE, None), 'zero': (Const(0), 0), 'one': (Const(1), 1), 'false': (FALSE, False),
            'true': (TRUE, True), 'empty': (Const(''), ''), 'text': (Const('1'), '1'),
            'pair': (Tup([Const(1), Const(2)]), (1, 2)), 'nothing': (Tup([]), ()),
            'list': (lambda: ListO([Const(1), Const(2)]), [1, 2])}
    mk = lambda k: vals[k][0]() if callable(vals[k][0]) else vals[k][0]

    def run(cx):
        cx.a, cx.b = cx.pick('value', vals), cx.pick('case', vals)
        return cx.xml(El('d', {}, E('switch', 'test', 'v', E('case', 'value', 'k', Tx('same')),
                                    E('else', '', '', Tx('other')))), v=mk(cx.a), k=mk(cx.b))
    c.case('switch/kinds', run, lambda cx: '<d>%s</d>' % (
        'same' if vals[cx.a][1] == vals[cx.b][1] else 'other'), rule=RULE)

    # bodies may be empty
    for empty in ('case', 'else', 'all'):
        def run(cx, empty=empty):
            cx.k = cx.pick('v', (1, 2, 3))
            return cx.xml(El('d', {}, Tx('['), E('switch', 'test', 'v',
                                                 E('case', 'value', '1',
                                                   *([] if empty != 'else' else [Tx('a')])),
                                                 E('case', 'value', '2', *([] if empty == 'all'
                                                                           else [Tx('b')])),
                                                 E('else', '', '', *([] if empty != 'case'
                                                                     else [Tx('e')]))),
                             Tx(']')), v=Const(cx.k))

        def want(cx, empty=empty):
            return '<d>[%s]</d>' % {1: 'a' if empty == 'else' else '',
                                    2: '' if empty == 'all' else 'b',
                                    3: 'e' if empty == 'case' else ''}[cx.k]
        c.case('switch/empty-' + empty, run, want, rule=RULE)

    # nested switches, every nesting position
    def inner(cx):
        return E('switch', 'test', 'w', E('case', 'value', '1', Tx('i1')),
                 E('case', 'value', '2', Tx('i2')), E('else', '', '', Tx('ie')))

    def iout(w):
        return {1: 'i1', 2: 'i2'}.get(w, 'ie')

    for pos in (0, 1, 2):
        def run(cx, pos=pos):
            cx.v, cx.w = cx.pick('v', (1, 2, 3)), cx.pick('w', (1, 2, 3))
            body = lambda i: [Tx('o%d' % i)] + ([inner(cx), Tx('!')] if i == pos else [])
            return cx.xml(El('d', {}, E('switch', 'test', 'v',
                                        E('case', 'value', '1', *body(0)),
                                        E('case', 'value', '2', *body(1)),
                                        E('else', '', '', *body(2))), Tx('.')),
                          v=Const(cx.v), w=Const(cx.w))

        def want(cx, pos=pos):
            i = {1: 0, 2: 1, 3: 2}[cx.v]
            return '<d>o%d%s.</d>' % (i, iout(cx.w) + '!' if i == pos else '')
        c.case('switch/nested-%d' % pos, run, want, rule=RULE)

    # a function or loop body with a switch, evaluated inside another switch
    def run(cx):
        cx.v, cx.w = cx.pick('v', (1, 2, 3)), cx.pick('w', (1, 2, 3))
        return cx.xml(El('d', {}, E('def', 'function', 'f(w)', inner(cx)),
                         E('switch', 'test', 'v',
                           E('case', 'value', "0 if f(w) else 1", Tx('never')),
                           E('case', 'value', "1", Tx('${f(w)}-${f(1)}')),
                           E('case', 'value', '2', Tx('two')),
                           E('else', '', '', Tx('x${f(3)}'))), Tx('.')),
                      v=Const(cx.v), w=Const(cx.w))

    def want(cx):
        return '<d>%s.</d>' % {1: '%s-i1' % iout(cx.w), 2: 'two', 3: 'xie'}[cx.v]
    c.case('switch/in-function', run, want, rule=RULE)

    def run(cx):
        cx.v = [cx.pick('v%d' % i, (1, 2, 3)) for i in range(2)]
        return cx.xml(El('d', {}, E('for', 'each', 'v in vs', E(
            'switch', 'test', 'v', E('case', 'value', '1', Tx('a')),
            E('case', 'value', '2', Tx('b')), E('else', '', '', Tx('e'))), Tx('/'))),
            vs=ListO([Const(x) for x in cx.v]))
    c.case('switch/in-loop', run, lambda cx: '<d>%s</d>' % ''.join(
        {1: 'a', 2: 'b', 3: 'e'}[x] + '/' for x in cx.v), rule=RULE)

    # case values are expressions, compared with ==, first match wins
    def run(cx):
        cx.v = cx.pick('v', ('a', 'b', 'None', 'one', 'true'))
        v = {'None': NONE, 'one': Const(1), 'true': TRUE}.get(cx.v, Const(cx.v))
        return cx.xml(El('d', {}, E('switch', 'test', 'v',
                                    E('case', 'value', "'a'", Tx('1')),
                                    E('case', 'value', "'A'.lower()", Tx('2')),
                                    E('case', 'value', "None", Tx('3')),
                                    E('case', 'value', "True and 1", Tx('4')),
                                    E('else', '', '', Tx('5')))), v=v)
    c.case('switch/first-match', run, lambda cx: '<d>%s</d>' % {
        'a': '1', 'b': '5', 'None': '3', 'one': '4', 'true': '4'}[cx.v], rule=RULE)

    # elements with py:case / py:else inside a switch
    def run(cx):
        cx.v = cx.pick('v', (1, 2, 3))
        return cx.xml(El('d', {}, E('switch', 'test', 'v', El('i', {'py:case': '1'}, Tx('a')),
                                    El('b', {'py:case': '2'}), El('u', {'py:else': ''}, Tx('c')))),
                      v=Const(cx.v))
    c.case('switch/attributes', run, lambda cx: '<d>%s</d>' % {
        1: '<i>a</i>', 2: '<b/>', 3: '<u>c</u>'}[cx.v], rule=RULE)

    # -- for -----------------------------------------------------------------------
    for form in ('element', 'attribute'):
        for n in (0, 1, 2, 3):
            def run(cx, form=form, n=n):
                cx.v = [cx.dyn('v%d' % i, ('str', 'none') if n > 1 else KINDS)
                        for i in range(n)]
                k = cx.pick('iterable', ('list', 'tuple', 'iterator'))
                seq = [d.value for d in cx.v]
                it = {'list': lambda: ListO(seq), 'tuple': lambda: Tup(seq),
                      'iterator': lambda: cx.ip.get_iter(ListO(seq))}[k]()
                el = E('for', 'each', 'i in vs', Tx('($i)')) if form == 'element' \
                    else El('p', {'py:for': 'i in vs'}, Tx('$i'))
                return cx.xml(El('d', {}, Tx('['), el, Tx(']')), vs=it)

            def want(cx, form=form):
                a, b = ('(', ')') if form == 'element' else ('<p>', '</p>')
                out = ['<d>[']
                for d in cx.v:
                    out += [a, d.text, b]
                return out + [']</d>']
            c.case('for/%s/%d' % (form, n), run, want, rule=RULE)

    # an iterable of unknown length
    def run(cx):
        return cx.xml(El('d', {}, El('p', {'py:for': 'i in vs'}, Tx('$i'))),
                      vs=ListO([Star('v', lambda ip, i: Sym('v%d' % i, 'str', excl='&<>"'))]))

    def judge(cx, r):
        # every decided prefix is a sequence <p>v0</p><p>v1</p>...
        v = norm(cx.ip, r.value)
        ps = v.parts if type(v) is Cat else (v,)
        text, i = [], 0
        for p in ps:
            if type(p) is Const:
                text.append(p.v)
            elif type(p) is SymT and p.name == 'v%d' % i:
                text.append('{}')
                i += 1
            else:
                raise Finding('elements out of order', v, 'v0, v1, ... in order')
        if ''.join(text) != '<d>%s</d>' % ('<p>{}</p>' * i):
            raise Finding('body not rendered once per element', v,
                          'one <p>v</p> per element')
    c.case('for/any-length', run, judge=judge, rule=RULE, witness=False)

    # unpacking, enumerate, nested loops, empty bodies
    def run(cx):
        return cx.xml(El('d', {}, E('for', 'each', 'a, (b, c) in vs', Tx('$a$b${c};'))),
                      vs=ListO([Tup([Const(1), Tup([Const(2), Const(3)])]),
                                Tup([Const(4), Tup([Const(5), Const(6)])])]))
    c.case('for/unpack', run, '<d>123;456;</d>', rule=RULE)

    def run(cx):
        return cx.xml(El('d', {}, E('for', 'each', 'i, x in enumerate(vs)',
                                    E('for', 'each', 'j in range(i)', Tx('$i$j ')),
                                    Tx('${x}.'))), vs=ListO([Const(c_) for c_ in 'abc']))
    c.case('for/nested', run, '<d>a.10 b.20 21 c.</d>', rule=RULE)

    for form in ('element', 'in-if', 'nested'):
        def run(cx, form=form):
            cx.n = cx.pick('n', (0, 1, 2))
            el = {'element': lambda: [E('for', 'each', 'i in range(n)')],
                  'in-if': lambda: [E('if', 'test', 'n', E('for', 'each', 'i in range(n)')),
                                    E('else', '', '')],
                  'nested': lambda: [E('for', 'each', 'i in range(n)',
                                       E('for', 'each', 'j in range(i)'))]}[form]()
            return cx.xml(El('d', {}, Tx('['), *el, Tx(']')), n=Const(cx.n))
        c.case('for/empty/' + form, run, '<d>[]</d>', rule=RULE)

    # the body of a loop runs with the variable bound, also in attributes, tests
    def run(cx):
        cx.v = [cx.pick('v%d' % i, (0, 1, 2)) for i in range(2)]
        return cx.xml(El('d', {}, El('p', {'py:for': 'v in vs', 'py:if': 'v', 'a': '$v',
                                           'py:attrs': '{"b": v}'}, Tx('$v'))),
                      vs=ListO([Const(x) for x in cx.v]))
    c.case('for/filter', run, lambda cx: ('<d>%s</d>' % ''.join(
        '<p a="%d" b="%d">%d</p>' % (x, x, x) for x in cx.v if x)), rule=RULE)

    # -- the same statements in text templates -------------------------------------
    def run(cx):
        cx.v = cx.pick('v', (1, 2, 3))
        return cx.text('a{%switch v%}{%case 1%}one{%case 2%}two{%else%}other{%end%}b'
                       '{%if v == 1%}y{%else%}n{%end%}{%for i in range(v)%}$i{%end%}',
                       v=Const(cx.v))
    c.case('text', run, lambda cx: 'a%sb%s%s' % (
        {1: 'one', 2: 'two', 3: 'other'}[cx.v], 'y' if cx.v == 1 else 'n',
        ''.join(map(str, range(cx.v)))), rule=RULE)

    def run(cx):
        cx.v = cx.pick('v', (0, 1))
        return cx.text('a{%if v%}{%end%}b{%if v%}{%else%}{%end%}{%for i in range(v)%}{%end%}'
                       '{%switch v%}{%case 1%}{%else%}{%end%}c', v=Const(cx.v))
    c.case('text/empty', run, 'abc', rule=RULE)
