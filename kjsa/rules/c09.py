"""C09 -- py:with binds its variables for its body and restores them after."""
from ..check import *

RULE = ('at each point of the template a variable has the value of the innermost '
        'enclosing py:with that lists it, else the one it has outside')
VARIANTS = ('frag',)
MIN = {'quick': 40}


def W(vars_, *kids):
    return El('py:with', {'vars': vars_}, *kids)


def check(c):
    K = ('none', 'str', 'markup', 'int')

    def sym(cx, *names):
        for n in names:
            setattr(cx, n, cx.dyn(n, ('str',)))
        return {n: getattr(cx, n) for n in names}

    def t(cx, **k):
        return {n: getattr(cx, n).text for n in k}

    # single binding over: nothing, a context variable, a template variable
    def run(cx):
        cx.v = cx.dyn('v', K)
        cx.a = cx.dyn('a', K)
        return cx.xml(El('d', {}, W('a=v', Tx('[$a]')), Tx('|$a')), v=cx.v, a=cx.a)
    c.case('context', run, lambda cx: ['<d>[', cx.v.text, ']|', cx.a.text, '</d>'], rule=RULE)

    def run(cx):
        cx.v = cx.dyn('v', K)
        return cx.xml(El('d', {}, W('a=v', Tx('[$a]'))), v=cx.v)
    c.case('new-name', run, lambda cx: ['<d>[', cx.v.text, ']</d>'], rule=RULE)

    # one variable assigned more than once; assignments run from left to right
    def run(cx):
        cx.v, cx.a = cx.dyn('v', ('str', 'markup', 'none')), cx.dyn('a', K)
        return cx.xml(El('d', {}, W('a=v;b=1;a=[a, b]', Tx('[${a[0]}${a[1]}$b]')), Tx('|$a')),
                      v=cx.v, a=cx.a)
    c.case('assigned-twice', run, lambda cx: [
        '<d>[', cx.v.text, '11]|', cx.a.text, '</d>'], rule=RULE)

    def run(cx):
        return cx.xml(El('d', {}, W('a=1;\n b = a + 1;\n\n c=a==b;d=a<=b', Tx('$a,$b,$c,$d'))))
    c.case('left-to-right', run, '<d>1,2,False,True</d>', rule=RULE)

    # attribute form
    def run(cx):
        cx.v, cx.a = cx.dyn('v', K), cx.dyn('a', K)
        return cx.xml(El('d', {}, El('p', {'py:with': 'a=v', 'k': '$a'}, Tx('[$a]')),
                         Tx('|$a')), v=cx.v, a=cx.a)

    def want(cx):
        k = [] if cx.v.none else [' k="', esc(cx.v.raw), '"']
        return ['<d><p', *k, '>[', cx.v.text, ']</p>|', cx.a.text, '</d>']
    c.case('attribute', run, want, rule=RULE)

    # over a template variable
    def run(cx):
        kw = sym(cx, 'v', 'u')
        return cx.xml(El('d', {}, PI('py', 'a = u'), Tx('$a'), W('a=v', Tx('[$a]')),
                         Tx('$a')), **kw)
    c.case('template-variable', run, lambda cx: [
        '<d>', cx.u.text, '[', cx.v.text, ']', cx.u.text, '</d>'], rule=RULE)

    # over a loop variable, repeatedly
    def run(cx):
        kw = sym(cx, 'v', 'x', 'y')
        return cx.xml(El('d', {}, El('py:for', {'each': 'i in (x, y)'}, Tx('$i'),
                                     W('i=v', Tx('[$i]')), Tx('$i;'))), **kw)
    c.case('loop-variable', run, lambda cx: [
        '<d>', cx.x.text, '[', cx.v.text, ']', cx.x.text, ';',
        cx.y.text, '[', cx.v.text, ']', cx.y.text, ';</d>'], rule=RULE)

    # nested: same name, other name, both; each restores its own
    def run(cx):
        kw = sym(cx, 'v', 'w', 'a')
        return cx.xml(El('d', {}, W('a=v', Tx('1$a'), W('a=w', Tx('2$a')), Tx('3$a')),
                         Tx('4$a')), **kw)
    c.case('nested/same', run, lambda cx: [
        '<d>1', cx.v.text, '2', cx.w.text, '3', cx.v.text, '4', cx.a.text, '</d>'], rule=RULE)

    def run(cx):
        kw = sym(cx, 'v', 'w', 'a', 'b')
        return cx.xml(El('d', {}, W('a=v', W('b=w', Tx('1$a,$b')), Tx('2$a,$b')),
                         Tx('3$a,$b')), **kw)
    c.case('nested/other', run, lambda cx: [
        '<d>1', cx.v.text, ',', cx.w.text, '2', cx.v.text, ',', cx.b.text,
        '3', cx.a.text, ',', cx.b.text, '</d>'], rule=RULE)

    def run(cx):
        kw = sym(cx, 'u', 'v', 'w', 'a', 'b')
        return cx.xml(El('d', {}, W('a=u; b=v', W('b=w; a=b', Tx('1$a,$b')), Tx('2$a,$b')),
                         Tx('3$a,$b')), **kw)
    c.case('nested/swapped', run, lambda cx: [
        '<d>1', cx.w.text, ',', cx.w.text, '2', cx.u.text, ',', cx.v.text,
        '3', cx.a.text, ',', cx.b.text, '</d>'], rule=RULE)

    def run(cx):
        kw = sym(cx, 'a')
        return cx.xml(El('d', {}, W("a='1'", W("a=a+'2'", W("a=a+'3'", Tx('[$a]')), Tx('[$a]')),
                                    Tx('[$a]')), Tx('[$a]')), **kw)
    c.case('nested/three', run, lambda cx: ['<d>[123][12][1][', cx.a.text, ']</d>'], rule=RULE)

    # in sequence
    def run(cx):
        kw = sym(cx, 'v', 'w', 'a', 'b')
        return cx.xml(El('d', {}, W('a=v', Tx('$a')), W('b=w', Tx('$a$b')),
                         W('b=v;a=w', Tx('$a$b')), Tx('$a$b')), **kw)
    c.case('sequence', run, lambda cx: [
        '<d>', cx.v.text, cx.a.text, cx.w.text, cx.w.text, cx.v.text, cx.a.text, cx.b.text,
        '</d>'],
        rule=RULE)

    # several assignments, left to right, any spelling
    for n, vs in enumerate(('a=v;b=w', 'a = v ; b = w', 'a=v;\n b=w', ' a=v; b=w ')):
        def run(cx, vs=vs):
            kw = sym(cx, 'v', 'w', 'a', 'b')
            return cx.xml(El('d', {}, W(vs, Tx('[$a,$b]')), Tx('$a,$b')), **kw)
        c.case('several/%d' % n, run, lambda cx: [
            '<d>[', cx.v.text, ',', cx.w.text, ']', cx.a.text, ',', cx.b.text, '</d>'], rule=RULE)

    def run(cx):
        kw = sym(cx, 'v', 'a', 'b', 'e')
        return cx.xml(El('d', {}, W("a=v;b=a;e=b", Tx('[$a,$b,$e]')), Tx('$a,$b,$e')), **kw)
    c.case('several/left-to-right', run, lambda cx: [
        '<d>[', cx.v.text, ',', cx.v.text, ',', cx.v.text, ']',
        cx.a.text, ',', cx.b.text, ',', cx.e.text, '</d>'], rule=RULE)

    # expressions with operators, ==, strings with semicolons are not split at = signs
    for e, out in (("a=(1 == 1)", 'True'), ("a=1 == 2", 'False'), ("a=1 if q == 2 else 3", '3'),
                   ("a=dict(z=4)['z']", '4'), ("a=[x for x in (1, 2)][1]", '2'),
                   ("a=1 <= 2", 'True'), ("a=q != 2", 'True'), ("a=(lambda z=5: z)()", '5')):
        def run(cx, e=e):
            kw = sym(cx, 'a')
            return cx.xml(El('d', {}, W(e, Tx('[$a]')), Tx('$a')), q=Const(1), **kw)
        c.case('expression/' + e, run, lambda cx, o=out: ['<d>[%s]' % o, cx.a.text, '</d>'],
               rule=RULE)

    # empty body; body with control flow; body that calls a function using py:with
    def run(cx):
        kw = sym(cx, 'v', 'a')
        return cx.xml(El('d', {}, W('a=v'), Tx('$a')), **kw)
    c.case('empty-body', run, lambda cx: ['<d>', cx.a.text, '</d>'], rule=RULE)

    def run(cx):
        kw = sym(cx, 'v', 'w', 'a')
        cx.p = cx.pick('p', (True, False))
        return cx.xml(El('d', {}, El('py:if', {'test': 'p'}, W('a=v', Tx('1$a'))),
                         El('py:else', {}, W('a=w', Tx('2$a'))), Tx('3$a')),
                      p=Const(cx.p), **kw)
    c.case('branches', run, lambda cx: [
        '<d>', *(['1', cx.v.text] if cx.p else ['2', cx.w.text]), '3', cx.a.text, '</d>'],
        rule=RULE)

    def run(cx):
        kw = sym(cx, 'v', 'w', 'a')
        return cx.xml(El('d', {}, El('py:def', {'function': 'f(a)'}, Tx('<$a'), W('a=w', Tx('|$a')),
                                     Tx('|$a>')),
                         W('a=v', Tx('1$a'), Tx('${f(a)}${f(w)}'), Tx('2$a')), Tx('3$a')), **kw)
    c.case('function', run, lambda cx: [
        '<d>1', cx.v.text,
        '&lt;', cx.v.text, '|', cx.w.text, '|', cx.v.text, '&gt;',
        '&lt;', cx.w.text, '|', cx.w.text, '|', cx.w.text, '&gt;',
        '2', cx.v.text, '3', cx.a.text, '</d>'], rule=RULE)

    def run(cx):
        kw = sym(cx, 'v', 'w', 'x', 'y', 'a')
        return cx.xml(El('d', {}, El('py:for', {'each': 'i in (x, y)'},
                                     W('a=i', Tx('[$a'), W('a=v', Tx('$a')), Tx('$a]'))),
                         Tx('$a')), **kw)
    c.case('in-loop', run, lambda cx: [
        '<d>[', cx.x.text, cx.v.text, cx.x.text, '][', cx.y.text, cx.v.text, cx.y.text, ']',
        cx.a.text, '</d>'], rule=RULE)

    # a loop inside the body that leaves early by an empty iterable or a switch
    def run(cx):
        kw = sym(cx, 'v', 'a')
        cx.n = cx.pick('n', (0, 1, 2))
        return cx.xml(El('d', {}, W('a=v', El('py:for', {'each': 'i in range(n)'}, W(
            'a=i', Tx('$a'))), El('py:switch', {'test': 'n'}, El('py:case', {'value': '1'},
                                                                W("a='c'", Tx('$a')))), Tx('$a')),
            Tx('$a')), n=Const(cx.n), **kw)
    c.case('control-flow', run, lambda cx: [
        '<d>', ''.join(map(str, range(cx.n))), 'c' if cx.n == 1 else '', cx.v.text, cx.a.text,
        '</d>'], rule=RULE)

    # two renders of the same template do not influence each other
    def run(cx):
        tpl = cx.template(El('d', {}, W('a=v', Tx('[$a]')), Tx('$a')))
        kw = sym(cx, 'v', 'w', 'a', 'b')
        one = cx.render(tpl, v=cx.v, a=cx.a)
        two = cx.render(tpl, v=cx.w, a=cx.b)
        return cat(one, two)
    c.case('two-renders', run, lambda cx: [
        '<d>[', cx.v.text, ']', cx.a.text, '</d><d>[', cx.w.text, ']', cx.b.text, '</d>'],
        rule=RULE)

    # used before the block in the same function
    def run(cx):
        kw = sym(cx, 'v', 'a')
        return cx.xml(El('d', {}, Tx('$a'), W('a=v', Tx('[$a]')), Tx('$a')), **kw)
    c.case('used-before', run, lambda cx: [
        '<d>', cx.a.text, '[', cx.v.text, ']', cx.a.text, '</d>'], rule=RULE, variants=False)
