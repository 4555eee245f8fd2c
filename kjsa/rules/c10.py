"""C10 -- py:def and py:call: template functions behave like Python functions."""
from ..check import *

RULE = ('a call of a template function renders its body with the parameters bound as '
        'Python would bind them, where the call stands; the body of py:call is rendered '
        'on each call of the caller with its arguments and the scope of the call site')
VARIANTS = ('frag',)
MIN = {'quick': 40}


def D(decl, *kids):
    return El('py:def', {'function': decl}, *kids)


def C(fn, args, *kids):
    a = {'function': fn}
    if args is not None:
        a['args'] = args
    return El('py:call', a, *kids)


def check(c):
    K = ('none', 'str', 'markup', 'int')

    # parameters: positional, keyword, default, star; and where the call stands
    calls = {'f(x, y)': ('x', 'y'), 'f(x)': ('x', None), 'f(b=x, a=y)': ('y', 'x'),
             'f(y, b=x)': ('y', 'x'), 'f(*[x, y])': ('x', 'y'), "f(**{'a': y})": ('y', None),
             'f(a=x)': ('x', None)}
    for call, (a, b) in calls.items():
        def run(cx, call=call):
            cx.x, cx.y = cx.dyn('x', K), cx.dyn('y', ('str', 'markup'))
            return cx.xml(El('d', {}, D("f(a, b='dflt')", Tx('('), El('i', {'k': '$a'}, Tx('$b')),
                                        Tx(')')), Tx('[${%s}]' % call)), x=cx.x, y=cx.y)

        def want(cx, a=a, b=b):
            A = getattr(cx, a)
            k = [] if A.none else [' k="', esc(A.raw), '"']
            return ['<d>[(<i', *k, '>', getattr(cx, b).text if b else 'dflt', '</i>)]</d>']
        c.case('parameters/' + call, run, want, rule=RULE)

    # the definition itself renders nothing; calls before and after it
    def run(cx):
        cx.x = cx.dyn('x', K)
        return cx.xml(El('d', {}, Tx('1${f(x)}'), D('f(a)', Tx('<$a>')), Tx('2${f(3)}')), x=cx.x)
    c.case('place', run, lambda cx: ['<d>1&lt;', cx.x.text, '&gt;2&lt;3&gt;</d>'], rule=RULE)

    def run(cx):
        return cx.xml(El('d', {}, D('f()', Tx('q')), Tx('r')))
    c.case('uncalled', run, '<d>r</d>', rule=RULE)

    for form in ('element', 'attribute'):
        def run(cx, form=form):
            cx.x = cx.dyn('x', K)
            d = D('f(a)', El('p', {'k': '1'}, Tx('$a'))) if form == 'element' else \
                El('p', {'py:def': 'f(a)', 'k': '1'}, Tx('$a'))
            return cx.xml(El('d', {}, d, Tx('${f(x)}')), x=cx.x)
        c.case('form/' + form, run, lambda cx: ['<d><p k="1">', cx.x.text, '</p></d>'], rule=RULE)

    # functions calling functions, recursion, mutual recursion
    def run(cx):
        cx.n = cx.pick('n', (0, 1, 2, 3))
        return cx.xml(El('d', {}, D('f(n)', El('i', {'py:if': 'n'}, Tx('$n${f(n - 1)}'))),
                         Tx('${f(n)}')), n=Const(cx.n))

    def rec(n):
        return '<i>%d%s</i>' % (n, rec(n - 1)) if n else ''
    c.case('recursion', run, lambda cx: '<d>%s</d>' % rec(cx.n), rule=RULE)

    def run(cx):
        cx.n = cx.pick('n', (0, 1, 2, 3))
        return cx.xml(El('d', {}, D('even(n)', El('py:if', {'test': 'n'}, Tx('e${odd(n - 1)}')),
                                    El('py:else', {}, Tx('E'))),
                         D('odd(n)', El('py:if', {'test': 'n'}, Tx('o${even(n - 1)}')),
                           El('py:else', {}, Tx('O'))), Tx('${even(n)}')), n=Const(cx.n))
    c.case('mutual', run, lambda cx: '<d>%s</d>' % {0: 'E', 1: 'eO', 2: 'eoE', 3: 'eoeO'}[cx.n],
           rule=RULE)

    # output of a call is markup; it can be passed on, stored, called repeatedly
    def run(cx):
        cx.x = cx.dyn('x', K)
        return cx.xml(El('d', {}, D('f(a)', El('i', {}, Tx('$a'))), D('g(q)', El('b', {}, Tx('$q'))),
                         Tx('${g(f(x))}${g(g(f(x)))}')), x=cx.x)
    c.case('composition', run, lambda cx: [
        '<d><b><i>', cx.x.text, '</i></b><b><b><i>', cx.x.text, '</i></b></b></d>'], rule=RULE)

    def run(cx):
        return cx.xml(El('d', {}, D('f(a)', Tx('<$a>')),
                         El('py:for', {'each': 'i in range(3)'}, Tx('${f(i)}'))))
    c.case('repeated', run, '<d>&lt;0&gt;&lt;1&gt;&lt;2&gt;</d>', rule=RULE)

    # every form of parameter
    for decl, call, out in (
            ('f(a, b=2)', 'f(1)', '12'), ('f(a, b=2)', 'f(b=1, a=3)', '31'),
            ('f(a, *b)', 'f(1, 5, 6)', '1(5, 6)'), ('f(a, *, b=2)', 'f(1)', '12'),
            ('f(a, *, b=2)', 'f(1, b=7)', '17'), ('f(a=1, *b)', 'f()', '1()'),
            ('f(a, **b)', 'f(1, q=2)', "1{'q': 2}")):
        for inner in (False, True):
            def run(cx, decl=decl, call=call, inner=inner):
                d = D(decl, Tx('$a$b'))
                if inner:
                    return cx.xml(El('d', {}, D('o()', d, Tx('${%s}' % call)), Tx('${o()}')))
                return cx.xml(El('d', {}, d, Tx('${%s}' % call)))
            c.case('parameters/%s/%s%s' % (decl, call, '/nested' if inner else ''), run,
                   '<d>%s</d>' % out, rule=RULE)

    # context visible in the body; loop variable of the caller is not
    def run(cx):
        cx.x = cx.dyn('x', K)
        return cx.xml(El('d', {}, D('f(a)', Tx('$a$x')), Tx('${f(1)}')), x=cx.x)
    c.case('context', run, lambda cx: ['<d>1', cx.x.text, '</d>'], rule=RULE)

    def run(cx):
        cx.x = cx.dyn('x', ('str', 'none'))
        return cx.xml(El('d', {}, D('f(x)', Tx('($x)')), Tx('${f(1)}$x')), x=cx.x)
    c.case('shadowing', run, lambda cx: ['<d>(1)', cx.x.text, '</d>'], rule=RULE)

    # nested functions see the scope of the enclosing one
    def run(cx):
        cx.x = cx.dyn('x', ('str', 'none', 'markup'))
        return cx.xml(El('d', {}, D('f(a)', D('g(b)', Tx('($a,$b)')), Tx('${g(1)}${g(a)}')),
                         Tx('${f(x)}${f(2)}')), x=cx.x)
    c.case('nested', run, lambda cx: [
        '<d>(', cx.x.text, ',1)(', cx.x.text, ',', cx.x.text, ')(2,1)(2,2)</d>'], rule=RULE)

    def run(cx):
        return cx.xml(El('d', {}, D('f(a)', D('g(b)', D('h(c)', Tx('$a$b$c')), Tx('${h(3)}')),
                                    Tx('${g(2)}')), Tx('${f(1)}')))
    c.case('nested/three', run, '<d>123</d>', rule=RULE)

    # two nested functions of the same name in different functions
    def run(cx):
        return cx.xml(El('d', {}, D('f()', D('g()', Tx('1')), Tx('${g()}')),
                         D('h()', D('g()', Tx('2')), Tx('${g()}')), Tx('${f()}${h()}${f()}')))
    c.case('nested/same-name', run, '<d>121</d>', rule=RULE)

    # empty bodies
    def run(cx):
        return cx.xml(El('d', {}, Tx('['), D('f()'), D('g()', D('h()'), Tx('${h()}')),
                         Tx('${f()}${g()}]')))
    c.case('empty', run, '<d>[]</d>', rule=RULE)

    def run(cx):
        return cx.xml(El('d', {}, Tx('['), D('f(q)', PI('py', 'z = q')),
                         D('g(q)', D('h()', PI('py', 'z = q')), Tx('${h()}')),
                         D('k(c)', Tx('${c()}')), Tx('${f(1)}${g(2)}'),
                         C('k(%caller)', None, PI('py', 'z = 3')), Tx(']')))
    c.case('silent', run, '<d>[]</d>', rule=RULE)

    # -- py:call -------------------------------------------------------------------
    def run(cx):
        cx.x, cx.y = cx.dyn('x', K), cx.dyn('y', ('str', 'markup'))
        return cx.xml(El('d', {}, D('f(c, q)', Tx('{${c(q)}|${c(1)}}')),
                         C('f(%caller, x)', 'a', Tx('<$a$y>'))), x=cx.x, y=cx.y)
    c.case('call', run, lambda cx: [
        '<d>{&lt;', cx.x.text, cx.y.text, '&gt;|&lt;1', cx.y.text, '&gt;}</d>'], rule=RULE)

    for n in (0, 1, 3):
        def run(cx, n=n):
            return cx.xml(El('d', {}, D('f(c)', El('py:for', {'each': 'i in range(n)'},
                                                   Tx('${c(i)}'))),
                             C('f(%caller)', 'k', El('i', {'a': '$k'}, Tx('t')))), n=Const(n))
        c.case('call/times-%d' % n, run, '<d>%s</d>' % ''.join(
            '<i a="%d">t</i>' % i for i in range(n)), rule=RULE)

    for args in (None, ''):
        def run(cx, args=args):
            cx.x = cx.dyn('x', K)
            return cx.xml(El('d', {}, D('f(c)', Tx('[${c()}${c()}]')),
                             C('f(%caller)', args, Tx('-$x'))), x=cx.x)
        c.case('call/no-args-%r' % args, run, lambda cx: [
            '<d>[-', cx.x.text, '-', cx.x.text, ']</d>'], rule=RULE)

    def run(cx):
        return cx.xml(El('d', {}, D('f(c)', Tx('[${c(1, b=2)}${c(3)}]')),
                         C('f(%caller)', "a, b='z'", Tx('$a$b'))))
    c.case('call/arguments', run, '<d>[123z]</d>', rule=RULE)

    def run(cx):
        return cx.xml(El('d', {}, D('f(c)', Tx('[${c()}]')), C('f(%caller)', None)))
    c.case('call/empty-body', run, '<d>[]</d>', rule=RULE)

    # scope of the call site: loop variable, with, enclosing function
    def run(cx):
        cx.x, cx.y = cx.dyn('x', ('str', 'none')), cx.dyn('y', ('str',))
        return cx.xml(El('d', {}, D('f(c, i)', Tx('[${c()}]')),
                         El('py:for', {'each': 'i in (x, y)'}, C('f(%caller, 9)', None, Tx('$i')))),
                      x=cx.x, y=cx.y)
    c.case('call/scope', run, lambda cx: ['<d>[', cx.x.text, '][', cx.y.text, ']</d>'], rule=RULE)

    # several calls in one template keep their own bodies, also nested ones
    def run(cx):
        return cx.xml(El('d', {}, D('f(c)', Tx('[${c()}]')), D('g(c)', Tx('{${c()}}')),
                         C('f(%caller)', None, Tx('1')), C('g(%caller)', None, Tx('2')),
                         C('f(%caller)', None, Tx('3'), C('g(%caller)', None, Tx('4')), Tx('5'))))
    c.case('call/several', run, '<d>[1]{2}[3{4}5]</d>', rule=RULE)

    def run(cx):
        return cx.xml(El('d', {}, D('f(c)', Tx('[${c()}]')),
                         D('outer(c)', C('f(%caller)', None, Tx('<${c(1)}>'))),
                         C('outer(%caller)', 'k', Tx('$k'), C('f(%caller)', None, Tx('q')))))
    c.case('call/forwarded', run, '<d>[&lt;1[q]&gt;]</d>', rule=RULE)

    # the caller can be mentioned more than once
    def run(cx):
        cx.x = cx.dyn('x', ('str', 'none'))
        return cx.xml(El('d', {}, D('f(a, b)', Tx('[${a(1)}|${b(x)}]')),
                         C('f(%caller, b=%caller)', 'k', Tx('<$k>'))), x=cx.x)
    c.case('call/twice-passed', run, lambda cx: [
        '<d>[&lt;1&gt;|&lt;', cx.x.text, '&gt;]</d>'], rule=RULE)

    # two callers in one call, used as an operand
    def run(cx):
        cx.p = cx.pick('p', (True, False))
        return cx.xml(El('d', {}, D('f(c)', Tx('f${c()}')), D('g(c)', Tx('g${c()}')),
                         C('(f if p else g)(%caller)', None, Tx('!'))), p=Const(cx.p))
    c.case('call/expression', run, lambda cx: '<d>%s!</d>' % ('f' if cx.p else 'g'), rule=RULE)

    # -- text templates ----------------------------------------------------------------
    def run(cx):
        cx.x = cx.dyn('x', ('str', 'int', 'none'))
        return cx.text("{%def f(a, b='z')%}($a$b){%end%}1${f(x)}2${f(3, 4)}"
                       "{%call c(k) g(%caller)%}<$k>{%end%}{%def g(c)%}[${c(1)}${c(x)}]{%end%}"
                       .replace('call c(k)', 'call (k)'), x=cx.x)
    c.case('text', run, lambda cx: [
        '1(', cx.x.raw, 'z)2(34)[<1><', cx.x.raw, '>]'], rule=RULE)

    def run(cx):
        return cx.text("{%def f(a)%}{%def g(b)%}$a$b{%end%}${g(2)}{%end%}${f(1)}${f(3)}")
    c.case('text/nested', run, '1232', rule=RULE)
