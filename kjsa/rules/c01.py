"""C01 -- dynamic values are escaped exactly once."""
from ..check import *

RULE = ('each dynamic value reaches the output through exactly one escape '
        'homomorphism unless it is markup; None reaches it as nothing')
VARIANTS = ('frag',)
MIN = {'quick': 100}


def check(c):
    forms = {
        'text-name': lambda cx: El('div', {}, Tx('a $x b')),
        'text-braced': lambda cx: El('div', {}, Tx('a ${x} b')),
        'content-attr': lambda cx: El('div', {'py:content': 'x'}, Tx('old')),
        'replace-attr': lambda cx: El('div', {}, Tx('a '), El('i', {'py:replace': 'x'}, Tx('old')), Tx(' b')),
        'replace-elem': lambda cx: El('div', {}, Tx('a '), El('py:replace', {'value': 'x'}), Tx(' b')),
    }
    for mode in ('xml', 'html', 'html5'):
        for name, mk in forms.items():
            def run(cx, mk=mk, mode=mode):
                cx.x = cx.dyn('x')
                return cx.xml(mk(cx), x=cx.x, opts=dict(mode=Const(mode), is_fragment=TRUE))

            def want(cx, name=name):
                if name == 'content-attr':
                    return [Const('<div>'), cx.x.text, Const('</div>')]
                return [Const('<div>a '), cx.x.text, Const(' b</div>')]
            c.case('%s/%s' % (name, mode), run, want, rule=RULE)
    for auto in (False, True):
        for form in ('$x', '${x}'):
            def run(cx, auto=auto, form=form):
                cx.x = cx.dyn('x')
                return cx.text('a %s b' % form, x=cx.x, opts=dict(autoescape=Const(auto)))

            def want(cx, auto=auto):
                if auto:
                    return ['a ', cx.x.text, ' b']
                return ['a ', cx.x.raw, ' b']
            c.case('text-template/%s/%s' % ('autoescape' if auto else 'plain', form),
                   run, want, rule=RULE)

    # the same value at any place of a template
    FORMS = {
        'name': lambda: [Tx('$x')],
        'braced': lambda: [Tx('${ x }')],
        'content': lambda: [El('u', {'py:content': 'x'})],
        'replace': lambda: [El('i', {'py:replace': 'x'})],
        'replace-elem': lambda: [El('py:replace', {'value': 'x'})],
        'conditional': lambda: [Tx('${x if True else 1}')],
        'or-none': lambda: [Tx('${None if False else x}')],
        'item': lambda: [Tx('${[0, x][1]}')],
        'call': lambda: [Tx("${(lambda v: v)(x)}")],
        'key': lambda: [Tx("${dict(k=x)['k']}")],
    }

    def one(tag, attrs):
        return lambda k: ([El(tag, attrs, *k)], 1, '', '')

    SOME = ['name', 'braced', 'content', 'replace', 'item']
    PLACES = {
        'plain': lambda k: (k, 1, '', ''),
        'deep': lambda k: ([El('b', {}, El('i', {}, *k))], 1, '<b><i>', '</i></b>'),
        'loop': lambda k: ([El('py:for', {'each': 'i in (1, 2)'}, *k)], 2, '', ''),
        'loop-attr': lambda k: ([El('b', {'py:for': 'i in (1, 2)'}, *k)], 2, '<b>', '</b>'),
        'if': one('py:if', {'test': 'True'}),
        'else': lambda k: ([El('py:if', {'test': 'False'}, Tx('n')), El('py:else', {}, *k)],
                           1, '', ''),
        'case': lambda k: ([El('py:switch', {'test': '1'},
                               El('py:case', {'value': '1'}, *k))], 1, '', ''),
        'case-else': lambda k: ([El('py:switch', {'test': '1'},
                                    El('py:case', {'value': '2'}, Tx('n')),
                                    El('py:else', {}, *k))], 1, '', ''),
        'with': one('py:with', {'vars': 'y=1'}),
        'with-other': lambda k: ([El('py:with', {'vars': 'y=x; z=y'}, *k)], 1, '', ''),
        'strip': one('b', {'py:strip': 'True'}),
        'strip-not': lambda k: ([El('b', {'py:strip': 'False'}, *k)], 1, '<b>', '</b>'),
        'block': one('py:block', {'name': 'k'}),
        'function': lambda k: ([El('py:def', {'function': 'f()'}, *k), Tx('${f()}')], 1, '', ''),
        'function-twice': lambda k: ([El('py:def', {'function': 'f()'}, *k),
                                      Tx('${f()}${f()}')], 2, '', ''),
        'function-parameter': lambda k: ([El('py:def', {'function': 'f(x)'}, *k),
                                          Tx('${f(x)}')], 1, '', ''),
        'function-in-function': lambda k: ([El('py:def', {'function': 'f(x)'}, *k),
                                            El('py:def', {'function': 'g(y)'}, Tx('[${f(y)}]')),
                                            Tx('${g(x)}')], 1, '[', ']'),
        'function-as-argument': lambda k: ([El('py:def', {'function': 'f()'}, *k),
                                            El('py:def', {'function': 'g(y)'}, Tx('[$y]')),
                                            Tx('${g(f())}')], 1, '[', ']'),
        'function-content': lambda k: ([El('py:def', {'function': 'f()'}, *k),
                                        El('b', {'py:content': 'f()'})], 1, '<b>', '</b>'),
        'function-replace': lambda k: ([El('py:def', {'function': 'f()'}, *k),
                                        El('b', {'py:replace': 'f()'})], 1, '', ''),
        'call-body': lambda k: ([El('py:def', {'function': 'f(c)'}, Tx('[${c()}]')),
                                 El('py:call', {'args': '', 'function': 'f(%caller)'}, *k)],
                                1, '[', ']'),
        'nested-function': lambda k: ([El('py:def', {'function': 'g()'},
                                          El('py:def', {'function': 'f()'}, *k),
                                          Tx('[${f()}]')), Tx('${g()}')], 1, '[', ']'),
        'script': None, 'style': None, 'title': lambda k: (
            [El('title', {}, *k)], 1, '<title>', '</title>'),
    }
    for place, mk in PLACES.items():
        for mode in ('xml', 'html5'):
            def run(cx, place=place, mk=mk, mode=mode):
                cx.x = cx.dyn('x')
                form = cx.pick('form', list(FORMS) if place in ('plain', 'loop', 'function')
                               else SOME if mk else SOME[:2])
                kids = FORMS[form]()
                l, r = ('<u>', '</u>') if form == 'content' else ('', '')
                if mk is None:
                    l, r = ('/*<![CDATA[*/', '/*]]>*/') if mode == 'xml' else ('', '')
                    doc, n, a, b = [El(place, {}, *kids)], 1, '<%s>' % place, '</%s>' % place
                else:
                    doc, n, a, b = mk(kids)
                cx.want = ['<d>'] + [a + l, cx.x.text, r + b] * n + ['</d>']
                return cx.xml(El('d', {}, *doc), x=cx.x,
                              opts=dict(mode=Const(mode), is_fragment=TRUE))
            c.case('place/%s/%s' % (place, mode), run, lambda cx: cx.want, rule=RULE)

    # several templates
    for key, files in {
        'include': {'a.xml': '<d><py:include href="b.xml"/></d>', 'b.xml': '<b>$x</b>'},
        'include-nested': {'a.xml': '<d><py:include href="c.xml"/></d>',
                           'c.xml': '<c py:strip="True"><py:include href="b.xml"/></c>',
                           'b.xml': '<b>${x}</b>'},
        'import': {'a.xml': '<d><py:import href="b.xml" alias="m"/>${m.f(x)}</d>',
                   'b.xml': '<u><py:def function="f(v)"><b>$v</b></py:def></u>'},
        'parent': {'a.xml': '<py:extends href="b.xml"/>', 'b.xml': '<d><b>$x</b></d>'},
        'child-block': {'a.xml': '<py:extends href="b.xml"><py:block name="k"><b>$x</b></py:block>'
                                 '</py:extends>',
                        'b.xml': '<d><py:block name="k">old</py:block></d>'},
        'parent-block': {'a.xml': '<py:extends href="b.xml"><py:block name="k">${parent_block()}'
                                  '</py:block></py:extends>',
                         'b.xml': '<d><py:block name="k"><b>$x</b></py:block></d>'},
        'child-function': {'a.xml': '<py:extends href="b.xml"><py:def function="f(v)"><b>$v</b>'
                                    '</py:def></py:extends>',
                           'b.xml': '<d><py:def function="f(v)">old</py:def>${f(x)}</d>'},
        'parent-function': {'a.xml': '<py:extends href="b.xml"><py:block name="k">${f(x)}'
                                     '</py:block></py:extends>',
                            'b.xml': '<d><py:def function="f(v)"><b>$v</b></py:def>'
                                     '<py:block name="k">old</py:block></d>'},
        'layout-slot': {'a.xml': '<d><py:import href="b.xml" alias="m"/>'
                                 '<py:call args="v" function="m.f(%caller)">$v</py:call></d>',
                        'b.xml': '<u><py:def function="f(c)"><b>${c(x)}</b></py:def></u>'},
    }.items():
        def run(cx, files=files):
            cx.x = cx.dyn('x')
            return cx.render(cx.load(cx.files(files), 'a.xml'), x=cx.x)
        c.case('templates/' + key, run,
               lambda cx: ['<d><b>', cx.x.text, '</b></d>'], rule=RULE)

    # several values side by side: each escaped for itself
    KK = ('none', 'str', 'markup', 'int')

    def run(cx):
        cx.v = [cx.dyn(n, KK) for n in 'xyz']
        return cx.xml(El('d', {}, Tx('$x${y}'), El('b', {'py:content': 'z'}), Tx('$z$x')),
                      x=cx.v[0], y=cx.v[1], z=cx.v[2])
    c.case('several-values', run, lambda cx: [
        '<d>', cx.v[0].text, cx.v[1].text, '<b>', cx.v[2].text, '</b>', cx.v[2].text,
        cx.v[0].text, '</d>'], rule=RULE)

    # values that are equal, yet not the same text
    EQUAL = {'1': Const(1), 'True': Const(True), '1.0': Const(1.0), '0': Const(0),
             'False': Const(False), '0.0': Const(0.0), '-0.0': Const(-0.0), '100': Const(100),
             '100.0': Const(100.0)}
    for p, q in [(p, q) for p in EQUAL for q in EQUAL
                 if p != q and EQUAL[p].v == EQUAL[q].v]:
        def run(cx, p=p, q=q):
            cx.m = cx.pick('two', ('same-render', 'renders', 'templates'))
            d = El('d', {}, Tx('$x'), El('b', {'py:content': 'x'}))
            if cx.m == 'same-render':
                e = El('d', {}, Tx('$x$y$x'), El('b', {'py:content': 'y'}))
                return cx.xml(e, x=EQUAL[p], y=EQUAL[q])
            t = cx.template(d)
            a = cx.render(t, x=EQUAL[p])
            b = cx.render(t if cx.m == 'renders' else cx.template(d), x=EQUAL[q])
            return cat(a, b)
        c.case('equal/%s,%s' % (p, q), run, lambda cx, p=p, q=q: (
            '<d>%s%s%s<b>%s</b></d>' % (p, q, p, q) if cx.m == 'same-render' else
            '<d>%s<b>%s</b></d><d>%s<b>%s</b></d>' % (p, p, q, q)), rule=RULE)

    # plain text and markup with the same characters
    for order in ('xm', 'mx'):
        def run(cx, order=order):
            cx.x, cx.m = txt('x'), txt('x')
            h = cx.lab.call(cx.lab.get('kajiki.util.literal'), cx.x)
            t = cx.template(El('d', {}, Tx('$%s|$%s' % tuple(order))))
            return cx.render(t, x=cx.x, m=h)
        c.case('text-and-markup/' + order, run, lambda cx, order=order: [
            '<d>', *((esc(cx.x), '|', cx.x) if order == 'xm' else (cx.x, '|', esc(cx.x))),
            '</d>'], rule=RULE)

    # a value is escaped again only when it was turned into plain text in between
    def run(cx):
        cx.x = cx.dyn('x', ('str', 'int', 'markup', 'obj'))
        return cx.xml(El('d', {}, El('py:def', {'function': 'f(v)'}, Tx('$v')),
                         Tx('${f(x)}|${f(f(x))}|'), El('b', {'py:content': 'f(f(x))'})), x=cx.x)
    c.case('once/functions', run, lambda cx: [
        '<d>', cx.x.text, '|', cx.x.text, '|<b>', cx.x.text, '</b></d>'], rule=RULE)

    # literal() marks anything as markup
    for form in ('${literal(x)}', '${ literal(x) }', None):
        def run(cx, form=form):
            cx.x = cx.dyn('x', ('str', 'markup', 'int'))
            return cx.xml(El('d', {}, Tx(form)) if form else El('d', {'py:content': 'literal(x)'}),
                          x=cx.x)
        c.case('literal/%s' % (form or 'content'), run,
               lambda cx: ['<d>', cx.x.raw, '</d>'], rule=RULE)

    # every special character, alone and between others
    for ch, img in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'), ('"', '&quot;'), ("'", "'"),
                    ('\n', '\n'), ('\u00e9', '\u00e9'), ('\0', '\0'), ('&amp;', '&amp;amp;'),
                    ('&#60;', '&amp;#60;'), ('<![CDATA[', '&lt;![CDATA['), (']]>', ']]&gt;'),
                    ('$x', '$x'), ('${x}', '${x}'), ('%(x)s', '%(x)s'), ('{0}', '{0}'),
                    ('\\', '\\'), ('<!--', '&lt;!--'), ('\U0001f600', '\U0001f600')):
        for n, form in enumerate((lambda: El('d', {}, Tx('$x')), lambda: El('d', {'py:content': 'x'}),
                                  lambda: El('d', {}, El('i', {'py:replace': 'x'})))):
            def run(cx, ch=ch, form=form):
                p = cx.pick('around', ('', 'p', '<'))
                cx.p = p.replace('<', '&lt;')
                return cx.xml(form(), x=Const(p + ch + p))
            c.case('char/%r/%d' % (ch, n), run,
                   lambda cx, img=img: '<d>%s%s%s</d>' % (cx.p, img, cx.p), rule=RULE)
