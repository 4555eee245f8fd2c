"""C04 -- every start tag is closed exactly as its rendering mode requires."""
from ..check import *

RULE = ('the output of an element is its start tag, its children in order and the '
        'end tag its mode requires, for every element name')
VARIANTS = ('frag',)
MIN = {'quick': 40}

VOID = ('area', 'base', 'br', 'col', 'hr', 'img', 'input', 'link', 'meta', 'param')
MODES = ('xml', 'html', 'html5')


def tagsym(name='tag'):
    return Sym(name, 'str', generic=True, nonempty=True, nonblank=True, trimmed=True,
               oneline=True, excl=':$<>&" \'')


def frag(mode):
    return dict(mode=Const(mode), is_fragment=TRUE)


def check(c):
    def tag_of(cx, special):
        k = cx.pick('tag', ('any-name',) + special)
        cx.kind = k
        return tagsym() if k == 'any-name' else Const(k)

    for mode in MODES:
        html = mode != 'xml'

        # -- no content ------------------------------------------------------
        def run(cx, mode=mode):
            cx.tag = tag_of(cx, VOID + ('script', 'style', 'td'))
            cx.attrs = cx.pick('attrs', ('no', 'yes'))
            return cx.xml(El('d', {}, El(cx.tag, {'a': '1'} if cx.attrs == 'yes' else {})),
                          opts=frag(mode))

        def want(cx, html=html):
            a = ' a="1"' if cx.attrs == 'yes' else ''
            if cx.kind == 'script' or html and cx.kind not in VOID:
                end = ['></', cx.tag, '>']
            elif html:
                end = ['>']
            else:
                end = ['/>']
            return ['<d><', cx.tag, a, *end, '</d>']
        c.case('empty/' + mode, run, want, rule=RULE)

        # -- with content: children in document order ------------------------
        def run(cx, mode=mode):
            cx.tag = tag_of(cx, VOID + ('td',))
            cx.x = cx.dyn('x', ('str', 'none'))
            return cx.xml(El(cx.tag, {'b': '2', 'a': '$x'}, Tx('t'), El('i', {}, Tx('u')),
                             Tx(' v $x '), El('b'), Tx('w')),
                          x=cx.x, opts=frag(mode))

        def want(cx, html=html):
            a = [] if cx.x.none else [' a="', cx.x.text, '"']
            e = [] if html and cx.kind in VOID else ['</', cx.tag, '>']
            b = '<b></b>' if html else '<b/>'
            return ['<', cx.tag, *a, ' b="2">t<i>u</i> v ', cx.x.text, ' ', b, 'w', *e]
        c.case('children/' + mode, run, want, rule=RULE)

        # -- the same with the content given by py:content --------------------
        def run(cx, mode=mode):
            cx.tag = tag_of(cx, VOID + ('td', 'script', 'style'))
            cx.kids = cx.pick('children', ('none', 'text'))
            cx.x = cx.dyn('x', ('str', 'none', 'markup', 'int'))
            return cx.xml(El('d', {}, El(cx.tag, {'py:content': 'x', 'a': '1'},
                                         *([Tx('old')] if cx.kids == 'text' else []))),
                          x=cx.x, opts=frag(mode))

        def want(cx, html=html):
            e = [] if html and cx.kind in VOID else ['</', cx.tag, '>']
            return ['<d><', cx.tag, ' a="1">', cx.x.text, *e, '</d>']
        c.case('py-content/' + mode, run, want, rule=RULE)

        # -- nesting ---------------------------------------------------------
        def run(cx, mode=mode):
            t = [tagsym('t%d' % i) for i in range(4)]
            cx.t = t
            return cx.xml(El(t[0], {}, El(t[1], {}, El(t[2], {}, Tx('x')), El(t[3])),
                             El(t[2])), opts=frag(mode))

        def want(cx, html=html):
            t = cx.t
            def e(n):
                return ['<', n, '></', n, '>'] if html else ['<', n, '/>']
            return ['<', t[0], '><', t[1], '><', t[2], '>x</', t[2], '>', *e(t[3]),
                    '</', t[1], '>', *e(t[2]), '</', t[0], '>']
        c.case('nesting/' + mode, run, want, rule=RULE)

        # -- names are emitted as written ------------------------------------
        for tag in ('svg:rect', 'Ab', 'x-y', 'BR'):
            def run(cx, tag=tag, mode=mode):
                return cx.xml(El(tag, {'xlink:Href': 'q', 'data-x': 'r'}, Tx('t')),
                              opts=frag(mode))
            c.case('names/%s/%s' % (tag, mode), run,
                   '<%s data-x="r" xlink:Href="q">t</%s>' % (tag, tag), rule=RULE)

    # -- directives on the element do not change how it closes ---------------
    dirs = {'py:if': 'True', 'py:for': 'i in (1,)', 'py:with': 'q=1',
            'py:strip': 'False', 'py:attrs': 'None', 'py:block': 'bk'}
    for mode in MODES:
        for d, v in sorted(dirs.items()):
            def run(cx, d=d, v=v, mode=mode):
                cx.tag = tag_of(cx, ('br', 'script'))
                return cx.xml(El('d', {}, El(cx.tag, {d: v, 'a': '1'})), opts=frag(mode))

            def want(cx, mode=mode):
                if cx.kind == 'script' or mode != 'xml' and cx.kind != 'br':
                    end = ['></', cx.tag, '>']
                else:
                    end = ['>'] if mode != 'xml' else ['/>']
                return ['<d><', cx.tag, ' a="1"', *end, '</d>']
            c.case('directive/%s/%s' % (d, mode), run, want, rule=RULE)
