"""C05 -- py:strip removes exactly the start and end tag, nothing else."""
from ..check import *
from .c04 import tagsym, frag, VOID, MODES

RULE = ('when the py:strip condition holds the output is the content of the element '
        'alone, otherwise the output of the same element without py:strip')
VARIANTS = ('frag',)
MIN = {'quick': 60}


def check(c):
    # the element with its content, in every form
    shapes = {
        'text': (lambda: [Tx('t $x u')], True),
        'mixed': (lambda: [Tx('t '), El('i', {'k': '$x'}, Tx('u')), Tx(' w')], True),
        'empty': (lambda: [], True),
        'comment': (lambda: [Cm('c'), Tx('t')], True),
        'child-stripped': (lambda: [El('i', {'py:strip': 'r'}, Tx('u'))], True),
    }
    attrs = {
        'none': lambda: {},
        'static': lambda: {'a': '1', 'b': '<>'},
        'interpolated': lambda: {'a': 'k$x', 'b': '$y'},
        'py:attrs': lambda: {'a': '1', 'py:attrs': '{"z": x, "w": y}'},
        'py:content': lambda: {'a': '1', 'py:content': 'x'},
    }
    for sh, (kids, _) in shapes.items():
        for an, at in attrs.items():
            for mode in MODES if c.tier == 'thorough' else ('xml', 'html5'):
                def run(cx, kids=kids, at=at, mode=mode):
                    s = cx.pick('strip', (True, False))
                    tag = tagsym()
                    cx.x, cx.y = cx.dyn('x', ('str', 'markup')), cx.dyn('y', ('none', 'str'))
                    ctx = dict(x=cx.x, y=cx.y, s=Const(s), r=FALSE)
                    plain = at()
                    if s:   # the content alone, inside the same parent
                        if 'py:content' in plain:
                            other = [Tx('$x')]
                        else:
                            other = kids()
                    else:
                        other = [El(tag, plain, *kids())]
                    cx.other = cx.xml(El('d', {}, *other), opts=frag(mode), **ctx)
                    return cx.xml(El('d', {}, El(tag, dict(at(), **{'py:strip': 's'}),
                                                 *kids())), opts=frag(mode), **ctx)

                def want(cx, sh=sh):
                    o = cx.other
                    if o in (Const('<d/>'), Const('<d></d>')):
                        return '<d></d>'
                    return o
                c.case('%s/%s/%s' % (sh, an, mode), run, want, rule=RULE)

    # void elements and elements that are never self-closed
    for mode in MODES:
        def run(cx, mode=mode):
            cx.s = cx.pick('strip', (True, False))
            cx.tag = cx.pick('tag', VOID + ('td',))
            cx.k = cx.pick('content', ('none', 'text'))
            kids = [Tx('q')] if cx.k == 'text' else []
            return cx.xml(El('d', {}, Tx('u'), El(cx.tag, {'py:strip': 's', 'a': '1'}, *kids)),
                          s=Const(cx.s), opts=frag(mode))

        def want(cx, mode=mode):
            t = 'q' if cx.k == 'text' else ''
            if cx.s:
                return '<d>u%s</d>' % t
            if mode == 'xml':
                e = '/>' if not t else '>q</%s>' % cx.tag
            elif cx.tag in VOID:
                e = '>' + t
            else:
                e = '>%s</%s>' % (t, cx.tag)
            return '<d>u<%s a="1"%s</d>' % (cx.tag, e)
        c.case('void/' + mode, run, want, rule=RULE)

    # the condition: empty means yes; any expression is taken as a whole
    def run(cx):
        return cx.xml(El('d', {}, El('p', {'py:strip': '', 'a': '1', 'py:attrs': '{"q": 1}'},
                                     Tx('t'))))
    c.case('condition/empty', run, '<d>t</d>', rule=RULE)

    exprs = {
        'p or q': lambda p, q: p or q, 'p and q': lambda p, q: p and q,
        'p if q else not p': lambda p, q: p if q else not p,
        'not p': lambda p, q: not p, 'p == q': lambda p, q: p == q,
        'not p or q': lambda p, q: not p or q, 'p and not q': lambda p, q: p and not q,
        'p != q': lambda p, q: p != q, 'p in (q, None)': lambda p, q: p in (q, None),
        'p or not q and p': lambda p, q: p or not q and p,
        '(p, q)[0]': lambda p, q: p, 'p is q': lambda p, q: p is q,
        'p  ': lambda p, q: p, '[p, q] == [q, p]': lambda p, q: p == q,
        '(lambda z: z)(p)': lambda p, q: p,
    }
    for e, fn in exprs.items():
        def run(cx, e=e):
            cx.p, cx.q = cx.pick('p', (True, False)), cx.pick('q', (True, False))
            cx.x = cx.dyn('x', ('str',))
            return cx.xml(El('d', {}, El('p', {'py:strip': e, 'a': '$x',
                                               'py:attrs': '{"b": x}'}, Tx('t'))),
                          p=Const(cx.p), q=Const(cx.q), x=cx.x)

        def want(cx, fn=fn):
            if fn(cx.p, cx.q):
                return '<d>t</d>'
            return ['<d><p a="', cx.x.text, '" b="', cx.x.text, '">t</p></d>']
        c.case('condition/' + e, run, want, rule=RULE)

    # truth of the value, not the value itself
    def run(cx):
        cx.v = cx.pick('v', ('zero', 'one', 'empty', 'text', 'None', 'list', 'nil'))
        v = {'zero': Const(0), 'one': Const(1), 'empty': Const(''), 'text': Const('False'),
             'None': NONE, 'list': ListO([Const(0)]), 'nil': ListO([])}[cx.v]
        return cx.xml(El('d', {}, El('p', {'py:strip': 'v', 'a': '1'}, Tx('t'))), v=v)
    c.case('truth', run, lambda cx: '<d>t</d>' if cx.v in ('one', 'text', 'list')
           else '<d><p a="1">t</p></d>', rule=RULE)

    # root element; inside a loop the condition is evaluated per element
    def run(cx):
        cx.s = cx.pick('strip', (True, False))
        return cx.xml(El('p', {'py:strip': 's', 'a': '1'}, Tx('t')), s=Const(cx.s))
    c.case('root', run, lambda cx: 't' if cx.s else '<p a="1">t</p>', rule=RULE)

    def run(cx):
        cx.b = [cx.pick('b%d' % i, (True, False)) for i in range(3)]
        return cx.xml(El('d', {}, El('p', {'py:for': 's in v', 'py:strip': 's', 'a': '$s'},
                                     Tx('t'))), v=ListO([Const(b) for b in cx.b]))
    c.case('loop', run, lambda cx: '<d>%s</d>' % ''.join(
        't' if b else '<p a="False">t</p>' for b in cx.b), rule=RULE)
