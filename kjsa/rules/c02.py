"""C02 -- attribute values are quoted, escaped once, and omitted when None."""
from ..check import *

RULE = ('an attribute reaches the output as one space, its name and one quoted '
        'value whose parts pass exactly one escape homomorphism; it is absent '
        'iff every part is None')
VARIANTS = ('frag',)
MIN = {'quick': 60}


def attr(name, *parts):
    return [Const(' %s="' % name)] + [p if isinstance(p, V) else S(p) for p in parts] + \
        [Const('"')]


def check(c):
    modes = ('xml', 'html', 'html5')
    frag = lambda m: dict(mode=Const(m), is_fragment=TRUE)

    # -- literal text is arbitrary --------------------------------------------
    for mode in modes:
        def run(cx, mode=mode):
            return cx.xml(El('p', {'a': txt('v', excl='$')}, Tx('t')), opts=frag(mode))
        c.case('static/%s' % mode, run,
               ['<p', *attr('a', esc(Sym('v', 'str', excl='$'))), '>t</p>'], rule=RULE)

        def run(cx, mode=mode):
            return cx.xml(El('p', {'a': ''}, Tx('t')), opts=frag(mode))
        c.case('empty/%s' % mode, run, '<p a="">t</p>', rule=RULE)

    # -- one interpolated part, with and without text around it ---------------
    for form, pre, post in (('$x', '', ''), ('${x}', '', ''), ('p ${x} q', 'p ', ' q'),
                            ('$x;', '', ';'), ('<$x', '&lt;', ''), ('"$x', '&quot;', ''),
                            ('&$x', '&amp;', ''), ('$$$x', '$', '')):
        def run(cx, form=form):
            cx.x = cx.dyn('x', KINDS + ('false',))
            return cx.xml(El('p', {'a': form}, Tx('t')), x=cx.x)

        def want(cx, pre=pre, post=post):
            if cx.x.none and not pre and not post:
                return '<p>t</p>'
            return ['<p', *attr('a', pre, esc(cx.x.raw), post), '>t</p>']
        c.case('part/%s' % form, run, want, rule=RULE)

    # -- several parts keep their order, None contributes nothing -------------
    def run(cx):
        cx.x, cx.y = cx.dyn('x'), cx.dyn('y', ('none', 'str', 'markup'))
        return cx.xml(El('p', {'a': '${x}$y'}, Tx('t')), x=cx.x, y=cx.y)

    def want(cx):
        if cx.x.none and cx.y.none:
            return '<p>t</p>'
        return ['<p', *attr('a', esc(cx.x.raw), esc(cx.y.raw)), '>t</p>']
    c.case('two-parts', run, want, rule=RULE)

    def run(cx):
        cx.x, cx.y, cx.z = (cx.dyn(n, ('none', 'str')) for n in 'xyz')
        return cx.xml(El('p', {'a': '$x-${y}', 'c': '${z}', 'b': 'k$x'}, Tx('t')),
                      x=cx.x, y=cx.y, z=cx.z)

    def want(cx):
        z = [] if cx.z.none else attr('c', esc(cx.z.raw))
        return ['<p', *attr('a', esc(cx.x.raw), '-', esc(cx.y.raw)),
                *attr('b', 'k', esc(cx.x.raw)), *z, '>t</p>']
    c.case('sorted-attributes', run, want, rule=RULE)

    # -- attributes of different elements do not mix ---------------------------
    def run(cx):
        cx.x, cx.y = cx.dyn('x', ('none', 'str')), cx.dyn('y', ('none', 'str'))
        return cx.xml(El('p', {'a': '$x'}, El('q', {'a': '$y', 'b': '1'}, Tx('t')),
                         El('r', {'a': 's$x'})), x=cx.x, y=cx.y)

    def want(cx):
        a = lambda d: [] if d.none else attr('a', esc(d.raw))
        return ['<p', *a(cx.x), '><q', *a(cx.y), ' b="1">t</q><r',
                *attr('a', 's', esc(cx.x.raw)), '/></p>']
    c.case('nested', run, want, rule=RULE)

    # -- inside loops, functions and guards ------------------------------------
    def run(cx):
        xs = ListO([cx.dyn('x%d' % i, ('none', 'str')).value for i in range(2)])
        cx.xs = xs.items
        return cx.xml(El('d', {}, El('p', {'py:for': 'i in xs', 'a': '$i', 'b': '<$i>'},
                                     Tx('t'))), xs=xs)

    def want(cx):
        out = ['<d>']
        for v in cx.xs:
            out += ['<p'] + ([] if v == NONE else attr('a', esc(v)))
            out += [*attr('b', '&lt;', esc(v) if v != NONE else '', '&gt;'), '>t</p>']
        return out + ['</d>']
    c.case('in-loop', run, want, rule=RULE)

    def run(cx):
        cx.x = cx.dyn('x', ('none', 'str', 'int'))
        return cx.xml(El('d', {}, El('p', {'py:def': 'f(q)', 'a': '$q', 'b': 'z'}),
                         Tx('${f(x)}${f(None)}')), x=cx.x)

    def want(cx):
        a = [] if cx.x.none else attr('a', esc(cx.x.raw))
        return ['<d><p', *a, ' b="z"/><p b="z"/></d>']
    c.case('in-def', run, want, rule=RULE)

    def run(cx):
        cx.x = cx.dyn('x', ('none', 'str', 'int'))
        cx.s = cx.pick('strip', (True, False))
        return cx.xml(El('d', {}, El('p', {'py:strip': 's', 'a': '$x', 'b': 'z$x'},
                                     Tx('t'))), x=cx.x, s=Const(cx.s))

    def want(cx):
        if cx.s:
            return '<d>t</d>'
        a = [] if cx.x.none else attr('a', esc(cx.x.raw))
        return ['<d><p', *a, *attr('b', 'z', esc(cx.x.raw)), '>t</p></d>']
    c.case('guarded', run, want, rule=RULE)

    # -- boolean attributes -----------------------------------------------------
    names = ('checked', 'disabled', 'readonly', 'multiple', 'selected', 'nohref',
             'ismap', 'declare', 'defer')
    for mode in modes:
        def run(cx, mode=mode):
            cx.n = cx.pick('name', names)
            cx.v = cx.dyn('v', ('none', 'true', 'false', 'str'))
            cx.v.value = cx.v.value if cx.v.kind != 'str' else Const('yes')
            if cx.v.kind in ('true', 'false') and cx.pick('number', (False, True)):
                cx.v.value = Const(int(cx.v.kind == 'true'))
            return cx.xml(El('p', {'py:attrs': '{n: v}'}, Tx('t')), n=Const(cx.n), v=cx.v,
                          opts=frag(mode))

        def want(cx, mode=mode):
            if cx.v.kind in ('none', 'false'):
                return '<p>t</p>'
            if mode == 'xml':
                return '<p %s="%s">t</p>' % (cx.n, cx.n if cx.v.kind == 'true' else 'yes')
            return '<p %s>t</p>' % cx.n
        c.case('boolean/%s' % mode, run, want, rule=RULE)

        def run(cx, mode=mode):
            cx.v = cx.dyn('v', ('true', 'false', 'int'))
            return cx.xml(El('p', {'py:attrs': "{'title': v}"}, Tx('t')), v=cx.v,
                          opts=frag(mode))
        c.case('not-boolean/%s' % mode, run,
               lambda cx: ['<p', *attr('title', cx.v.raw), '>t</p>'], rule=RULE)

        def run(cx, mode=mode):
            cx.n = cx.pick('name', ('checked', 'selected'))
            return cx.xml(El('p', {cx.n: cx.n}, Tx('t')), opts=frag(mode))
        c.case('boolean-static/%s' % mode, run,
               lambda cx, mode=mode: ('<p %s="%s">t</p>' % (cx.n, cx.n) if mode == 'xml'
                                      else '<p %s>t</p>' % cx.n), rule=RULE)
