"""C28 -- py:block and autoblocks: overridable regions rendered in place."""
from ..check import *

RULE = ('the content of a block is rendered at its place, once, like the same content outside a '
        'block, and a template extending this one replaces exactly the blocks it defines; an '
        'element named in autoblocks is a block of that name unless py:autoblock says False, and '
        'that attribute is never rendered')
VARIANTS = ('frag',)
MIN = {'quick': 1100}

CONTENT = {
    'text': 'hello', 'expr': '$x', 'text-expr': 'a${x}b', 'element': '<b>$x</b>', 'empty': '',
    'blank': ' \n ', 'lines': '\n  hello $x\n', 'attribute': '<b a="$x" c="k">t</b>',
    'attrs': '<b py:attrs="{\'k\': x}">t</b>', 'content': '<b py:content="x"/>',
    'replace': '<b py:replace="x"/>', 'strip': '<b py:strip="True" a="$x">$x</b>',
    'if': '<py:if test="x is None">N</py:if><py:else>S$x</py:else>',
    'if-tag': '<b py:if="x">$x</b>', 'for': '<b py:for="i in (1, 2)">$i$x</b>',
    'switch': '<py:switch test="x is None"><py:case value="True">N</py:case><py:else>S$x</py:else>'
              '</py:switch>',
    'with': '<py:with vars="q=x; r=1">$q$r</py:with>',
    'def': '<py:def function="fn(q)">[$q]</py:def>${fn(x)}${fn(1)}',
    'call': '<py:def function="fn(c)">[${c()}]</py:def><py:call args="" function="fn(%caller)">$x'
            '</py:call>',
    'outer-def': '${of(x)}', 'comment': '<!-- c --><!--! hidden -->', 'entity': '&eacute;&lt;',
    'cdata': '<![CDATA[<a&b>]]>', 'script': '<script>a &lt; b</script>', 'void': '<br/><hr a="$x"/>',
    'code': '<?py q = x ?>$q', 'module-code': '<?py %q9 = 5 ?>$q9$x', 'nested': 'a<b>c<i>$x</i></b>d',
    'block': 'a<py:block name="inner">$x</py:block>c', 'dollar': '$$x', 'include':
        '<py:include href="i.xml"/>', 'two': '<b/><i>$x</i>', 'gettext': "${_('m')}",
    'defined': "${defined('x')}${value_of('zz', 1)}", 'self': '${self is local}',
    'empty-element': '<b/>', 'literal': '${literal(x)}', 'import':
        '<py:import href="i.xml"/>${i.fi(x)}',
}
PLACES = {
    'element': '<d>%s</d>', 'middle': '<d>1%s2</d>', 'nested': '<d><e>%s</e></d>',
    'if': '<d><py:if test="True">%s</py:if></d>', 'else':
        '<d><py:if test="False">0</py:if><py:else>%s</py:else></d>',
    'for': '<d><py:for each="k in (1, 2)">%s</py:for></d>',
    'case': '<py:switch test="1"><py:case value="1">%s</py:case></py:switch>',
    'with': '<d><py:with vars="w=1">%s</py:with></d>', 'strip': '<d py:strip="True">%s</d>',
    'two-levels': '<d><py:if test="True"><py:for each="k in (1,)">%s</py:for></py:if></d>',
    'block': '<d><py:block name="outer">(%s)</py:block></d>',
    'after': '<d><py:block name="other">o</py:block>%s</d>',
    'before': '<d>%s<py:block name="other">o</py:block></d>',
}
NAMES = ['a', 'body', 'title', 'b1', 'block', 'content', 'main', 'head', 'x', 'self', 'render', 'A',
         '_a', 'parent', 'name', 'local', 'kajiki', 'template', 'gettext', '__main__', 'def']
OF = '<py:def function="of(q)">{$q}</py:def>'
INC = '<s><py:def function="fi(q)">[$q]</py:def>i$x</s>'


def check(c):
    K = ('str', 'none', 'markup')
    deep = c.tier == 'thorough'

    def files(cx, main, opts={}, **other):
        f = {'a.xml': main, 'i.xml': INC}
        f.update({k + '.xml': v for k, v in other.items()})
        return cx.files(f, **opts)

    def put(place, s):
        src = place % s
        i = src.index('>') + 1
        return '<r>' + OF + src + '</r>'

    FORMS = {
        'element': lambda n, s: '<py:block name="%s">%s</py:block>' % (n, s),
        'attribute': lambda n, s: '<py:if test="True" py:block="%s">%s</py:if>' % (n, s),
        'strip': lambda n, s: '<z py:strip="True" py:block="%s">%s</z>' % (n, s),
    }
    PLAIN = lambda s: '<py:if test="True">%s</py:if>' % s

    # in place, like the content without block -------------------------------------------------
    for cn, s in CONTENT.items():
        for pn, place in PLACES.items():
            for fn, form in FORMS.items():
                if fn != 'element' and pn not in ('element', 'middle', 'for') and not deep:
                    continue
                if 'py:else' in s and fn != 'element':
                    continue

                def run(cx, s=s, place=place, form=form):
                    cx.x = cx.dyn('x', ('str', 'none'))
                    if 'href' in s:
                        get = lambda src: cx.load(files(cx, src), 'a.xml')
                    else:
                        get = cx.lab.compile
                    out = cx.render(get(put(place, form('blk', s))), x=cx.x)
                    cx.other = cx.render(get(put(place, PLAIN(s))), x=cx.x)
                    return out
                c.case('place/%s/%s/%s' % (fn, pn, cn), run, lambda cx: cx.other, rule=RULE)

    # the attribute on an element: the element is part of the block
    for cn in ('text', 'expr', 'empty', 'if', 'nested', 'attribute', 'for'):
        for attrs, extra in (('', ''), (' c="$x"', ''), ('', ' py:strip="x is None"'),
                             (' c="k"', ' py:if="x"'), ('', ' py:for="i in (1, 2)"')):
            def run(cx, cn=cn, attrs=attrs, extra=extra):
                cx.x = cx.dyn('x', K)
                s = CONTENT[cn]
                a = '<d>1<e%s%s py:block="blk">%s</e>2</d>' % (attrs, extra, s)
                b = '<d>1<e%s%s>%s</e>2</d>' % (attrs, extra, s)
                out = cx.render(cx.lab.compile(a), x=cx.x)
                cx.other = cx.render(cx.lab.compile(b), x=cx.x)
                return out
            c.case('on-element/%s/%s%s' % (cn, attrs, extra), run, lambda cx: cx.other, rule=RULE)

    # overriding -----------------------------------------------------------------------------------
    for n in NAMES:
        def run(cx, n=n):
            cx.x = cx.dyn('x', K)
            p = '<r>1<py:block name="%s">old</py:block>2<py:block name="other">$x</py:block></r>' % n
            ch = '<py:extends href="p.xml"><py:block name="%s">new$x</py:block></py:extends>' % n
            return cx.render(cx.load(files(cx, ch, p=p), 'a.xml'), x=cx.x)
        c.case('override/name/' + n, run, lambda cx: ['<r>1new', cx.x.text, '2', cx.x.text, '</r>'],
               rule=RULE)

        def run(cx, n=n):
            cx.x = cx.dyn('x', K)
            p = '<r>1<py:block name="%s">old</py:block>2<py:block name="other">$x</py:block></r>' % n
            return cx.render(cx.load(files(cx, p), 'a.xml'), x=cx.x)
        c.case('standalone/name/' + n, run, lambda cx: ['<r>1old2', cx.x.text, '</r>'], rule=RULE)
    for cn, s in CONTENT.items():
        if cn in ('block', 'def', 'module-code', 'import', 'call', 'self'):
            continue

        def run(cx, s=s):
            cx.x = cx.dyn('x', K)
            p = '<r>%s1<py:block name="blk">old</py:block>2</r>' % OF
            ch = '<py:extends href="p.xml"><py:block name="blk">%s</py:block></py:extends>' % s
            out = cx.render(cx.load(files(cx, ch, p=p), 'a.xml'), x=cx.x)
            cx.other = cx.render(cx.load(files(cx, '<r>%s1%s2</r>' % (OF, PLAIN(s))), 'a.xml'),
                                 x=cx.x)
            return out
        c.case('override/content/' + cn, run, lambda cx: cx.other, rule=RULE)
    for pn, place in PLACES.items():
        for which in ('blk', 'blk+other', 'none', 'unknown'):
            def run(cx, place=place, which=which):
                cx.x = cx.dyn('x', K)
                p = '<r>' + place % '<py:block name="blk">old</py:block>' + '</r>'
                b = ''.join('<py:block name="%s">%s${x}</py:block>' % (w, w.upper())
                            for w in which.split('+') if w != 'none')
                ch = '<py:extends href="p.xml">%s</py:extends>' % b
                out = cx.render(cx.load(files(cx, ch, p=p), 'a.xml'), x=cx.x)
                q = '<r>' + place % ('BLK${x}' if 'blk' in which else 'old') + '</r>'
                if 'other' in which:
                    q = q.replace('<py:block name="other">o</py:block>', 'OTHER${x}')
                cx.other = cx.render(cx.load(files(cx, q), 'a.xml'), x=cx.x)
                return out
            c.case('override/place/%s/%s' % (pn, which), run, lambda cx: cx.other, rule=RULE)

    # rendered once, where it stands, in order
    for order in ('abc', 'cab', 'bca', 'ba', 'a'):
        def run(cx, order=order):
            cx.x = cx.dyn('x', K)
            return cx.render(cx.lab.compile('<d>%s</d>' % ''.join(
                '%s<py:block name="%s">%s$x</py:block>' % (i, n, n.upper())
                for i, n in enumerate(order))), x=cx.x)
        c.case('order/' + order, run, lambda cx, order=order: ['<d>'] + [
            w for i, n in enumerate(order) for w in ('%d%s' % (i, n.upper()), cx.x.text)] +
            ['</d>'], rule=RULE)

    # autoblocks ----------------------------------------------------------------------------------
    def auto(cx, src, lst, **ctx):
        return cx.render(cx.lab.compile(src, autoblocks=lst), x=cx.x, **ctx)

    L = lambda *n: ListO([Const(x) for x in n])
    for cn, s in CONTENT.items():
        if cn in ('include', 'import', 'outer-def'):
            continue
        for tag in ('e', 'body', 'script') if cn in ('text', 'expr') else ('e',):
            for attrs in ('', ' a="1"', ' a="$x"'):
                def run(cx, s=s, tag=tag, attrs=attrs):
                    cx.x = cx.dyn('x', K)
                    out = auto(cx, '<d>1<%s%s>%s</%s>2</d>' % (tag, attrs, s, tag), L(tag))
                    cx.other = cx.render(cx.lab.compile(
                        '<d>1<py:block name="%s">%s</py:block>2</d>' % (tag, s)), x=cx.x)
                    return out
                c.case('auto/block/%s/%s%s' % (cn, tag, attrs), run, lambda cx: cx.other, rule=RULE)
    for lst in ((), ('e',), ('f',), ('e', 'f'), ('f', 'e'), ('d',), ('E',), ('ef',), ('d', 'e', 'f'),
                ('py:if',), ('g', 'h', 'e'), None):
        for flag in (None, 'True', 'true', 'TRUE', 'False', 'false', 'FALSE'):
            for kind in ('list', 'tuple'):
                if kind == 'tuple' and (lst is None or flag not in (None, 'False')):
                    continue

                def run(cx, lst=lst, flag=flag, kind=kind):
                    cx.x = cx.dyn('x', ('str', 'none'))
                    a = '' if flag is None else ' py:autoblock="%s"' % flag
                    src = '<d>1<e%s a="$x">E$x</e>2<f>F$x</f>3</d>' % a
                    ls = NONE if lst is None else L(*lst) if kind == 'list' else \
                        Tup([Const(x) for x in lst])
                    return auto(cx, src, ls)

                def want(cx, lst=lst, flag=flag):
                    x = cx.x.text
                    l = lst or ()
                    e = 'e' in l and (flag is None or flag.lower() == 'true')
                    at = [] if cx.x.none else [' a="', esc(cx.x.raw), '"']
                    out = ['1'] + (['E', x] if e else ['<e', *at, '>E', x, '</e>']) + ['2'] + (
                        ['F', x] if 'f' in l else ['<f>F', x, '</f>']) + ['3']
                    return out if 'd' in l else ['<d>'] + out + ['</d>']
                c.case('auto/list/%s/%s/%s' % ('+'.join(lst) if lst is not None else lst, flag, kind),
                       run, want, rule=RULE)
    for flag in ('True', 'False'):
        for form, src in {
                'if': '<d><e py:if="True" py:autoblock="F">$x</e></d>',
                'for': '<d><e py:for="i in (1,)" py:autoblock="F">$x</e></d>',
                'strip': '<d><e py:strip="False" py:autoblock="F">$x</e></d>',
                'void': '<d><br py:autoblock="F"/>$x</d>',
                'directive': '<d><py:if test="True" py:autoblock="F">$x</py:if></d>',
                'root': '<e py:autoblock="F">$x</e>',
                'inner': '<d><e><g py:autoblock="F">$x</g></e></d>',
                'attrs': '<d><e py:attrs="{}" py:autoblock="F">$x</e></d>',
                'content': '<d><e py:content="x" py:autoblock="F">0</e></d>',
                'block': '<d><e py:block="q" py:autoblock="F">$x</e></d>'}.items():
            def run(cx, src=src, flag=flag):
                cx.x = cx.dyn('x', ('str', 'none'))
                m = cx.pick('mode', ('xml', 'html5'))
                out = cx.render(cx.lab.compile(src.replace('"F"', '"%s"' % flag), mode=Const(m)),
                                x=cx.x)
                cx.other = cx.render(cx.lab.compile(src.replace(' py:autoblock="F"', ''),
                                                    mode=Const(m)), x=cx.x)
                return out
            c.case('auto/attribute/%s/%s' % (form, flag), run, lambda cx: cx.other, rule=RULE)
    # overriding with and of autoblocks
    P = {'py': ('<r>1<py:block name="e">old$x</py:block>2<py:block name="f">F</py:block></r>', None),
         'auto': ('<r>1<e>old$x</e>2<py:block name="f">F</py:block></r>', ('e',))}
    C = {'py': ('<py:extends href="p.xml"><py:block name="e">new$x</py:block></py:extends>', None),
         'auto': ('<py:extends href="p.xml"><e>new$x</e></py:extends>', ('e',)),
         'auto-attr': ('<py:extends href="p.xml"><e a="$x">new$x</e></py:extends>', ('e',)),
         'auto-true': ('<py:extends href="p.xml"><e py:autoblock="True">new$x</e></py:extends>',
                       ('e',)),
         'auto-parent': ('<py:extends href="p.xml"><e>new(${parent_block()})</e></py:extends>',
                         ('e',))}
    for pn, (p, pl) in P.items():
        for cn, (ch, cl) in C.items():
            def run(cx, p=p, pl=pl, ch=ch, cl=cl):
                cx.x = cx.dyn('x', K)
                parent = cx.lab.compile(p, autoblocks=L(*pl) if pl else NONE)
                child = cx.lab.compile(ch, autoblocks=L(*cl) if cl else NONE)
                h = cx.lab.call(cx.lab.get('kjsa_values.Holder'))
                h.attrs['import_'] = Native('import_', lambda ip, a, k: parent)
                cx.ip.setattr(child, 'loader', h)
                return cx.render(child, x=cx.x)
            c.case('auto/override/%s/%s' % (pn, cn), run, lambda cx, cn=cn: (
                ['<r>1new(old', cx.x.text, ')2F</r>'] if cn == 'auto-parent' else
                ['<r>1new', cx.x.text, '2F</r>']), rule=RULE)

            def run(cx, p=p, pl=pl, ch=ch, cl=cl):
                cx.x = cx.dyn('x', K)
                ld = files(cx, ch if cl else ch, {'xml_autoblocks': L('e')}, p=p)
                return cx.render(cx.load(ld, 'a.xml'), x=cx.x)
            c.case('auto/loader/%s/%s' % (pn, cn), run, lambda cx, cn=cn: (
                ['<r>1new(old', cx.x.text, ')2F</r>'] if cn == 'auto-parent' else
                ['<r>1new', cx.x.text, '2F</r>']), rule=RULE)
    # names differ by case, and as a whole
    for a, b in (('a', 'A'), ('body', 'BODY'), ('b', 'bb'), ('b', 'b_'), ('head', 'header'),
                 ('x1', 'x2'), ('ab', 'ba')):
        for auto_ in (False, True):
            def run(cx, a=a, b=b, auto_=auto_):
                cx.x = cx.dyn('x', K)
                p = '<r>1<py:block name="%s">one</py:block>2<py:block name="%s">two$x</py:block></r>' \
                    % (a, b)
                ch = ('<%s>new</%s>' % (a, a)) if auto_ else \
                    '<py:block name="%s">new</py:block>' % a
                ld = files(cx, '<py:extends href="p.xml">%s</py:extends>' % ch,
                           {'xml_autoblocks': L(a)} if auto_ else {}, p=p)
                return cat(S(cx.render(cx.load(ld, 'a.xml'), x=cx.x)),
                           S(cx.render(cx.load(ld, 'p.xml'), x=cx.x)))
            c.case('names/%s/%s%s' % (a, b, '/auto' * auto_), run, lambda cx: [
                '<r>1new2two', cx.x.text, '</r><r>1one2two', cx.x.text, '</r>'], rule=RULE)

        def run(cx, a=a, b=b):
            cx.x = cx.dyn('x', K)
            return auto(cx, '<d><%s>1$x</%s><%s>2</%s></d>' % (b, b, a, a), L(a))
        c.case('names/tags/%s/%s' % (a, b), run, lambda cx, b=b: [
            '<d><%s>1' % b, cx.x.text, '</%s>2</d>' % b], rule=RULE)

    # text templates --------------------------------------------------------------------------------
    for cn, s in {'text': 'hello', 'expr': '${x}', 'if': '{%if x is None%}N{%else%}S{%end%}',
                  'for': '{%for i in (1, 2)%}$i${x}{%end%}', 'nested': 'a{%block q%}${x}{%end%}b',
                  'empty': ''}.items():
        for pn, place in {'plain': '1%s2', 'if': '{%%if True%%}%s{%%end%%}',
                          'for': '{%%for k in (1, 2)%%}%s{%%end%%}',
                          'after': '{%%block o%%}o{%%end%%}%s'}.items():
            def run(cx, s=s, place=place):
                cx.x = cx.dyn('x', K)
                out = cx.text(place % ('{%block blk%}' + s + '{%end%}'), x=cx.x)
                cx.other = cx.text(place % ('{%if True%}' + s + '{%end%}'), x=cx.x)
                return out
            c.case('text/%s/%s' % (pn, cn), run, lambda cx: cx.other, rule=RULE)
        def run(cx, s=s):
            cx.x = cx.dyn('x', K)
            ld = cx.files({'p.txt': '1{%block blk%}old{%end%}2{%block o%}o{%end%}',
                           'a.txt': '{%extends "p.txt"%}{%block blk%}' + s + '{%end%}'})
            out = cx.render(cx.load(ld, 'a.txt'), x=cx.x)
            cx.other = cx.text('1{%if True%}' + s + '{%end%}2o', x=cx.x)
            return out
        c.case('text/override/' + cn, run, lambda cx: cx.other, rule=RULE) \
            if cn != 'nested' else None
