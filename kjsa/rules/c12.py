"""C12 -- py:include and py:import load through the loader and share the context."""
from ..check import *

RULE = ('an include renders the named template, loaded as a fragment by the loader of the '
        'including template, with the variables visible there; an import binds it under '
        'its alias and emits nothing')
VARIANTS = ('frag',)
MIN = {'quick': 40}


def check(c):
    K = ('str', 'none', 'markup', 'int')

    def case(key, files, out, name='a.xml', kinds=K, text=False, **opts):
        def run(cx):
            cx.x = cx.dyn('x', kinds)
            return cx.render(cx.load(cx.files(files, **opts), name), x=cx.x)
        c.case(key, run, out, rule=RULE)

    X = lambda *p: (lambda cx: [cx.x.text if s == 'X' else cx.x.raw if s == 'R' else s for s in p])

    # include ------------------------------------------------------------------------
    case('include', {'a.xml': '<p>1<py:include href="b.xml"/>2</p>', 'b.xml': '<b>$x</b>'},
         X('<p>1<b>', 'X', '</b>2</p>'))
    case('include/twice', {'a.xml': '<p><py:include href="b.xml"/><py:include href="b.xml"/></p>',
                           'b.xml': '<b>$x</b>'}, X('<p><b>', 'X', '</b><b>', 'X', '</b></p>'))
    case('include/nested', {'a.xml': '<p><py:include href="b.xml"/></p>',
                            'b.xml': '<b><py:include href="c.xml"/>$x</b>', 'c.xml': '<i>$x</i>'},
         X('<p><b><i>', 'X', '</i>', 'X', '</b></p>'))
    case('include/loop', {'a.xml': '<p py:for="i in (1, 2)"><py:include href="b.xml"/></p>',
                          'b.xml': '<b>$x</b>'},
         X('<p><b>', 'X', '</b></p><p><b>', 'X', '</b></p>'))
    case('include/guarded', {'a.xml': '<p><py:if test="x is None"><py:include href="b.xml"/>'
                                      '</py:if></p>', 'b.xml': '<b>$x</b>'},
         lambda cx: '<p><b></b></p>' if cx.x.none else '<p></p>')
    case('include/in-function', {'a.xml': '<p><py:def function="f()"><py:include href="b.xml"/>'
                                          '</py:def>${f()}${f()}</p>', 'b.xml': '<b>$x</b>'},
         X('<p><b>', 'X', '</b><b>', 'X', '</b></p>'))
    case('include/in-block', {'a.xml': '<p><py:block name="k"><py:include href="b.xml"/>'
                                       '</py:block></p>', 'b.xml': '<b>$x</b>'},
         X('<p><b>', 'X', '</b></p>'))
    case('include/module-code', {'a.xml': '<p><?py % q = 5 ?><py:include href="b.xml"/></p>',
                                 'b.xml': '<b>$q$x</b>'}, X('<p><b>5', 'X', '</b></p>'))
    case('include/subdirectory', {'a.xml': '<p><py:include href="s/b.xml"/></p>',
                                  's/b.xml': '<b>$x</b>'}, X('<p><b>', 'X', '</b></p>'))
    case('include/with-functions', {
        'a.xml': '<p><py:def function="f(q)">A$q</py:def><py:include href="b.xml"/>${f(1)}</p>',
        'b.xml': '<b><py:def function="f(q)">B$q</py:def>${f(x)}</b>'},
        X('<p><b>B', 'X', '</b>A1</p>'))
    case('include/extending', {
        'a.xml': '<p><py:include href="c.xml"/></p>',
        'p.xml': '<r><py:block name="k">K0</py:block></r>',
        'c.xml': '<py:extends href="p.xml"><py:block name="k">K1$x</py:block></py:extends>'},
        X('<p><r>K1', 'X', '</r></p>'))
    case('include/own-blocks', {
        'a.xml': '<p><py:block name="k">KA</py:block><py:include href="b.xml"/></p>',
        'b.xml': '<b><py:block name="k">KB$x</py:block></b>'}, X('<p>KA<b>KB', 'X', '</b></p>'))
    case('include/binds-nothing', {
        'a.xml': '<p><py:include href="x.xml"/>$x</p>', 'x.xml': '<b/>'}, X('<p><b/>', 'X', '</p>'))
    case('include/self-local', {
        'a.xml': '<p><py:def function="f()">A</py:def><py:include href="b.xml"/>${self.f()}</p>',
        'b.xml': '<b><py:def function="f()">B$x</py:def>${self.f()}${local.f()}</b>'},
        X('<p><b>B', 'X', 'B', 'X', '</b>A</p>'))
    case('include/callers-function', {
        'a.xml': '<p><py:def function="f()">A$x</py:def><py:include href="b.xml"/></p>',
        'b.xml': '<b>${f()}</b>'}, X('<p><b>A', 'X', '</b></p>'))
    case('include/from-parent', {
        'p.xml': '<r><?py % q = 5 ?><py:include href="b.xml"/></r>',
        'a.xml': '<py:extends href="p.xml"/>', 'b.xml': '<b>$x$q</b>'},
        X('<r><b>', 'X', '5</b></r>'))
    case('import/in-parent', {
        'p.xml': '<r><py:import href="b.xml"/>${b.f()}<py:block name="k">0</py:block></r>',
        'a.xml': '<py:extends href="p.xml"><py:block name="k">${b.f()}</py:block></py:extends>',
        'b.xml': '<r><py:def function="f()">B$x</py:def></r>'}, X('<r>B', 'X', 'B', 'X', '</r>'))
    for e in ('html', 'html5'):
        case('include/doctype/' + e, {
            'a.' + e: '<!DOCTYPE html><p><py:include href="b.%s"/></p>' % e,
            'b.' + e: '<!DOCTYPE html><b>$x</b>'},
            X('<!DOCTYPE html>\n<p><b>', 'X', '</b></p>'), name='a.' + e)

    # import -----------------------------------------------------------------------
    lib = '<py:nop>NO<py:def function="f(q)">(<i>$q</i>)</py:def><py:def function="g()">$x</py:def></py:nop>'
    for key, imp, alias in (('alias', '<py:import href="lib.xml" alias="m"/>', 'm'),
                            ('default', '<py:import href="lib.xml"/>', 'lib'),
                            ('subdirectory', '<py:import href="s/l2.xml"/>', 'l2'),
                            ('subdirectory-alias', '<py:import href="s/l2.xml" alias="lib"/>', 'lib')):
        case('import/' + key, {
            'a.xml': '<p>1%s2${%s.f(x)}${%s.g()}</p>' % (imp, alias, alias),
            'lib.xml': lib, 's/l2.xml': lib}, X('<p>12(<i>', 'X', '</i>)', 'X', '</p>'))
    for href, alias in (('b.c.xml', 'b.c'), ('s.t/b.xml', 'b'), ('s.t/b.c.xml', 'b.c'),
                        ('s/t/u/b.xml', 'b'), ('B-1.xml', 'B-1'), ('b_c.xml', 'b_c'),
                        ('b.xml.xml', 'b.xml')):
        case('import/default-alias/' + href, {
            'a.xml': '<p><py:import href="%s"/>${value_of("%s").f(x)}</p>' % (href, alias),
            href: lib}, X('<p>(<i>', 'X', '</i>)</p>'))
        case('import/default-alias/text/' + href, {
            'a.txt': '{%%import "%s"%%}${value_of("%s").f(x)}' % (href, alias),
            href: lib}, X('(<i>', 'X', '</i>)'), name='a.txt')
    case('import/two', {
        'a.xml': '<p><py:import href="b.xml"/><py:import href="c.xml" alias="d"/>${b.f()}${d.f()}'
                 '${b.f()}</p>',
        'b.xml': '<r><py:def function="f()">B$x</py:def></r>',
        'c.xml': '<r><py:def function="f()">C</py:def></r>'}, X('<p>B', 'X', 'CB', 'X', '</p>'))
    case('import/in-function', {
        'a.xml': '<p><py:def function="h()"><py:import href="b.xml"/>${b.f()}</py:def>${h()}</p>',
        'b.xml': '<r><py:def function="f()">B$x</py:def></r>'}, X('<p>B', 'X', '</p>'))
    case('import/transitive', {
        'a.xml': '<p><py:import href="b.xml"/>${b.f()}</p>',
        'b.xml': '<r><py:def function="f()"><py:import href="c.xml"/>B${c.g()}</py:def></r>',
        'c.xml': '<r><py:def function="g()">C$x</py:def></r>'}, X('<p>BC', 'X', '</p>'))
    case('import/child-blocks', {
        'p.xml': '<r><py:block name="k">K0</py:block></r>',
        'a.xml': '<py:extends href="p.xml"><py:block name="k"><py:import href="b.xml"/>'
                 '${b.f()}</py:block></py:extends>',
        'b.xml': '<r><py:def function="f()">B$x</py:def></r>'}, X('<r>B', 'X', '</r>'))
    case('import/whole', {
        'a.xml': '<p><py:import href="b.xml" alias="m"/>${m.__main__()}</p>',
        'b.xml': '<b>$x</b>'}, X('<p><b>', 'X', '</b></p>'))
    # doctype of imported templates never shows
    case('import/doctype', {
        'a.html5': '<p><py:import href="b.html5" alias="m"/>${m.__main__()}</p>',
        'b.html5': '<!DOCTYPE html><b>$x</b>'},
        X('<!DOCTYPE html>\n<p><b>', 'X', '</b></p>'), name='a.html5')

    # the loader is asked once per reference, as a fragment ------------------------------
    for what, tag in (('include', '<py:include href="b"/>'),
                      ('import', '<py:import href="b"/>'),
                      ('import-alias', '<py:import href="b" alias="q"/>')):
        for kind in ('xml', 'text'):
            def run(cx, tag=tag, what=what, kind=kind):
                b = cx.lab.compile('<b/>')
                if kind == 'xml':
                    a = cx.lab.compile('<p>' + tag + '</p>')
                else:
                    t = {'include': '{%include "b"%}', 'import': '{%import "b"%}',
                         'import-alias': '{%import "b" as q%}'}[what]
                    a = cx.lab.call(cx.lab.get('kajiki.TextTemplate'), Const(t))
                cx.asked = []

                def imp(ip, args, kw):
                    cx.asked.append((tuple(args), dict(kw)))
                    return b
                h = cx.lab.call(cx.lab.get('kjsa_values.Holder'))
                h.attrs['import_'] = h.attrs['load'] = Native('import_', imp)
                h.attrs['default_alias_for'] = Native('alias', lambda ip, a, k: Const('zz'))
                cx.lab.ip.setattr(a, 'loader', h)
                return cx.render(a)

            def judge(cx, r):
                if len(cx.asked) != 1:
                    raise Finding('the loader is asked %d times' % len(cx.asked))
                a, k = cx.asked[0]
                if not a or a[0] != Const('b'):
                    raise Finding('the loader is asked for %s' % (a,))
                fr = k.get('is_fragment', k.get(Const('is_fragment')))
                if fr is None or fr != TRUE:
                    raise Finding('the template is not requested as a fragment: %r' % (k,))
            c.case('loader/%s/%s' % (what, kind), run, judge=judge, rule=RULE)

    # text templates ----------------------------------------------------------------------
    case('text/include', {'a.txt': '1{%include "b.txt"%}2', 'b.txt': '<$x>'},
         X('1<', 'R', '>2'), name='a.txt')
    case('text/import', {'a.txt': '1{%import "b.txt" as m%}2${m.f(x)}',
                         'b.txt': 'NO{%def f(q)%}($q$x){%end%}'},
         X('12(', 'R', 'R', ')'), name='a.txt')
    case('text/import-default', {'a.txt': '{%import "b.txt"%}${b.f(x)}',
                                 'b.txt': '{%def f(q)%}($q){%end%}'}, X('(', 'R', ')'), name='a.txt')
    case('text/include-nested', {'a.txt': '{%include "b.txt"%}', 'b.txt': '[{%include "c.txt"%}]',
                                 'c.txt': '$x'}, X('[', 'R', ']'), name='a.txt')
    # mixed kinds
    case('mixed/text-in-xml', {'a.xml': '<p><py:include href="b.txt"/></p>', 'b.txt': 'q'},
         '<p>q</p>')
    case('mixed/xml-in-text', {'a.txt': '1{%include "b.xml"%}2', 'b.xml': '<b>$x</b>'},
         X('1<b>', 'X', '</b>2'), name='a.txt')
