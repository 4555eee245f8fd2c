"""C24 -- generated programs hold template text only as data, expressions as whole operands."""
import ast
import re
from xml.sax.saxutils import escape as xesc
from ..check import *
from ..interp import Frame, PyExc
from . import c13, c22
from .c17 import T

RULE = ('the generated program contains template text only inside literals and each user '
        'expression as one operand; every runtime helper it uses exists and accepts the '
        'arguments given')
MIN = {'quick': 1200}

# ------------------------------------------------------------------ generated programs


def programs(cx):
    return [(e.data[0], e.data[1].v) for e in cx.ip.events if e.kind == 'exec']


def only_data(cx):
    """unknown template text appears in the program only as repr()"""
    for text, src in programs(cx):
        for p in (text.parts if type(text) is Cat else (text,)):
            p = cx.ip.resolve(p)
            if type(p) is Const or type(p) is Term and p.op == 'repr':
                continue
            if type(p) is SymT and p.props.get('code'):
                continue
            raise Finding('template text %s is part of the generated code' % short(p))
    for e in cx.ip.events:
        if e.kind == 'raw-in-literal':
            raise Finding('template text %s is put between quotes without being quoted' % (
                ', '.join(short(x) for x in e.data[0]),))
        if e.kind == 'repr-in-literal':
            raise Finding('quoted text inside another literal')


def names(tree):
    for n in ast.walk(tree):
        for f in ('id', 'attr', 'name', 'arg', 'asname', 'module'):
            v = getattr(n, f, None)
            if isinstance(v, str):
                yield v


def unmarked(cx, mark):
    for _, src in programs(cx):
        try:
            tree = ast.parse(src)
        except SyntaxError:
            continue
        for v in names(tree):
            if mark in v:
                raise Finding('template text became the name %r of the generated code' % v)


def helpers(cx, inst):
    """the helpers the programs use exist and accept the arguments"""
    ip = cx.ip
    objs = {}
    for root in ('local', 'self'):
        objs[root] = inst
    for _, src in programs(cx):
        try:
            tree = ast.parse(src)
        except SyntaxError:
            continue
        calls = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                calls[id(n.func)] = n
        for n in ast.walk(tree):
            if not isinstance(n, ast.Attribute):
                continue
            chain, x = [], n
            while isinstance(x, ast.Attribute):
                chain.append(x.attr)
                x = x.value
            if not isinstance(x, ast.Name):
                continue
            chain.append(x.id)
            chain.reverse()
            if chain[0] in ('local', 'self') and len(chain) == 3 and chain[1] == '__kj__':
                o = ip.getattr_opt(inst, '__kj__')
                base = 'the runtime object'
            elif chain[0] in ('kajiki', '__kj__') and len(chain) == 2:
                o = cx.lab.mod('kajiki')
                base = 'the module kajiki'
            else:
                continue
            if o is None:
                raise Finding('templates have no __kj__, used by generated code')
            f = ip.getattr_opt(o, chain[-1])
            if f is None:
                raise Finding('generated code uses %s, but %s has no %s' % (
                    '.'.join(chain), base, chain[-1]))
            k = calls.get(id(n))
            if k is not None:
                arity(f, k, '.'.join(chain))


def arity(f, call, name):
    skip = 0
    if type(f) is BoundO:
        skip, f = 1, f.func
    if type(f) is not FuncO or any(isinstance(a, ast.Starred) for a in call.args) or \
            any(k.arg is None for k in call.keywords):
        return
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    n = len(call.args)
    if n > len(pos) and not a.vararg:
        raise Finding('generated code calls %s with %d arguments' % (name, n))
    kws = {k.arg for k in call.keywords}
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    for p in need[n:]:
        if p not in kws:
            raise Finding('generated code calls %s without its argument %s' % (name, p))
    if not a.kwarg:
        bad = kws - set(pos) - {x.arg for x in a.kwonlyargs}
        if bad:
            raise Finding('generated code calls %s with an unknown argument %s' % (
                name, ', '.join(bad)))


# --------------------------------------------------------------------------- expressions
VALUE = [
    'x', 'x if b else y', 'y if not b else x', 'n or x', 'b and x', 'not b or x', 'b and n or x',
    'x or y', '(x, y)[0]', '[x, y][-2]', 'd["k"]', "d['k']", 'd.get("k")', 'f(x)', 'f(q=x)',
    'f(*[x])', 'f(**{"q": x})', '(lambda q: q)(x)', '(lambda: x)()', '[i for i in l][0]',
    '[i for i in l if i is not n][0]', 'l[0]', 'l[0:1][0]', 'l[-1]', 'y + y', 'y * 2', '"a" "b"',
    '"it\'s"', "'\"'", '"\\n"', '"\\\\"', '"a;b"[0]', '"%s" % y', '"%"', '"{}".format(y)',
    'x is not n and x', 'b == True and x', '1 - 2', '-1', '1 < 2', '1 < 2 < 3 and x', 'not b',
    '~1', '2 ** 3', '7 // 2', '7 % 4', '1 | 6', '1 & 3', '1 if b else 2 if b else 3',
    'b if n else x', '{"k": x}["k"]', '{1: {2: x}}[1][2]', 'n', 'True', '0', '""', 'y == "Y"',
    'y in l', 'y not in l', 'x is n', '"""q"""', "r'\\d'", 'str(5)', 'len(l)', 'y.lower()',
    'y.replace("Y", "z")', 'o.p', 'o.p if b else o.q', 'o.g(x)', '[x,\n y][0]', '(x\n if b else y)',
    "'#'", 'y#c\n', '"\u0416"', 'max(1, 2)', 'dict(k=x)["k"]', '(yy := x)', '"$"', '"$x"', '"${x}"',
]
COMMA = ['x, y', 'y,', 'x if b else y, n', '1, 2, 3', '"a", "b"']
TRUTH = ['lambda: n', 'lambda q, r=1: 0', '[]', '{}', '()', '[0]', 'b and n', 'n or b', 'not n',
         'not n or b', '0 or 1', '1 and 0', 'n if b else 1', 'x is n', 'not x is n', 'b != b']
ITER = ['l', 'l if b else []', 'n or l', '[x, y]', '(x, y)', 'x, y', 'l[:1]', 'f(l)', '[i for i in l]',
        '(q for q in l)', 'sorted(d)', 'd', '"ab"', 'range(2)', 'enumerate(l)', 'zip(l, l)',
        'l + l', '[]', 'b and l', '[(1, 2), (3, 4)]', 'd.items()']
# positions: what stands for the expression is %s
XML = {
    'text': '<d>a${%s}b</d>',
    'text-twice': '<d>${%s}${%s}</d>',
    'content': '<d py:content="%s"/>',
    'replace': '<d><b py:replace="%s"/></d>',
    'replace-element': '<d><py:replace value="%s"/></d>',
    'attribute': '<d a="${%s}"/>',
    'attribute-part': '<d a="1${%s}2" c="k"/>',
    'switch': '<py:switch test="%s"><py:case value="v">1</py:case><py:else>2</py:else></py:switch>',
    'case': '<py:switch test="v"><py:case value="y">0</py:case><py:case value="%s">1</py:case>'
            '<py:else>2</py:else></py:switch>',
    'with': '<py:with vars="z=%s">[$z]</py:with>',
    'with-two': '<py:with vars="z=%s; w=y">[$z$w]</py:with>',
    'script': '<script>${%s}</script>',
    'code': '<d><?py z = %s ?>$z</d>',
    'def-body': '<d><py:def function="m(q)">$q${%s}</py:def>${m(1)}</d>',
    'block': '<d><py:block name="k">${%s}</py:block></d>',
}
XML_PLAIN = {
    'attrs': '<d py:attrs="dict(k=%s)"/>',
    'attrs-dict': '<d py:attrs="{\'k\': %s}" a="1"/>',
    'default': '<d><py:def function="m(q=%s)">[$q]</py:def>${m()}${m(1)}</d>',
    'argument': '<d><py:def function="m(q)">[$q]</py:def>${m(%s)}</d>',
    'call': '<d><py:def function="m(q, c)">[$q${c()}]</py:def>'
            '<py:call args="" function="m(%s, %%caller)">t</py:call></d>',
}
XTRUTH = {
    'if': '<d><py:if test="%s">1</py:if><py:else>2</py:else></d>',
    'if-tag': '<d><b py:if="%s">1</b><b py:else="">2</b></d>',
    'strip': '<d><b py:strip="%s" a="$y">1</b></d>',
    'strip-content': '<d><b py:strip="%s" py:content="y" py:attrs="dict(k=1)">1</b></d>',
}
XITER = {
    'for': '<d><py:for each="i in %s">[$i]</py:for></d>',
    'for-tag': '<d><b py:for="i in %s">$i</b></d>',
    'for-if': '<d><b py:for="i in %s" py:if="i">$i</b></d>',
}
TEXT = {
    'text': 'a${%s}b',
    'text-line': 'a\n${%s}\nb',
    'switch': '%%switch %s\n%%case v\n1\n%%else\n2\n%%end\n',
    'case': '{%%switch v%%}{%%case y%%}0{%%case %s%%}1{%%else%%}2{%%end%%}',
    'py': '%%py z = %s\n[$z]',
    'def-body': '{%%def m(q)%%}$q${%s}{%%end%%}${m(1)}',
}
TEXT_PLAIN = {
    'default': '%%def m(q=%s)\n[$q]\n%%end\n${m()}${m(1)}',
    'argument': '{%%def m(q)%%}[$q]{%%end%%}${m(%s)}',
    'call': '{%%def m(q, c)%%}[$q${c()}]{%%end%%}{%%call() m(%s, %%caller)%%}t{%%end%%}',
}
TTRUTH = {
    'if': '%%if %s\n1\n%%else\n2\n%%end\n',
    'if-inline': '{%%if %s%%}1{%%else%%}2{%%end%%}',
    'if-right': '{%%if %s -%%}  1{%%else%%}2{%%end%%}',
}
TITER = {'for': '%%for i in %s\n[$i]\n%%end\n', 'for-inline': '{%%for i in %s%%}[$i]{%%end%%}'}

# a default is evaluated when the template is compiled: compared with the value as argument
ALT = {
    XML_PLAIN['default']: '<d><py:def function="m(q)">[$q]</py:def>${m(%s)}${m(1)}</d>',
    TEXT_PLAIN['default']: '%%def m(q)\n[$q]\n%%end\n${m(%s)}${m(1)}',
}

NASTY = [
    "'", '"', '\\', "\\'", '\\\\', "'''", '"""', "' + x + '", '" + x + "', '\\n', '\\x41', '\\u0041',
    '%', '%s', '%(x)s', '%%', '{}', '{x}', '{0}', '#', '# x', '\t', ' ', '\u2028', '\u0416', '\U0001f600',
    'None', 'x', 'self', 'yield x', '\\N{BULLET}', '0', '()', ');x=1;(', ']]', '`', '\x85', '\xa0', '}', '{',
    '\\\\\'', "b'", "u'", 'KJ', 'local', ':', ';', ',', '=', '@', '~', '^', '!', '|', '?', '/', '-', '*',
]
MARK = 'KJMARK'


def value_of(cx, g, e):
    """the value of an expression by itself, given its names"""
    fr = Frame('<expression>', g, '<expression>')
    fr.glob = g
    g.d[Const('__builtins__')] = cx.ip.builtins_mod
    return cx.ip.eval(ast.parse('(' + e.strip() + '\n)', mode='eval').body, fr)


def check(c):
    def ctx(cx, **kw):
        h = cx.lab.call(cx.lab.get('kjsa_values.Holder'))
        f = Native('f', lambda ip, a, k: a[0] if a else k['q'])
        h.attrs.update(p=Const('P'), q=Const('Q'), g=f)
        return cx.ctx(x=cx.x, y=Const('Y'), b=TRUE, n=NONE, l=ListO([cx.x.value, Const('Y')]),
                      d=DictO({Const('k'): cx.x.value}), f=f, o=h, **kw)

    def value(cx, e):
        return value_of(cx, ctx(cx), e)

    def family(kind, forms, exprs, text, K=('str',)):
        for fn, form in forms.items():
            for e in exprs:
                if not text and fn == 'with-two' and ';' in e or 'with' in fn and '==' in e:
                    continue
                if ';' in e and fn.startswith('with'):
                    continue
                if '\n' in e and (text or fn not in ('text', 'text-twice')) and '#' not in e:
                    if text and fn != 'text':
                        continue
                if '#' in e and e != "'#'" and not fn.startswith('text'):
                    continue
                if e == 'y#c\n':
                    continue
                if ':=' in e and fn == 'def-body':
                    continue
                if fn == 'default' and re.search(r'\b[xybnldfo]\b', re.sub(r'"[^"]*"', '', e)):
                    continue        # defaults are evaluated when the template is compiled
                if '$' in e and fn in ('call',):
                    continue

                def run(cx, form=form, e=e):
                    cx.x = cx.dyn('x', K)
                    v = value(cx, e)

                    def make(ex, form=form):
                        if text:
                            src = form % ((ex,) * form.replace('%%', '').count('%s'))
                            return cx.lab.call(cx.lab.get('kajiki.TextTemplate'), Const(src),
                                               autoescape=Const(kind.endswith('escape')))
                        if '<?py' not in form:
                            ex = xesc(ex, {'"': '&quot;', '\n': '&#10;'})
                        src = form % ((ex,) * form.replace('%%', '').count('%s'))
                        return cx.lab.compile(src)
                    t = make(e)
                    inst = cx.lab.call(t, ctx(cx, v=v))
                    helpers(cx, inst)
                    out = cx.lab.m(inst, 'render')
                    if type(v) is GenO or 'zip' in e or 'enumerate' in e or 'items' in e:
                        v = value(cx, e)
                    cx.other = cx.lab.m(cx.lab.call(make('v', ALT.get(form, form)),
                                                    ctx(cx, v=v)), 'render')
                    return out
                c.case('expr/%s/%s/%s' % (kind, fn, e), run, lambda cx: cx.other, rule=RULE)

    family('xml', XML, VALUE + COMMA, False)
    family('xml', XML_PLAIN, VALUE, False)
    family('xml', XTRUTH, VALUE + TRUTH, False)
    family('xml', XITER, ITER, False)
    family('text', TEXT, VALUE + COMMA, True)
    family('text', TEXT_PLAIN, VALUE, True)
    family('text', TTRUTH, VALUE + TRUTH, True)
    family('text', TITER, ITER, True)
    family('text-escape', {'text': TEXT['text']}, VALUE + COMMA, True)

    # unknown expressions: one operand wherever they stand ------------------------------------
    def whole(cx):
        for e in cx.ip.events:
            if e.kind == 'splice':
                raise Finding('the expression is not one operand of the generated code')
        only_data(cx)

    E = lambda: code('e', excl='$')
    HOLES = {
        'content': lambda: El('d', {'py:content': E()}),
        'replace': lambda: El('d', {}, El('b', {'py:replace': E()})),
        'replace-element': lambda: El('d', {}, El('py:replace', {'value': E()})),
        'if': lambda: El('d', {}, El('py:if', {'test': E()}, Tx('1')), El('py:else', {}, Tx('2'))),
        'if-tag': lambda: El('d', {}, El('b', {'py:if': E()}, Tx('1'))),
        'switch': lambda: El('py:switch', {'test': E()}, El('py:case', {'value': '1'}, Tx('1'))),
        'case': lambda: El('py:switch', {'test': 'y'}, El('py:case', {'value': E()}, Tx('1')),
                           El('py:else', {}, Tx('2'))),
        'attrs': lambda: El('d', {'py:attrs': E()}),
        'strip': lambda: El('d', {}, El('b', {'py:strip': E()}, Tx('1'))),
        'strip-attrs': lambda: El('d', {}, El('b', {'py:strip': E(), 'a': '$y', 'py:attrs': 'd'},
                                              Tx('1'))),
        'strip-root': lambda: El('b', {'py:strip': E()}, Tx('1')),
    }
    for n, mk in HOLES.items():
        for mode in ('xml', 'html5'):
            def run(cx, mk=mk, mode=mode):
                cx.x = cx.dyn('x', ('str',))
                try:
                    t = cx.template(mk(), mode=Const(mode))
                except (PyExc, Unsupported):
                    whole(cx)
                    raise
                whole(cx)
                helpers(cx, cx.lab.call(t, ctx(cx)))
                return NONE
            c.case('operand/%s/%s' % (n, mode), run, rule=RULE)

    # text is data: unknown text ----------------------------------------------------------------
    P = lambda: txt('t', excl='$', trimmed=True, nonblank=True, nonempty=True, oneline=True)
    N = lambda: txt('t', generic=True, nonempty=True, trimmed=True, nonblank=True, oneline=True,
                    excl='$')
    DATA = {
        'text': lambda: El('d', {}, Tx(P())),
        'text-expr': lambda: El('d', {}, Tx(check_cat_(P(), '${x}'))),
        'text-def': lambda: El('d', {}, El('py:def', {'function': 'm()'}, Tx(P())), Tx('${m()}')),
        'attribute': lambda: El('d', {'a': P()}),
        'attribute-expr': lambda: El('d', {'a': check_cat_(P(), '${x}')}),
        'attribute-name': lambda: El('d', [(N(), 'v')]),
        'attribute-name-expr': lambda: El('d', [(N(), '$x')]),
        'attribute-strip': lambda: El('d', {}, El('b', [('py:strip', 'n'), (N(), '$x'), ('c', 'k')])),
        'tag': lambda: El(N(), {}, Tx('a')),
        'tag-empty': lambda: El('d', {}, El(N(), {})),
        'tag-strip': lambda: El('d', {}, El(N(), {'py:strip': 'n'}, Tx('a'))),
        'comment': lambda: El('d', {}, Cm(txt('t'))),
        'cdata': lambda: El('d', {}, CD(P())),
        'script': lambda: El('script', {}, Tx(P())),
        'in-if': lambda: El('d', {}, El('py:if', {'test': 'b'}, Tx(P()))),
        'in-case': lambda: El('py:switch', {'test': '1'}, El('py:case', {'value': '1'}, Tx(P()))),
    }
    for n, mk in DATA.items():
        for mode in ('xml', 'html5'):
            def run(cx, mk=mk, mode=mode):
                cx.x = cx.dyn('x', ('str',))
                try:
                    t = cx.template(mk(), mode=Const(mode))
                except (PyExc, Unsupported):
                    only_data(cx)
                    raise
                only_data(cx)
                inst = cx.lab.call(t, ctx(cx))
                helpers(cx, inst)
                cx.lab.m(inst, 'render')
                return NONE
            c.case('data/%s/%s' % (n, mode), run, rule=RULE)
    for n, mk in {'include': lambda t: El('d', {}, El('py:include', {'href': t})),
                  'import': lambda t: El('d', {}, El('py:import', {'href': t, 'alias': 'q'})),
                  'import-plain': lambda t: El('d', {}, El('py:import', {'href': t})),
                  'extends': lambda t: El('py:extends', {'href': t})}.items():
        def run(cx, mk=mk):
            cx.template(mk(N()))
            only_data(cx)
            return NONE
        c.case('data/' + n, run, rule=RULE)

        def run(cx, n=n):
            # the name reaches the loader as it is
            asked = []

            def imp(ip, a, k):
                asked.append(ip.resolve(a[0]))
                return cx.lab.compile('<i/>')
            name = txt('t', generic=True, nonempty=True, trimmed=True, nonblank=True)
            mk = {'include': El('d', {}, El('py:include', {'href': name})),
                  'import': El('d', {}, El('py:import', {'href': name, 'alias': 'q'})),
                  'import-plain': El('d', {}, El('py:import', {'href': name})),
                  'extends': El('py:extends', {'href': name})}[n]
            t = cx.template(mk)
            h = cx.lab.call(cx.lab.get('kjsa_values.Holder'))
            h.attrs['import_'] = h.attrs['load'] = Native('import_', imp)
            h.attrs['default_alias_for'] = Native('alias', lambda ip, a, k: Const('zz'))
            cx.ip.setattr(t, 'loader', h)
            cx.render(t)
            if len(asked) != 1:
                raise Finding('the loader is asked %d times' % len(asked))
            return asked[0]
        c.case('name/' + n, run, lambda cx: txt('t'), rule=RULE)

    # text is data: texts that look like code ------------------------------------------------------
    for s in NASTY:
        m = MARK + s + MARK
        xs = xesc(m, {'"': '&quot;', '\n': '&#10;', '\t': '&#9;'})

        def run(cx, m=m, xs=xs):
            cx.x = cx.dyn('x', ('str',))
            where = cx.pick('where', ('text', 'attribute', 'attribute-expr', 'def', 'comment',
                                      'script', 'text-template', 'filename', 'include'))
            cx.where = where
            if where == 'text-template':
                out = cx.text(m.replace('\\', '\\\\') + '${x}', x=cx.x)
                unmarked(cx, MARK)
                return out
            if where == 'include':
                ld = cx.files({'a.xml': '<d><py:include href="%s"/></d>' % xs, m: '<i/>'},
                              force_mode=Const('xml'))
                out = cx.render(cx.load(ld, 'a.xml'))
                unmarked(cx, MARK)
                return out
            src = {'text': '<d>%s</d>', 'attribute': '<d a="%s"/>',
                   'attribute-expr': '<d a="%s${x}"/>',
                   'def': '<d><py:def function="m()"><b>%s</b></py:def>${m()}</d>',
                   'comment': '<d><!-- %s --></d>', 'script': '<d><script>%s</script></d>',
                   'filename': '<d>%.0s</d>'}[where]
            o = {'filename': Const(m)} if where == 'filename' else {}
            if where == 'comment':
                if '--' in m or m.startswith('!'):
                    return NONE
                xs = m
            inst = cx.lab.call(cx.lab.compile(src % xs, **o), ctx(cx))
            out = cx.lab.m(inst, 'render')
            unmarked(cx, MARK)
            return out

        def want(cx, m=m):
            e = m.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
            q = e.replace('"', '&quot;')
            return {
                'text': '<d>%s</d>' % e, 'attribute': '<d a="%s"/>' % q,
                'attribute-expr': ['<d a="%s' % q, cx.x.text, '"/>'],
                'def': '<d><b>%s</b></d>' % e,
                'comment': '<d><!--  %s  --></d>' % m,
                'script': '<d><script>/*<![CDATA[*/%s/*]]>*/</script></d>' % m,
                'text-template': [m, cx.x.raw], 'filename': '<d></d>'
                if False else '<d/>', 'include': '<d><i/></d>'}[cx.where]
        if '$' in s:
            continue
        c.case('nasty/%r' % s, run, want, rule=RULE)

    # helpers of all kinds of templates ----------------------------------------------------------
    for pre, docs, other, ext in (('', c13.DOCS, c13.OTHER, 'xml'),
                                  ('text-', c13.TEXTS_, c13.TOTHER, 'txt')):
        for n, src in docs.items():
            def run(cx, src=src, other=other, ext=ext):
                ld = cx.files(dict(other, **{'a.' + ext: src}))
                inst = cx.lab.call(cx.load(ld, 'a.' + ext), c13.context(cx, 1, ('str', 'none')))
                cx.lab.m(inst, 'render')
                helpers(cx, inst)
                return NONE
            c.case('helpers/%s%s' % (pre, n), run, rule=RULE)


def check_cat_(*p):
    return cat(*[S(x) for x in p])
