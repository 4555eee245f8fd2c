"""C25 -- the names a template sees and their precedence."""
import itertools
from ..check import *

RULE = ('a name in a template is the context variable of that name; if there is none the function '
        'of the template, the name defined by its module code, the base global, the helper or the '
        'builtin of that name; the value is passed unchanged')
VARIANTS = ('frag',)
MIN = {'quick': 3500}

NAMES = ['v', 'm', 'len', 'str', 'id', 'dict', 'list', 'sorted', 'template', 'kajiki', 'context',
         'name', 'value', 'x_1', '_x', '__x', 'X', 'defined', 'literal', 'Markup', 'render',
         'parent', 'child', 'loader', 'filename', 'gettext', 'i18n', 'exposed', 'args', 'kw', 'k',
         'mode', 'data', 'items', 'get', 'ab9', '\u00e9t\u00e9', 'Ellipsis', 'next', 'iter',
         'generator', 'flattener', 'base_globals', 'self_']
BUILTINS = {'len', 'str', 'id', 'dict', 'list', 'sorted', 'Ellipsis', 'next', 'iter'}
HELPERS = {'defined', 'literal', 'Markup', 'gettext'}
# names which the generated module binds itself
MODULE = {'template', 'kajiki'}
# attributes of templates which a function of that name would hide
ATTRS = {'render', 'loader', 'filename', 'defined', 'base_globals'}

# where the name N stands; what is shown for its value V
PLACES = {
    'text': ('<d>${N}</d>', '<d>V</d>'),
    'text-mid': ('<d>a${N}b</d>', '<d>aVb</d>'),
    'content': ('<d py:content="N"/>', '<d>V</d>'),
    'attribute': ('<d a="1${N}2"/>', '<d a="1V2"/>'),
    'if': ('<d><py:if test="N is want">1</py:if><py:else>2</py:else></d>', '<d>1</d>'),
    'with': ('<d><py:with vars="zz=N">${zz}</py:with></d>', '<d>V</d>'),
    'for': ('<d><py:for each="zz in [N]">${zz}</py:for></d>', '<d>V</d>'),
    'def': ('<d><py:def function="fn()"><b>${N}</b></py:def>${fn()}</d>', '<d><b>V</b></d>'),
    'call': ('<d><py:def function="fn(c)">[${c()}]</py:def><py:call args="" function="fn(%caller)">'
             '${N}</py:call></d>', '<d>[V]</d>'),
    'block': ('<d><py:block name="blk">${N}</py:block></d>', '<d>V</d>'),
    'lambda': ('<d>${(lambda: N)()}</d>', '<d>V</d>'),
    'comprehension': ('<d>${[N for zz in (1,)][0]}</d>', '<d>V</d>'),
    'code': ('<d><?py zz = N ?>${zz}</d>', '<d>V</d>'),
    'switch': ('<py:switch test="N is want"><py:case value="True">1</py:case></py:switch>', '1'),
    'same': ('<d>${same(N)}</d>', '<d>yes</d>'),
    'value_of': ("<d>${value_of('N')}</d>", '<d>V</d>'),
    'value_of-default': ("<d>${value_of('N', 'no')}</d>", '<d>V</d>'),
    'defined': ("<d>${defined('N')}</d>", '<d>True</d>'),
}
TEXT = {
    'text': ('a${N}b', 'aVb'),
    'for': ('{%for zz in [N]%}${zz}{%end%}', 'V'),
    'def': ('{%def fn()%}${N}{%end%}${fn()}', 'V'),
    'py': ('%py zz = N\n${zz}', 'V'),
    'if': ('{%if N is want%}1{%else%}2{%end%}', '1'),
    'same': ('${same(N)}', 'yes'),
    'value_of': ("${value_of('N')}", 'V'),
    'defined': ("${defined('N')}", 'True'),
}
LAYERS = ('context', 'function', 'module', 'base')


def check(c):
    ALL = ('str', 'none', 'int', 'markup')

    def world(cx, name, layers, text, src, extra=()):
        """a template in which the name is bound in some layers; -> template, context, value"""
        d = cx.dyn('x', ('str',) if 'function' in layers else ('str', 'int') if ' a="' in src
                   else ALL)
        cx.x = d
        vals = {'context': d, 'base': Const('BASE')}
        base = {Const(name): vals['base']} if 'base' in layers else {}
        base[Const('other_global')] = Const(7)
        pre = ''
        if 'module' in layers:
            pre += '%py % zz_ = 0\n' if text else ''
            pre += ('%%py %%%s = "MOD"\n' if text else '<?py %%%s = "MOD" ?>') % name
        if 'function' in layers:
            pre += ('%%def %s()\nFUN\n%%end\n' if text else
                    '<py:def function="%s()">FUN</py:def>') % name
        ctx = {k: v for k, v in extra}
        if 'context' in layers:
            ctx[name] = d
        return pre, base, ctx, d

    def make(cx, text, src, base, **opts):
        base = DictO(dict(base))
        if text:
            return cx.lab.call(cx.lab.get('kajiki.TextTemplate'), Const(src),
                               autoescape=TRUE, base_globals=base, **opts)
        return cx.lab.compile(src, base_globals=base, **opts)

    def want_of(cx, name, layers):
        if 'context' in layers:
            return cx.x.value, cx.x.text
        if 'function' in layers:
            return None, Const('FUN')
        if 'module' in layers:
            return Const('MOD'), Const('MOD')
        if 'base' in layers:
            return Const('BASE'), Const('BASE')

    # precedence ------------------------------------------------------------------------------
    for name in NAMES:
        for text, places in ((False, PLACES), (True, TEXT)):
            for place, (src, out) in places.items():
                if name not in ('v', 'len', 'template', 'gettext', 'parent') and \
                        place not in ('text', 'def', 'defined', 'same', 'value_of'):
                    continue
                combos = [('context',), ('context', 'base')]
                if name not in MODULE:
                    combos += [('base',)]
                if name in ('v', 'len', 'X', 'name', 'k'):
                    combos += [('module',), ('module', 'base'), ('context', 'module'),
                               ('context', 'module', 'base'), ('context', 'function'),
                               ('context', 'function', 'module', 'base')]
                for layers in combos:
                    if name == 'gettext' and 'context' not in layers:
                        continue
                    if name == 'defined' and place == 'defined':
                        continue
                    if 'context' not in layers and place in ('same', 'if', 'switch'):
                        continue
                    if 'module' in layers and (text or place == 'if'):
                        if text:
                            continue

                    def run(cx, name=name, layers=layers, text=text, src=src):
                        pre, base, ctx, d = world(cx, name, layers, text, src)
                        s = src.replace('N', name)
                        if pre:
                            if text:
                                s = pre + s
                            elif s.startswith('<d'):
                                i = s.index('>') + 1
                                if s[i - 2] == '/':
                                    s = '<r>' + pre + s + '</r>'
                                else:
                                    s = s[:i] + pre + s[i:]
                            else:
                                s = '<r>' + pre + s + '</r>'
                        v = want_of(cx, name, layers)[0]

                        def same(ip, a, k):
                            got = ip.resolve(a[0])
                            want = ip.resolve(v)
                            return Const('yes' if got is want or type(got) is type(want) and
                                         got == want else 'no')
                        ctx['same'] = Native('same', same)
                        ctx['want'] = d
                        if name == 'gettext':
                            pass
                        return cx.lab.m(cx.lab.call(make(cx, text, s, base), cx.ctx(**ctx)),
                                        'render')

                    def want(cx, name=name, layers=layers, out=out, text=text, place=place,
                             src=src):
                        v = want_of(cx, name, layers)[1]
                        o = out
                        if 'module' in layers or 'function' in layers:
                            if not text and not (src.startswith('<d>')):
                                o = '<r>' + out + '</r>'
                        r = []
                        for i, p in enumerate(o.split('V')):
                            if i:
                                r.append(v)
                            r.append(p)
                        if place == 'attribute' and cx.x.none and 'context' in layers:
                            pass
                        return r
                    if name == 'gettext' and (place != 'same' or text):
                        continue
                    c.case('name/%s%s/%s/%s' % ('text-' if text else '', place, name,
                                                '+'.join(layers)), run, want, rule=RULE)

    # functions of the template ---------------------------------------------------------------
    for name in NAMES:
        if name in ATTRS | MODULE or name in ('gettext', 'parent', 'child') or not name.isascii():
            continue
        for base in (False, True):
            for ctx in (False, True):
                for form in ('direct', 'self', 'local', 'defined', 'value_of', 'before', 'in-def'):
                    def run(cx, name=name, base=base, ctx=ctx, form=form):
                        cx.x = cx.dyn('x', ('str', 'none'))
                        use = {'direct': '${N()}', 'self': '${self.N()}', 'local': '${local.N()}',
                               'defined': "${defined('N')}", 'value_of': "${value_of('N')()}",
                               'before': '${N()}', 'in-def':
                               '<py:def function="zz()">${N()}</py:def>${zz()}'}[form]
                        d = '<py:def function="N()"><b>$x</b></py:def>'
                        src = '<d>' + (use + d if form == 'before' else d + use) + '</d>'
                        b = {Const(name): Native('base', lambda ip, a, k: Const('BASE'))} \
                            if base else {}
                        kw = {name: Native('ctx', lambda ip, a, k: Const('CTX'))} if ctx else {}
                        return cx.lab.m(cx.lab.call(make(cx, False, src.replace('N', name), b),
                                                    cx.ctx(x=cx.x, **kw)), 'render')

                    def want(cx, ctx=ctx, form=form):
                        if form == 'defined':
                            return '<d>True</d>'
                        if ctx and form not in ('self', 'local'):
                            return '<d>CTX</d>'
                        return ['<d><b>', cx.x.text, '</b></d>']
                    c.case('function/%s/%s/%s%s' % (form, name, 'base' * base, 'context' * ctx),
                           run, want, rule=RULE)

    # helpers ---------------------------------------------------------------------------------
    H = {
        'literal': ('${literal(x)}', 'R'), 'Markup': ('${Markup(x)}', 'R'),
        
        'gettext': ('${gettext(x)}', '<X>'), '_': ('${_(x)}', '<X>'),
        'self-is-local': ('${self is local}', 'True'),
        'defined-yes': ("${defined('x')}", 'True'), 'defined-no': ("${defined('q')}", 'False'),
        'defined-none': ("${defined('nn')}", 'True'),
        'defined-false': ("${defined('ff')}", 'True'),
        'defined-if': ("<py:if test=\"defined('q')\">$q</py:if><py:else>no</py:else>", '{no}'),
        'defined-helper': ("${defined('literal') and defined('self') and defined('local')}", 'True'),
        'defined-self': ("${self.defined('x')}${self.defined('q')}", 'TrueFalse'),
        'value_of': ("${value_of('x')}", 'X'), 'value_of-no': ("${value_of('q')}", ''),
        'value_of-default': ("${value_of('q', x)}", 'X'),
        'value_of-none': ("${value_of('nn', x)}", ''),
        'value_of-false': ("${value_of('ff', x)}", 'False'),
        'value_of-empty': ("${value_of('ee', x)}", ''),
        'value_of-has': ("${value_of('x', 'no')}", 'X'),
        'value_of-global': ("${value_of('glob', 'no')}", 'GLOB'),
        'defined-global': ("${defined('glob')}", 'True'),
        'value_of-module': ("<?py %mod = 3 ?>${value_of('mod', 'no')}${defined('mod')}", '3True'),
        'defined-function': ("<py:def function=\"ff2()\"/>${defined('ff2')}", 'True'),
        'builtin': ("${len('abc')}${max(1, 2)}${str(5)}", '325'),
        'builtins-in-def': ("<py:def function=\"q()\">${len('abc')}</py:def>${q()}", '3'),
        'true': ('${True}${False}', 'TrueFalse'), 'none': ('${None}', ''),
    }
    for n, (src, out) in H.items():
        for place, wrap in (('plain', '%s'), ('def', '<py:def function="f9()">%s</py:def>${f9()}'),
                            ('block', '<py:block name="b9">%s</py:block>'),
                            ('for', '<py:for each="i9 in (1,)">%s</py:for>'),
                            ('if', '<py:if test="True">%s</py:if>'),
                            ('call', '<py:def function="f9(c)">${c()}</py:def>'
                                     '<py:call args="" function="f9(%%caller)">%s</py:call>'),
                            ('parent', None), ('child', None), ('include', None),
                            ('import', None)):
            if n in ('defined-function', 'value_of-module', 'builtins-in-def') and \
                    place not in ('plain', 'include', 'import'):
                continue
            if n == 'self-is-local' and place in ('parent', 'child'):
                continue
            if n == 'defined-self' and place != 'plain':
                continue

            def run(cx, src=src, wrap=wrap, place=place, n=n):
                kinds = ('str',) if out_kind(n) else ('str', 'int', 'none', 'markup')
                cx.x = cx.dyn('x', kinds)
                g = Native('gettext', lambda ip, a, k: cat(Const('{'), S(a[0]), Const('}'))
                           if a[0].ty == 'str' else a[0])
                ctx = cx.ctx(x=cx.x, nn=NONE, ff=FALSE, ee=Const(''), gettext=g)
                base = DictO({Const('glob'): Const('GLOB')})
                if wrap:
                    t = cx.lab.compile('<d>' + wrap % src + '</d>', base_globals=base)
                else:
                    files = {
                        'parent': {'a.xml': '<py:extends href="p.xml"/>',
                                   'p.xml': '<d>%s</d>' % src},
                        'child': {'a.xml': '<py:extends href="p.xml"><py:block name="k">%s'
                                           '</py:block></py:extends>' % src,
                                  'p.xml': '<d><py:block name="k">0</py:block></d>'},
                        'include': {'a.xml': '<d><py:include href="b.xml"/></d>',
                                    'b.xml': '<py:if test="True">%s</py:if>' % src},
                        'import': {'a.xml': '<d><py:import href="b.xml"/>${b.f8()}</d>',
                                   'b.xml': '<r><py:def function="f8()">%s</py:def></r>' % src},
                    }[place]
                    if n in ('defined-function', 'value_of-module', 'builtins-in-def'):
                        files = {
                            'include': {'a.xml': '<d><py:include href="b.xml"/></d>',
                                        'b.xml': '<b>%s</b>' % src},
                            'import': {'a.xml': '<d><py:import href="b.xml"/>${b.f8()}</d>',
                                       'b.xml': '<r>%s<py:def function="f8()">%s</py:def></r>' % (
                                           src[:src.index('${d' if 'defined' in src and
                                                          'value' not in src else '${')]
                                           if n != 'builtins-in-def' else
                                           '<py:def function="q()">${len(\'abc\')}</py:def>',
                                           src[src.index('${d' if 'defined' in src and
                                                         'value' not in src else '${'):]
                                           if n != 'builtins-in-def' else '${q()}')},
                        }[place]
                        if place == 'include':
                            cx.b = True
                    t = cx.load(cx.files(files, base_globals=base), 'a.xml')
                return cx.render(t, ctx)

            def want(cx, out=out, place=place, n=n):
                r = ['<d>']
                if place == 'include' and getattr(cx, 'b', False):
                    r.append('<b>')
                i = 0
                for ch in out.replace('True', '\1').replace('False', '\2').replace('GLOB', '\3') \
                        .replace('<X>', '\4').replace('R', '\5').replace('X', '\6'):
                    r.append({'\1': 'True', '\2': 'False', '\3': 'GLOB', '\6': cx.x.text,
                              '\5': cx.x.raw}.get(ch) if ch in '\1\2\3\5\6' else
                             [Const('{'), cx.x.text, Const('}')] if ch == '\4' else ch)
                flat = []
                for p in r:
                    flat.extend(p if isinstance(p, list) else [p])
                if place == 'include' and getattr(cx, 'b', False):
                    flat.append('</b>')
                flat.append('</d>')
                return flat
            c.case('helper/%s/%s' % (n, place), run, want, rule=RULE)

    # gettext: the one visible to the template ------------------------------------------------
    for layers in (('context',), ('base',), ('context', 'base'), ()):
        for use in ('gettext', '_', 'static'):
            for place in ('plain', 'def', 'text-template'):
                if place == 'text-template' and use == 'static':
                    continue

                def run(cx, layers=layers, use=use, place=place):
                    def tr(pre):
                        return Native('gettext', lambda ip, a, k: cat(Const(pre), S(a[0])))
                    e = 'hello' if use == 'static' else "${%s('hello')}" % use
                    src = {'plain': '<d>%s</d>', 'text-template': '%s', 'def':
                           '<d><py:def function="f9()">%s</py:def>${f9()}</d>'}[place] % e
                    base = {Const('gettext'): tr('B:')} if 'base' in layers else {}
                    ctx = {'gettext': tr('C:')} if 'context' in layers else {}
                    cx.pre = 'C:' if 'context' in layers else 'B:' if 'base' in layers else ''
                    t = make(cx, place == 'text-template', src, base)
                    return cx.lab.m(cx.lab.call(t, cx.ctx(**ctx)), 'render')
                c.case('gettext/%s/%s/%s' % (use, place, '+'.join(layers)), run,
                       lambda cx, place=place: [cx.pre + 'hello'] if place == 'text-template'
                       else ['<d>', cx.pre + 'hello', '</d>'], rule=RULE)

    # values are passed unchanged ------------------------------------------------------------
    for place, src in {
            'text': '<d>${see(v)}</d>', 'attribute': '<d a="${see(v)}"/>',
            'def': '<d><py:def function="f9()">${see(v)}</py:def>${f9()}</d>',
            'argument': '<d><py:def function="f9(q)">${see(q)}</py:def>${f9(v)}</d>',
            'for': '<d><py:for each="q in [v]">${see(q)}</py:for></d>',
            'with': '<d><py:with vars="q=v">${see(q)}</py:with></d>',
            'code': '<d><?py q = v ?>${see(q)}</d>',
            'value_of': "<d>${see(value_of('v'))}</d>",
            'if': '<d><py:if test="see(v)">1</py:if></d>',
            'content': '<d py:content="see(v)"/>',
            'attrs': '<d py:attrs="{\'k\': see(v)}"/>',
            'block': '<d><py:block name="k">${see(v)}</py:block></d>'}.items():
        def run(cx, src=src):
            cx.x = cx.dyn('v', tuple(KINDS))
            seen = []

            def see(ip, a, k):
                seen.append(a[0])
                return NONE
            cx.xml_(src, see=Native('see', see), v=cx.x) if hasattr(cx, 'xml_') else \
                cx.render(cx.lab.compile(src), see=Native('see', see), v=cx.x)
            if len(seen) != 1:
                raise Finding('the expression is evaluated %d times' % len(seen))
            got, v = cx.ip.resolve(seen[0]), cx.ip.resolve(cx.x.value)
            if not (got is v or type(got) is type(v) and got == v):
                raise Finding('the value %s arrives as %s' % (short(v), short(got)))
            return NONE
        c.case('unchanged/' + place, run, rule=RULE)

    # names nobody binds ---------------------------------------------------------------------
    for name in NAMES:
        if name in BUILTINS | HELPERS | MODULE:
            continue
        for place in ('text', 'def', 'defined', 'value_of'):
            def run(cx, name=name, place=place):
                cx.x = cx.dyn('x', ('str',))
                src = {'text': '<d>${N}</d>', 'defined': "<d>${defined('N')}</d>",
                       'def': '<d><py:def function="zz()">${N}</py:def>${zz()}</d>',
                       'value_of': "<d>${value_of('N', x)}</d>"}[place].replace('N', name)
                return cx.render(cx.lab.compile(src), x=cx.x)
            if place in ('text', 'def'):
                c.case('unbound/%s/%s' % (place, name), run, raises={'NameError'}, rule=RULE)
            else:
                c.case('unbound/%s/%s' % (place, name), run,
                       (lambda cx: '<d>False</d>') if place == 'defined' else
                       (lambda cx: ['<d>', cx.x.text, '</d>']), rule=RULE)

    # two templates, two contexts ---------------------------------------------------------------
    def run(cx):
        cx.x, cx.y = cx.dyn('x', ('str', 'none', 'int')), cx.dyn('y', ('str', 'none', 'int'))
        t = make(cx, False, '<d>$v$w</d>', {Const('w'): Const(1)})
        u = make(cx, False, '<d>$v$w</d>', {Const('w'): Const(2)})
        a, b = cx.lab.call(t, cx.ctx(v=cx.x)), cx.lab.call(u, cx.ctx(v=cx.y))
        a2 = cx.lab.call(t, cx.ctx(v=cx.y, w=cx.x))
        return cat(*[S(cx.lab.m(i, 'render')) for i in (a, b, a2, a)])
    c.case('instances', run, lambda cx: [
        '<d>', cx.x.text, '1</d><d>', cx.y.text, '2</d><d>', cx.y.text, cx.x.text, '</d><d>',
        cx.x.text, '1</d>'], rule=RULE)

    # base globals shared by several templates: names of one are not seen by another
    for via in ('templates', 'text', 'loader', 'loader-text'):
        for order in (0, 1):
            for bound in (False, True):
                def run(cx, via=via, order=order, bound=bound):
                    cx.x = cx.dyn('x', ('str', 'none'))
                    b = DictO({Const('g'): Const('G'), **(
                        {Const('v'): Const('BASE')} if bound else {})})
                    before = dict(b.d)
                    text = 'text' in via
                    one = '%py %v = "MOD"\n%def fn()\n1\n%end\n${v}$x' if text else \
                        '<d><?py %v = "MOD" ?><py:def function="fn()">1</py:def>$v$x</d>'
                    two = "[${value_of('v', x)}${defined('fn')}$g]"
                    two = two if text else '<d>%s</d>' % two
                    if via.startswith('loader'):
                        e = '.txt' if text else '.xml'
                        ld = cx.files({'a' + e: one, 'b' + e: two}, base_globals=b)
                        get = lambda n: cx.load(ld, n + e)
                    else:
                        K = cx.lab.get('kajiki.TextTemplate' if text else 'kajiki.XMLTemplate')
                        get = lambda n: cx.lab.call(K, Const(one if n == 'a' else two),
                                                    base_globals=b)
                    out = {}
                    for n in ('ab', 'ba')[order]:
                        out[n] = cx.render(get(n), x=cx.x)
                    if dict(b.d) != before:
                        raise Finding('the dictionary of base globals given by the user is '
                                      'changed: %s' % ', '.join(
                                          short(k) for k in b.d if k not in before))
                    return out['b']
                c.case('base-globals/%s/%s%s' % (via, 'ab' if not order else 'ba',
                                                 '/bound' * bound), run,
                       lambda cx, via=via, bound=bound: [
                           '[' if 'text' in via else '<d>[',
                           'BASE' if bound else cx.x.raw if 'text' in via else cx.x.text, 'FalseG]',
                           '' if 'text' in via else '</d>'], rule=RULE)

    def run(cx):
        t = make(cx, False, "<d>${defined('v')}${self is local}</d>", {})
        return cat(S(cx.lab.m(cx.lab.call(t), 'render')),
                   S(cx.lab.m(cx.lab.call(t, NONE), 'render')),
                   S(cx.lab.m(cx.lab.call(t, DictO({})), 'render')))
    c.case('no-context', run, '<d>FalseTrue</d>' * 3, rule=RULE)


def out_kind(n):
    return n in ('gettext', '_', 'literal', 'Markup', 'literal-attribute')
