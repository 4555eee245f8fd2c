"""C23 -- text templates: literal text, escapes, tags and expressions in order."""
import itertools
from ..check import *
from ..interp import PyExc

RULE = ('a text template renders to its literal text with escapes resolved and its tags and '
        'expressions replaced by what they stand for, in order; a tag removes only the text '
        'its form removes')
MIN = {'quick': 3500}

# ------------------------------------------------------------------ a template as a tree
# A node gives its source in a style and its output (a list of parts).  The style decides how
# tags are written; texts before and after tags are chosen so that the style applies.


class Style:
    """how tags are written and what text that is not output goes with them"""
    def __init__(self, name, left, right, line=False):
        self.name, self.left, self.right, self.line = name, left, right, line

    def tag(self, text):
        return self.left + text + self.right


STYLES = {
    'line': Style('line', '%', '\n', True),
    'line-indent': Style('line-indent', '  \t%', '\n', True),
    'line-space': Style('line-space', '%', '  \n', True),
    'line-crlf': Style('line-crlf', '%', '\r\n', True),
    'inline': Style('inline', '{%', '%}'),
    'inline-newline': Style('inline-newline', '{%', '\n%}'),
    'inline-space': Style('inline-space', '{%', ' %}'),
    'left': Style('left', ' \t{%-', '%}'),
    'left-tight': Style('left-tight', '{%-', '%}'),
    'right': Style('right', '{%', '-%} \t '),
    'right-tight': Style('right-tight', '{%', '-%}'),
    'both': Style('both', '  {%-', ' -%}  '),
}


class T:
    def __init__(self, s, out=None):
        self.s, self.o = s, s if out is None else out

    def src(self, st):
        # a line tag stands at the start of a line
        return self.s + ('\n' if st.line else '')

    def out(self, env):
        return [self.o + ('\n' if env['style'].line else '')]


class X:
    """an expression with the text after it"""
    def __init__(self, name, form='${%s}'):
        self.name, self.form = name, form

    def src(self, st):
        return '<' + self.form % self.name + '>' + ('\n' if st.line else '')

    def out(self, env):
        v = env[self.name]
        v = [v] if not isinstance(v, Dyn) else [v.text if env['escape'] else v.raw]
        return ['<'] + v + ['>'] + (['\n'] if env['style'].line else [])


class Seq:
    def __init__(self, *kids):
        self.kids = kids

    def src(self, st):
        return ''.join(k.src(st) for k in self.kids)

    def out(self, env):
        return [p for k in self.kids for p in k.out(env)]


class If:
    def __init__(self, test, body, other=None):
        self.test, self.body, self.other = test, body, other

    def src(self, st):
        r = st.tag('if ' + self.test) + self.body.src(st)
        if self.other is not None:
            r += st.tag('else') + self.other.src(st)
        return r + st.tag('end')

    def out(self, env):
        if env[self.test]:
            return self.body.out(env)
        return self.other.out(env) if self.other is not None else []


class For:
    def __init__(self, body):
        self.body = body

    def src(self, st):
        return st.tag('for i in l') + self.body.src(st) + st.tag('end')

    def out(self, env):
        return [p for i in ('7', '8') for p in self.body.out(dict(env, i=i))]


class Switch:
    def __init__(self, *bodies):
        self.bodies = bodies

    def src(self, st):
        r = st.tag('switch k')
        for n, b in enumerate(self.bodies[:-1]):
            r += st.tag('case %d' % n) + b.src(st)
        return r + st.tag('else') + self.bodies[-1].src(st) + st.tag('end')

    def out(self, env):
        k = env['k']
        return self.bodies[k if k < len(self.bodies) - 1 else -1].out(env)


class Def:
    """a function and two calls of it"""
    n = 0

    def __init__(self, body, name='m'):
        self.body, self.name = body, name

    def src(self, st):
        return (st.tag('def %s(j)' % self.name) + self.body.src(st) + st.tag('end') +
                Seq(X('%s(1)' % self.name), X('%s("z")' % self.name)).src(st))

    def out(self, env):
        nl = ['\n'] if env['style'].line else []
        return [p for i in ('1', 'z')
                for p in ['<'] + self.body.out(dict(env, j=i)) + ['>'] + nl]


class Call:
    """a function that gets its body from a call tag"""
    def __init__(self, body):
        self.body = body

    def src(self, st):
        return (st.tag('def w(c)') + T('{').src(st) + X('c(5)').src(st) + T('|').src(st) +
                X('c(6)').src(st) + st.tag('end') +
                st.tag('call(h) w(%caller)') + self.body.src(st) + st.tag('end'))

    def out(self, env):
        nl = ['\n'] if env['style'].line else []
        b = [['<'] + self.body.out(dict(env, h=i)) + ['>'] + nl for i in ('5', '6')]
        return ['{'] + nl + b[0] + ['|'] + nl + b[1]


class Block:
    def __init__(self, body):
        self.body = body

    def src(self, st):
        return st.tag('block kk') + self.body.src(st) + st.tag('end')

    def out(self, env):
        return self.body.out(env)


class Py:
    """code in the tag itself or up to its end tag"""
    def __init__(self, body, own):
        self.body, self.own = body, own

    def src(self, st):
        if self.own:
            return st.tag('py z = 4') + self.body.src(st)
        return st.tag('py') + ('' if st.line else '\n') + 'z = 2\nz = z * 2\n' + st.tag('end') + \
            self.body.src(st)

    def out(self, env):
        return self.body.out(dict(env, z='4'))


class Include:
    def __init__(self, body):
        self.body = body

    def src(self, st):
        return self.body.src(st) + st.tag('include "t.txt"') + self.body.src(st)

    def out(self, env):
        v = env['x']
        v = v.text if env['escape'] else v.raw
        b = self.body.out(env)
        return b + ['(', v, ')'] + b


class Import:
    def __init__(self, body, alias):
        self.body, self.alias = body, alias

    def src(self, st):
        return (st.tag('import "u.txt"' + (' as v' if self.alias else '')) + self.body.src(st) +
                X('v.m(3)' if self.alias else 'u.m(3)').src(st))

    def out(self, env):
        return self.body.out(env) + ['<', '[3]', '>'] + (['\n'] if env['style'].line else [])


MAKE = {
    'if': lambda b: If('b', b),
    'if-else': lambda b: If('b', Seq(T('p'), b), Seq(b, T('q'))),
    'for': lambda b: For(Seq(X('i'), b)),
    'switch': lambda b: Switch(T('c0'), b, Seq(T('e'), b)),
    'def': lambda b: Def(Seq(X('j'), b)),
    'call': lambda b: Call(Seq(b, X('h'))),
    'block': lambda b: Block(Seq(T('k'), b)),
    'py': lambda b: Py(Seq(b, X('z')), True),
    'py-lines': lambda b: Py(Seq(b, X('z')), False),
    'include': lambda b: Include(b),
    'import': lambda b: Import(b, False),
    'import-as': lambda b: Import(b, True),
}
FILES = {'t.txt': '($x)', 'u.txt': '{%def m(i)%}[$i]{%end%}'}
LEAVES = {
    'text': lambda: T('t'),
    'value': lambda: X('x'),
    'named': lambda: X('x', '$%s'),
    'both': lambda: Seq(T('s'), X('x'), T('t')),
}
# text around the whole
FRAMES = {
    'none': ('', ''),
    'text': ('a', 'b'),
    'lines': ('a\nb', '\nc\n'),
    'blanks': ('a', '\n\n  b'),
    'value': ('$y', '$y'),
}


def unescape(s):
    """what literal text stands for"""
    r, i = '', 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            r += '' if s[i + 1] == '\n' else s[i + 1]
            i += 2
        else:
            r += s[i]
            i += 1
    return r


def plain(s):
    """no tag nor expression, and nothing the syntax leaves open"""
    import re
    return not re.search(r'\$|\{%|^\s*%[a-zA-Z]', s, re.M)


def check(c):
    def go(cx, src, escape, **ctx):
        ld = cx.files(dict(FILES, **{'a.txt': src}), autoescape_text=Const(escape))
        return cx.render(cx.load(ld, 'a.txt'), **ctx)

    def tree(key, node, styles, frames=('text',), escapes=(False,), K=('str', 'none')):
        for sn in styles:
            for fn in frames:
                for escape in escapes:
                    st, (pre, post) = STYLES[sn], FRAMES[fn]

                    def run(cx, node=node, st=st, pre=pre, post=post, escape=escape):
                        cx.x = cx.dyn('x', K)
                        cx.b = cx.pick('b', (True, False))
                        cx.k = cx.pick('k', (0, 1, 5)) if 'switch' in key else 1
                        if st.line and pre:
                            pre += '\n'
                        cx.src = src = pre + node.src(st) + post
                        return go(cx, src, escape, x=cx.x, b=Const(cx.b), k=Const(cx.k),
                                  y=Const('Y'), l=ListO([Const(7), Const(8)]))

                    def want(cx, node=node, st=st, pre=pre, post=post, escape=escape):
                        env = dict(x=cx.x, b=cx.b, k=cx.k, style=st, escape=escape)
                        f = lambda s: s.replace('$y', 'Y')
                        # a form that removes blanks also removes those of the frame next to it
                        post_ = f(post)
                        return [f(pre) + ('\n' if st.line and pre else '')] + node.out(env) + [post_]
                    c.case('%s/%s/%s%s' % (key, sn, fn, '/escape' if escape else ''), run, want,
                           rule=RULE)

    styles = tuple(STYLES)
    for n, mk in MAKE.items():
        for ln, leaf in LEAVES.items():
            tree('tag/%s/%s' % (n, ln), mk(leaf()), styles if ln == 'both' else
                 ('line', 'inline', 'both'), escapes=(False, True) if ln == 'both' else (False,),
                 K=('str', 'none', 'int', 'markup') if ln == 'value' else ('str',))
        tree('frame/' + n, mk(X('x')), ('line', 'inline', 'left', 'right'),
             tuple(FRAMES), K=('str',))

    # one inside the other
    outer = [k for k in MAKE]
    for a in outer:
        for b in outer:
            if b in ('def', 'call', 'block') and a in ('def', 'call', 'block', 'for', 'py',
                                                       'py-lines', 'include', 'if-else', 'switch'):
                continue   # functions belong to the template, not to the place
            if a == b and a in ('import', 'include'):
                continue
            if a == 'include' and b.startswith('import'):
                continue
            quick = ('line', 'inline', 'both')
            tree('nested/%s/%s' % (a, b), MAKE[a](MAKE[b](X('x'))),
                 quick if c.tier == 'quick' else styles, K=('str',))
    for a, b, d in (('for', 'if-else', 'switch'), ('if', 'for', 'if-else'), ('switch', 'for', 'if'),
                    ('def', 'for', 'if-else'), ('def', 'switch', 'for'), ('call', 'if', 'for'),
                    ('block', 'for', 'switch'), ('switch', 'switch', 'switch'),
                    ('if-else', 'if-else', 'if-else'), ('for', 'for', 'for')):
        tree('deep/%s-%s-%s' % (a, b, d), MAKE[a](MAKE[b](MAKE[d](X('x')))),
             ('line', 'inline', 'both') if c.tier == 'quick' else styles, K=('str',))
    # one after the other
    for a in MAKE:
        for b in MAKE:
            if a.split('-')[0] == b.split('-')[0] and a.split('-')[0] in (
                    'def', 'call', 'block', 'import'):
                continue
            tree('after/%s/%s' % (a, b), Seq(MAKE[a](T('t')), MAKE[b](T('u'))),
                 ('line', 'inline', 'both'), K=('str',))

    # literal text -------------------------------------------------------------------------
    alpha = ('a', '\n', ' ', '\\', '%', '{', '}', '-', '#', '"', "'", '\t', '<', '&')
    lits = []
    for n in (1, 2) + ((3,) if c.tier == 'thorough' else ()):
        lits += [''.join(p) for p in itertools.product(alpha, repeat=n)]
    if c.tier == 'quick':
        lits += [''.join(p) for p in itertools.product(('a', '\n', ' ', '\\', '%', '}'), repeat=3)]
    lits += ['\\' * n + s for n in range(1, 6) for s in ('', 'a', '\n', '\n\n', 'n', ' ')]
    lits += ['a\\\nb\\\n\\\nc', 'tab\\tq', '100%', '100 % of', '% 5', '  % 5', 'a\n% 5\n%\n%5',
             '}}', '%}', '-%}', '{ %if', '{# a #}', '{{ a }}', '""" \'\'\'', 'a\r\nb', '\u2028x\u0416',
             '\x01', 'yield "a"', '#\n', '%%', "'%s' %d", '{0}', '\\\\n']
    lits += ['\\' + chr(i) for i in range(1, 128) if chr(i) != '$'] + ['\\\u0416', '\\\u2028']
    for s in dict.fromkeys(lits):
        if not s or not plain(s):
            continue

        def run(cx, s=s):
            where = cx.pick('where', ('alone', 'first', 'last', 'between'))
            # a text that ends in a backslash is not put before a $
            if s.endswith('\\') and where in ('first', 'between'):
                where = 'alone'
            cx.where = where
            x = cx.dyn('x', ('str',))
            cx.x = x
            src = {'alone': s, 'first': s + '${x}', 'last': '${x}' + s,
                   'between': '${x}' + s + '$$'}[where]
            cx.e = cx.pick('e', (False, True))
            return cx.text(src, opts={'autoescape': Const(cx.e)}, x=x)

        def want(cx, s=s):
            u = unescape(s)
            x = cx.x.text if cx.e else cx.x.raw
            return {'alone': [u], 'first': [u, x], 'last': [x, u], 'between': [x, u, '$']}[cx.where]
        c.case('literal/%r' % s, run, want, rule=RULE)

    # expressions --------------------------------------------------------------------------
    EXPR = {
        '$x': 'x', '${x}': 'x', '${ x }': 'x', '$o.p.q': 'x', '${o.p.q}': 'x', '${d["k"]}': 'x',
        "${d['k']}": 'x', '${(x)}': 'x', '${[x][0]}': 'x', '${x if b else None}': 'x',
        '${None if not b else x}': 'x', '${{1: x}[1]}': 'x', '${{"}": x}["}"]}': 'x',
        '${[i for i in [x]][0]}': 'x', '${(lambda q: q)(x)}': 'x', '${f(x)}': 'x',
        '${f(q=x)}': 'x', '${(1, x)[-1]}': 'x', '${x or x}': 'x', '${not b and 1 or x}': 'x',
        '${"a$b" and x}': 'x', '${"%s" and x}': 'x', "${'{%if' and x}": 'x',
        '$_u': 'x', '$x1': 'x', '$X_y': 'x',
    }
    for e in EXPR:
        for esc_ in (False, True):
            def run(cx, e=e, esc_=esc_):
                cx.x = cx.dyn('x', ('str', 'none', 'int', 'markup'))
                cx.fr = cx.pick('frame', (('', ''), ('a', '}b'), ('a\n', '\n}'), ('$$', '$$'),
                                          ('{', '}'), ('"', '"'), ('<x', '/>'), ('%', '%')))
                v = cx.x.value
                h = lambda **k: _holder(cx, k)
                f = Native('f', lambda ip, a, k: a[0] if a else k['q'])
                pre, post = cx.fr
                return cx.text(pre + e + post, opts={'autoescape': Const(esc_)}, x=cx.x,
                               _u=cx.x, x1=cx.x, X_y=cx.x, b=TRUE, f=f,
                               o=h(p=h(q=v)), d=DictO({Const('k'): v}))

            def want(cx, esc_=esc_):
                f = lambda s: unescape(s.replace('$$', '$'))
                pre, post = cx.fr
                return [f(pre), cx.x.text if esc_ else cx.x.raw, f(post)]
            c.case('expr/%s/%s' % (e, esc_), run, want, rule=RULE)


def _holder(cx, attrs):
    h = cx.lab.call(cx.lab.get('kjsa_values.Holder'))
    for k, v in attrs.items():
        h.attrs[k] = v
    return h
