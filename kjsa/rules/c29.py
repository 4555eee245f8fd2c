"""C29 -- a braced expression ends at its own closing brace."""
from xml.sax.saxutils import escape as xesc
from ..check import *
from . import c24

RULE = ('${expr} takes the text up to the brace closing it as its expression; the text after that '
        'brace is emitted as written')
VARIANTS = ('frag',)
MIN = {'quick': 800}

EXPRS = [
    'x', ' x', 'x ', '{}', '{1: 2}', '{1: {2: 3}}', '{"a": x}["a"]', "{'}': x}['}']", '"}"', "'}'",
    '"{"', "'{'", '"{}"', '"}{"', '"}}"', "'}' + '}'", '"a}b{c"', '"""}"""', "'''{'''", 'len({1, 2})',
    '{i: i for i in (1, 2)}', 'len({i for i in (1,)})', '[{1: 2}][0]', '({1: x}[1])', 'dict(a={})',
    '(lambda: {1: x})()[1]', '{1: x}[1]', '"\\""', "'\\'}'", '"\\\\"', '"\\\\}"', '{"{": "}"}["{"]',
    'f({})', 'f({1: {}})', 'f("}", {1: "{"})', '{}.get(1, x)', '[] or {}', '{} and x', 'not {}',
    '"%s}" % y', '"{0}".format(y)', '"{}}}".format(y)', "'it' + \"'}\"", '{1:\n2}', '[\n]',
    '("}"\n)', 'r"\\}"', '"$"', '"$}"', '"${"', '"${x}"', '{"$": 1}["$"]', '1 if {} else x',
    '{**d}["k"]', '[*{1}]', '{(1, 2): 3}[1, 2]', '"{{}}"', "b'}'", '"\u00e9}"', '{}}'[:-1],
    '{"a": {"b": {"c": x}}}["a"]["b"]["c"]', 'x if x else {}', 'y or {1: {2: "}"}}', "'\"}'",
    '[x, \n1][0]', '[x,\t\n\t1\n][0]', '[ \n x, \n 1 ][0]', '("}" \n "{" \n)', '["\u2028",\nx][1]',
    '["\x85}",\nx][1]', '{1:\n \n x}[1]', '"\u0416}"', '["\U0001f600",\nx][1]', '(x\n\n\n)', '"""}\n{"""', "'''\n}\n'''",
    '"\'}"', '""', "''", '"#}"', '{"#": "}"}["#"]',
]
TAILS = ['', 'z', '}', '{', '}}', '{}', ' }', '}{', '"', "'", '"}', "'}'", ' {x}', '${y}', '$y', '$$',
         '}${y}{', '${y}}', '{${y}', ' [}]', ')}', '#}', '\n}', '\\', '}x{y}', 'a}b}c', '}"}"', '${ {} }',
         '${"}"}}']
HEADS = ['', 'a', '{', '}', '"', '{"', '$$', '${y}', '${y}{', '}${"}"}']


def check(c):
    deep = c.tier == 'thorough'

    def ctx(cx):
        f = Native('f', lambda ip, a, k: Const('F%d' % len(a)))
        return cx.ctx(x=Const('X'), y=Const('Y'), f=f, d=DictO({Const('k'): Const('K')}))

    def image(tail):
        """the output of the text after the expression, given the expressions in it"""
        for a, b in (('${y}', 'Y'), ('${ {} }', '{}'), ('${"}"}', '}'), ('$y', 'Y'), ('$$', '$')):
            tail = tail.replace(a, b)
        return tail

    def cases(kind, exprs, heads, tails):
        for e in exprs:
            for h in heads:
                for t in tails:
                    if kind.startswith('text') and '\\' in t:
                        continue
                    if '\n' in t and kind == 'attribute':
                        continue

                    def run(cx, e=e, h=h, t=t):
                        def make(expr, h, t):
                            s = h + '${' + expr + '}' + t
                            if kind == 'text':
                                return cx.lab.call(cx.lab.get('kajiki.TextTemplate'), Const(s),
                                                   autoescape=FALSE)
                            q = {'"': '&quot;', '\n': '&#10;'} if kind == 'attribute' else {}
                            s = xesc(s, q)
                            return cx.lab.compile('<d a="%s"/>' % s if kind == 'attribute'
                                                  else '<d>[%s]</d>' % s)
                        out = cx.lab.m(cx.lab.call(make(e, h, t), ctx(cx)), 'render')
                        v = c24.value_of(cx, ctx(cx), e)
                        g = ctx(cx)
                        g.d[Const('v')] = v
                        e_ = lambda s: s
                        if kind != 'text':
                            e_ = lambda s: s.replace('&', '&amp;').replace('<', '&lt;').replace(
                                '>', '&gt;')
                        if kind == 'attribute':
                            e_ = lambda s: s.replace('&', '&amp;').replace('"', '&quot;')
                        inner = cx.lab.m(cx.lab.call(make('v', '', ''), g), 'render')
                        inner = cx.ip.resolve(inner)
                        if type(inner) is not Const:
                            raise Unsupported('value of the expression')
                        w = inner.v
                        hh, tt = image(h), image(t)
                        esq = lambda s: s
                        if kind == 'xml':
                            body = w[4:-5]
                            # dynamic parts are escaped with quotes; static ones without
                            cx.want = '<d>[' + hh + body + tt + ']</d>'
                        elif kind == 'attribute':
                            body = w[w.index('"') + 1:-3] if ' a=' in w else ''
                            full = e_(hh) + body + e_(tt)
                            cx.want = '<d a="%s"/>' % full
                        else:
                            cx.want = hh + w + tt
                        return out
                    c.case('%s/%r/%r/%r' % (kind, h, e, t), run, lambda cx: cx.want, rule=RULE)

    few_e = ['x', '{}', '{1: {2: 3}}', '"}"', "'{'", '{i: i for i in (1, 2)}', "{'}': x}['}']",
             '"${x}"']
    few_t = ['', '}', 'a}b}c', '${y}', '"}', '{']
    for kind in ('xml', 'attribute', 'text'):
        cases(kind, EXPRS, [''], few_t if not deep else TAILS)
        cases(kind, few_e, [''], [t for t in TAILS if t not in few_t])
        cases(kind, few_e, HEADS[1:], ['', '}', '${y}}'])

    # line ends of files from elsewhere
    cases('text', ['[x,\r\n1][0]', '[\r\nx,\r\n1\r\n][0]', '[x,\r1][0]', '{1:\r\nx}[1]',
                   '["\x0c",\nx][1]', '[x,\x0c\n1][0]'], ['', 'a\r\n', '{'], few_t)

    # unknown text after the expression -------------------------------------------------------------
    for e in ('x', '{}', '"}"', '{1: {2: "}"}}[1][2]', "'{'"):
        for kind in ('xml', 'attribute'):
            def run(cx, e=e, kind=kind):
                t = txt('t', excl='$', nonempty=True, trimmed=True, nonblank=True, oneline=True)
                src = cat(Const('a${' + e + '}'), t)
                if kind == 'text':
                    t2 = cx.lab.call(cx.lab.get('kajiki.TextTemplate'), src)
                elif kind == 'xml':
                    t2 = cx.template(El('d', {}, Tx(src)))
                else:
                    t2 = cx.template(El('d', {'a': src}))
                return cx.lab.m(cx.lab.call(t2, ctx(cx)), 'render')

            def want(cx, e=e, kind=kind):
                t = txt('t', excl='$', nonempty=True, trimmed=True, nonblank=True, oneline=True)
                v = {'x': 'X', '{}': '{}', '"}"': '}', "'{'": '{'}.get(e, '}')
                if kind == 'text':
                    return ['a' + v, t]
                if kind == 'xml':
                    return ['<d>a' + v, esc_static(t), '</d>']
                return ['<d a="a' + v, esc(t), '"/>']
            c.case('unknown/%s/%s' % (kind, e), run, want, rule=RULE)
