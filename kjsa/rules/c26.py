"""C26 -- the names the compiler invents never clash."""
import ast
from ..check import *
from ..values import HObj
from . import c24

RULE = ('every name the compiler invents within a template is different from every other, '
        'whatever the random numbers drawn, and the state of the generator is not shared '
        'between threads')
MIN = {'quick': 30}

USER = {'template', '__main__', 'f', 'g', 'm', 'c', 'i', 'j', 'k', 'x', 'y', 'z', 'q', 'blk',
        '_kj_block_blk', '_kj_extended', 'a', 'b'}


def draws(c, limit):
    """draws of random numbers: a number drawn before again, or another one"""
    def randint(ip, a, b):
        st = ip.counters
        drawn = st.setdefault('drawn', [])
        if type(a) is not Const or type(b) is not Const:
            raise Unsupported('unknown range of random numbers')
        lo, hi = a.v, b.v
        if lo > hi:
            ip.raise_('ValueError', 'empty range for randrange()')
        again = [v for v in drawn if lo <= v <= hi]
        if again and st.get('again', 0) < limit and ip.choose(2, 'a number drawn before'):
            st['again'] = st.get('again', 0) + 1
            v = again[-1] if len(again) == 1 or not ip.choose(2, 'which') else again[0]
            drawn.append(v)
            return Const(v)
        cand = range(lo, min(hi, lo + 300) + 1)
        for v in cand:
            if v not in drawn:
                drawn.append(v)
                return Const(v)
        last = drawn[-3 * len(cand):]
        v = min(cand, key=lambda v: max(i for i, w in enumerate(drawn) if w == v))
        drawn.append(v)
        if len(last) < 3 * len(cand) or not all(lo <= w <= hi for w in last):
            return Const(v)
        raise Finding('the range %d..%d of random numbers can be exhausted, after which no '
                      'name is free' % (lo, hi))
    return dict(c.lab.hooks, randint=randint)


def invented(cx):
    """no two helpers of a generated program share a name"""
    n = 0
    for _, src in c24.programs(cx):
        try:
            tree = ast.parse(src)
        except SyntaxError:
            continue
        seen = {}
        for node in ast.walk(tree):
            if isinstance(node, ast.FunctionDef):
                names, what = [node.name], 'a function'
            elif isinstance(node, ast.For):
                names = [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)]
                what = 'a loop variable'
            else:
                continue
            for v in names:
                if v in USER or v.startswith('_kj_block_'):
                    continue
                n += 1
                if v in seen:
                    raise Finding('the name %s is invented for %s and for %s' % (
                        v, seen[v], what))
                seen[v] = what
    return n


DOCS = {
    'attribute': ('<d a="$x"/>', '<d a="X"/>'),
    'attributes-2': ('<d a="$x" b="$y"/>', '<d a="X" b="Y"/>'),
    'attributes-3': ('<d a="$x" b="$y" c="${x}2"/>', '<d a="X" b="Y" c="X2"/>'),
    'attributes-nested': ('<d a="$x"><e a="$y"/></d>', '<d a="X"><e a="Y"/></d>'),
    'attrs-2': ('<d py:attrs="{\'a\': x}"><e py:attrs="{\'a\': y}"/></d>',
                '<d a="X"><e a="Y"/></d>'),
    'mixed': ('<d a="$x" py:attrs="{\'b\': y}"/>', '<d a="X" b="Y"/>'),
    'call': ('<d><py:def function="m(c)">[${c()}]</py:def><py:call args="" function="m(%caller)">'
             '<e a="$x"/></py:call></d>', '<d>[<e a="X"/>]</d>'),
    'calls': ('<d><py:def function="m(c)">[${c()}]</py:def><py:call args="" function="m(%caller)">'
              '$x</py:call><py:call args="" function="m(%caller)">$y</py:call></d>',
              '<d>[X][Y]</d>'),
    'calls-nested': ('<d><py:def function="m(c)">[${c()}]</py:def>'
                     '<py:call args="" function="m(%caller)">1'
                     '<py:call args="" function="m(%caller)">$y</py:call>$x</py:call></d>',
                     '<d>[1[Y]X]</d>'),
    'for': ('<d><e py:for="i in (x, y)" a="$i"/></d>', '<d><e a="X"/><e a="Y"/></d>'),
    'def': ('<d><py:def function="f(q)"><e a="$q"/></py:def>${f(x)}${f(y)}</d>',
            '<d><e a="X"/><e a="Y"/></d>'),
    'strip': ('<d><e py:strip="False" a="$x" b="$y"/></d>', '<d><e a="X" b="Y"/></d>'),
    'block': ('<d><py:block name="blk"><e a="$x"/></py:block><f a="$y"/></d>',
              '<d><e a="X"/><f a="Y"/></d>'),
}
TEXTS = {
    'text-calls': ('{%def m(c)%}[${c()}]{%end%}{%call() m(%caller)%}${x}{%end%}'
                   '{%call() m(%caller)%}${y}{%end%}', '[X][Y]'),
    'text-nested': ('{%def m(c)%}[${c()}]{%end%}{%call() m(%caller)%}1'
                    '{%call() m(%caller)%}${x}{%end%}${y}{%end%}', '[1[X]Y]'),
}


def check(c):
    deep = c.tier == 'thorough'

    def find(cx, name):
        try:
            return cx.lab.get(name)
        except Exception:
            return None

    for n, (src, out) in list(DOCS.items()) + list(TEXTS.items()):
        for mode in ('xml',) if n in DOCS else ('text',):
            for earlier in (0, 1, 3) if deep else (0, 1):
                def run(cx, src=src, n=n, mode=mode, earlier=earlier):
                    
                    def make():
                        if mode == 'text':
                            return cx.lab.call(cx.lab.get('kajiki.TextTemplate'), Const(src))
                        return cx.lab.compile(src, mode=Const(mode))
                    for _ in range(earlier):        # templates compiled before in this thread
                        make()
                    t = make()
                    invented(cx)
                    return cx.render(t, x=Const('X'), y=Const('Y'))

                c.case('program/%s/%s/%d' % (n, mode, earlier), run, out, rule=RULE,
                       hooks=draws(c, 1 if earlier else 2), max_paths=1000)

    # the generator itself -----------------------------------------------------------------
    HINTS = {'plain': [None] * 6, 'long': [None] * 14, 'hint': ['a', 'a', 'b', 'a', 'b', None, 'a'],
             'two': ['a', None, 'a', None], 'once': [None]}

    def gen(cx, hints):
        g = find(cx, 'kajiki.util.gen_name')
        out = []
        for h in hints:
            v = cx.ip.resolve(cx.lab.call(g) if h is None else cx.lab.call(g, Const(h)))
            if type(v) is not Const or not isinstance(v.v, str) or not v.v.isidentifier():
                raise Finding('the generator yields %s, which is no name' % short(v))
            out.append(v.v)
        return out

    def distinct(names):
        for i, v in enumerate(names):
            if v in names[:i]:
                raise Finding('the name %s is generated twice' % v)

    has = True
    try:
        c.lab.get('kajiki.util.gen_name')
    except Exception:
        has = False
    if has:
        for n, hints in HINTS.items():
            def run(cx, hints=hints):
                distinct(gen(cx, hints))
                return NONE
            c.case('generator/' + n, run, rule=RULE, hooks=draws(c, 2 if n == 'long' else 4),
                   max_paths=6000)

            def run(cx, hints=hints):
                cx.ip.config['thread'] = 1
                a = gen(cx, hints)
                cx.ip.config['thread'] = 2
                b = gen(cx, hints)
                cx.ip.config['thread'] = 1
                a += gen(cx, hints)
                cx.ip.config['thread'] = 2
                b += gen(cx, hints)
                distinct(a)
                distinct(b)
                return NONE
            if n != 'long':
                c.case('threads/' + n, run, rule=RULE, hooks=draws(c, 2), max_paths=6000)

            # what a second thread changes was not made by the first
            def run(cx, hints=hints):
                cx.ip.config['thread'] = 1
                gen(cx, hints)
                gen(cx, hints)
                cx.ip.watch_n = HObj._n
                cx.ip.config['thread'] = 2
                gen(cx, hints)
                cx.ip.watch_n = None
                return NONE

            def unshared(cx, r):
                for o, what, prior, loc, where in cx.ip.writes:
                    raise Finding('the generator of names changes %s (%s) at %s, which other '
                                  'threads use as well' % (short(o), what, loc))
            c.case('shared/' + n, run, judge=unshared, rule=RULE, hooks=draws(c, 1), max_paths=2000)
