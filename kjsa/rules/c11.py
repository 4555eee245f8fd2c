"""C11 -- inheritance: child blocks and functions override, the rest is inherited."""
from ..check import *

RULE = ('the output of a template that extends another is the output of the base '
        'template with each block and function resolved to the most derived definition')
VARIANTS = ('frag',)
MIN = {'quick': 60}


def extends(parent, body, form='element'):
    if form == 'element':
        return '<py:extends href="%s">%s</py:extends>' % (parent, body)
    return '<x py:strip="" py:extends="%s">%s</x>' % (parent, body)


def blk(name, body):
    return '<py:block name="%s">%s</py:block>' % (name, body)


def fn(name, body):
    return '<py:def function="%s">%s</py:def>' % (name, body)


def check(c):
    def case(key, files, out, name='c.xml', **kw):
        def run(cx):
            cx.x = cx.dyn('x', ('str', 'none', 'markup'))
            f = files(cx) if callable(files) else files
            return cx.render(cx.load(cx.files(f, **kw), name), x=cx.x)
        c.case(key, run, out, rule=RULE)

    # every combination of overridden definitions, at each depth -----------------------
    base = ('<r>[' + blk('a', 'A0$x') + '|' + blk('b', 'B0') + '|' + fn('f(q)', 'F0$q') +
            '${f(1)}' + fn('g(q)', 'G0$q') + '${g(x)}]</r>')

    def over(level, which):
        s = ''
        for n in 'ab':
            if n in which:
                s += blk(n, '%s%d$x' % (n.upper(), level))
        for n in 'fg':
            if n in which:
                s += fn('%s(q)' % n, '%s%d$q' % (n.upper(), level))
        return s

    def expect(levels):
        def of(n):
            for i in range(len(levels) - 1, -1, -1):
                if n in levels[i]:
                    return i + 1
            return 0

        def want(cx):
            x = cx.x.text
            out = ['<r>[A%d' % of('a'), x, '|B%d' % of('b')]
            if of('b'):
                out.append(x)
            return out + ['|F%d1G%d' % (of('f'), of('g')), x, ']</r>']
        return want
    subsets = ('', 'a', 'b', 'f', 'ab', 'fg', 'abfg')
    for form in ('element', 'attribute'):
        for w in subsets:
            case('overrides/%s/%s' % (form, w or 'nothing'),
                 {'p.xml': base, 'c.xml': extends('p.xml', over(1, w), form)},
                 expect([w]))
    for w1 in ('', 'a', 'f', 'abfg'):
        for w2 in ('', 'a', 'bg', 'abfg'):
            case('chain/%s-%s' % (w1 or 'none', w2 or 'none'),
                 {'p.xml': base, 'm.xml': extends('p.xml', over(1, w1)),
                  'c.xml': extends('m.xml', over(2, w2))}, expect([w1, w2]))
    case('chain/four', {'p.xml': base, 'm.xml': extends('p.xml', over(1, 'ab')),
                        'n.xml': extends('m.xml', over(2, 'bf')),
                        'c.xml': extends('n.xml', over(3, 'g'))}, expect(['ab', 'bf', 'g']))

    # used more than once, inside other blocks and functions, in loops
    case('everywhere', {
        'p.xml': '<r>' + fn('f()', 'F0') + fn('g()', '(${f()})') + blk('a', '${f()}') +
                 '${g()}${f()}<i py:for="k in (1, 2)">${f()}$k</i></r>',
        'c.xml': extends('p.xml', fn('f()', 'F1'))},
        '<r>F1(F1)F1<i>F11</i><i>F12</i></r>')
    case('block-in-block', {
        'p.xml': '<r>' + blk('a', 'A0' + blk('b', 'B0') + 'a') + '</r>',
        'c.xml': extends('p.xml', blk('b', 'B1'))}, '<r>A0B1a</r>')
    case('block-in-block/outer', {
        'p.xml': '<r>' + blk('a', 'A0' + blk('b', 'B0')) + '</r>',
        'c.xml': extends('p.xml', blk('a', 'A1'))}, '<r>A1</r>')
    case('block-in-loop', {
        'p.xml': '<r><i py:for="k in (1, 2)">' + blk('a', 'A0') + '</i></r>',
        'c.xml': extends('p.xml', blk('a', 'A1$x'))},
        lambda cx: ['<r><i>A1', cx.x.text, '</i><i>A1', cx.x.text, '</i></r>'])

    # a function the child adds is used by its blocks; inherited ones too
    case('own-function', {
        'p.xml': '<r>' + fn('f(q)', 'F0$q') + blk('a', 'A0') + '</r>',
        'c.xml': extends('p.xml', fn('h(q)', 'H1$q') + blk('a', '${h(x)}${f(2)}'))},
        lambda cx: ['<r>H1', cx.x.text, 'F02</r>'])
    case('own-function/chain', {
        'p.xml': '<r>' + fn('f(q)', 'F0$q') + blk('a', 'A0') + '</r>',
        'm.xml': extends('p.xml', fn('h(q)', 'H1$q')),
        'c.xml': extends('m.xml', blk('a', '${h(x)}${f(2)}'))},
        lambda cx: ['<r>H1', cx.x.text, 'F02</r>'])

    # parent, parent_block, local, self, child ------------------------------------------
    case('parent', {
        'p.xml': '<r>' + fn('f(q)', 'F0$q') + '${f(1)}</r>',
        'c.xml': extends('p.xml', fn('f(q)', 'F1$q(${parent.f(q)})'))}, '<r>F11(F01)</r>')
    case('parent/chain', {
        'p.xml': '<r>' + fn('f()', 'F0') + '${f()}</r>',
        'm.xml': extends('p.xml', fn('f()', 'F1(${parent.f()})')),
        'c.xml': extends('m.xml', fn('f()', 'F2(${parent.f()})'))}, '<r>F2(F1(F0))</r>')
    case('parent_block', {
        'p.xml': '<r>' + blk('a', 'A0$x') + '</r>',
        'c.xml': extends('p.xml', blk('a', '{${parent_block()}}'))},
        lambda cx: ['<r>{A0', cx.x.text, '}</r>'])
    case('parent_block/two', {
        'p.xml': '<r>' + blk('a', 'A0') + blk('b', 'B0') + '</r>',
        'c.xml': extends('p.xml', blk('b', '{${parent_block()}${parent_block()}}') +
                         blk('a', '<${parent_block()}>'.replace('<', '(').replace('>', ')')))},
        '<r>(A0){B0B0}</r>')
    case('parent_block/chain', {
        'p.xml': '<r>' + blk('a', 'A0') + '</r>',
        'm.xml': extends('p.xml', blk('a', 'A1${parent_block()}')),
        'c.xml': extends('m.xml', blk('a', 'A2${parent_block()}'))}, '<r>A2A1A0</r>')
    case('parent_block/via-unchanged', {
        'p.xml': '<r>' + fn('f()', 'F0') + '${f()}</r>',
        'c.xml': extends('p.xml', fn('f()', 'F1${parent.f()}'))}, '<r>F1F0</r>')
    case('local', {
        'p.xml': '<r>' + fn('f()', 'F0') + '${local.f()}${self.f()}</r>',
        'c.xml': extends('p.xml', fn('f()', 'F1'))}, '<r>F0F1</r>')
    case('local/child', {
        'p.xml': '<r>' + fn('f()', 'F0') + blk('a', 'A') + '</r>',
        'm.xml': extends('p.xml', fn('f()', 'F1') + blk('a', '${local.f()}${self.f()}${parent.f()}')),
        'c.xml': extends('m.xml', fn('f()', 'F2'))}, '<r>F1F2F0</r>')
    case('child', {
        'p.xml': '<r>' + fn('f()', 'F0') + '${child.f()}</r>',
        'm.xml': extends('p.xml', fn('f()', 'F1')),
        'c.xml': extends('m.xml', fn('f()', 'F2'))}, '<r>F1</r>')
    case('self/block-of-parent', {
        'p.xml': '<r>' + fn('f()', 'F0') + blk('a', '${self.f()}') + '</r>',
        'c.xml': extends('p.xml', fn('f()', 'F1'))}, '<r>F1</r>')

    # content outside blocks does not replace the parent's; it stays in its place
    case('outside', {
        'p.xml': '<r>P' + blk('a', 'A0') + '</r>',
        'c.xml': '<py:nop>before<py:extends href="p.xml">' + blk('a', 'A1') +
                 'inside</py:extends>after</py:nop>'}, 'before<r>PA1</r>insideafter')

    # module-level code and context are visible in both
    case('context', {
        'p.xml': '<r>$x' + blk('a', 'A0') + '</r>',
        'c.xml': extends('p.xml', blk('a', '$x'))},
        lambda cx: ['<r>', cx.x.text, cx.x.text, '</r>'])

    # the same parent extended twice with different children: no interference
    def run(cx):
        l = cx.files({'p.xml': '<r>' + blk('a', 'A0') + fn('f()', 'F0') + '${f()}</r>',
                      'c.xml': extends('p.xml', blk('a', 'A1')),
                      'd.xml': extends('p.xml', fn('f()', 'F2'))})
        out = []
        for n in ('c.xml', 'd.xml', 'p.xml', 'c.xml', 'd.xml'):
            out += [cx.render(cx.load(l, n)), Const('\n')]
        return cat(*out)
    c.case('siblings', run, '<r>A1F0</r>\n<r>A0F2</r>\n<r>A0F0</r>\n<r>A1F0</r>\n<r>A0F2</r>\n',
           rule=RULE)

    # inherited, not overridden: reached by every name at any depth
    for depth in (1, 2, 3):
        chain = {'p.xml': '<r>' + fn('f(q)', 'F0$q') + '${self.f(1)}${child.f(2)}${local.f(3)}' +
                 blk('a', 'A0') + '</r>'}
        last = 'p.xml'
        for i in range(depth):
            n = 'm%d.xml' % i if i < depth - 1 else 'c.xml'
            chain[n] = extends(last, blk('a', '${f(4)}${self.f(5)}${parent.f(6)}')
                               if n == 'c.xml' else '')
            last = n
        case('inherited/%d' % depth, chain, '<r>F01F02F03F04F05F06</r>')

    # MockLoader and templates built by hand
    def run(cx):
        p = cx.lab.compile('<r>' + blk('a', 'A0') + '</r>')
        k = cx.lab.compile(extends('p', blk('a', 'A1$x')))
        d = DictO({Const('p'): p, Const('c'): k})
        l = cx.lab.call(cx.lab.get('kajiki.MockLoader'), d)
        cx.x = cx.dyn('x', ('str', 'none'))
        return cx.render(cx.load(l, 'c'), x=cx.x)
    c.case('mock-loader', run, lambda cx: ['<r>A1', cx.x.text, '</r>'], rule=RULE)

    # -- text templates ---------------------------------------------------------------
    tb = '{%def f(q)%}F0$q{%end%}[{%block a%}A0{%end%}|{%block b%}B0{%end%}|${f(1)}]'
    case('text/overrides', {
        'p.txt': tb, 'c.txt': '{%extends "p.txt"%}{%block a%}A1$x{%end%}{%def f(q)%}F1$q{%end%}'},
        lambda cx: ['[A1', cx.x.raw, '|B0|F11]'], name='c.txt')
    case('text/parent', {
        'p.txt': tb, 'm.txt': '{%extends "p.txt"%}{%block a%}A1(${parent_block()}){%end%}',
        'c.txt': '{%extends "m.txt"%}{%block a%}A2(${parent_block()}){%end%}'
                 '{%def f(q)%}F2$q(${parent.f(q)}){%end%}'},
        '[A2(A1(A0))|B0|F21(F01)]', name='c.txt')
    case('text/local-self-child', {
        'p.txt': '{%def f()%}F0{%end%}${local.f()}${self.f()}${child.f()}',
        'm.txt': '{%extends "p.txt"%}{%def f()%}F1{%end%}',
        'c.txt': '{%extends "m.txt"%}{%def f()%}F2{%end%}'}, 'F0F2F1', name='c.txt')
