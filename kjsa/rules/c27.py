"""C27 -- the table of HTML entities and unescape."""
from html.entities import html5 as STANDARD
from ..check import *

RULE = ('the table holds exactly the standard named character references; a reference in a '
        'template or in text given to unescape yields its characters, once, and other text is '
        'left alone')
MIN = {'quick': 280}

XML = {'amp', 'lt', 'gt', 'quot', 'apos'}
LEGACY = sorted((n for n in STANDARD if not n.endswith(';')), key=len)


def reference(s):
    """what unescape yields for '&' + s, where s starts no other reference: the standard"""
    for n in sorted((n for n in STANDARD if s.startswith(n)), key=len, reverse=True):
        return STANDARD[n] + s[len(n):]
    return '&' + s


def batches(items, n):
    items = list(items)
    return [items[i:i + n] for i in range(0, len(items), n)]


SEPS = ['|', ' ', '\n', '.', '&', '&&', ';', ' ; ', '<', '"', "'", '\u00e9', '/', '=', '']
NUM = {'&#65;': 'A', '&#x41;': 'A', '&#X41;': 'A', '&#x6a;': 'j', '&#x6A;': 'j', '&#38;': '&',
       '&#x26;': '&', '&#60;': '<', '&#8364;': '\u20ac', '&#x1F600;': '\U0001f600',
       '&#1114111;': '\U0010ffff', '&#x10FFFF;': '\U0010ffff', '&#233;': '\u00e9', '&#10;': '\n',
       '&#0065;': 'A', '&#x0041;': 'A', '&#65': 'A', '&#x41': 'A', '&#160;': '\xa0',
       '&#255;': '\xff', '&#256;': '\u0100', '&#xff;': '\xff', '&#xFfFd;': '\ufffd',
       '&#039;': "'", '&#34;': '"'}
SAME = ['', 'a', '&', '& ', ' & ', 'a & b', '&;', '&#', '&#;', '&#x;', '&#x', '&#xg;', '&#a;', '&&',
        '&&&', '&nosuch;', '&nosuch', '&x', '&x;', '&1', '&1;', '&_;', 'a&', '&é;', '&#é;',
        '&#1114112;', '&#x110000;', '&#99999999999999999999;', '&#xFFFFFFFFFFFFFFFFFFFF;',
        '&#4294967296;', '&#2147483648;', '&#-1;', '&#+1;', '&# 1;', 'no reference',
        ';', '&Nbsp;', '&EACUTE;', '&nbspp;', '&a mp;', '&\n;', '&<;', '&"',
        '&#12x;', '&#x;41;']
ONCE = {'&amp;lt;': '&lt;', '&amp;amp;': '&amp;', '&amp;amp;amp;': '&amp;amp;',
        '&#38;lt;': '&lt;', '&#x26;amp;': '&amp;', '&amp;#65;': '&#65;',
        '&amp&lt;': '&<', '&lt;&gt;': '<>', '&amp;&amp;': '&&', '&AMP;lt;': '&lt;',
        'a&lt;b&gt;c&amp;d': 'a<b>c&d', '&lt&gt': '<>', '&amp;': '&', '&&amp;': '&&',
        '&&lt;&': '&<&', '&#38;#38;': '&#38;', '&amp;nosuch;': '&nosuch;', '&quot;x&quot;': '"x"'}
PREFIX = {'&notit': '\u00acit', '&ampx': '&x', '&ltb': '<b', '&eacutes': '\u00e9s',
          '&copyright': '\u00a9right', '&nbspx': '\xa0x', '&lt1': '<1', '&times2': '\u00d72',
          '&frac12x': '\u00bdx', '&sup1x': '\u00b9x', '&yenx': '\u00a5x'}
PLAIN = ['', 'a', '<', '>', '&', '"', "'", '<b>', '&amp;', '&lt;', '"q"', "it's", 'a & b', '&&',
         '<a href="x?a=1&b=2">', '&nbsp;', '&#65;', '\u00e9', '\U0001f600', '\n', '&amp;amp;',
         '<!-- -->', ']]>', 'a<b>c', '&eacute', '&#x41;', '\xa0', '"&"', '<&>']


def check(c):
    m = c.module('kajiki.entities')

    # the table -----------------------------------------------------------------------------
    def table(cx):
        t = cx.lab.get('kajiki.entities.html5')
        if type(t) is not DictO:
            raise Unsupported('the table is no dictionary')
        return {k.v: v for k, v in t.d.items()}

    for key, names in [('table/%s' % (b[0] if len(b) < 3 else b[0] + '..' + b[-1]), b)
                       for b in batches(sorted(STANDARD), 60)]:
        def run(cx, names=names):
            t = table(cx)
            for n in names:
                v = t.get(n)
                if v is None:
                    raise Finding('the table has no entry for &%s' % n)
                if type(v) is not Const or v.v != STANDARD[n]:
                    raise Finding('&%s stands for %r, the table says %s' % (
                        n, STANDARD[n], short(v)))
            return NONE
        c.case(key, run, rule=RULE)

    def run(cx):
        for n in table(cx):
            if n not in STANDARD:
                raise Finding('&%s is no reference of the standard' % n)
        return NONE
    c.case('table/no-others', run, rule=RULE)

    # in templates -----------------------------------------------------------------------------
    esc_ = lambda s: s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    named = sorted(n[:-1] for n in STANDARD if n.endswith(';') and n != 'dollar;')
    for b in batches(named, 40):
        def run(cx, b=b):
            return cx.render(cx.lab.compile('<d>%s</d>' % ''.join('[&%s;]' % n for n in b)))
        c.case('text/%s..%s' % (b[0], b[-1]), run,
               '<d>%s</d>' % ''.join('[%s]' % esc_(STANDARD[n + ';']) for n in b), rule=RULE)
    for n in ('eacute', 'nbsp', 'LT', 'AMP', 'QUOT', 'hellip', 'acE', 'euro', 'fjlig', 'Tab'):
        v = STANDARD[n + ';']
        for place, (src, out) in {
                'alone': ('<d>&N;</d>', '<d>V</d>'), 'twice': ('<d>&N;&N;</d>', '<d>VV</d>'),
                'expr': ('<d>&N;${1}&N;</d>', '<d>V1V</d>'),
                'words': ('<d>a &N; b</d>', '<d>a V b</d>'),
                'semicolon': ('<d>&N;;</d>', '<d>V;</d>'),
                'amp': ('<d>&amp;N;&N;</d>', '<d>&amp;N;V</d>'),
                'if': ('<d><py:if test="True">&N;</py:if></d>', '<d>V</d>'),
                'def': ('<d><py:def function="f()">x&N;</py:def>${f()}</d>', '<d>xV</d>'),
                'nested': ('<d><b>&N;</b>&N;</d>', '<d><b>V</b>V</d>'),
                'numeric': ('<d>&#233;&N;&#xe9;</d>', '<d>\u00e9V\u00e9</d>')}.items():
            if n == 'Tab' and place not in ('words', 'expr', 'semicolon', 'numeric'):
                continue
            c.case('place/%s/%s' % (place, n), lambda cx, src=src, n=n: cx.render(
                cx.lab.compile(src.replace('N;', n + ';'))),
                out.replace('N;', n + ';').replace('V', esc_(v)), rule=RULE)

    # unescape ---------------------------------------------------------------------------------
    def case(key, text, out):
        c.case('unescape/' + key, lambda cx: cx.lab.call(cx.lab.get('kajiki.entities.unescape'),
                                                         Const(text)), out, rule=RULE)

    for b in batches(sorted(n for n in STANDARD), 60):
        for sep in SEPS[:3]:
            case('all/%r/%s' % (sep, b[0]), sep.join('&' + n for n in b) + sep,
                 sep.join(STANDARD[n] for n in b) + sep)
    for sep in SEPS:
        for n in ('eacute;', 'amp;', 'lt;', 'NotEqualTilde;', 'nbsp', 'copy', 'AMP'):
            if sep == '' or sep == ';' and not n.endswith(';'):
                continue
            case('around/%r/%s' % (sep, n), sep + '&' + n + sep + 'z' if sep[0] not in '&;' or True
                 else '', sep + STANDARD[n] + sep + 'z')
    for s, o in list(NUM.items()) + list(ONCE.items()) + list(PREFIX.items()):
        for pre, post in (('', ''), ('a', ' b'), ('&', '&'), ('&lt;', '&gt;')):
            case('one/%r' % (pre + s + post), pre + s + post,
                 pre.replace('&lt;', '<') + o + post.replace('&gt;', '>'))
    for s in SAME:
        for pre, post in (('', ''), ('a', ' b'), ('&', '&'), ('&lt;', '&gt;')):
            if s[-1:] in ('&', '') and post or s in ('&#', '&#x', '&nosuch', '&x', '&1') and \
                    post == '&gt;' and False:
                continue
            case('same/%r' % (pre + s + post), pre + s + post,
                 pre.replace('&lt;', '<') + s + post.replace('&gt;', '>'))

    def run(cx):
        t = txt('t', excl='&')
        return cx.lab.call(cx.lab.get('kajiki.entities.unescape'), t)
    c.case('unescape/no-ampersand', run, lambda cx: txt('t', excl='&'), rule=RULE)

    # inverse of escaping ---------------------------------------------------------------------------
    for s in PLAIN:
        for place in ('text', 'attribute'):
            def run(cx, s=s, place=place):
                src = '<d>${x}</d>' if place == 'text' else '<d a="${x}"/>'
                out = cx.ip.resolve(cx.render(cx.lab.compile(src), x=Const(s)))
                return cx.lab.call(cx.lab.get('kajiki.entities.unescape'), out)
            c.case('inverse/%s/%r' % (place, s), run,
                   '<d>%s</d>' % s if place == 'text' else '<d a="%s"/>' % s, rule=RULE)
