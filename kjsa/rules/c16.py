"""C16 -- extracted messages are exactly the ones looked up when rendering."""
from ..check import *

RULE = ('the messages the extractor yields for a document are exactly the translatable texts '
        'of it, with the line each starts on, and rendering looks up exactly those texts, '
        'once each where they stand, and emits the translation in place')
MIN = {'quick': 60}

# source with [text] around what must be a message; {..} around what is looked
# up only in extraction (a branch not taken); messages carry the line they start on
DOCS = {
    'plain': '<d>[Hello]</d>',
    'spaces': '<d>  [Hello  world]\t </d>',
    'lines': '<d>\n\n  [a]\n <b>\n\t[b\n  c]\n</b>\n</d>',
    'blank': '<d> <b>\n \t</b> </d>',
    'empty': '<d><b/></d>',
    'expression': '<d>[Hello ]$x[, bye]</d>',
    'braced': '<d>[Hello ]${x}[ and ]${"text"}</d>',
    'only-expressions': '<d>$x ${y} </d>',
    'between-blank': '<d>$x ${y}\n\n$x[ q]</d>',
    'expression-lines': '<d>\n [a\n ]$x[\n b]\n <c>[e]</c></d>',
    'attributes': '<d title="hello" alt="hi $x">[t]</d>',
    'comments': '<d><!-- no -->[t]<!--! no -->[u]</d>',
    'comment-between': '<d>[a ]<!-- no --> [b]</d>'.replace('[a ]', '[a] '),
    'script': '<d><script>var a = "no";</script><style>p {}</style>[t]</d>',
    'script-attributes': '<d><script type="t">no</script>[t]</d>',
    'cdata': '<d>[a] <![CDATA[ [b] ]]> [c]</d>',
    'cdata-markup': '<d><![CDATA[[<b> & c]]]></d>',
    'entities': '<d>[a &amp; b]</d>',
    'html-entities': '<d>[a&eacute;b]</d>',
    'lt': '<d>[a &lt;b&gt; c]</d>',
    'pi': '<d>[a]<?py z = "no" ?>[b]</d>',
    'pi-module': '<d>[a]<?py % z = "no" ?>[b]</d>',
    'nested': '<d>[a]<b>[b]<i>[c]</i>[d]</b>[e]</d>',
    'same-twice': '<d><b>[a]</b><i>[a]</i></d>',
    'quotes': '<d>[it\'s "so" \\n %s {0}]</d>',
    'unicode': '<d>[h\u00e9 \u2014 \U0001f600]</d>',
    'doctype': '<!DOCTYPE html>\n<d>\n[a]</d>',
    'doctype-lines': '<!DOCTYPE html\n  PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n '
                     '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n<d>\n[a]</d>',
    'if': '<d><b py:if="yes">[a]</b><py:if test="yes">[b]</py:if><b py:if="no">{c}</b></d>',
    'else': '<d><py:if test="yes">[a]</py:if><py:else>{b}</py:else></d>',
    'else-taken': '<d><b py:if="no">{a}</b><b py:else="">[b]</b></d>',
    'for': '<d><b py:for="i in one">[a]$i</b><py:for each="i in one">[b]</py:for></d>',
    'for-empty': '<d><b py:for="i in ()">{a}</b></d>',
    'switch': '<d><py:switch test="1"><py:case value="1">[a]</py:case>'
              '<py:case value="2">{b}</py:case><py:else>{c}</py:else></py:switch></d>',
    'with': '<d><py:with vars="q=1">[a]$q</py:with><b py:with="q=2">[b]</b></d>',
    'def': '<d><py:def function="f(a)">[b]$a</py:def>[a]${f(1)}</d>',
    'def-unused': '<d><py:def function="f(a)">{b}</py:def>[a]</d>',
    'def-nested': '<d><py:def function="f(a)"><py:def function="g()">[c]</py:def>[b]${g()}'
                  '</py:def>${f(1)}</d>',
    'call': '<d><py:def function="f(c)">[b]${c(1)}</py:def>'
            '<py:call args="q" function="f(%caller)">[c]$q</py:call></d>',
    'block': '<d><py:block name="k">[a]</py:block>[b]<b py:block="j">[c]</b></d>',
    'strip': '<d><b py:strip="">[a]</b><b py:strip="yes">[b]</b></d>',
    'content': '<d><b py:content="x">no</b><b py:replace="x">no</b>[a]</d>',
    'attrs': '<d><b py:attrs="{}">[a]</b></d>',
    'deep': '<d>\n<py:for each="i in one">\n<py:if test="yes">\n  [a]\n  <b>[b] <i py:if="yes">'
            '[c]</i></b>\n</py:if>\n</py:for>\n</d>',
    'helpers': '<d>${_("no")}[a]</d>'.replace('${_("no")}', '${len("no")}'),
    'many': '<d>' + ''.join('\n<p>[m%d]</p>' % i for i in range(12)) + '</d>',
}

def split(marked):
    """(source, messages [(line, text)], texts looked up in order of the source)"""
    src, msgs, seen, cur, line = '', [], [], None, 1
    i = 0
    while i < len(marked):
        ch = marked[i]
        if marked.startswith('<![CDATA[', i) or marked.startswith(']]>', i):
            k = 9 if ch == '<' else 3
            src += marked[i:i + k]
            i += k
            continue
        if ch in '[{' and cur is None and not (ch == '{' and (src[-1:] == '$' or braces(src))):
            cur = (ch, line, '')
        elif cur is not None and ch == {'[': ']', '{': '}'}[cur[0]]:
            msgs.append((cur[1], cur[2]))
            if cur[0] == '[':
                seen.append(cur[2])
            cur = None
        else:
            src += ch
            if cur is not None:
                cur = (cur[0], cur[1], cur[2] + ch)
            if ch == '\n':
                line += 1
        i += 1
    return src, msgs, seen


def braces(src):
    """inside an attribute value or a script, where braces are text"""
    return src.count('"') % 2 == 1 or src.rstrip().endswith('p')


def message(s):
    """what the text is as a message: entities of XML stay escaped"""
    return s.replace('&eacute;', '\u00e9')


def extracted(cx, src, **opts):
    lab, ip = cx.lab, cx.ip
    lab.doc = None
    f = lab.call(lab.get('io.BytesIO'), Const(src.encode('utf-8')) if isinstance(src, str) else src)
    it = lab.call(lab.get('kajiki.i18n.extract'), f, ListO([]), NONE,
                  DictO({Const(k): Const(v) for k, v in opts.items()}))
    out = []
    for m in ip.iterate(it):
        t = list(ip.iterate(m))
        out.append((t[0], t[1], t[2], t[3]))
    return out


def check(c):
    def ask(cx):
        return cx.lab.call(cx.lab.get('kjsa_values.Gettext'))

    def context(cx, g, x=None):
        x = x or cx.dyn('x', ('str', 'none'))
        k = {} if g is None else {'gettext': g}
        return cx.ctx(x=x, y=Const(2), yes=TRUE, no=FALSE, one=ListO([Const(7)]), **k)

    def plain(v):
        if type(v) is Const:
            return v.v
        raise Unsupported('message %s' % short(v))

    for key, marked in DOCS.items():
        src, msgs, seen = split(marked)
        # in CDATA the message is not escaped
        want = sorted({(l, message(m)) for l, m in msgs})
        lookups = [message(m) for m in seen]

        for strip in (False, True):
            def run(cx, src=src, want=want, strip=strip):
                got = extracted(cx, src, **({'strip_text': True} if strip else {}))
                g = sorted({(plain(a), plain(m)) for a, _, m, _ in got})
                if g != want:
                    extra = [m for m in g if m not in want]
                    miss = [m for m in want if m not in g]
                    raise Finding('the extractor reports (line, message) %s, required %s '
                                  '(extra %s, missing %s)' % (g, want, extra, miss))
                for _, fn, m, com in got:
                    if plain(fn) != '_' and plain(fn) != 'gettext':
                        raise Finding('message %r reported for function %r' % (plain(m), plain(fn)))
                return NONE
            c.case('extract/%s%s' % (key, '/strip' if strip else ''), run, rule=RULE)

            modes = ('xml', 'html') if not strip else ('xml',)
            for mode in modes:
                def run(cx, src=src, lookups=lookups, strip=strip, mode=mode):
                    g = ask(cx)
                    t = cx.lab.compile(src, strip_text=Const(strip), mode=Const(mode))
                    cx.render(t, context(cx, g))
                    calls = [plain(v) for v in cx.ip.iterate(cx.ip.getattr(g, 'calls'))]
                    if sorted(calls) != sorted(lookups):
                        raise Finding('rendering looks up %r, required %r' % (calls, lookups))
                    return NONE
                c.case('lookup/%s/%s%s' % (key, mode, '/strip' if strip else ''), run, rule=RULE)

        # the translation stands where the text stood
        def run(cx, src=src):
            lab = cx.lab
            t = lab.compile(src)
            ident = lab.call(lab.get('kjsa_values.Gettext'), Const(''), Const(''))
            x = cx.dyn('x', ('str', 'none'))
            cx.other = cx.render(lab.compile(src), context(cx, None, x))
            return cx.render(t, context(cx, ident, x))
        c.case('identity/%s' % key, run, lambda cx: cx.other, rule=RULE)

    # position of translations
    for key, doc, out in (
            ('spaces', '<d>  Hello  world\t </d>', '<d>  [Hello  world]\t </d>'),
            ('lines', '<d>\n a <b>\n b\n</b>\n c</d>', '<d>\n [a] <b>\n [b]\n</b>\n [c]</d>'),
            ('around', '<d> a $x b </d>', '<d> [a ]7[ b] </d>'),
            ('cdata', '<d>a <![CDATA[ b ]]> c</d>', '<d>[a] <![CDATA[ [b] ]]> [c]</d>'),
            ('escaped', '<d>a &lt; b</d>', '<d>[a &lt; b]</d>'),
            ('loop', '<d><b py:for="i in (1, 2)"> a </b></d>', '<d><b> [a] </b><b> [a] </b></d>'),
            ('function', '<d><py:def function="f()"> a </py:def>b${f()}c${f()}</d>',
             '<d>[b] [a] [c] [a] </d>'),
            ('script', '<d><script> a </script></d>',
             '<d><script>/*<![CDATA[*/ a /*]]>*/</script></d>'),
            ('comment', '<d><!--a--> b</d>', '<d><!-- a --> [b]</d>'),
            ('attribute', '<d a="b">c</d>', '<d a="b">[c]</d>')):
        def run(cx, doc=doc):
            return cx.render(cx.lab.compile(doc), cx.ctx(x=Const(7), gettext=ask(cx)))
        c.case('place/' + key, run, out, rule=RULE)

    # unknown texts
    for n in ('t', 'u'):
        def run(cx, n=n):
            t = Sym('text', 'str', excl='$&<>', trimmed=True, nonblank=True, nonempty=True)
            g = ask(cx)
            doc = El('d', {}, Tx(t)) if n == 't' else \
                El('d', {}, Tx(' '), El('b', {'k': 'v'}, Tx('\n '), Tx(t), Tx('  ')))
            out = cx.render(cx.template(doc), cx.ctx(gettext=g))
            cx.t = t
            calls = list(cx.ip.iterate(cx.ip.getattr(g, 'calls')))
            if len(calls) != 1:
                raise Finding('%d lookups for one text' % len(calls))
            if norm(cx.ip, calls[0]) != t:
                raise Finding('looked up text differs', calls[0], t)
            return out
        c.case('unknown-text/' + n, run, lambda cx, n=n: ['<d>[', cx.t, ']</d>'] if n == 't' else
               ['<d> <b k="v">\n [', cx.t, ']  </b></d>'], rule=RULE)

        def run(cx, n=n):
            t = Sym('text', 'str', excl='$&<>', trimmed=True, nonblank=True, nonempty=True)
            line = 7
            doc = El('d', {}, Ln(line), Tx(t)) if n == 't' else \
                El('d', {}, Ln(line - 1), Tx(' '), El('b', {'k': 'v'}, Tx('\n '), Ln(line), Tx(t),
                                                      Tx('  ')))
            cx.lab.doc = (doc,)
            f = cx.lab.call(cx.lab.get('io.BytesIO'), Const(b'<!-- abstract -->'))
            it = cx.lab.call(cx.lab.get('kajiki.i18n.extract'), f, ListO([]), NONE, DictO())
            got = [list(cx.ip.iterate(m)) for m in cx.ip.iterate(it)]
            if len(got) != 1:
                raise Finding('%d messages for one text' % len(got))
            if norm(cx.ip, got[0][2]) != t:
                raise Finding('extracted text differs', got[0][2], t)
            if got[0][0] != Const(line):
                raise Finding('message reported on line %s, required %d' % (short(got[0][0]), line))
            return NONE
        c.case('unknown-text/extract/' + n, run, rule=RULE)

    # which function translates -------------------------------------------------------
    def use(key, run, out):
        c.case('function/' + key, run, out, rule=RULE)
    D = '<d>a${_("b")}${gettext("c")}</d>'
    G = lambda cx, l: cx.lab.call(cx.lab.get('kjsa_values.Gettext'), Const(l), Const(''))

    use('default', lambda cx: cx.render(cx.lab.compile(D)), '<d>abc</d>')
    use('context', lambda cx: cx.render(cx.lab.compile(D), cx.ctx(gettext=G(cx, '1'))),
        '<d>1a1b1c</d>')
    use('globals', lambda cx: cx.render(cx.lab.compile(
        D, base_globals=cx.ctx(gettext=G(cx, '2')))), '<d>2a2b2c</d>')
    use('both', lambda cx: cx.render(cx.lab.compile(
        D, base_globals=cx.ctx(gettext=G(cx, '2'))), cx.ctx(gettext=G(cx, '1'))),
        '<d>1a1b1c</d>')

    def run(cx):
        m = cx.lab.mod('kajiki.i18n')
        t = cx.lab.compile(D)
        cx.ip.setattr(m, 'gettext', G(cx, '3'))
        return cx.render(t)
    use('module', run, '<d>3a3b3c</d>')

    def run(cx):
        t = cx.lab.compile(D)
        return cat(cx.render(t, cx.ctx(gettext=G(cx, '1'))), cx.render(t),
                   cx.render(t, cx.ctx(gettext=G(cx, '2'))))
    use('each-render', run, '<d>1a1b1c</d><d>abc</d><d>2a2b2c</d>')

    FILES = {
        'inc.xml': '<p>i<py:include href="b.xml"/></p>', 'b.xml': '<b>b${_("c")}</b>',
        'imp.xml': '<p>i<py:import href="f.xml" alias="m"/>${m.f()}</p>',
        'f.xml': '<p><py:def function="f()">f</py:def></p>',
        'ext.xml': '<py:extends href="p.xml"><py:block name="k">k${_("c")}</py:block></py:extends>',
        'ext2.xml': '<py:extends href="ext.xml"><py:block name="j">j</py:block></py:extends>',
        'p.xml': '<p>p<py:block name="k">x</py:block><py:block name="j">y</py:block></p>'}
    OUT = {'inc.xml': '<p>1i<b>1b1c</b></p>', 'imp.xml': '<p>1i1f</p>',
           'ext.xml': '<p>1p1k1c1y</p>', 'ext2.xml': '<p>1p1k1c1j</p>'}
    for n, out in OUT.items():
        for how in ('context', 'globals'):
            def run(cx, n=n, how=how):
                if how == 'context':
                    return cx.render(cx.load(cx.files(FILES), n), cx.ctx(gettext=G(cx, '1')))
                ld = cx.files(FILES, base_globals=cx.ctx(gettext=G(cx, '1')))
                return cx.render(cx.load(ld, n))
            use('%s/%s' % (n, how), run, out)

    # expressions, when asked for ------------------------------------------------------
    def pyx(ip, f, keywords, tags, options):
        data = f.attrs['_data']
        if type(data) is not Const:
            raise Unsupported('expression text')
        s = data.v.decode('utf-8')
        return ListO([Tup([Const(1), Const('_'), Const(q), ListO([])])
                      for q in s.split('"')[1::2]])
    hooks = dict(c.lab.hooks, **{'babel.extract': pyx})
    EX = ('<d>\n t ${_("a")}\n ${_("b") + _("c")}<b c="${_(\'no\')}">$x</b></d>',
          [(2, 't '), (2, 'a'), (3, 'b'), (3, 'c')])
    for on in (True, False, None):
        def run(cx, on=on):
            got = extracted(cx, EX[0], **({} if on is None else {'extract_python': on}))
            g = sorted((plain(l), plain(m)) for l, _, m, _ in got)
            want = sorted(EX[1] if on else EX[1][:1])
            if g != want:
                raise Finding('the extractor reports %s, required %s' % (g, want))
            return NONE
        c.case('expressions/%s' % on, run, rule=RULE, hooks=hooks)

    def run(cx):
        got = extracted(cx, EX[0], extract_python=True)
        g = sorted((plain(l), plain(m)) for l, _, m, _ in got)
        if g != [(2, 't ')]:
            raise Finding('the extractor reports %s' % g)
        return NONE
    c.case('expressions/no-babel', run, rule=RULE, missing_modules={
        'babel', 'babel.messages', 'babel.messages.extract'})

    # the kinds of sources
    def run(cx):
        lab = cx.lab
        lab.doc = None
        f = lab.call(lab.get('io.StringIO'), Const('<d>\u00e9</d>'))
        it = lab.call(lab.get('kajiki.i18n.extract'), f, ListO([]), NONE, DictO())
        return list(cx.ip.iterate(list(cx.ip.iterate(it))[0]))[2]
    c.case('source/text', run, '\u00e9', rule=RULE)
    c.case('source/bytes', lambda cx: extracted(cx, '<d>\u00e9</d>')[0][2], '\u00e9', rule=RULE)
