"""C20 -- bad templates are rejected with a located Kajiki error."""
from ..check import *
from ..interp import PyExc

RULE = ('a template that is not well-formed, names an unknown entity, has misplaced py:else or '
        'foreign content in py:switch, or contains an invalid expression is rejected when it is '
        'compiled, with the Kajiki error naming file, line and source line')
MIN = {'quick': 1000}

PARSE, COMPILE, SYNTAX = 'XMLTemplateParseError', 'XMLTemplateCompileError', 'KajikiSyntaxError'

# content of an element; '@' marks the line of the error
BAD = {
    'mismatch': (PARSE, '<b>\n@</c>'),
    'mismatch-case': (PARSE, '<b>\n@</B>'),
    'overlap': (PARSE, '<b><i>\n@</b></i>'),
    'stray-end': (PARSE, '\n@</b>'),
    'duplicate-attribute': (PARSE, '\n@<b a="1" a="2"/>'),
    'ampersand': (PARSE, 'a\n@a & b'),
    'ampersand-end': (PARSE, '\n@a &amp b'),
    'ampersand-attribute': (PARSE, '\n@<b a="x & y"/>'),
    'less': (PARSE, '\n@a < b'),
    'less-attribute': (PARSE, '\n@<b a="<"/>'),
    'unquoted': (PARSE, '\n@<b a=1/>'),
    'no-value': (PARSE, '\n@<b checked/>'),
    'no-space': (PARSE, '\n@<b a="1"c="2"/>'),
    'bad-name': (PARSE, '\n@<1a/>'),
    'cdata-end': (PARSE, '\n@a]]>b'),
    'comment-dashes': (PARSE, '\n@<!-- a -- b -->'),
    'null': (PARSE, '\n@&#0;'),
    'control': (PARSE, '\n@\x01'),
    'xml-declaration': (PARSE, '\n@<?xml version="1.0"?>'),
    'entity': (PARSE, '\n@&bogus;'),
    'entity-text': (PARSE, '\n a\n@b&bogus; c'),
    'entity-case': (PARSE, '\n@&NBSP;'),
    'entity-element': (PARSE, '<b>\n\n@&x1y;</b>'),
    'entity-expr': (PARSE, '$x\n@${x}&foo;'),
    'switch-text': (COMPILE, '\n@<py:switch test="1">a<py:case value="1">b</py:case></py:switch>'),
    'switch-text-last': (COMPILE, '@<py:switch test="1"><py:case value="1">b</py:case>\na\n'
                                  '</py:switch>'),
    'switch-element': (COMPILE, '\n@<py:switch test="1"><b/></py:switch>'),
    'switch-expr': (COMPILE, '\n@<py:switch test="1">$x<py:else>b</py:else></py:switch>'),
    'switch-braced': (COMPILE, '\n@<py:switch test="1">\n${x}\n<py:else>b</py:else></py:switch>'),
    'switch-if': (COMPILE, '\n@<py:switch test="1"><py:if test="1">a</py:if></py:switch>'),
    'switch-for': (COMPILE, '\n@<py:switch test="1"><b py:for="i in x">a</b></py:switch>'),
    'switch-on-tag': (COMPILE, '\n@<b py:switch="1"><py:case value="1">a</py:case></b>'),
    'switch-pi': (COMPILE, '\n@<py:switch test="1"><?py a = 1 ?></py:switch>'),
    'else-first': (COMPILE, '\n@<py:else>a</py:else>'),
    'else-text': (COMPILE, '<py:if test="1">a</py:if>b\n@<py:else>a</py:else>'),
    'else-space': (COMPILE, '<py:if test="1">a</py:if>\n@<py:else>a</py:else>'),
    'else-element': (COMPILE, '<py:if test="1">a</py:if><b/>\n@<py:else>a</py:else>'),
    'else-for': (COMPILE, '<py:for each="i in x">a</py:for>\n@<py:else>a</py:else>'),
    'else-for-adjacent': (COMPILE, '\n@<py:for each="i in x">a</py:for><py:else>a</py:else>'),
    'else-while': (COMPILE, '\n@<b py:for="i in x" py:if="x">a</b><py:else>a</py:else>'),
    'else-else': (COMPILE, '\n@<py:if test="x">a</py:if><py:else>b</py:else><py:else>a</py:else>'),
    'else-in-case': (COMPILE, '<py:switch test="x"><py:case value="1">\n@<py:else>a</py:else>'
                              '</py:case></py:switch>'),
    'else-in-else': (COMPILE, '<py:if test="x">a</py:if><py:else>\n@<py:else>a</py:else></py:else>'),
    'else-comment': (COMPILE, '<py:if test="x">a</py:if><!-- a -->\n@<py:else>a</py:else>'),
    'else-attribute': (COMPILE, '<b/>\n@<b py:else="">a</b>'),
    'else-nested': (COMPILE, '<py:if test="1"><i>\n@<py:else>a</py:else></i></py:if>'),
    'expr': (COMPILE, '\n@${1 +}'),
    'expr-text': (COMPILE, 'a\n@b ${x y} c'),
    'expr-open': (COMPILE, '\n@${x'),
    'expr-open-text': (COMPILE, '\n@${x <b/>'),
    'expr-string': (COMPILE, '\n@${"x}'),
    'expr-paren': (COMPILE, '\n@${(x}'),
    'expr-empty': (COMPILE, '\n@${}'),
    'expr-statement': (COMPILE, '\n@${x = 1}'),
    'expr-attribute': (COMPILE, '\n@<b a="${1 +}"/>'),
    'expr-attribute-open': (COMPILE, '\n@<b a="c ${x d"/>'),
    'expr-cdata': (COMPILE, '\n<![CDATA[\n@${1 +}]]>'),
    'expr-second': (COMPILE, '${x}\n$x @${1 +}'),
}
# whole documents
DOCS = {
    'unclosed': (PARSE, '<d>\n<b>a</b>\n@'),
    'unclosed-tag': (PARSE, '<d>\n@<b'),
    'unclosed-comment': (PARSE, '<d>\n@<!-- a</d>'),
    'unclosed-cdata': (PARSE, '<d>\n<![CDATA[ a\n@</d>'),
    'two-roots': (PARSE, '<d/>\n@<e/>'),
    'text-after': (PARSE, '<d/>\n@text'),
    'text-before': (PARSE, '@text\n<d/>'),
    'entity-after': (PARSE, '<d/>\n@&nbsp;'),
    'only-text': (PARSE, '@text'),
    'only-comment': (PARSE, '<!-- a\n -->\n@'),
    'blank': (PARSE, '\n\n@'),
    'doctype-only': (PARSE, '<!DOCTYPE html>\n@'),
    'doctype-mismatch': (PARSE, '<!DOCTYPE html>\n<d>\n@</e>'),
    'doctype-lines': (PARSE, '<!DOCTYPE html\nPUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n '
                             '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n<d>\n@&q;</d>'),
    'else-root': (COMPILE, '@<py:else>a</py:else>'),
    'else-root-attribute': (COMPILE, '\n@<b py:else="">a</b>'),
    'pi-before': (COMPILE, '<?py a = 1 ?>\n<d/>'),
    'pi-after': (COMPILE, '<d/>\n<?py a = 1 ?>'),
}
WRAP = {
    'plain': '<d>%s</d>',
    'lines': '<d>\n\n <p a="b"\n>x</p>\n%s\n</d>',
    'if': '<d><py:if test="x">%s</py:if></d>',
    'for': '<d>\n<u py:for="i in x">%s</u></d>',
    'def': '<d><py:def function="f()">\n%s</py:def></d>',
    'block': '<d><py:block name="k">%s</py:block></d>',
    'comment': '<!-- a\n b --><d>%s</d>',
    'doctype': '<!DOCTYPE html>\n<d>%s</d>',
}
# code of directives that is no valid Python, with what the excerpt has to show
CODE = {
    'if': ('<b py:if="1 +">a</b>', '1 +'),
    'if-element': ('<py:if test="x y">a</py:if>', 'x y'),
    'if-empty': ('<py:if test="">a</py:if>', 'if'),
    'for': ('<b py:for="i of x">a</b>', 'i of x'),
    'for-element': ('<py:for each="i">a</py:for>', 'for i'),
    'switch': ('<py:switch test="1 +"><py:case value="1">a</py:case></py:switch>', '1 +'),
    'case': ('<py:switch test="1"><py:case value=")">a</py:case></py:switch>', ')'),
    'def': ('<py:def function="f(">a</py:def>', 'f('),
    'def-name': ('<py:def function="1f()">a</py:def>', '1f()'),
    'with': ('<py:with vars="a=1 +">a</py:with>', '1 +'),
    'content': ('<b py:content="1 +"/>', '1 +'),
    'replace': ('<b py:replace="x y"/>', 'x y'),
    'strip': ('<b py:strip="1 +">a</b>', '1 +'),
    'attrs': ('<b py:attrs="{1">a</b>', '{1'),
    'call': ('<py:call args="q" function="f(%caller">a</py:call>', 'f('),
    'py': ('<?py a = = 1 ?>', 'a = = 1'),
    'py-module': ('<?py % a = = 1 ?>', 'a = = 1'),
}
TEXT = {
    'if': ('%if 1 +\na\n%end\n', '1 +'),
    'for': ('%for i of x\na\n%end\n', 'i of x'),
    'inline': ('{%if x y%}a{%end%}', 'x y'),
    'def': ('%def f(\na\n%end\n', 'f('),
    'py': ('%py a = = 1\n', 'a = = 1'),
    'case': ('%switch 1\n%case )\na\n%end\n', ')'),
    'expr': ('a ${1 +} b', '1 +'),
}


def text(v):
    if type(v) is Const:
        return v.v
    raise Unsupported('not constant: %s' % short(v))


def rejected(cx, make, cls, fname, src, line, shows=None):
    ip = cx.ip
    try:
        make()
    except PyExc as e:
        n = getattr(e.val, 'cls', None)
        name = n.name if n is not None else short(e.val)
        if name != cls:
            msg = ip.getattr_opt(e.val, 'args')
            raise Finding('rejected with %s %s instead of %s' % (name, msg and short(msg)[:100],
                                                               cls))
        fn, ln = ip.getattr_opt(e.val, 'filename'), ip.getattr_opt(e.val, 'linenum')
        if fn is None or (fname is not None and text(fn) != fname):
            raise Finding('%s names the file %s, required %s' % (cls, fn and short(fn), fname))
        if ln is None or (line is not None and text(ln) != line):
            raise Finding('%s names line %s, required %s' % (cls, ln and short(ln), line))
        msg = text(cx.lab.call(ip.types['str'], e.val))
        head = '[%s:%s] ' % (text(fn), text(ln))
        if not msg.startswith(head):
            raise Finding('the message %r does not start with %r' % (msg[:80], head))
        rest = msg.split('\n')
        if not rest[0][len(head):].strip():
            raise Finding('no description in %r' % msg[:80])
        want = shows if shows is not None else src.split('\n')[line - 1]
        marked = [l for l in rest[1:] if l.strip().startswith('-->')]
        if shows is None and not any(l.endswith(want) for l in marked) or \
                shows is not None and want not in msg:
            raise Finding('the excerpt %r does not show %r' % ('\n'.join(rest[1:]), want))
        return NONE
    raise Finding('the template is accepted')


def at(src):
    i = src.index('@')
    return src.replace('@', '', 1), src[:i].count('\n') + 1


def check(c):
    lab = c.lab
    docs = {}
    for b, (cls, body) in BAD.items():
        for w, frame in WRAP.items():
            docs['%s/%s' % (b, w)] = (cls, frame % body)
    for b, (cls, body) in DOCS.items():
        docs[b] = (cls, body)

    for key, (cls, marked) in docs.items():
        src, line = at(marked) if '@' in marked else (marked, None)
        shows = '' if line is None else None
        c.case('template/' + key, lambda cx, cls=cls, src=src, line=line, shows=shows: rejected(
            cx, lambda: cx.lab.compile(src, filename=Const('dir/t.xml')), cls, 'dir/t.xml', src,
            line, shows), rule=RULE)
        if '/' in key and not key.endswith('/plain'):
            continue
        c.case('no-name/' + key, lambda cx, cls=cls, src=src, line=line, shows=shows: rejected(
            cx, lambda: cx.lab.compile(src), cls, '<string>', src, line, shows), rule=RULE)
        for opts in ({'mode': 'html5'}, {'is_fragment': True}, {'strip_text': True},
                     {'cdata_scripts': False}):
            k, v = next(iter(opts.items()))
            if k == 'strip_text' and key.startswith('else-space'):
                continue        # there the space goes before anything is compiled
            c.case('option/%s/%s' % (k, key), lambda cx, cls=cls, src=src, line=line, k=k, v=v,
                   shows=shows: rejected(cx, lambda: cx.lab.compile(
                       src, **{k: Const(v)}), cls, '<string>', src, line, shows), rule=RULE)

        # through a loader, also as included, imported or extended template
        def run(cx, cls=cls, src=src, line=line, shows=shows):
            ld = cx.files({'bad.xml': src, 'inc.xml': '<d><py:include href="bad.xml"/></d>',
                           'imp.xml': '<d><py:import href="bad.xml" alias="m"/></d>',
                           'ext.xml': '<d py:extends="bad.xml"><py:block name="k"/></d>'})
            how = cx.pick('how', ('load', 'inc.xml', 'imp.xml', 'ext.xml'))
            go = (lambda: cx.load(ld, 'bad.xml')) if how == 'load' else \
                (lambda: cx.render(cx.load(ld, how)))
            rejected(cx, go, cls, '/t/bad.xml', src, line, shows)
            # a second attempt fails in the same way
            return rejected(cx, go, cls, '/t/bad.xml', src, line, shows)
        c.case('loader/' + key, run, rule=RULE)

    # code that is no Python
    for key, (body, shows) in CODE.items():
        for w in ('plain', 'lines', 'def', 'block'):
            if key == 'py-module' and w in ('def', 'block'):
                continue
            c.case('code/%s/%s' % (key, w), lambda cx, w=w, body=body, shows=shows: rejected(
                cx, lambda: cx.lab.compile(WRAP[w].replace('%s', body)), SYNTAX, None, body,
                None, shows), rule=RULE)
    for key, (src, shows) in TEXT.items():
        for pre in ('', 'a\n\n', '$x\n'):
            c.case('code/text/%s/%d' % (key, len(pre)), lambda cx, src=src, pre=pre, shows=shows:
                   rejected(cx, lambda: cx.lab.call(cx.lab.get('kajiki.TextTemplate'),
                                                    Const(pre + src)), SYNTAX, None, src, None,
                            shows), rule=RULE)

    # and what is well-formed is not rejected
    GOOD = {
        'switch-blanks': '<py:switch test="1">\n <py:case value="1">a</py:case>\n'
                         '<py:else>b</py:else>\n</py:switch>',
        'switch-empty': '<py:switch test="1"/>',
        'else-if': '<py:if test="0">a</py:if><py:else>b</py:else>',
        'else-attributes': '<b py:if="0">a</b><b py:else="">b</b>',
        'else-switch': '<py:switch test="1"><py:else>a</py:else></py:switch>',
        'case-attributes': '<py:switch test="1"><b py:case="1">a</b><b py:else="">c</b></py:switch>',
        'entities': '&nbsp;&eacute;&amp;&lt;&gt;&quot;&apos;&#65;',
        'dollars': '$ $$ $1 a$ ${1}$',
        'braces': '{ } ${"}"} }',
    }
    for key, body in GOOD.items():
        for w in WRAP:
            c.case('accepted/%s/%s' % (key, w), lambda cx, w=w, body=body: (
                cx.lab.compile(WRAP[w].replace('%s', body)), NONE)[1], rule=RULE)
