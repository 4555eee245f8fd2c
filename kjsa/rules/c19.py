"""C19 -- template source lines are tracked through compilation."""
import re
from ..check import *
from ..interp import PyExc
from ..models import code_lines

RULE = ('the line reported for a message, for a compile error and in the line table of the '
        'generated code is the line of the template source on which the text or expression '
        'stands, whatever stands before it')
MIN = {'quick': 1500}

# '@' stands for a marker; what follows or precedes it varies in how it uses up lines
SEG = {
    'newline': '\n',
    'newlines': '\n\n\n',
    'blank': ' \t\n \n\t',
    'text': 'a\nb',
    'text-end': 'a @\n',
    'text-lead': '\n\n a@',
    'comment': '<!-- a\nb\n-->',
    'dropped': '<!--! a\n\nb -->',
    'pi': '<?py z = 1\nz = 2\n\n?>',
    'pi-blocks': '<?py\nif x:\n  z = 1\nelse:\n  z = (2,\n 3)\n?>',
    'pi-module': '<?py %\nz = 1\ny = (1,\n 2)\n?>',
    'element': '<b>\n@</b>\n',
    'empty': '<b\n/>',
    'tag': '<b\n c="d"\n>@</b\n>',
    'attribute': '<b c="d\ne"/>',
    'attribute-expr': '<b c="f\n${x}g\n${(x,\nx)}h"/>\n',
    'attrs': '<b py:attrs="{\n}">\n@</b>',
    'name': '$x\n',
    'braced': '${x}\n',
    'expr-lines': '${(x,\nx)}',
    'expr-many': 'a${[x,\nx,\nx, x,\nx]}b@',
    'expr-lead': '${\nx}',
    'expr-lead2': '${ \n\n x}\n',
    'expr-trail': '${x\n}',
    'expr-string': '${"""a\nb"""}',
    'two-exprs': '$x\n$x\n${x}\n',
    'dollar': '$$\n',
    'dollar-text': 'a$$\n$$b@',
    'cdata': '<![CDATA[a\nb]]>',
    'cdata-end': '<![CDATA[\n@\n]]>',
    'cdata-expr': '<![CDATA[\n${x}\n]]>',
    'amp': 'a&amp;\nb@',
    'lt': '&lt;\n&gt;',
    'entity': '&nbsp;\n',
    'entity-text': 'a\n&eacute;\nb',
    'char': '&#10;&#x41;',
    'crlf': 'a\r\nb',
    'if': '<py:if test="True">\n@\n</py:if>',
    'if-lines': '<py:if\n test="True"\n>@</py:if>\n',
    'if-attr': '<b\n py:if="True">@\n</b>',
    'else': '<py:if test="False">\na</py:if><py:else>\n@</py:else>',
    'for': '<py:for each="i in (1,)">\n@\n$i</py:for>',
    'for-lines': '<py:for each="i in (1,\n2)">\n@\n$i</py:for>',
    'with': '<py:with vars="q=1">\n$q @\n</py:with>',
    'with-lines': '<py:with vars="q=(1,\n2)">\n@\n</py:with>',
    'switch': '<py:switch test="1">\n <py:case value="1">\n@</py:case>\n<py:else>\n</py:else>\n'
              '</py:switch>',
    'strip': '<b\n py:strip="">\n@</b>\n',
    'content': '<b py:content="x">\n</b>\n',
    'replace': '<b py:replace="x">\n</b>\n',
    'script': '<script>\n a\n</script>',
    'style': '<style\n>\n$x a</style>',
    'pre': '<pre>\n\n a\n</pre>',
    'def': '<py:def function="f(a)">\n$a\n@</py:def>\n',
    'def-lines': '<py:def function="f(a,\nb=1)">\n\n@</py:def>\n',
    'block': '<py:block name="k">\n@\n</py:block>\n',
    'many': '\n' * 130,
    'more': 'a' + '\n' * 300 + '@',
}
ONCE = {'def', 'def-lines', 'block', 'pi-module'}
# templates whose marker stands inside a directive with names of its own still
# keep the line of the marker
HEAD = {
    'none': '',
    'doctype': '<!DOCTYPE html>\n',
    'doctype-lines': '<!DOCTYPE html\n  PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN"\n '
                     '"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">\n\n',
    'comment': '<!-- a\n b -->\n',
    'doctype-comment': '<!DOCTYPE\nhtml>\n<!-- a\n b -->\n',
}

TSEG = {
    'newline': '\n',
    'text': 'a\n\nb\n',
    'text-end': 'a @\n',
    'name': '$x\n',
    'braced': '${x}\n\n',
    'expr-lines': '${(x,\nx)}\n',
    'if': '%if x\n@\n%end\n',
    'else': '%if False\na\n%else\n@\n%end\n',
    'inline-if': '{%if True%}\n@\n{%end%}\n',
    'trimmed': 'a\n  {%-if True -%}\n\n @\n {%-end-%}\n',
    'for': '%for i in (1,)\n@ $i\n%end\n',
    'for-lines': '%for i in (1,)\n\n\n%end\n',
    'switch': '%switch 1\n%case 1\n@\n%else\nb\n%end\n',
    'py': '%py z = 1\n',
    'py-lines': '%py\n z = 1\n y = (1,\n 2)\n%end\n',
    'continued': 'a\\\nb\n',
    'dollar': '$$\n',
    'backslash': '\\$x\n',
    'many': 'a' + '\n' * 130,
    'more': '\n' * 300,
    'block': 'a\n%block k\nb\n@\n%end\n',
    'def': '%def f(a)\n$a\n\n@\n%end\n',
}
TONCE = {'def', 'block'}


def mark(src, form):
    out, line = '', 1
    n = 0
    for ch in src:
        if ch == '@':
            out += form % line
            n += 1
            continue
        line += ch == '\n'
        out += ch
    return out, n


def text(v):
    if type(v) is Const:
        return v.v
    raise Unsupported('not constant: %s' % short(v))


def decode(table, first):
    """[(start offset, line)] of a line table (the rules of the interpreter)"""
    if len(table) % 2:
        raise Finding('the line table has an odd number of bytes')
    addr, line, out = 0, first, []
    for i in range(0, len(table), 2):
        addr += table[i]
        d = table[i + 1]
        line += d - 256 if d > 127 else d
        out.append((addr, line))
    return out


def line_at(table, first, off):
    line = first
    for a, n in table:
        if a > off:
            break
        line = n
    return line


def table_lines(cx, src, name, exact, count):
    """compare the tables of all generated functions with the markers"""
    found = set()
    step = cx.ip.config['line_step']
    texts = [e.data[1].v for e in cx.ip.events if e.kind == 'exec']
    if not texts:
        raise Finding('no generated code')
    py = texts[-1].split('\n')
    # the generated code is positioned by line; expressions keep their lines
    codes = [e for e in cx.ip.events if e.kind == 'code']
    last = src.count('\n') + 1
    for e in codes:
        code, fname, first, table = e.data
        if text(fname) != name:
            raise Finding('generated code is given the file name %r, required %r'
                          % (text(fname), name))
        tab = decode(text(table), text(first))
        prev = text(first)
        for k, n in enumerate(code_lines(code.func.node)):
            got = line_at(tab, text(first), k * step)
            if got < prev:
                raise Finding('the line table of %s runs backwards from %d to %d'
                              % (code.func.name, prev, got))
            prev = got
            if not 0 <= got <= last:
                raise Finding('the line table of %s names line %d of a template of %d lines'
                              % (code.func.name, got, last))
            m = re.search(r'mk\((\d+)\)', py[n - 1])
            if m and exact:
                found.add(m.group(1))
                if got != int(m.group(1)):
                    raise Finding('the expression on line %s of the template is mapped to '
                                  'line %d' % (m.group(1), got))
    if exact and not found:
        raise Unsupported('no marker in the generated code')


def check(c):
    quick = c.tier == 'quick'
    names = list(SEG)
    second = names if not quick else [
        'newlines', 'text', 'text-lead', 'comment', 'pi', 'tag', 'attribute-expr', 'two-exprs',
        'expr-many', 'expr-lead2', 'cdata-end', 'amp', 'entity-text', 'if', 'def', 'more']
    pairs = [(a,) for a in names] + [(a, b) for a in names for b in second
                                     if a != b or a not in ONCE]

    def src_of(seq, head='none'):
        inner = ''
        for i, k in enumerate(seq):
            s = SEG[k]
            if k in ONCE and seq.index(k) != i:
                s = s.replace('f(', 'f%d(' % i).replace('"k"', '"k%d"' % i)
            inner += s
        return HEAD[head] + '<d>' + inner + '<q>@</q></d>'

    def groups(family):
        out = {}
        for s in family:
            out.setdefault(s[0], []).append(s)
        return out

    heads = [(h, s) for h in HEAD for s in [('newline',), ('text-end',), ('if',), ('def',)]]

    # messages -------------------------------------------------------------------------
    from .c16 import extracted

    def extraction(cx, src, strip):
        source, n = mark(src, 'mk(%d)')
        got = extracted(cx, source, **({'strip_text': True} if strip else {}))
        found = 0
        for l, _, m, _ in got:
            l, m = text(l), text(m)
            for x in re.finditer(r'mk\((\d+)\)', m):
                found += 1
                if l + m[:x.start()].count('\n') != int(x.group(1)):
                    raise Finding('message %r, on line %s of the template, is reported on line %d'
                                  % (m[:60], int(x.group(1)) - m[:x.start()].count('\n'), l))
        if found < n:
            raise Finding('%d of %d texts extracted' % (found, n))
        return NONE

    for first, group in groups(p for p in pairs if 'char' not in p).items():
        for strip in (False, True):
            def run(cx, group=group, strip=strip):
                s = group[cx.ip.choose(len(group), ('sequence',))]
                cx.kinds['before'] = '+'.join(s)
                return extraction(cx, src_of(s), strip)
            c.case('message/%s%s' % (first, '/strip' if strip else ''), run, rule=RULE,
                   max_paths=6000)
    for h, s in heads:
        c.case('message/head/%s/%s' % (h, s[0]),
               lambda cx, h=h, s=s: extraction(cx, src_of(s, h), False), rule=RULE)

    # errors ---------------------------------------------------------------------------
    BAD = {
        'braced': ('<q>@${1 +}</q>', 0),
        'text': ('@${1 +}', 0),
        'later': ('<q>a\n\n b@${1 +}c</q>', 0),
        'after-expr': ('<q>${x}\n$x ${(x,\nx)}@${)}</q>', 0),
        'unterminated': ('<q>\n@${x</q>', 0),
        'cdata': ('<q><![CDATA[\n@${1 +}]]></q>', 0),
        'attribute': ('@<q\n\n a="${1 +}"/>', 0),
        'attribute2': ('@<q b="c" a="d ${1 +} e"/>', 0),
        'switch': ('@<py:switch test="x">\n<q/></py:switch>', 0),
        'else': ('@<py:else>\n</py:else>', 0),
        'nested': ('<q><py:if test="x">\n<py:for each="i in x">\n@${1 +}</py:for></py:if></q>', 0),
        'in-def': ('<q><py:def function="g()">\n\n@${1 +}</py:def></q>', 0),
    }

    def error(cx, pre, bad, head='none'):
        ip = cx.ip
        src = HEAD[head] + '<d>' + pre + BAD[bad][0] + '</d>'
        i = src.rindex('@')
        want = src[:i].count('\n') + 1
        src = src.replace('@', '')
        try:
            cx.lab.compile(src, filename=Const('dir/tpl.xml'))
        except PyExc as e:
            n = getattr(e.val, 'cls', None)
            if n is None or n.name != 'XMLTemplateCompileError':
                raise Finding('%s instead of a compile error' % short(e.val))
            got = ip.getattr_opt(e.val, 'linenum')
            if got is None or text(got) != want:
                raise Finding('error on line %d reported on line %s'
                              % (want, got and short(got)))
            fn = ip.getattr_opt(e.val, 'filename')
            if fn is None or text(fn) != 'dir/tpl.xml':
                raise Finding('error reported for file %s' % short(fn))
            msg = text(cx.lab.call(ip.types['str'], e.val))
            if not msg.startswith('[dir/tpl.xml:%d] ' % want):
                raise Finding('error on line %d of dir/tpl.xml reads %r' % (want, msg[:80]))
            line = src.split('\n')[want - 1]
            shown = [l for l in msg.split('\n') if l.lstrip().startswith('-->')]
            if not any(l.endswith(line) for l in shown):
                raise Finding('the excerpt does not point at line %d: %r' % (want, msg))
            return NONE
        raise Finding('the template is accepted')

    for bad in BAD:
        for first in [None] + names:
            if first in ('char', 'more', 'many', 'crlf') or (
                    bad == 'else' and (first or '').startswith('if')):
                continue
            def run(cx, bad=bad, first=first):
                return error(cx, SEG.get(first, '').replace('@', ''), bad)
            c.case('error/%s/%s' % (bad, first), run, rule=RULE)
        for h in HEAD:
            c.case('error/%s/head/%s' % (bad, h),
                   lambda cx, bad=bad, h=h: error(cx, '\n', bad, h), rule=RULE)

    # the line table ---------------------------------------------------------------------
    def table(cx, src, make, exact):
        source, n = mark(src, '${mk(%d)}')
        make(source, filename=Const('tpl'))
        table_lines(cx, source, 'tpl', exact, n)
        return NONE

    steps = (2, 100, 300)
    XN = [k for k in names if k not in ('char', 'crlf')]
    xp = [(a,) for a in XN] + [(a, b) for a in XN for b in second
                                 if a != b or a not in ONCE]
    for first, group in groups(xp).items():
        def run(cx, group=group):
            s = group[cx.ip.choose(len(group), ('sequence',))]
            cx.kinds['before'] = '+'.join(s)
            cx.ip.config['line_step'] = steps[len(s[-1]) % 3]
            return table(cx, src_of(s), cx.lab.compile, True)
        c.case('table/%s' % first, run, rule=RULE, max_paths=6000)
    for h, s in heads:
        for step in steps:
            c.case('table/head/%s/%s/%d' % (h, s[0], step), lambda cx, h=h, s=s: table(
                cx, src_of(s, h), cx.lab.compile, True), rule=RULE, line_step=step)
    for k in ('newline', 'many', 'more', 'expr-many', 'pi', 'for', 'def', 'block'):
        for step in (1, 2, 127, 128, 254, 255, 256, 510, 600):
            def run(cx, k=k):
                return table(cx, '<d>%s<q>@</q>\n%s</d>' % (SEG[k], SEG[k] if k not in ONCE
                                                            else '\n@'), cx.lab.compile, True)
            c.case('table/steps/%s/%d' % (k, step), run, rule=RULE, line_step=step)

    tn = list(TSEG)
    tp = [(a,) for a in tn] + [(a, b) for a in tn for b in tn
                               if a != b or a not in TONCE]
    for first, group in groups(tp).items():
        def run(cx, group=group):
            s = group[cx.ip.choose(len(group), ('sequence',))]
            cx.kinds['before'] = '+'.join(s)
            cx.ip.config['line_step'] = steps[len(s[-1]) % 3]
            src = ''.join(TSEG[k] for k in s) + '@\n'
            return table(cx, src, lambda src, **o: cx.lab.call(
                cx.lab.get('kajiki.TextTemplate'), Const(src), **o), True)
        c.case('table/text/%s' % first, run, rule=RULE, max_paths=6000)
