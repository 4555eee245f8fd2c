T, X, I, L, U = ('kajiki/template.py', 'kajiki/xml_template.py', 'kajiki/ir.py',
                 'kajiki/loader.py', 'kajiki/util.py')
N, D, TX, H, M, LN, P = ('kajiki/i18n.py', 'kajiki/doctype.py', 'kajiki/text.py', 'kajiki/html_utils.py',
               'kajiki/markup_template.py', 'kajiki/lnotab.py', 'kajiki/integration/pyramid.py')
SEEDS = [
 dict(id='s13', prop='C11', needs='a function named with two leading underscores that a child template overrides',
  breaks='functions with such names are not overridden in the parent',
  edits=[(T, "        for k, v in iteritems(self.__globals__):\n            if k == '__main__':\n", "        for k, v in iteritems(self.__globals__):\n            if k.startswith('__'):\n")],
  demo="""
import kajiki
X = kajiki.XMLTemplate
l = kajiki.loader.MockLoader({
 'a': X('<py:nop><py:def function="__f()">a</py:def>${__f()}</py:nop>'),
 'b': X('<py:nop><py:extends href="a"/><py:def function="__f()">b</py:def></py:nop>')})
assert l.import_('b')({}).render() == 'b', l.import_('b')({}).render()
"""),
 dict(id='s14', prop='C13', needs='two instances of one template alive at the same time (e.g. a template whose rendering is interleaved with another)',
  breaks='template functions are bound once per class instead of per instance, so instances share the globals of the first call',
  edits=[(T, "    def bind_instance(self, inst):\n        return TplFunc(self._func, inst)\n",
             "    def bind_instance(self, inst):\n        if self._inst is None or self._inst is inst:\n            bound = TplFunc(self._func, inst)\n        else:\n            bound = TplFunc(self._func, self._inst)\n        self._inst = bound._inst if bound._func.__name__ != '__main__' else None\n        return bound\n")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p><py:def function="f()">$x</py:def>${f()}</p>')
a, b = t(dict(x=1)), t(dict(x=2))
assert (a.render(), b.render()) == ('<p>1</p>', '<p>2</p>'), (a.render(), b.render())
"""),
 dict(id='s15', prop='C14', needs='one template object in two loaders',
  breaks='a template that already has a loader keeps it when another loader hands it out',
  edits=[(L, "            v.loader = self\n", "            v.loader = v.loader or self\n")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p/>')
a = kajiki.loader.MockLoader({'t': t})
b = kajiki.loader.MockLoader({'t': t})
assert b.import_('t').loader is b
"""),
 dict(id='s16', prop='C15', needs='a file name with two dots, such as page.en.html',
  breaks='the kind of template is taken from the first suffix of the file name instead of its extension',
  edits=[(L, "            ext = os.path.splitext(filename)[1][1:]\n", "            ext = os.path.basename(filename).split('.', 2)[1]\n")],
  demo="""
import kajiki, os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    for n in ('page.txt.html', 'b.en.xml'):
        with open(os.path.join(d, n), 'w') as f:
            f.write('<br/>')
    l = kajiki.FileLoader([d])
    assert l.load('page.txt.html')({}).render() == '<br>'
    assert l.load('b.en.xml')({}).render() == '<br/>'
finally:
    shutil.rmtree(d)
"""),
 dict(id='s17', prop='C16', needs='a message next to an expression, at the end of its text with trailing blanks, extracted with strip_text',
  breaks='the extractor strips messages the renderer looks up unstripped',
  edits=[(N, "                yield (node.lineno, '_', node.text, [])\n",
             "                yield (node.lineno, '_', node.text.rstrip(), [])\n")],
  demo="""
import kajiki, io
from kajiki.i18n import extract
src = '<p>hello ${x} bye</p>'
seen = []
kajiki.XMLTemplate(src)(dict(x=1, gettext=lambda s: seen.append(s) or s)).render()
got = [m[2] for m in extract(io.BytesIO(src.encode()), [], None, {})]
assert got == seen, (got, seen)
"""),
 dict(id='s18', prop='C17', needs='a text run with a CDATA section between two texts of the same parent, inside a child element',
  breaks='text after a CDATA section is merged in front of it',
  edits=[(X, "            else:\n                merge_node = None\n\n        # Apply", "            elif not isinstance(child, dom.Comment):\n                merge_node = None\n\n        # Apply")],
  demo="""
import kajiki
out = kajiki.XMLTemplate('<p>a<!-- c -->b</p>')({}).render()
assert out == '<p>a<!--  c  -->b</p>', out
"""),
 dict(id='s19', prop='C18', needs='a template compiled as a fragment (as py:include does) in xml mode with a script that has < or &',
  breaks='script and style of fragments are treated like any other element',
  edits=[(X, "        self.cdata_scripts = cdata_scripts\n", "        self.cdata_scripts = cdata_scripts and not is_fragment\n")],
  demo="""
import kajiki
out = kajiki.XMLTemplate('<p><style>a &gt; b</style></p>', is_fragment=True)({}).render()
assert out == '<p><style>/*<![CDATA[*/a > b/*]]>*/</style></p>', out
"""),
 dict(id='s20', prop='C19', needs='text after an expression that spans several lines',
  breaks='newlines inside expressions are not counted for the text that follows',
  edits=[(X, "        node = ir.ExprNode(text, safe=self.in_html_attr)\n        node.lineno = self.real_lineno\n        self.lineno += text.count('\\n')\n",
             "        node = ir.ExprNode(text, safe=self.in_html_attr)\n        node.lineno = self.real_lineno\n        self.lineno += text.strip().count('\\n')\n")],
  demo="""
import io
from kajiki.i18n import extract
got = [m[:3] for m in extract(io.BytesIO(b'<p>${1\\n\\n} hi</p>'), [], None, {})]
assert got == [(3, '_', ' hi')], got
"""),
 dict(id='s21', prop='C20', needs='an expression with an operator at its end followed by text with a brace',
  breaks='an unterminated expression at the end of an attribute is silently accepted',
  edits=[(X, "            elif not isinstance(n, (ir.CaseNode, ir.ElseNode)):\n",
             "            elif not isinstance(n, (ir.CaseNode, ir.ElseNode, ir.PythonNode)):\n")],
  demo="""
import kajiki
from kajiki.xml_template import XMLTemplateCompileError
try:
    kajiki.XMLTemplate('<div><py:switch test="1"><?py x = 1?><py:case value="1">a</py:case></py:switch></div>')
except XMLTemplateCompileError:
    pass
else:
    raise SystemExit('accepted')
"""),
 dict(id='s22', prop='C21', needs='a template whose compilation fails, loaded from a file',
  breaks='the file is only closed when reading succeeds',
  edits=[(X, "        with open(filename, encoding=encoding) as f:\n            source = f.read()  # source is a unicode string\n",
             "        f = open(filename, encoding=encoding)\n        source = f.read()  # source is a unicode string\n        f.close()\n")],
  demo="""
import codecs, kajiki, os, tempfile
import kajiki.xml_template as x
fd, fn = tempfile.mkstemp()
os.write(fd, b'<p>\\xff\\xfe</p>'); os.close(fd)
opened = []
orig = x.open
x.open = lambda *a, **k: opened.append(orig(*a, **k)) or opened[-1]
try:
    try:
        kajiki.XMLTemplate(filename=fn)
    except UnicodeDecodeError:
        pass
    assert opened and all(f.closed for f in opened)
finally:
    os.remove(fn)
"""),
 dict(id='s23', prop='C22', needs='an iterable that is consumed lazily inside a nested template function, with an observer between pieces',
  breaks='the output of a whole function is collected before its first piece is yielded',
  edits=[(U, "                for xx in x:\n                    if xx is not None:\n                        yield xx\n",
             "                for xx in list(x):\n                    if xx is not None:\n                        yield xx\n")],
  demo="""
import kajiki
log = []
t = kajiki.XMLTemplate('<p><py:def function="f()">a${log.append(1)}b${log.append(2)}c</py:def>${f()}</p>')
it = iter(t(dict(log=log)))
out = ''
while not out.endswith('a'):
    out += next(it)
assert log == [], log
"""),
 dict(id='s24', prop='C23', needs='a tag with -%} followed by tabs',
  breaks='-%} only removes spaces, not tabs',
  edits=[(TX, "            if text[i + 1] != '\\n':\n                yield text[i + 1]\n            i += 2\n",
              "            if text[i + 1] not in '\\r\\n':\n                yield text[i + 1]\n            i += 2\n")],
  demo="""
import kajiki
out = kajiki.TextTemplate('a\\\\\\rb')({}).render()
assert out == 'a\\rb', repr(out)
"""),
 dict(id='s25', prop='C24', needs='a template name with a quote in py:include',
  breaks='template names are put into the generated code between quotes without escaping',
  edits=[(I, "            'yield local.__kj__.extend(%r).__main__()' % (\n                self.tpl_name))",
             "            'yield local.__kj__.extend(\"%s\").__main__()' % (\n                self.tpl_name))")],
  demo="""
import kajiki
X = kajiki.XMLTemplate
l = kajiki.loader.MockLoader({'a\\\\t"b': X('<p>hi</p>'), 'c': X('<py:extends href="a\\\\t&quot;b"/>')})
assert l.import_('c')({}).render() == '<p>hi</p>'
"""),
 dict(id='s26', prop='C25', needs='a base global of the same name as a context variable',
  breaks='base globals win over the context',
  edits=[(T, "        self.__globals__['value_of'] = self.__globals__.get\n",
             "        self.__globals__['value_of'] = lambda n, d=None: self.__globals__.get(n) or d\n")],
  demo="""
import kajiki
out = kajiki.XMLTemplate('<p>${value_of("x", 5)}</p>')(dict(x=0)).render()
assert out == '<p>0</p>', out
"""),
 dict(id='s27', prop='C26', needs='more than one attribute in a template, compiled in a thread that compiled a few templates before and unlucky random numbers',
  breaks='a name found taken is replaced by one that may be taken as well',
  edits=[(U, "        while r in self.names:\n", "        if r in self.names:\n")],
  demo="""
import kajiki, random, kajiki.util as u
seq = iter([i for n in range(200) for i in range(n)])
u.randint = lambda a, b: next(seq)
t = kajiki.XMLTemplate('<p>' + '<a x="$i" y="${i+1}" py:attrs="{1: 2}"/>' * 3 + '</p>')
names = set()
import ast
mod = ast.parse(t.py_text)
fns = [n.name for n in ast.walk(mod) if isinstance(n, ast.FunctionDef) and n.name.startswith('_kj_')]
assert len(fns) == len(set(fns)), fns
"""),
 dict(id='s28', prop='C27', needs='the reference &lang; in a template',
  breaks='&lang; stands for the deprecated angle bracket',
  edits=[('kajiki/entities.py', "    'lang;': '\\u27e8',\n", "    'lang;': '\\u2329',\n")],
  demo="""
import kajiki
out = kajiki.XMLTemplate('<p>&lang;</p>')({}).render()
assert out == '<p>\\u27e8</p>', ascii(out)
"""),
 dict(id='s29', prop='C28', needs='an autoblock element inside a child template with py:autoblock="FALSE"',
  breaks='py:autoblock="True" makes a block of elements that are not listed',
  edits=[(X, "            if guard == 'false':\n                return False\n\n        return node.tagName in self.autoblocks",
             "            return guard == 'true'\n\n        return node.tagName in self.autoblocks")],
  demo="""
import kajiki
out = kajiki.XMLTemplate('<p><b py:autoblock="True">x</b></p>', autoblocks=['i'])({}).render()
assert out == '<p><b>x</b></p>', out
"""),
 dict(id='s30', prop='C29', needs='a braced expression with a blank line inside',
  breaks='blank lines inside an expression are not counted when its end is computed',
  edits=[(X, "                 if idx < se.lineno - 1]\n            )\n            if py_expr(end)[-1:] != '}':\n",
             "                 if line.strip() and idx < se.lineno - 1]\n            )\n            if py_expr(end)[-1:] != '}':\n")],
  demo="""
import kajiki
out = kajiki.XMLTemplate('<p>${[1,\\n\\n2]}}</p>')({}).render()
assert out == '<p>[1, 2]}</p>', out
"""),
 dict(id='s31', prop='C05', needs='a stripped script element in xml mode with cdata_scripts, or py:strip with an expression that has or',
  breaks='the guard of py:strip binds only to the first operand of its expression',
  edits=[(X, "                guard = 'not (%s)' % guard\n", "                guard = 'not %s' % guard\n")],
  demo="""
import kajiki
out = kajiki.XMLTemplate('<p><b py:strip="a or b">x</b></p>')(dict(a=0, b=1)).render()
assert out == '<p>x</p>', out
"""),
 dict(id='s32', prop='C06', needs='an html4 strict DOCTYPE written in lower case',
  breaks='known DOCTYPEs in another case are not recognised',
  edits=[(D, "            .replace('[', r'\\[').replace(']', r'\\]'), flags=re.IGNORECASE)", "            .replace('[', r'\\[').replace(']', r'\\]'))")],
  demo="""
import kajiki
out = kajiki.XMLTemplate('<!DOCTYPE html public "-//W3C//DTD HTML 4.01//EN" "http://www.w3.org/TR/html4/strict.dtd"><br/>')({}).render()
assert out.endswith('<br>'), out
"""),
 dict(id='s33', prop='C07', needs='py:with and py:replace on the same element',
  breaks='the replaced value does not see the variables of py:with on the same element',
  edits=[(M, "    ('with', 'vars'),\n    ('replace', 'value'),\n", "    ('replace', 'value'),\n    ('with', 'vars'),\n")],
  demo="""
import kajiki
out = kajiki.XMLTemplate('<div><b py:with="x=1" py:replace="x"/></div>')(dict(x=2)).render()
assert out == '<div>1</div>', out
"""),
 dict(id='s34', prop='C08', needs='a switch value and a case value of different types with the same text',
  breaks='cases are compared by their text',
  edits=[(T, "        return obj == self._switch_stack[-1]", "        return str(obj) == str(self._switch_stack[-1])")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p><py:switch test="x"><py:case value="1">bad</py:case><py:else>ok</py:else></py:switch></p>')
assert t(dict(x='1')).render() == '<p>ok</p>'
"""),
 dict(id='s35', prop='C09', needs='two py:with nested in each other that bind the same variable',
  breaks='values are restored first in first out',
  edits=[(T, "        return self._with_stack.pop()\n", "        return self._with_stack.pop(-len(self._with_stack) % 2 - 1)\n")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p><py:with vars="a=1"><py:with vars="a=2"><py:with vars="a=3">$a</py:with>$a</py:with>$a</py:with></p>')
assert t({}).render() == '<p>321</p>', t({}).render()
"""),
 dict(id='s36', prop='C10', needs='py:call that names its body twice',
  breaks='only the first %caller of py:call is replaced',
  edits=[(X, "            node.getAttribute('function').replace('%caller', '$caller'),\n", "            node.getAttribute('function').replace('%caller', '$caller', 1),\n")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p><py:def function="f(a, b)">${a()}${b()}</py:def><py:call function="f(%caller, %caller)"><b>x</b></py:call></p>')
assert t({}).render() == '<p><b>x</b><b>x</b></p>'
"""),
 dict(id='s37', prop='C12', needs='py:import without alias of a template in a sub directory with a dot in its name',
  breaks='the alias of an imported template is cut at the first dot of its path',
  edits=[(L, "        return os.path.splitext(os.path.basename(name))[0]\n", "        return os.path.basename(name).split('.')[0]\n")],
  demo="""
import kajiki
l = kajiki.loader.MockLoader({})
assert l.default_alias_for('a/b.c.xml') == 'b.c', l.default_alias_for('a/b.c.xml')
"""),
 dict(id='s38', prop='C02', needs='a boolean attribute in html5 mode',
  breaks='boolean attributes are only minimised in html mode, not in html5',
  edits=[(T, "                if mode.startswith('html') and k in HTML_EMPTY_ATTRS:\n", "                if mode == 'html' and k in HTML_EMPTY_ATTRS:\n")],
  demo="""
import kajiki
out = kajiki.XMLTemplate('<input checked="$x"/>', mode='html5', is_fragment=True)(dict(x=1)).render()
assert out == '<input checked>', out
"""),
 dict(id='s39', prop='C02', needs='py:attrs with pairs of names differing in case only, or values of mixed types under the same name',
  breaks='boolean attributes given by 1 or 0 are rendered as booleans only with identity',
  edits=[(T, "                if k in HTML_EMPTY_ATTRS and v in (True, False):\n", "                if k in HTML_EMPTY_ATTRS and (v is True or v is False):\n")],
  demo="""
import kajiki
out = kajiki.XMLTemplate('<p py:attrs="{\\'checked\\': 0}"/>', mode='xml')({}).render()
assert out == '<p/>', out
"""),
]
