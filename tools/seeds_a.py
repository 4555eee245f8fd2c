T, X, I, L, U = ('kajiki/template.py', 'kajiki/xml_template.py', 'kajiki/ir.py',
                 'kajiki/loader.py', 'kajiki/util.py')
SEEDS = [
 dict(id='s01', prop='C01', needs='a value that contains text looking like an entity reference, e.g. "&lt;script"',
  breaks='an ampersand that already starts an entity reference is no longer escaped, so such values are emitted unescaped',
  edits=[(T, "            return uval.replace('&', '&amp;').replace('<', '&lt;') \\\n",
             "            return re.sub(r'&(?!#?\\w+;)', '&amp;', uval).replace('<', '&lt;') \\\n")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p>$x</p>')
out = t(dict(x='&lt;b&gt; & co')).render()
assert out == '<p>&amp;lt;b&amp;gt; &amp; co</p>', out
"""),
 dict(id='s02', prop='C02', needs='an attribute with an interpolated part whose value is False',
  breaks='parts that are False are treated like None instead of being rendered',
  edits=[(T, "            if part is None:\n                continue\n            if isinstance(part, flattener):",
             "            if part is None or part is False:\n                continue\n            if isinstance(part, flattener):")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p a="${x}"/>')
out = t(dict(x=False)).render()
assert out == '<p a="False"/>', out
"""),
 dict(id='s03', prop='C03', needs='py:attrs with a value that is false but not None (0, "", False) under a name that is no boolean attribute',
  breaks='false values given through py:attrs are dropped instead of rendered',
  edits=[(T, "                if v is None:\n                    continue\n                if mode",
             "                if v is None or v is False:\n                    continue\n                if mode")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p py:attrs="d"/>')
out = t(dict(d={'data-on': False, 'b': 1})).render()
assert out == '<p b="1" data-on="False"/>', out
"""),
 dict(id='s04', prop='C04', needs='a void element with children in an html mode whose name is mixed with xml mode tables: <col> with a child',
  breaks='void elements with content get an end tag in plain html mode',
  edits=[(X, "                if not (self.mode.startswith('html')\n                        and node.tagName in HTML_OPTIONAL_END_TAGS):\n                    yield ir.TextNode('</%s>' % node.tagName, guard)\n            elif",
             "                if not (self.mode == 'html5'\n                        and node.tagName in HTML_OPTIONAL_END_TAGS):\n                    yield ir.TextNode('</%s>' % node.tagName, guard)\n            elif")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p><br>\\n</br></p>', mode='html')
out = t().render()
assert out == '<p><br>\\n</p>', out
"""),
 dict(id='s05', prop='C05', needs='a py:strip condition with an operator that binds weaker than not, e.g. "a or b"',
  breaks='the negation applies to the first operand of the condition only',
  edits=[(X, "guard = 'not (%s)' % guard", "guard = 'not %s' % guard")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p><b py:strip="a or b">x</b></p>')
out = t(dict(a=False, b=True)).render()
assert out == '<p>x</p>', out
"""),
 dict(id='s06', prop='C06', needs='a template with a DOCTYPE of a known type and an explicit mode that differs from it',
  breaks='a known DOCTYPE overrides the explicit mode',
  edits=[(X, "        if mode:\n            self.mode = mode\n        elif self._dtd:",
             "        if mode and not self._dtd:\n            self.mode = mode\n        elif self._dtd:")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<!DOCTYPE html><p><br/></p>', mode='xml')
out = t().render()
assert out == '<!DOCTYPE html>\\n<p><br/></p>', out
"""),
 dict(id='s07', prop='C07', needs='py:with and py:replace on the same element',
  breaks='py:replace is applied outside py:with, so it does not see the bound variable',
  edits=[('kajiki/markup_template.py', "    ('with', 'vars'),\n    ('replace', 'value'),\n", "    ('replace', 'value'),\n    ('with', 'vars'),\n")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p><b py:with="a=2" py:replace="a"/></p>')
out = t(dict(a=1)).render()
assert out == '<p>2</p>', out
"""),
 dict(id='s08', prop='C08', needs='a py:case whose value is a tuple',
  breaks='a tuple in py:case matches its elements instead of the equal tuple',
  edits=[(T, "        return obj == self._switch_stack[-1]", "        return self._switch_stack[-1] in (obj if isinstance(obj, tuple) else (obj,))")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p py:switch="x"><b py:case="(1, 2)">pair</b><b py:else="">other</b></p>'.replace('<p py:switch="x">','<p><py:switch test="x">').replace('</p>','</py:switch></p>'))
out = t(dict(x=(1, 2))).render()
assert out == '<p><b>pair</b></p>', out
out = t(dict(x=1)).render()
assert out == '<p><b>other</b></p>', out
"""),
 dict(id='s09', prop='C09', needs='a py:with that assigns the same variable twice',
  breaks='only the last assignment of a repeated name is kept, so it cannot see the first',
  edits=[(I, "        self.vars = assignments\n", "        self.vars = list(dict(assignments).items())\n")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p py:with="a=1;a=a+1">$a</p>')
out = t().render()
assert out == '<p>2</p>', out
"""),
 dict(id='s10', prop='C10', needs='a py:call whose expression mentions %caller twice',
  breaks='only the first mention of the caller is replaced by the generated function',
  edits=[(I, "        self.call = callee.replace('$caller', fname)\n", "        self.call = callee.replace('$caller', fname, 1)\n")],
  demo="""
import kajiki
t = kajiki.XMLTemplate('<p><py:def function="f(a, b)">${a()}|${b()}</py:def><py:call args="" function="f(%caller, %caller)">x</py:call></p>')
out = t().render()
assert out == '<p>x|x</p>', out
"""),
 dict(id='s11', prop='C11', needs='a template function whose name starts with two underscores, overridden in a derived template',
  breaks='such functions are taken for internals and not overridden',
  edits=[(T, "            if k == '__main__':\n                continue\n            if not isinstance(v, TplFunc) or", "            if k.startswith('__'):\n                continue\n            if not isinstance(v, TplFunc) or")],
  demo="""
import kajiki
P = kajiki.XMLTemplate('<p><py:def function="__f()">P</py:def>${__f()}</p>')
C = kajiki.XMLTemplate('<py:extends href="p"><py:def function="__f()">C</py:def></py:extends>')
l = kajiki.loader.MockLoader(dict(p=P, c=C))
out = l.load('c')().render()
assert out == '<p>C</p>', out
"""),
 dict(id='s12', prop='C12', needs='a py:import in a template that another template extends, used by code of that parent template',
  breaks='the imported template is bound in the most derived template only',
  edits=[(I, "            'local.__kj__.import_(%r, %r, self.__globals__)' % (\n", "            'self.__kj__.import_(%r, %r, self.__globals__)' % (\n")],
  demo="""
import kajiki
B = kajiki.XMLTemplate('<py:nop><py:def function="f()">B</py:def></py:nop>')
P = kajiki.XMLTemplate('<p><py:import href="b"/>${b.f()}</p>')
C = kajiki.XMLTemplate('<py:extends href="p"/>')
l = kajiki.loader.MockLoader(dict(b=B, p=P, c=C))
out = l.load('c')().render()
assert out == '<p>B</p>', out
"""),
]
