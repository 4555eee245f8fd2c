#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so it stays reviewable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[
                      dict(name=n, where=w) for n, w in mech])))


X, T, I, L, U, N = ('kajiki/xml_template.py', 'kajiki/template.py', 'kajiki/ir.py',
                    'kajiki/loader.py', 'kajiki/util.py', 'kajiki/i18n.py')

prop('C01', 'Dynamic values are escaped exactly once, markup not at all',
     'In an XML template every value interpolated with ${...}, $name, py:content or py:replace is emitted with '
     '&, <, > and " turned into entities exactly once, whatever the type of the value; None emits nothing. '
     'Only values marked as markup (literal/Markup, objects with __html__, output of template functions) are emitted verbatim. '
     'A text template emits the value verbatim, or escaped in the same way when it was created with autoescape=True.',
     ['inputs', 'programs'],
     'every value (string of any content, number, boolean, None, markup, arbitrary object) at every interpolation site of every template',
     'tests interpolate a handful of strings; the guarantee is over all strings and value types at all sites, and one missed site is an XSS hole',
     [T, X, I, 'kajiki/text.py', U],
     [('escaping', '_Template._escape'), ('expression emission', 'ir.ExprNode'), ('sites', '_Compiler._compile_xml / _compile_replace / _TextCompiler')])

prop('C02', 'Attribute values are quoted, escaped once, and omitted when None',
     'A template attribute renders as exactly one space, its name, and its double-quoted value in which literal text and interpolated parts are concatenated in source order and &, <, > and " are escaped exactly once (markup is escaped like text there). '
     'Parts that evaluate to None contribute nothing, an attribute all of whose parts are None is omitted, and an empty attribute renders as name="". '
     'Attributes are emitted sorted by name, and a boolean HTML attribute (checked, selected, ...) given through py:attrs is dropped for False (or 0) and None, rendered for True (or 1) and minimised to its name in html modes.',
     ['inputs', 'programs', 'configurations'],
     'every attribute name, every mix of literal and dynamic parts, every value type, every rendering mode',
     'tests check a few attributes; quoting/omission has to hold for all combinations of parts, values and modes',
     [X, I, T], [('attribute nodes', 'ir.AttrNode / ir.AttrsNode'), ('rendering', '_Template._render_attrs'), ('collecting parts', '_Template._collect')])

prop('C03', 'py:attrs renders a dict, a pair list or None without breaking the tag',
     'py:attrs accepts a mapping, an iterable of pairs or None (which adds nothing); each pair whose value is not None is rendered like an ordinary attribute (one leading space, quoted, value escaped exactly once, sorted by name; markup is taken verbatim) and pairs whose value is None are omitted. '
     'The attributes appear inside the start tag, after the static ones, and disappear with the tag when py:strip removes it.',
     ['inputs', 'programs'],
     'every mapping / pair list, every value type, with and without py:strip',
     'tests use two or three literal dictionaries',
     [T, I, X], [('py:attrs', 'ir.AttrsNode'), ('rendering', '_Template._render_attrs')])

prop('C04', 'Every start tag is closed exactly as its rendering mode requires',
     'An element with content renders as its start tag, its children in document order and its end tag; without content it renders as <x/> in xml mode and <x></x> in html modes. '
     'In html modes the void elements (area, base, br, col, hr, img, input, link, meta, param) never get an end tag, while in xml mode they do; script is never self-closed in any mode. '
     'Element and attribute names are emitted as written and no py: attribute or directive element reaches the output.',
     ['programs', 'configurations'],
     'every element name, every child structure, every rendering mode',
     'tests render some tags in some modes; nesting and mode combinations are unbounded',
     [X, 'kajiki/html_utils.py'], [('element compilation', '_Compiler._compile_xml'), ('tag tables', 'html_utils')])

prop('C05', 'py:strip removes exactly the start and end tag, nothing else',
     'When the py:strip expression is true (or empty) the start tag, all attributes of that element (static, interpolated and py:attrs) and its end tag vanish while its content is rendered unchanged; when it is false the element renders exactly as without py:strip. '
     'The condition is evaluated as one whole expression whatever operators it contains.',
     ['inputs', 'programs'],
     'every condition expression and value, every element shape (children, py:content, void, script) and mode',
     'tests strip one or two plain elements; start and end tag are emitted at different sites that must always agree',
     [X, I], [('guards', '_Compiler._compile_xml'), ('guarded text', 'ir.TextNode')])

prop('C06', 'Rendering mode and DOCTYPE: inferred right, emitted once, only first',
     'The mode is the explicit one if given, else the mode of the known DOCTYPE in the template (matched case-insensitively with any whitespace), else xml. '
     'A standalone template emits the DOCTYPE found at the start of its source (after blanks, comments and processing instructions; a DOCTYPE elsewhere is text) verbatim, or <!DOCTYPE html> in html5 mode when it has none, exactly once and before anything else. '
     'A fragment, an included or imported template, and a template that extends another never emits a DOCTYPE of its own.',
     ['programs', 'configurations'],
     'every DOCTYPE (known, unknown, absent), every explicit mode, every way of using the template',
     'tests cover a few DTD strings and modes, not the combinations with fragment, extends and include',
     [X, 'kajiki/doctype.py', T], [('mode inference', '_Compiler.__init__'), ('doctype emission', '_Compiler.compile'), ('known DTDs', 'DocumentTypeDeclaration.matching / extract_dtd')])

prop('C07', 'A directive means the same as an attribute and as an element',
     'For every directive that has both forms (def, call, case, else, for, if, switch, with, replace, block), writing it as an attribute of a py:nop-like wrapper or as a py: element with its documented attribute (function, value, each, test, vars, name) gives the same output, and several directive attributes on one element nest in the documented fixed order def, call, case, else, for, if, switch, with, replace, block whatever order they are written in. '
     'Directive attributes never appear in the rendered output.',
     ['programs'],
     'every directive, both syntactic forms, every combination of directive attributes on one element',
     'tests exercise single directives; precedence among pairs and equality of both forms over all bodies is not enumerated',
     [X, 'kajiki/markup_template.py'], [('directive table', 'markup_template.DIRECTIVES'), ('expansion', '_DomTransformer._expand_directives'), ('dispatch', '_Compiler._compile_node')])

prop('C08', 'if/else, switch/case and for execute like their Python counterparts',
     'py:if renders its body exactly when its test is true and a directly following py:else exactly otherwise; py:switch renders the body of the first py:case equal to the switch value, else its py:else, else nothing; py:for renders its body once per element in iteration order with the loop variable bound. '
     'An empty body is allowed and renders nothing. After a switch ends, an enclosing switch still compares against its own value, however they are nested.',
     ['inputs', 'programs'],
     'every test value, every sequence length, every nesting of the constructs',
     'tests run fixed values through fixed nestings; the switch stack and branch selection must be right for all of them',
     [I, T, X], [('control nodes', 'ir.IfNode/ElseNode/ForNode/SwitchNode/CaseNode'), ('switch stack', '_Template._push_switch/_pop_switch/_case')])

prop('C09', 'py:with binds its variables for its body and restores them after',
     'Inside py:with every listed variable has the value assigned by it (assignments evaluated left to right), and after the block each one has the value it had before, whether that was a template variable, an outer py:with, a loop variable or a value passed in the context. '
     'Nested and sequential py:with blocks never restore each other\'s values. (A context variable that the same function already used before the py:with rebinding it is a known exception.)',
     ['inputs', 'programs'],
     'every number of assignments, every nesting, every kind of previous binding',
     'tests nest two blocks over fresh names',
     [I, T], [('with node', 'ir.WithNode'), ('save/restore stack', '_Template._push_with/_pop_with')])

prop('C10', 'py:def and py:call: template functions behave like Python functions',
     'A py:def function called anywhere in its template (or in the enclosing function for a nested py:def) renders its body with its parameters bound to the arguments, emitted verbatim where the call stands and not at the place of definition. '
     'py:call passes its body to the called function as a caller with the declared arguments; calling it any number of times renders the body each time with those arguments and the scope of the call site.',
     ['programs', 'inputs'],
     'every argument value, nesting of definitions and number of caller invocations',
     'tests call one function once or twice',
     [X, I, T, U], [('definitions', 'ir.DefNode/InnerDefNode'), ('calls', 'ir.CallNode'), ('binding', 'TplFunc')])

prop('C11', 'Inheritance: child blocks and functions override, the rest is inherited',
     'Rendering a template that extends another renders the parent with every block and function the child defines replacing the parent\'s one of the same name, everywhere the parent uses it and at any depth of the chain, and all others unchanged. '
     'Inside the templates, parent (and parent_block) reaches the replaced definition, local the template where the code is written, self the most derived one, and child the next more derived one. '
     'Content of the child outside blocks and functions is rendered in place, with the parent output at the place of py:extends, and does not replace parent content.',
     ['programs', 'histories'],
     'every set of blocks/functions split over a chain of templates',
     'tests cover two- and three-level chains with fixed names',
     [T, X, I, 'kajiki/text.py'], [('override resolution', '_Template._extend'), ('blocks', '_Compiler._compile_block / text._Parser._parse_block'), ('ExtendNode', 'ir.ExtendNode')])

prop('C12', 'py:include and py:import load through the loader and share the context',
     'py:include renders the named template at that place exactly as a fragment, with the variables visible in the including template; py:import binds the named template under the alias (or the base name without directory and extension) so that its functions can be called, and emits nothing itself. '
     'Both ask the loader of the template for it as a fragment, for XML and text templates alike. The included or imported template keeps its own functions, blocks, self and local, and an include binds no name in the including one.',
     ['programs', 'configurations'],
     'every template name, alias, loader and context',
     'tests include one template from a mock loader',
     [T, I, X, 'kajiki/text.py', L], [('import', '_Template._import'), ('nodes', 'ir.ImportNode/IncludeNode'), ('alias', 'Loader.default_alias_for')])

prop('C13', 'Rendering has no side effects on templates, context or other renders',
     'Instantiating and rendering a compiled template changes neither the template class, nor the dictionary passed as context, nor any state shared with other templates or renders (loader caches filled on demand excepted). '
     'Rendering the same template twice with equal contexts, interleaved or not with other renders, therefore gives equal output.',
     ['histories', 'schedules', 'inputs'],
     'every template construct, every sequence or interleaving of renders',
     'tests render a template once or twice; a leak shows up only in particular histories',
     [T, U, I], [('per-instance state', '_Template.__init__'), ('function binding', 'TplFunc.bind_instance/_bind_globals')])

prop('C14', 'Loader cache: one compile per file version, changed files are reloaded',
     'Loading the same name again returns the same template object without recompiling as long as the file was not modified since it was loaded; with reload enabled (file and package loaders do so by default) a file with a newer modification time is recompiled on the next load and the new template returned, and with reload disabled the cached one is always returned. '
     'A template handed out by a loader always has that loader as its loader, and reloading one name never evicts another.',
     ['histories', 'configurations'],
     'every sequence of loads and file modifications, reload on or off',
     'tests change a file once; the guarantee is over all histories',
     [L, 'kajiki/integration/pyramid.py'], [('cache', 'Loader.import_'), ('reload', 'FileLoader.import_/_load')])

prop('C15', 'Loader resolution: right file, right template kind, all options forwarded',
     'FileLoader picks the first directory of its path list containing the name and raises IOError naming the template when none does, also when a previously loaded file has vanished; the extension selects the kind (txt text; xml, html, html5 XML in that mode) unless force_mode overrides it. '
     'Template options of the loader (autoescape, autoblocks, strip_text and other keyword options) and per-call options, the latter winning (except the mode, which the extension or force_mode decides), reach the template constructor together with the file name, in every mode. '
     'PackageLoader resolves package.module names preferring xml, html, html5, txt in that order.',
     ['configurations', 'inputs'],
     'every path list, name, extension and option combination',
     'tests load a couple of files with default options',
     [L], [('resolution', 'FileLoader._filename / PackageLoader._filename'), ('dispatch', 'FileLoader._load')])

prop('C16', 'Extracted messages are exactly the ones looked up when rendering',
     'For every template the static text passed to gettext at render time is exactly the set of messages the extractor reports, each with surrounding whitespace removed (next to an expression the blanks belong to the message) and reported with the line where the text starts; whitespace-only text, attribute values, expressions, comments and the content of script and style are neither extracted nor translated. '
     'At render time the gettext function found in the context (or base globals) is used, each message is looked up once where it stands and its translation emitted in place of the text with the surrounding whitespace preserved.',
     ['programs', 'inputs'],
     'every template text layout, every gettext function',
     'tests extract from five small templates; agreement must hold for all text layouts',
     [N, X, I, T], [('extractor', 'i18n.extract'), ('runtime lookup', 'ir.TranslatableTextNode / _Template._gettext'), ('whitespace split', '_DomTransformer._extract_nodes_leading_and_trailing_spaces')])

prop('C17', 'Static text, entities, comments and CDATA come out as written',
     'Character data of an XML template outside expressions is emitted unchanged and in order with &, <, > escaped, however the XML parser splits it into pieces; $$ emits a single $, HTML entities in character data come out as the characters they stand for, CDATA sections are kept with their content unescaped, and comments inside the root element are kept in place (as <!-- , their content, -->) except those starting with <!--!, which are dropped. '
     'With strip_text only leading and trailing whitespace of text runs is removed.',
     ['programs', 'inputs'],
     'every text content and every split of it by the parser',
     'expat splits text depending on buffer positions and entities, which fixed tests do not vary',
     [X, 'kajiki/entities.py'], [('SAX handler', '_Parser.characters/skippedEntity/comment/startCDATA'), ('merging', '_DomTransformer._merge_text_nodes'), ('scanner', '_TextCompiler')])

prop('C18', 'script and style: content raw, CDATA-protected in xml mode, optional',
     'With cdata_scripts (the default) the text of script and style elements is emitted without entity escaping, and in xml mode wrapped in exactly one /*<![CDATA[*/ ... /*]]>*/ pair also when the author already wrote a CDATA section; expressions inside it are still evaluated and escaped. '
     'With cdata_scripts=False they are treated like any other element.',
     ['programs', 'configurations', 'inputs'],
     'every script/style content, mode and option value',
     'tests cover fixed contents',
     [X, 'kajiki/html_utils.py'], [('cdata handling', '_Compiler._compile_xml'), ('unescape', 'entities.unescape')])

prop('C19', 'Template source lines are tracked through compilation',
     'Each piece of text or expression keeps the source line on which it starts, across newlines inside text, inside expressions, inside stripped whitespace and inside a multi-line DOCTYPE, and this is the line reported by the message extractor and in template compile errors. '
     'The line table of each template function maps its code to such template lines and never runs backwards, however far apart the lines are.',
     ['programs', 'inputs'],
     'every placement of newlines in a template',
     'tests assert a few positions',
     [X, T, N, 'kajiki/text.py'], [('positions', '_TextCompiler.real_lineno / _DomTransformer'), ('line table', 'template.from_ir')])

prop('C20', 'Bad templates are rejected with a located Kajiki error',
     'Malformed XML, an unknown entity in character data, more than one root node, an expression that is not valid Python, py:switch with other content than py:case/py:else, and a misplaced py:else are reported as the Kajiki parse/compile error carrying file name, line and a source excerpt, never as an unrelated exception and never accepted silently. '
     'A generated program that is not valid Python is reported as KajikiSyntaxError with its source.',
     ['inputs', 'programs'],
     'every malformed template',
     'tests try one example of each error',
     [X, T], [('parse errors', '_Parser.parse/skippedEntity'), ('compile errors', '_Compiler.compile/_compile_switch/_compile_else'), ('syntax errors', 'template.from_ir')])

prop('C21', 'Template parsing never fetches external resources nor leaks files',
     'While a template is parsed, external general and parameter entities are off and the document only references the built-in pseudo DTD, so no file or network resource named by the template is ever read. '
     'Template files are opened with the requested encoding and closed again on every path, also when compilation fails.',
     ['inputs', 'fault_sequences'],
     'every template source, every failure point while loading',
     'tests never supply external entities and cannot observe leaked handles on failure paths',
     [X, 'kajiki/text.py'], [('SAX features', '_Parser.parse'), ('file reading', 'XMLTemplate / TextTemplate')])

prop('C22', 'Output is streamed in order; nested output is flattened, None dropped',
     'Iterating a template yields text pieces lazily, in document order, whose concatenation is exactly what render() returns; each expression is evaluated only when the output before it was produced. '
     'Nested template output at any depth is flattened in place, None is dropped, and every piece is text.',
     ['programs', 'inputs', 'histories'],
     'every nesting of template functions and every sequence of pieces',
     'tests join the output of shallow nestings',
     [U, T], [('flattening', 'util.flattener'), ('iteration', '_Template.__iter__/render')])

prop('C23', 'Text templates: literal text, escapes, tags and expressions in order',
     'A text template emits literal text unchanged and in order, $$ as $, a backslash-newline as nothing and backslash-x as x, and each $name / ${expr} as the value of the expression. '
     'A line tag (%tag) consumes its whole line including the newline, {%tag%} only itself, {%-tag and -%} also the blanks on that side, anywhere in a line; the tags if/else, for, switch/case, def, call, block, extends, include, import and py act as in XML templates and end at the matching end, one end closing a tag together with its else.',
     ['inputs', 'programs'],
     'every text content and placement of tags',
     'tests contain some thirty literal templates',
     ['kajiki/text.py', I], [('scanner', 'text._Scanner'), ('parser', 'text._Parser'), ('escapes', 'text._unescape_newlines')])

prop('C24', 'Compiled templates contain template text only as data, expressions whole',
     'Text, attribute names, template names and other literal template content reach the generated program only as quoted literals, never as code, whatever characters they contain; each valid user expression is embedded as one complete operand, so no operator or comma in it can combine with generated code and it has the same effect as a variable holding its value. '
     'Everything the generated code calls exists in the runtime and is called with arguments it accepts.',
     ['inputs', 'programs'],
     'every literal and expression of every template construct',
     'tests use tame literals; quotes, backslashes, newlines and low-precedence operators at each splice site are not enumerated',
     [I, T, X], [('code emission', 'ir.*.py'), ('runtime interface', '_Template.__init__ __kj__')])

prop('C25', 'Names the template sees: context, globals and helpers with fixed precedence',
     'Inside a template every context variable is visible under its name, overriding functions of the template, names defined by its module code and base globals, in this order, and the helpers local, self, defined, value_of, literal, Markup, gettext and _ are available; defined(n) and value_of(n, default) agree with whether n is such a name. The dictionaries given by the user are not modified and names of one template are not seen by others sharing its base globals. '
     'Values in the context are passed to expressions unchanged.',
     ['inputs', 'configurations'],
     'every context and base_globals dictionary',
     'tests pass two or three names',
     [T], [('namespace', '_Template.__init__'), ('base globals', 'template.from_ir')])

prop('C26', 'Generated helper names never clash, also across threads',
     'Within one compiled template every helper name the compiler invents (attribute collectors, loop variables, call bodies) is different from every other, and concurrent compilations in different threads do not share the generator state. '
     'Hence any number of attributes, py:attrs and py:call in one template keep their own values.',
     ['programs', 'schedules'],
     'every number and nesting of constructs needing helper names, every thread schedule',
     'tests have few attributes per template and no threads',
     [U, I], [('name generator', 'util.NameGen / gen_name'), ('uses', 'ir.AttrNode/AttrsNode/CallNode')])

prop('C27', 'The HTML entity table is the standard one and unescape inverts escape',
     'Every HTML5 named character reference of the standard maps to its standard characters, with no missing, extra or altered entry, and a reference in character data of a template yields them. unescape turns exactly the named and numeric references into characters, leaving other text (also references beyond any character) unchanged, in one pass so that nothing is unescaped twice.',
     ['inputs'],
     'every entity name and every text',
     'tests use three or four entities out of more than two thousand',
     ['kajiki/entities.py'], [('table', 'entities.html5'), ('unescape', 'entities.unescape')])

prop('C28', 'py:block and autoblocks define overridable regions rendered in place',
     'A block in a template that does not extend another renders its content at its place, once, and can be overridden by name from a template extending it; an element listed in autoblocks behaves like a py:block named after its tag with its content (the tag itself is not rendered), unless py:autoblock="False", and that attribute is never rendered. '
     'Content of blocks is rendered like the same content outside a block (but sees no loop or py:with variables around it).',
     ['programs', 'configurations'],
     'every block content, name and autoblocks list',
     'tests use one or two block layouts',
     [X, T], [('blocks', '_Compiler._compile_block'), ('autoblocks', '_Compiler._is_autoblock')])

prop('C29', 'A braced expression ends at its own closing brace',
     'In XML text, XML attributes and text templates ${expr} takes as its expression exactly the text up to the brace closing it, also when the expression contains dictionaries, sets, comprehensions, or strings with braces, quotes or dollar signs, and whatever text with braces follows; that text is emitted as written.',
     ['inputs'], 'every Python expression followed by every text',
     'tests use a few expressions',
     [X, 'kajiki/text.py'], [('end detection', '_TextCompiler._get_braced_expr / _Scanner._get_braced_expr')])

prop('C30', 'Rendering cost is proportional to output size',
     'Rendering a template takes time and memory linear in the size of its output, and template compilation is linear in template size.',
     ['inputs'], 'every template and context', 'asymptotic cost is not observable in unit tests',
     [U, T], [('flattening', 'util.flattener')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
