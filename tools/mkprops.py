"""Writes /verif/properties.jsonl (kept as source so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
T, I, X, S, U, L, N = ('kajiki/template.py', 'kajiki/ir.py', 'kajiki/xml_template.py', 'kajiki/text.py',
                       'kajiki/util.py', 'kajiki/loader.py', 'kajiki/lnotab.py')

prop('C01', 'Interpolated values are escaped exactly once',
 'In an XML template, and in a text template compiled with autoescape, the value of every expression interpolated in text, py:content or py:replace reaches the output with each of & < > " replaced by its entity exactly once and every other character, the single quote included, unchanged. '
 'There None contributes nothing, literal()/Markup() text and the output of template functions are inserted verbatim, and an object offering __html__ contributes what that method returns; inside an attribute everything is escaped exactly once, literals and template functions included. '
 'A text template without autoescape inserts the text of the value unchanged.',
 ['inputs'], 'every value (any string, number, None, object with __html__, literal, template function result) in every interpolation position',
 'Tests render a handful of strings; no test enumerates values x positions, so a value class or character that is missed, or escaped twice, goes unnoticed.',
 [T, I, X, S, U], [('escape function', 'kajiki/template.py _Template._escape'), ('expression node code', 'kajiki/ir.py ExprNode.py'), ('attribute expressions are escaped once, by the attribute renderer', 'kajiki/xml_template.py _TextCompiler.expr, _Compiler._compile_xml'), ('autoescape flag', 'kajiki/text.py _Parser.expr'), ('literal', 'kajiki/util.py literal')],
 ['XMLTemplate(source)(context).render()', 'TextTemplate(source, autoescape=...)(context).render()'])

prop('C02', 'Attributes render as name="escaped value", None and empty results omitted',
 'Every attribute of an element and every pair of a py:attrs mapping or pair list is rendered as a space, the name, and the double-quoted value with & < > " escaped once; static attributes come first in name order, then the py:attrs pairs in sorted order. '
 'An attribute whose interpolated value is None, or whose parts are all None, is omitted, an attribute written as empty keeps its empty value, and py:attrs="None" adds nothing. '
 'For the HTML boolean attributes (checked, disabled, readonly, multiple, selected, nohref, ismap, declare, defer) a py:attrs value of True stands for the name itself and False for omission, and html modes print only the bare name.',
 ['inputs', 'configurations'], 'every attribute name, value part list, py:attrs mapping and rendering mode',
 'Tests use a few attributes and values; combinations of mode, boolean attribute, value type and part list are unbounded.',
 [T, I, X, 'kajiki/html_utils.py'], [('attribute renderer', 'kajiki/template.py _Template._render_attrs'), ('collecting the parts', 'kajiki/template.py _Template._collect'), ('attribute nodes', 'kajiki/ir.py AttrNode, AttrsNode'), ('boolean attribute table', 'kajiki/html_utils.py HTML_EMPTY_ATTRS')],
 ['rendered start tags'])

prop('C03', 'Output is the in-order concatenation of all produced chunks',
 'Rendering a template equals joining the chunks obtained by iterating over it, and equals the concatenation, in production order, of everything its body and the (arbitrarily nested) template functions it calls produce, with None dropped and non-strings converted with str. '
 'Nothing is lost, duplicated or reordered at any nesting depth, falsy values such as 0, False and the empty string included; and a nested output gives the same text whether it is inserted into the stream or collected into a string for an attribute.',
 ['inputs', 'programs'], 'every finite tree of nested template-function outputs with any leaf values',
 'Tests nest two or three levels with non-empty strings.',
 [U, T], [('flattening', 'kajiki/util.py flattener.__iter__'), ('string accumulation', 'kajiki/util.py flattener.accumulate_str'), ('render and iteration', 'kajiki/template.py _Template.render, __iter__'), ('function binding', 'kajiki/template.py TplFunc._bind_globals')],
 ['render()', 'iteration over a template instance', 'attribute values'])

prop('C04', 'Text templates reproduce their source except for tags and expressions',
 'Every character of a text template is accounted for exactly once and in order: it is part of a $name or ${...} expression, of a %tag line (with the blank lines directly before it) or {% %} tag (with the white space {%- drops before it at a line start and the blanks -%} drops after it), of the escapes $$ (a dollar sign), backslash-newline (nothing) or backslash-character (that character), or it appears unchanged in the output. '
 'A line-start %, a lone backslash at the end, or a tag that ends the source never loses or duplicates text, and a braced expression that is not terminated is rejected.',
 ['inputs'], 'every text template source string',
 'Tests hold about thirty sources; the set of character sequences around delimiters is unbounded.',
 [S], [('scanner', 'kajiki/text.py _Scanner'), ('backslash handling', 'kajiki/text.py _unescape_newlines'), ('token to node', 'kajiki/text.py _Parser.text')],
 ['TextTemplate(source)().render()'])

prop('C05', 'XML templates find every $ expression and keep all other text',
 'In element text and attribute values of an XML template, $$ stands for one dollar sign, $name (with dotted access) and ${expression} are replaced by their value, where the expression extends to its own closing brace even when it contains braces, quotes or dollar signs, and every other character, including a $ followed by anything else, is output unchanged and in order. '
 'An unterminated or invalid braced expression is rejected with a compile error and never silently dropped.',
 ['inputs'], 'every text or attribute string over dollar signs, braces, quotes, names and other text',
 'Tests try some twenty strings; the interaction of $, braces, quotes and newlines is unbounded.',
 [X], [('scanner', 'kajiki/xml_template.py _TextCompiler.__iter__'), ('braced expressions', 'kajiki/xml_template.py _TextCompiler._get_braced_expr')],
 ['XMLTemplate(source)(context).render()', 'XMLTemplateCompileError'])

prop('C06', 'Directives mean what their Python counterparts mean, however nested',
 'For every nesting of directives, if/else, for, switch/case/else, def, call, strip, content and replace produce exactly what the corresponding Python statements would: the taken branch only, one copy of the body per item in order, the first equal case or else the else branch, the body of a function with its arguments at each call, and the tag without or with its content. '
 'Merging adjacent static text and laying out the generated code never change the output, and empty bodies render as nothing.',
 ['programs', 'inputs'], 'every finite tree of directives and every context',
 'Tests check single directives and a few pairs; nesting combinations are unbounded.',
 [I, X, S, T], [('node code', 'kajiki/ir.py *Node.py / __iter__'), ('layout', 'kajiki/ir.py generate_python, PyLine.indent'), ('text merging', 'kajiki/ir.py optimize'), ('XML directives', 'kajiki/xml_template.py _Compiler._compile_*'), ('text directives', 'kajiki/text.py _Parser._parse_*'), ('case matching', 'kajiki/template.py _Template._case')],
 ['render()'])

prop('C07', 'py:with and py:switch state is restored when the block ends',
 'Inside py:with each listed variable has the assigned value, later assignments seeing earlier ones, and after the block every listed variable that had a value before has that value again, however py:with blocks are nested, repeated in loops, or reuse a name. '
 'A py:switch inside a case, loop, py:with or function called from another switch never changes which case the outer switch takes.',
 ['programs', 'inputs', 'histories'], 'every sequence and nesting of with and switch blocks, every variable list and every prior value',
 'Tests nest two blocks at most; restoration is a stack discipline over arbitrary histories.',
 [T, I], [('with stack', 'kajiki/template.py _Template._push_with, _pop_with'), ('switch stack', 'kajiki/template.py _Template._push_switch, _pop_switch, _case'), ('generated code', 'kajiki/ir.py WithNode, SwitchNode')],
 ['render()'])

prop('C08', 'Inheritance: the most derived block or function wins, along any chain',
 'When a template extends a parent, along a chain of any length, each block and each function called by its plain name or through self resolves to the definition in the most derived template that has one, and local, parent and child resolve to the template itself, the one it extends and the one extending it. '
 'parent_block() inside an overriding block gives the output of the next definition up the chain, content outside the blocks of an extending template adds only its own rendering before or after the parent, and a parent rendered on its own afterwards is unaffected by its children.',
 ['programs', 'histories'], 'every chain of templates, every distribution of blocks and functions over the levels and every call form',
 'Tests use chains of two or three levels with fixed override patterns.',
 [T, X, S], [('binding overrides', 'kajiki/template.py _Template._extend'), ('block compilation', 'kajiki/xml_template.py _compile_block, kajiki/text.py _parse_block')],
 ['render() of child and parent templates'])

prop('C09', 'The loader returns the current template of the first matching path',
 'A loader resolves a name to the file under the first entry of its search path that has it, raises an error when none has it, and picks the template kind from the forced mode or else the extension. '
 'While the file is unchanged it returns the same template object; with reload enabled a file whose modification time grew since it was loaded is compiled again and the new content rendered from then on, with reload disabled the first content stays; options given to the loader reach every template it compiles.',
 ['histories', 'configurations'], 'every history of loads, edits and timestamp changes, every search path and loader configuration',
 'Tests perform one or two loads; caching correctness is about arbitrary histories.',
 [L], [('cache', 'kajiki/loader.py Loader.import_'), ('reload check', 'kajiki/loader.py FileLoader.import_'), ('path search', 'kajiki/loader.py FileLoader._filename, PackageLoader._filename'), ('template kind', 'kajiki/loader.py FileLoader._load')],
 ['Loader.load / import_'])

prop('C10', 'Errors are reported at the line of the template they come from',
 'A runtime error raised by an expression or directive condition of a template shows, in its traceback, the template file name and the line on which that expression starts (for text templates: ends), whatever the distance between lines, the number of statements, multi-line expressions, functions or doctype around it. '
 'Line tables of any size survive encoding: looking up any code offset gives back the line recorded for it.',
 ['inputs', 'programs'], 'every template layout and every table of increasing offsets and lines',
 'Tests check two small templates; the byte-wise encoding has limits at 127 and 255 that need large gaps.',
 [N, T, S, X, 'kajiki/ir.py'], [('line table encoding', 'kajiki/lnotab.py lnotab, lnotab_numbers, byte_pairs'), ('mapping', 'kajiki/template.py from_ir, TplFunc.annotate_lnotab'), ('line bookkeeping', 'kajiki/xml_template.py _TextCompiler.text/expr, kajiki/text.py _Scanner')],
 ['traceback.extract_tb of an error raised while rendering'])

prop('C11', 'Every static text is translated as a whole, and exactly what was extracted',
 'When an XML template is rendered, each static text that is not only whitespace, outside attributes, script, style and CDATA markers, is passed through gettext exactly once, with surrounding whitespace kept out of the message and kept in the output, and its translation appears in its place. '
 'The set of messages looked up is exactly the set extraction reports for the same template, and with the identity translation the output equals that of the template without translation.',
 ['inputs', 'programs'], 'every template and every translation function',
 'Tests translate a few fixed strings.',
 ['kajiki/i18n.py', I, X, T], [('translatable text', 'kajiki/ir.py TranslatableTextNode.py, kajiki/xml_template.py make_text_node'), ('whitespace split', 'kajiki/xml_template.py _extract_nodes_leading_and_trailing_spaces'), ('extraction', 'kajiki/i18n.py extract'), ('lookup', 'kajiki/template.py _Template._gettext')],
 ['calls of the gettext function', 'i18n.extract results', 'render()'])

prop('C12', 'Elements are written with the right tags for the rendering mode',
 'Each element is written as one start tag and, around its content, the matching end tag: an element without content is self-closed in xml mode, gets an explicit end tag in html modes unless it is a void element (area, base, br, col, hr, img, input, link, meta, param), which never gets an end tag there, and script always has an end tag. '
 'py:strip removes exactly the start and end tag and the attributes when its condition is true and never the content. '
 'Script and style content is written unescaped, inside /*<![CDATA[*/ /*]]>*/ in xml mode only, comments inside elements are kept unless they start with !, and CDATA sections outside scripts are kept.',
 ['inputs', 'configurations'], 'every element name, content, nesting and mode',
 'Tests check a few tags in each mode.',
 [X, 'kajiki/html_utils.py'], [('element compilation', 'kajiki/xml_template.py _Compiler._compile_xml'), ('tag tables', 'kajiki/html_utils.py')],
 ['render()'])

prop('C13', 'Static text of XML templates is preserved character for character',
 'The static text of an XML template appears in the output in order and unchanged, with & < > written as entities and HTML entity references replaced by the characters they name (escaped again where XML requires it), regardless of how entities, comments, CDATA sections, newlines and expressions split it. '
 'With strip_text each static text only loses its leading and trailing whitespace.',
 ['inputs'], 'every static text and every way the parser may split it',
 'Tests use short texts that the parser delivers in one or two pieces.',
 [X, 'kajiki/entities.py'], [('parser callbacks', 'kajiki/xml_template.py _Parser.characters, skippedEntity, startCDATA'), ('text node transformations', 'kajiki/xml_template.py _DomTransformer._merge_text_nodes, _extract_nodes_leading_and_trailing_spaces, _strip_text_nodes'), ('entity table', 'kajiki/entities.py html5, unescape')],
 ['render()'])

prop('C14', 'A directive attribute means the same as the directive element around it',
 'Putting a directive as an attribute on an element gives the same output as wrapping that element in the directive element, for every directive and element. '
 'Several directive attributes on one element nest in the fixed documented order (def, call, case, else, for, if, switch, with, replace, block, outermost first) regardless of the order in which they are written.',
 ['programs', 'inputs'], 'every element, every set of directive attributes and every context',
 'Tests combine at most two directives on an element.',
 [X, 'kajiki/markup_template.py'], [('expansion', 'kajiki/xml_template.py _DomTransformer._expand_directives'), ('order', 'kajiki/markup_template.py DIRECTIVES')],
 ['render()'])

prop('C15', 'Doctype and rendering mode are chosen as documented and the doctype kept',
 'A template rendered on its own starts with its own doctype exactly as written followed by a newline, or, in html5 mode without one, with the html5 doctype; a fragment, an included or imported template and an extending template emit none. '
 'The rendering mode is the one requested, else the one the known doctype implies (ignoring letter case and white space), else xml, and removing the doctype for parsing changes nothing else in the source.',
 ['inputs', 'configurations'], 'every doctype text, mode argument, fragment flag and surrounding markup',
 'Tests cover the known doctypes once each.',
 [X, 'kajiki/doctype.py'], [('doctype extraction', 'kajiki/doctype.py extract_dtd, DocumentTypeDeclaration.matching'), ('mode selection', 'kajiki/xml_template.py _Compiler.__init__'), ('emission', 'kajiki/xml_template.py _Compiler.compile')],
 ['start of render() output', 'void tags in the output'])

prop('C16', 'Rendering is repeatable and leaves its inputs alone',
 'Rendering never modifies the context given by the caller, the base globals, the template class or any other instance: rendering the same template again, in any order or interleaving with other templates and instances, with equal contexts gives equal output. '
 'A name in the context hides a base global of that name, which hides the built-in template names; defined() and value_of() reflect exactly the names available.',
 ['histories', 'inputs'], 'every sequence or interleaving of instantiations and renders, every context',
 'Tests render each template once.',
 [T], [('instance state', 'kajiki/template.py _Template.__init__'), ('function binding per instance', 'kajiki/template.py TplFunc.bind_instance'), ('base globals copied', 'kajiki/template.py from_ir')],
 ['render()', 'the context dict after rendering'])

prop('C17', 'Imported and included templates render with their own functions',
 'Importing a template makes its functions available under the given alias, or by default under its file name without directory and extension, and calling one gives what that template defines, with the importing template context visible to it. '
 'Including a template inserts exactly its rendering as a fragment at that place, any number of times, leaving the functions, self and local of the including template as they were.',
 ['programs', 'histories'], 'every set of templates, aliases and include positions',
 'Tests import or include one template once.',
 [T, L, I], [('import', 'kajiki/template.py _Template._import'), ('generated code', 'kajiki/ir.py ImportNode, IncludeNode'), ('default alias', 'kajiki/loader.py Loader.default_alias_for')],
 ['render()'])

prop('C18', 'Compiling a template does not depend on what was compiled before',
 'Names generated inside a template (for attribute values, py:attrs and py:call) are never used twice, so any number of attributes, calls and nestings in one template, and any number of templates compiled earlier in the process or concurrently in other threads, never change what a template renders. '
 'Compiling the same source twice gives templates with the same output.',
 ['histories', 'schedules', 'programs'], 'every history of compilations in every thread',
 'Tests compile in one thread and never compare against a fresh process.',
 [U, I], [('name generator', 'kajiki/util.py NameGen, gen_name'), ('users', 'kajiki/ir.py AttrNode, AttrsNode, CallNode')],
 ['render()', 'names in the generated code'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
