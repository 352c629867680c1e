#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

CONV='converter/convert.go'
p('C01','Conversion is total: it never panics and always terminates',
 'Converting any HTML tree, with escaping on or off, with any combination of the shipped plugins and any accepted option values, returns normally with a nil error. It never panics and never loops forever.',
 ['inputs','configurations'],'every HTML tree (tags, nesting, text, attribute values) x escape mode x plugin set x options',
 'Golden files run a few dozen documents with the default options; index arithmetic at the ends of buffers (headings, escapes, table grids) and tree surgery in unusual nestings is reached by few of them.',
 ['converter/convert.go','converter/escape.go','plugin/commonmark/render_heading.go','plugin/commonmark/render_list.go','plugin/table/utils.go','plugin/table/2_collect.go','collapse/collapse.go','internal/domutils'],
 [('bounds guards before index arithmetic','plugin/commonmark/render_heading.go'),('growSlice before Insert','plugin/table/utils.go'),('tree walks that advance on every step','collapse/collapse.go, internal/domutils')],
 ['Converter.ConvertNode / ConvertString return value'])
p('C02','Smart escaping preserves the text itself',
 'In smart mode, undoing the backslash escapes and the &lt;/&gt; entities of the Markdown produced for a run of plain text gives back exactly that text (after HTML whitespace collapsing, with U+0000 shown as U+FFFD). Escaping only ever inserts a backslash, and only directly in front of an ASCII punctuation character.',
 ['inputs'],'every text (all bytes except "&" and the two documented marker code points)',
 'Tests check fixed samples; a lost, doubled or misplaced character needs a particular combination of neighbouring special characters.',
 ['converter/escape.go','plugin/base/base.go','internal/escape'],
 [('escapeContent places a marker, unEscapeContent resolves it','converter/escape.go'),('"<" and ">" replaced by entities','plugin/base/base.go')],
 ['Markdown returned for <p>text</p>'])
p('C03','Literal text never turns into Markdown block structure',
 'In smart mode, plain text at any line position of a paragraph is never read by a CommonMark parser as a heading (ATX or setext), block quote, list item, thematic break or fenced code block. With the table plugin it is never read as a table.',
 ['inputs'],'every text placed at the start of a paragraph, after a hard line break or after other text',
 'The escape decision depends on the whole line around a character; tests list individual lines, not all combinations of markers, digits, spaces and line breaks.',
 ['internal/escape/elem_header.go','internal/escape/elem_quote.go','internal/escape/elem_list.go','internal/escape/elem_divider.go','internal/escape/elem_code.go','plugin/commonmark/commonmark.go'],
 [('UnEscaper handlers decide per special character','internal/escape/elem_*.go'),('registered characters and handlers','plugin/commonmark/commonmark.go')],
 ['Markdown returned for <p>text</p> and <p>text<br>text</p>'])
p('C04','Literal text never turns into inline Markdown formatting',
 'In smart mode, plain text is never read by a CommonMark parser as emphasis, strong emphasis, a code span, a link, an image or raw HTML; with the strikethrough plugin it is never read as strikethrough. (Known exception, KF1: a literal delimiter in front of white space inside of emphasis.)',
 ['inputs'],'every text of one paragraph, including text next to real formatting',
 'Whether "*", "_", "`", "[", "!" or "~" acts as markup depends on both neighbours and on a matching closer; samples do not cover the combinations.',
 ['internal/escape/elem_italic_bold.go','internal/escape/elem_code.go','internal/escape/elem_image.go','internal/escape/elem_backslash.go','plugin/strikethrough/strikethrough.go','plugin/base/base.go'],
 [('IsItalicOrBold, IsInlineCode, IsImageOrLink, IsBackslash','internal/escape'),('handleUnEscapers','plugin/strikethrough/strikethrough.go')],
 ['Markdown returned for <p>text</p>'])
p('C05','Escapes appear only when needed; disabled mode adds none',
 'With escaping disabled the text of a paragraph appears in the output without any added backslash. In smart mode text that contains no character with a Markdown meaning is emitted unchanged, and a special character surrounded by letters that cannot open any construct ("a - b", "1.5", "x > y" apart from the entity) gets no backslash.',
 ['inputs','configurations'],'every text, both escape modes',
 'Tests compare samples; over-escaping shows up only for particular neighbours.',
 ['converter/escape.go','converter/converter.go','internal/escape'],
 [('early return when escaping is disabled','converter/escape.go'),('handlers answer -1 when no construct can start','internal/escape')],
 ['Markdown returned by ConvertNode'])
p('C06','Internal marker characters never reach the output',
 'The Markdown returned by any conversion contains neither the escape marker (U+0007) nor the code-newline marker (U+F002) unless escaping is disabled and the input text contained U+0007 itself. Every marker is resolved whatever element (list, table, heading, link, code, raw HTML) contains the text.',
 ['inputs','configurations'],'every tree and text, with every plugin combination in smart mode',
 'A marker survives only if some element post-processes content in an unusual order; tests look at golden files only.',
 ['converter/escape.go','plugin/base/base.go','plugin/commonmark/commonmark.go','plugin/commonmark/render_list.go','plugin/table/2_collect.go'],
 [('post-render unescape','plugin/base/base.go'),('handlePostRenderCodeBlockNewline','plugin/commonmark/commonmark.go')],
 ['bytes of the returned Markdown'])
p('C07','Code blocks keep their content verbatim, wherever they are nested',
 'The content of a <pre> block is recovered exactly (up to one final newline) by a CommonMark reader from the fenced block in the output, whatever backticks, tildes, markup characters, spaces and blank lines it contains and whether it stands alone, in list items or in block quotes (a CommonMark reader drops the white space of a blank line inside a list item). The opening fence line carries only the language word.',
 ['inputs','configurations'],'every code text, fence style, language class and container nesting',
 'The fence length, blank-line protection and container prefixes interact; tests have a handful of snippets and none with a multi-line block inside a quote.',
 ['plugin/commonmark/render_code.go','internal/textutils/codefence.go','plugin/commonmark/render_list.go','plugin/commonmark/render_blockquote.go','plugin/commonmark/commonmark.go'],
 [('CalculateCodeFence','internal/textutils/codefence.go'),('code-newline marker','marker/marker.go, plugin/commonmark')],
 ['fenced code block in the returned Markdown'])
p('C08','Inline code keeps its content',
 'The text of an inline code element is recovered by a CommonMark reader from the code span in the output, up to whitespace collapsing, whatever backticks, backslashes and markup characters it contains, and its surroundings are read as they are. (Known exception, KF2: "]:" as code in a link that begins a paragraph.)',
 ['inputs'],'every code text',
 'The delimiter run must differ in length from every run inside and edge backticks need padding; tests sample a few strings.',
 ['plugin/commonmark/render_code.go','internal/textutils/codefence.go','internal/textutils/collapse_code.go'],
 [('fence = longest run + 1','plugin/commonmark/render_code.go'),('space padding at backtick edges','plugin/commonmark/render_code.go')],
 ['code span in the returned Markdown'])
p('C09','Whitespace collapsing follows HTML and loses nothing else',
 'Collapsing whitespace of a tree leaves every non-whitespace character in place and in order, leaves no run of two spaces, tab or newline in any text outside preformatted elements, removes whitespace at block edges, never removes the only whitespace between two words, and leaves preformatted text untouched. Running it twice gives the same tree as running it once, apart from text nodes that are empty. The words of the Markdown are those of the HTML: inline elements, spaces and the borders of blocks neither join nor split words.',
 ['inputs'],'every tree shape and every text content',
 'Tests list trees one by one; the state carried between siblings, inline wrappers, void and preformatted elements has many combinations.',
 ['collapse/collapse.go','collapse/whitespace.go','collapse/is_node.go'],
 [('prevText / keepLeadingWs state machine','collapse/collapse.go'),('replaceAnyWhitespaceWithSpace','collapse/whitespace.go')],
 ['tree after collapse.Collapse'])
p('C10','Output hygiene: trimmed, at most one blank line between blocks',
 'The returned Markdown neither starts nor ends with whitespace, and outside code blocks it never contains three consecutive newlines (more than one blank line).',
 ['inputs'],'every tree and text',
 'Each renderer adds its own newlines; the global bound depends on all of them together with trimming.',
 ['plugin/base/base.go','internal/textutils/consecutive_newlines.go'],
 [('postRenderTrimContent','plugin/base/base.go'),('TrimConsecutiveNewlines','internal/textutils/consecutive_newlines.go')],
 ['returned Markdown'])
p('C11','Removed elements leave no trace',
 'Text and attributes inside elements whose tag is registered as "remove" (script, style, head, iframe, noscript, textarea, comments, and any tag the user registers) never appear in the output, wherever the element stands and whatever its neighbours are. Text outside such elements is not affected by their removal.',
 ['inputs','configurations'],'every tree with removable elements at any position, including several in a row and nested ones',
 'Removal while walking siblings is order sensitive; tests have a few positions.',
 ['plugin/base/base.go','converter/register.go','internal/domutils/adjacent.go'],
 [('preRenderRemove with deferred visits','plugin/base/base.go'),('TagType lookup by priority','converter/register.go')],
 ['returned Markdown'])
p('C12','Every visible text appears exactly once and in document order',
 'Each piece of visible text of the input tree appears exactly once in the Markdown, in document order, for any nesting of the supported elements (blocks, lists, quotes, headings, emphasis, links, code, spans). A block inside of an inline element, or an inline element over several lines, leaves no Markdown syntax behind as text.',
 ['inputs'],'every tree over the supported tags',
 'Nine tree rewrites run before rendering (unwrap, merge, swap, rename, move); only particular nestings trigger them together.',
 ['internal/domutils','plugin/commonmark/handle_pre_render.go','converter/render.go','plugin/commonmark/handle_render.go'],
 [('tree rewrites that move but never drop children','internal/domutils'),('fallback renderer renders children','converter/render.go')],
 ['returned Markdown'])
p('C13','Emphasis delimiters are balanced and usable',
 'Bold, italic and strikethrough content is wrapped line by line: every non-blank line carries the delimiter once at its start and once at its end, directly next to non-whitespace characters, and blank lines carry none. Surrounding whitespace is kept outside the delimiters. (Emphasis of nothing but punctuation directly between letters, and a code span or link at the edge of an emphasis that touches a letter of another element, cannot be expressed in CommonMark.)',
 ['inputs','configurations'],'every content (text, line breaks, spaces, Unicode spaces) and each accepted delimiter',
 'Samples only; whitespace and line-break positions interact.',
 ['plugin/commonmark/render_bold_italic.go','plugin/strikethrough/strikethrough.go','internal/textutils/delimiter.go','internal/textutils/surrounding_spaces.go'],
 [('DelimiterForEveryLine','internal/textutils/delimiter.go'),('SurroundingSpaces','internal/textutils/surrounding_spaces.go')],
 ['returned Markdown'])
p('C14','Links and images cannot be broken out of',
 'A link or image is rendered as one well-formed construct whatever its text, alt text, title or URL contains: the brackets of the text are balanced or escaped, there is no blank line inside, the destination has no whitespace, parentheses, brackets, angle brackets or control characters, and the title, read back by CommonMark rules, equals the original title with line breaks as spaces. Exactly the text of the link is linked. (Known exception, KF3: a literal character reference in a title.)',
 ['inputs'],'every alt text, title, link text and URL',
 'Delimiter characters, quotes and backslashes in attribute values combine freely; tests cover a few pairs.',
 ['plugin/commonmark/render_link.go','plugin/commonmark/render_image.go','internal/textutils/quote.go','internal/textutils/escape_multiline.go','converter/url.go'],
 [('SurroundByQuotes','internal/textutils/quote.go'),('escapeAlt','plugin/commonmark/render_image.go'),('percentEncodingReplacer','converter/url.go')],
 ['link/image in the returned Markdown'])
p('C15','URLs keep their meaning; relative URLs resolve against the domain',
 'Without a domain a URL is only percent-encoded, never otherwise changed: path, fragment, and the sequence of query keys and values are preserved. With a domain a relative URL becomes the absolute URL that RFC 3986 resolution gives, and absolute URLs, data URIs and "#" keep their meaning. (Known exception, KF4: a literal character reference in a URL.)',
 ['inputs','configurations'],'every URL string and domain',
 'URL re-encoding has many special characters; tests list sample URLs.',
 ['converter/url.go','converter/ctx.go'],
 [('ParseAndEncodeQuery','converter/url.go'),('parseBaseDomain and ResolveReference','converter/url.go')],
 ['link destinations in the returned Markdown, converter.ParseAndEncodeQuery'])
p('C16','List items keep their number, marker and content',
 'In an ordered list item i is numbered start+i, all numbers of a list have the same width, and numbering falls back to 1 when start is not a number CommonMark can represent; unordered items use the configured marker. Every line of an item after the first is indented by exactly the width of its marker, so nested content stays inside the item.',
 ['inputs','configurations'],'every start attribute, list length, nesting and item content',
 'Number formatting and indentation widths vary with the values; tests use small starts.',
 ['plugin/commonmark/render_list.go','internal/domutils/list_items.go','internal/domutils/list_end_comment.go'],
 [('getPrefixFunc','plugin/commonmark/render_list.go'),('renderMultiLineListItem','plugin/commonmark/render_list.go')],
 ['returned Markdown'])
p('C17','Block quotes contain all of their content',
 'Every line produced for the content of a block quote, including lines of nested blocks and code blocks and blank lines between blocks, starts with the quote marker "> ", so no content leaks out of the quote and none from outside enters it.',
 ['inputs'],'every quote content and nesting',
 'Which line breaks exist only shows after all nested rendering; tests have few nested quotes and none with multi-line code.',
 ['plugin/commonmark/render_blockquote.go','internal/textutils/prefix_lines.go'],
 [('PrefixLines','internal/textutils/prefix_lines.go')],
 ['returned Markdown'])
p('C18','Headings stay one heading of the right level with their full text',
 'Content of <hN> is rendered as a single heading of level N (ATX: one line with N "#"; setext: underline at least as wide as needed and no interrupting blank line), with its text complete: trailing "#" characters survive, line breaks do not end the heading. Headings without content produce nothing.',
 ['inputs','configurations'],'every heading text, level, heading style and escape mode',
 'Trailing "#", line breaks and escape modes interact; samples only.',
 ['plugin/commonmark/render_heading.go','internal/textutils/escape_multiline.go'],
 [('escapePoundSignAtEnd','plugin/commonmark/render_heading.go'),('newline replacement','plugin/commonmark/render_heading.go')],
 ['returned Markdown'])
p('C19','Tables are rectangular and keep every cell in its column',
 'A rendered table has the same number of cells in the header, delimiter and all body rows, no cell content can add a cell or a row, the header row comes first, the caption is a paragraph behind the table, and cells appear in row and column order shifted only by colspan/rowspan, whose extra cells are empty or mirrored as configured. Rows are only dropped when empty and configured so, and a table that cannot be represented is left to the fallback with its text intact.',
 ['inputs','configurations'],'every grid, span, cell content and table option',
 'Spans overlap in many ways and cell content may contain "|" in code, titles, alt texts; tests hold fixed tables.',
 ['plugin/table/2_collect.go','plugin/table/3_render.go','plugin/table/utils.go','plugin/table/1_select.go'],
 [('applyGroupedModifications','plugin/table/utils.go'),('fillUpRows / calculateMaxCounts','plugin/table/utils.go'),('pipe escaping','plugin/table/2_collect.go')],
 ['returned Markdown'])
p('C20','Handlers run by priority and the first successful renderer wins',
 'Pre-render, text, render, unescape and post-render handlers run in ascending priority whatever the order of registration; for each node the first renderer (in that order) that reports success is the last one called for it, a renderer that declines has no effect on who comes next, and the tag type with the lowest priority number wins. Handlers of equal priority run in registration order.',
 ['configurations','histories'],'every sequence of registrations with arbitrary priorities',
 'Tests register two or three handlers with distinct constants.',
 ['converter/register.go','converter/prioritized.go','converter/render.go','converter/convert.go'],
 [('prioritizedSlice.Sort','converter/prioritized.go'),('handleRenderNode','converter/render.go')],
 ['order of handler calls'])
p('C21','Conversions are deterministic and independent of each other',
 'A converter gives for a document the same result it gives when fresh, whatever it converted before; state set during one conversion is not visible in another, and options of one call (domain, context) do not carry over. The package-level functions and ConvertString, ConvertReader and ConvertNode agree.',
 ['histories','inputs','configurations'],'every pair of documents converted one after the other by one converter',
 'Tests convert one document per converter, or the same document many times.',
 ['converter/convert.go','converter/ctx.go','converter/escape.go','convert.go'],
 [('per-call globalState and context','converter/convert.go'),('handler slices copied before sorting','converter/register.go')],
 ['results of repeated conversions'])
p('C22','A converter can be used from several goroutines without data races',
 'Two conversions running concurrently on one converter, or a conversion concurrent with reading or registering handlers, never access shared memory in conflicting ways without a common lock.',
 ['schedules'],'every interleaving of two operations on one converter',
 'The existing test runs goroutines without the race detector and with sorted registrations; the schedule space is not covered.',
 ['converter/converter.go','converter/register.go','converter/convert.go'],
 [('RWMutex around every shared field','converter/register.go')],
 ['memory accesses of concurrent ConvertNode / Register calls'])
p('C23','The CLI never overwrites or merges files by accident',
 'Without --output-overwrite an existing file is never modified or truncated; with it the file ends up with exactly the new content. When several inputs are converted into a directory, distinct inputs are written to distinct output files directly inside that directory, each with its own Markdown.',
 ['inputs','configurations','fault_sequences'],'every set of input paths, existing files and flag combination, every failing file operation',
 'Tests create a few files; name collisions and open flags combine with paths.',
 ['cli/html2markdown/cmd/io_output.go','cli/html2markdown/cmd/exec.go','cli/html2markdown/cmd/io_input.go'],
 [('WriteFile open flags','cli/html2markdown/cmd/io_output.go'),('calculateOutputPaths','cli/html2markdown/cmd/io_output.go')],
 ['file system calls made by cmd.Run'])
p('C24','The CLI reports errors and rejects inconsistent flags',
 'The CLI exits 0 only when every input was converted and written; any failed read, conversion or write, unknown flag or argument, or table option without the table plugin, gives exit status 1, a message on stderr and no Markdown on stdout. Options reach the converter with the value given.',
 ['inputs','configurations','fault_sequences'],'every flag combination and every failing operation',
 'Tests enumerate a few commands with healthy files.',
 ['cli/html2markdown/cmd/exec.go','cli/html2markdown/cmd/flags.go','cli/html2markdown/cmd/cmd_convert.go','cli/html2markdown/cmd/errors.go'],
 [('parseFlags dependency checks','cli/html2markdown/cmd/flags.go'),('Execute','cli/html2markdown/cmd/exec.go')],
 ['exit status, stdout and stderr of cmd.Run'])
p('C25','CLI selectors include and exclude exactly the matching elements',
 'With --exclude-selector no text of a matching element appears in the output and all other text does; with --include-selector exactly the text of matching elements appears, once and in document order.',
 ['inputs','configurations'],'every tree and simple selector, including nested and adjacent matches',
 'Tests use one document with one match.',
 ['cli/html2markdown/cmd/cmd_convert.go'],
 [('includeNodesFromDoc / excludeNodesFromDoc','cli/html2markdown/cmd/cmd_convert.go')],
 ['stdout of cmd.Run'])
p('C26','Invalid configuration is refused, valid configuration is honoured',
 'Option values outside their documented set (em/strong delimiter, horizontal rule, bullet marker, code fence, heading style, table behaviours), plugins that fail to initialise, and a missing base plugin make every conversion return an error and no Markdown; values inside the set are used verbatim in the output.',
 ['configurations'],'every option string',
 'Tests try a few good and bad strings.',
 ['plugin/commonmark/validation.go','plugin/commonmark/options.go','plugin/table/table.go','converter/register.go','converter/convert.go'],
 [('validateConfig','plugin/commonmark/validation.go'),('sticky converter error','converter/convert.go')],
 ['error returned by ConvertString'])
p('C27','Tree rewriting preserves well-formedness and text',
 'After every pre-render rewrite the tree is still a well-formed tree (parent, sibling and child links agree, no cycle) with the same text content in the same order, except for the documented removals; emphasis is never nested in emphasis of the same kind and links never in links.',
 ['inputs'],'every tree over the supported tags',
 'Rewrites are tested one by one on hand-written trees; link surgery errors need particular shapes.',
 ['internal/domutils'],
 [('MergeAdjacent, RemoveRedundant, SwapTags, MoveListItems, RenameFakeSpans, LeafBlockAlternatives','internal/domutils')],
 ['tree observed by a late pre-render handler'])
p('C28','Renderers are compositional: wrappers and custom renderers keep children',
 'RenderAsHTML, RenderAsHTMLWrapper and RenderAsPlaintextWrapper registered for any tag keep the complete content of the element, and outside of code and emphasis block-level output is separated from its surroundings by a blank line while inline output adds no whitespace.',
 ['inputs','configurations'],'every tag type, tag and content',
 'Tests cover a few combinations of tag type and renderer.',
 ['plugin/base/renderers.go','converter/render.go'],
 [('RenderAs* helpers','plugin/base/renderers.go'),('handleRenderFallback','converter/render.go')],
 ['returned Markdown'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
