#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

p("P01", "No input makes any pipeline stage panic or abort",
  "For every string, every page info and every settings combination, including, preprocessing, tokenizing, parsing, rendering to text and to HTML, serializing and copying the tree all return normally: no panic, failed assertion, arithmetic overflow or stack overflow. Bad wikitext is reported through the returned error list and as literal text, never by crashing.",
  ["inputs", "configurations"], "all Unicode strings x all modes/layouts/settings/page infos",
  "The tests feed well-formed or mildly broken fixtures; the proptest tree generator bypasses the parser. Crashes need unusual token adjacency (a stray closer, a partial block in the wrong parent) that no fixture has.",
  ["src/parsing/consume.rs", "src/parsing/parser.rs", "src/parsing/rule/mapping.rs", "src/parsing/rule/impls/", "src/render/html/", "src/render/text/", "src/includes/mod.rs", "src/preproc/", "src/text.rs"],
  [("fallback rule for any token", "src/parsing/consume.rs consume"), ("recursion depth limit", "src/parsing/parser.rs depth_increment"), ("partial element check", "src/parsing/rule/mod.rs try_consume / src/tree/element.rs"), ("assertions on token kind", "src/parsing/rule/impls/**")],
  ["process exit / panic hook around each stage"])

p("P02", "Tokens tile the source text exactly",
  "Tokenizing any text yields an input-start token, then tokens whose spans are adjacent, non-empty, lie on character boundaries and cover the text from its first byte to its last without gap or overlap, then an input-end token at the end of the text. Each token's slice is the text at its span and has the shape its kind names (a line break is a newline, a whitespace token only blanks, a bracket token exactly those brackets), and tokenizing never falls back to a single catch-all token.",
  ["inputs"], "all Unicode strings",
  "Tests compare token lists for a handful of literals; a lexer rule that swallows or splits characters only in some context passes them.",
  ["src/parsing/lexer.pest", "src/parsing/token/mod.rs", "src/tokenizer.rs"],
  [("pest grammar with catch-all 'other'", "src/parsing/lexer.pest"), ("span conversion", "src/parsing/token/mod.rs ExtractedToken")],
  ["ftml::tokenize"])

p("P03", "Preprocessing normalizes text exactly as documented",
  "Preprocessing rewrites any text to: DOS and legacy-Mac newlines as line feeds, lines of only blanks emptied, leading non-breaking spaces as spaces, backslash-newline joined, each tab as four spaces, null characters as spaces, leading and trailing newlines removed, and ``..'', `..', ,,..'' quotes and ... replaced by their typographic forms. Nothing else changes, and text with none of these features is returned unmodified.",
  ["inputs"], "all Unicode strings",
  "Unit tests check single substitutions on short literals; interactions between substitutions, multi-line positions and long multi-byte documents are not sampled.",
  ["src/preproc/mod.rs", "src/preproc/whitespace.rs", "src/preproc/typography.rs"],
  [("ordered regex substitutions", "src/preproc/whitespace.rs substitute"), ("in-place surround replacement", "src/preproc/typography.rs Replacer")],
  ["ftml::preprocess"])

p("P04", "Processing is a deterministic pure function of its inputs",
  "Running any stage again on the same text, page info and settings gives an identical result: the same tokens, tree, errors and text, and the same HTML apart from deliberately random element ids. This holds across repetitions, processes and threads and regardless of what other documents were processed before or concurrently.",
  ["inputs", "histories", "schedules"], "all documents x processing histories x concurrent interleavings",
  "Each test runs one document once in one process; hash-seed-dependent ordering, state leaking between documents or through lazily initialised statics needs repeated and interleaved runs.",
  ["src/parsing/parser.rs", "src/render/html/context.rs", "src/render/html/random.rs", "src/tree/attribute/mod.rs", "src/tree/variables.rs", "src/render/html/builder.rs"],
  [("ordered attribute map", "src/tree/attribute/mod.rs BTreeMap"), ("per-parse shared state", "src/parsing/parser.rs make_shared_vec"), ("per-render random source", "src/render/html/random.rs")],
  ["tree JSON, error list, text, HTML body/meta/backlinks"])

p("P05", "Every parse yields a structurally valid tree",
  "For any input the returned tree contains no partial (list-item, table-row, table-cell, tab or ruby-text) element, no paragraph nested in a paragraph, and no block-level element (heading, table, list, division, blockquote, collapsible, tab view and so on) directly inside an automatically created paragraph. Lists and table rows are never produced empty by their native syntaxes, column spans are at least one, and wikitext-len equals the length of the parsed text.",
  ["inputs"], "all Unicode strings, all settings",
  "Fixture tests compare whole trees for fixed inputs; malformed nestings reach tree shapes no fixture contains.",
  ["src/parsing/paragraph/", "src/parsing/rule/mod.rs", "src/parsing/rule/impls/block/parser.rs", "src/tree/element.rs", "src/tree/partial.rs"],
  [("partial acceptance flag", "src/parsing/parser.rs accepts_partial"), ("paragraph-safe flag", "src/parsing/paragraph/stack.rs push_element")],
  ["SyntaxTree"])

p("P06", "No body text is lost, duplicated or reordered",
  "Every word of plain text in a document, whether or not the markup around it parses, appears exactly once and in source order in the tree, in the text rendering and in the visible text of the HTML body (table-of-contents and footnote or citation tooltips and lists aside). A construct that fails to parse is shown as its literal source characters; only constructs that are documented to hide their body (comments, false conditions, hidden blocks) remove text.",
  ["inputs"], "all documents built from words and arbitrary complete or broken markup",
  "Fixtures check hand-picked failures; loss or duplication appears in combinations of an aborted construct with what follows or precedes it.",
  ["src/parsing/consume.rs", "src/parsing/rule/impls/", "src/parsing/collect/", "src/parsing/paragraph/mod.rs", "src/render/text/elements.rs", "src/render/html/element/"],
  [("fork-and-commit of the parser position", "src/parsing/rule/mod.rs try_consume"), ("literal fallback", "src/parsing/consume.rs")],
  ["SyntaxTree text, TextRender, visible HTML text"])

p("P07", "Raw, code, HTML and math sources are preserved verbatim",
  "The content of @@...@@ and @<...>@ raw text, of code, html and math blocks, and of inline math reaches the tree exactly as written between the delimiters (less the line break next to each tag of a block, and the blanks around a formula), with no markup inside it interpreted. Code and raw text are shown in the HTML and text output as exactly those characters after HTML unescaping.",
  ["inputs"], "all contents not containing the construct's own terminator",
  "Fixtures use a few short bodies; markup-like, entity-like, multi-byte and newline-heavy bodies are not sampled.",
  ["src/parsing/rule/impls/raw.rs", "src/parsing/rule/impls/block/blocks/code.rs", "src/parsing/rule/impls/block/blocks/html.rs", "src/parsing/rule/impls/block/blocks/math.rs", "src/parsing/rule/impls/math.rs", "src/parsing/rule/impls/block/parser.rs", "src/render/html/element/text.rs", "src/render/html/escape.rs"],
  [("raw body slice between head and end block", "src/parsing/rule/impls/block/parser.rs get_body_text"), ("entity decoding only in @<>@", "src/parsing/rule/impls/raw.rs")],
  ["Element::Raw/Code/Html/Math", "HTML <code>, wj-raw spans"])

p("P08", "Footnotes are collected once, in order, and listed",
  "The footnote contents stored with a tree correspond one to one and in order with the footnote references in it, even when markup around a footnote fails to parse. In HTML the references are numbered 1, 2, 3... in reading order, each showing its own content, and exactly one footnote list is produced at the explicit footnote block or else appended at the end of the tree, listing every footnote once under its number.",
  ["inputs"], "all documents with footnotes in any context, valid or broken",
  "Fixtures hold footnotes in simple valid contexts; speculative parsing that is abandoned after a footnote was recorded is not exercised.",
  ["src/parsing/rule/impls/block/blocks/footnote.rs", "src/parsing/parser.rs", "src/parsing/rule/mod.rs", "src/parsing/mod.rs", "src/render/html/element/footnotes.rs"],
  [("shared footnote vector across parser forks", "src/parsing/parser.rs push_footnote"), ("appended footnote block", "src/parsing/mod.rs parse"), ("render-side counter", "src/render/html/context.rs next_footnote_index")],
  ["SyntaxTree.footnotes, Element::Footnote, wj-footnote-* elements"])

p("P09", "The table of contents mirrors the headings",
  "The table of contents of a tree has exactly one entry per heading that is not marked as excluded, in document order, with the heading's plain text as label and nested by heading level, even when surrounding markup fails to parse. In HTML, entry number N links to #tocN and (with true ids enabled) exactly the N-th such heading carries the id tocN.",
  ["inputs"], "all documents with headings of all levels in any context",
  "Fixtures contain a few headings at top level; deep level jumps, headings in nested or aborted blocks are unsampled.",
  ["src/parsing/rule/impls/header.rs", "src/parsing/mod.rs", "src/parsing/depth.rs", "src/parsing/parser.rs", "src/tree/heading.rs", "src/render/html/element/toc.rs", "src/render/html/element/container.rs"],
  [("shared TOC vector", "src/parsing/parser.rs push_table_of_contents_entry"), ("depth list conversion", "src/parsing/depth.rs process_depths"), ("parallel index counters", "src/next_index.rs")],
  ["SyntaxTree.table_of_contents, h1..h6 ids, wj-toc-list links"])

p("P10", "Code and HTML block lists match the blocks in the tree",
  "The code-block list and html-block list returned with a tree contain exactly the contents (and names) of the code and html blocks present in the tree, in document order, regardless of aborted markup around them. A code block whose name was already used by an earlier code block is rejected and stays literal, while the first use is always accepted.",
  ["inputs"], "all documents with code/html blocks in any context",
  "Fixtures check single blocks; speculative parsing that visits a block twice is not exercised.",
  ["src/parsing/rule/impls/block/blocks/code.rs", "src/parsing/rule/impls/block/blocks/html.rs", "src/parsing/parser.rs", "src/parsing/rule/mod.rs"],
  [("shared block vectors across parser forks", "src/parsing/parser.rs push_code_block / push_html_block")],
  ["SyntaxTree.code_blocks / html_blocks vs Element::Code / Element::Html"])

p("P11", "Bibliography citations resolve to the entry that defines them",
  "Every bibliography block in a tree refers to its own stored bibliography, holding its entries in source order (the first definition of a repeated label winning). Every citation of a defined label shows the number of that entry within its bibliography and its content (the earliest bibliography defining the label winning), and a citation of an undefined label shows the not-found message; neither ever fails.",
  ["inputs"], "all documents with bibliographies and citations, before or after each other",
  "Fixtures have one bibliography and a few citations.",
  ["src/parsing/rule/impls/block/blocks/bibliography.rs", "src/parsing/rule/impls/bibcite.rs", "src/parsing/rule/impls/block/blocks/bibcite.rs", "src/tree/bibliography.rs", "src/render/html/element/bibliography.rs"],
  [("bibliography list and reference lookup", "src/tree/bibliography.rs"), ("shared list across parser forks", "src/parsing/parser.rs push_bibliography")],
  ["SyntaxTree.bibliographies, Element::BibliographyCite/Block, wj-bibliography-* elements"])

p("P12", "HTML output is well-formed and fully escaped",
  "For any input the HTML body is one well-formed element: every start tag is closed by its matching end tag in proper order, void elements are not closed, attribute values are quoted, no element carries the same attribute twice, and every <, > , & and quote originating from the page source is escaped wherever text or attribute values are emitted. Unescaping the body's text and attributes gives back exactly the strings in the tree.",
  ["inputs", "configurations"], "all documents, all modes",
  "Fixtures compare a few outputs literally; none feeds hostile characters through each attribute and text position.",
  ["src/render/html/builder.rs", "src/render/html/escape.rs", "src/render/html/attributes.rs", "src/render/html/element/"],
  [("builder closes tags on drop", "src/render/html/builder.rs"), ("escaping", "src/render/html/escape.rs")],
  ["HtmlOutput.body parsed by an independent strict parser"])

p("P13", "Wikitext cannot inject active content into the HTML",
  "Whatever the input, the rendered HTML contains only the renderer's fixed set of element names; user-supplied attributes are limited to the safe list (plus well-formed aria-/data- names), no event-handler attribute and no link, image or frame address with a javascript: or data: scheme (other than the inert address javascript:; alone) comes from user input, and scripts occur only as the fixed gist/snippet embeds. Style sheets written by the user cannot terminate their style element.",
  ["inputs"], "all documents, including adversarial ones",
  "Tests check the scheme predicate and a handful of attributes; the claim is about every position a string can flow to.",
  ["src/tree/attribute/safe.rs", "src/tree/attribute/mod.rs", "src/url.rs", "src/render/html/element/style.rs", "src/render/html/element/math.rs", "src/render/html/element/embed.rs", "src/parsing/rule/impls/block/arguments.rs"],
  [("attribute whitelist", "src/tree/attribute/safe.rs"), ("URL scheme check", "src/url.rs dangerous_scheme / normalize_href"), ("CSS reprinting", "src/render/html/element/style.rs")],
  ["HtmlOutput.body tags, attributes, style contents"])

p("P14", "User ids are isolated exactly when isolation is on",
  "With id isolation enabled every id attribute and anchor name taken from user markup is emitted with each of its words carrying the u- prefix (added unless it is there already), so it can never equal a generated id; with isolation disabled user ids are emitted unchanged. Isolation changes nothing else in the tree. Ids generated at random are never those of another rendering, so that several renderings can be on one page.",
  ["inputs", "configurations"], "all user ids x all elements that accept one x both settings",
  "Unit tests check the prefix function and a few blocks; each id-carrying construct and odd id strings are not covered.",
  ["src/id_prefix.rs", "src/tree/attribute/mod.rs", "src/parsing/rule/impls/anchor.rs", "src/parsing/rule/impls/block/blocks/target.rs"],
  [("isolate_ids", "src/id_prefix.rs"), ("attribute map filtering", "src/tree/attribute/mod.rs isolate_id")],
  ["AttributeMap id, Element::AnchorName, HTML id attributes"])

p("P15", "Disabled features stay disabled in every context",
  "When page syntax is disabled no input yields a module, table of contents, include or style element (their markup stays literal or is reported as unsupported) and include expansion returns the text untouched without fetching anything. When local paths are disabled no image or file reference resolves to a page-local file; all other syntax behaves identically to the enabled settings. The settings made for a mode enable page syntax and local paths for pages, drafts and lists only, and true IDs for pages only.",
  ["inputs", "configurations"], "all documents x settings of every mode",
  "Tests exercise the gate on a couple of blocks per mode, not through nesting or alternative spellings.",
  ["src/settings/mod.rs", "src/parsing/parser.rs", "src/parsing/rule/impls/block/blocks/module/", "src/parsing/rule/impls/block/blocks/toc.rs", "src/parsing/rule/impls/block/blocks/include_elements.rs", "src/includes/mod.rs", "src/render/handle.rs"],
  [("check_page_syntax", "src/parsing/parser.rs"), ("include gate", "src/includes/mod.rs include"), ("image source gate", "src/render/handle.rs get_image_link")],
  ["SyntaxTree elements, include() output, HTML img src"])

p("P16", "Include expansion replaces each include exactly as specified",
  "Expanding includes asks the includer once for all include blocks of the text, in document order, with their page references and variables, and replaces each block by the returned page text (or the includer's missing-page text) with each {$name} for which a value was given replaced by it (once; a value that is just its own variable counts as none, so that a later value of that name is used), leaving every other character of the document untouched. The list of included pages equals the requested pages in order, and an includer that returns a wrong number or order of pages is reported as an error instead of being spliced.",
  ["inputs", "fault_sequences", "configurations"], "all documents x all includer answers, including missing pages and misbehaving includers",
  "Unit tests use one debug includer and a few literals; multi-include offsets, multibyte text, nested variables and faulty includers are unsampled.",
  ["src/includes/mod.rs", "src/includes/parse.rs", "src/includes/grammar.pest", "src/includes/include_ref.rs", "src/includes/includer/"],
  [("reverse-order range replacement", "src/includes/mod.rs include_internal"), ("variable substitution", "src/includes/mod.rs replace_variables"), ("page count/identity check", "src/includes/mod.rs")],
  ["ftml::include result, calls seen by a recording Includer"])

p("P17", "Conditional blocks show their body exactly when the condition holds",
  "An iftags body is included if and only if the page has every +required tag, none of the -prohibited tags and, when plain tags are listed, at least one of them; an ifcategory body if and only if the page's category (_default when it has none) is none of the -prohibited ones and, when any other categories are listed, one of those. The body is included unwrapped in place, and an excluded body leaves nothing behind, in any nesting.",
  ["inputs", "configurations"], "all condition lists x all tag sets/categories x nestings",
  "Tests cover a small table of conditions with one fixed tag set and no nesting.",
  ["src/parsing/element_condition.rs", "src/parsing/rule/impls/block/blocks/iftags.rs", "src/parsing/rule/impls/block/blocks/ifcategory.rs"],
  [("ElementCondition::check", "src/parsing/element_condition.rs")],
  ["tree of a document with conditional blocks vs an evaluator"])

p("P18", "Trees survive copying and JSON round trips unchanged",
  "For every parsed document, making the tree owned, and serializing the tree, errors, page info, settings or HTML output to JSON and reading it back, gives an equal value which renders to the same text and HTML. Serialized trees use the documented kebab-case element/data format.",
  ["inputs"], "all trees the parser can produce",
  "Tests deserialize fixed fixtures and a proptest generator of simplified trees; fields and variants the generator does not build and untagged-variant ambiguity are not covered.",
  ["src/tree/", "src/tree/clone.rs", "src/tree/element.rs", "src/tree/link.rs", "src/tree/date.rs", "src/data/", "src/parsing/error.rs"],
  [("serde derives with untagged/renamed variants", "src/tree/"), ("field-by-field to_owned", "src/tree/clone.rs and each to_owned")],
  ["serde_json round trip, SyntaxTree::to_owned"])

p("P19", "Parse errors point at real source locations",
  "Every reported error names a rule and a kind and carries a span that lies inside the source on character boundaries and is the span of a token of the source of the stated kind. Errors come only from markup that was left literal: a document of plain text or well-formed markup reports none, and whenever something is left literal because no rule matched there is an error located there, in source order, preceded by one whose kind says what was wrong (unknown block or module, missing or malformed argument, item outside of its container, unfinished markup).",
  ["inputs"], "all documents",
  "Tests assert error lists for fixed failing fixtures only.",
  ["src/parsing/error.rs", "src/parsing/consume.rs", "src/parsing/parser.rs make_err", "src/parsing/outcome.rs"],
  [("errors built from the current token", "src/parsing/parser.rs make_err"), ("errors dropped on success", "src/parsing/consume.rs")],
  ["ParseOutcome errors vs token list"])

p("P20", "Lists, quotes and definition lists nest by their markers",
  "A run of consecutive * / # lines becomes lists in which every item sits at the depth given by its indentation, in source order, in a list of its own marker's type; a run of > lines becomes blockquotes nested as deep as the number of > characters, in source order; and : key : value lines become one definition list with those pairs in order. No item is dropped, merged, duplicated or moved to another depth.",
  ["inputs"], "all sequences of item depths, marker types and contents up to the documented maximum depths",
  "Unit tests cover about twenty depth sequences and random single-type counts; mixed types, jumps and item contents are not compared structurally.",
  ["src/parsing/depth.rs", "src/parsing/rule/impls/list.rs", "src/parsing/rule/impls/blockquote.rs", "src/parsing/rule/impls/definition_list.rs"],
  [("process_depths", "src/parsing/depth.rs"), ("depth counting per line", "src/parsing/rule/impls/list.rs, blockquote.rs")],
  ["Element::List / Blockquote / DefinitionList structure"])

p("P21", "Tables keep every cell in its row and column",
  "A table written with || syntax or with table/row/cell blocks yields exactly the rows and cells written, in order, each cell with its own contents, header flag (~), alignment (<, =, >) and column span (the number of leading || pairs), and the HTML table has the same rows and cells with matching th/td, colspan and class.",
  ["inputs"], "all grids of cells with all flag combinations and contents",
  "Fixtures cover a few small tables; combinations of spans, flags, empty cells and multi-line cells are unsampled.",
  ["src/parsing/rule/impls/table.rs", "src/parsing/rule/impls/block/blocks/table.rs", "src/tree/table.rs", "src/render/html/element/table.rs"],
  [("cell start parsing", "src/parsing/rule/impls/table.rs parse_cell_start"), ("partial table rows/cells", "src/parsing/rule/impls/block/blocks/table.rs")],
  ["Element::Table, HTML table/tr/th/td"])

p("P22", "Well-formed markup renders as the structure it denotes",
  "Any document composed of well-formed constructs (inline styles, links, blocks with arguments, tabs, collapsibles, headings, paragraphs, rules, alignments and so on, nested in any permitted way) parses without errors to exactly the tree it denotes: the same containers with the same attributes around the same words in the same paragraphs. The HTML renders each of those containers with its tag around its content.",
  ["inputs"], "all documents generated by composing well-formed constructs",
  "Each fixture checks one construct mostly in isolation; the quantifier is over compositions.",
  ["src/parsing/", "src/tree/container.rs", "src/render/html/element/container.rs", "conf/blocks.toml"],
  [("block rules", "src/parsing/rule/impls/block/blocks/"), ("inline container rules", "src/parsing/rule/impls/{bold,italics,underline,strikethrough,superscript,subscript,monospace,color}.rs"), ("tag mapping", "src/tree/container.rs html_tag")],
  ["SyntaxTree and HTML vs an independently built expected tree"])

p("P23", "Links resolve to the written target and are all recorded",
  "Every link form (single and triple bracket, anchor, interwiki, bare URL, starred or new-tab) produces a link to exactly the written target with the written label, target flag and kind, its address in HTML being the site-normalized form of that target plus any extra path or anchor. The rendered backlinks list exactly the internal pages and external addresses of the links rendered (not anchors on the same page), in rendering order, and page references parse and print consistently.",
  ["inputs", "configurations"], "all link targets, labels and forms",
  "Tests use fixed link literals; interactions of targets, labels, extra parts and link collection are unsampled.",
  ["src/tree/link.rs", "src/data/page_ref.rs", "src/settings/interwiki.rs", "src/url.rs", "src/parsing/rule/impls/link_single.rs", "src/parsing/rule/impls/link_triple.rs", "src/parsing/rule/impls/link_anchor.rs", "src/parsing/rule/impls/url.rs", "src/render/html/context.rs", "src/render/html/element/link.rs"],
  [("link location parsing", "src/tree/link.rs"), ("interwiki templates", "src/settings/interwiki.rs build"), ("backlink collection", "src/render/html/context.rs add_link")],
  ["Element::Link, HTML a[href], HtmlOutput.backlinks"])

p("P24", "UTF-16 positions agree with the text",
  "For any text, including the empty one, converting a byte position that lies on a character boundary (including the end of the text) gives the number of UTF-16 units before it, and converting all spans of a tokenized or parsed text therefore never fails and selects the same characters in a UTF-16 string.",
  ["inputs"], "all Unicode strings and all their character boundaries",
  "The property test samples short strings without running tokens or errors through the map and never asks the empty string for its only boundary.",
  ["src/utf16.rs", "src/parsing/token/mod.rs", "src/parsing/error.rs"],
  [("Utf16IndexMap::new/get_index", "src/utf16.rs"), ("to_utf16_indices", "src/parsing/token/mod.rs, src/parsing/error.rs")],
  ["Utf16IndexMap::get_index, ExtractedToken::to_utf16_indices, ParseError::to_utf16_indices"])

p("P25", "Nesting and size limits bound the work and the output",
  "However deeply or often constructs are nested or repeated, processing finishes within the documented limits: nesting of blocks beyond the recursion limit makes the document degrade to literal text with a recursion error, lists and quotes deeper than their limits and over-long line-break counts are left as text, and the output size and the time for repeated text or constructs grow about in proportion to the input. Nesting within the limit is always accepted, no matter how many constructs precede it.",
  ["inputs"], "all nesting depths and repetition counts of every construct, including failing ones before them",
  "One test nests one kind of block past the limit; repetition (a leaking depth counter) and other constructs are not covered.",
  ["src/parsing/parser.rs", "src/parsing/consume.rs", "src/parsing/rule/impls/list.rs", "src/parsing/rule/impls/blockquote.rs", "src/parsing/rule/impls/block/blocks/lines.rs"],
  [("MAX_RECURSION_DEPTH", "src/parsing/parser.rs"), ("MAX_LIST_DEPTH / MAX_BLOCKQUOTE_DEPTH", "src/parsing/rule/impls/")],
  ["parse result vs nesting depth, output size vs input size"])

p("P26", "Documented alternative spellings mean the same",
  "Rewriting a document between documented equivalent spellings does not change its tree: block and module names and argument keys in any letter case, accepted aliases of a block name, argument order and spacing, CRLF versus LF newlines, blocks that accept separate lines written inline or on their own lines, spaces around a block's name and arguments, and boolean argument spellings. Names of different blocks never collide, and the flags * and _ are accepted with exactly the blocks documented to have them; with _ the line breaks at both ends of the body of a span, anchor or list item make no difference.",
  ["inputs", "programs"], "all documents x all applicable rewritings",
  "Fixtures spell each alias once; the quantifier is over documents and rewritings.",
  ["src/parsing/rule/impls/block/mapping.rs", "src/parsing/rule/impls/block/arguments.rs", "src/parsing/rule/impls/block/parser.rs", "src/parsing/boolean.rs", "src/parsing/rule/impls/block/blocks/module/mapping.rs", "conf/blocks.toml"],
  [("case-insensitive block map", "src/parsing/rule/impls/block/mapping.rs"), ("case-insensitive arguments", "src/parsing/rule/impls/block/arguments.rs"), ("line break skipping", "src/parsing/rule/impls/block/parser.rs")],
  ["trees of a document and its rewriting"])

p("P27", "Separate parts of a document do not affect each other",
  "Putting two documents one after the other, separated by a blank line or a horizontal rule, parses to the elements of the first followed by the elements of the second, with their footnotes, code and html blocks, bibliographies and headings concatenated and error positions shifted, also when the first holds failing or unfinished markup (unless the second ends what it left open, or goes on with a list, quotation or definition list it ended with). Placing a complete document inside a neutral block gives the same elements inside that block.",
  ["inputs", "histories"], "all pairs of self-contained documents",
  "No test concatenates documents; state leaking past the construct that set it shows only in what follows.",
  ["src/parsing/parser.rs", "src/parsing/parser_wrap.rs", "src/parsing/paragraph/", "src/parsing/rule/mod.rs"],
  [("parser flags restored on drop", "src/parsing/parser_wrap.rs"), ("parser state commit", "src/parsing/parser.rs update")],
  ["tree(A+B) vs tree(A), tree(B)"])

p("P28", "The plain text shows all visible content in the layout of the tree",
  "Rendering any tree to plain text gives exactly the visible text of its elements in order: text, labels of links and tabs, user names, code, dates with their timezone (whatever the date), variables' values, equation references, and the contents of containers, tables, lists, definition lists, tabs and collapsibles, each once. Elements that show nothing in text (modules, images, inputs, media, footnote markers, math, hidden parts) are absent, and characters of invisible parts are blanks. Divs, quotations, paragraphs, headings, code, table rows, list items and definitions end their lines, explicit line breaks are kept, ruby texts are in parentheses, and the whole has no line breaks at its ends. Rendering one element alone gives the text of a document of just that element.",
  ["inputs", "configurations"], "all trees the parser or the JSON reader can give x all page infos and settings",
  "Each fixture compares one document's text; the quantifier is over trees, in particular nestings of layout-changing elements (invisible parts, lists, tabs, ruby) and values no fixture has.",
  ["src/render/text/context.rs", "src/render/text/elements.rs", "src/render/text/mod.rs", "src/tree/date.rs"],
  [("invisible mode", "src/render/text/context.rs"), ("prefixes and indents", "src/render/text/context.rs add_newline"), ("date formatting", "src/tree/date.rs DateItem::format")],
  ["TextRender.render / render_partial vs the serialized tree"])

p("P29", "Blocks and modules get exactly the arguments written",
  "The arguments of a block or module are exactly the key-value pairs written in its head: values are the quoted text with its escapes (backslash, quotes, n, r, t) decoded and anything else verbatim, whatever markup it resembles; keys are case-insensitive, the last of duplicates counts, spacing and line breaks between arguments don't matter. A block's own arguments have the value or boolean or number written, else their default; all other arguments on the list of safe attributes (and no others) appear as its attributes, boolean ones as present or absent. Malformed arguments leave the block as literal text with an error, and never drop or change what follows.",
  ["inputs", "programs"], "all constructs taking arguments x all lists of keys, values and spacings",
  "Fixtures give each construct one or two plain arguments; values with escapes, markup, duplicates and odd spacing are unbounded combinations with every construct.",
  ["src/parsing/rule/impls/block/parser.rs", "src/parsing/rule/impls/block/arguments.rs", "src/parsing/string.rs", "src/parsing/boolean.rs", "src/tree/attribute/mod.rs", "src/tree/attribute/safe.rs", "src/parsing/rule/impls/block/blocks/"],
  [("argument reading", "src/parsing/rule/impls/block/parser.rs get_head_map"), ("string escapes", "src/parsing/string.rs parse_string"), ("safe attributes", "src/tree/attribute/mod.rs from_arguments")],
  ["values and attributes in the serialized tree, error list"])

p("P30", "Dates denote the moment they name",
  "A date block with a Unix timestamp, an RFC 3339 or ISO 8601 date or datetime (calendar, week or ordinal; with or without seconds, fraction and timezone) has in the tree exactly that date, time and offset; a tz argument in any accepted form gives its offset to a date without one. The timestamp in the HTML is the moment's, and the HTML and plain text show its local date, time and offset. Impossible dates or timezones, and a second timezone, leave the block literal with an error.",
  ["inputs"], "all dates, times, offsets and their spellings",
  "Unit tests parse about ten literal dates and twenty offsets, with a tolerance of seconds; rendering is tested for one.",
  ["src/parsing/rule/impls/block/blocks/date.rs", "src/tree/date.rs", "src/render/html/element/date.rs"],
  [("date formats tried in order", "src/parsing/rule/impls/block/blocks/date.rs parse_date"), ("timezone forms", "src/parsing/rule/impls/block/blocks/date.rs parse_timezone"), ("formatting", "src/tree/date.rs DateItem::format")],
  ["date element, data-timestamp, shown text"])

p("P31", "Metadata is the page's, escaped; the layout affects only HTML",
  "The HTML output of any page has exactly its content type, the generator with version and layout, its title (and alternative title) as description and its tags as keywords, whatever the document, and each entry renders to one well-formed meta element with just that name and content. The layout chosen has no influence on tokens, trees, errors or text, and layout names are read case-insensitively, all others being refused.",
  ["inputs", "configurations"], "all page infos x documents x layouts",
  "No test renders metadata with characters that need escaping, or compares layouts.",
  ["src/render/html/context.rs", "src/render/html/meta.rs", "src/render/html/escape.rs", "src/layout.rs", "src/info.rs"],
  [("initial metadata", "src/render/html/context.rs initial_metadata"), ("meta rendering", "src/render/html/meta.rs HtmlMeta::render")],
  ["HtmlOutput.meta, HtmlMeta::render, runs in both layouts"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
