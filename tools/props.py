import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["public API: jotdown::Parser, jotdown::html"]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qt},why_tests_cant=why,anchors=a))
L,B,I,A,H,X='src/lib.rs','src/block.rs','src/inline.rs','src/attr.rs','src/html.rs','src/lex.rs'
p("C01","Parsing and rendering are total",
 "For every UTF-8 string, parsing it to the end (with or without source offsets) and rendering it to HTML in every layout (default, minified, indented) terminates normally: no panic, no arithmetic overflow, no out-of-range or non-character-boundary slice, no endless loop. The same holds for parsing any string as an attribute set and for every public conversion.",
 ["inputs","configurations"],"every UTF-8 input string x every renderer layout",
 "The panics live behind index arithmetic on byte positions of arbitrary text (unwrap on numbers, slices at computed offsets); the tests sample about 390 well-formed snippets.",
 [L,B,I,A,H,X],[("inline parser slices and unwraps","src/inline.rs Parser"),("numbering parse/overflow","src/lib.rs OrderedListNumbering::parse_number"),("block tree construction unwraps","src/block.rs TreeParser"),("footnote/attribute bookkeeping","src/html.rs Writer")])
p("C02","Event streams are well-formed trees with the documented content model",
 "For every input the event stream is a balanced tree: it starts with the start and finishes with the end of exactly one document container, every start is closed by an end of the equal container in last-in-first-out order. Children respect the content model: lists hold only items of their own kind, description lists hold only terms and details, tables hold an optional leading caption and rows of cells, block containers hold only blocks, leaf blocks and cells hold only inline content, code and raw blocks and verbatim-like inlines hold only text.",
 ["inputs"],"every UTF-8 input string",
 "Any input may produce a mis-nested stream, particularly interleaved containers that end together; the tests compare a few hundred hand-picked streams.",
 [L,B,I],[("block event sequence construction","src/block.rs TreeParser"),("inline open/close event pairing","src/inline.rs Parser::parse_container"),("event conversion","src/lib.rs Parser::block, Parser::inline")])
p("C03","Source offsets delimit exactly the source of each event",
 "For every input, each event's byte range lies inside the input on character boundaries, with start not after end, and starts never move backwards over the stream; the offset iterator yields exactly the events of the plain parser. The range of a text event holds exactly that text as written in the source, and the ranges of markup events (delimiters, escapes, dashes, quotes, ellipses, breaks, thematic breaks, list markers, heading markers, fences, symbols, footnote references) hold exactly the markup that produced them.",
 ["inputs"],"every UTF-8 input string",
 "Offsets must be right for all combinations of nesting, indentation and multi-byte text; the offset tests cover about a dozen documents.",
 [L,B,I,X],[("OffsetIter","src/lib.rs OffsetIter::next"),("inline spans","src/inline.rs Event span"),("block spans","src/block.rs Event span")])
p("C04","HTML output escapes all document text; only raw-html passes through",
 "For every input without raw content, every character of document text, attribute value, url, label and language reaches the HTML output only in escaped form: in text the characters <, > and & are written as entities, in attribute values also the double quote, so no input text can create a tag, attribute or entity. Raw content marked with format html is copied verbatim (outside of image descriptions), and raw content of any other format is dropped.",
 ["inputs","configurations"],"every UTF-8 input string x renderer layout",
 "Escaping must hold for every character at every output position (text, alt text, href, src, id, class, language, style); tests check a handful of positions.",
 [H],[("escape","src/html.rs write_escape / write_text / write_attr"),("raw state","src/html.rs Raw")])
p("C05","HTML output is properly nested",
 "For every input without raw content and every layout, the HTML output is a sequence of text, void elements and properly nested, matched open and close tags; every attribute value is double quoted. Everything opened by the renderer, including the footnote section, is closed when the document ends.",
 ["inputs","configurations"],"every UTF-8 input string x renderer layout",
 "Open and close tags come from different events handled far apart, with special cases for tight lists, images and footnotes; tests sample outputs.",
 [H],[("open/close arms","src/html.rs Writer::render_event"),("epilogue","src/html.rs Writer::render_epilogue")])
p("C06","Layout options change only insignificant whitespace",
 "For every input, the default, minified and every indented rendering are identical once the inserted line breaks and indentation between block-level tags are removed; text inside preformatted code and the order and content of tags and attributes never differ. In an indented layout each line break inserted between block elements of the document's body is followed by exactly the nesting depth plus the initial level copies of the indentation string. Line breaks at the start of the output and the empty line of a dropped raw block are not significant.",
 ["inputs","configurations"],"every UTF-8 input string x indentation string x initial level",
 "Whitespace emission is spread over every arm of the renderer and depends on nesting state; only a few layouts are tested.",
 [H],[("block indentation","src/html.rs Writer::block / indentation state")])
p("C07","HTML rendering implements the documented element mapping",
 "For every event stream produced by the parser, the minified HTML equals the documented element mapping applied to that stream: one element per container with its kind-specific tag and attributes (list start and type, checkbox state, heading level, link target, image source and alt text, alignment, code language, math delimiters, quotes, dashes), followed by the user attributes with classes merged and identifiers not duplicated. Tight lists omit paragraph tags and loose ones keep them.",
 ["inputs"],"every event stream the parser can produce",
 "The mapping is a product of container kinds, attributes and nesting; tests check single examples of each.",
 [H],[("element mapping","src/html.rs Writer::render_event")])
p("C08","All rendering entry points agree and sink errors are propagated",
 "For every input, rendering to a string, pushing to a string sink, writing to a byte sink, pushing borrowed or cloned events, and feeding events one at a time produce byte-identical output, independent of what the sink already holds. When the sink fails at any point, the call returns an error, never panics or reports success, and what reached the sink is a prefix of the full output.",
 ["inputs","fault_sequences"],"every UTF-8 input string x every failing position of the sink",
 "The failure can strike at any write; no test injects a sink error.",
 [L,H],[("Render trait adaptors","src/lib.rs Render, WriteAdapter"),("render_to_string","src/html.rs")])
p("C09","Attribute text is accepted exactly by its grammar and parsed to its elements",
 "A string parses as an attribute set iff it is one or more immediately consecutive brace groups of whitespace-separated classes, identifiers, key=value pairs (bare or double quoted, with backslash escapes and line breaks inside quotes) and percent comments, and the result lists exactly those elements in order; otherwise the error position is the first byte that cannot continue a valid set. An attribute value displays with backslash escapes of ASCII punctuation removed and everything else unchanged, and formatting a parsed set for debugging parses back to an equal set (unless a value ends with an unescaped backslash, possible only at a line end).",
 ["inputs"],"every string",
 "The grammar is a state machine over all byte sequences; tests exercise a few dozen strings.",
 [A],[("state machine","src/attr.rs State::step"),("element collection","src/attr.rs Parser::parse"),("escape removal","src/attr.rs AttributeValueParts")])
p("C10","Attribute lookup and merge semantics",
 "For every attribute set, contains_key, get_value and unique_pairs agree: each non-comment key is listed once, at its first position; class is the space-joined concatenation of all class values in order, every other key has its last value; id and class shorthands are the same keys as the written-out ones. Collecting, iterating (owned, borrowed, mutable) and converting to and from a vector preserve all elements and their order.",
 ["inputs"],"every attribute set",
 "Duplicates, comments, empty values and shorthands combine freely; tests show single examples.",
 [A],[("get_value","src/attr.rs Attributes::get_value"),("unique_pairs","src/attr.rs AttributePairsIter")])
p("C11","Attributes attach to the right element and are never lost",
 "For every document, each valid inline attribute group attaches to the element or word it directly follows, and each block attribute group to the next block (several groups merge in order); a group with nothing to attach to is emitted on its own. An attribute group that is not valid stays ordinary text, and no attribute element is dropped, duplicated or attached to another element.",
 ["inputs"],"every document containing attribute groups",
 "Attachment depends on the surrounding token and block structure, including groups spanning lines and containers; tests sample about 60 cases.",
 [L,B,I,A],[("inline attachment","src/inline.rs Parser::ahead_attributes"),("block attachment","src/lib.rs Parser::block")])
p("C12","Heading identifiers and sections",
 "For every document, each heading gets its explicit id attribute if it has one, else a non-empty identifier generated from its text (runs of whitespace become hyphens, punctuation other than hyphen and underscore dropped), made unique among the generated identifiers of the document by a numeric suffix. Each top-level heading opens a section carrying that identifier, closed before the next heading of equal or higher rank, so that section nesting mirrors heading levels; headings inside other containers open none.",
 ["inputs"],"every document with headings",
 "Uniqueness and nesting are whole-document properties over every combination of levels and texts; tests check a few documents.",
 [L,B],[("identifier generation","src/lib.rs PrePass::new"),("sections","src/block.rs TreeParser")])
p("C13","Reference links and images resolve to their definitions",
 "For every document, a reference link or image whose label (explicit, or its own text if the label is empty) equals a link definition's label or a heading's text anywhere in the document has that definition's url or that heading's fragment as target and carries the definition's attributes, its own attributes taking precedence; one without a match is marked unresolved, with its label as target. Definitions win over headings, are found independent of whether they come before or after their use, and produce no visible output.",
 ["inputs"],"every document with references and definitions",
 "Resolution ranges over all pairs of labels and definitions in the document; tests check a handful.",
 [L,B,I],[("definition collection","src/lib.rs PrePass"),("resolution","src/lib.rs Parser::inline"),("definition syntax","src/block.rs IdentifiedBlock")])
p("C14","Footnotes are numbered in order of first reference and linked both ways",
 "For every document, distinct referenced footnote labels are numbered 1, 2, 3, ... in order of first reference (references inside footnotes come after those of the body), each reference links to its note and each note appears exactly once, in numeric order, in one final section with a link back to its reference. An unreferenced definition is not rendered, a referenced label without definition gets an empty note, and a document without references has no such section.",
 ["inputs"],"every document with footnotes",
 "Numbering depends on the order of all references and definitions, including nested ones; tests cover a dozen documents.",
 [L,B,I,H],[("numbering and epilogue","src/html.rs Footnotes"),("definition syntax","src/block.rs"),("reference syntax","src/inline.rs")])
p("C15","List markers decide list kind, numbering, style and start",
 "For every item marker, the list kind is the documented one: the bullet character, task box, description marker, or an ordered list with decimal, alphabetic or roman numbering in lower or upper case, with period, parenthesis or double parenthesis style, and the start value is the value of the first marker, whatever its size (capped, never wrapped). Ambiguous single letters follow the documented rule, a marker of a different kind starts a new list, and the public conversions between bullet types and characters are inverse to each other.",
 ["inputs"],"every marker string",
 "Numbers, numerals and alphabets form an unbounded family; tests include only small ones.",
 [L,B,H],[("numbering","src/lib.rs OrderedListNumbering::parse_number"),("marker recognition","src/block.rs maybe_ordered_list_item, IdentifiedBlock"),("continuation","src/block.rs ListType::continues")])
p("C16","List structure, nesting and tightness",
 "For every document, each list groups exactly the consecutive items of one kind at one indentation, deeper-indented blocks belong to the item above them, and less-indented ones end it. A list is tight unless a blank line separates two of its items or two blocks inside one of its items (blocks of nested lists and blank lines at the end of a nested list do not count), and this is independent of the tightness of lists nested in or around it. Not specified: a list where a blank line comes only before its very last block, which is not an item.",
 ["inputs"],"every document with lists",
 "Tightness is decided retroactively from blank lines at any depth; tests sample a few dozen shapes.",
 [B],[("open list bookkeeping","src/block.rs TreeParser (open lists, tight flag)")])
p("C17","Verbatim, math, raw and code content is literal",
 "For every content string not containing the closing delimiter, and delimiters of at most 255 characters, text inside a verbatim, inline math or raw span, or inside a fenced code or raw block, appears in the events and the output character for character: no markup, escape, smart punctuation or attribute inside it is interpreted. Only the delimiters, the line-leading container markers and indentation up to that of the fence, and the blanks between a verbatim's delimiter and a backtick next to it are removed, and the span or block ends at the first matching delimiter or the end of its container.",
 ["inputs"],"every content string x delimiter length",
 "The content is arbitrary text; tests use a few words.",
 [B,I,L],[("verbatim","src/inline.rs parse_verbatim"),("fences","src/block.rs MeteredBlock/Kind fenced"),("code indentation","src/lib.rs Parser")])
p("C18","Tables: rows, cells, header and alignment",
 "For every table, each line that begins and ends with an unescaped pipe outside verbatim text yields one row with exactly the cells between consecutive such pipes, trimmed; separator lines yield no row, make the row directly above a header and set the alignment, by their colons, of each column until the next separator. Cells keep the alignment of their column index, a following caption becomes the table's first child, and a line failing the row syntax is not part of the table.",
 ["inputs"],"every table source",
 "Cell contents and pipe placement are arbitrary; tests use small fixed tables.",
 [B,I,L],[("rows and alignment","src/block.rs TreeParser table"),("cell splitting","src/block.rs / inline verbatim handling")])
p("C19","Smart punctuation, escapes, symbols and breaks",
 "For every text, three dots become one ellipsis, a run of hyphens becomes em and en dashes covering exactly its length by the documented rule, and straight quotes become paired left and right quotes (or apostrophes) according to adjacency and explicit braces. A backslash before ASCII punctuation yields that character literally, before a space a non-breaking space, at a line end (also with blanks between) a hard break, and is literal before anything else; :alias: forms a symbol, a line end inside a paragraph is a soft break, and the indentation of paragraph lines is dropped.",
 ["inputs"],"every text",
 "Runs of any length and any adjacency; tests use a dozen snippets.",
 [I,X,L],[("lexer","src/lex.rs"),("smart punctuation","src/inline.rs Parser")])
p("C20","Inline delimiters match by the documented rules",
 "For every paragraph, emphasis, strong, superscript, subscript, mark, insert, delete and span containers are formed exactly as the documented matching rules say: an opener is not followed by whitespace, a closer is not preceded by it, braces force the role, the closer matches the most recent compatible opener, unmatched delimiters are literal text, and openers in between are closed over. Nothing else in the paragraph changes: the visible text of the events equals the source minus the matched delimiters.",
 ["inputs"],"every sequence of delimiters and text",
 "Matching is a global property of delimiter sequences; tests sample about a hundred short ones.",
 [I,X],[("opener stack","src/inline.rs Parser openers"),("parse_container","src/inline.rs")])
p("C21","Links, images, autolinks and spans",
 "For every text, a bracketed text directly followed by a parenthesised destination, a bracketed label or an attribute group forms a link, reference link or span (an image when preceded by an exclamation mark), with balanced brackets; the destination extends to the next closing parenthesis outside of inline constructs nested in it, as written and joined over line breaks; otherwise the brackets are literal. Text in angle brackets forms an autolink exactly if it has no whitespace and contains a colon (url) or an at sign (email).",
 ["inputs"],"every text with brackets",
 "Bracket and destination contents are arbitrary; tests cover a few dozen.",
 [I,L],[("link containers","src/inline.rs parse_container, Opener::Link"),("autolink","src/inline.rs parse_autolink")])
p("C22","Each block is recognised by its documented opening syntax only",
 "For every line at the start of a block, the kind of block that begins (paragraph, heading with its level, quote, list item, fenced code, raw block, div with its class, table row, thematic break, footnote, link definition, block attributes, description) follows from the documented opening syntax, regardless of its content after the marker. Only the documented blocks can be ended by a non-blank line: paragraphs continue over lines that would otherwise start a block, headings, quotes, list items and footnotes continue lazily over lines of plain text, and fenced blocks and divs end exactly at a closing fence of the same character and at least the same length.",
 ["inputs"],"every line x every preceding block",
 "Recognition ranges over all strings of markers, lengths and spaces; tests sample some 200 lines.",
 [B],[("IdentifiedBlock::new","src/block.rs"),("MeteredBlock","src/block.rs"),("Kind::continues","src/block.rs")])
p("C23","Containers are transparent: nested content parses as it would alone",
 "For every document, wrapping it in a block quote, a div, a list item, a footnote or a description yields the container around the same events the document yields on its own (up to sections and the tightness of lists). Excepted are a first line that forms another block together with the marker before it, and a bullet without content on the last line. Paragraphs separated by a blank line parse independently, and the events do not depend on a missing final line break for text without code.",
 ["inputs"],"every document x every container kind",
 "A relation between two runs for all documents; tests never compare runs.",
 [B,I,L],[("container stripping","src/block.rs Kind::continues"),("inline input feeding","src/lib.rs Parser::inline")])
p("C24","Parsing is deterministic and iterators behave like values",
 "For every input, parsing twice gives equal events, a parser cloned at any point yields the same remaining events as the original (with their ranges, if it is turned into an offset iterator then), and an exhausted parser keeps returning nothing. Comparing, cloning and formatting events never changes them, and borrowed text in events points into the source.",
 ["inputs","histories"],"every input x every clone point",
 "Clone points and inputs are unbounded; no test clones a parser midway.",
 [L,B,I],[("Parser state","src/lib.rs Parser")])
p("C25","Hash-map and ordered-map builds agree",
 "For every input, the build with the default hash map and the build with the deterministic feature produce identical events, source ranges and HTML, and neither depends on the random keys of the hash maps.",
 ["inputs","configurations"],"every input x both builds x hash keys",
 "The hash keys are drawn from the operating system on each run; tests run one build.",
 [L,H],[("cfg deterministic","src/lib.rs / src/html.rs Map aliases")])
p("C26","The work grows in proportion to repeated documents",
 "For every document, parsing and rendering n copies of it separated by blank lines takes time proportional to n (up to logarithmic factors), provided that the copies do not nest within each other: no block, identifier, reference, footnote or attribute makes the work for later ones grow with the number of earlier ones. Repeating any text whatsoever, also inline markup left open within one paragraph, takes at most quadratic time.",
 ["inputs"],"every document or text to repeat x every number of copies",
 "Growth shows with many copies of specific constructs only; the tests parse each of their small inputs once.",
 [L,B,I,H],[("heading identifiers","src/lib.rs PrePass::new"),("bounded look-ahead","src/inline.rs, src/block.rs"),("opener stack","src/inline.rs parse_container")])
p("C27","The command line tool converts its input faithfully or fails",
 "For every input and every combination and form of options, the command line tool writes exactly the library's rendering of the input with these options to standard output or the output file, replacing its previous content, and exits with success, however reads and writes are split up or interrupted. Input that cannot be opened, cannot be read completely or is not UTF-8, invalid arguments, an output file that cannot be created and output that cannot be written completely yield a message and a failing status; nothing is written to standard output for input that was not read completely.",
 ["inputs","fault_sequences","configurations"],"every input x options x I/O failure and its position",
 "I/O failures are not injected by tests, which do not run the tool at all.",
 ["src/main.rs"],[("main","src/main.rs"),("write adapter","src/lib.rs Render::write_event")],observe=["process exit status, standard output, standard error and output file"])
p("C28","Rendering maps every well-formed event stream, also edited or hand-made",
 "For every well-formed stream of events that respects the content model, whether produced by the parser, changed afterwards (elements removed, unwrapped, repeated or replaced; texts, targets, classes, languages and attributes changed; events without output inserted) or made by hand, with or without the document container, the renderer writes in every layout exactly the documented element mapping of that stream: everything opened is closed, all texts but raw html are escaped, footnotes are numbered and placed at the end of the document. A renderer used for several complete documents renders each of them as a new renderer would.",
 ["inputs","histories"],"every event stream x layout",
 "Filters and hand-made events are a documented use, the tests render what the parser produces (one example edits links); the combinations of containers and texts are unbounded.",
 [H],[("renderer state","src/html.rs Renderer"),("escaping","src/html.rs write_escape"),("footnotes","src/html.rs Footnotes")])
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+"\n")
