TESTS = "the 130 fixture pages of the test suite sample single, well-behaved documents"
WIP = "the check is under construction"

prop("C01", "Any input is answered: no crash, no hang",
 "For every source text, document URI and combination of options, New, Parse and IsProbablyReaderable return to the caller: they never panic, overflow the stack, loop forever or need time or memory out of proportion to the size of the document. A failure is reported as an error value.",
 ["inputs", "configurations"], "every byte sequence as the document, every URI, every option value, including malformed and hostile ones (deep nesting, unterminated markup, odd JSON-LD, odd styles and attributes)",
 TESTS + "; none of them is malformed, empty in odd places or deeply nested, and a panic needs one specific malformed input",
 [R, D, E, O, U], [("New / Parse / IsProbablyReaderable", "readability.go, readerable.go"), ("tokenizer and tree builder", "domparser.go"), ("JSON-LD type guards", "readability.go getJSONLD"), ("attempt loop", "readability.go grabArticle")],
 ENUM + " in watched worker processes (panic, stack, time and memory monitor)", "exploration",
 "Every document over a token alphabet up to length 3 (4 thorough), every attribute x value, every JSON-LD shape, every single edit of a page, every option combination, nestings to 20,000 levels. Trusts the Go runtime and the watchdog limits (60 s, 3 GB).")

prop("C02", "Parse fails only for the documented reasons, and then with no result",
 "New fails exactly when the source is empty or holds no body. Parse fails exactly when the document has more elements than a positive MaxElemsToParse, or when no content at all can be extracted from it; it returns either a non-nil result and no error, or an error and no result, never both or neither.",
 ["inputs", "configurations"], "every document, element limit and positive character threshold",
 "the tests check one element limit and a few documents; the exact boundary and the either-or contract must hold for all of them",
 [R, O, D], [("element limit", "readability.go Parse"), ("no content found", "readability.go grabArticle")],
 ENUM + " against a model of the outcome", "model_checking",
 "All documents of up to 3 (4) building blocks x frames x thresholds; limits around the exact element count. Thresholds below 1 are outside the claim.")

prop("C03", "The fields of a result agree with each other",
 "TextContent is the text of the document fragment in HTMLContent, Length is the number of characters of TextContent, and the excerpt is the description of the page or, without one, the trimmed text of the first paragraph of the content. HTMLContent is what the configured serializer makes of the content element, and TextContent what the configured text function makes of HTMLContent.",
 ["inputs", "configurations"], "every document which yields a result, every serializer and text function",
 "the fixtures compare the content with a recorded file; nothing relates the fields to each other for other pages",
 [R, D, O, U], [("result assembly", "readability.go Parse"), ("Html2Text default", "options.go"), ("serializer", "domparser.go GetInnerHTML")],
 ENUM + "; fields compared through an independent tokenizer", "exploration",
 "All sequences of up to 3 (4) content blocks x metadata x callbacks; golang.org/x/net/html is trusted as the independent reader.")

prop("C04", "Nothing active or interactive is left in the content",
 "The returned content, read by a conforming HTML parser with or without scripting, holds no script or style element, no form control (input, textarea, select, button), no object, embed or iframe other than allowed videos, no footer, aside or link element, and no link with a javascript: address. This holds whatever the page, the pass that was needed, and the way the markup is nested or written.",
 ["inputs", "configurations"], "every document and every place, spelling and nesting of the unwanted constructs, in every retry pass",
 "the fixtures have the usual spellings in the usual places; an escape needs one odd spelling or place",
 [R, D, X], [("clean / removeScripts / prepArticle", "readability.go"), ("fixRelativeUris (javascript: links)", "readability.go"), ("serializer escaping", "domparser.go")],
 ENUM + "; the output is re-read by a conforming parser", "exploration",
 "Every unwanted construct (and pair, and nesting) x every place x frames which need 1 to 4 passes. golang.org/x/net/html is trusted as a browser stand-in.")

prop("C05", "Hidden text does not appear in the extracted article",
 "An element hidden by an inline display:none or visibility:hidden style, by the hidden attribute or by aria-hidden=true (fallback images excepted) contributes nothing to HTMLContent, TextContent or the excerpt taken from them, and neither do its descendants. Hidden text stays out wherever it stands, however the style is written, and whichever pass produced the result.",
 ["inputs"], "every way to hide, every kind of element, every place in the page, every pass",
 "two or three fixtures hide an element; passes, elements and spellings combine into far more cases",
 [R, X], [("isProbablyVisible", "readability.go"), ("grabArticle node loop", "readability.go")],
 ENUM + " with unique marker words", "exploration",
 "Every way of hiding x element kind x place x frames which need 1 to 4 passes, plus pairs and nestings. The html and body elements themselves being hidden is outside the claim.")

prop("C06", "Text is never invented, duplicated or reordered",
 "Every word of the returned content comes from the text of the page, in the order of the page, and no more often than it occurs there: extraction only removes. The same holds for attribute-free text such as code, entities and preformatted blocks.",
 ["inputs", "configurations"], "every document, threshold and option set",
 "the fixtures compare with recorded outputs; moving, merging and unwrapping of nodes interact in ways only other documents show",
 [R, D], [("grabArticle sibling joining", "readability.go"), ("setNodeTag, replaceBrs, simplifyNestedElements", "readability.go"), ("AppendChild, ReplaceChild, RemoveChild", "domparser.go")],
 ENUM + " with globally distinct words", "exploration",
 "All sequences of up to 3 (4) blocks, containers in containers and mined element names, at thresholds that select each pass.")

prop("C07", "The article is kept whole and the page furniture is dropped",
 "On a page whose article is a run of ordinary prose paragraphs above the character threshold, every paragraph of that article is in the result, complete and in order, whatever container holds it. Menus, link lists, sidebars, comments, share bars, forms, pop-ups, footers and other boilerplate marked as such by element, class, id or role, around or among the paragraphs, are not.",
 ["inputs"], "every arrangement of containers, article shapes and boilerplate blocks",
 TESTS + "; the pairwise combinations of container, neighbour and inserted block are not covered",
 [R, X], [("grabArticle scoring", "readability.go"), ("cleanConditionally", "readability.go"), ("unlikelyCandidates / negative patterns", "regexps.go")],
 ENUM + " with marker words for article and clutter", "exploration",
 "13 containers x 30 outer and 25 inner clutter blocks x 15 article shapes, pairs of each, lengths around the thresholds.")

prop("C08", "The character threshold steers the retries",
 "Parse relaxes its filters step by step until the text it extracts has at least CharThreshold characters (not bytes), and returns the first, that is the strictest, result that does. When no pass reaches the threshold the longest non-empty text found is returned, and an article that the first pass finds in full is not affected by lowering the threshold.",
 ["inputs", "configurations"], "every document and every positive threshold",
 "the tests use the default threshold and one other value; the step function over all thresholds is never observed",
 [R, O], [("attempt loop and flags", "readability.go grabArticle"), ("CharThreshold", "options.go")],
 "explicit-state exploration of the threshold/pass step function, replayed on the real code", "model_checking",
 "For every page of up to 3 (4) blocks in 4 frames all steps of the function threshold -> result are explored from 1 to the end.",
 state=[("flags", "filters still active", "Readability.flags"), ("attempts", "passes which were too short", "Readability.attempts")])

prop("C09", "Addresses in the content are absolute and mean the same",
 "Every href of a link and every src, poster and srcset entry of an image or media element of the content is absolute, and equals the address that URL resolution (RFC 3986) gives for the original against the base of the page: its base element, itself resolved against the document URI, or else the document URI. Fragment-only links of a page without a different base, blank values and unparsable addresses are left as they are, and descriptors of a srcset keep their address.",
 ["inputs", "configurations"], "every reference, base element and document URI",
 "the unit tests resolve a dozen hand-picked pairs of base and reference",
 [R, D], [("fixRelativeUris", "readability.go"), ("getBaseURI", "domparser.go")],
 ENUM + " against net/url resolution", "exploration",
 "Every reference of the grammar (scheme, authority, path, query, fragment parts) x base elements x document URIs x attributes; net/url is the oracle, compared by components.")

prop("C10", "Metadata fields follow the documented order of sources",
 "Title, byline, excerpt, site name and publication time come from the highest-ranked source the page has: JSON-LD, then the Dublin Core, Open Graph, Weibo, plain and Twitter meta tags in that order, and only then the page itself. Values are trimmed and have their character references decoded, whatever the case, spelling (name or property, dot or colon) and order of the tags; empty tags do not count, and of several tags for the same key the last one does.",
 ["inputs"], "every subset, order and spelling of the metadata tags of a page",
 TESTS + " with one combination of tags each; the precedence among all subsets is not covered",
 [R, X], [("getArticleMetadata", "readability.go"), ("namePattern, propertyPattern", "regexps.go"), ("Parse", "readability.go")],
 "explicit-state enumeration of tag subsets and orders against a precedence model", "model_checking",
 "All subsets of the ranked sources of each field, spellings, ordered pairs, blanks and references.")

prop("C11", "JSON-LD is used exactly when it describes an article",
 "JSON-LD metadata is taken from the first script of type application/ld+json that is valid JSON with a Schema.org context and an article type, also inside a @graph and with CDATA markers, and from no other script; fields of an unexpected type are ignored one by one, never the whole page. With DisableJSONLD none of it reaches the result.",
 ["inputs", "configurations"], "every JSON value as content of the script and of each of its fields, every number and order of scripts",
 "the unit tests have a few well-formed objects; type confusion needs one odd field",
 [R, O], [("getJSONLD", "readability.go"), ("DisableJSONLD", "options.go")],
 "explicit-state enumeration of JSON-LD shapes against a reference model", "model_checking",
 "All contexts x types x field shapes x wrappings, pairs of scripts, with the option on and off.")

prop("C12", "The title is derived from the title element as documented",
 "Without title metadata the title is that of the document: when it holds a spaced separator (| - \\ / > »), the part before the last one, or what follows the first one if fewer than two words remain; for other titles with a colon, the part after the last colon (after the first if that is too short) unless an h1 or h2 equals the whole title or more than five words precede the first colon; a single h1 when the document title is shorter than 15 or longer than 150 characters. If that leaves four words or fewer the whole document title is used, unless the separators are hierarchical (\\ / > ») and exactly one word was cut.",
 ["inputs"], "every title made of words and separators, every set of headings",
 TESTS + "; the rules interact (separator kind x word counts x headings)",
 [R, X], [("getArticleTitle", "readability.go"), ("title separators", "regexps.go")],
 "explicit-state enumeration of titles against a reference model", "model_checking",
 "All titles of up to 6 (7) symbols over words, separators and colons x heading sets.")

prop("C13", "Presentation is stripped, classes kept only on request",
 "No element of the content outside of svg has a style or a presentational attribute (align, background, bgcolor, border, cellpadding, cellspacing, frame, hspace, rules, valign, vspace), nor a width or height on tables, cells, rules and preformatted blocks; other attributes are kept with their values. Without KeepClasses only the classes listed in ClassesToPreserve (and the library's own page class) remain, in order; with it, all of them do.",
 ["inputs", "configurations"], "every element, attribute, class list and preserve list",
 "the fixtures use two fixed class settings",
 [R, O], [("cleanStyles, cleanClasses", "readability.go"), ("ClassesToPreserve, KeepClasses", "options.go")],
 ENUM + " with marker attributes", "exploration",
 "Every attribute x element x place x options, class lists up to 3 names x preserve lists.")

prop("C14", "Instances are independent of each other and of earlier use",
 "The result for a document depends on nothing but that document, its URI and its options: not on other instances, on the options given to them, on earlier calls, or on what other goroutines are parsing at the same time. Concurrent use of separate instances is free of data races.",
 ["schedules", "histories", "configurations"], "every history of constructions and parses in one process, every interleaving of goroutines with separate instances",
 "the tests run one parse after another and never look at an interleaving",
 [R, E, O, X, D], [("package-level defaults", "readability.go, options.go, regexps.go"), ("per-instance options", "options.go defaultOpts")],
 "stateless exploration of histories and of bounded-preemption interleavings under a controlled scheduler", "model_checking",
 "All histories up to length 4 over a set of jobs; all schedules with a bounded number of preemptions at accesses to shared package state of the instrumented real code.")

prop("C15", "The document tree stays well formed under every edit",
 "After any sequence of appending, replacing, removing and inserting markup through the node methods the library hands to a serializer, the tree is consistent: parents, children, element children, first, last, next and previous siblings agree, attached nodes have one parent, and the serialized markup lists the nodes in that order. Markup that is parsed yields the tree the markup describes.",
 ["histories", "inputs"], "every sequence of tree operations, every well-formed markup",
 "the unit tests apply each operation once on one small tree",
 [D], [("AppendChild, RemoveChild, ReplaceChild", "domparser.go"), ("SetInnerHTML", "domparser.go"), ("tree builder", "domparser.go")],
 "explicit-state BFS over operation sequences, model and real tree in lockstep", "model_checking",
 "All operation sequences up to a depth over small trees; every link of every node compared with the model after each step.",
 observe=["Serializer option (root node)", "Node methods"])

prop("C16", "Text and attributes survive the round trip through markup",
 "Text and attribute values of the page reach TextContent, HTMLContent and the attributes of the content with the same characters: character references are decoded once, and the markup is written so that any HTML reader gets the original characters back. No text turns into markup on the way.",
 ["inputs"], "every sequence of characters, references and markup-like text in text and attribute position",
 "the unit tests decode a handful of entities",
 [D, U], [("encodeTextContentHTML, encodeHTML, decodeHTML", "domparser.go")],
 ENUM + " against a decoding model, re-read by a conforming parser", "exploration",
 "All sequences of up to 4 (5) pieces of text over an alphabet of references, special characters and near misses.")

prop("C17", "IsProbablyReaderable follows its score",
 "IsProbablyReaderable is true exactly when the square roots of the lengths beyond the minimal content length, summed over the paragraphs (outside of list items), preformatted blocks, articles and divs with direct line breaks which are not hidden themselves and not unlikely by class or id, exceed the minimal score. Lengths are those of the trimmed text in characters, each node counts once, and raising the minimal score or content length never turns false into true.",
 ["inputs", "configurations"], "every document, minimal length, minimal score and visibility checker",
 "the tests compare the default answer of the fixture pages and a few lengths",
 [E, O, X], [("IsProbablyReaderable", "readerable.go"), ("isNodeVisible", "readerable.go")],
 "explicit-state enumeration against a score model", "model_checking",
 "All documents of up to 3 (4) blocks x nestings x option values around the exact score.")

prop("C18", "Lazy and noscript images end up with a usable source",
 "An image of the content whose real address (that of a jpg, jpeg, png or webp file) is in a lazy-loading attribute, in a noscript fallback next to it, or replaced by a tiny base64 placeholder ends up with that address as its src or srcset; an image with a proper address keeps it. Images without any address are dropped, those of hidden noscripts do not duplicate text.",
 ["inputs"], "every combination of placeholder, lazy attribute, fallback and wrapper",
 "the fixtures show a few publishers' schemes",
 [R, X], [("fixLazyImages", "readability.go"), ("unwrapNoscriptImages", "readability.go")],
 ENUM + " against a model of the expected source", "exploration",
 "All combinations of image markup, lazy attributes, fallbacks and wrappers.")

prop("C19", "Chains of line breaks become paragraphs",
 "Two or more consecutive br elements, with nothing but blanks between them, act as a paragraph break: they disappear, and the inline content after them, up to the next break chain or block, becomes a paragraph; a single br stays. No text is lost or joined across the break.",
 ["inputs"], "every sequence of text, inline elements, line breaks and blocks",
 "the fixtures have a few such chains",
 [R], [("replaceBrs", "readability.go"), ("prepArticle", "readability.go")],
 "explicit-state enumeration against a model of paragraph grouping", "model_checking",
 "All sequences of up to 6 (7) symbols over text, inline elements, blanks, br and blocks.")

prop("C20", "Allowed videos survive, other embeds do not",
 "An iframe, embed or object of the content is kept exactly when one of its attributes (or, for an object, its markup) matches the allowed-video pattern, by default that of the known video hosts and otherwise the one given to AllowedVideoRegex. It is kept with its address, and the paragraph that holds nothing else is kept with it.",
 ["inputs", "configurations"], "every embed, attribute, address and pattern",
 "one fixture has a custom pattern, a few have youtube",
 [R, O, X], [("clean", "readability.go"), ("cleanConditionally", "readability.go"), ("AllowedVideoRegex", "options.go")],
 ENUM + " against a model", "exploration",
 "All embeds x attributes x hosts x patterns x places.")

prop("C21", "The command line tool reports every failure and prints only the article",
 "The command prints the extracted article of the given address in the requested format, text or html, and exits 0; its links are relative to the address the page was finally read from. A missing or malformed argument, an unreachable server, a body cut short, a page that cannot be read or an output that cannot be written ends with a message and a non-zero exit status, never with a partial article and success. It ends once the server has answered or hung up.",
 ["inputs", "fault_sequences"], "every combination of arguments, every fault and cut point of the server's answer",
 "the command has no tests",
 [C], [("main", "cmd/readability/readability.go")],
 "fault enumeration: the built command against a loopback server with every fault point", "fault_enumeration",
 "All argument vectors of a small alphabet, server faults at every stage and cut points of the body.")

prop("C22", "Byline, language and direction come from the right place",
 "Without byline metadata the byline is the trimmed text of the first visible element marked as author (rel=author, itemprop author, or a byline-like class or id) of fewer than 100 characters, and that element is then not in the content (of an article the first pass finds); with metadata the metadata wins. Lang is the lang attribute of the html element, and Dir the dir attribute of the container of the extracted content, else of the content element itself, else of its nearest ancestor with one.",
 ["inputs"], "every marking and place of the byline, every position of lang and dir",
 "the fixtures have one byline each",
 [R, X], [("checkByline", "readability.go"), ("articleDir, articleLang", "readability.go")],
 ENUM + " against a model", "exploration",
 "All bylines x places x lengths x metadata; dir and lang on every ancestor combination.")

prop("C23", "Data tables survive, layout tables are unwrapped",
 "A table in the article is data when it has a summary, a caption with text, column groups, a head, a foot or header cells, or else ten rows, more than four columns or more than ten cells by its rows and columns (spans counted) and no table inside of it; the presentation role or datatable=0 makes it layout whatever else it has. A data table keeps all of its rows and cells with what is in them, however few words and however many links these are; a layout table is judged by its content like any other block. A single-cell table is replaced by its content: a paragraph when it is inline, a div otherwise.",
 ["inputs"], "every table shape, marking and cell content",
 "the fixtures have a few tables",
 [R], [("markDataTables", "readability.go"), ("prepArticle single-cell tables", "readability.go"), ("getRowAndColumnCount", "readability.go")],
 ENUM + " against a model", "exploration",
 "All tables up to 12 x 7 cells x markings x cell contents x spans.")

REFMODEL = "explicit-state enumeration of pages against an executable reference model of the algorithm, every model trace replayed on the code"
prop("C24", "The article is the best-scoring part of the page, with its related siblings",
 "The extracted content is the element of the page with the highest content score, together with those of its siblings that belong to it. Sections, headings 2 to 6, paragraphs, table cells, preformatted blocks and paragraph-like divs of at least 25 characters give one point, one per comma-separated piece and one per full 100 characters up to three; the parent gets all of them, the grandparent half, the ancestor n levels above that a (3n)th, down to the fifth. An element starts with points of its tag (div +5; pre, td, blockquote +3; lists, forms, address -3; headings and th -5) and +25/-25 for a positive or negative class and id, and its score is scaled by the share of text outside of links. The best is moved to a common ancestor of at least three candidates within 75 %, to a parent that scores better, and to the parent of an only child. Siblings join whose score (plus 20 % for the same class) is at least 10 and a fifth of the best, as do sibling paragraphs of more than 80 characters with under 25 % links, and shorter ones without links which hold a full sentence.",
 ["inputs", "configurations"], "every arrangement of scored and unscored elements, classes, links, commas and lengths around each limit",
 "the fixtures fix the outcome of 130 pages with clear winners; ties, limits and the interplay of the scoring rules are not sampled",
 [R, X], [("scoring loop, candidates, sibling joining", "readability.go grabArticle"), ("initializeNode, getClassWeight, getLinkDensity", "readability.go"), ("positive / negative patterns", "regexps.go")],
 REFMODEL, "model_checking",
 "All block sequences up to 3 (4), nestings, chains of ancestors and lengths around every limit; the reference model (mc/ref.go) is trusted as the reading of the rules, and is bound to the code by comparing content, byline and direction on every page explored.")

prop("C25", "Blocks that look like anything but content are removed, all others kept",
 "Of the forms, fieldsets, tables, lists and divs in the extracted article exactly the fishy ones are removed, with all they hold: those of negative class weight, and those with fewer than ten commas which have too many images per paragraph (outside figures), more list items than paragraphs, too many inputs, next to no text, too many links for their weight (over 20 %, or over 50 % from weight 25), or embeds with little text. Data tables and all inside of them, code, blocks with an allowed video, and plain lists of images are exempt, headings of negative weight and short share blocks are removed. Everything else of the article stays.",
 ["inputs", "configurations"], "every block: kind, class, counts of paragraphs, images, list items, inputs, embeds and commas, text length and link density around each limit, and every place",
 "the fixtures hold blocks far from the limits; each limit, and each exemption, is one specific count",
 [R, X], [("cleanConditionally", "readability.go"), ("prepArticle, cleanMatchedNodes, cleanHeaders", "readability.go"), ("shareElements, videos patterns", "regexps.go")],
 REFMODEL, "model_checking",
 "Counts of every ingredient around its limit x kind of block x class x place, pairs of ingredients, nestings. The reference model is trusted as in C24.")

prop("C26", "The structure of the article is kept but for the documented simplifications",
 "Within the extracted article every element keeps its tag, attributes, order and nesting, except for these simplifications: a run of inline content directly in a div beside blocks becomes a paragraph, a div with inline content only becomes a paragraph, a div around a single paragraph becomes that paragraph, divs and sections which only wrap another div or section are merged with it (the outer attributes win), empty paragraphs, divs, sections and headings go, a br before a paragraph goes, h1 becomes h2, font becomes span, and a single-cell table becomes its content. The first h1 or h2 which repeats the title (more than three quarters of its words) is dropped, every other heading stays.",
 ["inputs"], "every sequence and nesting of inline and block elements, wrappers, empty elements, headings and titles",
 "the fixtures sample the structures of some publishers; what is grouped, merged or dropped depends on the exact neighbours of each node",
 [R, D], [("grabArticle div handling", "readability.go"), ("simplifyNestedElements, isElementWithoutContent, hasSingleTagInsideElement, isPhrasingContent", "readability.go"), ("headerDuplicatesTitle, textSimilarity", "readability.go"), ("prepArticle", "readability.go")],
 REFMODEL, "model_checking",
 "Sequences of up to 4 items (22 kinds), inline runs of 5 (7), wrapper chains of 3 (4), empty elements, 80 element names x content x place, nestings of three, titles x headings. The reference model is trusted as in C24.")
