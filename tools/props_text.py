prop("C01", "nth position selectors select exactly the positions of the form a*k+b",
 "For every expression an+b (any digits and signs, odd, even, surrounding spaces) and every sibling list, :nth-child, :nth-last-child, :nth-of-type and :nth-last-of-type select exactly the elements whose 1-based position counted from the stated end, among all siblings or among those of the same tag, equals a*k+b for some k >= 0. The result is the same whether the selector is used to search descendants, to filter a set or to choose children, and is in document order. No such expression makes the library panic.",
 ["inputs"], "all coefficients a, b and signs, all sibling lists (number, tags, nesting, interleaved text), all entry points (find, filter, children)",
 "The tests evaluate about a dozen fixed expressions on fixed lists; the arithmetic (rounding, negative coefficients, empty ranges) has a different case for nearly every (a, b, n).",
 ["src/mesdoc/selector/pattern.rs", "src/mesdoc/rules/pseudo.rs", "src/mesdoc/utils.rs"],
 [("Nth pattern and allowed index computation", "src/mesdoc/selector/pattern.rs Nth"), ("nth handlers", "src/mesdoc/rules/pseudo.rs make_asc_or_desc_nth_*"), ("signed division", "src/mesdoc/utils.rs divide_isize")],
 ["Elements::find", "Elements::filter", "Elements::children"])

prop("C02", "Tag and combinator searches return exactly the matching elements, in document order",
 "For every document tree and every selector group built from tag selectors, the universal selector and the combinators descendant, child (>), next sibling (+) and later siblings (~), find returns exactly the elements that match by the CSS definition (relative to the context: at least the first compound must lie below a context element), each once, in document order - whether it is called on the document or on a set of nested, overlapping or sibling context elements. Text and comments between elements never matter.",
 ["inputs"], "all tree shapes, tags and comma groups, all combinator sequences, all context sets",
 "The library rewrites the query (priority lookup, chain sorting, per-context caches and merging of several contexts), so a wrong answer needs a particular combination of tree shape, combinators and context; the tests use a few fixed documents.",
 ["src/mesdoc/interface/elements.rs", "src/mesdoc/selector/mod.rs"],
 [("query execution and the reverse lookup", "src/mesdoc/interface/elements.rs Elements::find, find_selector, select_with_comb, cached"), ("selector parsing and optimisation", "src/mesdoc/selector/mod.rs Selector::from_str, optimize"), ("merging in document order", "src/mesdoc/interface/elements.rs Elements::add, sort/unique helpers")],
 ["Elements::find"])

prop("C03", "Type, class, id and compound selectors match exactly",
 "Class selectors match whole, case-sensitive words of the class attribute separated by any white space; tag names match case-insensitively; ids match exactly. A compound selector matches exactly when all its parts match, in whatever order the parts are written, and the same elements are selected under every combinator and through find (from the document or from a set), filter and children.",
 ["inputs"], "all class attribute texts, ids and tags, all compounds, trees, combinators and entry points",
 "Class matching scans characters, id lookup uses the document id table instead of the tree, and parts are reordered by priority: each has its own corner cases (word boundaries, an id outside of the context, id as a later part).",
 ["src/mesdoc/rules/class.rs", "src/mesdoc/rules/id.rs", "src/mesdoc/rules/name.rs", "src/mesdoc/rules/all.rs", "src/mesdoc/interface/elements.rs", "src/lib.rs"],
 [("class rule", "src/mesdoc/rules/class.rs"), ("id rule and id table", "src/mesdoc/rules/id.rs, src/lib.rs get_element_by_id"), ("name rule", "src/mesdoc/rules/name.rs")],
 ["Elements::find", "Elements::filter", "Elements::children"])

prop("C04", "filter, not, is, is_all, has, closest and find agree on what a selector matches",
 "For every tree, every set of its elements and every selector (tags, combinators, groups, :not, :has, :empty and the child/type position pseudo classes): filter keeps exactly the elements of the set that find would select in the document, not keeps exactly the others, is tells whether one matches and is_all whether all match, has keeps exactly those with a matching descendant, and closest gives exactly the nearest matching element-or-ancestor of each, each once. All results are in document order.",
 ["inputs"], "all trees, all subsets of their elements, all selectors of the grammar",
 "Each entry point evaluates the selector in a different way (forwards, backwards, per sibling group, with and without a cache); only a few fixed cases of each are tested.",
 ["src/mesdoc/interface/elements.rs", "src/mesdoc/rules/pseudo.rs"],
 [("filter machinery", "src/mesdoc/interface/elements.rs filter_type_handle, match_one"), ("position pseudo classes", "src/mesdoc/rules/pseudo.rs"), ("closest/has", "src/mesdoc/interface/elements.rs")],
 ["Elements::filter", "Elements::not", "Elements::is", "Elements::is_all", "Elements::has", "Elements::closest", "Elements::find"])

prop("C05", "Attribute selectors follow their definition for every value",
 "[a], [a=v], [a^=v], [a$=v], [a*=v], [a~=v], [a|=v] and [a!=v] select exactly the elements for which the stated relation holds between the attribute's value and v, for every value (including empty, missing value, white space, quotes and brackets in it) and every v written bare or in either quote; an empty v with ^=, $=, *= or ~= selects nothing; attribute names compare case-insensitively and values case-sensitively; a missing attribute matches only !=. find and filter agree.",
 ["inputs"], "all attribute values, selector values, quotes and operators",
 "The comparisons are written by hand over characters, with separate length and boundary cases per operator; tests use a few fixed values.",
 ["src/mesdoc/rules/attr.rs", "src/mesdoc/selector/pattern.rs", "src/lib.rs"],
 [("attribute rule", "src/mesdoc/rules/attr.rs"), ("attribute lookup", "src/lib.rs get_attribute, has_attribute")],
 ["Elements::find", "Elements::filter"])

prop("C06", "Attributes behave as an ordered, case-insensitive map that survives serialisation",
 "For every sequence of set_attr and remove_attr calls on a set, attr, has_attr and the attribute list of each element agree with an ordered map with case-insensitive names in which the last value set wins, also relative to what was parsed; other elements and other attributes are not changed. Whatever characters a value contains (quotes, angle brackets, spaces, equals signs, line breaks), serialising the document and parsing it again gives the same elements with the same attributes: a value never turns into markup or into another attribute.",
 ["inputs", "histories"], "all attribute names and values, all sequences of changes within the bound, all ways of writing the initial attributes",
 "The result depends on the combination of how the attribute was written (no value, bare, either quote), what was changed before and which characters the new value has.",
 ["src/lib.rs", "src/mesdoc/interface/elements.rs"],
 [("attribute storage and its lower case map", "src/lib.rs set_attribute, remove_attribute, get_attribute"), ("quote choice and escaping", "src/lib.rs set_attribute")],
 ["Elements::set_attr", "Elements::remove_attr", "Elements::attr", "Elements::has_attr", "Elements::outer_html"])

prop("C07", "Class names behave as a set",
 "For every class attribute text and every argument (any number of names, in any order, separated by any white space): add_class makes exactly the given names present, remove_class makes exactly the given names absent, toggle_class flips exactly the given names, all on every element of the set and leaving the other names alone; has_class holds exactly when some element has all the given names. Class selectors and serialisation agree with the result.",
 ["inputs", "histories"], "all class attribute texts, all argument texts, all sequences of two operations",
 "Order of the names, repeated names, names that are prefixes of others and kinds of white space each take a different path; the tests use a few fixed strings.",
 ["src/mesdoc/interface/elements.rs", "src/mesdoc/utils.rs"],
 [("class list editing", "src/mesdoc/interface/elements.rs add_class, remove_class, toggle_class, has_class, get_class_list helpers"), ("class splitting", "src/mesdoc/utils.rs")],
 ["Elements::add_class", "Elements::remove_class", "Elements::toggle_class", "Elements::has_class"])

prop("C08", "After any sequence of mutations the document is exactly the tree the operations define",
 "For every document and every sequence of append, prepend, before, after, replace_with (and the *_to / insert_* forms), remove, empty, set_text and set_html on elements, and set_text, set_html, append_text, prepend_text and remove on text nodes: the resulting tree is exactly the one given by the DOM meaning of each operation. A moved node leaves its old place; sets and fragments are inserted in their order, and a fragment is empty afterwards; with several targets each but the last gets a copy; inserting a node into, next to or in place of itself or one of its own descendants changes nothing, nor does inserting next to an element without parent. After every step child lists, parents and indexes of all nodes agree with each other (also for handles taken before, and a removed node has no parent), searching gives the elements in document order and serialisation gives the tree.",
 ["histories", "inputs"], "all trees, all sequences of operations within the bound, all targets and arguments, handles of any age",
 "Tree links, indexes and ownership have to be kept in step by each operation for every relative position of source and target; the tests perform single operations at a few places and mostly look at counts.",
 ["src/lib.rs", "src/mesdoc/interface/elements.rs"],
 [("insertion, replacement and removal", "src/lib.rs insert_adjacent, replace_with, remove_child, reset_next_siblings_index"), ("content replacement", "src/lib.rs set_text, set_html"), ("text nodes", "src/lib.rs ITextTrait"), ("sets", "src/mesdoc/interface/elements.rs insert, replace, remove")],
 ["Elements::append", "Elements::prepend", "Elements::before", "Elements::after", "Elements::replace_with", "Elements::remove", "Elements::empty", "Elements::set_html", "Elements::set_text", "Elements::texts", "Elements::outer_html"])

prop("C09", "Html is read and written faithfully, and no html makes the library panic",
 "For every html string, loading it and reading the result (find, html, htmls, outer_html, outer_htmls, text, texts, attr, on the document and on its elements) returns without panic; a loaded document serialised by outer_html and loaded again has the same elements, attributes, texts and comments in the same places (attribute names that begin with an equal sign aside). For a document in canonical form, outer_html and html give back the source of the document and of each element, text gives its decoded texts without markup and comments, and htmls, outer_htmls and text of a set are the concatenation over its elements. set_html of an element, or of a text node, puts exactly the content there that loading the same string gives (for title, textarea, script and style: the text that loading them with that content gives), with correct parents and indexes, and changes nothing when loading rejects the string.",
 ["inputs"], "all html strings up to the bound, all documents of a few nodes of every kind",
 "Html comes from outside and is often malformed; the tests load well-formed pages and look at single values.",
 ["src/lib.rs", "src/mesdoc/interface/elements.rs"],
 [("parsing", "src/lib.rs parse_html, Vis::load"), ("serialisation", "src/lib.rs inner_html, outer_html, text_contents"), ("set_html", "src/lib.rs set_html"), ("sets", "src/mesdoc/interface/elements.rs html, htmls, outer_html, outer_htmls, text")],
 ["Vis::load", "Elements::html", "Elements::htmls", "Elements::outer_html", "Elements::outer_htmls", "Elements::text", "Elements::set_html", "ITextTrait::set_html"])

prop("C10", "Text set on a node is the text read from it, and never becomes markup",
 "For every string: after set_text on an element (ordinary, pre, title or textarea), or set_text, append_text or prepend_text on a text node (those of title, textarea, script and style included, emptied before or not), text() returns exactly the text that the operation defines, no element appears in the document, and - script and style, which cannot hold markup characters encoded, aside - serialising the document and parsing it again gives the same elements and the same text.",
 ["inputs"], "all strings over an alphabet of markup characters, entity parts, quotes, white space and letters up to the bound",
 "Markup injection and double decoding need particular character sequences (an ampersand before what looks like an entity); the tests set a few harmless strings.",
 ["src/lib.rs", "src/mesdoc/interface/elements.rs", "src/mesdoc/interface/texts.rs"],
 [("text encoding", "src/lib.rs set_text, set_html, encode"), ("text nodes", "src/lib.rs ITextTrait: set_text, append_text, prepend_text"), ("text reading", "src/lib.rs text_contents, text; rphtml decoding")],
 ["Elements::set_text", "Elements::text", "Texts", "ITextTrait::set_text", "ITextTrait::append_text", "ITextTrait::prepend_text", "Elements::outer_html"])

prop("C11", "Traversal methods return exactly the related elements, each once, in document order",
 "For every tree and every set of its elements, with and without a filter selector: children, parent, parents, next, next_all, prev, prev_all and siblings return exactly the elements in that relation to some element of the set that match the filter (with a filter of several compounds, as in children(\"ul > li\"), the first compound is taken in the relation and the rest leads on from there); next_until, prev_until and parents_until return exactly those before the first element that matches the stop selector (including it when contains is true). Every result is in document order without duplicates.",
 ["inputs"], "all trees, all subsets, all filters and stop selectors of the grammar",
 "Overlapping relations (two set elements that share siblings or ancestors, elements of the set nested in each other) need de-duplication and re-ordering that the fixed tests exercise in few combinations.",
 ["src/mesdoc/interface/elements.rs"],
 [("sibling and parent traversal", "src/mesdoc/interface/elements.rs select_with_comb, unique_sibling, unique_all_siblings, unique_parents"), ("until traversal", "src/mesdoc/interface/elements.rs next_until, prev_until, parents_until")],
 ["Elements::children", "Elements::parent", "Elements::parents", "Elements::next", "Elements::next_all", "Elements::prev", "Elements::prev_all", "Elements::siblings", "Elements::next_until", "Elements::prev_until", "Elements::parents_until"])

prop("C12", "Set operations on element sets are exact",
 "For every two sets of elements of a document, add gives their union (each element once, in document order), filter_in and not_in their intersection and difference, is_in and is_all_in tell whether they meet and whether the first lies in the second, and has_in keeps the elements with a descendant in the second set. eq, get, first, last, slice (with every kind of range and any bound, including empty and maximal ones), length and is_empty agree with the positions in the set, and none of them panics.",
 ["inputs"], "all pairs of subsets of all trees, all indexes and ranges",
 "Merging uses comparisons of tree positions from both ends; a wrong result needs a particular interleaving of the two sets.",
 ["src/mesdoc/interface/elements.rs"],
 [("ordered merge", "src/mesdoc/interface/elements.rs Elements::add, compare helpers"), ("set tests", "src/mesdoc/interface/elements.rs filter_in, not_in, is_in, is_all_in, has_in"), ("positions", "src/mesdoc/interface/elements.rs eq, get, first, last, slice")],
 ["Elements::add", "Elements::filter_in", "Elements::not_in", "Elements::is_in", "Elements::is_all_in", "Elements::has_in", "Elements::slice", "Elements::eq"])

prop("C13", "No selector string makes the library panic, and an invalid selector selects nothing",
 "For every string used as a selector in any selector-taking method, on a document, on a set or on an empty set, the call returns. A selector that is reported to the error handler as invalid selects and keeps nothing; an accepted one gives a result in document order without duplicates, find and filter accept the same selectors and agree on them, filter and not split the set, and is holds exactly when filter keeps something.",
 ["inputs"], "all selector strings within the length bounds, valid or not, in all entry points",
 "Selector strings can come from users; the space of malformed strings (unterminated brackets, quotes, nested selectors, odd characters, huge numbers) is far larger than the tested handful.",
 ["src/mesdoc/selector/mod.rs", "src/mesdoc/selector/pattern.rs", "src/mesdoc/rules/pseudo.rs", "src/mesdoc/rules/attr.rs", "src/mesdoc/interface/elements.rs"],
 [("selector parser", "src/mesdoc/selector/mod.rs from_str, parse_until"), ("patterns", "src/mesdoc/selector/pattern.rs"), ("error reporting", "src/mesdoc/interface/elements.rs trigger_method")],
 ["every selector-taking method of Elements"])

prop("C14", "A selector string means what the grammar says, and a wrong one is reported",
 "For every string made of selector tokens: when it is a selector by the CSS grammar (compounds of type, class, id, attribute, :empty and :not() parts, combinators with or without spaces around them, comma groups, leading, trailing and repeated spaces, nested :not()), every method accepts it without error and it matches exactly the elements that this reading matches. When it has no reading as a selector (an empty compound between combinators or commas, a trailing combinator or comma, unbalanced parentheses, unknown characters), every selector-taking method reports it to the error handler of the document and selects nothing; without a handler it just selects nothing. What the grammar leaves open (names run together, a leading combinator, an empty :not()) is answered the same way each time.",
 ["inputs"], "all sequences of selector tokens within the bound, all selector-taking methods",
 "Splitting the string into combinators and rules, and finding the end of nested selectors, is a hand-written scanner with state; the tests use a few well-formed selectors and a handful of wrong ones.",
 ["src/mesdoc/selector/mod.rs", "src/mesdoc/selector/pattern.rs", "src/mesdoc/selector/rule.rs", "src/mesdoc/interface/elements.rs"],
 [("selector parser", "src/mesdoc/selector/mod.rs Selector::parse, parse_until, optimize"), ("rule patterns", "src/mesdoc/selector/rule.rs, pattern.rs"), ("error reporting", "src/mesdoc/interface/elements.rs trigger_method, trigger_method_throw_error")],
 ["Elements::find", "Elements::filter", "Elements::not", "Elements::is", "Vis::load_catch"])

prop("C15", "Form values and :checked follow the form controls",
 "val() of a set is the value of its first element. For an input, option or button-like control it is the value attribute (empty when there is none), for a textarea its decoded text, for an element that is no control empty. For a select with multiple it is the list of the values of exactly the selected options, in order; for any other select it is the value of the first selected option at any depth of option groups, or else of its first option child, or else empty. :checked selects exactly the checked checkboxes and radios, the selected options, and the option that is the default of a select without multiple when none of its options is selected. Attribute changes count at once; names and input types compare without regard to case.",
 ["inputs", "histories"], "all selects with options and nested groups, all mixtures of controls, before and after a change",
 "The default option depends on every option at every depth of the groups before and after it; the tests have a few fixed selects.",
 ["src/lib.rs", "src/mesdoc/rules/pseudo.rs", "src/mesdoc/interface/elements.rs"],
 [("values", "src/lib.rs IElementTrait::value"), (":checked", "src/mesdoc/rules/pseudo.rs pseudo_checked")],
 ["Elements::val", "Elements::find", "Elements::filter"])

prop("C16", "Text node access gives exactly the text nodes asked for",
 "For every tree: texts(0) gives all text nodes below each element of the set (white space ones and those of title, textarea, script and style included, comments not), in document order element by element; texts(k) only those fewer than k levels below the element. texts_by calls the handler with the right depth and node for exactly these nodes and keeps those it accepts; texts_by_rec does not go into elements that its second handler refuses. for_each visits them in order until told to stop, filter_by keeps by index and node, and remove takes exactly these nodes out of the document.",
 ["inputs"], "all trees of elements, texts, comments and content tags, all depth limits, all sets",
 "Depth limits, content tags (which hold a text without being walked) and comments meet in many combinations; the tests look at single pages.",
 ["src/lib.rs", "src/mesdoc/interface/texts.rs", "src/mesdoc/interface/elements.rs"],
 [("collecting texts", "src/lib.rs texts_by, texts_by_rec"), ("text sets", "src/mesdoc/interface/texts.rs")],
 ["Elements::texts", "Elements::texts_by", "Elements::texts_by_rec", "Texts"])

prop("C17", "Copies and detached elements are trees of their own, and sets may span trees",
 "For every document and element: copied() gives an element without parent whose subtree equals the original (html, attributes, texts, comments), and no change to one shows in the other. A removed or copied subtree answers find, filter, not, is, is_all, has, closest, children, parent and parents exactly as the same tree alone would: the combinators see only what is in that tree. A set whose elements have been moved or removed since it was selected, or that joins elements of several documents, is still searched and traversed correctly: find, children, parent, parents, next, next_all, prev, prev_all, siblings give every related element exactly once, in document order within each tree; add, filter_in, not_in, is_all_in, filter and not are exact. None of these panics.",
 ["inputs", "histories"], "all trees, all copied or removed elements, all moves, all subsets, all selectors of the grammar",
 "Ordering and de-duplication work on positions in a tree, and selectors look from the root of a document; elements that left their tree or changed places break these assumptions only in particular combinations that no test has.",
 ["src/lib.rs", "src/mesdoc/interface/elements.rs", "src/mesdoc/interface/element.rs"],
 [("copying", "src/lib.rs copy_node"), ("positions", "src/mesdoc/interface/elements.rs get_tree_indexs, sort, unique_*, add"), ("filtering out of a document", "src/mesdoc/interface/elements.rs filter_type_handle")],
 ["IElementTrait::copied", "Elements::remove", "Elements::find", "Elements::filter", "Elements::closest", "Elements::add", "traversal methods"])

prop("C18", "Pseudo classes about kind and content follow their definition in every position",
 ":header (h1 to h6), :input (input, select, textarea, button), :submit (input and button of type submit), :checked (of checkboxes and radios), :root (an html element at the top), :empty (no elements and no text; comments do not count) and :contains(text) (quoted in either way or bare) hold for exactly these elements, whatever the letter case of the tags, and alone, in compounds with other parts in any order, on either side of every combinator, in groups, and inside :not() and :has(); find and not agree.",
 ["inputs"], "all trees of the kinds that matter, all texts, all selector forms",
 "Aliases are expanded to other selectors and evaluated out of order by priority; the tests use each pseudo class alone on one page.",
 ["src/mesdoc/rules/pseudo.rs", "src/mesdoc/selector/rule.rs", "src/mesdoc/interface/elements.rs"],
 [("pseudo classes", "src/mesdoc/rules/pseudo.rs pseudo_empty, pseudo_contains, pseudo_checked, pseudo_alias_*"), ("aliases", "src/mesdoc/selector/rule.rs make_alias")],
 ["Elements::find", "Elements::not"])

prop("C19", "The document interface follows the document as it is now",
 "After every history of attribute changes, removals, moves, insertions from other documents and set_html: get_element_by_id(id) gives an element that is in the document and has that id now, and none exactly when there is none; #id in find, filter and not matches exactly the elements of the document that have the id now, in document order; the owner document and root element of every element are those of the document it is in. head, body and document_element give the first such element in document order (none if there is none) and title the text of the title in the first head, also after one of them was removed.",
 ["histories", "inputs"], "all documents, ids and histories of changes within the bound",
 "Ids are recorded while parsing and every node remembers the root it was parsed under, so that stale answers need a history; the tests look ids up in freshly parsed documents.",
 ["src/lib.rs", "src/mesdoc/rules/id.rs", "src/mesdoc/interface/document.rs"],
 [("id lookup", "src/lib.rs Document::get_element_by_id, src/mesdoc/rules/id.rs"), ("owner document", "src/lib.rs owner_document"), ("document parts", "src/mesdoc/interface/document.rs")],
 ["IDocumentTrait::get_element_by_id", "IDocumentTrait::title", "IDocumentTrait::head", "IDocumentTrait::body", "INodeTrait::owner_document", "Elements::document"])

prop("C20", "Methods that take a closure call it once per element, in order, and obey its answers",
 "For every set and every closure: filter_by and not_by keep exactly the elements for which it answers true and false, is_by tells whether it answers true for some and is_all_by (of a non-empty set) for all, map gives its results in order, for_each calls it in order until it answers false, and the closure always gets the index of the element in the set along with that element. Changes that for_each makes to the elements show in the document. Iterating over a set gives its elements in order.",
 ["inputs"], "all sets, all answers of the closure",
 "An early exit or a wrong index shows only for particular patterns of answers.",
 ["src/mesdoc/interface/elements.rs"],
 [("closure methods", "src/mesdoc/interface/elements.rs filter_by, not_by, is_by, is_all_by, map, for_each, IntoIterator")],
 ["Elements::filter_by", "Elements::not_by", "Elements::is_by", "Elements::is_all_by", "Elements::map", "Elements::for_each"])

prop("C22", "The node interface of every node agrees with the tree",
 "For every document, with texts and comments between the elements, and for each of its nodes: child_nodes, child_nodes_length, child_nodes_item, child_nodes_item_since_by, children, children_by, parent, index, next and previous element siblings, siblings, root_element, is, is_root_element, node_type, typed, tag_name, text_content, text_chars, inner_html and outer_html tell what the tree says; a clone is the same node, a copy another one with the same content; remove_child takes out a child and does nothing to a node that is not one; attributes are found, listed in order and split into words as they were written (has_attribute, get_attribute, get_attributes, is_true, is_str, to_list).",
 ["inputs"], "all trees of elements, texts and comments, all pairs of nodes, all attribute values",
 "Indexes are stored in the nodes and the element-only methods step over texts and comments, with separate code for the first and the last child; the tests look at a few positions on one page.",
 ["src/lib.rs", "src/mesdoc/interface/element.rs", "src/mesdoc/interface/node.rs"],
 [("node interface", "src/mesdoc/interface/element.rs, node.rs"), ("implementation", "src/lib.rs impl INodeTrait, IElementTrait for Rc<RefCell<Node>>")],
 ["BoxDynElement methods", "Elements::find"])

prop("C23", "Errors are reported once, to the document concerned, and change nothing",
 "For every html and parse options, load_catch and load_options_catch give the same document as load and load_options without calling the handler, or, exactly when those return an error, an empty set after one call with this error. set_html with html that cannot be loaded reports one error and changes nothing, and with any other html it reports nothing and the content is what loading gives. A move that is impossible (an element into, next to, or in place of itself or something inside itself) is reported once, to the handler of the document the target is in at the time, whatever document it came from, and changes nothing; a possible move reports nothing; a wrong selector on an element is reported once to the document the element is in.",
 ["inputs", "histories"], "all html strings and options, all pairs of elements of two documents, all histories of moves within the bounds",
 "Handlers hang on documents and elements move between documents; which handler is called depends on the history. The tests catch one error of one document.",
 ["src/lib.rs", "src/mesdoc/interface/elements.rs", "src/mesdoc/interface/document.rs"],
 [("loading", "src/lib.rs load_options, load_options_catch, parse_html"), ("owner document", "src/lib.rs owner_document, Dom::halt, validate_dom_change"), ("selector errors", "src/mesdoc/interface/elements.rs trigger_method, trigger_method_throw_error")],
 ["Vis::load", "Vis::load_catch", "Vis::load_options", "Vis::load_options_catch", "Elements::set_html", "Elements::append", "Elements::find"])

prop("C21", "Documents in different threads do not affect each other",
 "Selector rules and the splitter are global state behind mutexes: documents that are loaded, queried and changed in several threads at once give the results they give alone, without deadlock and without poisoning each other's locks.",
 ["schedules"], "all interleavings of two or more threads",
 "A race or a lock cycle needs a particular schedule.",
 ["src/mesdoc/selector/mod.rs", "src/mesdoc/selector/rule.rs", "src/mesdoc/mod.rs"],
 [("global rules and splitter", "src/mesdoc/selector/mod.rs SPLITTER, ALL_RULE; rule.rs RULES; mod.rs init")],
 ["Vis::load", "Elements::find"],
 claimed=False,
 na="The executor follows one thread: std::sync::Mutex, Once and lazy_static are executed on their uncontended paths, and interleavings of the std lock implementations (futex calls) over the LLVM IR of the whole query engine are out of its reach. Each parse holds the locks for its whole duration and the code under them was checked not to panic (C13, C14), but schedules are not explored.")
