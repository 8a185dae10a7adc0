TESTS = "The existing tests check a few dozen fixed documents and selectors; "

prop("C01", "nth formulas select exactly the positions of the arithmetic",
 "For every formula an+b (in any accepted spelling: integers of either sign, odd, even, a bare number, and any blanks the syntax allows) the four nth selectors (child, last-child, of-type, last-of-type) select exactly the elements whose position p, counted from 1 among the sibling elements (of the same tag name for the of-type forms, from the end for the last forms), equals a*m+b for some integer m >= 0. No formula and no number of siblings, including formulas far beyond the number of siblings, makes the query panic, overflow or loop.",
 ["inputs"], "all a and b with |a|,|b| up to a quarter of the machine integer range, all sibling counts, all mixes of tag names, texts and comments",
 TESTS + "the formula space is a pair of unbounded integers times the sibling count, with sign cases and rounding that only show for particular combinations (negative a with b between 1 and |a|, b far beyond the count).",
 [PAT, UT, PS], [("window of the m that reach a position", PAT + " Nth::get_allowed_indexs"), ("floor and ceiling division", UT + " divide_isize"), ("reading a number of any size", PAT + " Nth::to_number"), ("sibling groups", PS + " nth handlers")],
 ["nth", "pseudo", "domread", "pats"], {"nth": [160000, 3000000]},
 "the first 8316 cases enumerate all four selectors x a in -4..5 or absent x b in -10..10 x 0..8 siblings; then random a, b (small, around powers of two, up to a quarter of the integer range) and up to 40 siblings with mixed tags, texts and comments, asked through find, children, filter and not. Non-trivial: the expected result is not empty. The oracle is the definition of an+b over an independent tree.",
 "Unbounded proof (Verus) that the position arithmetic returns exactly the positions of an+b, ascending, for every formula in range and every sibling count, with no overflow and no loop beyond the window; the handlers of nth-child, nth-last-child, nth-of-type and nth-last-of-type (one element, a whole set grouped by parent, and the closures that answer for single siblings) are proved to hold for exactly the elements at those positions among the sibling elements of their tag name or of all. The pattern that takes the formula out of the selector text, blanks and signs included, is proved in unit pats, the regular expression behind it taken as its definition (checked on generated documents, bounded). Trusted: integer parsing, slice reversal, the tree reading methods proved in unit domread.",
 "the regular expression of the nth formula", 
 ["numbers beyond a quarter of the integer range are saturated by the library; for them only absence of panic is claimed",
  "fewer than 2^60 siblings"])

prop("C02", "A query selects exactly the elements its selector describes",
 "For every document, every starting set and every selector list built from tag, class, id, attribute and universal selectors with the descendant, child, next-sibling and later-sibling combinators, finding returns exactly the descendants of the starting elements that the selector list describes, and filter, not, has, is and is-all give the answers that the same description implies for each element. The answer does not depend on how the library chooses to evaluate the selector: an id at the end, at the start or in the middle, a shared or disjoint set of starting elements, nested starting elements, or any order of the parts in the list.",
 ["inputs", "histories"], "all documents, starting sets and selector lists, also after the document has been changed",
 TESTS + "the evaluation strategy (id lookup, right-to-left check, left-to-right walk, ancestor pruning) is chosen from the selector and the set, and a strategy can be wrong for one combination of nesting and combinators only.",
 [EL, RULE, SEL, "src/mesdoc/rules/id.rs"], [("walks of one combinator", EL + " select_by_rule"), ("id first, then checked upwards", EL + " find_selector, has_ele"), ("choice of the strategy", SEL + " optimize"), ("filtering", EL + " filter_type_handle")],
 ["walk", "query", "moves", "parse", "report", "ident", "makers", "order"], {"sel": [200000, 3000000], "pseudo": [40000, 600000], "mut": [40000, 600000]},
 GEN + "with one query (find, filter, not, has, is, is_all) of 1 to 3 complex selectors of 1 to 3 compounds from a random set of starting elements; the oracle evaluates the selector by definition over an independent tree. Kind mut asks the queries between changes of the document. Non-trivial: the expected result is not empty / true.",
 "Unbounded proof (Verus) of the step every evaluation is made of: from any ordered set, along any combinator, select_by_rule returns exactly the elements that stand in that relation to an element of the set and match the compound, in document order, each once (all ten walks, with the sharing of siblings and ancestors between elements of the set, texts and comments skipped). Also proved on top of it: find_selector returns exactly the elements the parsed selector describes from any ordered set, whichever strategy is used (id first and checked upwards, or step by step), filter / not / is / is_all by selector decide exactly by that description, and so do has, has_in, closest and the until-forms. Unit parse proves that the parser puts exactly the compounds and combinators the string names into the selector and that optimize leaves its meaning unchanged. Trusted: the tree invariant of C07 and the handle methods that read it, HashMap, the matching of one compound as a function of the element, the matcher a rule makes for its text. Unit report joins the two: find, filter, not, is, is_all, has, has_in, children, parent, parents, next, prev and their all-forms parse the string, prefix the right combinator and return exactly what the parsed selector describes. Checked on generated cases (bounded): the whole way from a string to a result with the real rules.",
 "the rules as they are registered", ["ids are unique in the document", "selectors nested deeper than the generator's depth 2 are not sampled"])

prop("C03", "Result sets hold every element once, in document order",
 "Every set returned by finding, filtering, moving (children, parents, siblings, next, previous, until-forms, closest) or combining sets, and by any chain of such calls, holds no element twice and lists its elements in document order. This holds wherever the starting elements lie, nested or not, and whatever the number of selectors in a list.",
 ["inputs", "histories"], "all documents, starting sets in document order and chains of set-producing calls",
 TESTS + "order and uniqueness must survive every chain of calls over every nesting of the starting elements; a test compares a handful of results by length or text.",
 [EL], [("comparing two places in the tree", EL + " compare_indexs, relation_of, get_tree_indexs"), ("sorting and removing duplicates", EL + " sort_and_unique"), ("merging", EL + " add, find_selector")],
 ["order", "nav", "walk", "query", "moves", "report"], {"order": [250000, 4000000]},
 GEN + "and chains of 1 to 4 calls from the three families; every intermediate result is checked for duplicates and order by the path of each element. Non-trivial: some result has two elements or more.",
 'Unbounded proof (Verus) of what puts result sets in order: the position of an element, the comparison of two positions (document order), sort_and_unique (exactly the elements, each once, in document order), the union of two ordered sets, the topmost elements of a set, the sibling walks of one element, the walk of a whole set along any combinator (select_by_rule), the evaluation of whole selectors (find_selector, filter_type_handle), closest, the until-forms and the public calls find, filter, not, children, parent(s), next, prev, their all-forms and siblings: each gives an ordered set for an ordered set, so that a chain of them does too. Trusted: sort_by, dedup_by and HashMap of the standard library; the tree invariant of C07. Chains of calls are also run on generated cases (bounded).', 'chains of calls as they are run by a program', ["starting sets are in document order and without duplicates, as every set the library returns"])

prop("C04", "Set operations obey set algebra",
 "add is union, filter-in intersection, not-in difference, is-in and is-all-in existence and containment, has-in keeps the elements that have a descendant in the other set, and not is the complement of filter; the inputs are left unchanged. All of it for every two sets over one document, overlapping, disjoint, nested or empty.",
 ["inputs"], "all pairs of sets of elements of one document",
 TESTS + "the operations use merges and sorted comparisons that are right for disjoint ranges and wrong for particular interleavings of nested elements.",
 [EL], [("union", EL + " add"), ("membership", EL + " includes, index_of, filter_in_handle"), ("difference", EL + " not_in, not_by")],
 ["set", "order", "query", "moves", "report"], {"set": [250000, 4000000]},
 GEN + "and two random subsets of its elements; one operation, compared as a list with the oracle's list. Non-trivial: expected result not empty / true.",
 'Unbounded proof (Verus) that add is the union in document order and that filter_in, not_in, is_in and is_all_in are intersection, difference, existence and containment for every two ordered sets over one tree; filter_by and not_by are complements. Trusted: HashMap as a cache; the tree invariant of C07. filter and not by selector are complements (filter_type_handle) and has_in keeps exactly the elements with a descendant in the other set; the public filter and not (unit report) parse the selector and are complements whenever it is well-formed.', 'real sets made by real queries', ["both sets come from the same document"])

prop("C05", "The class list behaves as an ordered set of names",
 "After any sequence of adding, removing and toggling class names (one or several at a time, separated by any white space, with repetitions), the class list holds exactly the names the sequence implies (no name twice, unless one of the given strings repeats it), in the order they came, and nothing else of the element changes; removing or toggling one name never disturbs another. Asking whether an element has a class, and a class selector, agree with that list for every name, also when one name is a part of another.",
 ["inputs", "histories"], "all initial class attributes, all sequences of add / remove / toggle calls with any class strings",
 TESTS + "the list is edited through indexes computed beforehand, so results depend on how many names are removed at once, on repetitions and on the order of names.",
 [EL, UT], [("splitting and joining", UT + " get_class_list, class_list_to_string"), ("removing by index", UT + " retain_by_index"), ("the operations", EL + " add_class, remove_class, toggle_class, has_class")],
 ["class", "cond", "attr"], {"class": [160000, 2500000]},
 "an element with a random class attribute (or none) and 1 to 4 operations with random class strings over six names and all ASCII white space; after each the list, has_class for every name and pair of names and the class selectors are compared with the oracle, also after writing the document out and reading it back. Non-trivial: at least one operation.",
 'Unbounded proof (Verus) that splitting, joining, removing by index, has_class, add_class, remove_class and toggle_class produce exactly the names they should for every class attribute and argument, that no other attribute or element changes, and that a class selector asks for a whole name; set_attribute and get_attribute are proved in unit attr. Values with quote characters, and writing out, are checked on generated cases (bounded). Trusted: standard string and vector operations.',
 'class attributes or arguments that contain quote characters, writing the document out and reading it back, the selector parser', [])

prop("C06", "Attributes read back as set, whatever their name and value",
 "After any sequence of setting and removing attributes on an element, reading an attribute (names compared without regard to ASCII case) gives exactly the value last set, presence without value and absence stay distinguished, the list of attributes holds each attribute once, and no other attribute or element changes. Writing the document out and reading it again gives the same attributes, whatever quotes, blanks, angle brackets or equal signs the values contain.",
 ["inputs", "histories"], "all names and values, all sequences of set / remove / class operations",
 TESTS + "the case-insensitive name index, the list and the quoting are kept by hand in three places; only sequences (remove then set, set over another quote) bring them apart.",
 [LIB, EL], [("set, remove, read", LIB + " set_attribute, remove_attribute, get_attribute, get_attributes"), ("quoting", LIB + " set_attribute")],
 ["attr", "attrs"], {"attr": [160000, 2500000]},
 "an element with up to 3 random attributes (quoted either way, bare, without value) and 1 to 4 operations; after each, every name is read (in several letter cases) and the attribute list compared with the oracle, then the document is written out, parsed again and compared once more. Non-trivial: at least one operation.",
 'Unbounded proof (Verus) that set_attribute, get_attribute and remove_attribute keep the name map and the list in step, store exactly the value (or, with both kinds of quotes, the value with one kind as a reference), never store the surrounding quote inside the value, and leave all other attributes alone, that get_attributes lists every attribute once with its value, and (unit attrs) that has_attribute and, over whole sets, attr, has_attr, set_attr and remove_attr read the first element, ask every element and change that attribute of exactly the elements of the set. Trusted: HashMap and BTreeMap, ASCII lower case, character references; RefCell borrows are taken as plain access. Writing out and reading back (rphtml) are checked on generated cases (bounded).',
 'writing out and reading back by rphtml', ["a value that contains both kinds of quotes is stored with one kind as a character reference; it is compared after undoing that"])

prop("C07", "The tree stays a tree under every sequence of changes",
 "After any sequence of removals, emptying, text and html replacement, insertions, moves and replacements, every node has at most one place, the children of a node name it as their parent and know their own position, neighbours agree with the child list, and a removed node has no parent and keeps its own subtree. The document written out is exactly the document that the sequence of changes describes, and queries see the changed document.",
 ["histories", "inputs"], "all documents and all sequences of changes, including moving nodes inside the document and re-inserting removed ones",
 TESTS + "parent links, child lists and stored positions are updated by hand in every operation; only multi-step histories (move then remove, insert a removed node, replace by own neighbour) bring them apart.",
 [LIB, EL], [("positions of later siblings", LIB + " reset_next_siblings_index"), ("taking a node out", LIB + " remove_child, Texts remove"), ("putting nodes in", LIB + " insert_adjacent, append_child, replace_with"), ("replacing contents", LIB + " set_html, set_text")],
 ["dom", "domset", "domtext", "domread"], {"mut": [160000, 2500000], "ins": [40000, 600000], "text": [20000, 300000]},
 GEN + "and up to 6 steps (remove, empty, set_text, set_html, operations on text nodes, insertions of existing, removed or new nodes, replacements, id changes, queries in between); after each step the whole real tree is walked (parent, position, neighbours, kinds, texts, identity of elements), removed subtrees too, and the document written out and compared; also the texts of raw text elements changed in turn. Non-trivial: the document changed.",
 "Unbounded proof (Verus), on an explicit heap with one map per field of a node, that remove_child, ITextTrait::remove, insert_adjacent, replace_with and their helpers (reset_next_siblings_index, detach_childs, validate_dom_change, remove_not_allowed_nodes, InsertPosition::action, and the calls over whole sets in unit domset) keep the tree invariant from every well-formed tree: parents and child lists agree, no node has two places, no cycles, stored positions are right; and that the tree afterwards is exactly the described one. Trusted: reading and writing a field through its RefCell, Rc clone / downgrade / upgrade and pointer equality, that a node held by a child list is alive, Vec splice and extend. Unit domtext proves set_text, set_html, emptying, append_text and prepend_text the same way. Writing the document out is checked on generated histories (bounded).",
 "writing the document out (rphtml), the root links", ["one document plus fragments made for insertion", "text inserted into raw text elements (script, style, title, textarea) is only covered by C13"])

prop("C08", "Insertions put the nodes exactly where they were asked to go",
 "append, prepend, before, after, their mirrored forms and replace put exactly the given nodes at the asked place in the given order, keep all other nodes in their order, and take the nodes away from where they were before. This holds for one or several nodes, for nodes that come from the same parent, before or after the target, from a new fragment or from nowhere, and an impossible insertion (a node into itself or its own subtree) changes nothing.",
 ["inputs", "histories"], "all documents, targets and lists of inserted nodes",
 TESTS + "moving several nodes within one parent shifts positions while they are being used; a test inserts one new node at one place.",
 [LIB, EL], [("placing", LIB + " insert_adjacent, insert_before, insert_after"), ("replace", LIB + " replace_with"), ("set level", EL + " append, prepend, before, after, *_to, insert_*")],
 ["dom", "domset"], {"ins": [200000, 3000000]},
 GEN + "and 1 to 6 insertions or replacements (four places, called from the target or from the source, existing nodes in any order, removed nodes, new fragments); after each the whole tree is compared with the oracle. Non-trivial: the document changed.",
 "Unbounded proof (Verus) that insert_adjacent (all four places) and replace_with leave exactly the tree that the definition describes: the given nodes, in their order, without those the target cannot take, at the asked place, taken away from where they were, everything else as before; an insertion of a node into itself or its own subtree changes nothing. For every well-formed tree and every list of nodes. Trusted: as in C07. The forms over sets (append, prepend, before, after, their mirrored forms, replace, replace_with, remove) are proved in unit domset to make exactly those calls, target after target and node after node in the order that keeps the nodes in line; theorem_insert concludes that elements given to one target end up side by side at the asked place in the listed order, wherever they were. Also run on generated cases (bounded).",
 "fragments made from text", ["a fragment given to several targets goes to the first that can take it"])

prop("C09", "A bad selector is reported, never a panic, and spoils nothing",
 "No string given as a selector to any query (short of one nested thousands of levels deep) makes the library panic or hang; a malformed one is reported to the error handler of the document and selects nothing; a well-formed one is never reported. After any malformed selector all later queries give the right results.",
 ["inputs", "histories"], "all strings as selectors, for every method that takes one, on any set (also an empty one)",
 TESTS + "the set of malformed strings is unbounded and the parser is a hand-written queue of matched pieces with index arithmetic and shared global state.",
 [SEL, PAT, RULE, EL], [("parsing", SEL + " Selector::from_str, parse_groups"), ("pieces", PAT + " matched, exec"), ("rule queues", RULE + " exec_queues"), ("reporting", EL + " trigger_method_throw_error")],
 ["pats", "parse", "moves", "report"], {"syntax": [250000, 4000000]},
 "random strings over selector tokens, well-formed selectors of the full grammar, and well-formed ones broken in a way that no grammar accepts; each given to one of 19 methods with an error handler installed. Checked: no panic, hang or abort, reported exactly when malformed, nothing selected, later queries right. Non-trivial: expectation known, or an error was reported.",
 "Unbounded proof (Verus) that the parser never panics, overflows or runs on without end and answers Ok exactly for the strings of its grammar, for every string: each pattern (identifiers with escapes, attribute names, blanks, nth formulas, quoted and nested parts) takes exactly the characters of its definition; exec and exec_queues, Rule::exec and Rule::make take exactly the first fitting rule; parse_until and parse_groups split the string into the complex selectors of the list, and a group is added exactly for well-formed input, so that a malformed string is always an Err; optimize and from_str leave a selector whose parts say what the string said. Trusted: the matcher a rule makes agrees with the rule's own definition, the rules registered in the global table and the splitter are those the library registers, sort_by gives a permutation in order, trim, regular expressions behind the nth pattern. Units report and moves prove for every method that takes a selector (find, filter, not, is, is_all, has, children, parent(s), next, prev, their all- and until-forms, siblings, closest) that the document's error handler is told exactly once when the string is malformed and never otherwise, and that the result is then empty (or false); an empty set asks nothing. Trusted there: a text parses the same way each time.", "an installed handler as a program uses it", ["contexts up to 400 000 characters, so that priorities do not overflow", "a selector that is nested thousands of levels deep exhausts the stack; depth is bounded here"])

prop("C10", "Attribute, class, tag and text conditions mean what CSS says",
 "For every attribute value and every wanted value the eight attribute conditions (present, equal, not equal, begins, ends, contains, word, language prefix) hold exactly when their definitions over characters hold, with empty wanted values matching nothing for begins, ends, contains and word, and absent and value-less attributes treated as their definitions say. A class condition holds exactly for whole names, a tag condition for equal tag names without regard to ASCII case, and a text condition when the text of the element contains the wanted text.",
 ["inputs"], "all strings as attribute values, class attributes, tag names, texts and wanted values",
 TESTS + "values and wanted values are two unbounded strings; overlap, repetition, empty strings, non-ASCII characters and one value being part of another decide the answer.",
 ["src/mesdoc/rules/attr.rs", "src/mesdoc/rules/class.rs", "src/mesdoc/rules/name.rs", UT, PS], [("attribute conditions", "src/mesdoc/rules/attr.rs"), ("class", "src/mesdoc/rules/class.rs"), ("tag", "src/mesdoc/rules/name.rs"), ("searching characters", UT + " contains_chars, is_equal_chars")],
 ["cond", "attr", "pats", "makers"], {"attrm": [250000, 4000000]},
 "1 to 4 elements with attribute values and texts of up to 5 pieces over a small alphabet with overlaps, blanks, dashes and non-ASCII characters; the wanted value is a piece of an existing one, perhaps disturbed; asked through find, filter, not and is. Non-trivial: expected result not empty / true.",
 'Unbounded proof (Verus) of all eight attribute conditions, the class, tag and text conditions and the character search and comparison against their definitions over all strings. Trusted: starts_with, ends_with, contains, split_ascii_whitespace and string equality of the standard library; the regular expression that reads mode and value from the selector text is only exercised by the bounded part.',
 'reading mode and wanted value from the selector text (regular expression), the text of an element', [])

prop("C11", "Moving through the tree reaches exactly the related elements",
 "children, parent, parents, next, next-all, prev, prev-all, siblings and the until-forms give exactly the elements that stand in that relation to an element of the starting set, filtered by the optional selector; texts and comments between elements never count and the document itself is never an element of the result. closest gives for each element the nearest of itself and its ancestors that matches; the until-forms stop at the first element that matches the stop selector, for each starting element on its own, and include it only when asked.",
 ["inputs"], "all documents, starting sets and selectors",
 TESTS + "starting elements that are siblings or ancestors of each other share part of their way and are walked together; the answer for a pair is rarely tested.",
 [EL, EI], [("relations of one element", EI + " next/previous_element_sibling(s), siblings, children"), ("walks of a set", EL + " select_with_comb, select_with_comb_until"), ("closest", EL + " closest"), ("sharing of walks", EL + " unique_sibling, unique_parents")],
 ["nav", "order", "walk", "moves", "report"], {"nav": [250000, 4000000]},
 GEN + "and one move from a random set, with or without a selector. Non-trivial: expected result not empty.",
 'Unbounded proof (Verus) of the moves of one element (children, next, next-all, prev, prev-all, siblings, child nodes) as exactly the sibling elements of the tree, texts and comments skipped, of sorting and uniting the results, and of the walks of whole sets along each combinator (select_by_rule, all arms, with the walks that elements of the set share). Trusted: the tree invariant of C07 and the handle methods that read it. Also proved: closest, next_until, prev_until and parents_until (each starting element on its own, the stop element included only when asked). Unit report proves the public calls with and without a selector (children, parent, parents, next, prev, their all-forms and siblings of a whole set with its shared families).', 'the calls as a program makes them', ["the optional selector of children, parent, ... is a list of compound selectors"])

prop("C12", "Positions and callbacks address the set exactly",
 "Taking one element by position, the first, the last, a range (open, closed, unbounded, empty, out of bounds, up to the largest integer) gives exactly the elements at those positions in order and never panics. The callback forms (map, for-each, filter-by, not-by, is-by, is-all-by) call back once per element in order with its own position, stop exactly where they should, and keep exactly the elements for which the callback said so.",
 ["inputs"], "all sets, all positions and ranges, all callbacks",
 TESTS + "bounds are unbounded integers in seven forms of range, callbacks are arbitrary.",
 [EL], [("positions", EL + " eq, get, first, last, slice"), ("callbacks", EL + " map, for_each, filter_by, not_by, is_by, is_all_by")],
 ["set"], {"pos": [200000, 3000000]},
 GEN + "and one positional call (bounds small or at the top of the integer range, all seven range forms) or callback call (answers from random bits) on a random set. Non-trivial: expected result not empty / true.",
 'Unbounded proof (Verus) of eq, first, last, slice (all bounds, all sets) and of map, for_each, filter_by, not_by, is_by, is_all_by with an arbitrary callback (called once per element, in order, with its position, stopping exactly where it should).', 'the calls through the public interface with real closures', [])

prop("C13", "Text goes in and comes out unchanged and never becomes markup",
 "After setting the text of an element to any string, reading the text gives exactly that string, the element has no child but that text, all other elements are unchanged, and writing the document out and reading it again gives the same elements and the same texts: no character of a text can create, close or change an element. Listing the texts of a set to a given depth gives exactly the text nodes down to that depth in document order, the callback forms keep exactly the chosen ones, and the text of a set is the concatenation of its texts.",
 ["inputs"], "all strings as texts, all elements of all documents, all depths",
 TESTS + "any of the characters and references that have a meaning in markup may appear in any combination in a text.",
 [LIB, EL], [("setting", LIB + " set_text"), ("listing", LIB + " texts_by, texts_by_rec"), ("reading", LIB + " text, text_contents")],
 ["dom", "domtext", "domread", "texts", "reads"], {"text": [160000, 2500000]},
 GEN + "and a random string over markup characters, references and non-ASCII letters set as the text of one element (raw text elements included), or the texts of a random set (raw text elements included) listed to depth 0..4, also through filter_by, for_each, texts_by and texts_by_rec. Non-trivial: not empty.",
 "Unbounded proof (Verus), on the explicit heap, that set_text leaves exactly one child, a fresh text node that holds the escaped text (for raw text elements, texts and comments: the content itself), changes no other node and keeps the tree invariant; that set_html replaces exactly the children by the allowed nodes of the parsed fragment. Trusted: the escaping and the character references (htmlentity), parsing (rphtml), a fresh node. Also proved: texts, texts_by, texts_by_rec of an element and of a set, and Texts::filter_by, list exactly the text nodes (and raw text elements) down to the depth, in document order, each with its own depth; unit reads: text, text_content, text_contents, text_chars, html, inner_html and outer_html ask rphtml for exactly the text with references decoded, the text as written, the content and the element, never in a way it refuses with a panic, and text, htmls and outer_htmls of a set are the concatenation, html and outer_html those of the first. set_text, set_html and empty of a set do it to every element of the set in turn. That the escaped text reads back and never becomes markup is checked on generated cases (bounded).", "escaping and unescaping (htmlentity), for_each over texts, writing out and reading back (rphtml)", ["the text is not made of blanks only", "a raw text element's own end tag inside its text is not covered"])

prop("C14", "A copied element shares nothing with the original",
 "A copy of an element has the same tag, attributes, texts and structure as the original and belongs to no parent, and no later change to the copy or to anything below it shows in the original, nor the other way round. Queries inside the copy work as in any other element.",
 ["inputs", "histories"], "all elements of all documents and all changes made afterwards on either side",
 TESTS + "sharing is invisible until one of the two is changed at a place the test did not look at (attributes, texts, nested children).",
 [LIB], [("copying", LIB + " copied"), ("deep copy", LIB + " Dom helpers")],
 [], {"copy": [120000, 2000000]},
 GEN + "one element copied, then 1 to 3 changes (attribute, class, text, html, removal, insertion, text node) on the copy and on the original; the other side is written out and compared after each. Every case is non-trivial.",
 "", "", [])

prop("C16", "Structural and nested pseudo-classes follow their definitions",
 "first-child, last-child, only-child, the of-type forms, empty, root, the heading and form-field classes (header, input, submit, checked), not, has and contains hold for an element exactly when their definitions over the element and its siblings hold, alone, combined with each other and nested. Texts and comments never count as siblings, tag names are compared per sibling group, and the answer is the same whether the class is asked of one element, of several with different parents, or in the middle of a selector.",
 ["inputs"], "all documents, sets and combinations of the pseudo-classes to nesting depth 2",
 TESTS + "each class has one evaluation for a set grouped by parent and another for single elements; they can disagree for particular mixes of parents and tag names.",
 [PS, RULE], [("positions in groups", PS + " nth and first/last/only handlers"), ("grouping", PS + " group_siblings_then_done"), ("nested selectors", PS + " not, has; " + RULE)],
 ["pseudo", "nth", "query", "domread", "form", "cond", "makers"], {"pseudo": [250000, 4000000]},
 GEN + "and one query whose compounds contain pseudo-classes (4 in 10), nested to depth 2; one case in 16 is a form with selects, groups of options and inputs. Non-trivial: expected result not empty / true.",
 'Unbounded proof (Verus) that first-child, last-child, only-child, first-of-type, last-of-type, only-of-type, the nth forms, empty and root hold for exactly the elements of their definitions over the element and its siblings, in every form the library evaluates them (for one element, for a whole set grouped by parent, for the siblings of one parent), texts and comments skipped and tag names compared per sibling group; that each name of a pseudo-class is wired to its own evaluation (also not, has and the alias classes header, input, submit, which stand for the selectors of their definitions). not and has decide by the description of the nested selector (unit query). contains holds when the text of the element contains the text between the brackets, without its quotes; checked holds for checked boxes, selected options and the default option of a select, as defined over the siblings. Trusted: the tree reading methods proved in unit domread, HashMap.',
 'the text of an element as rphtml gives it', [])

NA = [
 {"line": {"id": "C20", "title": "Queries from several threads neither deadlock nor disturb each other",
  "statement": "Selectors may be parsed and documents queried on several threads at once: no schedule of such calls deadlocks, and each call gives the result it would give alone.",
  "quantifier": {"over": ["schedules"], "text": "all interleavings of calls on different documents"},
  "why_tests_cant": "The tests run whatever schedule the runner happens to produce.",
  "anchors": {"files": [RULE, PAT], "mechanism": [{"name": "global rule and pattern tables behind locks", "where": RULE + ", " + PAT}], "hook_needed": None}},
  "reason": "Contract-based verification of the extracted functions is sequential: the locks are std::sync::Mutex and lazy statics of a dependency, for which Verus has no permission types here and Kani no threads; a model of them would be another family."},
 {"line": {"id": "C21", "title": "Parsing any text and writing it out loses nothing",
  "statement": "For every input text that loads, writing the unchanged document out gives the input text again, and loading never panics.",
  "quantifier": {"over": ["inputs"], "text": "all strings"},
  "why_tests_cant": "The input space is all strings.",
  "anchors": {"files": [LIB], "mechanism": [{"name": "parsing and rendering by the rphtml dependency", "where": LIB + " Vis::load, outer_html"}], "hook_needed": None}},
  "reason": "Parser and renderer are the external crate rphtml; /repo has no code to put under contract, only calls to it, whose contracts would have to be assumed."},
]
