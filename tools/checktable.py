COMMON = [
    "golang.org/x/tools/go/ssa translates the source faithfully; the engine's instruction semantics and library models (sync, reflect, bytealg, time, os) are right, which replaying the sample paths natively tests on every run",
    "z3's sat/unsat answers are right; every reported counterexample is confirmed by running the compiled code",
    "one goroutine: no concurrent use of the values (the library promises none)",
]
CHECKS = {}
NOT_APPLICABLE = {}

CHECKS["C01"] = dict(
    note="Every path within the stated bounds is decided by the solver; complete when the evidence says exhaustive. The oracle is an independent tree built from encoding/xml's token stream.",
    assumptions=["the tokenizer of encoding/xml defines well-formedness, as in the property"],
    outside=["documents longer than the stated bounds", "non-UTF-8 documents (C09)"],
    harnesses=[
        ("tree.parse_any", "every byte string of length 0..5 (thorough 6)", "reject/accept like the tokenizer, tree as tokenized, input unmodified, no panic"),
        ("tree.parse_body", "every body of 0..7 (thorough 8) characters of the markup alphabet <>/a= \"!- inside a root element", "same"),
        ("tree.parse_tag", "every 0..7 (thorough 8) characters of abx:=' /> inside a start tag", "same"),
        ("tree.parse_attrs", "2 attributes on the root, 1 (thorough 2) on a child, each of 9 kinds of name, values with one or two arbitrary special characters", "same"),
        ("tree.parse_struct", "prolog of 5 kinds, up to 2 (thorough 3) items of 8 kinds in the root, nested once, trailing junk or not, symbolic names and text", "same", dict(q=60, t=800)),
        ("tree.parse_wide", "3100 siblings, one of them with a child", "accepted, and all there"),
        ("tree.parse_deep", "single chain of 2999..3002 levels", "accepted up to 3000, and all there"),
    ])

STD = "Every path within the stated bounds is decided by the solver; complete when the evidence says exhaustive. "
CHECKS["C02"] = dict(
    note=STD + "Oracle: resolution by walking the ancestors of a tree built independently from the token stream.",
    outside=["more than three levels of declarations, more than two declarations per element", "tags that declare one prefix twice (not well formed)"],
    harnesses=[
        ("tree.resolve_doc", "3 levels with an elder sibling subtree, up to 2+1+1+1 (thorough 2+2+1+2) declarations of '', p, q, pq with symbolic one-character URIs (empty default allowed); 12 names at every element", "Resolve and ResolveNS as by the nearest declaration"),
        ("tree.resolve_name", "every name of 0..4 (thorough 5) characters of pqxml: under two levels of up to 2 declarations", "same"),
        ("tree.resolve_reserved", "every name of 3..6 characters of xmlns: with look-alike prefixes declared", "same"),
        ("tree.resolve_any", "every name of 0..3 (thorough 4) bytes", "same"),
        ("tree.resolve_default", "every name of 0..3 (thorough 4) characters of pqx:, empty or symbolic default", "ResolveDefault"),
        ("tree.resolve_join", "three scopes of up to 2, 2 and 1 declarations joined pairwise, and a second join of the intermediate result", "joined scopes resolve like nested ones and do not disturb each other"),
        ("tree.resolve_siblings", "0..4 (thorough 5) levels declaring 1..2 (thorough 3) prefixes each, then siblings and cousins declaring others", "ResolveNS, Resolve at every element for every prefix"),
    ])
CHECKS["C03"] = dict(
    note=STD + "Oracle: a namespace is usable when resolving one of its prefixes in the independently built tree gives it back.",
    outside=["more than three levels of declarations", "local names containing a colon"],
    harnesses=[
        ("tree.prefix_doc", "3 levels with an elder sibling subtree, up to 1+1+1 (thorough 2+1+1+1) declarations; 8 namespaces at every element", "Resolve(Prefix(n)) == n when usable; the local name when undeclared"),
        ("tree.prefix_name", "namespace of 0..2 characters of uvpq, local of 0..2 of pqx-, two levels of up to 2 declarations", "same"),
        ("tree.prefix_many", "three levels each redeclaring the default and p or not, symbolic URIs", "same"),
    ])
CHECKS["C04"] = dict(
    note=STD + "Marshal, MarshalIndent, Encode and String run with the real text/template and reflect-driven code; their output is parsed back by the real Parse.",
    outside=["elements mixing text and children (their text is not written)", "documents using undeclared prefixes"],
    harnesses=[
        ("tree.marshal_value", "any 2 (thorough 3) bytes as attribute value, text, raw inner bytes; any 2 (3) of uv<&\"'> and white space as namespace URI", "round trip of every element of the document"),
        ("tree.marshal_ns", "three levels, default and p redeclared or undeclared at the upper two (thorough all), element and attribute names prefixed or not", "round trip of every element; no prefix declared twice in a tag", dict(t=900)),
        ("tree.marshal_shapes", "5 kinds of content nested to depth 2 (thorough 3)", "same"),
        ("tree.marshal_modified", "SetAttr with any 2 printable or white-space bytes (quick: 8 special ones) at three places, then a child removed or repeated", "round trip"),
        ("tree.marshal_indent", "trees of up to 2 children per element, 3 (thorough 4) levels, prefix and indent of 0..2 symbolic characters each", "what Marshal writes, on lines that begin with the prefix and an indent per level"),
        ("tree.marshal_long", "over 3000 siblings with and without children, 200 levels, 70 kB of text", "round trip, every element there"),
    ])
CHECKS["C05"] = dict(
    technique="symbolic execution with a fault-injecting destination: the failing write is a solver variable",
    note=STD + "The fault (which write fails, after how many bytes, once or for good) is symbolic.",
    assumptions=["a failing Write reports an error (the io.Writer contract)"],
    outside=["documents other than the listed ones"],
    harnesses=[
        ("tree.encode_nth", "4 documents, failing write number 0..60 (thorough 100; every write of these documents), once or for good", "error if and only if a write failed; bytes as Marshal otherwise"),
        ("tree.encode_limit", "4 documents, destination accepting 0..150 bytes, failing once or for good", "same"),
        ("tree.encode_cycle", "a cyclic tree, failing write number 0..60", "same"),
        ("tree.encode_text", "0..2 characters of text, failing write 0..20", "same"),
    ])
CHECKS["C06"] = dict(
    note=STD + "Oracle: search for a permutation of the children, on independently built trees.",
    outside=["entity or CDATA spellings of the same text", "tags repeating an attribute (not well formed)"],
    harnesses=[
        ("tree.equal_flat", "up to 3 children each, symbolic names and texts, equal or different numbers", "Equal(a,b) and Equal(b,a) as the oracle says, Equal(a,a), arguments unchanged"),
        ("tree.equal_three", "three same-named children each with a symbolic attribute", "same"),
        ("tree.equal_attrs", "up to two of five attributes each", "same"),
        ("tree.equal_values", "attribute values of 0..2 (thorough 0..3) of a, A, space, 0, on the element or its child", "same"),
        ("tree.equal_ns", "default or prefixed spellings of symbolic namespaces", "same"),
        ("tree.equal_nested", "2 children with up to 2 and 1 (thorough 2) leaves of symbolic name each", "same", dict(t=900)),
        ("tree.equal_space", "3 characters of text and white space; names whose namespace+local concatenations coincide", "same"),
        ("tree.equal_mixed", "text and white space between children", "same"),
        ("tree.equal_wide", "5..40 children, rotated, one changed", "same"),
        ("tree.equal_built", "elements made by hand with up to 2 (thorough 3) attributes, namespace declarations among them", "Equal as the attributes say"),
        ("tree.equal_deep", "chains of 10..3000 levels", "same"),
    ])
CHECKS["C07"] = dict(
    note=STD + "Oracle: plain preorder enumeration.",
    outside=["predicates that modify the tree"],
    harnesses=[
        ("tree.search_shape", "every tree shape of up to 6 (thorough 7) elements, an arbitrary subset wanted", "Flatten, the calls made by SearchFunc and its results, in order"),
        ("tree.search_name", "trees of depth 2 and width 2 with symbolic names and namespaces, symbolic search terms", "Search"),
        ("tree.search_doc", "a parsed document with symbolic names", "Search, and results being pointers into the tree"),
        ("tree.search_big", "wide, deep and ladder trees of up to 2500 levels", "Flatten and Search"),
    ])
CHECKS["C08"] = dict(
    note=STD,
    outside=["more than 3 (thorough 4) attributes"],
    harnesses=[
        ("tree.attr_setget", "0..3 (thorough 4) attributes with symbolic names, namespaces and values, with and without spare capacity; symbolic space, local; any 2-byte value", "Attr, SetAttr, everything else kept"),
        ("tree.attr_doc", "a parsed document, three prefixes, three search spaces", "same, siblings and parent untouched"),
    ])
CHECKS["C09"] = dict(
    note=STD + "Oracle: the whole document transcoded first, then parsed as UTF-8. golang.org/x/text's charmap decoders run symbolically.",
    outside=["multi-byte and UTF-16 encodings (their tables are not loaded into the engine)", "documents over 9 kB"],
    harnesses=[
        ("tree.charset_text", "5 encodings, 4 kinds of gap after the declaration, any byte (thorough 2) in an attribute or in text", "same tree and Content as the transcoded document, input unmodified"),
        ("tree.charset_body", "every body of 0..4 (thorough 5) characters of <>/a, space, 0xe9, 0x80; 2 encodings", "same"),
        ("tree.charset_long", "3 encodings, 8 lengths up to 9000, 3 fillers", "same"),
        ("tree.charset_huge", "3 encodings, lengths around 65536, thorough 140000", "same", dict(q=100)),
        ("tree.charset_gap", "every 0..3 (thorough 4) characters of white space and markup between declaration and root", "same"),
        ("tree.charset_twice", "a declaration repeated or inside the document, 1..3 pieces of UTF-8 around it", "no panic, input unmodified, earlier content kept"),
        ("tree.charset_none", "labels of 3 characters of abq-8", "error exactly for unsupported labels"),
    ])

CHECKS["C10"] = dict(
    note=STD + "Oracle: the list of names in XML Schema part 2, written out independently.",
    outside=["names longer than 20 bytes that are not one edit away from a built-in"],
    harnesses=[
        ("misc.builtin_names", "every built-in, against every other", "standard name, found by its name, names distinct"),
        ("misc.builtin_local", "every local name of 0..19 arbitrary bytes in the schema namespace", "found exactly when listed"),
        ("misc.builtin_space", "every listed name in any namespace of 0..2 bytes, or one or two bytes off the right ones", "same"),
        ("misc.builtin_near", "every listed name with one byte replaced or inserted, or one or two appended", "same"),
        ("misc.builtin_xml", "the four built-ins of the xml namespace, first letter or last namespace byte arbitrary", "same"),
    ])
CHECKS["C23"] = dict(
    note=STD + "Node numbers are solver variables (arbitrary 64-bit integers in graph_any); oracle: reachability over the edge list.",
    outside=["more edges than the stated bounds, except the fixed long shapes"],
    harnesses=[
        ("misc.graph_any", "0..3 (thorough 4) edges between arbitrary 64-bit integers", "every node once, dependencies first if acyclic, terminates"),
        ("misc.graph_dense", "every acyclic graph on four nodes numbered in any order, with or without one more edge", "same"),
        ("misc.graph_same", "3 (thorough 4) edges added in every order, one possibly twice; flattened twice", "same order"),
        ("misc.graph_grow", "3 (thorough 4) edges, flattening in between or not", "later edges count"),
        ("misc.graph_long", "chains, rings and fans of 2..31 edges", "every node once, dependencies first if acyclic"),
    ])
CHECKS["C24"] = dict(
    note=STD + "Oracle: Go's own scanner and strconv.Unquote, executed symbolically on the produced text.",
    outside=["texts longer than the stated bounds"],
    harnesses=[
        ("misc.literal_any", "every string of 0..2 (thorough 3) bytes", "one string token without lexical error, meaning the string"),
        ("misc.literal_quoted", "every string of 0..4 (thorough 5) of quote, backquote, backslash, CR, LF, tab, a", "same"),
        ("misc.literal_near", "a quote, then one or two arbitrary bytes, DEL, one arbitrary byte", "same"),
        ("misc.literal_rune", "a quote, one of three multi-byte characters, one special byte", "same"),
        ("misc.literal_utf8", "a quote and three arbitrary bytes starting at 0xe0", "same"),
        ("misc.literal_const", "string constants of 0..3 special bytes", "same, constant names kept"),
        ("misc.sanitize_word", "every string of 0..12 lower-case letters", "no keyword; unchanged if none"),
        ("misc.sanitize_any", "every string of 0..5 (thorough 7) bytes", "same"),
        ("misc.comment_any", "every ASCII string of 0..3 (thorough 4) bytes without NUL", "comments only, every line present in order"),
        ("misc.comment_text", "every string of 0..5 (thorough 6) of * / space, CR, LF, tab, a", "same"),
        ("misc.comment_rune", "five unusual characters between two others, both comment makers", "same"),
        ("misc.comment_list", "package comments of three texts", "same"),
        ("misc.tag", "tags of a key with a value of 0..3 (thorough 4) special characters, alone or beside another key, or no tag; four keys", "the value of the key, or nothing"),
        ("misc.comment_long", "lines of 1..131072 characters around the buffer sizes of line readers", "same"),
        ("misc.comment_func", "function comments of 1..4 (thorough 5) special characters", "same"),
    ])
CHECKS["C25"] = dict(
    note=STD + "Oracle: splitting at the first arrow and trimming written out by hand; regexp.Compile decides which patterns are valid.",
    outside=["white space other than space, tab and newline", "longer rules and documents"],
    harnesses=[
        ("misc.rules_one", "every rule of 0..5 (thorough 6) characters of ->a ( . space tab", "split, trimmed, appended, or an error and no change"),
        ("misc.rules_arrow", "0..3 characters, an arrow, 0..4 characters including further arrows", "same"),
        ("misc.rules_many", "3 (thorough 4) rules, good or malformed", "rules kept in order"),
        ("misc.rules_strings", "three values of 0..2 characters", "kept in order"),
        ("misc.imports_doc", "one schema with 0..2 (thorough 3) or two with 0..1 (2) declarations of 4 kinds, attributes absent, empty or symbolic", "every import and include, in order, with namespace and location"),
        ("misc.imports_bad", "a schema broken by any three markup characters", "an error"),
    ])
CHECKS["C12"] = dict(
    note=STD + "Oracle: the rules of the statement written out over the choices the schema text was built from.",
    outside=["negative occurrence counts (not valid schema)", "minOccurs unbounded (not valid schema)", "more than three particles around an element"],
    harnesses=[
        ("schema.elt_occurs", "minOccurs and maxOccurs each absent, unbounded, one of 0 1 2 x, any two of 0-9 + - u, or 00 and a digit", "Plural, Optional, or an error"),
        ("schema.elt_flags", "nillable and abstract: absent, true, false, any one byte, near misses; default of 0..2 characters", "Nillable, Abstract, Default, Optional, or an error"),
        ("schema.elt_nest", "1..3 (thorough 4) nested sequence, choice and all, each optional, repeated or neither", "Optional and Plural"),
        ("schema.elt_group", "a reference to a group with any counts of its own, in four places, to any compositor", "same"),
        ("schema.elt_derived", "the same inside an extension, a restriction or neither", "same, and Extends"),
        ("schema.elt_repeat", "2..3 (thorough 4) declarations of the names a, b with any flags, one possibly in a choice", "one element per name, in order, flags joined, plural if two may occur"),
        ("schema.elt_paths", "content models of four particles in every nesting of sequences, choices and repeated sequences", "Plural exactly if two may occur together"),
        ("schema.elt_any", "a wildcard with any counts in a sequence that may be repeated, next to an element and perhaps another wildcard", "Plural of the wildcard, the element unaffected"),
        ("schema.att_flags", "use absent or any of 9 spellings and near misses, default of 0..2 characters, three kinds of type", "Optional, Default"),
        ("schema.elt_top", "top-level elements with any flags", "same flags"),
    ])
CHECKS["C11"] = dict(
    note=STD + "Oracle: which names are declared and the graph of bases, known from how the schema text was built; closure is checked by walking the result.",
    outside=["unions that are members of themselves (neither accepted nor rejected by the statement)", "schemas of more than four types or three documents"],
    harnesses=[
        ("schema.closed_bases", "2..3 (thorough 4) types, each of up to five kinds, based on any of them, on an undeclared name or on a built-in", "undeclared and self-derived types rejected, others accepted, closed, the base named"),
        ("schema.closed_places", "every name of 1..2 (thorough 3) characters of TUt referred to from 16 kinds of place, before or after the declarations", "the very type named, or an error"),
        ("schema.closed_spaces", "one name declared in three namespaces, any of four prefixes or none, four default namespaces, four arrangements of documents", "same"),
        ("schema.closed_builtin", "names near built-in ones in 16 places", "the built-in, or an error"),
        ("schema.closed_find", "three schemas; every built-in; names of one letter", "the schema of the built-in types is complete; FindType"),
        ("schema.closed_any", "a schema broken in 19 places by 1..2 (thorough 3) characters of </> s:'", "an error or a closed result, no panic"),
        ("schema.closed_missing", "every nesting of two (thorough three) of 15 tags with 9 kinds of attributes, valid or not", "same"),
    ])
CHECKS["C13"] = dict(
    note=STD + "Oracle: the same schema with the referenced declarations written out in place, parsed by the same parser.",
    outside=["references to elements of another namespace with a locally declared type (their namespace is fixed by an existing test)", "more than three nested groups"],
    harnesses=[
        ("schema.ref_element", "element declarations of five kinds with any of nillable, default, abstract; references with any of minOccurs, maxOccurs, nillable, default; in a sequence or a choice, before or after", "the same content as written out"),
        ("schema.ref_attribute", "attribute declarations of four kinds with or without default, references with any use and default, in three kinds of type", "same"),
        ("schema.ref_group", "1..3 nested groups of any compositor, declared in three orders, used in four ways and in a choice, with occurrence counts on the reference", "same"),
        ("schema.ref_attgroup", "1..3 nested attribute groups, in three orders and three kinds of type", "same"),
        ("schema.ref_chain", "eight declarations that refer to one another, in 48 orders", "every element and attribute as declared"),
        ("schema.ref_prefix", "four kinds of reference, any prefix or none, declared at any level with either URI", "resolved in the scope of the reference, or an error"),
        ("schema.ref_undeclared", "names of 1..2 characters mM, declared as another kind, in a type, in another namespace or not at all", "an error unless declared"),
        ("schema.ref_cycle", "two groups containing any of each other", "terminates without a panic"),
        ("schema.ref_elements_cycle", "two elements containing any of each other", "accepted, types shared"),
        ("schema.ref_spaces", "chains that go back and forth between two namespaces", "what is referred to, in the namespace it has"),
    ])
CHECKS["C14"] = dict(
    note=STD + "Every anonymous type carries a marker chosen when the schema text is built; the check follows owners and compares markers and counts types.",
    outside=["nesting deeper than three", "global elements of a named type whose name is also taken by an anonymous type"],
    harnesses=[
        ("schema.anon_nested", "types of types up to depth 2 (thorough 3): restrictions, lists, unions with and without named members, complex types; five ways to bind namespaces; at the top or in a type", "every owner refers to the type it contains, every type listed once under its name"),
        ("schema.anon_owners", "five to six owners whose names collide with one another, with named types and with generated names", "same, named types unchanged"),
        ("schema.anon_many", "1..8 top-level elements, one with nested types", "same"),
        ("schema.anon_docs", "2..3 documents of one or two namespaces with the same element names", "same"),
        ("schema.anon_content", "a simple type (perhaps over another) that restricts the simple content of one of three complex types, in the same namespace or another, named or not, declared before or after", "the complex type still derives from its base, the anonymous types are listed"),
        ("schema.anon_groups", "anonymous types in groups, attribute groups and referenced elements, in three orders", "same"),
        ("schema.anon_named", "named types called _anon1, _anon2, e, T next to an anonymous one", "named types keep name and content"),
    ])
CHECKS["C15"] = dict(
    note=STD + "Oracle: the rules of the statement over the derivation chain the schema text was built from. Map iteration order is a symbolic choice.",
    outside=["chains of more than 40 (thorough 120) types", "simple content whose base has complex content (not valid schema)"],
    harnesses=[
        ("schema.mixed_chain", "chains of 2..3 (thorough 4) types derived in up to five ways, mixed written in five spellings, named in three orders, declared forwards or backwards, six map orders", "Mixed by the rules, Extends"),
        ("schema.mixed_simple", "types derived from five simple types in nine ways, declared forwards or backwards, six map orders", "Mixed by the rules"),
        ("schema.mixed_spaces", "chains through three (thorough four) namespaces, documents in four orders, one map loop in any order or all loops in six", "Mixed by the rules"),
        ("schema.mixed_anon", "anonymous types derived from a named one", "Mixed by the rules"),
        ("schema.mixed_long", "chains of 10 and 40 (thorough 120) extensions with at most one restriction", "Mixed by the rules"),
    ])
CHECKS["C16"] = dict(
    note=STD + "Oracle: the values the facet texts were built from; for patterns, package regexp on each pattern alone.",
    outside=["patterns that Go's regexp does not compile", "years outside 2000..2004"],
    harnesses=[
        ("schema.facet_enum", "0..3 (thorough 4) enumerations of 0..2 characters including markup, another facet anywhere between them", "all recorded, in order"),
        ("schema.facet_count", "five facets; every number of 1..3 digits, any two of 19a+- space, 9 malformed or padded texts", "the value, or an error"),
        ("schema.facet_number", "minimum and maximum, inclusive and exclusive, 5 bases, 4 signs, 2..4 digits, fractions and large values, in either order", "the number written, nothing else"),
        ("schema.facet_badnumber", "every text of 1..2 (thorough 3) characters of 1-.x: and space", "an error exactly unless a number"),
        ("schema.facet_date", "dates and times: every month, six days, four zones", "the instant written, or an error"),
        ("schema.facet_datelink", "a type derived from a date type, any digits", "an error exactly unless a date"),
        ("schema.facet_time", "limits of seven kinds of times, durations and parts of dates, one digit of each any, three zones or none, of types 0..2 steps from the built-in, declared before or after it", "accepted, recorded only if a year"),
        ("schema.facet_baddate", "a date with any one character replaced", "same"),
        ("schema.facet_pattern", "1..3 of five (thorough 7) patterns; every text of 0..2 characters abc", "matches exactly when one of them does"),
        ("schema.facet_none", "other facets and annotations only", "nothing recorded"),
        ("schema.facet_bases", "five facets with six values on every built-in", "no panic, closed"),
        ("schema.member_order", "unions of 1..4 (thorough 5) of four member types, lists of them", "members in order"),
    ])
CHECKS["C17"] = dict(
    note=STD + "Map iteration order is a symbolic choice of the engine: in one run one loop (any one) goes in any order and the rest in order of insertion, in another all loops go in one of six orders.",
    outside=["two loops in unusual orders that differ from one another", "text of error messages"],
    harnesses=[
        ("schema.order_one", "nine declarations that use one another, in 18 (thorough 36) orders", "the same schemas, types, members and order"),
        ("schema.order_docs", "four arrangements of documents of three namespaces", "same"),
        ("schema.order_error", "six kinds of invalid schema", "an error in any order"),
        ("gen.order_types", "code generated from four arrangements of types that use one another, with anonymous types, helpers and lists, under three configurations", "the same code in any order", dict(t=800)),
        ("gen.order_chains", "chains of three types with simple content, with an attribute or not, over five types, beside another namespace with the same names", "the same code in any order", dict(t=300)),
        ("gen.reuse", "one configuration used for two of four sets of documents, one after the other", "the same code as from a new configuration"),
    ])
CHECKS["C21"] = dict(
    note=STD + "Documents are built from symbolic names and links; the expected definition is computed while the document is written.",
    outside=["imported documents (wsdl:import is not followed)", "more than two of each of messages, port types, bindings, ports, operations", "documentation text"],
    harnesses=[
        ("wsdlp.messages", "2 messages of 0..2 parts with symbolic names, each by type or element in one of two namespaces", "every message under its resolved name, parts in order, type or element resolved"),
        ("wsdlp.part_scope", "one prefix bound at up to four levels around a part, and elsewhere", "resolved in the scope of the part"),
        ("wsdlp.ops", "2 port types of 1..2 operations with symbolic names and messages, 2 bindings and 2 ports linked arbitrarily", "operations, messages, addresses of each port, in order"),
        ("wsdlp.names", "symbolic names of 1..2 characters for bindings and port types, linked both ways", "the binding and port type whose whole name is given"),
        ("wsdlp.namespaces", "references by three prefixes of two namespaces", "matched by namespace, not prefix"),
        ("wsdlp.default_ns", "unprefixed references under no, the same or another default namespace", "resolved in the default namespace"),
        ("wsdlp.method", "2 bindings, verb absent, empty, on the wrong element or 1..3 (thorough 4) symbolic letters", "upper-cased verb of the binding of the port, else POST"),
        ("wsdlp.action", "2 ports, operations of symbolic names of 1..2 characters, bindings of SOAP 1.1 or 1.2 with four symbolic actions, one possibly absent", "action per operation and binding"),
        ("wsdlp.address", "2 ports in one or two services, three protocols, symbolic addresses", "every port with its address"),
        ("wsdlp.oneway", "2 operations with or without input and output", "messages as written, none where none"),
        ("wsdlp.scopes", "names in ports and bindings whose prefixes are bound again at the service, port, portType, binding, operation or input", "resolved in the scope of the element"),
        ("wsdlp.overloaded", "two operations of one name in a port type, told apart by the names of input, output or both, in either order in the binding", "the action of each"),
        ("wsdlp.malformed", "every proper prefix of a definition", "an error"),
    ])
CHECKS["C18"] = dict(
    note=STD + "The whole generator runs symbolically, its output is printed, parsed again and type-checked by go/types (also run symbolically) against declarations of the standard packages generated code may use; the expected fields are computed from the choices the schema text was built from.",
    assumptions=["the declarations of standard packages in harness/gen/types.go and std.go agree with the real ones for what generated code uses (a use outside of them is excluded and noted in the evidence)", "goimports adds exactly the imports that are needed"],
    outside=["more than seven elements of clashing names per type"],
    harnesses=[
        ("gen.builtin", "an element and an attribute of every built-in type, plural, optional, nillable or not", "Go type, slice, omitempty, tag; output compiles"),
        ("gen.types", "an element of 15 kinds of type, plural, with a default or not, beside another of three kinds", "same"),
        ("gen.clashes", "4..7 elements, and an attribute or none, all of whose names become A or a name made to tell them apart, in 42 orders", "same"),
        ("gen.recursive", "two (thorough three) types, one of them perhaps derived, that refer to one another and themselves through one or two elements, required, optional, repeated or in a choice", "only fields of types that contain the struct are pointers; output compiles", dict(q=90, t=800)),
        ("gen.crowd", "elements of one name from 3..12 namespaces", "a field for each"),
        ("gen.names", "two elements and an attribute of 16 names that make clashing Go names, three type names", "distinct fields, each with its own tag and type"),
        ("gen.inherit", "chains of 3 (thorough 4) types, each an extension or restriction of the one before, with elements and attributes of clashing names", "every field of the whole chain once", dict(t=800)),
        ("gen.local_name", "an element of the derived type with the local name, but another namespace, of an inherited one, declared or a reference, three occurrences, documents in either order, two levels", "a field for each, with its namespace and type", dict(q=60)),
        ("gen.simple_content", "chains of types with simple content of nine kinds", "content field, attributes of the chain", dict(q=70, t=800)),
        ("gen.ignore", "elements and attributes, required or not, excluded by name, in a base and a derived type, with or without a target namespace", "absent, and all others present"),
        ("gen.wildcard", "a wildcard of any occurrence between two elements of names that clash with it, in a base type", "one catch-all field, the elements unaffected"),
        ("gen.anon", "anonymous types of elements and attributes, nested twice, under names that collide with one another and with named types", "every field of the type declared for it"),
        ("gen.anon_fields", "three elements or attributes of one or two owners with anonymous types of five kinds and names that may be the same", "every field of the type declared for it", dict(q=60, t=400)),
        ("gen.same_name", "two types, three kinds each, whose Go names coincide, in one or two namespaces", "both declared, each used where it is meant"),
        ("gen.spaces", "types of two namespaces that use one another, given in any order", "same"),
    ])
CHECKS["C19"] = dict(
    note=STD + "The generator of the current tree is run on a schema covering every kind of codec (harness/codecgen); what it writes is compiled, and that code, with the standard library it calls, is executed symbolically. gen.* run the generator itself symbolically and type-check its output.",
    assumptions=["the methods generated for one type do not depend on the other types in the schema, except as gen.list_types and gen.helper_types vary them"],
    outside=["floating-point items other than the listed ones", "years outside 0..9999, zones that are not whole minutes, the zero time (written as nothing)", "what time.Parse tolerates: hours of one digit, a comma before the fraction, zones of 24 hours"],
    harnesses=[
        ("codec.list_strings", "0..2 (thorough 3) items of 1..2 (thorough 3) bytes, any but white space, in every string-like list", "round trip"),
        ("codec.list_text", "every text of 0..4 (thorough 5) of a, b, white space, VT, FF, NUL", "the items between XML white space"),
        ("codec.list_space", "eleven characters that are white space elsewhere", "round trip"),
        ("codec.list_numbers", "every text of 0..3 (thorough 4) of digits, sign, dot, space, x, or a prefix and two, in 16 kinds of list", "the numbers, or an error if malformed or out of range"),
        ("codec.list_values", "pairs of values at and near the limits of every number type", "round trip"),
        ("codec.list_bools", "every list of 0..3 (thorough 5) booleans", "round trip"),
        ("codec.list_boolText", "texts of up to 3 (thorough 4) arbitrary special characters between fixed pieces", "the booleans, or an error"),
        ("codec.list_floats", "pairs of eleven numbers, seven malformed texts", "round trip; an error"),
        ("codec.hex", "every byte string of 0..4 (thorough 6)", "round trip"),
        ("codec.hex_text", "every text of 0..3 (thorough 4) bytes, every text of 0..5 digits and near digits, in white space or not", "the bytes, or an error"),
        ("codec.base64", "every byte string of 0..5 (thorough 8)", "round trip"),
        ("codec.base64_text", "every text of 0..5 of twelve characters, with white space among and around them or not", "the bytes, or an error"),
        ("codec.time_day", "8 kinds, every month, the first and last days and three others, four (thorough six) years, several zones", "round trip to the precision of the type"),
        ("codec.time_clock", "every hour, minute, second, several fractions, several zones", "same"),
        ("codec.time_digits", "8 kinds, any two adjacent digits, three zones", "the instant written, or an error", dict(t=800)),
        ("codec.time_zones", "4 (thorough 8) kinds, zones of symbolic hours or minutes", "same", dict(t=800)),
        ("codec.time_fraction", "fractions of 0..3 (thorough 4) and 6 more digits", "same"),
        ("codec.time_bad", "any one byte replaced or inserted anywhere, or the text cut short", "an error unless the text is still well formed"),
        ("codec.time_lists", "lists of 0..3 times of 8 kinds, any white space between", "round trip"),
        ("codec.doc_times", "documents with times in elements, repeated elements, attributes and content, through encoding/xml", "round trip"),
        ("codec.doc_bad", "the same with one malformed", "an error"),
        ("codec.doc_bytes", "documents with any bytes in elements, attributes and content", "round trip"),
        ("codec.doc_lists", "documents with lists in elements and attributes", "round trip"),
        ("gen.list_types", "lists of every built-in type, named, anonymous, derived, of derived types", "an error or code that compiles, with the methods"),
        ("gen.helper_types", "types derived from each of the types with methods, in elements, attributes, lists", "code that compiles, fields of the right type", dict(q=80, t=800)),
    ])
CHECKS["C20"] = dict(
    note=STD + "The configuration under test is built twice, once with the option and its undoing, and both generate code from the same documents, which is compared as printed text; effects are checked on the generated declarations.",
    outside=["options that were given in one call of Option: only the last can be undone, as documented", "sequences of more than two (thorough three) options", "custom loggers other than a counting one"],
    harnesses=[
        ("gen.undo", "20 options after 0..1 (thorough 2) of the others, undone, perhaps redone", "the code generated before"),
        ("gen.only", "three types in two namespaces that use one another arbitrarily, selected in six ways", "the selected and the needed types, no others"),
        ("gen.replace", "0..2 (thorough 3) of seven replacements, one of them invalid", "type, field names and NameOf after all in order"),
        ("gen.ignore", "elements and attributes, required or not, excluded by name, in a base and a derived type, with or without a target namespace", "absent, and all others present"),
        ("gen.package", "package names", "as given"),
        ("gen.process", "two user-defined processors", "applied to every type once, in order"),
        ("gen.imports", "three documents importing one another, in a cycle, twice, without location, missing", "read exactly if asked for"),
        ("gen.missing", "a file that does not exist, in either position", "an error"),
        ("gen.reuse", "one configuration used for two of four sets of documents, one after the other", "the same code as from a new configuration"),
        ("gen.wsdl_undo", "12 options of wsdlgen after 0..1 (thorough 2) of the others, undone, perhaps redone", "the code generated before", dict(q=90, t=800)),
        ("gen.wsdl_log", "log level and destination, changed and undone", "messages go to the destination of the moment"),
        ("gen.wsdl_logparts", "destination and level of either generator, an option of wsdlgen undone, perhaps redone and undone", "the same messages to the same destinations", dict(q=90)),
        ("gen.wsdl_package", "package names and comments, twice", "as given, then the documentation of the service"),
        ("gen.ports", "two ports selected by name or not", "exactly the methods of the selected ports", dict(q=90, t=800)),
    ])
CHECKS["C22"] = dict(
    note=STD + "The whole of wsdlgen (with xsdgen, wsdl and xsd) runs symbolically on definitions built from choices; its output is printed, parsed again, and type-checked by go/types (also run symbolically); methods are compared with the choices.",
    assumptions=["the declarations of standard packages in harness/gen/types.go and std.go agree with the real ones for what generated code uses", "goimports adds exactly the imports that are needed"],
    outside=["more than three parts, two ports, two operations per port", "overloaded operations", "the layout of the message inside the SOAP body"],
    harnesses=[
        ("gen.parts", "0..3 input and 0..2 output parts of three types, thresholds 0..3", "context and parts in order, or a wrapper of exactly those; results likewise and an error"),
        ("gen.part_types", "parts of 22 types, given by type or element, three at a time", "their Go types"),
        ("gen.part_names", "two input and one output part of names that clash with one another, keywords and names in the body", "output compiles, parts in order", dict(q=120, t=800)),
        ("gen.ports", "two ports of two operations, selected by name or not, four verbs, actions", "one method per operation of a selected port, with its address, verb and action", dict(q=90, t=800)),
        ("gen.messages", "two operations that share messages or not, thresholds", "wrappers consistent with uses"),
        ("gen.own_types", "types in the schema that are named like what a client declares", "output compiles"),
        ("gen.op_names", "names of operations that are no Go names", "one exported method each"),
        ("gen.same_ops", "operations of the same name in two ports", "one method each"),
        ("gen.one_way", "operations without input or output", "no parameters, or only an error"),
        ("gen.quoted", "addresses and actions of special characters", "as written"),
    ])

GEN = "harness/%sgen runs the generator of the current tree on the schemas below; what it writes is compiled, and that code, with encoding/xml and reflect, is executed symbolically. "
CHECKS["C26"] = dict(
    note=STD + GEN % "docs" + "The oracle is the document itself: what is encoded is tokenized again and compared element by element.",
    assumptions=["what is generated for one type does not depend on other types of the schema, except as C17 and C18 vary them"],
    outside=["schemas other than those of harness/docsgen", "elementFormDefault unqualified (known limitation: local elements are always qualified)", "infinities and NaN (encoding/xml writes them as +Inf and NaN)", "wildcards, mixed content and built-in list types", "time zones and years outside those listed (C19)"],
    harnesses=[
        ("docs.order", "orders with 0..2 lines, 0..1 (thorough 2) tags, optional parts there or not, notes and tags of 1..2 special characters, three styles", "the same document", dict(q=90, t=800)),
        ("docs.special", "a type at the end of a chain of three extensions with a choice", "same"),
        ("docs.tree", "every tree of degree 0..2 and depth 2 (thorough 3) of a recursive type", "same"),
        ("docs.chain", "every list of 1..4 (thorough 5) elements, every binary tree of depth 2 (thorough 3), of types that refer to themselves through elements that need not be there, one of them derived", "same, absent elements stay absent"),
        ("docs.plain", "documents of a schema without a target namespace, optional parts there or not, repeated elements 0..2 times, three styles", "same"),
        ("docs.names", "eleven elements and attributes with clashing Go names", "same"),
        ("docs.mix", "elements of two namespaces, some of the same local name", "same"),
        ("docs.content", "simple content with attributes, derived twice", "same"),
        ("docs.padded", "values of every type other than strings, in six places, in white space of three kinds", "the value without it"),
        ("docs.builtin", "38 built-in types: attribute, attribute of a derived type, single, optional, repeated, derived, simple content; limits of the number types", "same"),
        ("docs.qname", "an element of type QName", "same (known finding)"),
        ("docs.bytes", "repeated elements of type unsignedByte", "same (known finding)"),
        ("docs.models", "a repeated choice, an optional sequence, a group 0..2 times, an element declared twice, attributes of other namespaces", "same"),
        ("docs.foreign", "elements whose type is of another namespace, an attribute referred to in its own namespace", "same (known findings)"),
        ("docs.malformed", "15 malformed values in six places", "an error"),
    ])
CHECKS["C27"] = dict(
    note=STD + GEN % "docs" + "gen.soap runs the generator itself symbolically and type-checks its output.",
    outside=["arrayType with sizes or several dimensions", "arrays that use attributes of encoding positions (offset, position)"],
    harnesses=[
        ("gen.soap", "every built-in and fifteen declared item types, some with names that end in digits or are those of built-ins, with or without brackets, attributes before, after, inherited or none, used before or after the declaration", "a slice, or a struct with the attributes; output compiles", dict(q=150, t=800)),
        ("docs.arrays", "12 item types, 0..3 (thorough 4) items with any of four element names, two namespaces, three styles", "the items decoded, encoded, and decoded again", dict(q=90, t=800)),
        ("docs.labelled", "an array with two attributes of its own", "items and attributes"),
        ("docs.array_bytes", "arrays of unsignedByte", "one element for every item (known finding)"),
        ("docs.malformed_array", "a malformed item of four types", "an error (known finding for two)"),
    ])
CHECKS["C28"] = dict(
    technique="symbolic execution of the generated client with a recording transport: arguments, answers, faults and truncations are solver variables",
    note=STD + "harness/callsgen generates a client for a definition of two ports with the generator of the current tree; harness/minihttp, a small stand-in for net/http, hands requests to a recording server.",
    assumptions=["harness/minihttp treats requests, headers, contexts and transports as net/http does for what the client uses", "what is generated for an operation depends on the others only as C22 varies it"],
    outside=["definitions other than the one of harness/callsgen", "HTTP status codes (the client does not look at them)", "empty answers to one-way calls"],
    harnesses=[
        ("calls.request", "two calls of any of eight operations with any text of 1..2 (thorough 3) special characters", "address, method, action, context, every argument once"),
        ("calls.hooks", "any operation with or without each hook", "hooks see every request and response once, and theirs is used"),
        ("calls.errors", "transport errors, every truncation, malformed envelopes, faults with any code and text of 0..2 characters, with details or not", "an error, with the code and text of the fault"),
        ("calls.oneway", "any of eight operations, eight status codes, an answer with nothing, space, a comment or an envelope of three kinds", "nothing is needed in answer to one-way operations, if the status is a success; anything else is an error"),
        ("calls.results", "responses of three operations, two names of the element around them, two ways to write namespaces, space and comments or not, parts in any order, any two characters", "the results are the parts"),
        ("calls.kinds", "values of ten built-in types received and sent again", "the same text, the right value (known finding for three)"),
    ])
CHECKS["C29"] = dict(
    note=STD + "Oracle: encoding/xml reading the whole document and decoding at the element; both sides are executed symbolically.",
    outside=["mixed content, comments and inner XML of the element (Marshal does not keep them)", "types other than the two of harness/tree/c29.go (any content; attributes, numbers, pointers, paths, nested structs)"],
    harnesses=[
        ("tree.unmarshal_ns", "declarations of the default and one prefix, or none, at each of three (thorough four) levels with any of two URIs, names with and without prefix", "the same value or an error on both sides", dict(q=90, t=800)),
        ("tree.unmarshal_name", "names of elements that mean something in HTML (symbolic, 2..3 letters, and ten more) or begin with xml", "the same value or an error on both sides"),
        ("tree.unmarshal_value", "any text of 1..2 (thorough 3) of nine characters where numbers, booleans and text are expected", "same"),
        ("tree.unmarshal_modified", "attributes, content and children changed after parsing, any of a few characters", "the element as it is now"),
        ("tree.unmarshal_shapes", "nesting of depth 2 (thorough 3) of five shapes", "same"),
    ])
CHECKS["C30"] = dict(
    note=STD + "Oracle: Parse of the original documents (whose own correctness is C11-C16), and the documented normal form checked on the trees and on what they are written as.",
    outside=["schema markup inside appinfo", "schemas outside the fragments of harness/schema/c17.go and c30.go"],
    harnesses=[
        ("schema.normal_one", "nine fragments beginning at any, with one (thorough two) of six more, written compact or indented", "normal form; same schemas from Parse"),
        ("schema.normal_docs", "two or three namespaces in two or three documents or one, two spellings of each, shadowed prefixes", "same"),
        ("schema.normal_name", "names of a type, an element in it, an attribute and a top-level element from three letters, any minOccurs 0..2", "same"),
    ])
CHECKS["C31"] = dict(
    note=STD + "Files are kept in memory by the engine; golang.org/x/tools/imports.Process is modelled as the identity (natively it runs).",
    assumptions=["goimports formats and completes imports deterministically"],
    outside=["flag errors, which end the process", "-r rules other than those listed (C25)", "options of the configuration that a flag of the same meaning overrides"],
    harnesses=[
        ("gen.cli_xsd", "output default, new or present in two spellings; package name set before, by flag, both; four -ns lists; four -r lists; three verbosities; five lists of files; pairs of neighbours (thorough: all)", "file written, error", dict(q=120, t=800)),
        ("gen.cli_wsdl", "the same for wsdlgen, with -c and -port", "same", dict(q=120, t=800)),
        ("gen.cli_none", "no files", "an error, nothing written"),
    ])
CHECKS["C32"] = dict(
    note=STD + "Oracle: the words of the documentation elements, in order.",
    assumptions=["gofmt keeps the words of comments"],
    outside=["markup inside documentation", "documentation of facets and references, and inside extension or restriction of complex content", "types whose generated comment states their enumeration, pattern or length instead", "white space other than that words are separated"],
    harnesses=[
        ("schema.docs_each", "sixteen places that can be annotated, six forms of annotation with four forms of text at one of them, a word at the others", "Doc of every schema, type, restriction, element and attribute"),
        ("schema.docs_many", "two annotations of a type and its content, of a schema, of two elements that become one", "same"),
        ("schema.docs_same", "two annotations of symbolic words, one possibly part of the other, of a type and its content, in one annotation, of a schema, of two elements that become one", "all of the words, in order"),
        ("schema.docs_text", "two texts of 3 (thorough 4) and 2 characters", "same"),
        ("gen.docs_types", "seven kinds of generated types, six texts at one of them (escapes, several lines, 12 kB, characters not allowed in Go source)", "comment of every generated type"),
        ("gen.docs_wsdl", "service, two operations and a type, six texts at one of them", "package comment, comments of methods and types"),
        ("gen.docs_text", "3 (thorough 4) characters of a type or operation", "same"),
    ])
CHECKS["C33"] = dict(
    note=STD + "No oracle beyond an error or a result: a panic, and a path of more than 60 million instructions where others take less than a million, is a failure.",
    outside=["documents deeper than three declarations below the schema, or with other attributes than those listed in harness/schema/c33.go and harness/gen/c33.go", "xmltree.Parse on arbitrary bytes (C01) and Unmarshal (C29)", "exhaustion of memory by size alone"],
    harnesses=[
        ("schema.odd_two", "26 element names with seven sets of attributes, inside the same, in a schema", "Normalize, Parse, FindType, Base, Imports return"),
        ("schema.odd_three", "26 element names inside one another, three levels, one (thorough 30) combinations of attributes", "same", dict(t=600)),
        ("schema.odd_beside", "two of seven kinds of declarations of one name beside one another with seven sets of attributes, four uses of the name", "same"),
        ("schema.odd_value", "2 (thorough 3) characters as the value of any of twenty attributes", "same"),
        ("schema.odd_root", "one to three of six documents: empty, of other elements, with schemas inside schemas", "same"),
        ("gen.odd_types", "22 element names with six sets of attributes in a declaration (thorough: and in one another), three configurations", "GenCode, GenAST, NameOf, DocType return", dict(t=900)),
        ("gen.odd_content", "22 element names inside one another in a complex type, three (thorough 18) sets of attributes, one (thorough three) configurations", "same", dict(t=900)),
        ("gen.odd_array", "0..4 (thorough 5) characters as value of arrayType", "same"),
        ("gen.odd_name", "1..3 characters as the name of types, elements and attributes, three configurations", "same", dict(t=300)),
        ("gen.odd_wsdl", "one (thorough two) attributes of a definition missing or with one of nine values", "wsdlgen GenAST returns", dict(t=900)),
        ("gen.odd_part", "eleven element names inside one another in a definition, four sets of attributes", "same", dict(t=600)),
    ])
CHECKS["C34"] = dict(
    note=STD + "Generated source is type-checked by the go/types of the same run; the names of its fields' types are compared with NameOf.",
    outside=["NameOf of names that no document declares", "names other than of two letters, and options other than the default ones (C18, C20)"],
    harnesses=[
        ("gen.names_types", "two names of one or two symbolic characters, each a struct, enumeration, list, restricted integer or date (quick: ten of the pairs), used by an anonymous and a top-level element; thorough: NameOf before or after GenAST", "NameOf of every type reached from DocType, names of the types of fields, DocType", dict(q=120, t=900)),
        ("gen.name_chain", "a type over another (simple content, restriction with or without a facet, list) over six kinds of types, used by two elements; NameOf asked before GenAST or not, in two orders", "NameOf is the type of the fields", dict(q=80, t=300)),
    ])
