#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as code so the long text stays editable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
       "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
       "observe_at":observe,"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Parsing builds exactly the document's tree, and rejects what is not well formed",
 "For every UTF-8 document, xmltree.Parse either returns an error or a tree whose elements, in document order, have the names, non-xmlns attributes, nesting and raw inner bytes (Content) that the XML token stream of the document has. A document the standard XML tokenizer rejects before the end of the root element is rejected, one it accepts is accepted (up to the documented nesting limit), and Parse never panics and never modifies the bytes it is given.",
 ["inputs"],"every byte string as a document: element and attribute names, prefixes, text, comments, CDATA, entities, truncations, nesting",
 "The tests parse two fixed documents and look at a handful of nodes; Content offsets, attribute order and rejection of malformed input are sampled at most once.",
 ["xmltree/xmltree.go"],[("recursive descent over the token stream, content slicing by input offset","xmltree/xmltree.go Parse, (*Element).parse")],
 ["xmltree.Parse result: Name, StartElement.Attr, Children, Content"])
p("C02","QName resolution uses the innermost in-scope namespace declaration",
 "At any element of a parsed document, resolving prefix:local yields the URI of the innermost in-scope declaration of that prefix (an unprefixed name uses the default namespace; the prefixes xml and xmlns always mean their reserved namespaces), and a prefix with no declaration is reported as unresolved with the prefix itself left as the namespace. ResolveDefault differs only in giving unprefixed names the supplied non-empty default namespace. A scope made by JoinScope resolves like the outer scope with the inner declarations nested in it.",
 ["inputs"],"every nesting of namespace declarations, every prefix, URI and QName string (including empty, reserved and multi-colon ones)",
 "The tests resolve four prefixes in one document; shadowing, several declarations on one tag, siblings that must not leak into each other, and odd QNames are not reached.",
 ["xmltree/xmltree.go"],[("scope stack pushed per element, searched innermost first","xmltree/xmltree.go pushNS, ResolveNS, ResolveDefault, JoinScope")],
 ["Scope.Resolve, Scope.ResolveNS, Scope.ResolveDefault, Scope.JoinScope"])
p("C03","Prefixing a name is the inverse of resolving it",
 "In any scope, for any name whose namespace has a usable (not shadowed) prefix or default declaration in that scope, or is reserved, the string made by Prefix resolves, in the same scope, back to exactly that name. For a name whose namespace cannot be found, Prefix returns the unqualified local name.",
 ["inputs"],"every scope built by nested declarations, including redeclared prefixes and several prefixes for one URI, and every name",
 "No test calls Prefix directly, and the documents marshalled in tests never redeclare a prefix that an inner name needs.",
 ["xmltree/xmltree.go"],[("reverse search of the scope stack, favouring the default namespace","xmltree/xmltree.go (*Scope).Prefix")],
 ["Scope.Prefix followed by Scope.Resolve"])
p("C04","Marshalling an element and parsing the result gives the element back",
 "For every element of every parsed document that declares the prefixes it uses and whose markup holds either child elements or text, Marshal (and Encode, String) produces a document that parses, and the parsed tree has the same namespace-resolved element names, attribute names and values, child structure and leaf content, and resolves every prefix usable at an element to the same namespace. MarshalIndent produces the same document up to white space between elements, with each element on lines of its own that begin with the prefix and a copy of the indent for each level of nesting.",
 ["inputs"],"every document and every sub-element of it: attribute values needing escapes, namespaced attributes, redeclared or inherited prefixes, empty and nested elements; also trees whose children were removed or moved",
 "The tests marshal one document and mostly check that it parses again; no attribute value in them needs escaping and no attribute shares its namespace with the default one.",
 ["xmltree/marshal.go","xmltree/xmltree.go"],[("tag templates, Prefix for names, scope diffing against the parent","xmltree/marshal.go tagTmpl, encode, diffScope")],
 ["xmltree.Marshal, MarshalIndent, Encode, Element.String, then xmltree.Parse"])
p("C05","Encode reports every write error, and stops nothing else",
 "If any Write on the destination given to Encode fails, Encode returns a non-nil error; if none fails, it returns nil and the destination has received exactly the bytes Marshal returns. This holds wherever in the output the failure occurs.",
 ["fault_sequences","inputs"],"every position of the first failing write, over every element tree in the bounds",
 "Tests only encode into buffers, which never fail.",
 ["xmltree/marshal.go"],[("errors returned from the template and writer calls","xmltree/marshal.go encode, encodeOpenTag, encodeCloseTag")],
 ["error returned by xmltree.Encode with a failing io.Writer"])
p("C06","Equal is an order-, space- and prefix-insensitive equivalence that only reads",
 "Equal(a, b) holds exactly when both elements have the same resolved name, the same attributes (xmlns declarations aside) and, up to reordering, equal children, or for elements without children the same text up to surrounding white space. It is reflexive and symmetric, and it does not modify the elements it compares.",
 ["inputs"],"every pair of small trees: attributes on one side only, repeated sibling names in any order, differing text or namespaces",
 "Equal has no direct test; generated tests call it on two pairs of trees that are equal.",
 ["xmltree/compare.go"],[("attribute map comparison and sorted pairwise comparison of children","xmltree/compare.go equal, equalElement")],
 ["xmltree.Equal"])
p("C07","Searches return each matching descendant once, in document order",
 "SearchFunc(f) calls f on every descendant of the element, never the element itself, exactly once and in depth-first document order, and returns pointers into the tree to exactly those for which f was true, in that order. Flatten is the search that accepts everything; Search(space, local) is the search for that local name and, unless space is empty, that namespace.",
 ["inputs"],"every tree shape and name assignment in the bounds, every predicate outcome per node, every (space, local) query",
 "Tests count the results of one search.",
 ["xmltree/xmltree.go"],[("recursive walk over Children by index","xmltree/xmltree.go walk, SearchFunc, Search, Flatten")],
 ["results of Element.SearchFunc, Search, Flatten"])
p("C08","Attribute set and get agree and touch nothing else",
 "After SetAttr(space, local, v), Attr(space, local) returns v; if a matching attribute existed the first such one is replaced in place, otherwise one attribute is appended, and every other attribute keeps its name, value and order. Attr(space, local) returns the first attribute with that local name whose namespace equals space (any namespace when space is empty), or the empty string.",
 ["inputs","histories"],"every attribute list, every (space, local, value), every short sequence of SetAttr calls",
 "No test calls SetAttr directly; Attr is exercised on attributes that are unique by local name.",
 ["xmltree/xmltree.go"],[("linear scans of StartElement.Attr","xmltree/xmltree.go Attr, SetAttr")],
 ["Element.Attr, Element.SetAttr, Element.StartElement.Attr"])
p("C09","A document in another declared encoding parses like its UTF-8 transcoding",
 "For a document that declares a supported non-UTF-8 encoding, Parse gives the same tree, including Content and independently of document length and of what follows the XML declaration, as for the document transcoded to UTF-8; and it does not modify the bytes it is given.",
 ["inputs"],"every byte of a single-byte-encoded document in its names, attribute values and text; documents longer than the internal read sizes",
 "One ISO-8859-1 file is parsed and one attribute value in it is looked for; Content, short documents and long documents are not checked.",
 ["xmltree/xmltree.go"],[("CharsetReader that copies the transcoded stream and pads it so offsets line up","xmltree/xmltree.go Parse")],
 ["xmltree.Parse result and the input slice afterwards"])
p("C10","Built-in type names are a bijection",
 "Looking up a qualified name among the XML Schema built-ins succeeds exactly when it is the canonical name of a built-in, and returns that built-in; distinct built-ins have distinct names. Every other name is reported as not built in.",
 ["inputs"],"every qualified name (any namespace, any local name up to the bound) and every built-in value",
 "Tests reach about a dozen built-ins by way of parsed schemas.",
 ["xsd/builtin.go","xsd/builtin_string.go"],[("name table and case rule for the first letter","xsd/builtin.go Name, ParseBuiltin; xsd/builtin_string.go")],
 ["xsd.ParseBuiltin, Builtin.Name"])
p("C11","A parsed schema is closed: every reference resolves and every base chain ends",
 "When xsd.Parse succeeds, every type declared at the top level or inside an element, attribute, list or union is in its schema under its name; every base, element, attribute and union member refers to the very type declared under that name or to a built-in; and following Base from any type reaches a built-in in finitely many steps. A schema that refers to an undeclared type, or whose types derive from themselves, is rejected with an error; Parse neither panics nor fails to terminate. The schema it returns for the XML Schema namespace holds every built-in type of that namespace, and FindType finds what a schema declares or derives from.",
 ["inputs","programs"],"every small set of type declarations with arbitrary names, kinds and (forward, backward, self, cyclic, cross-schema or dangling) references among them",
 "The fixed schemas in testdata are all valid, acyclic and complete; nothing tests what happens otherwise, nor the shape of the type graph.",
 ["xsd/parse.go","xsd/xsd.go","xsd/walk.go"],[("two-pass resolution of linked types","xsd/parse.go Parse, resolvePartialTypes, lookupType, addElementTypeAliases"),("panic/recover error path","xsd/walk.go catchParseError")],
 ["xsd.Parse results: Schema.Types, Base chains, FindType"])
p("C12","Element and attribute declarations keep their cardinality, default and flags",
 "For every element particle, Plural is true exactly when minOccurs or maxOccurs, of the particle or of a sequence, choice, all or group reference around it at any depth, allows more than one occurrence (unbounded included), and Optional exactly when minOccurs is written as 0 on the particle or on one of those around it, a default is given, or one of those around it is a choice; Nillable, Abstract and Default are as written, attributes are Optional unless use is required, and malformed numbers and booleans are errors. Repeated declarations of one element name in a content model become a single element that is optional if any of them is, and plural if any of them is or if two of them may occur together (not being alternatives of a choice).",
 ["inputs"],"all minOccurs/maxOccurs digit strings within the bound plus unbounded, all boolean spellings, all nestings of sequence, choice, all and group references, default, nillable, use",
 "testdata has one plurality case; numeric edges, choice of sequences, repeated names and malformed values are not covered.",
 ["xsd/parse.go"],[("parseInt/parsePlural/parseBool, the choice pre-pass and the walk over particles","xsd/parse.go parseElement, parsePlural, setChoicesOptional, walkParticles, maxOccurs, joinElem, parseAttribute, unpackGroups")],
 ["fields of xsd.Element and xsd.Attribute"])
p("C13","A reference means the same as writing out what it refers to",
 "A schema in which an element, attribute, group or attributeGroup is used through ref (forward or backward, chained, from any prefix spelling of the namespace) parses to the same elements and attributes - same names, types, order and flags, with attributes written on the reference taking precedence - as the schema with the referenced declaration written out in its place. A ref to something undeclared is an error.",
 ["inputs","programs"],"every placement and chain of refs, any order of declarations, any names and prefixes, any extra attributes on the reference",
 "Two testdata schemas use ref (one of them is a failing test at the pinned commit); chains, forward references and overrides are not tested.",
 ["xsd/parse.go","xsd/index.go","internal/dependency/graph.go"],[("index by name and kind, dereference in dependency order, unpack groups","xsd/parse.go flattenRef, deref, unpackGroups; xsd/index.go")],
 ["xsd.Parse results, compared between the two spellings"])
p("C14","Anonymous types get distinct names and stay attached to their owner",
 "Every anonymous simpleType or complexType in a schema appears among the parsed types under a name used by no other type of that namespace, and the element, attribute, list, union or restriction of a simple type that contained it refers to exactly that type (a complex type whose simple content is restricted by an anonymous simple type still derives from the base it names); no two different type definitions are ever merged, dropped or exchanged. Types named by the author keep their names and content.",
 ["inputs","programs"],"every nesting and arrangement of anonymous types in elements, attributes, lists, unions and restrictions, with any names, in one or several schemas",
 "One testdata schema has two anonymous types; name clashes, several anonymous types per union and nesting are not covered.",
 ["xsd/parse.go"],[("copyEltNamesToAnonTypes, then _anonN counters","xsd/parse.go copyEltNamesToAnonTypes, nameAnonymousTypes")],
 ["xsd.Parse results; Anonymous flag; types reached from elements and attributes"])
p("C15","Mixed content follows the derivation rules",
 "After parsing, a complex type is Mixed exactly when it is written mixed, has simple content or derives from a simple type, extends anyType, or extends a complex type that is Mixed by these rules, at any depth of derivation and in whatever order the types are declared or visited. A type that restricts another complex type is Mixed only if written so.",
 ["inputs","schedules"],"every derivation chain up to the bound, every combination of mixed flags and derivation methods, every declaration order and map visiting order",
 "One testdata schema covers two links of one chain in one order.",
 ["xsd/parse.go"],[("bottom-up propagation over the base chain","xsd/parse.go propagateMixedAttr, parseSimpleContent, parseComplexContent")],
 ["ComplexType.Mixed"])
p("C16","Simple type facets are recorded as written",
 "For a restriction of a simple type, enumerations are recorded all and in order, length, minLength, maxLength, totalDigits and fractionDigits have the written integer values, minimum and maximum the written number (or date for date types; limits of other kinds of times, of durations and of parts of dates, and of types derived from them, are accepted and not recorded), and several patterns are alternatives of one another: the recorded expression matches a string exactly when one of them does. List and union types keep their item and member types in order; malformed facet values are errors, not panics.",
 ["inputs"],"all facet combinations and orders, all numeric and enumeration values within the bound",
 "Tests cover one date restriction and one list.",
 ["xsd/parse.go"],[("facet switch","xsd/parse.go parseSimpleRestriction, parseMinMaxRestriction, parseSimpleType")],
 ["SimpleType.Restriction, List, Union, Base"])
p("C17","Results do not depend on map iteration order",
 "Parsing the same documents, and generating code from them with the same options, gives the same types and the same Go declarations every time: no part of the result depends on the order in which maps happen to be iterated.",
 ["schedules"],"every iteration order of every map ranged over while parsing and generating, for the schemas in the bounds",
 "Go randomises map order per run; a test sees one order per run and most tests look at one type.",
 ["xsd/parse.go","xsdgen/xsdgen.go","xsdgen/config.go"],[("sorted output keys, dependency graph with sorted targets","xsdgen/xsdgen.go GenAST, rangeMap, flatten, expandComplexTypes; internal/dependency/graph.go")],
 ["xsd.Parse results and Code.GenAST declarations under different map orders"])
p("C18","Generated structs carry each element and attribute exactly once",
 "In the Go struct generated for a complex type, every element and attribute of the type, inherited ones included and ignored ones excluded, is carried by exactly one field whose tag names it (with attr for attributes), whose type is a slice exactly when it is plural and the Go type mapped to its schema type, and which is omitempty exactly when optional or nillable and not plural (encoding/xml would leave out the zero values among the items; a slice of bytes is no such slice). Field names within a struct are distinct, no struct contains itself (fields that would make it do so are pointers), and every type name used is a Go built-in, an imported type or declared exactly once in the output, for any names within the options' reach. Unless namespaces are asked for, this goes for the types of every schema of the documents, with or without a target namespace.",
 ["inputs","programs"],"every small complex type with arbitrary element and attribute names (including names that differ only in case, punctuation or digits, or that equal reserved field names), flags and inheritance",
 "Examples compare the output for five fixed schemas; name clashes are not among them.",
 ["xsdgen/xsdgen.go","xsdgen/config.go","xsdgen/builtin.go"],[("field emission and name generator","xsdgen/xsdgen.go genComplexType, nameGenerator, expandComplexTypes, mergeAttributes")],
 ["Code.GenAST struct declarations"])
p("C19","Generated text codecs round-trip every value",
 "For list types, binary types and the date/time types, the generated marshalling and unmarshalling methods compile for every item type the generator accepts, and unmarshalling what marshalling produced gives back the value: a list of the same items in the same order, the same bytes, the same instant to the precision of the type (for times from year 0 to 9999 in zones of whole minutes up to 23:59 from UTC; the zero time of Go is written as nothing). White space around binary values, and anywhere in base64, is not part of them. Malformed text is an error, never a silently wrong value; only what time.Parse tolerates (hours of one digit, a comma before a fraction of a second) and white space around times are left open.",
 ["inputs","programs"],"every built-in item type, every list up to the bound, every byte string up to the bound, every lexical form up to the bound",
 "gentests round-trips one document with one hex and one base64 field; no list type is ever compiled or run by a test.",
 ["xsdgen/xsdgen.go","xsdgen/config.go"],[("method bodies emitted as text","xsdgen/xsdgen.go genSimpleListSpec, addSpecMethods; xsdgen/config.go addStandardHelpers")],
 ["MarshalText/UnmarshalText methods of generated types"])
p("C20","An option undone restores the previous configuration",
 "Applying any xsdgen or wsdlgen option and then the option it returned leaves a configuration that generates exactly what it generated before, and logs to where it logged before, whatever had been configured earlier; and each option has the documented effect on the generated code (ignored attributes and elements are absent, allowed types and ports are the only ones present, replacements apply in the order given).",
 ["configurations","inputs"],"every option, every prior configuration reachable by a short sequence of options, every name given to them",
 "Examples apply options once; the returned options are never used.",
 ["xsdgen/config.go","wsdlgen/config.go"],[("each Option returns a closure restoring the old field","xsdgen/config.go, wsdlgen/config.go")],
 ["Config.Option, then Config.NameOf / generated declarations"])
p("C21","A WSDL definition is read completely and with names resolved",
 "wsdl.Parse returns every message with all its parts in order and its type or element names resolved, and for every port of the service its address, HTTP method (POST unless the binding names another verb) and, for the port type bound to it, every operation in order with its resolved input and output messages and the SOAP action given for that operation in that binding (operations of the same name are told apart by the names of their input and output). Nothing of one binding, port type or message leaks into another.",
 ["inputs","programs"],"every small WSDL document with arbitrary names, several bindings, ports and operations",
 "Tests parse four documents and only print them.",
 ["wsdl/wsdl.go"],[("name-matched searches from port to binding to portType","wsdl/wsdl.go parsePorts, parseOperations, parseMessages, parseMethod")],
 ["wsdl.Definition"])
p("C22","Each WSDL operation becomes one well-typed client method",
 "For every selected port operation, wsdlgen emits one method with the operation's Go name that takes a context and the input parts in order, or one wrapper struct holding exactly those parts when there are more than the input threshold, and returns the output parts in order (or a wrapper likewise) and an error; the request carries the port's address, HTTP method and SOAP action. An operation without input takes only the context, one without output returns only the error; where two ports have an operation of the same name, each has a method of its own. Every declaration emitted is consistent: the output compiles, wrappers are declared under the name used for them, and returned values match the declared results, whatever the parts, messages and types are called.",
 ["inputs","configurations","programs"],"every small operation (number, names and types of parts), every threshold, every name spelling, with and without a port filter",
 "Tests generate from four documents, check only that formatting succeeds, and never compile the result.",
 ["wsdlgen/wsdlgen.go","wsdlgen/config.go"],[("argument collection and method template","wsdlgen/wsdlgen.go opArgs, operation")],
 ["AST returned by wsdlgen Config.GenAST"])
p("C23","The dependency graph visits every node once, dependencies first",
 "Flatten calls the function exactly once for every node ever mentioned as a target or dependency and for nothing else; if the graph has no cycle, every node comes after all the nodes it depends on. It terminates on every graph, cyclic ones included, and the order depends only on the set of edges added.",
 ["inputs","histories"],"every sequence of Add calls up to the bound over arbitrary integer nodes",
 "Two fixed graphs are tested.",
 ["internal/dependency/graph.go"],[("sorted sets and depth-first post-order","internal/dependency/graph.go insertUnique, Add, Flatten")],
 ["sequence of calls made by Graph.Flatten"])
p("C24","Generated source text denotes exactly the text it was given",
 "A string rendered as a Go literal evaluates to the same string; a name passed through the identifier sanitizer is never a Go keyword, and is unchanged if it was not one; and a comment made from any text XML can carry contains nothing but comments, with every line of the text in it (byte order marks, which Go source cannot contain, aside). The value of a key is read back from the tag of a generated field.",
 ["inputs"],"every string up to the bound, over all bytes",
 "These helpers have no tests; generated files in tests contain only plain strings.",
 ["internal/gen/gen.go"],[("quoting choice, keyword table, line scanner","internal/gen/gen.go String, Sanitize, CommentGroup")],
 ["gen.String, gen.Sanitize, gen.CommentGroup"])
p("C25","Command-line rules are split, kept in order and rejected when malformed",
 "A replace rule given on the command line is split at its first arrow, with surrounding white space removed from both sides, and appended after the rules already given; a rule with no arrow or an invalid pattern is an error and leaves the list as it was. Imports lists every import and include of a schema document, in a fixed order, with its namespace (the target namespace for includes) and location.",
 ["inputs","histories"],"every rule string and document within the bound, every sequence of flags",
 "No test passes a rule or calls Imports.",
 ["internal/commandline/cli.go","xsd/parse.go"],[("SplitN and TrimSpace; Search for import/include","internal/commandline/cli.go Set; xsd/parse.go Imports")],
 ["ReplaceRuleList contents; xsd.Imports result"])
p("C26","Generated types carry the documents of their schema",
 "For a schema with elementFormDefault qualified, a valid document of a generated type decodes without error, and encoding the decoded value gives a document with the same elements, attributes and text: elements of the same name in the same order, nothing lost, nothing changed (values are compared as values of their type, which for times and binary data means the same text in canonical documents, and white space around numbers, booleans, times and binary data does not matter), nothing added. Only this may differ: order of elements of different names, white space between elements, an optional element or attribute with the zero value of its type may be left out, and an element of complex type that is absent because it is optional or one of a choice may appear. A value that is malformed for a number, boolean, time or binary type is an error. This holds for inherited content, content of two namespaces, simple content, recursion through repeated and through optional elements, anonymous types, names that clash in Go, model groups that are optional or repeated, elements and attributes referred to in another namespace, and elements, attributes and content of every built-in type other than the list types (known findings: QName; repeated elements of type unsignedByte; local elements whose type is of another namespace; attributes referred to in the schema of their own namespace).",
 ["inputs","programs"],"every document of the given schemas within the bounds: which optional parts are there, how often elements are repeated, any characters in text and attributes, three styles of writing namespaces and space",
 "Tests unmarshal one sample document for each of a few schemas and compare some of the values; none encodes what it decoded.",
 ["xsdgen/xsdgen.go","xsdgen/config.go","xsdgen/builtin.go"],[("struct tags, overlay structs and helper types","xsdgen/xsdgen.go genComplexType, genComplexTypeMethods; xsdgen/config.go addStandardHelpers")],
 ["xml.Unmarshal and xml.Marshal of the types returned by xsdgen"])
p("C27","SOAP arrays become slices that encode and decode item by item",
 "With the default options, a complex type that restricts soapenc:Array with wsdl:arrayType T[] and has no other attributes becomes a slice of the Go type of T; if it has other attributes it becomes a struct of a slice of the items and those attributes. Decoding the slice appends one item for every child element, whatever its name, in order, with the value of that element. Encoding writes one element for every item, in order, and the arrayType attribute naming T in its namespace; decoding that gives the same items. This holds for every type T, built-in or declared, including other arrays. An item that is malformed is an error. (That malformed items of plain types are dropped, and arrays of unsignedByte, are known findings.)",
 ["inputs","programs"],"every item type, every short list of items, any names of the item elements, attributes before and after arrayType, any order of declarations",
 "Two examples print what is generated for an array of booleans; no test decodes or encodes an array.",
 ["xsdgen/config.go"],[("wildcard override and post-processing of the struct","xsdgen/config.go parseSOAPArrayType, overrideWildcardType, soapArrayToSlice")],
 ["type and methods of the generated declaration; xml.Unmarshal and xml.Marshal of it"])
p("C28","A client call sends its arguments and returns what the server answered",
 "Calling a method of a generated client makes exactly one request, to the address, with the HTTP method and SOAPAction header of its operation and in the context of the call, after RequestHook if there is one; for POST its body is a SOAP envelope in which every input part appears once with the value of its argument. If the transport fails, the response (after ResponseHook) is not a complete envelope, or it holds a fault, the call returns an error, for a fault one with its code and text (but an operation without output needs no response other than a status of success); otherwise the results are the parts of the response, whatever the name of the element around them, and the response body is closed. (Parts declared with a built-in time or binary type are a known finding; parts of GET requests are not sent.)",
 ["inputs","fault sequences","programs"],"every operation of a definition of two ports, every text of arguments, results and faults up to the bound, every truncation of an answer, with and without hooks, two calls in a row",
 "No test runs a generated client.",
 ["wsdlgen/helper.go","wsdlgen/wsdlgen.go"],[("static client code and method template","wsdlgen/helper.go helpers; wsdlgen/wsdlgen.go operation")],
 ["requests seen by the transport; results and errors returned by the methods"])
p("C29","Unmarshal decodes an element as part of its document",
 "For any element of a parsed document that declares the prefixes it uses and whose elements hold either child elements or text, Unmarshal(el, v) succeeds exactly when the standard decoder, having read the whole document up to that element, succeeds in decoding it into v, and then gives the same value: names and attributes resolved with declarations of enclosing elements, children in order, text unescaped. It only reads the element.",
 ["inputs"],"every placement of namespace declarations over three levels, every small document and text within the bounds, at every element",
 "Tests decode elements of three sample documents without declarations between the root and the element.",
 ["xmltree/xmltree.go","xmltree/marshal.go"],[("decoding what Marshal writes","xmltree/xmltree.go Unmarshal; xmltree/marshal.go")],
 ["xmltree.Unmarshal result and error"])
p("C30","Normalize gives documents that mean the same in normal form",
 "The trees Normalize returns, one for every schema of the documents, are schemas from which Parse, after they are written with Marshal or MarshalIndent, reads exactly what it reads from the documents themselves. In them no reference is left anywhere, groups are merged where they are used, every simple and complex type is a child of the schema under a name no other type of its namespace has, every complex type has simple or complex content, and every element and attribute has a type. The documents are not modified.",
 ["inputs"],"every choice, order and rotation of schema fragments covering all kinds of declarations, several namespaces, shadowed prefixes, any names of three elements",
 "One test normalizes the sample schemas and looks at nothing but the error.",
 ["xsd/parse.go"],[("passes over the tree","xsd/parse.go Normalize, copyEltNamesToAnonTypes, nameAnonymousTypes, expandComplexShorthand, flattenRef, unpackGroups")],
 ["trees returned by xsd.Normalize; xsd.Parse of what they are written as"])
p("C31","A command line does what its options stand for, and writes one file or none",
 "GenCLI of xsdgen (-pkg, -o, -f, -v, -vv, any number of -r and -ns) and of wsdlgen (-pkg, -c, -o, -v, -vv, any number of -r and -port) write to the output file, or to xsdgen_output.go or wsdlgen_output.go if none is named, exactly the source that GenSource of a configuration with the corresponding options added makes of the same files: source that parses, begins with a generated-code notice, has the package name and comment asked for, and declares what was generated. Without files, or if a file is missing or not usable or a namespace has no schema, they return an error and leave the output alone. Nothing is logged unless asked for.",
 ["inputs","histories","faults"],"every combination of the values of two flags (thorough: of all) over the given documents, outputs new or present, files missing or malformed",
 "The tests call GenCLI with fixed arguments and look at little of what it writes.",
 ["xsdgen/cli.go","wsdlgen/cli.go","internal/gen/gen.go"],[("flag sets and option calls","xsdgen/cli.go GenCLI; wsdlgen/cli.go GenCLI; internal/gen/gen.go FormattedSource")],
 ["file written and error returned by GenCLI"])
p("C32","Documentation in a schema or service reaches declarations and comments",
 "Doc of every parsed schema, type, restriction, element and attribute consists of the text of all documentation elements of its own annotations, in document order and separated from each other, and nothing else: application information before, between or after them is skipped, escapes are resolved, and nothing is taken from nested declarations. The comment of the Go type generated for a struct, list, union or restricted time type, of the method for a WSDL operation and of the package for a WSDL service contains the text of its documentation, and that of no other declaration, whatever characters it has.",
 ["inputs","programs"],"every place that can be annotated, every arrangement of annotations and texts within the bounds",
 "Sample schemas have annotations, but no test looks at Doc or at comments.",
 ["xsd/xsd.go","xsd/parse.go","wsdl/wsdl.go","xsdgen/xsdgen.go","wsdlgen/wsdlgen.go","internal/gen/gen.go"],[("decoding of annotations and passing on of Doc","xsd/xsd.go annotation.UnmarshalXML, append; xsd/parse.go parseAnnotation and its callers; wsdl/wsdl.go documentation"),("comments","xsdgen/xsdgen.go spec.doc, GenAST; wsdlgen/wsdlgen.go operation, GenAST; internal/gen/gen.go CommentGroup")],
 ["Doc fields; comments in the source made by xsdgen and wsdlgen"])
p("C33","No document makes schema and service readers or generators fail to return",
 "For every well-formed document - valid, invalid, or with elements, attributes and values in places where they make no sense, with names used twice, and with references in circles - xsd.Normalize, xsd.Parse, xsd.Imports, GenCode and GenAST of xsdgen and GenAST of wsdlgen return after finitely many steps without a panic, with a result or with an error but not with both; and no chain of base types of a schema that was accepted is endless.",
 ["inputs"],"every document made of up to three nested elements of any names of the language and the listed sets of attributes, every value of an attribute within the bounds",
 "Tests read a dozen sample documents, all of them valid.",
 ["xsd/parse.go","xsd/xsd.go","xsdgen/xsdgen.go","xsdgen/config.go","wsdl/wsdl.go","wsdlgen/wsdlgen.go"],[("error handling by panic and recovery","xsd/parse.go stop, catchParseError, walk; xsdgen/xsdgen.go gen"),("recursive passes","xsd/parse.go Normalize passes; xsdgen/xsdgen.go flatten, expr")],
 ["return of the exported functions"])
p("C34","NameOf and DocType agree with the code that is generated",
 "For the Code that GenCode returns, NameOf of every type of the documents, named or anonymous, before and after GenAST, is the Go type that fields of elements and attributes of that type have in the generated source (in a slice if plural): the declaration made for it if there is one, the built-in Go type otherwise (a simple type that adds nothing to a built-in one may be declared, and named, for those derived from it, while fields are of the built-in type); no two types that are declared share a name, whatever they are called, and a name that is not of a type is not given the Go name of one. DocType of a target namespace has exactly its top-level elements, in order, and there is none for a namespace no document declares.",
 ["inputs"],"every pair of names within the bounds, all pairs of kinds of types",
 "Tests of wsdlgen depend on NameOf for a few names; none compares it with what is declared.",
 ["xsdgen/xsdgen.go","xsdgen/config.go"],[("memoized and generated names","xsdgen/xsdgen.go NameOf, DocType, gen, uniqueTypeNames; xsdgen/config.go typeName, public")],
 ["Code.NameOf and Code.DocType; declarations in the AST"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(d)+"\n" for d in P))
print(len(P))
