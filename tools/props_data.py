NOT_APPLICABLE = {}

MB = 'TLA+ specification model-checked with TLC; its behaviours replayed into the code and recorded runs of the code checked by TLC'
MBR = 'TLA+ specification model-checked with TLC; every emitted behaviour replayed into the code'
NOTE = ('Exhaustive within the small constants of the model, sampled (seeded) beyond them; the verdict comes from the real code built '
        'from /repo. Trusts TLC, the Go toolchain and the driver that maps abstract documents to text.')
XT = 'xmltree/xmltree.go'
MA = 'xmltree/marshal.go'

prop('C01', 'Names and prefixes resolve by the declarations of enclosing elements only',
     'Every element and attribute of a parsed document carries the expanded name that the namespace declarations of the element itself and its ancestors give it, the innermost declaration of a prefix winning and the default namespace not applying to attributes. A qualified name resolved at any element gives the same answer, with unresolvable prefixes reported as such, the reserved prefixes built in, and declarations made by siblings, descendants or closed elements never visible.',
     ['inputs'], 'All namespace-well-formed documents, all elements in them, all prefixes and local names.',
     'The tests resolve a few names in one fixed document; shadowing, undeclaring, reordering of declarations and leaks between siblings need documents nobody listed.',
     [XT], [('scope pushed per start tag', 'xmltree/xmltree.go:pushNS'), ('innermost-first lookup', 'xmltree/xmltree.go:ResolveNS')],
     ['Element.Name, Element.StartElement.Attr, Scope.Resolve, ResolveNS, ResolveDefault, Element.Attr'], MB, NOTE,
     [('scope', 'declarations in effect at an element', 'xmltree/xmltree.go:Scope')])

prop('C02', 'Turning an expanded name into a prefixed one is the inverse of resolving it',
     'At any element, an expanded name whose namespace is in scope is rendered as a qualified name that resolves, at the same element, to that very name: it uses the default namespace if it can, else the closest prefix, and never a prefix that an inner declaration has rebound. A name whose namespace is not in scope is rendered unqualified.',
     ['inputs'], 'All scopes that occur in namespace-well-formed documents, all names.',
     'No test has a shadowed prefix or a default namespace that hides another declaration when a name is rendered.',
     [XT], [('closest prefix search', 'xmltree/xmltree.go:Prefix')], ['Scope.Prefix, Scope.Resolve'], MB, NOTE)

prop('C03', 'Serialising any element gives a self-contained document of the same tree',
     'Serialising a parsed document, or any single element of it, compactly or with line prefixes and indentation, gives a well-formed document that parses to the same names, attributes, leaf content and order, in which every prefix that was in scope still means the same; decoding an element into a Go value sees that same document. Every line of an indented serialisation starts with the given prefix and one indent per level. If the destination fails at any point, the failure is reported.',
     ['inputs', 'fault_sequences'], 'All namespace-well-formed documents and all elements in them; text next to child elements is not part of the tree. All points at which the destination of the serialisation may fail.',
     'Tests compare a handful of documents with golden text; escaping, attributes in the default namespace, shadowed declarations and failing writers are not sampled.',
     [MA, XT], [('scope difference to the parent', 'xmltree/marshal.go:diffScope'), ('tag templates', 'xmltree/marshal.go:tagTmpl')],
     ['Marshal, MarshalIndent, Encode, String, Unmarshal'], MB, NOTE)

prop('C04', 'An edited tree serialises to exactly the edited document',
     'After any sequence of edits to parsed trees (setting attributes, replacing leaf content, renaming, removing, reordering, moving and copying elements within and between documents, reparsing) serialising a tree and parsing the result gives exactly the edited tree, with every prefix meaning what it meant at the place where the element came from. Editing one tree never changes another, and serialising changes none.',
     ['histories'], 'All sequences of edits on pairs of documents with conflicting or undeclared prefixes; names use namespaces that are in scope at the element.',
     'Tests make one edit on one document; conflicts arise only when declarations of several places meet after several edits.',
     [MA, XT], [('scope difference to the parent', 'xmltree/marshal.go:diffScope'), ('attribute replacement', 'xmltree/xmltree.go:SetAttr')],
     ['SetAttr, Children, Content, Marshal, Parse'], MBR, NOTE)

prop('C05', 'Searches return exactly the matching descendants, in document order',
     'Searching below an element visits each of its descendants exactly once, in document order and never the element itself, and returns exactly those accepted; a search by name compares the local name and, unless it is left empty, the namespace. The results are the elements of the tree, not copies.',
     ['inputs'], 'All trees, all starting elements, all names and predicates.',
     'Tests check that a few names are found, not completeness, order or duplicates for arbitrary trees.',
     [XT], [('recursive walk', 'xmltree/xmltree.go:SearchFunc')], ['Search, SearchFunc, Flatten'], MB, NOTE)

prop('C06', 'Tree equality is symmetric and ignores only space, order and prefixes',
     'Two trees compare equal exactly when they have the same names, the same attributes with the same values, the same leaf content up to surrounding white space, and their children can be paired so that each pair is equal, whatever the order of siblings or attributes and the prefixes in use. The answer does not depend on which tree comes first, and comparing never modifies a tree.',
     ['inputs'], 'All pairs of trees (up to a depth of 1000).',
     'The comparison is only used by other tests on inputs that are expected to be equal; unequal pairs, repeated siblings and asymmetry are not sampled.',
     ['xmltree/compare.go'], [('recursive comparison', 'xmltree/compare.go:equal')], ['Equal'], MBR, NOTE)

prop('C07', 'Parsing leaves its input alone in any encoding, and scopes are immutable',
     'Parsing never modifies the bytes it is given, nor memory next to them, and yields the same tree, in UTF-8, for a document whatever encoding it declares and whatever follows the declaration. No query, comparison, serialisation or joining of scopes changes the tree or what any scope obtained earlier resolves to; in a joined scope the inner scope is consulted before the outer one.',
     ['inputs', 'histories'], 'All documents in the supported encodings; all sequences of scope joins and queries on their elements.',
     'One small document in one encoding is tested; overwriting shows only when the input is looked at again, and shared storage only after particular sequences of joins.',
     [XT], [('conversion buffer', 'xmltree/xmltree.go:Parse'), ('copy on join', 'xmltree/xmltree.go:JoinScope'), ('capacity clamp', 'xmltree/xmltree.go:pushNS')],
     ['Parse, JoinScope, Resolve'], MBR, NOTE)

prop('C09', 'Parsing accepts exactly the properly nested documents and never panics',
     'A byte string is accepted if it is a sequence of well-formed tokens in which every element, up to the end of the root element, is closed by the tag that opened it, and rejected with an error if a tag is mismatched, a token is malformed or the input ends inside the root element; exactly one of a tree and an error is returned. Nesting of ordinary depth is accepted and stays intact, nesting far beyond it is refused with an error; no input makes parsing panic or hang.',
     ['inputs'], 'All token sequences up to the bound, all truncations of accepted ones, random damage, and nesting depths up to 300000.',
     'Tests parse valid documents only, apart from a depth test.',
     [XT], [('recursive descent with depth limit', 'xmltree/xmltree.go:parse')], ['Parse'], MBR, NOTE)

prop('C10', 'Dependencies are visited before their dependents, once each, in a stable order',
     'Traversing a dependency graph visits every vertex that occurs in it exactly once, and every vertex after all those it depends on unless the two lie on a common cycle. The order depends only on the set of dependencies, not on the order or repetition with which they were added, and repeated traversals agree.',
     ['histories'], 'All histories of additions over small vertex sets, exhaustive to the bound and random beyond it, cycles included.',
     'Two fixed graphs are tested; order bugs need particular diamonds, cycles or insertion orders.',
     ['internal/dependency/graph.go'], [('depth-first flattening', 'internal/dependency/graph.go:Flatten'), ('sorted adjacency', 'internal/dependency/graph.go:insertUnique')],
     ['Graph.Add, Graph.Flatten, Graph.Len'], MBR, NOTE)

XP = 'xsd/parse.go'
prop('C08', 'Simple types report exactly their declared facets, items and members',
     'For every simple type, whether named or anonymous, what is reported is what is declared: the enumeration values in order, patterns of one restriction as alternatives, lengths and digits, the bounds as a number or a point in time according to the type they restrict, whether it is a list and of what, and the member types of a union in order. A facet is never attributed to another type, and bounds that cannot be stored for a type are left out rather than rejected.',
     ['inputs'], 'All simple types made of restrictions, lists and unions nested in one another, all combinations of facets with valid values.',
     'Tests look at a few facets of single types; accumulation over facets, nesting of anonymous types and the bounds of each base type are not sampled.',
     [XP], [('facets of one restriction', XP + ':parseSimpleRestriction'), ('bounds by base type', XP + ':parseMinMaxRestriction')],
     ['Schema.Types, SimpleType.Restriction, Union, List'], MBR, NOTE)

prop('C11', 'Normalised schema are free of links, groups, shorthand and nested types',
     'Normalising returns one tree for each schema, in order, followed by the standard schema. In these trees no reference is left, groups are unpacked into the types that use them, every type is on the top level with a non-empty name that is unique in its namespace, whether declared or generated, complex types have exactly one simpleContent or complexContent, elements and attributes have a name and a type, and each type they name exists. No declared type is lost and no type invented.',
     ['inputs'], 'All valid sets of schema with named and anonymous types, groups, attribute groups and references, within and across namespaces.',
     'The result of normalising is only tested indirectly, on schema without nested references or clashing names.',
     [XP], [('naming of anonymous types', XP + ':copyEltNamesToAnonTypes'), ('dereferencing in dependency order', XP + ':flattenRef'), ('shorthand', XP + ':expandComplexShorthand')],
     ['xsd.Normalize'], 'TLA+ specification of normal form; trees recorded from the real code for TLC-generated schema are judged by TLC', NOTE)

prop('C12', 'Every reference in a schema resolves to the declaration it names',
     'Each type, base type, item, member, element, attribute and group reference leads to the declaration with that expanded name, whatever the prefixes, the order of declarations and documents, and whether it is in the same or another schema; builtin types only stand for names in the namespace of XML Schema. Chains of base types end in a builtin type. Anonymous types get names that clash with nothing. Referenced declarations keep their own name. Schema with undeclared or circular references are rejected with an error.',
     ['inputs'], 'All valid sets of schema, in all prefix styles, that mark local elements as qualified; all sets with undeclared or circular references up to the bound.',
     'Tests use one prefix style and one schema at a time; shadowed prefixes, same-named declarations, references across schema and cycles are not sampled.',
     [XP, 'xsd/index.go'], [('dereferencing', XP + ':deref'), ('linking', XP + ':resolvePartialTypes'), ('names of anonymous types', XP + ':nameAnonymousTypes')],
     ['xsd.Parse, Schema.Types, Schema.FindType'], MBR, NOTE)

prop('C13', 'Occurrence and flags of elements and attributes follow the whole content model',
     'An element is reported as plural if more than one of it can occur, given its own bounds and those of all compositors and group references around it, and as optional if it may be absent through its own bounds, an enclosing choice or optional group, or a default. Elements declared several times in one type are reported once, covering all declarations. Nillable, abstract, default, and the use of attributes are reported as declared.',
     ['inputs'], 'All content models up to the bound: nested compositors, wildcards, references and repeated elements with all kinds of bounds.',
     'Tests have flat sequences; bounds of enclosing groups and repeated names need nesting.',
     [XP], [('occurrence of groups', XP + ':propagateOccurs'), ('plural', XP + ':parsePlural'), ('repeated elements', XP + ':joinElem')],
     ['ComplexType.Elements, Attributes'], MBR, NOTE)

prop('C14', 'Groups and references mean the same as writing their content in place',
     'A type that uses element groups, attribute groups or references to global elements and attributes reports the same elements and attributes, in the same order and with the same types, as if the referenced content were written in place, however deeply groups use other groups and whichever namespace they are declared in.',
     ['inputs'], 'All valid sets of schema with groups, attribute groups and global elements and attributes, within and across namespaces.',
     'Tests have one level of references in one namespace.',
     [XP], [('unpacking', XP + ':unpackGroups'), ('merging of references', XP + ':deref')], ['ComplexType.Elements, Attributes'], MBR, NOTE)

prop('C15', 'Derivation and mixed content are reported for every chain of types',
     'Each complex type reports its base type, whether it extends or restricts it, and whether it can contain text: it can if it is declared mixed on itself or its complexContent (which takes precedence), has simple content, extends anyType or a type that can contain text, or is derived from a simple type; a restriction is mixed only by its own declaration. The answer does not depend on the order or the schema in which the types are declared.',
     ['inputs'], 'All chains of derivation up to the bound with all combinations of mixed attributes, within and across schema.',
     'Tests have chains of length one in one schema.',
     [XP], [('bubbling up of mixed', XP + ':propagateMixedAttr'), ('content kinds', XP + ':parseComplexContent')], ['ComplexType.Base, Extends, Mixed'], MBR, NOTE)

prop('C16', 'Names of builtin types and builtin types correspond one to one',
     'Every builtin type of XML Schema is known by exactly its name in the namespace of XML Schema and by no other, every constant has a name of its own and is found again by it, and a reference to such a name means the builtin type from every position of a schema, even if a type with the same local name is declared in another namespace; a reference to any other name never does. The schema for that namespace which Parse returns have all of them (anySimpleType excepted).',
     ['inputs'], 'All names of builtin types, near misses and other namespaces; all positions of a reference.',
     'Tests parse a few names; the table is built from generated strings and a list of exceptions.',
     ['xsd/builtin.go', 'xsd/builtin_string.go'], [('name of a constant', 'xsd/builtin.go:Name'), ('lookup', 'xsd/builtin.go:ParseBuiltin')],
     ['xsd.ParseBuiltin, Builtin.Name, xsd.Parse'], MBR, NOTE)

prop('C17', 'Imports lists each import and include of each schema in a document',
     'The list of schema that a document asks for has one entry, with namespace and location as written, for each import in it, and one, with the target namespace of the schema around it, for each include; it has nothing else, whether the document is a schema or contains several.',
     ['inputs'], 'All documents with up to two schema and three statements.',
     'Only one document with imports is tested.',
     [XP], [('search for statements', XP + ':Imports')], ['xsd.Imports'], MBR, NOTE)

XG = 'xsdgen/xsdgen.go'
prop('C18', 'Generating Go source from the same schema always gives the same bytes',
     'For the same schema and the same configuration, the generator terminates and writes byte for byte the same Go source each time, within one process, in another and when a configuration is used again, even for types that refer to each other in cycles.',
     ['inputs', 'schedules'], 'All valid sets of schema, with named and anonymous types, groups, lists, unions, dates, recursion and several namespaces; repeated runs, which differ in the order in which maps are traversed.',
     'Tests generate once; an order that leaks from a map shows up only in some runs and on schema with several types that compete for something.',
     [XG, 'xsdgen/config.go'], [('sorted traversal', XG + ':sortedNames'), ('flattening', XG + ':flatten1'), ('names of anonymous types', 'xsdgen/config.go:typeName')],
     ['Config.GenCode, Code.GenAST, Config.GenSource'], MBR, NOTE)

prop('C19', 'Generated Go source always compiles',
     'Whatever a valid set of schema declares, and whichever names, namespaces and ignored fields are configured, the generated source is one well-typed Go file of the configured package: no declaration, field, method or import is missing, unused, declared twice or recursive without an indirection, and names do not clash with each other or with what the file imports.',
     ['inputs'], 'All valid sets of schema as above, with names that compete for the same Go identifier.',
     'Tests check that a few well-behaved documents generate; clashes of names, helpers and imports depend on combinations of types.',
     [XG, 'xsdgen/config.go'], [('type specifications', XG + ':genTypeSpec'), ('Go names', 'xsdgen/config.go:typeName'), ('helpers', 'xsdgen/config.go:addStandardHelpers')],
     ['Config.GenSource, Code.GenAST'], MBR, NOTE)

prop('C20', 'Generated types have exactly the fields their schema type declares',
     'Each complex type that is not just a simple value becomes a structure with one field for each of its elements (in order), attributes and wildcards that are not ignored, those of its base types included and redeclared ones once, and one for its text if it can have text. A field carries the expanded name in its tag, is a slice if the element is plural, is marked as left out if it is empty exactly if it is optional, and has the Go type of its simple type or the type generated for its complex type.',
     ['inputs'], 'All valid sets of schema as above. References to global attributes are known to lose their namespace.',
     'Tests compare golden output for a few types; order, inheritance, plurality and tags of combinations are not sampled.',
     [XG], [('merging of base types', XG + ':expandComplexTypes'), ('fields', XG + ':genComplexType'), ('Go types', 'xsdgen/config.go:expr')],
     ['Config.GenSource, Code.NameOf'], MBR, NOTE)

prop('C21', 'Generated types decode valid documents and encode them again without loss',
     'A document that is valid for a type is decoded by the generated type without error into its values: every element and attribute arrives in its field with the value its lexical form means (numbers, booleans, dates and times with their zone, binary data, list items, text), whatever the order of differently named elements. Encoding the value gives a document with the same names and as many elements and attributes, which decodes to the same value; what was absent stays absent.',
     ['inputs'], 'All valid instances, up to a bound on depth and repetition, of all valid sets of schema; two attributes of one local name in one type, zero values in optional fields, wildcards and content of type QName excluded.',
     'Few tests run generated code, on one date and one list; a missing or wrong helper method shows only when the code for that combination of builtin type, list, repetition and position is run.',
     [XG, 'xsdgen/config.go'], [('helpers for dates and binary data', 'xsdgen/config.go:addStandardHelpers'), ('lists', XG + ':genSimpleListSpec'), ('fields that need helpers', XG + ':genComplexTypeMethods')],
     ['xml.Unmarshal and xml.Marshal with generated types'], MBR, NOTE)

prop('C23', 'Exactly the selected types and those they need are generated',
     'With target namespaces, type name patterns and allowed type names configured, the generated source declares every structure that was selected, or is the type of a selected global element, and every type its fields need, transitively and across namespaces, and no type that is neither selected nor needed. Ignored elements and attributes have no fields.',
     ['inputs'], 'All valid sets of schema with all selections of namespaces, type names, allowed types and ignored fields.',
     'Tests select one type or namespace of one schema.',
     [XG, 'xsdgen/config.go'], [('selection', XG + ':flatten'), ('dependencies', XG + ':flatten1')],
     ['Namespaces, OnlyTypes, AllowType, IgnoreElements, IgnoreAttributes'], MBR, NOTE)

prop('C22', 'Generation depends on current settings only, and options can be reverted',
     'A source is generated from the settings of the configuration as they are: each option changes one setting, additive options (Replace, ProcessTypes, AllowType) add to it in the order in which they were applied, and an invalid replacement changes nothing. Applying what an option returned restores the setting it changed to its previous value and touches no other one, and can be undone in the same way; of several options applied together it is the last. Generating, whether it succeeds or fails, changes no setting, and configurations that share options do not affect each other. Messages go to the current log only, and none at level 0.',
     ['histories', 'inputs'], 'All sequences of up to three steps over a catalogue of options (four for a smaller one) with one configuration, sampled sequences of 12 to 30 steps over all options with two or three configurations, with a source generated after each step.',
     'Tests apply options once to a new configuration; what is left behind by reverting, by generating and by failing needs a history.',
     ['xsdgen/config.go', 'xsdgen/cli.go'], [('application', 'xsdgen/config.go:Option'), ('additive options', 'xsdgen/config.go:Replace'), ('target namespaces', 'xsdgen/cli.go:GenCode')],
     ['Config.Option and all options, Config.GenSource'], MBR, NOTE)

prop('C24', 'All imported files are read exactly once, and output appears only on success',
     'When imports are followed, the source is generated from the given files and everything they import or include, directly or not, each file once, wherever it is relative to the importing one and however the files refer to each other, cycles included; it is the source that is generated if all of them are given. Otherwise only the given files are read. A file that cannot be read, a type or target namespace that is in none of them, is an error. The xsdgen command writes the same source as the library with the same settings to the chosen file, and nothing else; if anything fails it reports that, fails, and leaves the file as it was.',
     ['inputs', 'fault_sequences'], 'All graphs of three files with two choices of given files; sampled graphs of up to seven files in four directories with missing files, imports without location, all styles of relative and absolute locations, and all flags of the command.',
     'No test follows imports or runs the command.',
     ['xsdgen/cli.go', 'internal/commandline/cli.go', 'cmd/xsdgen/main.go'], [('reading', 'xsdgen/cli.go:readFiles'), ('command', 'xsdgen/cli.go:GenCLI'), ('replacement rules', 'internal/commandline/cli.go:Set')],
     ['Config.GenSource with FollowImports, the xsdgen command'], MBR, NOTE)

prop('C25', 'A WSDL definition is read completely, whatever its order and prefixes',
     'wsdl.Parse returns, in order, every port of every service with its name, address and HTTP method, and for each port all operations of the portType of its binding, with name, documentation, SOAP action and the names of their messages, and every message with its parts and their types or elements. Names are resolved with the namespaces in scope where they are used; what has the same local name in another namespace is not taken for it. The order of components, unrelated elements and the spelling of prefixes make no difference. An incomplete document is an error.',
     ['inputs'], 'All documents with three or four components in all orders, with SOAP, SOAP 1.2 and HTTP; sampled documents of ten to twenty components with up to four operations, ports or parts each and all ways to spell and scope a name. One binding, portType, message and operation for each name.',
     'Tests log what they parse from four documents and compare nothing.',
     ['wsdl/wsdl.go'], [('ports', 'wsdl/wsdl.go:parsePorts'), ('operations', 'wsdl/wsdl.go:parseOperations'), ('messages', 'wsdl/wsdl.go:parseMessages')],
     ['wsdl.Parse, Definition.String'], MBR, NOTE)

prop('C26', 'A generated client has one method per operation of the selected ports',
     'For every valid WSDL definition the generated source compiles, whatever the names of its operations, messages, parts, ports and schema types are, and however they clash. Its client type has exactly one method for each operation of each selected port, named after the operation by the configured rules, with its documentation. The method takes a context and the parts of the input message, and returns the parts of the output message and an error: separately up to the configured thresholds, in one struct with a field for each part above them. The package has the configured name and starts with the configured comment and the documentation of the service. Options that are applied or reverted, in any order and between generations, count as they are at that time, and the wsdlgen command makes the same source from the same settings.',
     ['inputs', 'histories'], 'All histories of three options on one definition; sampled histories of up to 20 options, with up to three generations, on sampled definitions of up to five messages, two portTypes and three ports, with 16 kinds of parts and names that clash or are no Go identifiers. Parts of declared types that exist.',
     'Tests generate from four definitions with default options and only log the source.',
     ['wsdlgen/wsdlgen.go', 'wsdlgen/config.go', 'wsdlgen/cli.go', 'internal/gen/gen.go'], [('methods', 'wsdlgen/wsdlgen.go:operation'), ('parameters', 'wsdlgen/wsdlgen.go:opArgs'), ('ports', 'wsdlgen/config.go:OnlyPorts'), ('command', 'wsdlgen/cli.go:GenCLI')],
     ['Config.GenSource and options of wsdlgen, the wsdlgen command'], MBR, NOTE)

prop('C27', 'Each call of a generated client sends its arguments and returns its own answer',
     'A method of a generated client sends one SOAP request, with the context of its caller, to the address and with the SOAP action of its operation, that has every argument in the element for its part in the format of its XSD type. It returns the values of the parts of the response to this request, in whatever order, form and with whatever headers they come, and no error. A fault (with its code and text in the error), a response that is not a SOAP envelope, is cut off or empty (unless the operation is one-way), a network failure and cancelling the context make it return an error, without waiting any longer. Calls at the same time do not affect each other. The request hook can change the request that is sent and the response hook the response that is decoded; both run once per call. Bodies of responses are closed.',
     ['inputs', 'schedules', 'fault_sequences'], 'All interleavings of starting, answering, failing and cancelling two calls, with all hooks (three calls without hooks); sampled interleavings of 4 to 20 calls on sampled definitions with 16 kinds of parts and nine kinds of answers. SOAP bindings; parts of builtin list types excluded.',
     'No test compiles or calls a generated client.',
     ['wsdlgen/wsdlgen.go', 'wsdlgen/helper.go'], [('calls', 'wsdlgen/helper.go:do'), ('messages', 'wsdlgen/wsdlgen.go:operation'), ('parts', 'wsdlgen/wsdlgen.go:opArgs')],
     ['methods of generated clients, HTTPClient, RequestHook, ResponseHook'], MBR, NOTE)

prop('C29', 'Generated types read and write only lexical forms of their XSD types',
     'A text that cannot be read as a value of its type (letters or too large a number for a number or integer, other words for a truth value, an impossible or misspelled date, time or part of a date, broken binary data) makes decoding of the document fail, wherever it occurs: in an element, an attribute, the text of an element or an item of a list, optional, repeated or inherited, of a builtin or a declared type. No value is invented, wrapped around or left out instead. What is encoded for a number, truth value, date or binary data is a lexical form of its XSD type.',
     ['inputs'], 'All sets of schema as for C21, with valid instances and with instances in which one non-empty text is replaced by one of a set of texts that are no value of its type.',
     'Tests that run generated code only decode valid documents, of two types.',
     [XG, 'xsdgen/config.go'], [('helpers for dates and binary data', 'xsdgen/config.go:addStandardHelpers'), ('lists', XG + ':genSimpleListSpec'), ('fields that need helpers', XG + ':genComplexTypeMethods')],
     ['xml.Unmarshal and xml.Marshal with generated types'], MBR, NOTE)

prop('C28', 'Types of SOAP arrays hold every item, whatever its elements are called',
     'With the options for SOAP arrays, a type that restricts soapenc:Array and names the type of its items in a wsdl:arrayType attribute (in any namespace, with any prefixes) becomes a Go type that holds items of that type: a slice if slices are asked for and the structure would have no field but the items, and a structure otherwise, with its further attributes. It compiles and decodes an array with any number of elements, of any names, into its items in their order, each with the value it has in its type, which may be a builtin or declared simple type, a structure, or an array again. Encoding has one element for each item and decodes to the same value, wherever the array is used: alone, or in single, optional and repeated elements. An item whose text has no value in its type is an error.',
     ['inputs'], 'All arrays of 27 builtin types in five forms of declaration, alone and in a structure; sampled schema of up to twelve types in two namespaces with simple types, lists, structures, recursion and arrays of arrays, with documents up to three arrays deep.',
     'Two examples compare the source that is generated for a boolean array; none runs it.',
     ['xsdgen/config.go'], [('type of items', 'xsdgen/config.go:parseSOAPArrayType'), ('slices', 'xsdgen/config.go:soapArrayToSlice'), ('wildcards', 'xsdgen/config.go:overrideWildcardType')],
     ['HandleSOAPArrayType, SOAPArrayAsSlice; xml.Unmarshal and xml.Marshal with generated types'], MBR, NOTE)

prop('C30', 'Whatever is wrong with a document, there is an answer, and it is complete',
     'No document, however broken, makes Parse, Normalize, Imports, wsdl.Parse or the generators panic or run forever. A document with a known fault in what is used (text that ends early, a name that is declared nowhere, a number, truth value or limit that is none, a type without a derivation or derived from itself) is rejected, with an error and no schema; one that is correct is accepted. What is accepted is complete: every type ends in a builtin type, and every element, attribute and member of a union has a type. The answer is the same the second time, the generators generate nothing from what Parse rejects, and the documents, the slice they are given in and files are left as they were.',
     ['inputs'], 'All single changes (removing, unwrapping, repeating, moving, wrapping and renaming elements, setting and removing attributes, cutting) of three documents that have all constructs (schema, SOAP arrays, WSDL), and sampled sequences of up to four (twelve) of these.',
     'Tests parse documents that are valid, and one or two that are not.',
     [XP, 'xsd/xsd.go', XG, 'wsdl/wsdl.go'], [('parsing', XP + ':Parse'), ('normalization', XP + ':Normalize'), ('errors', 'xsd/walk.go:catchParseError')],
     ['xsd.Parse, xsd.Normalize, xsd.Imports, wsdl.Parse, GenSource'], MBR, NOTE)

prop('C31', 'Documentation arrives where it belongs, and annotations change nothing else',
     'Every line of text in the documentation elements of the annotations of a schema, a type or its content, the restriction of a simple type, an element or an attribute (anonymous types and the targets of references included) is in the Doc of exactly what it is written for, in its order, whatever stands before, between or after it, and that of a structure, list or union is the comment of the type that is generated for it. Appinfo elements and markup do not appear there. Nothing else depends on annotations: even if they contain schema elements, the same types are reported and the same code is generated.',
     ['inputs'], 'All placements of one annotation (two for types and schema) on small declarations in four forms; sampled sets of schema with up to three items in each place and nine forms (one or two lines, CDATA, escaped, with markup, with schema elements, appinfo, empty). Annotations of references, groups, facets, lists and derivations are not reported.',
     'Tests compare the documentation of a few types; none has an appinfo, or markup that looks like schema.',
     [XP, 'xsd/xsd.go', XG], [('reading of annotations', 'xsd/xsd.go:UnmarshalXML'), ('types', XP + ':parseComplexType'), ('comments', XG + ':GenAST')],
     ['Doc of Schema, ComplexType, SimpleType, Restriction, Element and Attribute; comments of generated types'], MBR, NOTE)

prop('C32', 'Calls do not affect one another, whenever and by whomever they are made',
     'What a call of any of the packages returns depends on its arguments and nothing else: it is the same in any order of calls, and when any number of them run at the same time on the same documents, files and options, without data races. Whoever receives a result may change everything in it, and neither other results nor later calls are affected; reading a result (other than a Code, which remembers what it is asked for) changes nothing, so several may do so at once. Documents that are passed in are never written to.',
     ['schedules', 'histories'], 'All overlaps of two clients with two calls each (sampled: three and four) of all twelve operations; sampled behaviours of three to five clients with 16 to 40 calls on seven sets of documents with three sets of options. Overlap is at the granularity of calls; within them the race detector watches.',
     'All tests run one call at a time, on documents of their own, and never change a result.',
     [XP, 'xsd/xsd.go', 'xsdgen/builtin.go', 'wsdlgen/wsdlgen.go'], [('builtin types', XP + ':Parse'), ('expressions of builtin types', 'xsdgen/builtin.go:builtinExpr'), ('documents', XP + ':Normalize')],
     ['xmltree.Parse, xsd.Parse, xsd.Normalize, xsd.Imports, wsdl.Parse, GenCode, GenAST, GenSource, GenCLI'],
     'TLA+ specification of overlapping calls, model-checked with TLC; every emitted behaviour replayed with goroutines under the race detector and compared with isolated runs', NOTE)

prop('C33', 'Normalised schema mean what the original means',
     'The trees that Normalize returns can be written, with or without indentation, and parsed in place of the original: the same types are reported, with the same elements, attributes, facets, documentation and names, and the same code is generated from them. Normalising them again changes nothing.',
     ['inputs'], 'All small schema with groups, references, mixed content and nested simple types; sampled sets of up to three schema with everything the specification has.',
     'The result of Normalize is not used by any test but through Parse.',
     [XP], [('normalization', XP + ':Normalize'), ('anonymous types', XP + ':copyEltNamesToAnonTypes'), ('unpacking of groups', XP + ':unpackGroups')],
     ['xsd.Normalize, xmltree.Marshal, xmltree.MarshalIndent, xsd.Parse, GenSource'], MBR, NOTE)

prop('C34', 'A command depends on its arguments and files only, and changes one file or none',
     'In any history of runs and changes of files, a run of xsdgen or wsdlgen writes the source that the library generates with the same settings from the files as they are then to the file that is named or that is the default, replacing whatever was there, even if that was one of the files it read, and touches no other file. xsdparse prints the normalised schema of the given files in order, of the namespace that is asked for or of all, each a document of its own. Replacement rules apply in the order given; flags may be spelled in all usual ways; verbosity changes messages only, and without it a run that succeeds says nothing. A run that cannot do what it is told, because of its arguments or of any file, says so, has an exit status other than 0, and leaves every file as it was.',
     ['histories', 'fault_sequences', 'inputs'], 'All histories of a run, a change of a file and another run over a smaller set of arguments (a sample of them is replayed); sampled histories of 12 to 40 steps over all arguments, with files that are absent, spoiled, copied or generated before.',
     'No test runs a command.',
     ['cmd/xsdgen/xsdgen.go', 'cmd/wsdlgen/wsdlgen.go', 'cmd/xsdparse/xsdparse.go', 'xsdgen/cli.go', 'wsdlgen/cli.go', 'internal/commandline/cli.go'],
     [('xsdgen', 'xsdgen/cli.go:GenCLI'), ('wsdlgen', 'wsdlgen/cli.go:GenCLI'), ('replacement rules', 'internal/commandline/cli.go:Set'), ('xsdparse', 'cmd/xsdparse/xsdparse.go:main')],
     ['the commands xsdgen, wsdlgen, xsdparse'], MBR, NOTE)
