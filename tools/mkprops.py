import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p("C01","Scalar value validation is exact",
 "Validating a value against a string, integer, number, boolean, date/time, file, nil or any type reports no error exactly when the value has a kind that type admits and satisfies every enforced facet: inclusive minimum and maximum, inclusive length bounds counted in characters for strings, the pattern, the date/time layout of the type or format, and membership in the enumeration compared by value. A value outside is never truncated, rounded or coerced into acceptance, a value inside is never rejected, and neither the value nor the type is changed. Facets the implementation documents as not enforced on values (multipleOf, number format, file types) play no part.",
 ["inputs"],"every scalar type, every combination of facets and every Go value a decoder can hand over, including NaN, infinities, numbers beyond 2^53 and 2^63, and non-ASCII strings",
 "The tests sample a few dozen values per type; the facet x value space (boundaries, numeric kinds, fractional floats, enum kinds) is infinite.",
 ["scalars.go","shape.go","node.go"],
 [("per-type validate","scalars.go: (*XShape).validate"),("entry","shape.go: (*BaseShape).Validate")],["BaseShape.Validate"])
p("C02","Array value validation is exact",
 "Validating a value against an array type reports no error exactly when it is a sequence whose length lies within the inclusive item bounds, every element (first to last) is valid against the item type when one is declared, and, when unique items are required, no two elements are equal as JSON values. Validation changes neither the value nor the type.",
 ["inputs"],"every array type, every sequence of any length and any item type",
 "Tests use short arrays of one scalar kind; nothing establishes that every position is checked for arrays of any length.",
 ["complex.go"],[("array validation","complex.go: (*ArrayShape).validate"),("uniqueness hash","complex.go: hashInterfaceFast")],["BaseShape.Validate"])
p("C03","Object value validation is exact",
 "Validating a value against an object type reports no error exactly when it is a map whose size lies within the inclusive property bounds, every required property is present, every declared property present is valid against its own type, no undeclared property is present when additional properties are forbidden, and otherwise every undeclared property that matches some pattern property is valid against at least one pattern property it matches. Declared properties take precedence over patterns, and the verdict does not depend on map iteration order.",
 ["inputs"],"every object type with any number of properties and patterns, and every map value",
 "Tests enumerate small objects; precedence, several missing or extra properties, patterns overlapping with properties and iteration order are only sampled.",
 ["complex.go"],[("object validation","complex.go: (*ObjectShape).validate, validateProperties, validateProperty, validatePatternProperty, findMissingRequired")],["BaseShape.Validate"])
p("C04","Union and recursive validation dispatch",
 "A value is valid against a union type exactly when it is valid against at least one member, whatever the order and number of members; against a recursive reference exactly when it is valid against the type that reference stands for; and validating through any public entry point gives the verdict of the type itself. No member, alternative or error is silently skipped.",
 ["inputs"],"every union of any number of members in any order, every recursive reference, every value",
 "Tests use two- or three-member unions; the any-member quantifier over all unions and values is not covered.",
 ["complex.go","shape.go"],[("union dispatch","complex.go: (*UnionShape).validate"),("recursive dispatch","complex.go: (*RecursiveShape).validate"),("entry","shape.go: (*BaseShape).Validate")],["BaseShape.Validate"])
p("C05","Scalar inheritance only narrows",
 "When a scalar type inherits from a parent of the same kind successfully, every value bound, length bound, enumeration and format that results is at least as strict as the parent's and as the child's own declaration; a facet the child leaves out is taken over from the parent and a facet it declares is kept. When the child's declared bound or enumeration would admit more than the parent's, or its format does not agree with the parent's, inheritance is refused with an error, a parent of another kind is refused, a compatible one is never refused, and the parent is left unchanged.",
 ["inputs"],"every pair of parent and child facet values of every scalar type",
 "Each facet has nil/equal/looser/tighter cases on both sides; tests cover a handful of single-facet combinations, none over the whole numeric range.",
 ["scalars.go"],[("facet merge","scalars.go: (*XShape).inherit"),("enum subset","scalars.go: isCompatibleEnum")],["unwrapped shape facets"])
p("C06","Structural inheritance keeps the parent's contract",
 "When an object, array or union type inherits successfully, every property and pattern property of the parent is present in the result, a property the parent requires stays required, a property the child declares keeps its own declaration merged with the parent's, item and property-count bounds are at least as strict as the parent's, undeclared settings are taken over from the parent, and custom facets and description are filled in but never overwritten. A looser bound, a required property made optional, or an incompatible parent kind is refused; an error in merging any nested property, item or member is never dropped.",
 ["inputs"],"every parent/child pair with any number of properties, patterns, members and facets",
 "The merge loops run over any number of properties; tests check small fixed fixtures and few error paths.",
 ["complex.go","shape.go"],[("object/array/union merge","complex.go: inherit, inheritProperties, inheritPatternProperties, inheritMinProperties, inheritMaxProperties"),("base merge","shape.go: (*BaseShape).Inherit, inheritUnionSource, inheritUnionTarget")],["BaseShape.Inherit"])
p("C07","Contradictory type definitions are rejected",
 "Checking a type reports an error exactly when the type or anything nested in it is contradictory: minimum above maximum for any bound pair, an enumeration or file-type entry of a kind the type cannot hold, an unknown integer format, pattern properties together with forbidden additional properties, or a discriminator with no properties, naming a missing or non-scalar property, or carrying a value its property rejects. Every nested property, pattern property, item and union member is checked and its error is reported.",
 ["inputs"],"every type of every kind with any facets and any nesting",
 "Nested types of any number and depth must be visited; tests sample single violations at top level.",
 ["scalars.go","complex.go","shape.go"],[("check","scalars.go, complex.go: check, checkProperties, checkPatternProperties"),("entry","shape.go: (*BaseShape).Check")],["BaseShape.Check","RAML.ValidateShapes"])
p("C08","Model validation covers every type, example, default and annotation",
 "Validating a parsed and unwrapped model succeeds only if every declared type and annotation type of every loaded fragment is consistent, every example, named example, included example set and default of every type conforms to that type, required custom facets are present and conform to their definitions while undeclared ones are refused, and every annotation value conforms to its annotation type. One failing item anywhere makes validation fail, whatever the other items are, and a model in which every item conforms is accepted, unless a hook objects.",
 ["inputs"],"every model with any number of fragments, types, examples, facets and annotations in any order",
 "The walk visits collections of any size and accumulates errors; a skipped element or dropped error shows up only for particular positions and combinations.",
 ["validate.go"],[("walkers","validate.go: ValidateShapes, validateFragments, validateLibrary, validateDataType, validateTypes, validateDomainExtensions"),("per shape","validate.go: validateShapeCommons, validateExamples, validateShapeFacets, validateObjectShape")],["RAML.ValidateShapes"])
p("C09","Copies of a type are faithful and independent",
 "A deep copy of a type has the same kind, the same facets, the same properties in the same order, members, items, parents and annotations as the original, made of copied nested types, and shares with it nothing that inheritance or unwrapping later changes; copying never changes the original. Within one copy operation a type reached twice is copied once; a shallow copy keeps the nested types themselves but has its own facet and annotation tables.",
 ["inputs","histories"],"every type graph, including shared and cyclic references, and every later mutation of the copy",
 "Aliasing shows only after a particular later mutation of a particular nested element; tests compare a few copies for equality.",
 ["shape.go","complex.go","scalars.go"],[("copying","shape.go: (*BaseShape).clone, CloneShallow, CloneDetached, Clone"),("per kind","complex.go, scalars.go: clone, cloneShallow")],["BaseShape.Clone","BaseShape.CloneDetached","BaseShape.CloneShallow"])
p("C10","JSON Schema conversion keeps every constraint",
 "Converting a type to JSON Schema yields a schema of the matching JSON type that carries each supported constraint of the type with exactly its value: bounds, lengths, pattern, format, enumeration, item and property bounds, uniqueness, nested items, properties in order, exactly the required names, pattern properties, additional properties, union members in order, plus title, description, default and examples; a constraint the type does not declare is absent. The converted type is not changed.",
 ["inputs"],"every type of every kind with any facets, properties and members",
 "Each facet is optional and independent, properties and members are any number; tests compare a few fixed outputs.",
 ["jsonschemaconv.go"],[("conversion","jsonschemaconv.go: Convert, Visit, VisitXShape, makeSchemaFromBaseShape")],["JSONSchemaConverter.Convert"])
p("C11","JSON Schema copies and maps lose nothing",
 "A deep copy of a JSON Schema equals the original in every keyword and shares with it no nested schema, keyword list or keyword table (data values such as enumeration members, defaults, examples and annotations are carried over as they are); a shallow copy equals it in every keyword. Rendering a schema as a map contains every keyword that is set, under its JSON Schema name with its value, and no keyword that is not set.",
 ["inputs"],"every schema with any subset of keywords set and any nesting",
 "There are some forty independent optional keywords; a dropped, swapped or shared one is visible only for schemas that set that keyword.",
 ["schema.go"],[("copy","schema.go: ShallowCopy, DeepCopy"),("map","schema.go: Map")],["JSONSchemaGeneric.DeepCopy","JSONSchemaGeneric.Map"])
p("C12","Names resolve to the declared type or an error",
 "A reference without a qualifier resolves to the type of that name declared in the referring fragment, and a qualified reference to the type of that name in the library bound to that qualifier in the referring fragment, splitting at the last dot; annotation references resolve only among annotation types. An unknown name, qualifier or location is an error, never another type and never an absent one, and lookups change nothing.",
 ["inputs"],"every reference name (any number of dots, empty parts), every fragment kind, any set of declared types and libraries",
 "Name spaces and reference strings are unbounded; tests look up a few names.",
 ["fragment.go","raml.go","common.go"],[("lookup","fragment.go: GetReferenceType, GetReferenceAnnotationType, CutReferenceName"),("registry","raml.go: GetReferencedType, GetReferencedAnnotationType, GetTypeFromFragmentPtr, GetAnnotationTypeFromFragmentPtr, PutTypeIntoFragment")],["RAML.GetReferencedType","Fragment.GetReferenceType"])
p("C13","Type expressions denote the type they spell",
 "Resolving a type expression gives: a built-in type for a built-in name; for T[] an array whose items are T; for T? and for alternatives a union of exactly the given members, in order (T? adds nil); for a parenthesised expression the type inside; and for a reference the resolved named type, inherited from when the referring declaration adds its own facets. Any error inside a sub-expression is reported, and resolving a type twice has no further effect.",
 ["inputs"],"every parse tree of the type-expression grammar, of any nesting and number of alternatives",
 "Expressions nest arbitrarily; tests evaluate a dozen expressions.",
 ["rdt_visitor.go","resolve.go"],[("evaluation","rdt_visitor.go: Visit*"),("resolution","resolve.go: resolveShape, resolveMultipleInheritance, resolveLink")],["parsed shapes"])
p("C14","Every declared facet is decoded into the type",
 "Decoding a declaration visits every key/value pair exactly once, in order: each facet the type knows sets exactly that facet, everything else is kept as a custom facet under its own name, and any malformed value is an error, as is a dangling key (union and JSON types have no facets of their own and ignore them). A property is required unless its name ends in '?' or its declaration says otherwise; a name written /pattern/ declares a pattern property that may not carry a required marker; the kind of an untyped declaration follows from its facets, with conflicting facets refused.",
 ["inputs"],"every mapping node with any number of keys in any order and any values",
 "Key order, repeated and unknown keys and combinations of optional markers are unbounded; tests use fixed documents.",
 ["shape.go","complex.go","scalars.go"],[("decode","shape.go: decode, decodeValueNode, identifyShapeType, makeShapeType, MakeConcreteShapeYAML"),("facets","complex.go, scalars.go: unmarshalYAMLNodes, unmarshalYAMLNode"),("properties","complex.go: makeProperty, makePatternProperty, chompImplicitOptional, unmarshalProperty")],["parsed shapes"])
p("C15","YAML data keeps its structure and values",
 "Turning YAML data (examples, defaults, enumerations, custom facets, annotations) into values maps a mapping to a map with the same keys and converted values, a sequence to a list with the same elements in order, scalars to the value YAML gives them with timestamps kept as text; an alias and any other kind of node is reported as an error, and a nested failure is reported, never replaced by a partial value. An include inside data is replaced by the content of the named file relative to the including file: YAML files give their data, JSON files named at the root of the value theirs, every other file its text. A root text starting with '{' is read as JSON.",
 ["inputs"],"every YAML node tree of any size and nesting",
 "Trees are unbounded; tests convert a few documents and cannot show that element k is converted for every k.",
 ["node.go"],[("conversion","node.go: yamlNodeToDataNode, scalarNodeToDataNode, makeYamlNode, makeRootNode, makeIncludedNode")],["Node.Value"])
p("C16","Recursive types are cut and traversal state is restored",
 "Marking recursion in a type graph replaces exactly the references that lead back to a type on the current path by recursive references to that type, in items, properties, pattern properties, union members and custom facet definitions alike, leaves every other reference as it was, and leaves no type flagged as being visited afterwards. Unwrapping likewise processes every nested type and marks the result as unwrapped, and an error in any nested type is reported.",
 ["inputs","histories"],"every type graph and every order of repeated operations on it",
 "The visited flag is shared mutable state: a missed reset is visible only to a later operation on a particular shared type.",
 ["unwrap.go","shape.go"],[("recursion","unwrap.go: FindAndMarkRecursion, findAndMarkRecursionIn*"),("unwrap","unwrap.go: UnwrapShape, UnwrapTarget, unwrap*Shape, unwrapParents"),("recursive shape","shape.go: MakeRecursiveShape")],["RAML.UnwrapShapes"],[{"name":"visited flag","meaning":"type is on the current traversal path","where":"shape.go: BaseShape.ShapeVisited"}])
p("C17","Hooks run in registration order and their errors stop the operation",
 "A hook appended runs after, and a hook prepended before, all hooks registered for the same key; removing a hook removes exactly that hook and keeps the order of the rest; clearing leaves none; other keys are unaffected. When an operation fires a key, the hooks registered at that moment each run once in order until one fails, and a hook error is returned by the operation.",
 ["histories"],"every sequence of append, prepend, remove, clear and fire operations on any keys, including hooks that change the registrations while running",
 "Histories are unbounded and the interesting ones reuse spare slice capacity or modify the list while it is being run.",
 ["raml.go","shape.go"],[("registry","raml.go: AppendHook, PrependHook, RemoveHook, ClearHooks, callHooks, getHooks, setHooks")],["RAML.AppendHook","RAML.RemoveHook"])
p("C18","Fragments are identified, loaded once and never confused",
 "A document is accepted as a fragment only if its first line, apart from trailing blanks, is exactly one of the known headers, and is treated as the kind that header names; a reference that needs a particular kind refuses every other kind. A library, data type or named example referred to while its location is already registered is that registered fragment, not read again, and registered fragments are not replaced by loading others; every 'uses' of a loaded library or data type leads to the library registered for that path. The entry point is set only to a fragment of the named kind whose header and content were accepted; otherwise it stays what it was.",
 ["inputs","histories"],"every header line, every location and every order of fragment loads",
 "Header strings and load orders are unbounded; tests cover the known headers and a few wrong ones.",
 ["parse.go","raml.go","fragment.go"],[("header","parse.go: ReadHead, IdentifyFragment, CheckFragmentKind"),("cache","parse.go: parseDataType, parseLibrary, parseNamedExample, parseFragment; raml.go: GetFragment, PutFragment")],["ParseFromPath","ParseFromString"])
p("C19","No declaration crashes the parser",
 "Decoding any well-formed YAML node as a type, facet table, example, library, data type or annotation either succeeds or returns an error; it never panics, whatever the node kinds, tags, lengths and nesting. The same holds for inheriting, checking, validating and converting the types that decoding produced.",
 ["inputs"],"every YAML node tree reaching a decoder",
 "Crashes need odd shapes (empty sequences, scalars where maps are expected, facet values of an unexpected kind) that tests do not enumerate.",
 ["shape.go","scalars.go","complex.go","fragment.go","example.go","extension.go","node.go"],[("decoders","UnmarshalYAML, unmarshalYAMLNodes, decode*, make*"),("consumers","validate, inherit, check")],["ParseFromString"])
p("C20","An alias denotes exactly the aliased type",
 "A declaration that only names another type accepts exactly the values that type accepts: after aliasing, every constraint of the source (bounds, pattern, enumeration, format, items, properties, members, additional-property and discriminator settings, default, examples, custom facets and their definitions) is in force on the alias. Aliasing a type of another kind is refused and the source is never changed.",
 ["inputs"],"every kind of type and every combination of facets",
 "Each kind copies its own facet list by hand; a missing facet is visible only for a type that sets it.",
 ["scalars.go","complex.go","shape.go"],[("alias","scalars.go, complex.go: alias"),("base","shape.go: (*BaseShape).AliasTo")],["BaseShape.AliasTo"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
