#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so it stays consistently formatted)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
AST="xsd-internal/src/ast/"; XP="xsd-internal/src/xsd/parse/"; X="xsd-internal/src/xsd/"

p("C01","Valid documents decode to exactly the data they contain",
 "For every schema built from the supported constructs and every document valid against it, decoding succeeds and the resulting value holds exactly the document's elements, attributes and text: nothing lost, invented, reordered or put in another field. Optional parts are absent exactly when the document omits them, and repeated parts keep their number and order.",
 ["programs","inputs"],"all supported schemas (the programs the generator compiles) x all valid instance documents of each root element",
 "The 45 example tests fix one schema and one document each; the interaction of constructs (nested groups, optional+repeated, references, inline types, attributes) is unbounded.",
 [AST+"leaf.rs",AST+"root.rs",AST+"element_definition.rs",AST+"leaf_content.rs","xsd/src/decode.rs",XP+"sequence.rs",XP+"element.rs"],
 [("generated decoder of a field","xsd-internal/src/ast/leaf.rs Leaf::from_xml_impl"),("generated decoder of a type","xsd-internal/src/ast/root.rs Root::from_xml_impl"),("group lookahead","xsd-internal/src/ast/root.rs Root::lookahead_impl"),("child cursor","xsd/src/decode.rs Node")],
 ["<Type>::from_xml"])
p("C02","Encoded documents carry exactly the value's data as schema-valid XML",
 "For every supported schema and every value of its generated types that a valid document denotes, encoding produces a well-formed document with the schema's element and attribute names, namespaces, order and nesting, holding exactly the value's data and nothing else. An independent XML parser sees the same tree as the reference rendering of that value.",
 ["programs","inputs"],"all supported schemas x all values representable by a valid document",
 "Tests compare a few fixed byte strings; wrapping, naming and ordering of nested/optional/repeated/fixed/choice content combine without bound.",
 [AST+"leaf.rs",AST+"root.rs",AST+"element_definition.rs",AST+"attribute.rs",X+"schema.rs","xsd/src/lib.rs"],
 [("generated encoder","xsd-internal/src/ast/leaf.rs Leaf::to_xml_impl; ast/root.rs Root::to_xml_impl"),("start tag assembly","xsd/src/lib.rs Context::write_start_element"),("document prologue and root namespaces","xsd-internal/src/xsd/schema.rs generate_element")],
 ["<Type>::to_xml"])
p("C03","Encoding followed by decoding is the identity, for any text",
 "For every supported schema and every value, decoding the encoded document returns a value equal to the original, including any text XML can carry: arbitrary Unicode characters, markup characters, leading, trailing and whitespace-only strings, empty strings and extreme numbers in elements and attributes. Encoding the decoded value again yields the identical bytes.",
 ["programs","inputs"],"all supported schemas x all values, with text drawn from the whole set of XML characters",
 "Tests use short ASCII words only; escaping, whitespace and empty-text behaviour are never varied.",
 [AST+"leaf_content.rs",AST+"attribute.rs",AST+"literal_type.rs",AST+"root.rs",X+"schema.rs","xsd/src/lib.rs","xsd/src/decode.rs"],
 [("text encoder","xsd-internal/src/ast/leaf_content.rs LeafContent::to_xml_impl"),("text decoder","xsd/src/decode.rs Node::text"),("attribute encoder","xsd-internal/src/ast/attribute.rs")],
 ["<Type>::to_xml","<Type>::from_xml"])
p("C04","Documents that violate the schema are rejected with a fitting error",
 "A document with a wrong root element, a missing required element or attribute, required elements in the wrong order, an unparsable number or boolean, an unknown enumeration value, a value different from the declared fixed one, no alternative of a required choice, or elements where text is expected is never decoded into a value. The reported error is of the kind that matches the fault and names the element, attribute, value or type concerned.",
 ["programs","inputs"],"all supported schemas x all single-fault corruptions of their valid documents",
 "No test decodes an invalid document at all.",
 [AST+"leaf.rs",AST+"root.rs",AST+"attribute.rs",AST+"leaf_content.rs",AST+"literal_type.rs","xsd/src/decode.rs"],
 [("required child","xsd/src/decode.rs Node::try_next_child/try_child"),("required attribute","xsd/src/decode.rs Node::try_attribute"),("fixed comparison","xsd-internal/src/ast/leaf_content.rs"),("choice fallthrough","xsd-internal/src/ast/root.rs MissingVariant")],
 ["<Type>::from_xml"])
p("C05","Every supported schema yields Rust code that compiles",
 "For every schema that the code generator accepts and whose names do not collide after conversion to Rust naming conventions, the generated module compiles, whatever the names (reserved words, digits, punctuation, case, non-ASCII letters) and whatever the nesting of constructs. Every global definition becomes a public type that can be encoded, decoded, cloned, compared and debug-printed.",
 ["programs"],"all supported schemas, with adversarial element, attribute, type and enumeration names",
 "Tests compile 45 schemas with friendly names; an ill-typed or unparsable expansion for any other combination is invisible to them.",
 ["xsd-internal/src/utils.rs",AST+"name.rs",AST+"root.rs",AST+"leaf.rs",XP+"mod.rs",X+"schema.rs"],
 [("identifier escaping","xsd-internal/src/utils.rs escape_ident"),("enum variant naming","xsd-internal/src/ast/root.rs escape_enum_names"),("virtual type naming","xsd-internal/src/xsd/parse/mod.rs derive_virtual_name")],
 ["rustc on the expanded module"])
p("C06","The generated Rust API mirrors the schema",
 "Every global element, type and inline type of a schema becomes a type whose public fields or variants correspond one to one to the schema's elements, attributes, groups and alternatives, with the Rust type of the declared built-in or named type, optional where the schema allows absence, a list where it allows repetition, and both where it allows both. Names follow Rust conventions derived from the schema names, so user code can construct and destructure values exhaustively.",
 ["programs"],"all supported schemas: every field, variant and type of each",
 "Each test touches the handful of fields of its one example.",
 [AST+"leaf.rs",AST+"attribute.rs",AST+"element_content.rs",AST+"literal_type.rs",AST+"root.rs",XP+"mod.rs",XP+"element.rs",XP+"complex_type.rs"],
 [("field types","xsd-internal/src/ast/leaf.rs Leaf::to_impl"),("attribute types","xsd-internal/src/ast/attribute.rs Attribute::to_impl"),("built-in mapping","xsd-internal/src/ast/literal_type.rs to_impl; xsd/context.rs literal_from_str"),("group naming","xsd-internal/src/xsd/parse/mod.rs derive_virtual_name")],
 ["type definitions of the expanded module"])
p("C07","Namespaces are honoured when decoding and encoding",
 "Elements are matched and written in the namespace the schema assigns them: global elements in the target namespace of their schema file, local elements in it only when that file declares them qualified, attributes in none, and names resolved through whatever prefixes or default namespace the schema file declares. A document using any prefixes for the right namespaces decodes identically, and one with a required element in the wrong namespace is rejected.",
 ["programs","inputs","configurations"],"all combinations of target namespaces, qualification, prefixes, default namespaces and imports x all valid documents and wrong-namespace corruptions",
 "Five tests cover one fixed prefix layout each and never a wrong namespace.",
 [X+"context.rs",AST+"namespaces.rs",X+"schema.rs",AST+"leaf.rs",AST+"root.rs","xsd/src/decode.rs"],
 [("name qualification","xsd-internal/src/xsd/context.rs get_node_name/get_type_name"),("written names","xsd-internal/src/xsd/context.rs get_xml_element_name"),("matched namespaces","xsd-internal/src/xsd/context.rs quote_xml_namespace")],
 ["<Type>::from_xml","<Type>::to_xml"])
p("C08","Decoding depends only on a document's information, not its spelling",
 "Two documents with the same element tree, attribute values and text decode to equal results, however they are written: comments, processing instructions, CDATA sections, character references, prefix choice and placement of namespace declarations, attribute order and quoting, foreign-namespace attributes, insignificant whitespace, XML declaration, byte-order mark and self-closing tags make no difference. The same holds for the errors of rejected documents.",
 ["programs","inputs"],"all supported schemas x all documents x all respellings that preserve the XML information set",
 "Each test decodes exactly one spelling.",
 ["xsd/src/decode.rs",AST+"leaf_content.rs"],
 [("element-only child iteration","xsd/src/decode.rs Node::new"),("text extraction","xsd/src/decode.rs Node::text"),("attribute lookup","xsd/src/decode.rs Node::attribute")],
 ["<Type>::from_xml"])
p("C09","Members of an xs:all group may come in any order",
 "For a type whose content is an all-group, every permutation of a valid document's members decodes to the same value, with optional members present or absent, and with nested content intact. Encoding writes each present member exactly once.",
 ["programs","inputs"],"all all-group schemas x all valid documents x all permutations of the members",
 "One test with two required members in one swapped order.",
 [XP+"complex_type.rs",AST+"leaf.rs","xsd/src/decode.rs"],
 [("unordered flag","xsd-internal/src/xsd/parse/complex_type.rs is_unordered"),("unordered child lookup","xsd/src/decode.rs Node::child")],
 ["<Type>::from_xml"])
p("C10","Decoding any text ends in a value or an error, never a crash",
 "For every supported schema and every input text whatsoever, decoding terminates and returns a value or an error without panicking, aborting or exhausting memory. Whenever it returns a value, encoding that value succeeds and decoding the encoding returns an equal value.",
 ["programs","inputs"],"all supported schemas x all strings (well-formed or not, near-valid or random)",
 "Tests feed only well-formed valid documents.",
 ["xsd/src/decode.rs",AST+"root.rs",AST+"leaf.rs",AST+"leaf_content.rs"],
 [("error propagation in generated code","xsd-internal/src/ast/*.rs from_xml_impl"),("cursor progress","xsd/src/decode.rs Node::next_child")],
 ["<Type>::from_xml"])
p("C11","Compiling any schema text ends in code or an error, never a crash",
 "For any schema files whatsoever (malformed XML, unsupported or contradictory declarations, dangling, circular or duplicate references and includes, odd or empty names), schema processing terminates and either yields syntactically valid Rust code or returns an error. It never panics, overflows the stack, loops or produces tokens that are not Rust items.",
 ["programs","inputs"],"all texts and sets of texts offered as schema files",
 "Tests never offer a schema that is not fully supported.",
 [X+"schema.rs",X+"context.rs",X+"node.rs",XP+"mod.rs",XP+"element.rs",XP+"complex_type.rs",XP+"simple_type.rs","xsd-internal/src/utils.rs"],
 [("error type of schema parsing","xsd-internal/src/xsd/error.rs"),("identifier construction","xsd-internal/src/utils.rs"),("reference resolution","xsd-internal/src/xsd/context.rs resolve")],
 ["Schema::parse_file / generate_all","xsd::all macro"])
p("C12","Unsupported or invalid schema constructs are reported where they occur",
 "A schema that uses a construct, attribute or type the generator does not support, or that lacks a mandatory part, is refused as a whole instead of being silently misread. The error identifies the file (also when it is an included one) and the line and column of the offending declaration, and names what is wrong; through the macro it surfaces as a compile error with that text. (Facets other than enumerations, default values and occurrence limits are accepted without being enforced.)",
 ["programs","inputs"],"all supported schemas x all single injected unsupported or invalid constructs x all positions",
 "No test contains an unsupported construct.",
 [X+"error.rs",X+"node.rs",X+"schema.rs",XP+"element.rs",XP+"complex_type.rs",XP+"simple_type.rs",XP+"attribute.rs",XP+"choice.rs",XP+"sequence.rs","xsd-derive/src/lib.rs"],
 [("unvisited attributes","xsd-internal/src/xsd/node.rs prevent_unvisited_attributes"),("unvisited children","xsd-internal/src/xsd/node.rs prevent_unvisited_children"),("position lookup","xsd-internal/src/xsd/schema.rs parse_with_context")],
 ["Schema::parse_file error","compile error of the macro"])
p("C13","Splitting a schema over included and imported files changes nothing",
 "Definitions distributed over any acyclic arrangement of included and imported files (nested, shared by several files, in any order, in sub-directories) give the same types, accept the same documents and write the same documents as if each reference were resolved directly. Paths are resolved relative to the file that contains the reference, and each included or imported definition is generated exactly once.",
 ["programs","configurations"],"all partitions of a definition set over files x all acyclic include/import graphs",
 "Two tests use exactly one include and one import.",
 [X+"schema.rs",X+"context.rs",AST+"namespaces.rs"],
 [("include/import merge","xsd-internal/src/xsd/schema.rs parse_schema_with_context"),("shared namespaces and dependencies","xsd-internal/src/xsd/context.rs SharedContext")],
 ["xsd::all macro","Schema::parse_file"])
p("C14","Schema spelling and definition order do not affect the generated code",
 "The order of global definitions (including references to later ones), the prefix bound to the schema namespace, comments, whitespace, attribute order, documentation-free annotations, foreign-namespace attributes and the XML declaration make no difference to the generated types or to what they read and write. Processing the same files twice generates the same set of items.",
 ["programs","configurations"],"all supported schemas x all respellings and definition orders",
 "Each test has one fixed spelling of its schema.",
 [X+"schema.rs",X+"context.rs",X+"node.rs",XP+"annotation.rs"],
 [("prefix resolution","xsd-internal/src/xsd/context.rs get_type_name"),("late resolution of names","xsd-internal/src/xsd/context.rs SchemaContext::resolve"),("custom attributes ignored","xsd-internal/src/xsd/node.rs prevent_unvisited_attributes")],
 ["xsd::all macro","Schema::generate_all"])
p("C15","Generating one element yields exactly it and all it depends on",
 "Generating a single definition together with its dependencies emits that definition and every definition transitively reachable from it through types, references, bases, attributes and inline types, each once, and nothing unrelated. Over any sequence of such requests that share a record of what was already emitted, no definition is emitted twice and the union is what generating everything emits for the requested names.",
 ["programs","histories"],"all supported schemas x all sequences of requested definitions",
 "No test calls this entry point.",
 [X+"schema.rs",X+"context.rs",XP+"element.rs",XP+"attribute.rs",XP+"choice.rs",XP+"sequence.rs",XP+"complex_content.rs",XP+"simple_content.rs"],
 [("closure loop","xsd-internal/src/xsd/schema.rs generate_element_and_dependencies"),("dependency recording","xsd-internal/src/xsd/context.rs discover_type")],
 ["Schema::generate_element_and_dependencies"])
p("C16","The document cursor consumes children like an ordered list",
 "Over any sequence of operations on a decoded element, peeking never consumes; taking the next child consumes it only if its name and namespace match the first remaining child; taking a child out of order removes the first remaining match and keeps all others in document order. Attribute and text access return the element's own values at any time, and failed lookups report the requested name.",
 ["histories","inputs"],"all documents x all sequences of cursor operations",
 "The cursor has no direct tests; generated code uses only a few operation orders.",
 ["xsd/src/decode.rs"],
 [("cursor queue","xsd/src/decode.rs Children.next/peeked"),("operations","xsd/src/decode.rs Node::peek_child/next_child/child/attribute/text")],
 ["decode::Node"])
p("C17","The writer context emits exactly the start tag it was given",
 "For any sequence of setting attributes, prefixes and default namespaces on nested writing contexts, writing start and end emits one element with the given name, all attributes set before the start in order with their exact values, and the declared namespaces; attributes and namespaces set through a wrapped context belong to the enclosing element, and a wrapped context itself emits no tags. Contexts do not leak attributes or namespaces into siblings or children.",
 ["histories","inputs"],"all sequences of context operations with arbitrary names and values",
 "The writer context has no direct tests.",
 ["xsd/src/lib.rs"],
 [("wrapping","xsd/src/lib.rs Context::wrap"),("start tag","xsd/src/lib.rs Context::write_start_element")],
 ["xsd::Context"])
p("C18","Enumerations map values to distinct variants and back",
 "For every enumeration, in a named type, an inline type or an attribute, each listed value decodes to its own variant and that variant prints, encodes and converts back to precisely the listed value, even when values differ only in case, punctuation or whitespace, are empty or start with digits. Every other text is refused, and the refusal quotes it.",
 ["programs","inputs"],"all sets of distinct enumeration values x all texts",
 "Three tests use two or three plain words.",
 [AST+"root.rs",XP+"simple_type.rs",XP+"attribute.rs"],
 [("variant naming","xsd-internal/src/ast/root.rs escape_enum_names"),("FromStr/Display/as_str","xsd-internal/src/ast/root.rs to_declaration")],
 ["FromStr, Display, as_str, from_xml, to_xml of the generated enum"])
p("C19","Schema documentation becomes Rust documentation of the same item",
 "The documentation text of a global element or non-enumeration type, local element or sequence that becomes a field, or attribute appears, with whitespace collapsed, as the Rust doc comment of exactly the type or field generated for it, and nowhere else. Items without documentation, or with empty documentation, get none, and documentation never changes the generated types or their behaviour.",
 ["programs","inputs"],"all supported schemas x all placements of documentation x all documentation texts",
 "Tests cannot see doc comments; only whitespace collapsing has one unit test.",
 [XP+"annotation.rs",XP+"element.rs",XP+"attribute.rs",XP+"complex_type.rs",AST+"leaf.rs",AST+"root.rs",AST+"attribute.rs",X+"schema.rs"],
 [("documentation extraction","xsd-internal/src/xsd/parse/annotation.rs"),("doc attributes","xsd-internal/src/ast/leaf.rs, attribute.rs, xsd/schema.rs")],
 ["Schema::generate_all token stream"])
p("C20","Built-in types accept their lexical space and keep the value",
 "For every supported built-in type, as element text, attribute, list item, choice alternative, simple content or restriction, any literal in the type's lexical space and within the range of its Rust representation decodes to the value it denotes, and encoding writes a literal of that type denoting the same value. Text outside the lexical space of a numeric or boolean type is refused with an error that names the type and the text.",
 ["inputs","programs"],"all supported built-in types x all literals x all positions a type can be used in",
 "Tests use one or two plain literals for a few of the types.",
 [AST+"literal_type.rs",X+"context.rs",AST+"leaf_content.rs",AST+"attribute.rs",AST+"root.rs"],
 [("type mapping","xsd-internal/src/xsd/context.rs literal_from_str"),("literal decoding and encoding","xsd-internal/src/ast/literal_type.rs")],
 ["<Type>::from_xml","<Type>::to_xml"])
p("C21","The macro keeps the user's module and adds the schema's types to it",
 "Applied to any module, the attribute macro keeps the module's name, visibility, attributes and existing items, in working order and able to use the generated types, and adds all types of the schema found at the path relative to the crate. A missing or unknown argument, a non-module item, or an unreadable schema file is a compile error that says so.",
 ["programs"],"all module shapes (items, attributes, visibility) x all schemas x all argument lists",
 "One test has a single existing item in a private module.",
 ["xsd-derive/src/lib.rs","xsd-derive/src/generator.rs"],
 [("module re-emission","xsd-derive/src/generator.rs generate"),("argument parsing","xsd-derive/src/lib.rs all")],
 ["rustc on the annotated module"])
p("C22","Extended types carry the base's content and attributes plus their own",
 "A type that extends another by complex or simple content, over any number of steps and across files, decodes and encodes the base's children first, then its own, with the attributes of every step on the one element. Optional extension content is absent exactly when the document omits it, and the base part equals what the base type itself would hold.",
 ["programs","inputs"],"all extension chains of supported types x all valid documents",
 "Four tests use a single extension step with at most one attribute.",
 [XP+"complex_content.rs",XP+"simple_content.rs",AST+"element_definition.rs","xsd/src/lib.rs"],
 [("base wrapping","xsd-internal/src/ast/element_definition.rs to_xml_impl"),("shared start tag","xsd/src/lib.rs Context::wrap")],
 ["<Type>::from_xml","<Type>::to_xml"])
p("C23","Choices and nested groups select exactly what the document contains",
 "For every nesting of choices and sequences, each optional, required or repeated, decoding picks the alternative whose first element is present, consumes precisely its elements, repeats a repeated group as long as the document does, and leaves an optional group absent exactly when none of its elements is next. Encoding writes precisely the selected alternatives in order.",
 ["programs","inputs"],"all deterministic nestings of groups x all valid documents",
 "About ten tests use nesting depth one or two with fixed occurrence bounds.",
 [XP+"choice.rs",XP+"sequence.rs",XP+"complex_type.rs",AST+"root.rs",AST+"leaf.rs","xsd/src/decode.rs"],
 [("lookahead","xsd-internal/src/ast/root.rs lookahead_impl"),("group loops","xsd-internal/src/ast/leaf.rs from_xml_impl"),("peeking","xsd/src/decode.rs Node::peek_child")],
 ["<Type>::from_xml","<Type>::to_xml"])
p("C24","A schema means the same however it is handed in",
 "Reading a schema from its file, from its text together with its path, or as an xs:schema element inside another document (which may declare the namespaces on outer elements) gives the same generated items. Includes and imports are resolved relative to the given location in every case, and a fault is reported with the same error at the same place of the schema.",
 ["inputs","programs"],"all schema sets, supported or with a fault x all enclosing documents x all divisions of the namespace declarations between the schema element and its ancestors",
 "Tests only parse one whole text per schema; no test embeds a schema.",
 [X+"schema.rs",X+"node.rs",X+"context.rs",X+"error.rs"],
 [("entry points","xsd-internal/src/xsd/schema.rs Schema::parse_file, Schema::parse, Schema::parse_schema"),("namespace lookup","xsd-internal/src/xsd/node.rs")],
 ["Schema::parse_file, Schema::parse, Schema::parse_schema, generate_all"])
p("C25","Schema nodes answer exactly for what the document has and remember what was asked",
 "For every XML document and every history of queries, a schema node finds exactly the child elements with the requested name, namespace and attribute value, in document order, and its own attributes without a namespace. A collected set of children gives each child out once and then reports the first one never taken; a node reports an attribute as unsupported exactly when it was never asked for. A failed query yields an error naming what was requested, with the position of the node concerned.",
 ["inputs","histories"],"all XML documents x all histories of node queries",
 "No test exercises the node API directly; it is used along a few fixed paths of the example schemas.",
 [X+"node.rs"],
 [("queries","xsd-internal/src/xsd/node.rs Node, ChildrenFilterBuilder"),("tracking of what was used","xsd-internal/src/xsd/node.rs Node::attribute, prevent_unvisited_attributes, Children::remove, prevent_unvisited_children")],
 ["xsd_internal::xsd::node::Node"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
