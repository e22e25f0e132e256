#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
PA = "lib/src/parse/"; GE = "lib/src/gen/"; AC = "app/commsdsl2comms/src/"

prop("P01", "No input makes the parser or any generator crash, hang or invoke UB",
 "For every byte sequence given as schema file(s) and every combination of command line options, the parsing library and each of the seven generators terminate normally, without abort, failed internal assertion, uncaught exception, memory error, undefined behaviour, leak of control to a signal, or endless recursion/loop. "
 "When the input is refused, the process exit code is non-zero and at least one diagnostic is printed; when it is accepted the exit code is 0.",
 ["inputs", "configurations"],
 "all byte sequences as XML schema files (well-formed or not, any DSL elements/attributes/values, any combination of files) and all command lines",
 "The parser tests feed ~430 hand-written files to an uninstrumented library and only read the boolean result; generators are run on 57 valid schemas. The set of malformed schemas is unbounded and silent memory errors/UB stay invisible without sanitizers.",
 [PA+"ParseProtocolImpl.cpp", PA+"ParseXmlWrap.cpp", PA+"ParseFieldImpl.cpp", PA+"ParseIntFieldImpl.cpp", PA+"ParseSetFieldImpl.cpp", PA+"ParseOptCondImpl.cpp", GE+"GenGenerator.cpp", GE+"GenProgramOptions.cpp"],
 [("error paths return false and log", PA+"*Impl.cpp"), ("XML tree access through null-safe wrappers", PA+"ParseXmlWrap.cpp")],
 ["process exit status, stderr and sanitizer reports of parse driver and generators"])

prop("P02", "Ill-formed schemas are refused with a located error; valid ones accepted",
 "A schema that breaks a documented CommsDSL rule (missing or duplicated mandatory property, bad or duplicated name, value outside of the field's range, dangling or wrongly typed reference, inconsistent versions, conflicting length specifications, repeated layers, duplicate message ids, unknown enumeration value, etc.) is refused, and an error is reported that names the file and line of an offending element. "
 "A schema that breaks no rule is accepted, without any error or warning.",
 ["inputs"],
 "every valid schema and every single-rule corruption of it, at any place and nesting depth where the rule applies",
 "The negative parser tests place each mistake in one fixed context (usually a global field of a tiny schema) and never look at the reported location; acceptance is sampled on hand-written files.",
 [PA+"ParseFieldImpl.cpp", PA+"ParseXmlWrap.cpp", PA+"ParseMessageImpl.cpp", PA+"ParseFrameImpl.cpp", PA+"ParseLayerImpl.cpp", PA+"ParseSchemaImpl.cpp", PA+"ParseNamespaceImpl.cpp"],
 [("validation in parseImpl() chains", PA+"*FieldImpl.cpp"), ("logPrefix file:line", PA+"ParseXmlWrap.cpp")],
 ["parse() / validate() result and error callback text"])

prop("P03", "Numeric properties of <int> and <float> fields are taken over exactly",
 "For every integer or floating point field the parsed model reports exactly the type, byte/bit length, endianness, default value, minimum/maximum, valid ranges, special values, serialisation offset, scaling ratio, units, and display properties that the schema spells out, for the full signed and unsigned 64-bit range and every supported literal notation (decimal, hexadecimal, nan/inf, reference to another value). "
 "A literal that cannot be represented in the type of the field is refused (for valid ranges and for defaults that merely cannot be serialised at the selected length: reported by a warning); it is never silently truncated, wrapped or replaced.",
 ["inputs"],
 "all integer/float field definitions: any type, length, offset, set of ranges and specials, all values of the 64-bit domain including the signed/unsigned boundary",
 "Tests check a few tens of literal values far from the boundaries; the claim ranges over the full 64-bit domain crossed with types, lengths, versions and notations.",
 [PA+"ParseIntFieldImpl.cpp", PA+"ParseFloatFieldImpl.cpp", PA+"parse_common.cpp"],
 [("string to number conversion", PA+"parse_common.cpp"), ("range merge and checks", PA+"ParseIntFieldImpl.cpp")],
 ["ParseIntField / ParseFloatField accessors"])

prop("P04", "<enum> values and <set> bits are taken over exactly",
 "For every enum the parsed model lists exactly the declared names with their values and versions, the declared default, and for every set exactly the declared bits with index, default, reserved state and versions, plus the type, length and endianness. "
 "Non-unique values/bits and values not fitting the underlying type are refused unless explicitly allowed, whatever the order of declaration.",
 ["inputs"],
 "all enum and set definitions over all underlying types/lengths, any number and order of values, unsigned 64-bit values, reuse between them",
 "Tests contain a handful of enum/set definitions with small values; order, size, and 64-bit value combinations are unbounded.",
 [PA+"ParseEnumFieldImpl.cpp", PA+"ParseSetFieldImpl.cpp"],
 [("parseUpdateValues / parseUpdateBits", PA+"ParseEnumFieldImpl.cpp")],
 ["ParseEnumField / ParseSetField accessors"])

prop("P05", "Strings, data, lists and composite fields keep their declared structure",
 "For every string, data, list, bitfield, bundle, variant, optional and ref field the parsed model reports exactly the declared members in order, the referenced or embedded element, count/length/element-length/termination prefix fields (embedded, external or detached), fixed lengths, default values (text, hex data, references), encodings, default mode/member and aliases.",
 ["inputs"],
 "all composite field definitions up to any nesting, with every way of supplying prefix, element and member fields",
 "Tests have one or two levels of nesting and one way of supplying each part per schema; combinations are unbounded.",
 [PA+"ParseStringFieldImpl.cpp", PA+"ParseDataFieldImpl.cpp", PA+"ParseListFieldImpl.cpp", PA+"ParseBundleFieldImpl.cpp", PA+"ParseBitfieldFieldImpl.cpp", PA+"ParseVariantFieldImpl.cpp", PA+"ParseOptionalFieldImpl.cpp", PA+"ParseRefFieldImpl.cpp", PA+"ParseAliasImpl.cpp"],
 [("prefix/element resolution", PA+"ParseListFieldImpl.cpp")],
 ["public accessors of the composite field wrappers"])

prop("P06", "Reuse, copying and references give independent, complete copies of the source",
 "A field or message defined through reuse, copyFieldsFrom, copyValuesFrom/copyBitsFrom and similar properties has every property and (nested) member of its source except those it overrides or replaces, and the source is unaffected. "
 "Every reference resolves to the entity with that qualified name, and the external reference an entity reports resolves back to that same entity.",
 ["inputs", "histories"],
 "all chains of reuse/copy/replace/ref over all field kinds, namespaces and schemas, with any overridden subset of properties",
 "Tests reuse each field kind once, with a couple of overridden properties, and do not compare the whole copied subtree.",
 [PA+"ParseFieldImpl.cpp", PA+"ParseMessageImpl.cpp", PA+"ParseInterfaceImpl.cpp", PA+"ParseNamespaceImpl.cpp", PA+"ParseProtocolImpl.cpp"],
 [("parseReuse / clone", PA+"ParseFieldImpl.cpp"), ("parseFindField", PA+"ParseProtocolImpl.cpp")],
 ["model dump of source and copy; parseFindField(externalRef)"])

prop("P07", "Versions are inherited and bounded through every level of nesting",
 "Every parsed entity (message, field, member, enum value, set bit, valid range, special value) reports its declared sinceVersion/deprecated/removed, or the one inherited from its parent when it declares none, also after reuse, copy or replacement. "
 "A definition whose versions contradict its parent's, exceed the schema version, or are unordered is refused.",
 ["inputs", "histories"],
 "all assignments of since/deprecated/removed to the entities of a schema, over all nesting and reuse chains",
 "Tests use a few fixed version assignments, mostly at depth one.",
 [PA+"ParseObject.h", PA+"ParseXmlWrap.cpp", PA+"ParseFieldImpl.cpp", PA+"ParseMessageImpl.cpp"],
 [("parseGetAndCheckVersions", PA+"ParseXmlWrap.cpp"), ("version propagation in reuse/copy", PA+"ParseBundleFieldImpl.cpp")],
 ["parseSinceVersion / parseDeprecatedSince of the whole model"])

prop("P08", "Reported minimal and maximal serialisation lengths are exact bounds",
 "For every field and message the reported minimal and maximal serialisation length are the smallest and largest number of bytes a value of it can occupy on the wire according to its definition (members of every version count, except that the minimal length of a message leaves out the fields that were added to it later; unbounded saturates to the maximum; behind a prefix field of structured or variable length kind the maximum is only guaranteed not to be too small), and the declared validateMinLength is enforced against it.",
 ["inputs"],
 "all field and message definitions, including nested lists with prefixes, variable length integers, optional and variant members and lengths close to overflow",
 "Only a few lengths of flat fields are asserted by tests; the arithmetic composes over unbounded nesting.",
 [PA+"ParseFieldImpl.cpp", PA+"ParseListFieldImpl.cpp", PA+"ParseMessageImpl.cpp", PA+"parse_common.cpp"],
 [("parseMinLengthImpl / parseMaxLengthImpl", PA+"*FieldImpl.cpp"), ("saturating add/mul", PA+"parse_common.cpp")],
 ["parseMinLength / parseMaxLength"])

prop("P09", "Condition expressions are parsed into the declared logic tree",
 "Every cond, construct, readCond and validCond expression, in attribute or nested and/or element form, is reported with exactly its operands, operators, access modes and and/or structure, after any amount of copying. "
 "Expressions that reference non-existing, wrongly typed or non-comparable operands are refused.",
 ["inputs"],
 "all condition trees over all sibling/interface references (value, #size, ?exists, inner values) and comparison operators",
 "Tests have a few expressions of depth one or two.",
 [PA+"ParseOptCondImpl.cpp", PA+"ParseOptionalFieldImpl.cpp", PA+"ParseMessageImpl.cpp", PA+"ParseBundleFieldImpl.cpp"],
 [("expression parser", PA+"ParseOptCondImpl.cpp")],
 ["ParseOptCond accessors"])

prop("P10", "Equivalent ways of writing a schema give the same model and same code",
 "Writing a property as attribute, as child element with value attribute or with text, adding comments, whitespace or processing instructions, reordering properties of an element, or splitting/merging definitions over several input files and repeated namespace elements while keeping the definition order, changes neither the parsed model nor the generated files.",
 ["inputs", "configurations"],
 "all rewritings of a schema built from the listed meaning-preserving transformations",
 "Each parser test uses a single spelling of each property; no test compares two spellings of the same schema.",
 [PA+"ParseXmlWrap.cpp", PA+"ParseProtocolImpl.cpp", PA+"ParseNamespaceImpl.cpp", PA+"ParseSchemaImpl.cpp"],
 [("parseNodeProps/parseChildrenAsProps", PA+"ParseXmlWrap.cpp")],
 ["model dump and generated files of the two spellings"])

prop("P11", "Messages, interfaces, frames, layers and schema attributes are kept exactly",
 "The parsed model lists every message (ordered by id, then order) with its id, sender, platforms, overrides, customisation and aliases, every interface with its fields, and every frame with its layers in order, each with its kind, field, checksum algorithm and from/until relations, and the schema/namespace attributes as declared; custom attributes and elements are preserved.",
 ["inputs"],
 "all schemas: any number of messages/interfaces/frames/namespaces, any order of definition, any legal layer combination",
 "Tests declare one or two of each and compare a subset of the attributes.",
 [PA+"ParseMessageImpl.cpp", PA+"ParseInterfaceImpl.cpp", PA+"ParseFrameImpl.cpp", PA+"ParseLayerImpl.cpp", PA+"ParseSyncLayerImpl.cpp", PA+"ParseChecksumLayerImpl.cpp", PA+"ParseValueLayerImpl.cpp", PA+"ParseSchemaImpl.cpp", PA+"ParseNamespaceImpl.cpp"],
 [("parseUpdate* of each element", PA)],
 ["ParseSchema/ParseNamespace/ParseMessage/ParseFrame/ParseLayer accessors"])

prop("G01", "Generation is deterministic, idempotent and independent of environment",
 "Running a generator twice on the same inputs and options gives byte-identical output trees, whatever the working directory, locale, environment, relative or absolute spelling of the paths, or previous content of the output directory. "
 "Re-running into an existing output directory gives the same files as a fresh run.",
 ["configurations", "histories"],
 "all valid schemas and options, any environment and any previous state of the output directory",
 "Tests run each generator once into a fresh directory with absolute paths and do not look at the output.",
 [GE+"GenGenerator.cpp", GE+"GenElem.cpp", AC+"CommsGenerator.cpp"],
 [("ordered containers for output lists", GE), ("output file writer", GE+"GenGenerator.cpp")],
 ["output directory trees of repeated runs"])

prop("G02", "Generators write only under the output directory and report every I/O failure",
 "A generator creates or modifies files only under its output directory, never its inputs, and if it exits with 0 every output file is complete. "
 "If creating a directory or opening or writing any output file fails, or a schema file or list file given on the command line cannot be read, the run ends with a non-zero exit code and a diagnostic, and never crashes.",
 ["fault_sequences", "configurations"],
 "every single failing file-system operation at every position of a run, for each generator",
 "Tests never inject I/O failures and never check what was written where.",
 [GE+"GenGenerator.cpp", GE+"util.cpp", AC+"CommsGenerator.cpp", "app/*/src/*Generator.cpp"],
 [("stream state check after writing", AC+"*.cpp"), ("genCreateDirectory", GE+"GenGenerator.cpp")],
 ["system call log of the run, exit status, output tree"])

prop("G03", "The command line contract holds for every generator",
 "Every documented option has its documented effect for every generator, in any order and spelling (long, short, separate or '=' value): help/version, quiet/debug, output directory, lists of input files with prefix, warnings-as-errors, forced schema version, namespace override, several schemas, code version, selection of messages, customization level, names prefix. "
 "Unreadable inputs, illegal numbers, versions beyond the schema, unknown messages, platforms, interfaces, frames and contradicting options are refused with a non-zero exit code and without output; unknown options, missing option values and unknown customization levels are reported on the error stream. "
 "Exit code 0 comes without error messages, any other exit code with one on the error stream; warnings and errors go to the error stream, all else to the output stream.",
 ["configurations"],
 "all combinations of documented options, option orders and values",
 "Tests use one fixed set of options per generator.",
 [GE+"GenProgramOptions.cpp", GE+"GenGenerator.cpp", "app/*/src/*ProgramOptions.cpp", "app/*/src/main.cpp"],
 [("option table and parser", GE+"GenProgramOptions.cpp")],
 ["exit status, stdout, stderr, output tree"])

prop("C01", "The generated C++ project is complete and every header compiles on its own",
 "For every valid schema the C++ project generated by commsdsl2comms contains a definition for every message, interface, frame and every field that is used (referenced or force-generated global fields, all the members), each generated header compiles stand-alone without warnings and without relying on other headers being included first, and the CMake project configures and installs all generated headers.",
 ["inputs", "configurations"],
 "all valid schemas and generation options",
 "No test compiles any generated code (the COMMS library is absent from the test environment).",
 [AC+"CommsField.cpp", AC+"CommsMessage.cpp", AC+"CommsFrame.cpp", AC+"CommsCmake.cpp", GE+"comms.cpp", GE+"util.cpp"],
 [("include list computation", AC+"Comms*.cpp"), ("genProcessTemplate", GE+"util.cpp")],
 ["compiler diagnostics on every generated header"])

prop("C02", "Generated message classes read and write exactly the declared wire format",
 "For every message and every field value assignment, the code generated by commsdsl2comms serialises to exactly the bytes the schema prescribes (type, length, endianness, offset, scaling-independent raw value, bit positions, prefixes, suffixes, order of members), reports that length, and reading those bytes back gives the same values and consumes exactly them. "
 "Truncated input is reported as an error and never read beyond its end.",
 ["inputs", "programs"],
 "all valid schemas, all values of all their messages, all truncations",
 "No test executes generated code; the round trip depends on the whole chain schema-to-model-to-C++.",
 [AC+"CommsIntField.cpp", AC+"CommsEnumField.cpp", AC+"CommsSetField.cpp", AC+"CommsFloatField.cpp", AC+"CommsBitfieldField.cpp", AC+"CommsStringField.cpp", AC+"CommsDataField.cpp", AC+"CommsListField.cpp", AC+"CommsVariantField.cpp", AC+"CommsOptionalField.cpp", AC+"CommsBundleField.cpp", AC+"CommsRefField.cpp", AC+"CommsMessage.cpp"],
 [("field option lists", AC+"Comms*Field.cpp")],
 ["execution of the generated code against an independent codec"])

prop("C03", "Generated fields carry the declared defaults, validity, names and constants",
 "A default constructed generated field or message has exactly the declared default value; its validity check accepts exactly the declared valid values/ranges/bits/enum values (versions considered); and its display name, value names, special value predicates, min/max constants, units, scaling and alias accessors are those declared.",
 ["inputs", "programs"],
 "all valid schemas and all field values",
 "No test executes generated code.",
 [AC+"CommsIntField.cpp", AC+"CommsEnumField.cpp", AC+"CommsSetField.cpp", AC+"CommsFloatField.cpp", AC+"CommsFieldBase.cpp", AC+"CommsField.cpp", AC+"CommsMessage.cpp"],
 [("default value / valid range options", AC+"CommsIntField.cpp"), ("special values and names code", AC+"CommsIntField.cpp")],
 ["execution of the generated code against values computed from the schema"])

prop("C04", "Conditions and versions in generated code control field presence as declared",
 "In generated code an optional field exists exactly when its condition (over sibling and interface fields) holds, version dependent fields exist exactly for interface versions in their [since, removed) range, and construct, readCond and validCond behave as declared: construction fixes the named values, reading fails when the read condition does not hold, and validity includes the valid condition.",
 ["inputs", "programs"],
 "all condition trees and version assignments, all values of the referenced fields and all versions",
 "No test executes generated code.",
 [AC+"CommsMessage.cpp", AC+"CommsOptionalField.cpp", AC+"CommsBundleField.cpp", AC+"CommsField.cpp", GE+"comms.cpp", GE+"GenGenerator.cpp"],
 [("condition code generation", AC+"CommsOptionalField.cpp"), ("version dependency tracking", GE+"GenSchema.cpp")],
 ["execution of the generated code against an independent evaluator"])

prop("C05", "Generated frames wrap and unwrap messages exactly as declared",
 "For every frame the generated code writes the declared layers in the declared order (sync, size, id, value, checksum, payload, custom) with the values they are defined to have, reads its own output back into an equal message, and refuses input with a wrong sync, id, size or checksum.",
 ["inputs", "programs"],
 "all legal layer combinations, all messages and values, all single byte corruptions",
 "No test executes generated code.",
 [AC+"CommsFrame.cpp", AC+"CommsLayer.cpp", AC+"CommsChecksumLayer.cpp", AC+"CommsSyncLayer.cpp", AC+"CommsSizeLayer.cpp", AC+"CommsIdLayer.cpp", AC+"CommsValueLayer.cpp", AC+"CommsPayloadLayer.cpp"],
 [("layer stack generation", AC+"CommsFrame.cpp")],
 ["execution of the generated code against an independent framing codec"])

prop("C06", "Message bundles, factories and dispatch cover exactly the right messages",
 "The generated all-messages, client-input, server-input, platform-specific and user defined bundles contain exactly the messages that belong to them, sorted by id; the generated factories create, and the generated dispatch functions call the handler of, exactly the message class that has the given id (and index for non-unique ids).",
 ["inputs", "configurations"],
 "all sets of messages with any id distribution, sender, platforms and non-unique ids, and all extra bundle definitions",
 "No test executes generated code; bundle contents are never inspected.",
 [AC+"CommsInputMessages.cpp", AC+"CommsDispatch.cpp", AC+"CommsMsgFactory.cpp", AC+"CommsMsgId.cpp", AC+"CommsGenerator.cpp"],
 [("sorted message list", GE+"GenGenerator.cpp"), ("platform/sender filters", AC+"CommsInputMessages.cpp")],
 ["execution of the generated bundles/factories/dispatch"])

prop("C07", "Version selection options generate the protocol of that version",
 "Forcing a schema version generates code that reports that version, treats the members, values, special values, bits and valid ranges of that version as the existing ones and exchanges messages of every version up to it byte for byte as the schema declares; declaring a minimal remote version or version independent code only removes the version checks that cannot matter any more, leaving defaults, presence and wire format for all versions not below the minimum unchanged; the generated code always compiles.",
 ["inputs", "configurations"],
 "all schemas with versioned entities and all selected versions",
 "No test looks at the output generated with these options.",
 [GE+"GenGenerator.cpp", GE+"GenSchema.cpp", AC+"CommsGenerator.cpp", PA+"ParseSchemaImpl.cpp"],
 [("genDoesElementExist", GE+"GenGenerator.cpp")],
 ["comparison of output trees; execution of generated code"])

prop("C08", "Namespace override and multiple schemas only relocate the generated code",
 "Overriding the main namespace gives the same code as renaming the schema accordingly, and generating several schemas together gives for each its own complete namespace with cross-schema references resolved to the right schema; every entity keeps a unique C++ scope.",
 ["inputs", "configurations"],
 "all schemas/combinations of schemas and all legal namespace values",
 "Tests run a few multi-schema inputs and do not look at the output.",
 [GE+"GenGenerator.cpp", GE+"GenSchema.cpp", GE+"comms.cpp", PA+"ParseProtocolImpl.cpp"],
 [("genScopeFor / main namespace", GE+"comms.cpp")],
 ["comparison of output trees of overridden and renamed schema; compilation"])

prop("C09", "Custom code injection puts each snippet where documented and nowhere else",
 "For every generator, files with the documented suffixes in the injection directory (replace, extend, construct, read, write, length, valid, refresh, name and their body variants, public/protected/private, inc, append) change exactly the documented part of exactly the corresponding generated file, with the snippet text unmodified; other files are copied verbatim and everything else stays byte-identical.",
 ["inputs", "configurations"],
 "all sets of snippet files over all generated entities and all override settings in the schema",
 "Tests only check that generation with snippets exits with 0.",
 [AC+"CommsField.cpp", AC+"CommsMessage.cpp", AC+"CommsCustomLayer.cpp", GE+"GenGenerator.cpp", GE+"util.cpp", GE+"strings.cpp"],
 [("genReadCodeInjectCode / genCopyExtraSourceFiles", GE)],
 ["output trees with and without snippets"])

prop("C10", "Options structures expose exactly the customisation points of the selected level",
 "The generated default options mirror the tree of fields, messages and frames, contain an entry for exactly the entities customisable at the selected level (full, limited, none, or explicitly customizable), and every generated class takes its extra options from its own entry; the specialised option sets (data view, bare metal, client, server, dynamic memory factories) apply only what they are documented to.",
 ["inputs", "configurations"],
 "all schemas and all three customisation levels",
 "No test compiles or inspects the generated options.",
 [AC+"CommsDefaultOptions.cpp", AC+"CommsField.cpp", AC+"CommsMessage.cpp", AC+"CommsGenerator.cpp", AC+"CommsLayer.cpp"],
 [("commsDefaultOptions()", AC+"Comms*.cpp")],
 ["compiling generated classes with probing options that override every entry"])

prop("W01", "The C interface exposes every entity and forwards to the C++ code faithfully",
 "For every field and message, the interface generated by commsdsl2c compiles as C, has the accessor functions its kind calls for, and values set, read, validated and serialised through it (including frames, handlers and message creation) agree with what the schema prescribes.",
 ["inputs", "programs"],
 "all valid schemas and all values",
 "No test compiles or runs the generated C code.",
 ["app/commsdsl2c/src/CField.cpp", "app/commsdsl2c/src/CMessage.cpp", "app/commsdsl2c/src/CFrame.cpp", "app/commsdsl2c/src/CMsgHandler.cpp", "app/commsdsl2c/src/CInterface.cpp", "app/commsdsl2c/src/CIntField.cpp"],
 [("generated forwarding functions", "app/commsdsl2c/src/C*.cpp")],
 ["execution of a C program using the generated interface"])

prop("W02", "The emscripten bindings register every entity with its real name and functions",
 "The binding code generated by commsdsl2emscripten compiles against the generated C++ protocol and registers exactly one class per field, message and frame with every accessor function, enum value and constant of it under the declared name, bound to the member of that entity; message handlers cover every message.",
 ["inputs", "programs"],
 "all valid schemas",
 "No test compiles or runs the generated bindings (no emscripten available).",
 ["app/commsdsl2emscripten/src/EmscriptenField.cpp", "app/commsdsl2emscripten/src/EmscriptenMessage.cpp", "app/commsdsl2emscripten/src/EmscriptenFrame.cpp", "app/commsdsl2emscripten/src/EmscriptenMsgHandler.cpp"],
 [("binding registration code", "app/commsdsl2emscripten/src")],
 ["record of registrations made by the generated code at run time"])

prop("W03", "The swig interface declares every entity exactly as the C++ code provides it",
 "The interface generated by commsdsl2swig declares every field, message, frame and handler of the schema, its C++ part compiles against the generated protocol, and every class and member function it declares exists with that signature in the generated C++ code.",
 ["inputs", "programs"],
 "all valid schemas",
 "No test looks at or compiles the generated swig code.",
 ["app/commsdsl2swig/src/SwigField.cpp", "app/commsdsl2swig/src/SwigMessage.cpp", "app/commsdsl2swig/src/SwigFrame.cpp", "app/commsdsl2swig/src/Swig.cpp", "app/commsdsl2swig/src/SwigMsgHandler.cpp"],
 [("class declaration generation", "app/commsdsl2swig/src")],
 ["compilation and run of checks derived from the generated declarations"])

prop("W04", "The cc_tools_qt plugin code covers all messages and frames of the protocol",
 "The plugin project generated by commsdsl2tools_qt defines one plugin per requested protocol configuration, whose protocol object creates every message of the schema (and the frame with all of its layers) from the classes generated by commsdsl2comms, with correct names, ids and version.",
 ["inputs", "configurations"],
 "all valid schemas and plugin options",
 "No test compiles the generated plugin code.",
 ["app/commsdsl2tools_qt/src/ToolsQtMessage.cpp", "app/commsdsl2tools_qt/src/ToolsQtFrame.cpp", "app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp", "app/commsdsl2tools_qt/src/ToolsQtMsgFactory.cpp"],
 [("plugin file generation", "app/commsdsl2tools_qt/src")],
 ["compilation and run of the generated plugin against stub tool classes"])

prop("W05", "The generated test application decodes and reports every message",
 "The application generated by commsdsl2test compiles against the generated protocol and, for any input bytes, processes every complete message found in it, without memory errors, reporting for each field the value it carries.",
 ["inputs", "programs"],
 "all valid schemas and all input byte sequences",
 "No test compiles or runs the generated application.",
 ["app/commsdsl2test/src/Test.cpp", "app/commsdsl2test/src/TestGenerator.cpp"],
 [("input test template", "app/commsdsl2test/src/Test.cpp")],
 ["output of the generated application under sanitizers"])

prop("W06", "The latex document contains every declared entity, value and text, escaped",
 "The document generated by commsdsl2latex contains a section for every namespace, message, field and frame, reachable by its label, with the declared names, descriptions, ids, values, ranges, bits, units and versions, and it is valid LaTeX for every text the schema contains.",
 ["inputs"],
 "all valid schemas, including texts with any special characters",
 "Tests only check that pdflatex accepts the documents of 57 schemas with almost no special characters; contents are not compared.",
 ["app/commsdsl2latex/src/LatexField.cpp", "app/commsdsl2latex/src/LatexMessage.cpp", "app/commsdsl2latex/src/LatexFrame.cpp", "app/commsdsl2latex/src/LatexGenerator.cpp", "app/commsdsl2latex/src/LatexIntField.cpp"],
 [("latexEscDisplayName and details tables", "app/commsdsl2latex/src")],
 ["parsed content of the generated .tex tree"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
