#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

XML = ["xmlElement.go", "xmlComplexType.go", "xmlSimpleType.go", "xmlAttribute.go", "xmlAttributeGroup.go", "xmlGroup.go"]
GEN = ["genGo.go", "genC.go", "genJava.go", "genRust.go", "genTypeScript.go"]
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, tech=tech, note=note, state=state or []))

STD = ("Generated search, not a proof: the cases of the run (counts and samples in the evidence file) all held. "
       "Trusts the abstract schema model and its expectations, and the parsers of the generated subset of C, Java, Rust and TypeScript (Go uses go/parser and go/types). ")

prop("C01", "Generated source is valid in every target language",
     "For every well-formed schema set, the file generated for each schema is syntactically valid source text of the chosen language (Go, C, Java, Rust, TypeScript), whatever the names, documentation, enumeration values and encodings in the schema are. No scope declares a name twice, and the Go files generated from one schema set compile together in the requested package (by default 'schema').",
     ["inputs", "programs"], "all well-formed schema sets (any combination of components, names, documentation texts, enumeration values, encodings and file splits), for each of the five target languages",
     "The tests compare a handful of golden files; validity is a statement about every combination of names, texts and constructs.",
     GEN + ["utils.go", "parser.go"],
     [("code templates", "genGo.go, genC.go, genJava.go, genRust.go, genTypeScript.go"), ("comment construction", "utils.go genFieldComment"), ("identifier and keyword escaping", "utils.go, gen*.go genFieldName")],
     ["generated output files"],
     "property-based testing: random schema projects, parsers and type checker of the target languages as oracle",
     STD + "Java, Rust, C and TypeScript samples are also given to the installed compilers' parsers in the thorough tier.")

prop("C02", "Every global component is declared once, under its own name and kind",
     "For every schema, each global element, attribute, simple type, complex type, model group and attribute group, and each anonymous complex type, yields exactly one declaration in the output of its file, of the form its kind calls for in the target language (structure, list, enumeration, union, alias), carrying the component's XML name where the language records it. Nothing else is declared.",
     ["inputs", "programs"], "all schemas: any number, nesting and order of global components and anonymous types",
     "Golden files show a few dozen components; dropped, duplicated or invented declarations depend on particular neighbours and nesting.",
     ["parser.go", "schema.go"] + XML + GEN,
     [("component stacks and proto tree", "parser.go Options, xml*.go On*/End*"), ("StructAST de-duplication", "gen*.go *SimpleType, *ComplexType, ...")],
     ["generated declarations", "XMLName / XmlRootElement / rename annotations"],
     "property-based testing against a reference model of the schema's components", STD,
     [dict(name="ProtoTree", meaning="the components found so far", where="parser.go"), dict(name="component stacks", meaning="the components being parsed", where="parser.go")])

prop("C03", "Structures have exactly the members the schema gives them, in order",
     "For every complex type, model group and attribute group, the generated structure has one member for each distinct attribute, element, group reference and attribute-group reference of its content (in the whole nesting of sequences, choices and alls), and no other. Within each sort the members follow document order, and each member is tagged with its XML local name, as attribute, element or character data, where the language records it.",
     ["inputs", "programs"], "all complex types, groups and attribute groups: any nesting of model groups, references, wildcards, inline and anonymous types",
     "A member is lost, invented, attributed to the wrong owner or misordered only for particular nestings and neighbours; golden files hold one arrangement of each.",
     XML + ["xmlChoice.go"] + GEN,
     [("pushing members onto the innermost open owner", "xmlElement.go, xmlAttribute.go, xmlGroup.go, xmlAttributeGroup.go"), ("member emission", "gen*.go *ComplexType, *Group, *AttributeGroup")],
     ["members of generated structures and their tags"],
     "property-based testing against a reference model of the content of each type", STD)

prop("C04", "Every type reference resolves to the right generated type",
     "For every member, list item, alias and wrapped value in the output, its type is the declaration generated for the schema type it refers to, or the target type of the built-in datatype it is ultimately restricted from, also for references by 'ref', anonymous and inline types, forward references and chains of restrictions. No generated type mentions a name that is neither declared in the output nor a type of the language.",
     ["inputs", "programs"], "all schemas: forward, backward, recursive and cross-file references, chains of restrictions of any depth, in any component order",
     "Resolution depends on component order, chain depth and namespace prefixes; the tests hold one order and depth at most two.",
     ["utils.go", "parser.go"] + XML + GEN,
     [("type resolution", "utils.go getBasefromSimpleType, getBuildInTypeByLang; parser.go GetValueType"), ("identifier of a referenced type", "gen*.go genFieldType")],
     ["types of members and aliases in the generated files"],
     "property-based testing against a reference resolver", STD)

prop("C05", "Built-in datatypes map to types that can hold their values",
     "Each XSD built-in datatype is given one target type per language, which can represent the values of its value space (for the unbounded integer types, those in the range of 32-bit integers), and is a list exactly for the list datatypes. The same type is used wherever the datatype appears: element, repeated element, attribute, restriction, list item, union member, simple content, global declaration.",
     ["inputs", "configurations"], "all built-in datatypes, positions and values of their value spaces, for each language",
     "The mapping is a table of 46 datatypes by five languages and is consulted from several places; golden files cover part of the rows in one position, and never values.",
     ["utils.go", "parser.go"] + GEN,
     [("built-in mapping table", "utils.go BuildInTypes"), ("lookups", "utils.go getBuildInTypeByLang; parser.go GetValueType")],
     ["types of generated members"],
     "enumeration of datatypes x positions plus property-based testing of values against a table of value ranges",
     STD + "The datatype/position grid is covered completely in every run; values are sampled, with the extremes always included.")

prop("C06", "Repeated content is generated as lists, single content is not",
     "A member is a list if and only if the element or group reference can occur more than once, because of its own maxOccurs or that of a sequence, choice or all around it (or it is of a list datatype). This holds for every nesting of model groups, every spelling of maxOccurs (unbounded, 0, 1, larger numbers) and in named groups as well.",
     ["inputs", "programs"], "all nestings of model groups with all combinations of occurrence bounds",
     "Plurality is carried through stacks while nested groups open and close; the tests hold two or three shapes of nesting.",
     ["xmlElement.go", "xmlChoice.go", "xmlGroup.go"] + GEN,
     [("plurality stacks", "parser.go Options.Choice; xmlChoice.go OnChoice, OnSequence"), ("plural field types", "gen*.go")],
     ["slice/array/List/Vec types of generated members"],
     "property-based testing against a reference model of effective occurrence", STD)

prop("C07", "Attribute use is carried into the generated members",
     "In every structure, an attribute member is marked optional (Go and Java tags, TypeScript unions, Rust options, where the language has such a form) if and only if the schema declares or references the attribute with a use other than required. The use of one attribute never affects another attribute or element.",
     ["inputs", "programs"], "all combinations of attribute declarations, references and uses in types, groups and derivations",
     "The mark depends on the attribute's own declaration and on attribute position within the element; the tests hold few combinations.",
     ["xmlAttribute.go", "xmlAttributeGroup.go"] + GEN,
     [("Optional flag", "xmlAttribute.go OnAttribute"), ("optional members", "gen*.go *ComplexType, *AttributeGroup")],
     ["tags and types of attribute members"],
     "property-based testing against a reference model", STD)

prop("C08", "Derived types keep their base",
     "The structure of a complex type derived by extension or restriction refers to its base: by embedding or inheritance for a complex base (in the languages that have a form for it: Go, Java, TypeScript, Rust), and as character data of the base's type for simple content, besides its own members. A type that is not derived has no base, and no type takes the base of another.",
     ["inputs", "programs"], "all derivation trees, by extension and restriction, of complex and simple content, in any order and across files",
     "The base travels through parser state shared by all open types; the tests hold a few derivations, none inside anonymous types or across files.",
     ["xmlExtension.go", "xmlRestriction.go", "xmlComplexType.go"] + GEN,
     [("Base of a complex type", "xmlExtension.go, xmlRestriction.go"), ("embedding / extends / chardata members", "gen*.go *ComplexType")],
     ["embedded fields, extends clauses, chardata members"],
     "property-based testing against a reference model", STD)

prop("C09", "Simple types become the alias, list, union or enumeration they define",
     "Each named simple type yields a declaration of its own form: an alias of its base's type for restrictions, a list of the item type for lists, a structure with one member per member type for unions, and for enumerations in TypeScript an enumeration with exactly the schema's values, in order. Inline simple types give their owner the type they restrict, and never leak values, members or bases to another component.",
     ["inputs", "programs"], "all simple type definitions, named and inline, with any nesting, chain depth and order",
     "Variety, nesting and order of definitions decide which shared parser state is live; the tests hold isolated cases.",
     ["xmlSimpleType.go", "xmlRestriction.go", "xmlList.go", "xmlUnion.go", "xmlEnumeration.go"] + GEN,
     [("SimpleType stack", "xmlSimpleType.go"), ("variety attributes", "xmlList.go, xmlUnion.go, xmlEnumeration.go"), ("emission", "gen*.go *SimpleType")],
     ["declarations of simple types"],
     "property-based testing against a reference model", STD)

prop("C10", "Included and imported schemas resolve across files",
     "For every set of local schema files connected by include and import (in any order, nesting of directories and cycles, with or without a target namespace), each file's output declares that file's components and no others, and references into other files get the same types as they would in one file. Generation terminates for cyclic references between files.",
     ["inputs", "programs"], "all include/import graphs over local files, all distributions of components over the files, and all prefixes and attribute orders",
     "The tests have one import and one include; cycles, depth, chameleon includes and references through several files are never exercised.",
     ["parser.go", "xmlImport.go", "xmlInclude.go", "utils.go", "schema.go"],
     [("recursive parsing of references", "parser.go; xmlInclude.go, xmlImport.go"), ("namespace bookkeeping", "parser.go NSSchemaLocationMap, LocalNameNSMap, ParseFileMap")],
     ["output files of every schema of the set"],
     "property-based testing of multi-file projects against a reference model", STD,
     [dict(name="ParseFileMap", meaning="proto trees of parsed files", where="parser.go")])

prop("C11", "Facets never change the generated types",
     "Adding, removing or changing constraining facets of a simple type (lengths, bounds, digits, patterns, white space) leaves the generated source of every language byte for byte the same, and so do enumerations in the languages that do not declare them (Go, C, Java, Rust).",
     ["inputs", "programs"], "all schemas and all sets of facets on their simple types",
     "A metamorphic relation over pairs of schemas; the tests compare single outputs.",
     ["xmlRestriction.go", "xmlLength.go", "xmlPattern.go", "xmlEnumeration.go", "xmlMaxInclusive.go", "xmlMinInclusive.go", "xmlTotalDigits.go", "xmlWhiteSpace.go"] + GEN,
     [("facet handlers", "xmlLength.go, xmlPattern.go, xmlMax*.go, xmlMin*.go, xmlTotalDigits.go, xmlFractionDigits.go, xmlWhiteSpace.go, xmlEnumeration.go")],
     ["generated output files"],
     "metamorphic property-based testing: the same project with and without facets", "Generated search; the relation needs no model of the output at all.")

prop("C12", "Generation is deterministic and independent of history",
     "Generating code for a schema file gives the same bytes every time: in a fresh process or in one that has already processed other schemas or other languages, on its own or as part of a directory, repeatedly, and over an output left from an earlier run.",
     ["histories", "inputs"], "all schema sets and all histories of runs (languages, files, repetitions, order, failed runs) in one process",
     "Package-level state and map iteration make a difference only after particular histories; each test runs its own fixed sequence once.",
     ["parser.go", "utils.go"] + GEN,
     [("fresh Options and CodeGenerator per run", "parser.go, gen*.go"), ("field name counters", "utils.go fieldNameCount")],
     ["generated output files"],
     "stateful property-based testing: random histories of runs in one process, compared with a run in a fresh process",
     "Generated search over histories; the oracle is the output of a fresh process.",
     [dict(name="fieldNameCount", meaning="counter map shared by generators of a process", where="utils.go")])

prop("C13", "Lexical form of the schema does not matter",
     "Rewriting a schema without changing its content leaves the output byte for byte the same: prefix chosen for the XML Schema namespace, attribute order and quoting, white space, comments, processing instructions, CDATA, character references, empty-element form, document encoding and byte order mark, 'id' and foreign attributes, notations, the elements which declare namespace prefixes, a document type declaration.",
     ["inputs"], "all schemas and all pairs of lexical forms of them",
     "A metamorphic relation over pairs of documents; each golden test has one lexical form.",
     ["parser.go", "utils.go"] + XML,
     [("token loop", "parser.go Parse"), ("attribute switch statements", "xml*.go"), ("charset reader", "parser.go"), ("prefix trimming", "utils.go trimNSPrefix")],
     ["generated output files"],
     "metamorphic property-based testing: the same project in two lexical forms", "Generated search; the relation needs no model of the output.")

prop("C14", "Documentation becomes the comment of its component, and nothing else",
     "The documentation of a component appears in the comment of the declaration generated for that component (where the language comments that kind of declaration) and in no other comment, whatever characters it contains. Adding or removing annotations (documentation, appinfo) anywhere never changes the declarations.",
     ["inputs", "programs"], "all schemas and all documentation texts at all places where annotations may appear",
     "Documentation is attached through the state of the open components, and its text ends up inside source code; the tests have few plain texts.",
     ["xmlCharData.go", "utils.go"] + XML + GEN,
     [("attachment", "xmlCharData.go"), ("comment construction", "utils.go genFieldComment")],
     ["comments and declarations of the generated files"],
     "property-based testing against a reference model, and metamorphic comparison with the schema without annotations", STD)

prop("C15", "The order of global components does not change what is generated",
     "Permuting the global components of a schema (and the order of its files' references) permutes the declarations of the output, and changes nothing in them.",
     ["inputs", "programs"], "all schemas and all permutations of their global components",
     "A metamorphic relation over n! documents; forward and backward references go through different code, and each test has one order.",
     ["parser.go", "utils.go"] + XML + GEN,
     [("late resolution of types", "parser.go; xml*.go; utils.go getBasefromSimpleType")],
     ["declarations of the generated files"],
     "metamorphic property-based testing: the same components in two orders", "Generated search; the oracle compares parsed declarations as sets.")

prop("C16", "Malformed input is reported, never fatal",
     "Whatever bytes the schema file holds, parsing returns (it does not crash, exit or run on), and it returns an error whenever the file is not well-formed XML, is in an unknown encoding, or is missing or unreadable, or the output cannot be written, and also when it refers to components of a schema file which is not well-formed, or of an imported one which does not exist. When it returns no error, the output file of that schema has been written completely.",
     ["inputs", "fault_sequences"], "all byte strings as schema files: mutations and truncations of schemas, misplaced, repeated and missing elements and attributes, arbitrary XML, arbitrary bytes",
     "The tests parse valid files and two or three broken ones; the panics and silent truncations sit in rare combinations.",
     ["parser.go"] + XML + ["xmlImport.go", "xmlInclude.go"],
     [("token loop and error return", "parser.go Parse"), ("stack operations on possibly empty stacks", "xml*.go")],
     ["returned error", "process state", "output files"],
     "fuzzing: structured mutation of generated schemas, grammar-based generation of misplaced constructs and arbitrary bytes; encoding/xml as reference for well-formedness",
     "Generated search. Trusts encoding/xml's strict decoder as the judge of well-formedness.")

prop("C17", "The command line does what its options say",
     "The xgen command processes its input file or directory in the language and package asked for, writes the outputs below the output path, exits with status 0 and says so only if every schema was processed, and otherwise reports the error and exits with a non-zero status. Wrong usage (missing input, output or language, unsupported language, missing input path) is reported with a non-zero status and nothing is written; help and version print and exit with 0.",
     ["configurations", "inputs"], "all combinations of options, input paths (file, directory, nested, missing, other files in it) and schema contents, valid or not",
     "The command has no tests that run it at all; its behaviour is a product of options, input trees and parser outcomes.",
     ["cmd/xgen/xgen.go", "utils.go"],
     [("option parsing", "cmd/xgen/xgen.go parseFlags"), ("main loop and exit codes", "cmd/xgen/xgen.go main")],
     ["exit status", "stdout and stderr", "files written"],
     "property-based testing of the real binary against a model of its contract and against the library's output",
     "Generated search over invocations of the real binary, run as an unprivileged user in a scratch directory.")

prop("C18", "Outputs go where they belong, and nothing else is touched",
     "A run writes exactly one output file per schema processed: below the output directory, at the schema's path relative to the input directory, with the language's extension (or the given output file, for a single input), creating directories as needed and replacing older content completely. It never changes the input files, writes nothing outside the output directory, and in extraction mode writes nothing at all.",
     ["inputs", "configurations", "histories"], "all input trees (nested, with other files in them), output locations (new, existing, nested, containing older output, equal to the input directory) and languages",
     "The tests write into one fixed directory; placement depends on the shapes of both trees and on what is already there.",
     ["parser.go", "utils.go", "cmd/xgen/xgen.go"],
     [("output path", "parser.go outputPath; utils.go GetFileList, PrepareOutputDir; genGo.go FileWithExtension"), ("writing", "gen*.go")],
     ["file system before and after"],
     "stateful property-based testing: file trees before and after random sequences of runs",
     "Generated search; the file trees are compared completely.")

prop("C19", "Generated Go types round-trip the documents of their schema",
     "For every schema and every document valid for it, decoding the document's root into the generated Go type with encoding/xml and encoding the value again gives a document with the same content: every attribute, element and text, in the same order among elements of the same name, and nothing else, up to empty and zero values.",
     ["inputs", "programs"], "all schemas and all documents valid for them",
     "The tests decode a couple of fixed documents into golden types; what is lost depends on schema shape and document content together.",
     ["genGo.go", "utils.go", "parser.go"],
     [("tags and types of Go fields", "genGo.go"), ("embedding of bases, groups and attribute groups", "genGo.go GoComplexType")],
     ["decoded and re-encoded documents"],
     "round-trip property-based testing: random schemas and random documents valid for them, through the generated types built by reflection",
     STD + "The generated Go source is loaded by parsing it and building its types with reflect, so one process can test thousands of schemas (the thorough tier compiles a sample of them for real and compares); the documented representation limits (DESIGN.md) are outside the generated domain.")

prop("C20", "Names become valid, distinct and exported identifiers",
     "Every XML name yields an identifier that is valid in the target language, is not one of its reserved words, is exported in Go, and keeps the letters and digits of the name in order. Two names that differ in letters or digits never share an identifier in one scope, and the XML name itself is kept in the tags.",
     ["inputs", "programs"], "all XML names (letters of any script, digits, punctuation, keywords of any target language) at all places where names appear",
     "The set of names is unbounded; the golden files contain plain ASCII words.",
     ["utils.go"] + GEN,
     [("identifier construction", "utils.go MakeFirstUpperCase, ToSnakeCase; gen*.go genFieldName"), ("keyword tables", "genRust.go, genJava.go, genC.go, genTypeScript.go")],
     ["identifiers and tags of the generated files"],
     "property-based testing against a model of identifier derivation and the reserved words of the languages", STD)

prop("C21", "Helper functions keep their contracts",
     "The exported helpers hold their contracts for all arguments and call sequences: a stack returns what was pushed in reverse order, reports its length and emptiness, and never fails on an empty stack; adding an extension (given with or without a leading dot) leaves a name alone which already ends in it and otherwise appends it; the snake case of a name inserts one underscore before each word that starts with a capital, turns hyphens into underscores, keeps everything else and is stable when repeated, and so is raising the first letter, which changes only that letter; file listing names every regular file at or below a path exactly once, and reports a missing path; preparing a directory leaves it existing, or reports an error, and never changes other content.",
     ["inputs", "histories"], "all arguments and all sequences of operations",
     "The tests have one example per helper.",
     ["utils.go", "stack.go", "genGo.go"],
     [("Stack", "stack.go"), ("ToSnakeCase, ToTitle, MakeFirstUpperCase, GetFileList, PrepareOutputDir", "utils.go"), ("FileWithExtension", "genGo.go")],
     ["return values", "file system"],
     "model-based property testing of operation sequences and arguments", "Generated search against a reference model of each helper.")

prop("C22", "Extracted components describe the schema",
     "In extraction mode, the components handed to the caller are exactly those of the schema, in document order and in their nesting: names, documentation, base types, list and union varieties, enumeration values, members in order, and the plurality and optionality of each. They are the same components the code generators are given, and extraction leaves the file system unchanged.",
     ["inputs", "programs"], "all schemas",
     "The tests look at one extracted schema; the components are assembled from shared stacks.",
     ["parser.go", "schema.go"] + XML,
     [("ProtoTree", "parser.go"), ("component structures", "proto.go"), ("handlers which fill them", "xml*.go")],
     ["Options.ProtoTree after parsing"],
     "property-based testing against a reference model of the components", STD)

prop("C23", "Concurrent generation equals sequential generation",
     "Generating code for several schemas at the same time in one process, for the same or different languages, gives for each of them the result it has when run alone: the same bytes, the same error, no crash and no data race.",
     ["schedules", "inputs"], "all sets of runs and all interleavings of them",
     "No test runs two generations at once; interference depends on the schedule.",
     ["utils.go", "parser.go"] + GEN,
     [("serialisation of shared state", "utils.go / gen*.go fieldNameCount and its lock"), ("per-run Options", "parser.go")],
     ["generated output files", "race detector"],
     "property-based testing of concurrent runs under the race detector, compared with sequential runs",
     "Generated search over schema sets; schedules are those the Go scheduler produces under the race detector, with several repetitions.")

def main():
    claimed = sys.argv[1:] or [p["id"] for p in P]
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            anchors = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None)
            if p["state"]:
                anchors["state"] = p["state"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=anchors), ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in claimed:
            checks.append(dict(property=p["id"], quick_cmd="./run.sh check " + p["id"], thorough_cmd="VERIF_TIER=thorough ./run.sh check " + p["id"],
                               evidence_file="evidence/%s.json" % p["id"], technique=p["tech"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="the check is not built yet"))
    m = dict(version=1, setup_cmd="./run.sh build", checks=checks, not_applicable=na,
             notes="One Go harness (harness/) decides all properties; run.sh builds it against /repo's working tree in a scratch directory. No hooks in /repo are needed. A failing case is written to replays/ and can be re-run with ./run.sh replay FILE. Genuine defects found are repaired in /repo (fix: commits) or listed in known_findings.jsonl.")
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")

main()
