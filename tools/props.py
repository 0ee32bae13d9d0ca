#!/usr/bin/env python3
"""Source of truth for properties.jsonl and MANIFEST.json: run it after editing."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, q, why, files, mech, observe, level="exploration", technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                  observe=observe, level=level, technique=technique, note=note))
C = "atelier-core/src/"
p("C01", "Identifier text is accepted exactly when well formed, and read exactly",
  "An identifier, a namespace or a shape id is accepted exactly when its text follows the Smithy 1.0 grammar (ASCII letters, digits and underscores, a letter after any leading underscores; dot-separated namespace; `#` before the shape name; optional `$` member). An accepted one prints as the text it was read from; its namespace, shape name and member name are the ones the text spells; and putting those parts together again, or turning it into its member and shape-only forms, gives exactly the corresponding id.",
  ["inputs"], "every text over a ten-character alphabet up to a length bound, every one-character insertion and replacement from the whole Latin range and look-alike code points in fixed ids, and every id assembled from a pool of segments",
  "unit tests sample about fifty ids; acceptance has to be right for every text, in particular at the grammar's edges (empty segments, leading digits, non-ASCII letters, newlines at the end)",
  [C+"model/identity.rs", C+"builder/id.rs"], [("identifier grammar", C+"model/identity.rs")], ["parse, print and accessor results"])
p("C02", "Identifier equality ignores case and agrees with hashing and ordering",
  "Two identifiers, namespaces or shape ids are equal exactly when their texts are equal ignoring letter case. Equal ids hash alike, compare as equal in the ordering, and count once in hash and ordered sets; the ordering is total and consistent for every combination of ids.",
  ["inputs"], "every triple of ids from pools that differ in case, prefix, separator position and member part",
  "the agreement is between three separately written operations and over triples of values; tests never compare ids that differ in case only",
  [C+"model/identity.rs", C+"builder/id.rs"], [("equality, hash and ordering of ids", C+"model/identity.rs")], ["==, hash, cmp, set membership"])
p("C03", "Models, shapes and values behave as the collections they look like",
  "After any sequence of additions, replacements and removals, a model's shapes and metadata, a structure's members, the traits of a shape or member, and the properties of services, operations and resources are exactly those of a plain map, list or optional given the same calls: every look-up, membership test, presence test, count, iteration and returned previous value agrees. Setters that take a shape ignore shapes of an unsuitable kind, replacing a shape's body changes nothing else, and the kind tests, downcasts and conversions of shapes and values say exactly what the thing is.",
  ["histories"], "every history of the public mutators up to a depth bound, for every container, merged on equal reference states; every pair of shape kinds; boundary values",
  "a container has to agree with its reference after every history, and through every accessor; tests look at a few accessors after one or two calls",
  [C+"model/mod.rs", C+"model/shapes/mod.rs", C+"model/shapes/aggregate.rs", C+"model/shapes/service.rs", C+"model/values.rs", C+"macros.rs"],
  [("member accessors generated by macros", C+"macros.rs"), ("model tables", C+"model/mod.rs")], ["accessors after every call"], "model_checking")
p("C04", "Metadata merging concatenates arrays, ignores equal values, refuses conflicts",
  "Adding metadata under a key that is already present appends the new array to the present one if both are arrays (equal arrays too), leaves it unchanged if the values are equal otherwise, and else is refused, leaving the present value. A key that is not present is stored as given, and other keys are never touched. Merging one model into another treats every metadata key of the other in this way.",
  ["histories", "inputs"], "every pair and triple of values from a pool covering every kind and nested empty cases, added one by one and by merging models",
  "the outcome depends on the combination of both values' kinds, including nested, empty and almost equal ones; tests merge two or three fixed pairs",
  [C+"model/mod.rs"], [("metadata insertion rule", C+"model/mod.rs")], ["metadata after the call", "result of the call"], "model_checking")
p("C05", "Shape merging keeps equal shapes, completes unresolved ones, refuses conflicts",
  "Adding or merging a shape under an id the model already has is accepted exactly when one of the two is unresolved or both are the same kind with the same members and targets (for services, operations and resources the same properties); traits do not count. The result has the resolved body if there is one, the traits of both, and for aggregate shapes the member traits of both. A refused shape leaves the kind, members and properties already present, and all other shapes, unchanged.",
  ["inputs", "histories"], "every ordered pair (and selected triples) from a family of shape bodies in which every kind has variants differing in exactly one name, target, property, order or multiplicity, with and without traits",
  "the relation is over pairs of shapes of every kind and every single difference; tests merge a handful of identical and conflicting structures",
  [C+"model/mod.rs", C+"model/shapes/mod.rs"], [("shape comparison without traits", C+"model/shapes/mod.rs"), ("merge rule", C+"model/mod.rs")], ["accepted or refused", "resulting shape"], "model_checking")
p("C06", "Applying a trait again concatenates arrays, ignores equal values, refuses others",
  "Applying a trait a shape or member does not have stores its value as given; applying one it has appends the new array to the present one if both values are arrays (equal arrays too), keeps the value if both are equal otherwise, and else is refused with the present value kept. Merging two shapes treats each trait of the shape, and each trait of each of its members, in this way. A trait named by a member id is refused.",
  ["histories", "inputs"], "every sequence of up to three applications of values from a pool covering every kind, absent value included, on shapes and members of every aggregate kind, directly and through merging",
  "the outcome depends on both values and on the route by which they meet; tests apply equal traits or one conflicting pair to a shape, never to members",
  [C+"model/shapes/mod.rs", C+"model/mod.rs"], [("trait merge rule", C+"model/shapes/mod.rs")], ["traits after the call", "result of the call"], "model_checking")
p("C07", "Merging models gives the same result in any order",
  "Merging the same models in any order gives the same shapes, members, properties, traits and metadata, except that the elements of merged arrays may be in a different order; and if merging fails in one order it fails in every order. The internal order in which shapes, members, traits and metadata are visited makes no difference to the result.",
  ["histories", "schedules"], "every order of two, three and four models from pools built to overlap, under several settings of the hash seeds",
  "order independence quantifies over permutations and over hash-map iteration orders, which differ from run to run; tests merge in one order",
  [C+"model/mod.rs", C+"model/shapes/mod.rs"], [("merge", C+"model/mod.rs")], ["resulting model", "success or failure"])
p("C08", "A model is complete exactly when it has no unresolved shapes",
  "The unresolved and the resolved shape names of a model together are its shape ids, each in exactly one of the two; a model reports itself complete exactly when there are no unresolved ones. The validator for unresolved references reports exactly one issue per unresolved shape, naming it, and none for any other shape.",
  ["histories", "inputs"], "every model made of up to four shapes of every kind, resolved or not, with traits and members or not, and every order of resolving them",
  "completeness has to hold after every mixture of kinds and every history of resolving; tests look at one incomplete model",
  [C+"model/mod.rs", C+"action/validate/mod.rs"], [("completeness", C+"model/mod.rs"), ("unresolved reference validator", C+"action/validate/mod.rs")], ["name listings", "issues"])
p("C09", "The model builder resolves every local name by the Smithy rules",
  "A local name used anywhere in a built model (as a target, trait, property or identifier) resolves to the shape imported under that name if there is one, else to the shape of that name defined in the model's namespace, else to the prelude shape or, for a trait, prelude trait of that name, else to the name in the model's namespace, which is then listed as unresolved. Two different imports of the same name make it ambiguous and building fails; a qualified name is taken as it is. A defined shape keeps its own name in the model's namespace.",
  ["configurations", "inputs"], "every combination of imported or not, defined or not, prelude name or not, trait or not, at every position of every shape kind where a name can stand",
  "resolution is a precedence over independent conditions at about thirty positions; tests exercise a few of the combinations",
  [C+"builder/mod.rs"], [("name resolution", C+"builder/mod.rs")], ["targets and trait ids in the built model", "unresolved shape names"])
p("C10", "A built model contains exactly what its builders were told",
  "The model made by the builder has exactly the shapes, kinds, members, properties, traits with their values, and metadata that were requested, whatever the order of the builder calls; repeated traits, and members given more than once to a structure or union, merge by the trait rules. Traits applied from outside a shape definition reach that shape or member, or an unresolved entry when the shape is not defined. A contradictory trait makes building fail instead of being dropped.",
  ["histories", "inputs"], "every body of a family covering all kinds, properties and member traits; every trait helper of the builder; every order of the calls of small builders",
  "every builder method feeds one field of one kind; a slip in one of them, or an order dependence, is outside what the sampled tests see",
  [C+"builder/mod.rs", C+"builder/shapes.rs", C+"builder/traits.rs", C+"builder/values.rs"], [("shape construction", C+"builder/mod.rs")], ["the built model through its accessors"], "model_checking")
J = "atelier-json/src/"
p("C11", "JSON: writing a model and reading it back gives the same model",
  "Writing any model (with finite numbers) as JSON AST and reading it back gives a model with the same shapes, kinds, members, targets, properties, service renames, trait values and metadata, where a trait without value and a trait with an empty object count as the same. The written text is the same whatever order the model was assembled in.",
  ["inputs", "schedules"], "every shape kind with every subset of its properties, every member and shape trait variant, every value tree up to a size bound in traits and metadata, awkward strings, extreme numbers, and pairs of shapes, under several hash orders",
  "a round trip has to hold for every model; the existing tests read and write two fixed files",
  [J+"reader.rs", J+"writer.rs"], [("JSON AST writer", J+"writer.rs"), ("JSON AST reader", J+"reader.rs")], ["model read back", "bytes written"])
p("C12", "JSON AST documents are read and written as the specification lays them out",
  "Reading a JSON AST document yields exactly the model the document describes, and the document written for a model is, as JSON data, exactly the one the Smithy 1.0 JSON AST specification gives for it: shape types, member, target, trait and property names, value types, and nothing else. A model with a number JSON has no form for is refused with an error.",
  ["inputs"], "every model of the round-trip families, compared both ways against an independent rendering of the specification",
  "a reader and a writer can agree with each other and be wrong about the format; every property of every kind has to be compared with an independent rendering",
  [J+"reader.rs", J+"writer.rs", J+"syntax.rs"], [("JSON AST vocabulary", J+"syntax.rs")], ["model read", "document written"])
p("C13", "The JSON reader answers every text with a model or an error",
  "For every byte string, reading JSON AST returns a model or an error and never panics, hangs or prints. Text that is not JSON, or whose top level lacks the Smithy version or has an unsupported one, whose shapes are not objects with a known type, whose sections, members or traits have the wrong JSON type, or whose ids or targets are not valid shape ids, is refused; so is an object in which two traits, members, renames or identifiers are the same id, letter case aside.",
  ["inputs", "fault_sequences"], "every document obtained from base documents covering all kinds by replacing, deleting or duplicating any one node by each of a set of replacement nodes, every truncation, and short texts over a JSON token alphabet",
  "totality is over all inputs; tests read valid files",
  [J+"reader.rs"], [("JSON AST reader", J+"reader.rs")], ["result, panics, output"])
S = "atelier-smithy/src/"
p("C14", "Smithy IDL text is parsed into exactly the model it describes",
  "Parsing a Smithy IDL document gives exactly the model the document describes: every shape statement with its members, properties and traits, metadata, imports, applied traits, documentation comments, and every form of node value with string escapes and text blocks resolved as the Smithy 1.0 specification says; a shape id as a node value stands for its text.",
  ["inputs"], "every statement form with every subset of its optional parts and every trait and member variant, and every node value up to a size bound, rendered by an independent printer; alone and in pairs",
  "each grammar production combines with every other; tests parse about ten documents",
  [S+"parser/smithy.rs", S+"smithy.pest"], [("IDL grammar and tree walk", S+"parser/smithy.rs")], ["the parsed model"])
p("C15", "Smithy IDL: writing a model and parsing it back gives the same model",
  "For any model whose shapes are in one namespace, the text written as Smithy IDL parses back to a model with the same shapes, members, targets in whatever namespace, properties, trait values and metadata, where a trait without value and a trait with an empty object count as the same. A model with a number the IDL has no form for is refused with an error.",
  ["inputs"], "the families of the JSON round trip, restricted to one namespace",
  "round trip over all models; tests compare the written text of two models, or do not compare at all",
  [S+"writer.rs", S+"parser/smithy.rs"], [("IDL writer", S+"writer.rs"), ("IDL parser", S+"parser/smithy.rs")], ["model parsed back"])
p("C16", "Smithy IDL meaning does not depend on layout",
  "Changing the white space, line ends, commas and ordinary comments between the tokens of a Smithy IDL document wherever the grammar allows does not change the parsed model. Nor does the order of shape statements or of metadata statements with different keys.",
  ["inputs", "configurations"], "every token gap of documents covering all statements, with each of several kinds of white space and comment, and every permutation of small sets of statements",
  "the gap rules appear in every grammar production separately; tests use conventional layout only",
  [S+"smithy.pest", S+"parser/smithy.rs"], [("white space productions", S+"smithy.pest")], ["the parsed model"])
p("C17", "The Smithy IDL reader answers every text with a model or an error",
  "For every text, reading Smithy IDL returns a model or an error and never panics, hangs or overflows the stack at moderate nesting. A document damaged so that a required token is missing is refused rather than read as something else, and so is one that repeats a key of an object, or gives a member two different targets, or has a number beyond floating point: no value is dropped in silence.",
  ["inputs", "fault_sequences"], "every truncation, every deletion, duplication and replacement of one token in documents covering all statements, and short token sequences",
  "totality is over all inputs; tests parse valid documents",
  [S+"parser/smithy.rs", S+"reader.rs"], [("IDL reader", S+"parser/smithy.rs")], ["result, panics"])
p("C18", "The line-oriented form is canonical: equal models, equal text, and only those",
  "The line-oriented form of a model depends only on the model: the same content gives the same sorted lines, those its documentation describes, in whatever order it was assembled or is held internally. Two models that differ in a shape, kind, member, target, property, trait, value or metadata have different lines; only the order of lists of operations, resources and errors is not kept.",
  ["inputs", "schedules"], "every model of a family in which each differs from others in one detail, all pairs compared by text, each built in several orders and under several hash seeds",
  "injectivity quantifies over pairs of models, canonicity over orders; the repository's own tests rely on this form to compare models",
  [C+"io/lines.rs"], [("line-oriented writer", C+"io/lines.rs")], ["text written"])
A = "atelier-assembler/src/"
p("C19", "Assembling files gives their merged model, however they are found",
  "The assembler's model is the merge of the models of all the files it is given or finds, whatever order the paths were added in, however they are split between file and directory arguments, and whatever order the system lists them in; a file reached twice counts once.",
  ["configurations", "schedules"], "every order and every split of small file sets over file and directory arguments, under several hash seeds and directory layouts",
  "the result must not depend on set iteration order, which is random per run",
  [A+"lib.rs"], [("path collection and merge", A+"lib.rs")], ["assembled model"])
p("C20", "The assembler finds exactly the files it should and reports what it cannot use",
  "A directory argument contributes exactly the files below it, at any depth and through links, whose extension is registered in whatever letter case, each read in the format last registered for it; other files are ignored. Paths of a search path (by default the one in SMITHY_PATH) are treated like added paths, except that entries that do not exist are ignored. An added path that does not exist, or a file or directory that cannot be read, does not parse or contradicts another makes assembling fail with an error, never a panic or a partial model.",
  ["configurations", "fault_sequences"], "every small directory tree over good, foreign, malformed, unreadable and conflicting files and nested and linked directories, with every subset of registered extensions",
  "discovery is over trees and error positions; tests use one good directory",
  [A+"lib.rs"], [("discovery", A+"lib.rs")], ["model or error"])
V_ = C+"action/"
p("C21", "The type-reference validator accepts exactly the references Smithy allows",
  "The validator of type references raises one error, at the shape that refers, for every reference whose target has a kind not allowed there: members, operation inputs, outputs and errors, and resource identifiers must not target services, operations or resources; operation positions must target operations and resource positions resources. A target that the model does not define and that is not in the prelude's namespace gives a warning, a simple shape without traits a note of level info, and nothing else gives an issue. The validator of unresolved references raises one error for every shape of the model that is left unresolved, whatever its name and traits, and no other issue.",
  ["inputs"], "every reference position crossed with every target kind, alone and combined with a second reference",
  "the rule is a table of positions by kinds; tests have three bad models",
  [V_+"validate/mod.rs"], [("type reference validator", V_+"validate/mod.rs")], ["issues"])
p("C22", "The linters report exactly the names and terms they are defined to report",
  "The naming linter reports exactly the uses of names that break its conventions, each with the corrected name: shapes, and targets of structure and union members, are in upper camel case; structure and union members, trait definitions, and traits applied to shapes or to such members are in lower camel case. The unwelcome-terms linter reports each listed word once for every distinct namespace part or shape, member, trait or target name that contains it, at a place where it occurs. Running a linter on a second model gives the same issues as a fresh linter.",
  ["inputs", "histories"], "every name over a small alphabet of letter-case patterns at every position, every listed word in every position and casing, and every order of two models through one linter",
  "the conventions are over all names and positions, and reuse is over histories; tests lint one model",
  [V_+"lint/mod.rs"], [("linters", V_+"lint/mod.rs")], ["issues"])
p("C23", "Running several actions gives the issues of all, or up to the first failure",
  "Running a list of linters or validators gives the issues of each action, in the order of the list; with fail-fast requested, actions after the first one that reports an issue of level error are not run. An action that itself fails makes the run fail.",
  ["histories"], "every sequence of up to four actions over quiet, informing, warning, error-reporting and failing ones, with and without fail-fast",
  "the guarantee is over sequences; no test runs more than one action",
  [C+"action/mod.rs", C+"action/validate/mod.rs", C+"action/lint/mod.rs"], [("action runners", C+"action/mod.rs")], ["issues", "actions run"], "model_checking")
p("C24", "Walking a model visits every part of it once",
  "Walking a model with a visitor calls back exactly once for every metadata entry and every shape, by its kind, with its identifier, its traits and its body, and with a member visitor once for every member of an aggregate shape and every operation, resource, input, output or error that an operation, resource or service names. A callback's error ends the walk and is returned.",
  ["inputs", "fault_sequences"], "every kind alone and in pairs, and every position of a failing callback",
  "an omission affects one kind or one position only; a test visits one model and counts",
  [C+"model/visitor.rs"], [("walk", C+"model/visitor.rs")], ["callbacks"])
R_ = "atelier-rdf/src/"
p("C25", "Shape ids and RDF names correspond one to one",
  "Every shape id, with or without a member, converts to a Smithy URN that converts back to the same id, and different ids convert to different URNs. An IRI that is not the URN of a shape id is refused with an error.",
  ["inputs"], "every id of a pool of segments, and every one-character corruption of the URNs",
  "bijection is over all ids; tests convert three",
  [R_+"urn.rs"], [("URN conversion", R_+"urn.rs")], ["converted values"])
p("C26", "The RDF graph of a model states exactly the model",
  "The RDF graph made for a model has exactly the statements the documented mapping gives for its version, metadata, shapes and their kinds, members and targets, properties, and traits with their values, up to the names of blank nodes. It is the same graph whatever the internal order of the model's tables.",
  ["inputs"], "the shape and value families, compared with an independent description of the graph up to blank node names",
  "tests print graphs without checking them",
  [R_+"writer.rs"], [("graph construction", R_+"writer.rs")], ["triples"])
Q = C+"model/selector/"
p("C27", "Selectors print as text that parses back to the same selector",
  "Any selector whose parts selector text can express prints as text that parses to an equal selector. Text following the selector grammar parses to the selector it spells, whatever white space is put between its tokens; text that does not follow it is refused with an error, without a panic.",
  ["inputs"], "every selector tree up to a size bound over all expression, comparison and value forms",
  "round trip over a recursive language; tests parse about thirty texts",
  [Q+"mod.rs", S+"selector.pest", S+"parser/selector.rs"], [("selector grammar", S+"selector.pest")], ["selector parsed back"])
p("C28", "Selecting shapes by type finds exactly the shapes of that type",
  "Evaluating a selector made of shape type names on a model returns exactly the ids of the model's shapes that are of all those types, each once: every defined shape for the wildcard, the shapes of the numeric, simple or collection kinds for those groups, and the shapes of the one kind otherwise; no shape is a `member`. An empty model gives the empty result.",
  ["inputs"], "every type name, and every short sequence of them, against every pair of kinds and against a model of all kinds",
  "tests evaluate one selector",
  ["atelier-query/src/evaluate.rs", "atelier-query/src/lib.rs"], [("evaluation", "atelier-query/src/evaluate.rs")], ["returned ids"])
p("C34", "The selector builders build the selector their calls spell",
  "A selector assembled with the selector builders, the constructors of comparisons and the methods that set their parts has exactly the expressions the calls name, in the order of the calls, with the values given to them: it is equal to, prints as, and says through its accessors the same as the selector made of the same parts one by one.",
  ["inputs"], "every builder, constructor and setter over a pool of parts and values",
  "a family of small constructors, several of which no test calls",
  [C+"builder/selector.rs", Q+"mod.rs"], [("selector builders", C+"builder/selector.rs")], ["the selector built"])
D = "atelier-describe/src/"
p("C29", "The GraphML export has one node per shape and one edge per reference",
  "The GraphML document written for a model is well-formed XML declaring every key it uses, with one node for every defined shape, carrying its id, kind and a service's version, and one edge for every applied trait of a defined shape, every member, and every operation, resource, input, output or error a shape names, carrying source, target and role. Edge ids are all different, and there is nothing else (versions with characters XML cannot express excepted).",
  ["inputs"], "the shape and value families, one-detail changes of rich models, and hash orders; the document is parsed back", "the test writes one model and does not look at it",
  [D+"graphml/writer.rs"], [("GraphML writer", D+"graphml/writer.rs")], ["text"])
p("C30", "The PlantUML diagram shows every class once, with everything on it",
  "The PlantUML text written for a model has one package for each namespace of defined shapes, holding one class for each simple, structure, union, service and resource shape of that namespace. Each class has its stereotype, its traits, its fields (members, version, identifiers) and its operations by name with their input and output types, with a note for its documentation and one aggregation for each resource; nothing else is shown, and text from the model stays within its own line.",
  ["inputs"], "the shape and value families, one-detail changes of rich models, operations over every pair of kinds, and hash orders; the text is taken apart again", "the test writes one model and does not look at it",
  [D+"plant_uml/writer.rs"], [("PlantUML writer", D+"plant_uml/writer.rs")], ["text"])
p("C31", "Generated documentation covers every shape, member and trait",
  "The documentation generated for a model has the metadata, a section for every namespace, and for every defined shape, under its own heading with name and kind, its documentation, every other trait with the path and text of each value in it, its members each with its target and what is said of it, and the operations, resources, inputs, outputs, errors and renames it names. Generating it never panics, and the documentation writer writes exactly that document as CommonMark.",
  ["inputs"], "the shape and value families, one-detail changes of rich models, and hash orders; the document's blocks are compared with the model's facts", "one test compares the text for one model",
  [D+"document/writer.rs"], [("documentation writer", D+"document/writer.rs")], ["document"])
p("C32", "Every I/O failure is reported and never turned into success",
  "If the destination of any of the model writers fails at any point, writing reports an error, and what was accepted before is a beginning of the complete document. If the source of a reader fails at any point, reading reports an error. Split or interrupted transfers change nothing. The same holds for the functions that read and write files, which replace what a file had before.",
  ["fault_sequences", "crash_points"], "every write call and every byte position of every format, and every read call, for each kind of fault",
  "faults never happen in the tests, which write to memory",
  [C+"io/mod.rs", J+"writer.rs", S+"writer.rs", D+"graphml/writer.rs"], [("model writers and readers", C+"io/mod.rs")], ["result and bytes accepted"], "fault_enumeration")
p("C33", "The command line tool converts, checks and reports as its library does",
  "The command line tool's convert and document commands write the document of the model assembled from their input files, directories and search path, and nothing else, to the output file, replacing what it had, or to standard output; lint and validate report each issue the library's standard linters and validators find, and no other. Bad arguments, unreadable, malformed or contradicting input and output that cannot be written end with an error message and a failing exit status, without a panic, without anything on standard output, and without touching an output file when it is the arguments or the input that are bad.",
  ["configurations", "inputs"], "every command with every combination of reader and writer formats and output kinds, and every kind of bad input",
  "no test runs the tool",
  ["cargo-atelier/src/actions.rs", "cargo-atelier/src/report.rs", "cargo-atelier/src/command_line.rs", "atelier-lib/src/actions.rs"], [("commands", "cargo-atelier/src/actions.rs")], ["exit status, files, output"])
p("C35", "Equality of models, shapes and values says whether their contents are the same",
  "Two models, shapes, shape bodies or values compare equal exactly when they have the same shapes, kinds, members, targets, properties (lists in order), traits with values, and metadata, letter case of ids aside: finite numbers compare by value, integers and floats differ. The order in which parts were added to what is unordered does not matter, a copy is equal to its original, and != is the opposite of ==.",
  ["inputs"], "every pair of the shape and value families and of one-detail changes of rich models, in both directions",
  "the tests compare a handful of values; every other check, and users comparing models, rely on equality missing nothing",
  [C+"model/mod.rs", C+"model/shapes/mod.rs", C+"model/values.rs", C+"model/identity.rs"], [("equality", C+"model/shapes/mod.rs")], ["result of =="])
p("C36", "Readers, writers, validators and linters keep nothing from earlier uses",
  "Whatever was read, written or checked before with a reader, writer, validator or linter, even if that failed, its next use gives what a fresh one gives; validators and linters add their issues to those already there. Writing, checking or describing a model leaves the model as it was.",
  ["histories", "inputs"], "every sequence of two and three uses of one object over a pool of models and inputs, failing ones among them",
  "tests use each object once",
  [C+"io/mod.rs", C+"action/mod.rs", J+"writer.rs", S+"writer.rs", D+"graphml/writer.rs"], [("reused objects", C+"io/mod.rs")], ["output of the next use", "the model"])

p("C37", "Value builders, names, issues and versions hold exactly what they are given",
  "A value made with the array, object and single value builders is the list, the map (the last value of a key wins) or the value the calls spell; building it again, or going on after building it, changes nothing already built. A builder's name is read as a shape id if it is one, else as an identifier, else refused, and says exactly the parts of its text. An issue keeps and prints the reporter, level, message and place it was made with, and levels are ordered from info to error. A version is read from exactly the texts `1` and `1.0`.",
  ["histories", "inputs"], "every sequence of builder calls up to a depth bound, every text over small alphabets up to a length bound, every combination of level, reporter, message and place from pools",
  "tests build three values and never print an issue; a builder has to be right for every sequence of calls",
  [C+"builder/values.rs", C+"builder/id.rs", C+"action/mod.rs", C+"lib.rs"], [("value builders", C+"builder/values.rs"), ("issues", C+"action/mod.rs")], ["built values", "accessors and printed text"])

built = set()
src = open(os.path.join(ROOT, "harness/src/props/mod.rs")).read()
for m in re.finditer(r'id: "(C\d+)"', src):
    built.add(m.group(1))
NA = {}
TECH = {
 "exploration": "bounded-exhaustive enumeration of executions of the real code against a reference model",
 "model_checking": "explicit-state search of the real code in lock step with a reference model",
 "fault_enumeration": "exhaustive enumeration of fault points of the real code",
}
NOTE = "Every case within the stated bounds is executed on the code built from the working tree and compared with an independent reference; nothing is sampled. Says nothing beyond the bounds; trusts the harness's reference model and the Rust toolchain."
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["q"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
checks = [{
    "property": x["id"], "quick_cmd": f"bash check.sh {x['id']} quick", "thorough_cmd": f"bash check.sh {x['id']} thorough",
    "technique": x["technique"] or TECH[x["level"]], "level": x["level"], "level_note": x["note"] or NOTE,
} for x in P if x["id"] in built]
na = [{"property": x["id"], "reason": NA.get(x["id"], "not built yet")} for x in P if x["id"] not in built]
json.dump({"version": 1, "setup_cmd": "bash check.sh --build-only", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check drives the public API of the crates in /repo (path dependencies) and rebuilds from its working tree."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
