#!/usr/bin/env python3
"""Writes properties.jsonl. Source of truth for the property texts."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": None}})

GEN = ["gen/decl.go", "gen/printer.go", "gen/core.go"]
p("C01", "Generated parsers never crash on any input bytes",
  "For every schema and every byte string, a generated Parse method returns normally: it never reads or slices outside the bytes it was given, never panics on a length or count taken from the wire, and terminates. Truncated input at any point yields an error.",
  ["programs", "inputs"], "all schemas over the documented constructs, all byte strings, all truncation points",
  "Tests run the committed parsers on a handful of byte strings; the generator itself is not even built by the available test run.",
  GEN, [("length check emitted before every access", "gen/decl.go generator.lengthCheck"), ("constrained regions check the length before slicing", "gen/decl.go generator.constrained")],
  ["returned values of generated Parse methods"])
p("C02", "Scalar fields decode exactly their own bytes, in order, big-endian",
  "For every schema, a generated parser stores into each u8/u16/u32/u64/char field the big-endian value of exactly the next 1/2/4/8/1 bytes, into a nulterm field the bytes before the first NUL (and skips that NUL), and into a @ptr field the offset from the start of the struct's input. Fields are decoded in declaration order with no gap and no overlap, and the bytes after the last field are returned unconsumed.",
  ["programs", "inputs"], "all field kinds in all positions, all input bytes",
  "Golden tests sample a few fixed field layouts and values.",
  GEN, [("width and endianness of integer reads", "gen/decl.go generator.parseIntType"), ("per-kind read and advance", "gen/decl.go generator.parseType")],
  ["fields and remaining bytes after a successful Parse"])
p("C03", "Integer constraints accept exactly the listed values",
  "For every integer field with an IN list, a generated parser succeeds on the field if and only if the decoded value is equal to one of the listed values or lies within one of the listed inclusive ranges, whether bounds are literals or named constants; otherwise it returns an error.",
  ["programs", "inputs"], "all integer lists, all field values",
  "Tests sample a few lists and a few values per list.",
  GEN + ["inspect/inspect.go"], [("condition built from the integer list", "gen/decl.go generator.conditional"), ("constant resolution", "inspect/inspect.go Resolver.Integer")],
  ["error result of Parse"])
p("C04", "Unions decode exactly the case selected by the tag",
  "For every union, a generated parser decodes the members of the first case whose integer set contains the tag value (the tag being the named field of the same struct or of the named context), and otherwise the default case; a 'fail' case always returns an error, an 'ignore' case and a trailing '...' accept and discard whatever is left, and no member of any other case is touched.",
  ["programs", "inputs"], "all unions, all tag values, all case bodies",
  "Tests sample a few unions and tags.",
  GEN, [("switch emitted per union", "gen/decl.go generator.parseUnionMember"), ("tag reference", "gen/decl.go generator.ref")],
  ["fields and error result after Parse"])
p("C05", "Length-delimited regions and eos are confined and fully consumed",
  "A union or array limited by a length field, a context value or '..-N' is decoded from exactly that many bytes: nothing outside the region influences it, unconsumed bytes inside it are an error, and decoding resumes at the first byte after the region. A struct ending in eos is rejected if any byte follows.",
  ["programs", "inputs"], "all region-limiting constructs, all lengths and inputs including lengths larger than the input",
  "Tests sample a few lengths.",
  GEN, [("region carving and end assertion", "gen/decl.go generator.constrained, generator.assertEnd")],
  ["remaining bytes and error result of Parse"])
p("C06", "Arrays hold exactly the specified number of elements",
  "A fixed array is decoded with exactly its declared number of elements, a counted array with exactly as many as the value of the referenced field, and an open-ended array with as many whole elements as fill the remaining bytes (a partial trailing element is an error); element i holds the i-th element of the input.",
  ["programs", "inputs"], "all element types, counts and inputs",
  "Tests sample a few counts.",
  GEN, [("array loops", "gen/decl.go generator.parseArray")],
  ["array fields after Parse"])
p("C07", "Parse failures are reported, never half-returned",
  "Whenever any part of the input is invalid, at any nesting depth, the generated Parse method returns no remaining bytes and a non-nil error and the generated constructor returns no object and a non-nil error; when the whole struct is valid both return a nil error, the constructor returns the decoded object, and Parse returns the unconsumed suffix of its input.",
  ["programs", "inputs"], "all schemas with arbitrary nesting, all inputs, every failing component",
  "Tests sample a few failing inputs per schema.",
  GEN, [("error returns in every emitted check and after nested Parse", "gen/decl.go"), ("constructor", "gen/decl.go generator.parseConstructor")],
  ["results of Parse and of the ParseX constructors"])
p("C08", "Generated code compiles and declares what it decodes",
  "For every well-formed schema the generated file is a type-correct Go package: each struct and context becomes one exported type with one field per member (all union case members included) of the Go type that corresponds to the schema type, plus its Parse method and ParseX constructor; extern structs emit nothing.",
  ["programs"], "all member kinds, names and combinations",
  "Tests compile a fixed set of schema files, and those tests cannot run here.",
  GEN, [("declaration emission", "gen/decl.go generator.structDecl, generator.tipe"), ("import completion", "gen/printer.go printer.imported")],
  ["type checker verdict on the generated package"])
p("C09", "Contexts reach every parser that needs them",
  "A struct declared with contexts takes those contexts, in declared order, in both its Parse method and its constructor; every nested struct is parsed with exactly the contexts it declares, passed unchanged from the enclosing parser; and scoped references read the named context's member, never a local field.",
  ["programs", "inputs"], "all context lists, nesting and scoped references",
  "One golden schema uses contexts.",
  GEN, [("signature and argument emission", "gen/decl.go contextSignature, contextArgs, generator.ref")],
  ["signatures of generated functions and values used for lengths and tags"])
p("C10", "The schema language accepted is exactly the documented grammar",
  "A schema file is accepted if and only if it is derivable from the grammar in parse/trunnel.pigeon, with ordered choice and longest repetition: every documented declaration, member, constraint, literal form, comment and whitespace placement is accepted, and nothing else is; the compiled parser and the grammar source never disagree.",
  ["inputs"], "all source texts",
  "Tests sample about 90 texts out of an infinite language.",
  ["parse/trunnel.pigeon", "parse/internal/parser/gen-parser.go"], [("grammar table", "parse/internal/parser/gen-parser.go var g"), ("PEG matchers", "parse/internal/parser/gen-parser.go parseLitMatcher, parseCharClassMatcher, ...")],
  ["error result of parse.String"])
p("C11", "Parsing a schema file always terminates",
  "For every input text the schema parser finishes: no rule can re-enter itself without consuming input, and no repetition can iterate over an empty match.",
  ["inputs"], "all source texts, including malformed and adversarial ones",
  "Non-termination shows only on the inputs that trigger it.",
  ["parse/trunnel.pigeon", "parse/internal/parser/gen-parser.go"], [("grammar shape", "parse/internal/parser/gen-parser.go var g"), ("every matcher success advances", "parse/internal/parser/gen-parser.go")],
  ["return of parse.String"])
p("C12", "Abandoned alternatives leave no trace",
  "When an alternative of the grammar is abandoned, the input position, the label bindings and the collected inline struct declarations are exactly as they were before it was tried; hence each inline struct declaration in an accepted file appears exactly once among the file's structs, after the top-level ones and inner before outer.",
  ["inputs", "histories"], "all backtracking histories over all inputs",
  "Only particular nestings of inline declarations backtrack; tests contain two or three.",
  ["parse/internal/parser/gen-parser.go", "parse/trunnel.pigeon"], [("state clone/restore around choice, sequence, lookahead and actions", "parse/internal/parser/gen-parser.go cloneState, restoreState, restore")],
  ["ast.File.Structs"])
p("C13", "The syntax tree says exactly what the source says",
  "For every accepted file, each declaration, member, type, size, constraint, case, context list and option appears in the returned tree with exactly its own name, numeric value (decimal, hex or octal), bounds and children, in source order, and optional parts that are absent are absent in the tree.",
  ["inputs"], "all accepted source texts",
  "Tests compare trees for about 30 texts.",
  ["parse/internal/parser/gen-parser.go", "parse/trunnel.pigeon", "ast/types.go"], [("semantic actions", "parse/internal/parser/gen-parser.go on* methods")],
  ["*ast.File returned by parse.File/Reader/String"])
p("C14", "Schema parsing returns a file or an error, never both or neither",
  "For every input (any bytes, unreadable files, failing readers), parse.File, Reader and String return either a complete non-nil tree and a nil error, or a nil tree and a non-nil error, and never panic; Files returns one tree per filename in order, or nil and the first error.",
  ["inputs", "fault_sequences"], "all inputs and I/O failures",
  "Tests inject one reader failure and two missing files.",
  ["parse/parse.go", "parse/internal/parser/gen-parser.go"], [("result cast", "parse/parse.go cast"), ("error collection and panic recovery", "parse/internal/parser/gen-parser.go parser.parse, errList")],
  ["results of the parse package"])
p("C15", "Every construct the grammar can produce is handled downstream",
  "Every kind of declaration, member, type, length constraint and integer that the schema parser can produce in a given position is handled by the code generator and by the test vector generator when it meets it in that position (vector generation may report 'not implemented' for leftover lengths and for structs that contain themselves only).",
  ["programs"], "all tree shapes the parser can produce",
  "Each unhandled combination needs its own schema.",
  ["gen/decl.go", "tv/generator.go", "inspect/inspect.go", "parse/internal/parser/gen-parser.go"], [("type switches over tree nodes", "gen/decl.go, tv/generator.go, inspect/inspect.go")],
  ["errors and panics of generation"])
p("C16", "Names resolve to their own declaration, conflicts are errors",
  "Across all files of a build, a struct, context or constant reference resolves to the declaration with exactly that name; a second definition of a non-extern struct, a second context of the same name, a duplicate within one file, or a constant redefined with a different value is an error and leaves the earlier definition in force, while an extern declaration is superseded by the definition. Unresolvable references are reported as errors by the resolver.",
  ["programs", "histories"], "all sets of files and all orders of adding declarations",
  "Tests sample single additions.",
  ["inspect/inspect.go"], [("guarded insertion", "inspect/inspect.go Structs, Contexts, Constants, AddStruct, AddContext, SetConstant"), ("lookup", "inspect/inspect.go Integer, IntType, StructNonExtern")],
  ["Resolver API results"])
p("C17", "Interval sets implement exact set algebra on 64-bit integers",
  "For all intervals and all 64-bit values including 0 and the maximum: membership is inclusive at both ends, overlap is reported exactly when two of the intervals share a value, building a set preserves the union and yields sorted disjoint intervals, and subtraction yields exactly the values in the first set and not in the second.",
  ["inputs"], "all interval lists and all values",
  "Tests sample a few dozen intervals; boundary and overflow values are a measure-zero set.",
  ["internal/intervals/intervals.go"], [("edge sweep", "internal/intervals/intervals.go thresholds, edges.Less"), ("complement", "internal/intervals/intervals.go complement")],
  ["Contains, Overlaps, Simplify, NewSet, Subtract, Bits, IntType"])
p("C18", "Union branches partition the tag space as the parser dispatches it",
  "For every union with disjoint cases, the branch reported for a tag value is exactly the case the generated parser would take: each explicit case's branch holds exactly its listed values, the default branch holds exactly the values of the tag's integer width that no explicit case lists, there is a default branch only if the union has one, and branch order follows case order.",
  ["programs", "inputs"], "all unions, all tag widths and values",
  "Tests sample two unions.",
  ["inspect/branches.go", "inspect/inspect.go", "internal/intervals/intervals.go"], [("branch construction", "inspect/branches.go NewBranches, Lookup"), ("list to set conversion", "inspect/inspect.go Resolver.Intervals")],
  ["Branches API results"])
p("C19", "Random draws stay within their declared set",
  "Whatever the random source returns, sampling an interval set returns a member of the set, bounded draws stay within their inclusive bounds, every member can be drawn, and every attempt to sample a non-empty set can succeed.",
  ["inputs", "schedules"], "all sets and all random streams",
  "A biased off-by-one at an interval edge is hit with negligible probability.",
  ["internal/intervals/intervals.go", "tv/generator.go"], [("offset sampling", "internal/intervals/intervals.go RandomWithGenerator, randuint64n"), ("bounded draws", "tv/generator.go randbtw, randbytes, randnulterm")],
  ["values returned by RandomWithGenerator"])
p("C20", "Every generated test vector is valid for its struct",
  "For every schema that vector generation supports, each vector produced for a struct is accepted by that struct's parser under the vector's own context values: integers have the declared width, byte order and constraints, counted arrays and length-limited unions agree with their length fields, and tags select the case whose bytes follow.",
  ["programs", "inputs"], "all supported schemas, all random streams",
  "Tests check lengths for a few schemas.",
  ["tv/generator.go", "tv/constraints.go", "inspect/branches.go"], [("backward generation with recorded constraints", "tv/generator.go members, intType, array, union, lenconstrain, intbytes")],
  ["Corpus contents"])
p("C21", "Vectors and constraint sets never share mutable storage",
  "Bytes or constraints of one produced vector can never change as a consequence of building another vector, merging, cloning or clearing constraints elsewhere: every vector's data is its own storage and every copy of a constraint set is deep.",
  ["histories"], "all sequences of vector and constraint operations, whatever spare capacity slices happen to have",
  "Aliasing shows only when append finds spare capacity.",
  ["tv/generator.go", "tv/constraints.go"], [("copies on merge and on append", "tv/generator.go cross, members; tv/constraints.go Clone, CloneGlobal, Merge")],
  ["Corpus contents"])
p("C22", "The constraint store never silently changes a recorded value",
  "Once a value is recorded for a name in a scope, every lookup returns it until its scope is cleared; recording a different value or merging a conflicting set is an error that leaves the recorded value in force; lookups of unrecorded names report absence; clearing removes exactly one scope.",
  ["histories"], "all sequences of operations on a constraint set",
  "Tests do not cover the store directly.",
  ["tv/constraints.go"], [("conflict check", "tv/constraints.go Set, LookupOrCreate, Update, Merge, ClearScope")],
  ["Constraints API results"])
p("C23", "Generation is a pure function of schema, package name and seed",
  "Two builds from the same files, package name and seed produce byte-identical files: no output depends on map iteration order, time, environment, global random state or addresses.",
  ["schedules", "configurations"], "all schemas, all map iteration orders, all process environments",
  "A test run observes one iteration order.",
  ["gen/core.go", "gen/decl.go", "gen/tests.go", "gen/fuzz.go", "tv/generator.go", "tv/constraints.go", "inspect/inspect.go", "internal/intervals/intervals.go"],
  [("seeded source passed to vector generation", "gen/core.go Package"), ("slice-ordered traversal", "gen/decl.go, tv/generator.go")],
  ["bytes written by gen.Package"])
p("C24", "A build writes only its own files inside the output directory",
  "Whatever the schema contains, a build creates or overwrites only gen-marshallers.go, gen-marshallers_test.go and gen-fuzz.go in the output directory and files testdata/fuzz/<struct>/corpus/<sha256 of contents> below it; nothing is deleted, read back, or written elsewhere, and parsing writes nothing.",
  ["programs", "configurations"], "all schemas and output directories",
  "Tests look only at the files they expect.",
  ["gen/core.go", "tv/corpus.go", "parse/parse.go"], [("path construction", "gen/core.go Config.Path, Config.write"), ("corpus layout", "tv/corpus.go writecorpus, sha256namer")],
  ["file system effects"])
p("C25", "Build failures are always reported",
  "Any failure while reading, parsing, resolving, generating, formatting or writing makes the build return an error (and the command exit with non-zero status) instead of reporting success; only the documented 'not implemented' outcome of vector generation is tolerated, and then the marshallers are still produced.",
  ["fault_sequences", "inputs"], "every failing step",
  "Tests do not inject failures into generation or writing.",
  ["gen/core.go", "tv/corpus.go", "cmd/trunnel/trunnel.go", "parse/parse.go"], [("error checks after every step", "gen/core.go Package"), ("exit status", "cmd/trunnel/trunnel.go")],
  ["result of gen.Package, exit status"])
p("C26", "Corpus tests and fuzz targets exercise the type they name",
  "For every struct whose vectors need no context values, the generated test feeds every vector's exact bytes to that struct's constructor and fails on any error, and a fuzz entry point for that struct is generated behind the gofuzz build tag; structs whose vectors carry context values get neither.",
  ["programs"], "all corpora",
  "Golden tests sample a few corpora.",
  ["gen/tests.go", "gen/fuzz.go"], [("per-suite emission", "gen/tests.go CorpusTests, gen/fuzz.go Fuzzers"), ("context filter", "gen/tests.go constrained")],
  ["generated test and fuzz files"])
p("C27", "No schema text can crash or hang the tool",
  "For every set of schema files that parses, generating code and test vectors ends with files written or with an error; it never panics and never runs on without end, up to the memory and time that vectors of the described size need.",
  ["programs"], "all parsed schemas, including ill-formed ones",
  "Each crash needs its own malformed schema.",
  ["gen/decl.go", "gen/core.go", "tv/generator.go", "inspect/inspect.go", "inspect/branches.go", "internal/intervals/intervals.go"], [("error returns", "inspect/inspect.go, tv/generator.go")],
  ["termination of gen.Package"])
p("C28", "Parsed trees are never shared or modified after parsing",
  "Every node of a parsed tree belongs to exactly one place in one tree: parsing never reuses a node or the package-level integer types, and resolving, generating code and generating vectors never modify the tree or the package-level types, so any number of generations from one tree give the same result.",
  ["histories"], "all sequences of parses and generations",
  "Sharing shows only when two fields of different files or positions interact.",
  ["parse/internal/parser/gen-parser.go", "ast/types.go", "gen/decl.go", "tv/generator.go", "inspect/inspect.go"], [("fresh node per action", "parse/internal/parser/gen-parser.go on* methods"), ("read-only traversal", "gen, tv, inspect")],
  ["trees after generation"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
