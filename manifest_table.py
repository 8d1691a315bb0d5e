# T["Cxx"] = (technique, level_note)
peg = "grammar table read from the interpreted package initialisation; engine verified node by node by abstract interpretation under an assume/guarantee contract; "
T["C10"] = (peg + "table compared as a language with the grammar source",
 "The engine obligations hold for arbitrary input, position and state; language equality is decided rule by rule on normalised grammar expressions, character classes as sets. No code is executed.")
T["C11"] = (peg + "progress and well-foundedness rules on the grammar graph and on the engine's loops",
 "Termination for every input up to available stack and time: exponential backtracking of nested inline structs and stack exhaustion by deep nesting are not covered.")
T["C12"] = (peg + "restoration obligations on every path of every node",
 "Engine obligations cover arbitrary states; accumulation of nested struct definitions is decided on a bounded set of derivations with arbitrary names.")
T["C13"] = (peg + "attached code interpreted along derivations with arbitrary names and numbers, result compared with a reference tree",
 "Derivations are a bounded set (up to 400 texts covering every derivation step pair plus long lists); names and numbers are arbitrary unless the code inspects them.")
T["C14"] = (peg + "entry points interpreted with failing readers, parsers and actions",
 "Decided on the abstracted engine result and file system; memory exhaustion and stack overflow are not covered.")
T["C17"] = ("abstract interpretation of the interval package on lists with symbolic bounds, against the set-theoretic meaning",
 "Bounds are arbitrary 64-bit values; lists have up to 3 arbitrary intervals (4 at the thorough tier) plus shaped lists of 12.")
T["C15"] = ("abstract interpretation of code and vector generation on shapes with every construct in every position; node types collected from the type-checked parser",
 "Positions are covered by a list of shapes, names and random source arbitrary; combinations of more than a few constructs are not enumerated. Node types the parser constructs are derived from the source.")
T["C16"] = ("abstract interpretation of the resolver on files with arbitrary, possibly equal, names against a reference table",
 "Names are arbitrary texts with every equality pattern; the number of declarations per job is small (up to three of a kind, two files).")
T["C18"] = ("abstract interpretation of union branch computation with symbolic case bounds and an arbitrary tag value",
 "Bounds are arbitrary values a schema can spell; unions have up to three cases of up to three ranges.")
T["C19"] = ("abstract interpretation of sampling with an arbitrary random source; provenance of the drawn bits",
 "Sets of up to three arbitrary intervals and a list of concrete boundary sets. A source that makes rejection sampling redraw forever is not excluded; every single attempt is shown able to succeed.")
T["C20"] = ("abstract interpretation of vector generation with an arbitrary random source; symbolic vectors decoded by the reference meaning of the schema",
 "About 590 schema shapes; sampling of interval sets is replaced by its contract (decided for C19), lengths drawn are the least two and the greatest. Parsers are represented by the reference meaning, to which C01-C09 compare them.")
T["C21"] = ("abstract interpretation over a heap with storage identity and spare capacity; ownership rule on every list of vectors returned in package tv",
 "Same shapes as C20; constraint sets with up to two arbitrary or six to eight known entries.")
T["C22"] = ("abstract interpretation of the constraint store with arbitrary scopes, names and values against a reference table",
 "Stores of up to two arbitrary entries (three at the thorough tier), or of six to eight known ones, and one further arbitrary operation and lookup.")
T["C27"] = ("abstract interpretation of code and vector generation on well-formed and ill-formed shapes; panic and divergence outcomes",
 "About 840 schema shapes with arbitrary names and random source. Parsing itself is covered by C11 and C14; memory exhaustion by large products of vectors is excluded.")
T["C23"] = ("effect analysis of everything reachable from the generation entry points; abstract interpretation of a whole build under two map iteration orders with a symbolic seed",
 "Uses of time, environment, global random state, package-level mutable state and address formatting are decided by reachability on the resolved call graph; independence of map order by comparing the build under insertion order and its reverse on a list of shapes, and by requiring every reachable map range to be one of these.")
T["C24"] = ("file system effect analysis: every write site reachable in the program and every effect of an abstractly interpreted build, with arbitrary directory, package, struct names and contents",
 "Effects are decided on a list of shapes with symbolic contents; write sites outside them by reachability. Struct names are identifiers by the grammar (C10), so cannot contain separators.")
T["C25"] = ("abstract interpretation of a whole build and of the command's main with every fallible call failing in turn",
 "Fallible calls are those of the modelled libraries (files, directories, formatting, command line); failures of closing a file are not injected.")
T["C26"] = ("abstract interpretation of test and fuzz generation; emitted files type-checked with the emitted parsers and interpreted with vectors as representative bytes",
 "Corpora of up to forty vectors and fourteen suites and a list of shapes; byte values in literals are fixed representatives.")
T["C28"] = ("ownership analysis of parsed trees by storage identity; effect rule on every store to tree types; trees compared before and after abstractly interpreted resolution and generation",
 "About 790 shapes and the bounded derivations of C13 for sharing; the store rule covers all functions.")
