GO="pkg/golang/"; DT="pkg/dart/"; TS="pkg/typescript/"; JV="pkg/java/"
TESTS="The one generator test only generates a small fixed schema and does not look at the text; "

prop("P04", "Members are declared with the target type and nullability of their schema type",
 "In the generated Go, Dart, TypeScript and Java code, every declaration of a data field (struct or class field, accessor, constructor and copy parameter) has the target language's type for the field's schema type: the right scalar type, lists and maps of the right element and key types, and the referenced declaration's type. A field or element is nullable in the target exactly when the schema marks it nullable (Java has no nullability), and its default value is null when nullable and the zero value of its type otherwise. Within one language all declarations of the same field agree.",
 ["programs","inputs"], "for every schema: every field type (14 scalars, enums, data; plain, array, map; nullable or not, nullable elements or not, every map key type) in all four target languages",
 TESTS+"the types of most shapes of field are never generated, and only one combination per field is exercised.",
 [GO+"data.go", GO+"main.go", DT+"data.go", DT+"main.go", TS+"data.go", TS+"main.go", JV+"data.go", JV+"main.go"],
 [("type printers of the four back ends", "printType in pkg/*/main.go or data.go"), ("member loops", "printData* in pkg/*/data.go")],
 "abstract interpretation of the generators over SSA; comparison of the text at every type position with a type table",
 "Every type position the analysis recognises in each of about 200 type shapes per back end (thorough: about 1000) is compared with a table. Assumes the semantics given in DESIGN.md to strings, slices and the member enumerators; the target compilers are not run.")

prop("P05", "Generated code has balanced brackets and closed strings on every path",
 "Whatever the schema, every file the generators write has matching round, square and curly brackets and closed string literals. This holds on every way through the generators that ends without an error: no combination of tags, field types, methods, or nullability produces text with an unclosed or extra bracket.",
 ["programs","inputs"], "for every schema and every path through the four generators, including all tag-controlled parts (database, cache, verify, format, UI, binding)",
 TESTS+"brackets are opened and closed in different branches and functions depending on the schema, and tests reach a handful of the combinations.",
 [GO+"data.go", GO+"database.go", GO+"server.go", GO+"verify.go", DT+"data.go", DT+"server.go", TS+"data.go", JV+"data.go", "pkg/build/writer.go"],
 [("emission of code text", "Code/Tab calls of pkg/build/writer.go in every back end")],
 "abstract interpretation of the generators over SSA with a bracket-stack domain per output buffer",
 "Decides bracket and quote balance of every emitted buffer on all paths; other syntax errors of the generated code are not decided. User text (names, tag values) is assumed not to contain brackets.")

prop("P07", "Go, Dart and TypeScript use the same JSON key for a field",
 "For every data field, the object key in the Go struct tag, the key the Dart and TypeScript code reads and the key they write are the same. The key is a function of the field's own name and of nothing else.",
 ["programs","inputs"], "for every schema and every field of every type, nullable or not, with or without tags and documentation",
 TESTS+"no test compares the back ends with each other.",
 [GO+"data.go", DT+"data.go", TS+"data.go"],
 [("struct tag", "pkg/golang/data.go printData"), ("from and to JSON", "pkg/dart/data.go, pkg/typescript/data.go")],
 "abstract interpretation of the generators over SSA; sibling comparison of key terms",
 "Decides that the key terms are identical for every type shape; that two different fields of one declaration get different keys is not decided (naming function is not injective).")

prop("P08", "Every field is present in every member-wise part of the generated type",
 "For every data declaration, each of its fields, inherited fields included where the part covers them, appears exactly by its own name in every member-wise part of the generated type: fields and accessors, constructors, decoding, encoding, copying, equality, hash and text form. No field is skipped because of its type, nullability, tags, documentation, position or name, and no part stops before the last field. The base declarations of a declaration are all embedded or implemented.",
 ["programs","inputs"], "for every schema: every declaration, number and order of fields, inheritance, every field type, all four back ends",
 TESTS+"a field dropped from one part for one type or position shows only in schemas that have such a field.",
 [GO+"data.go", DT+"data.go", TS+"data.go", JV+"data.go", "pkg/build/build.go"],
 [("member loops", "printData* in pkg/*/data.go"), ("member enumerators", "EnumField, EnumMethod in pkg/build")],
 "abstract interpretation of the generators over SSA: every way through every member loop must write the part; structural check that the loop visits every member",
 "Parts are recognised by the text written per member; the enumerators are checked structurally.")

prop("P09", "Decoders convert every value by its type, and missing values to null or zero",
 "The Dart and TypeScript decoders convert each field's JSON value with the conversion of its schema type; a missing or null value becomes null exactly when the field is nullable, and the zero value of its type otherwise. Elements and values of arrays and maps are converted by the same rule applied to the element itself, and map keys by the rule of the key type. Values of declared types are decoded with that type's own decoder.",
 ["programs","inputs"], "for every schema and every field type: scalars, enums, data, arrays and maps of them, nullable or not",
 TESTS+"the text of decoders is never compared with anything.",
 [DT+"data.go", TS+"data.go"],
 [("decode expressions", "printDataFromMap*/printFromMap* in pkg/dart/data.go, printFromJson* in pkg/typescript/data.go")],
 "abstract interpretation of the generators over SSA; comparison of the decode expression with the one the type determines",
 "The expression of every type shape is compared (white space and the name of bound variables excepted) with a table built from one rule per scalar type and one per container; what the target language makes of the expression is not executed.")

prop("P26", "Encoders write the wire form that the decoders read, for every field type",
 "The Dart and TypeScript encoders write each field in the wire form of its type: 64 bit integers and decimals as text, dates as epoch milliseconds, enums as their number, nested data as nested objects, everything else as it is. Null is passed through exactly for nullable members. Elements, keys and values of arrays and maps are encoded by the same rule.",
 ["programs","inputs"], "for every schema and every field type: scalars, enums, data, arrays and maps of them, nullable or not",
 TESTS+"the text of encoders is never compared with anything.",
 [DT+"data.go", TS+"data.go"],
 [("encode expressions", "printToMap* in pkg/dart/data.go, printToJson* in pkg/typescript/data.go")],
 "abstract interpretation of the generators over SSA; comparison of the encode expression with the one the type determines",
 "As P09, for encoders.")

prop("P27", "The generated copy operation copies nested and mutable values of every field",
 "The Dart copy and the TypeScript clone of an object copy every field: nested data are copied with their own copy operation, decimals (and in TypeScript dates and 64 bit integers) into new values, arrays and maps element by element with the same rule. Null stays null exactly for nullable members.",
 ["programs","inputs"], "for every schema and every field type: scalars, enums, data, arrays and maps of them, nullable or not",
 TESTS+"the text of copy operations is never compared with anything.",
 [DT+"data.go", TS+"data.go"],
 [("copy expressions", "printCopy* in pkg/dart/data.go, printClone in pkg/typescript/data.go")],
 "abstract interpretation of the generators over SSA; comparison of the copy expression with the one the type determines",
 "As P09, for copies.")

prop("P01", "The same input gives the same output, byte for byte",
 "Running the command twice on the same input files with the same options writes the same files with the same contents and reports the same error. Nothing written or reported depends on the iteration order of maps, on time, randomness, environment, process identity, memory addresses or scheduling: whatever is collected from a map is sorted before it is used, and files are checked and generated in the order of their paths.",
 ["programs","inputs","schedules"], "for every input directory and every run",
 "map iteration order changes from run to run: a test can pass by chance, and orders of several elements show only in schemas with several imports, languages or files.",
 ["pkg/build/build.go", "pkg/build/writer.go", GO+"gloang.go", DT+"dart.go", DT+"language.go", TS+"typescript.go", TS+"language.go", JV+"java.go", "pkg/parser/interface.go"],
 [("sorted paths", "(*Builder).paths in pkg/build/build.go"), ("sorted imports", "writerFile in pkg/*"), ("sorted languages", "printLanguge in pkg/dart, pkg/typescript")],
 "call graph (variable-type analysis) and dataflow over SSA: order-insensitivity of map ranges, sorting of what they collect, absence of nondeterministic sources",
 "Decides independence of map order and of the environment for all code reachable from main; that the order of directory listings is sorted is the contract of os.ReadDir.")

prop("P02", "No failure is lost: errors reach the exit status",
 "Every failure met while reading, parsing, checking, generating or writing reaches the command: it is reported and the process exits with a failure status. No error of a step that can fail is dropped, overwritten or replaced by success; syntax errors are all recorded and returned; values in tags that must be numbers or dates are not silently ignored when they are not; write, flush and close errors of generated files are errors of the command.",
 ["inputs","faults","programs"], "for every schema, valid or not, and every failure of the file system",
 "failures of the disk and most invalid schemas are not among the tests, and a dropped error looks like success.",
 ["cmd/main.go", "pkg/build/build.go", "pkg/build/error.go", "pkg/parser/interface.go", "pkg/parser/parser.go", "pkg/scanner/errors.go", "pkg/scanner/scanner.go", GO+"gloang.go", DT+"dart.go", DT+"ui.go", TS+"typescript.go", TS+"ui.go", JV+"java.go"],
 [("exit status", "main in cmd/main.go"), ("error list", "ParseFile in pkg/parser/interface.go, ErrorList in pkg/scanner/errors.go"), ("file writers", "writerFile in pkg/*")],
 "path-sensitive dataflow over SSA: every path on which a call's error is not nil must reach a return of an error, a recorded diagnostic or a failing exit; may-fail summaries over the call graph",
 "Decides that errors are not lost on any path; whether each invalid schema is detected in the first place is the subject of other properties.")

prop("P03", "Nothing is generated unless every file of the package passed all checks",
 "A generator runs only after every loaded file — the given ones and everything they import — has passed the semantic checks for each of its data, enum and server declarations; a package with an error produces no output file or directory at all. The tree handed to the generators is the one that was checked, and no generator changes it.",
 ["inputs","programs","histories"], "for every set of input files and every language",
 "the tests generate from one valid input; that nothing is written when any declaration of any file is wrong is never looked at.",
 ["pkg/build/build.go", "pkg/parser/interface.go", GO+"gloang.go", DT+"dart.go", TS+"typescript.go", JV+"java.go"],
 [("the checks", "(*Builder).checkFiles in pkg/build/build.go"), ("the calls of the generators", "Build in pkg/build/build.go")],
 "interprocedural must-fact dataflow over SSA: what is known on every path at the call of a generator; reachability of file creation before it; write effects of the generators on the tree",
 "Decides that the checks come first on all paths and cover all declarations of all files; what the checks establish is P17 and P18.")

prop("P17", "Declared names, numbers and tags are unambiguous in every package accepted",
 "In a package that is accepted no two types of a file have the same name, whatever their kinds, and none has the name of a type of a file it imports; within a data no two fields have the same name or number; within an enum no two items have the same name or value; within a server no two methods have the same name; nothing is extended twice; no declaration carries two tags of one name and no tag two values for one key; no name is a reserved word or built-in type.",
 ["inputs"], "for every accepted package, for all pairs of declarations, fields, items, methods, tags and keys",
 "no test gives the compiler an invalid schema, and an off-by-one in the search for duplicates shows only at particular positions.",
 ["pkg/build/build.go", "pkg/build/data.go", "pkg/build/enum.go", "pkg/build/server.go", "pkg/build/language.go"],
 [("duplicate searches", "check*Duplicate* and checkTags in pkg/build"), ("reserved words", "_keys in pkg/build")],
 "interprocedural must-fact dataflow over SSA with loop generalisation: pairwise distinctness facts of all elements must hold at the call of the generator",
 "Decides the search for all pairs over all paths. Names and numbers are compared as they are written: 1 and 01 are different texts (out of reach: equality of the numbers themselves).")

prop("P18", "Every type used in an accepted package is bound to a declaration of its kind",
 "In a package that is accepted everything a data extends is a data and everything a server extends is a server; the type of every field, array element and map value is a built-in type, a data or an enum; map keys are not nullable and are built-in types or enums; the parameter of every method is a data and not nullable, and its result a data or void. Each is bound to the declaration of exactly that name in the file itself or, failing that, in a file it imports directly; the kind a declaration is recorded with is its own; the built-in types are the documented ones and cannot be redeclared.",
 ["inputs"], "for every accepted package and every reference in it",
 "the generators use the bindings without looking; a reference accepted wrongly crashes a generator or gives code that does not compile, only for schemas that have it.",
 ["pkg/build/build.go", "pkg/build/data.go", "pkg/build/server.go", "pkg/build/language.go", "pkg/parser/parser.go"],
 [("type checks", "checkDataItemType, checkDataMapKey, checkServerItemType, get*Extends in pkg/build"), ("declarations", "declare in pkg/parser/parser.go")],
 "interprocedural must-fact dataflow over SSA: binding, type and provenance facts for all elements at the call of the generator; constant kinds of declarations",
 "Decides bindings on all paths. Cycles of extends are the subject of the termination property.")

prop("P10", "Generated enums have every item under its declared name and number",
 "For every enum the generated Go, Dart, TypeScript and Java code declares each item exactly as in the schema: a constant with its number and its name, an entry in the list of values, and in Go entries in the tables from item to name and from name to item. The look-ups by number and by name return the item that has it, equality compares numbers, and all the parts belong to the same enum.",
 ["programs","inputs"], "for every schema and every enum in it: any number of items, with or without comments and tags",
 TESTS+"no test has an enum with several items whose look-ups are executed.",
 [GO+"enum.go", DT+"enum.go", TS+"enum.go", JV+"enum.go"],
 [("enum items", "printEnum* in the enum.go of pkg/golang, pkg/dart, pkg/typescript, pkg/java")],
 "abstract interpretation of the generators over SSA: symbolic text of each loop over the items compared with what the item determines; exhaustiveness of the loops; comparison of the fixed look-up code",
 "Loops must write every item unconditionally; the text is compared on all paths of the generators. That the target language gives the text its meaning is assumed.")

prop("P11", "Generated clients and routers have every method under one common route",
 "For every service the generated interface has each of its methods, and client and router have each of its own and inherited methods, with the declared parameter and result types. A client calls a method under the route under which the routers of all target languages offer it — <declaring service>/<method>, and the same number — and hands over the parameter; the router decodes the method's parameter type, calls exactly that method and encodes its result. Methods without result are called and answered without one.",
 ["programs","inputs"], "for every schema and every service in it: own and inherited methods, with or without result, comments and tags",
 TESTS+"client and router are generated for different languages and never run against each other.",
 [GO+"server.go", DT+"server.go", TS+"server.go", JV+"server.go", "pkg/build/server.go"],
 [("methods", "printServer, printServerImp, printServerRouter in the server.go of each backend"), ("inherited methods", "EnumMethod in pkg/build/server.go")],
 "abstract interpretation of the generators over SSA: symbolic text of each loop over the methods compared with what the method determines; routes compared between parts and languages; exhaustiveness of loops and enumerators",
 "The Go parts use the extending service in the route of inherited methods: a known finding, listed by part.")

prop("P14", "Rows of soft-deleting tables are marked, and marked rows are never read",
 "For every data with a database tag the generated Go statements follow its fake setting: where deletion is soft, every statement that reads rows or counts them is restricted to rows whose delete_time is null, and DbDel sets delete_time and removes nothing; where it is not, no statement mentions delete_time and DbDel deletes. DbRemove always deletes. The statement that is built is the one that is executed.",
 ["programs","inputs"], "for every schema and every data and view with a db tag, with and without cache",
 TESTS+"nothing runs generated database code, and a read that forgets the restriction looks right until a row is deleted.",
 [GO+"database.go", "pkg/build/database.go"],
 [("statements", "printListData, printMapData, printCountData, printGetData, printDeleteData, printRemoveData in pkg/golang/database.go")],
 "abstract interpretation of the generator over SSA: the text of every generated Db function on every path, for all settings, matched against the form of a soft or hard statement",
 "The text is decided for all paths of the generator; that MySQL and the runtime's sql package give it its meaning is assumed.")

prop("P15", "Generated database caches are dropped on writes and keyed by the statement",
 "For every data with a cache tag each generated function that changes rows first drops the cached entries of its table, returning the error if that fails and releasing the lock when it ends. Each reading function looks up the finished statement, returns a hit, and stores what it read only after the query succeeded, under the key it looked up, for a time between min and max. Data without a cache tag never touches the cache.",
 ["programs","inputs"], "for every schema and every data and view with a db tag",
 TESTS+"stale cache entries appear only after a write followed by a read against a running cache.",
 [GO+"database.go"],
 [("cached reads", "printListData, printMapData, printCountData, printGetData in pkg/golang/database.go"), ("cached writes", "printCacheDel and the mutators in pkg/golang/database.go")],
 "abstract interpretation of the generator over SSA: the text of every generated Db function on every path, matched against the order look-up, query, store or drop, statement",
 "Order and arguments of the cache operations are decided for all paths of the generator; the cache itself is assumed to keep what it is given.")

prop("P16", "Generated SQL pairs every column with its own value and keeps its conditions",
 "Every generated database function is one statement on the data's own table. INSERT and UPDATE assign to each field's column that field's value, all of them, except that DbUpdate leaves out fields that are null; INSERT lists and SELECTs name columns in the order in which values are given or scanned. DbGet, DbDel, DbRemove, DbUpdate and DbSet of a table are restricted by the key. Reads carry every declared condition with its own parameters, an optional one exactly when its value is there; rows are ordered only by ASC or DESC, and a page is the one asked for.",
 ["programs","inputs"], "for every schema and every data and view with a db tag: any number and types of fields and conditions",
 TESTS+"nothing runs the generated statements; swapped columns and dropped conditions compile and execute.",
 [GO+"database.go", "pkg/build/database.go"],
 [("columns", "getItemAndValue, printSet, printInsertListData in pkg/golang/database.go"), ("conditions", "getParamWhere in pkg/golang/database.go")],
 "abstract interpretation of the generator over SSA: every way through every loop over the fields gives symbolic text compared with what the field determines, column and value lists compared trip by trip; exhaustiveness of the loops",
 "GROUP BY and ORDER BY of several fields are not decided to be one list. Statements of nullable keys are unrestricted: a known finding, listed by function.")
prop("P06", "Generated files import what their code names, and Go files nothing else",
 "Whatever the schema, every generated Go file imports exactly the library packages its code names: a missing import and an unused one both make Go refuse the file. In the generated Dart, Java and TypeScript files every name the generators take from a library (such as Int64, Decimal, BigInteger, Date, List, Map, Long, h, d) comes with the import of that library in the same file. This holds for every combination of field types, nullability, tags and methods, and for text that is assembled in a temporary writer first.",
 ["programs","inputs"], "for every schema and every path through the four generators, every file they write and every library import they can add",
 TESTS+"an import and the code that needs it are emitted in different functions and under different conditions (field types, cache, soft deletion, formats, methods without result), and a test sees a few of the combinations.",
 [GO+"gloang.go", GO+"data.go", GO+"database.go", GO+"server.go", GO+"verify.go", DT+"dart.go", DT+"verify.go", TS+"typescript.go", TS+"data.go", JV+"java.go", "pkg/build/writer.go"],
 [("import tables", "Writer.Import/AddImports of pkg/build/writer.go and their calls in every back end"),("file heads", "writerFile of every back end")],
 "abstract interpretation of the generators over SSA, once per package; the state is which import tables hold it and which buffers name it",
 "Imports of other generated packages (their paths are computed from the schema) are not decided. In Dart, Java and TypeScript unused imports are allowed, and a name used for a field may rely on the import made where the field is declared in the same file.")

prop("P12", "Generated Go verify functions reject exactly what the formats forbid",
 "For every field of a Go data with a verify tag a function VerifyX is generated. Format by format, in the order of the tag, it rejects a value exactly when that format forbids it: smaller than min, larger than max, not matching reg (texts by their length in characters, dates by their instant, decimals by value), null when the first format has no null=\"true\"; it returns at once, without an error, when the first format allows null and the value is. The error is that of the format's own enum item. Verify of a verified data calls the function of every field that has a verify tag, inherited fields too, and returns its error.",
 ["programs","inputs"], "for every schema: every field type, any number of formats with any settings, any values",
 TESTS+"no test has a verify tag, and a limit that is compared the wrong way or dropped for one type of field shows only for values near it.",
 [GO+"verify.go", "pkg/build/verify.go", "pkg/build/format.go"],
 [("verify functions", "printVerifyFieldCode, printVerifyDataCode in pkg/golang/verify.go")],
 "abstract interpretation of the generator over SSA, for every type of field and every set of settings; the symbolic text written for an arbitrary format is parsed and its rejections compared with those of the format",
 "Whether null is allowed is decided by the first listed format, which has to have a format tag. Mixed formats with and without an expression may declare variables in different ways; that the regular expression engine of Go matches as meant is assumed.")

prop("P13", "Generated Dart and TypeScript verify functions reject what the formats forbid",
 "For every field of a Dart or TypeScript data with a verify tag a verify function is generated that takes the text typed by the user. Format by format it reports an error exactly when that format forbids the value: null or empty when the first format does not allow it, not written as a value of the field's type (integers, decimals, dates) or outside the range of that type, smaller than min, larger than max, not matching reg. The message is that of the format's own enum item, and a value that no format forbids is accepted.",
 ["programs","inputs"], "for every schema: every field type, any number of formats with any settings, any values",
 TESTS+"no test has a verify tag; the code runs only in user interfaces.",
 [DT+"verify.go", TS+"verify.go", "pkg/build/verify.go", "pkg/build/format.go"],
 [("verify functions", "printVerifyFieldCode, verifyNum in the verify.go of pkg/dart and pkg/typescript")],
 "abstract interpretation of the generators over SSA, for every type of field and every set of settings; the symbolic text written for an arbitrary format is parsed and its rejections compared with those of the format",
 "Whether null is allowed is decided by the first listed format, which has to have a format tag.")

prop("P19", "The parser accepts exactly the schema grammar, reports the rest and always ends",
 "A text whose tokens form a schema (packages, imports, then data, enum and server declarations with their tags, bases, fields, items and methods) is accepted without an error. Every other sequence of tokens gives an error, which ParseFile returns: none is recorded and lost. Whatever the text, the parser ends: it never goes round without taking a token, at the end of the text neither.",
 ["inputs"], "for every text: any sequence of tokens of any length",
 "the tests parse one or two schemas that are correct; errors swallowed on rare sequences, an end of the text at an unexpected place and constructs refused in rare combinations are outside any sample.",
 ["pkg/parser/parser.go", "pkg/parser/interface.go"],
 [("parser", "parseFile and the parse functions it calls in pkg/parser/parser.go"), ("errors", "error, expect, expectSemi in pkg/parser/parser.go; ParseFile in pkg/parser/interface.go")],
 "abstract interpretation of the parser over SSA in product with the automaton of the grammar: every branch on the kind of the current token is followed for an unknown sequence of tokens; states meet where a token is taken; cycles that take none are violations",
 "Unbounded in the length of the text; recursion of types is followed three deep. Conditions that are not about tokens (a valid import path) may go either way. The scanner is taken to give a token each time.")

prop("P20", "The tree that the parser builds is what the schema says",
 "For an accepted schema the tree has every package, import, declaration, tag, base, field, item and method of the text, in its order, each with its own names, numbers, texts, types, marks for null and the comment ahead of it; the declared names lead to their declarations; nothing else is in it. Everything that is generated comes from this tree.",
 ["inputs"], "for every accepted schema, with repetitions followed in all shapes listed in the evidence",
 "no test looks at the tree; a part that is attached to the wrong declaration or left out in a rare combination changes generated code silently.",
 ["pkg/parser/parser.go", "pkg/parser/interface.go", "pkg/ast/"],
 [("tree", "the parse functions of pkg/parser/parser.go"), ("scopes", "declare in pkg/parser/parser.go, Insert in pkg/ast/scope.go")],
 "abstract interpretation of the parser over SSA in product with the grammar; heap objects are compared with the parts of the text at the end of every accepted sequence",
 "Repetitions are read up to twice (three bases, three texts of a key); names are taken to differ from one another. Comments are modelled as the comment ahead of the current token.")

prop("P25", "Every tag sets what its keys say, and nothing else",
 "What the tags format, db, cache, ui, lang, tag, verify and bind give the generators is what the schema says: each key sets its own setting to its own text, without the quotes, whichever place the key and the tag have and whichever other keys there are; keys and tags of other names set nothing; flags are on exactly for \"true\" (del, count, force, rm and fake in any case) and off without a key (fake on); numbers are read in decimal; where and extensions keep all their texts in order; several db tags count from the highest number down; a verify or bind text names a declaration of the file by its first part and a member by its second, and gives exactly that member.",
 ["inputs"], "for every text, at both places of two keys and two tags, and for every pair of keys",
 "tests use one tag with a few keys; a key that overwrites another, or a member that is found by a part of its name, shows only in schemas with that combination, and silently changes SQL, limits or names.",
 ["pkg/build/format.go", "pkg/build/database.go", "pkg/build/language.go", "pkg/build/verify.go", "pkg/build/binding.go", "pkg/build/build.go", GO+"database.go", GO+"server.go", DT+"ui.go", TS+"ui.go"],
 [("getters", "GetFormat, GetDB, GetVerify, GetBinding, getLanguage in pkg/build, getCache and getTag in pkg/golang, getUI in pkg/dart and pkg/typescript"), ("lookups", "GetTag, GetKeyValue, getEnumItem, getServerMethod in pkg/build")],
 "abstract interpretation over SSA of every function that turns tags into settings, with the names of tags and keys known and the texts as symbols; the result is compared with the table of keys",
 "Two tags and two keys at a time, two texts of a key; the conversion functions of the standard library (Atoi, ParseFloat, ToLower) are taken at their word. How generators use the settings is part of P12-P16.")

prop("P24", "Output goes, whole, to the right files inside the output directory",
 "A run reads the inputs that the pattern names, generates each file it has read exactly once, in the language that was asked for, with the options of the command, and writes each part that has code (data, enums, servers, database, verify, ui, languages) whole to the part's own file, which bears the name of the input, in the output directory (Go: in the directory of the package below it), made beforehand, replacing an older file; parts without code and inputs without a package give no file. Nothing else is created, changed or removed, no other program is run and no connection is opened.",
 ["inputs","programs"], "for every combination of parts with and without code, for input names of all kinds (with dots, with and without suffix) and packages with dots, slashes and parent directories",
 "tests generate one input into one directory and do not look at the files; a part that is lost or overwritten in a rare combination of parts, or a file outside the directory, goes unseen.",
 ["cmd/main.go", "pkg/build/build.go", GO+"gloang.go", DT+"dart.go", JV+"java.go", TS+"typescript.go", "pkg/parser/interface.go"],
 [("entries", "Build in pkg/golang, pkg/dart, pkg/java, pkg/typescript"), ("driver", "Build in pkg/build/build.go"), ("writing", "writerFile in every back end"), ("options", "main in cmd/main.go")],
 "abstract interpretation over SSA of the driver and of every back end's entry with known names and open parts, collecting the effects of each path; effect analysis of all calls into os, net, syscall and the like",
 "Names are representatives of their kinds; the contents of a part are one symbol. Two inputs of one name in different directories have the same output (see DESIGN). Which files are read is P28.")

prop("P28", "All input is read: matching files, subdirectories, imports, each once",
 "A run reads every file in the directory of the input, and in all directories below it, whose name the pattern matches, and every file that a file it has read imports, directly or through others; a path in an import is relative to the file that imports it. Each file is parsed once, with its comments, however it is reached, and kept under its path, under which its importers find it. If a directory, a file or an import cannot be read or parsed, the run fails, for an import at the import's place.",
 ["inputs","histories"], "for every tree of directories and files, and every graph of imports among them, with cycles and equal names",
 "tests read one file or one flat directory; a file that is left out, read twice or found under another path shows only for particular layouts and graphs of imports.",
 ["pkg/parser/interface.go", "pkg/parser/parser.go", "pkg/token/position.go"],
 [("directories", "ParseDir in pkg/parser/interface.go"), ("files and imports", "parseDirFile in pkg/parser/interface.go"), ("names of files", "ParseFile in pkg/parser/interface.go")],
 "abstract interpretation over SSA of each of the two recursive functions alone, with the calls of the recursion as effects (the step of an induction over the tree and over the graph of imports)",
 "The entries of a directory are open; names, imports and the files known before are representatives. Absolute paths in imports, links and the contents of files are not covered.")

prop("P29", "No type of an accepted package extends itself, directly or through others",
 "If a data or server extends itself, directly or through any chain of others, in any files of the package, the run ends with an error at the extension that closes the circle and nothing is generated; a package without such a circle is never refused for one, also when a type is extended in several ways. Checks and generators that follow the extensions therefore come to an end.",
 ["inputs","programs"], "for every graph of extensions, of any length, among the files of a package",
 "tests extend a type once; a circle through several types or files, or one that starts at the second extension, is not tried, and the generators would follow it for ever.",
 ["pkg/build/build.go"],
 [("step of the search", "checkCyclicExtends in pkg/build/build.go"), ("start of the search", "checkFiles in pkg/build/build.go"), ("order of search and generation", "Build in pkg/build/build.go")],
 "abstract interpretation over SSA of the recursive step alone, with the calls of the recursion as effects and the set of open declarations as invariant, and of the driver with searches and generators as effects",
 "The kinds of what is extended (itself, an open declaration, another) are representatives, up to three of them. That every extension is bound to a declaration is P18.")

na("N01", "A value survives encoding in one language and decoding in another",
 "For every data and every value of it, decoding in any target language what any other target language encoded gives an equal value.",
 ["inputs","programs"], "for every data, every value and every pair of languages", "the equality of run-time values across four languages' number, date and text conversions is what users rely on",
 ["pkg/golang/data.go", "pkg/dart/data.go", "pkg/java/data.go", "pkg/typescript/data.go"], [("encoders and decoders", "the data.go of each backend")],
 "equality of run-time values depends on the semantics of the libraries of four languages (JSON, decimals, dates), which are not part of this repository; the static part (same keys, the conversion by type in each direction) is P07, P09 and P26.")

na("N02", "Distinct schema names stay distinct after conversion to target names",
 "Two fields, methods, items or declarations of one schema that have different names never get the same name in generated code.",
 ["inputs"], "for every pair of names", "two names that differ only in case or underscores become one identifier and the generated code does not compile",
 ["pkg/build/build.go"], [("names", "StringToHumpName, StringToUnderlineName, StringToFirstLower, StringToAllUpper in pkg/build/build.go")],
 "it does not hold: the conversions are not injective (user_name and userName), and whether that is a defect is not documented; that names are unique as written is P17.")

na("N03", "Numbers are compared by value wherever the schema has them",
 "Two fields with the numbers 1 and 01, or 16 and 0x10, are recognised as having the same number.",
 ["inputs"], "for every pair of literals", "the parser accepts integers in several notations",
 ["pkg/build/build.go", "pkg/scanner/scanner.go"], [("numbers", "checkData, checkEnum, checkServer in pkg/build")],
 "the tree keeps the text of the literal and the checks compare texts; equality of values of unbounded literals is not a property of the program's structure that a dataflow over it decides.")

na("N04", "The compiler finishes within memory proportional to its input",
 "For every schema the compiler ends without exhausting memory or the stack.",
 ["inputs"], "for every schema", "a build tool must not bring down a build machine",
 ["pkg/parser/", "pkg/build/"], [("recursion", "parseMapType, EnumField, CheckExtends")],
 "the depth of recursion is bounded by the nesting of the input, which no static argument bounds; that the parser takes a token in every round is part of P19.")
