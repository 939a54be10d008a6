#!/usr/bin/env python3
# Writes properties.jsonl (kept as code so that the long lines stay editable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Plain YAML passes through unchanged",
 "A YAML document that carries no yisp tags comes out of the engine as the same data: the same documents in the same order (documents that are null are dropped), the same keys in the same order, the same nesting, and scalars of the same type and value whatever their spelling (quoting and block styles, booleans, floats of any magnitude, hexadecimal/octal/underscored integers that fit in 64 bits). Emitted text is valid YAML that parses back to exactly that data.",
 ["inputs"], "every multi-document stream of JSON-compatible YAML data in any spelling and style",
 "testdata/00_plain holds one document with four scalar spellings; the space of values, spellings, styles and nestings is unbounded.",
 ["engine/parse.go", "engine/eval.go", "engine/render.go"],
 [("YAML node to yisp node", "engine/parse.go:Parse"), ("quote-mode evaluation", "engine/eval.go:Eval"), ("rendering", "engine/render.go:Render")],
 ["EvaluateReaderToYaml output"])

prop("C02", "Evaluation happens exactly where tags ask for it",
 "A list is treated as an operator call only when the nearest enclosing (or own) !yisp/!quote tag is !yisp; everything else, including lists that look like calls, is emitted as data. Tags nest to any depth, a map or list inherits the mode of its surroundings, and values returned by an evaluated expression are never evaluated a second time.",
 ["programs"], "every nesting of !yisp and !quote over maps, lists and operator-looking lists",
 "The samples use at most two alternations of the tags; the rule is about every nesting and every operator name appearing as data.",
 ["engine/eval.go"], [("mode switching by tag", "engine/eval.go:Eval"), ("array evaluation", "engine/eval.go:Eval KindArray")],
 ["EvaluateReaderToYaml output"])

prop("C03", "The same input always produces byte-identical output",
 "Evaluating the same files with the same options yields byte-identical output text, or fails, every time: within one engine, across engines and across processes. In particular the order of keys that come from included plain YAML/JSON files, unmarshalled strings, host-supplied variables and schema defaults does not vary.",
 ["programs", "inputs"], "every program and file set, over repeated runs and processes",
 "Tests compare parsed data once, so order changes and run-to-run differences are invisible to them.",
 ["core/parse.go", "core/schema.go", "engine/engine.go", "engine/render.go"],
 [("conversion of native data", "core/parse.go:ParseAny"), ("default filling", "core/schema.go:InterpolateDefaults")],
 ["output text of repeated evaluations"])

prop("C04", "Functions are lexically scoped closures",
 "Calling a function evaluates its body once with each parameter bound to the corresponding argument value and every free variable bound to what it meant where the function was written: later redefinitions, same-named variables at the call site and bindings of other calls never leak in, and parameters never leak out. Functions can be passed, returned, partially applied through closures and call themselves recursively by their own name; passing more arguments than parameters is an error.",
 ["programs"], "every program built from nested, higher-order and recursive functions with colliding names",
 "The samples exercise a handful of fixed functions (fibonacci, Z combinator) without shadowing, redefinition or name collisions.",
 ["engine/eval.go", "engine/apply.go", "core/env.go"],
 [("closure capture", "engine/eval.go:Eval lambda"), ("parameter binding", "engine/apply.go:Apply"), ("environment chain", "core/env.go:Env")],
 ["EvaluateReaderToYaml output"])

prop("C05", "Control flow evaluates the right parts, once, in order",
 "`if` evaluates its condition and then only the branch selected by the condition's truthiness; operator arguments, list items and map entries are each evaluated exactly once, left to right; `progn` returns its last argument and `pipeline` feeds its first value through the functions in the order written. A branch that is not selected has no effect and can not make the build fail.",
 ["programs"], "every nesting of if/progn/pipeline/operator calls around sub-expressions with observable effects or errors",
 "Tests only look at final values of error-free programs, so double, missing or reordered evaluation and eager branches are not observable in them.",
 ["engine/eval.go", "engine/apply.go"],
 [("special form if", "engine/eval.go:Eval"), ("argument evaluation", "engine/eval.go:Eval"), ("progn, pipeline", "engine/apply.go")],
 ["order of requests to a local HTTP server", "output or error"])

prop("C06", "Integer arithmetic and numeric ordering are exact",
 "+, -, *, / (and add, sub, mul, div) over any number of integers give the exact 64-bit result folded left to right, with division truncating toward zero and division by zero or a non-integer argument rejected with an error; with no arguments they give their neutral value. <, <=, >, >= order any mix of integers and floats by numeric value, without precision loss for large integers, and reject non-numbers and wrong argument counts.",
 ["inputs"], "all argument lists of integers, floats and wrongly-typed values, up to 64-bit extremes",
 "The samples compare numbers between 1 and 3; extremes, mixed types, arities and nested folds are not reached.",
 ["engine/apply.go", "engine/util.go"],
 [("arithmetic", "engine/apply.go:opAdd, opSubtract, opMultiply, opDivide"), ("ordering", "engine/util.go:compareNumbers")],
 ["EvaluateReaderToYaml output"])

prop("C07", "Equality, logic, truthiness and null-coalescing agree with their definition",
 "== holds exactly when two values are the same data (integers and floats by numeric value, strings, booleans and null by value, lists and maps structurally, different types never equal) and != is its negation. and/or/not follow truthiness (false, null, 0, 0.0, empty string, empty list and empty map are false, everything else true), and/or always yield a boolean, and ??/default yields its first non-null argument or null.",
 ["inputs"], "all pairs and lists of values of every type",
 "The samples list a few dozen pairs; equality over structures and truthiness of every type are not covered.",
 ["engine/util.go", "engine/apply.go", "core/util.go"],
 [("equality", "engine/util.go:compareValues"), ("truthiness", "core/util.go:IsTruthy"), ("logic", "engine/apply.go:opAnd, opOr, opNot, opNullCoalesce")],
 ["EvaluateReaderToYaml output"])

prop("C08", "String operators compute their documented result for every string",
 "strings.concat, contains, join, split, replace (all occurrences, or the first n when a count is given), toUpper, toLower, trim, sha256 and format return what their documentation says for any Unicode strings, including empty ones and ones that look like YAML, and split followed by join with the same non-empty separator is the identity. strings.quote returns the text of a scalar with quotes, backslashes and control characters escaped, such that putting it between double quotes yields a literal for that same text; wrong types or counts are errors.",
 ["inputs"], "all strings (unicode, control characters, YAML-significant text) and argument counts",
 "One example per operator with ASCII text is tested.",
 ["lib/strings.go"], [("string operators", "lib/strings.go")], ["EvaluateReaderToYaml output"])

prop("C09", "List operators compute the textbook list functions",
 "lists.car, cdr, cons, at, length, contains, iota, flatten (one level), map, filter and reduce return exactly the elements of the corresponding list function, in order and unaltered, for lists of any length and element types and for any function (operator name or lambda). Out-of-range indices, car/cdr/reduce of an empty list, wrong types and negative counts are errors, never a silently different list.",
 ["inputs", "programs"], "all lists, indices, element types and function arguments",
 "One short integer list per operator is tested.",
 ["lib/lists.go"], [("list operators", "lib/lists.go")], ["EvaluateReaderToYaml output"])

prop("C10", "Map operators preserve entries and their order",
 "maps.keys, values, to-entries, from-entries, make and get read and build maps exactly: keys, values and entries come out in insertion order, from-entries inverts to-entries, keys and values zip back into the same map, a repeated key keeps its first position and last value, and any string is usable as a key. Missing keys, odd argument counts, non-string keys and malformed entries are errors.",
 ["inputs"], "all maps with any string keys and values of any type",
 "Each operator is tested on one map with three plain keys, compared as unordered data.",
 ["lib/maps.go"], [("map operators", "lib/maps.go")], ["EvaluateReaderToYaml output"])

prop("C11", "maps.merge is a right-biased recursive merge",
 "maps.merge of any number of values combines maps recursively at every depth: a key present in one map keeps its value, a key present in several gets the merge of its values from left to right, and wherever the two sides are not both maps the later one replaces the earlier one (lists are replaced unless the schema of the value says otherwise). Keys keep the order of first appearance, merging is associative, and a schema's patchStrategy merge appends lists, or with patchMergeKey merges their elements by key.",
 ["inputs"], "all sequences of (typed) values of any shape",
 "One two-level example and one merge-key example are tested.",
 ["lib/maps.go", "core/util.go"], [("deep merge", "core/util.go:DeepMergeYispNode"), ("maps.merge", "lib/maps.go:opMerge")], ["EvaluateReaderToYaml output"])

prop("C12", "maps.patch implements JSON Patch (RFC 6902) plus wildcards",
 "For any target and any sequence of add, remove, replace, move, copy and test operations, maps.patch yields the document RFC 6902 prescribes (JSON Pointer escapes, array insertion, `-`, ordering of effects, values copied rather than shared) and fails exactly when an operation is inapplicable or a test does not match by value. A `*` path segment of add, remove or replace applies the operation to every entry of the map or list at that place, with `add` merging a map value into existing maps; the target as a whole can not itself be added, removed or replaced; a target that is a list of top-level documents is patched document by document.",
 ["inputs", "histories"], "all targets and operation sequences over paths drawn from (and near) the target",
 "About twenty fixed single-operation examples are tested; interactions between operations, escapes, failures and deep wildcards are not.",
 ["lib/patch.go"], [("pointer navigation and operations", "lib/patch.go")], ["EvaluateReaderToYaml output"])

prop("C13", "yaml.marshal and yaml.unmarshal are inverse and faithful",
 "yaml.marshal of any data value returns text that any YAML parser reads back as that value, and yaml.unmarshal of any YAML text (of maps with string keys, lists and scalars other than timestamps) returns the list of its documents as data with the same types and values; so unmarshalling a marshalled value gives a one-element list holding that value. Malformed text is an error, never partial data.",
 ["inputs"], "all data values and all YAML texts of JSON-compatible data",
 "One map each way is tested.",
 ["lib/yaml.go", "core/parse.go", "engine/render.go"], [("marshal", "lib/yaml.go:opMarshal"), ("unmarshal", "lib/yaml.go:opUnmarshal"), ("native conversion", "core/parse.go:ParseAny")], ["EvaluateReaderToYaml output"])

prop("C14", "k8s.patch changes exactly the manifests it targets",
 "k8s.patch merges each patch, in order, into every target manifest with the same apiVersion, kind, metadata.namespace and metadata.name, and leaves every other manifest, the number of manifests and their order unchanged; a patch that matches nothing changes nothing. The merge is the recursive merge of maps, with lists merged as the manifest's schema says (replace, append, or by merge key, keeping untouched elements).",
 ["inputs"], "all lists of manifests and patches with colliding and near-colliding identities, typed and untyped",
 "No test covers k8s.patch.",
 ["lib/k8s.go", "core/util.go"], [("target selection", "lib/k8s.go:getManifestID"), ("strategic merge", "core/util.go:DeepMergeYispNode")], ["EvaluateReaderToYaml output"])

prop("C15", "types.assert accepts exactly the values its schema describes",
 "types.assert returns its value unchanged when the value satisfies the schema and fails otherwise, where satisfaction is decided recursively: type (any, null, boolean, integer, float, string, array, object, and function with its number of arguments and its declared argument and result types), numeric bounds (inclusive and exclusive) and multipleOf, string length bounds, int-or-string, required and described properties, additionalProperties (absent means none), array items and oneOf alternatives. Checking a value never alters it and never accepts it because of where in the structure the mismatch sits.",
 ["inputs"], "all schemas of the supported vocabulary with matching, nearly matching and mismatching values",
 "No test validates against a schema with constraints.",
 ["core/schema.go", "lib/types.go", "engine/apply.go"], [("validation", "core/schema.go:Validate"), ("assert", "lib/types.go:opAssertType"), ("schema construction", "engine/apply.go:opSchema")], ["output or error of types.assert"])

prop("C16", "Casting to a type fills in defaults and nothing else",
 "Tagging a value with a declared type yields the same value with every absent property that has a default (at any depth, in objects and list items, including objects that are absent as a whole but have inner defaults) filled with that default, of the declared type; present properties keep their values and order. A value that does not satisfy the type after filling is rejected.",
 ["inputs"], "all object/array schemas with defaults of every type and partially filled values",
 "One schema with two string defaults is tested.",
 ["core/schema.go", "engine/eval.go"], [("default interpolation", "core/schema.go:InterpolateDefaults"), ("cast", "core/schema.go:Cast"), ("tag handling", "engine/eval.go:Eval")], ["EvaluateReaderToYaml output"])

prop("C17", "Typed parameters reject every argument of another type",
 "A function whose parameter carries a type tag (null, bool, int, float, string or a declared schema) can only be called with an argument that satisfies that type: a mismatch is an error naming the type violation before the body is evaluated, at whatever parameter position and however the function is reached (direct call, lists.map/filter/reduce, pipeline, imported module). Untyped parameters accept anything and conforming arguments arrive unchanged.",
 ["programs", "inputs"], "all parameter lists mixing typed and untyped parameters, argument values and call paths",
 "Tests only call typed functions with well-typed arguments.",
 ["engine/apply.go", "engine/eval.go", "core/schema.go"], [("argument validation", "engine/apply.go:Apply"), ("parameter types", "engine/eval.go:Eval lambda")], ["output or error"])

prop("C18", "No ill-typed manifest is ever emitted",
 "Unless type checking is disabled or untyped manifests are allowed, a build succeeds only if every map in the output that a .yisp file wrote with apiVersion and kind, or with $schema, at any depth and in any document, satisfies the cached schema of that type and such a schema exists; otherwise the build fails and emits nothing. Schemas are found by group, version and kind (core group included), with references between schemas followed.",
 ["inputs", "configurations"], "all documents with typed manifests, valid or with one violation at any depth, over the option combinations and cache contents",
 "Tests run with untyped manifests allowed and never check a rejected manifest.",
 ["engine/engine.go", "engine/eval.go", "core/util.go", "core/schema.go"],
 [("type attachment", "engine/eval.go:Eval KindMap"), ("verification before output", "core/util.go:VerifyTypes"), ("schema lookup", "core/schema.go:LoadSchemaFromGVK")], ["output or error"])

prop("C19", "Imports give isolated, path-relative modules",
 "import, wherever it stands, binds each name to the definitions of the module file, resolved relative to the file that contains the import (a directory means its index.yisp), and reaches them as name.definition. A module is evaluated on its own: it sees none of the importer's definitions, adds none except under its name, contributes no output, works the same wherever and through however many importers it is reached, and its functions keep using their own module's definitions.",
 ["programs"], "all module graphs over nested directories with colliding definition names",
 "Two flat imports in one directory are tested.",
 ["engine/eval.go", "core/util.go", "core/env.go"], [("import", "engine/eval.go:Eval import"), ("path resolution", "core/util.go:CallEngineByPath")], ["EvaluateFileToYaml output"])

prop("C20", "include yields every selected file's documents, in order, once",
 "include evaluates its arguments in order, each a path or glob pattern (with ** ) relative to the file it is written in, and returns the documents of all matching files: .yisp evaluated on its own, .yaml/.yml and .json as plain data (every document of the file, types of string-keyed maps, lists and scalars other than timestamps preserved), other files as one string; the including file itself is never among them. The result is independent of the current directory, paths with unusual characters work, and a path that matches nothing is an error.",
 ["inputs", "programs"], "all directory trees, file kinds, patterns and nesting of includes",
 "Three includes of single files in one flat directory are tested.",
 ["engine/apply.go", "core/util.go", "core/parse.go"], [("include", "engine/apply.go:opInclude"), ("loading by extension", "core/util.go:CallEngineByPath"), ("plain parsing", "core/parse.go")], ["EvaluateFileToYaml output"])

prop("C21", "files.read and files.glob return exactly the bytes on disk",
 "files.read returns the exact text of the file named relative to the program file containing the call; files.glob returns, for every matching file other than the program itself, a map of its path, base name and exact body, sorted by name within each directory. Both are independent of the current directory, and a missing file is an error for files.read and simply no match for files.glob.",
 ["inputs"], "all directory trees, file contents, patterns and working directories",
 "No test covers the files module.",
 ["lib/files.go"], [("glob, read", "lib/files.go")], ["EvaluateFileToYaml output"])

prop("C22", "Commands only run when allowed, with exactly the given arguments",
 "Without --allow-cmd no exec.cmd expression starts a process unless the user confirms that run on standard input; end of input, and the program text itself, never count as confirmation. When it runs, the command receives exactly the given arguments and stdin with no shell interpretation, its output is the result (verbatim with asString, otherwise evaluated as yisp), and a failing command makes the build fail.",
 ["configurations", "inputs"], "all placements of exec.cmd, flag settings, stdin contents, argument vectors and exit codes",
 "No test runs exec.cmd.",
 ["lib/exec.go", "cmd/build.go", "core/util.go"], [("permission gate", "lib/exec.go:opCmd"), ("flag plumbing", "cmd/build.go")], ["marker files written by a stand-in command", "exit status and output of yisp build"])

prop("C23", "exec.go runs only packages on the allow list",
 "exec.go runs `go run` for a package only if the whole package string matches an entry of the user's allow list, where * in an entry matches any text and every other character only itself; otherwise it fails without starting any process. `yisp allow` adds exactly the given entry to the list and keeps the existing ones.",
 ["inputs", "configurations"], "all allow lists and package strings, including near matches and regular-expression metacharacters",
 "No test runs exec.go or allow.",
 ["lib/exec.go", "cmd/allow.go", "cmd/root.go"], [("allow-list match", "lib/exec.go:opGoRun"), ("list maintenance", "cmd/allow.go")], ["invocations recorded by a stand-in go binary", "config file"])

prop("C24", "yisp build reports success and failure truthfully",
 "`yisp build` exits 0 and prints the complete result to standard output when evaluation succeeds, and exits non-zero without printing a result when it fails, for every source (file, directory with index.yisp, standard input). The YAML output is the engine's result for that file, and `-o json` prints the same data as JSON when the result is a single document and fails otherwise.",
 ["programs", "configurations"], "all programs, valid and failing, through every source kind and output format",
 "The command-line layer has no tests.",
 ["cmd/build.go", "core/util.go", "core/types.go"], [("build command", "cmd/build.go"), ("native conversion", "core/types.go:ToNative")], ["exit status, stdout of the built binary"])

prop("C25", "yisp krm transforms resource lists faithfully",
 "`yisp krm` exposes all input items except yisp's own function configuration, unaltered and in order, as the variable items, evaluates the inline script or the target file with it, and prints the resulting documents; returning *items unchanged therefore outputs exactly the input resources. A failing or malformed input ends with a non-zero exit and no resources on standard output.",
 ["inputs", "programs"], "all resource lists and scripts",
 "The krm command has no tests.",
 ["cmd/krm.go", "core/parse.go", "engine/engine.go"], [("krm command", "cmd/krm.go")], ["exit status, stdout of the built binary"])

prop("C26", "cache-kube-schemas makes every fetched definition usable",
 "After `yisp cache-kube-schemas`, every definition of the fetched OpenAPI document is stored under its name and every group/version/kind it declares resolves to it, so that manifests of those kinds are validated against exactly those definitions. It runs only after confirmation, re-running replaces earlier contents, and a failing or malformed fetch ends with a non-zero exit.",
 ["inputs", "histories"], "all OpenAPI documents (many definitions, several kinds per definition, core group) and repeated runs",
 "The command has no tests.",
 ["cmd/cachekubeschemas.go", "core/schema.go"], [("cache writing", "cmd/cachekubeschemas.go:saveSchemas"), ("cache reading", "core/schema.go:LoadSchemaFromGVK")], ["exit status, later validation results"])

prop("C27", "The embedded YAML parser reads YAML like the upstream one",
 "On every input that upstream yaml.v3 accepts, the embedded YAML library parses the same documents, node kinds, tags, values, styles, comments, anchors and positions, encodes them the same way wherever upstream's encoding reads back as the same data, and it rejects what upstream rejects. The only differences are the intended extensions: aliases need no earlier anchor, and anchor and alias names may contain dots and question marks.",
 ["inputs"], "all byte strings and node trees",
 "The fork runs upstream's example tests, but nothing compares the two on any other input.",
 ["internal/yaml/decode.go", "internal/yaml/scannerc.go", "internal/yaml/yamlprivateh.go", "internal/yaml/emitterc.go", "internal/yaml/resolve.go"],
 [("parser", "internal/yaml/decode.go"), ("scanner", "internal/yaml/scannerc.go"), ("emitter", "internal/yaml/emitterc.go")], ["decoded nodes and encoded text"])

prop("C28", "Any input is evaluated or rejected with an error, never a crash",
 "For every byte string given as a program and every well-formed program, including wrong argument counts, wrong argument types and values of every kind at every operand position, evaluation and rendering return a result or an error; they never panic or crash the process, and a program without recursion, include cycles or huge counts always terminates.",
 ["inputs", "programs"], "all byte strings and all programs over every operator and special form",
 "Tests only run well-formed, well-typed programs.",
 ["engine/eval.go", "engine/apply.go", "engine/util.go", "engine/render.go", "lib", "core"], [("argument checks", "engine/apply.go, lib/*.go")], ["panic, process death, error"])

prop("C29", "Operators do not modify the values they are given",
 "Evaluating an expression leaves every previously bound value as it was: a variable, list or map passed to any operator (maps.merge, k8s.patch, list and map operators, type assertions and so on) reads the same before and after, also when it is reachable from several places. maps.patch alone is documented to update its target in place, and even it does not make separate places of a document share later updates.",
 ["programs", "histories"], "all sequences of operator applications over shared anchored values",
 "Tests never look at an argument after it was used.",
 ["core/util.go", "lib", "core/schema.go", "engine/eval.go"], [("result construction", "core/util.go:DeepMergeYispNode, lib/lists.go, lib/maps.go")], ["values of anchors rendered after the operation"])

prop("C30", "Diagnostic options never change the data",
 "Enabling source-map comments, special-object rendering or tracing changes only comments, the placeholders of functions/types, and trace lines; disabling type checks or allowing untyped manifests never changes the output of a build that succeeds without them. Parsed ignoring comments, the output is the same data for every option combination that succeeds.",
 ["configurations", "programs"], "all programs under all option combinations",
 "Tests run under one option combination.",
 ["engine/engine.go", "engine/render.go", "core/util.go"], [("options", "engine/engine.go:Options"), ("rendering", "engine/render.go")], ["outputs across option sets"])

prop("C31", "Results do not depend on engine history or entry point",
 "The result of evaluating a program depends only on its sources, variables and options: an engine that has evaluated any other programs before (successfully or not) gives the same output as a fresh one, files and cached schemas changed in between are read as they are then, and evaluating from a file, a reader, bytes, or to native data gives the same data. Variables supplied by the host are visible to that evaluation only.",
 ["histories"], "all sequences of evaluations through the public API on one engine",
 "Tests share one engine but never compare with a fresh one or across entry points.",
 ["engine/engine.go", "core/env.go"], [("fresh environment per evaluation", "engine/engine.go"), ("entry points", "engine/engine.go:Evaluate*")], ["outputs and errors of evaluation sequences"])

prop("C32", "Document boundaries are preserved",
 "Each non-null top-level document result becomes exactly one output document, in source order; results of include and lists.as-toplevel at top level expand into one document per element, also through lists.map, lists.filter and lists.flatten, while anywhere else they are ordinary lists. Definitions made in one document are visible in all later documents, and top-level functions, types and imports produce no document.",
 ["programs"], "all document streams mixing data, definitions, nulls, expressions and top-level lists",
 "Tests have a few fixed streams; the expansion rules and their combinations are not covered.",
 ["engine/engine.go", "engine/render.go", "lib/lists.go", "engine/apply.go"], [("document collection", "engine/engine.go:Run"), ("rendering of roots", "engine/render.go:Render"), ("as-toplevel", "lib/lists.go")], ["EvaluateReaderToYaml output"])

prop("C33", "Variable paths resolve step by step, optionally",
 "*a.b.c yields the value found by following the keys b and c from the variable a, wherever a came from (anchor, parameter, imported module, host variable), and an undefined variable or missing key is an error rather than some other value. A ? after a step makes exactly that step optional: if it is missing the result is null, and if it is present the value is the same as without the ?.",
 ["inputs", "programs"], "all variable structures and paths with ? at any step",
 "Only one-step module lookups are tested.",
 ["core/env.go", "internal/yaml/scannerc.go"], [("lookup", "core/env.go:Get"), ("alias names", "internal/yaml/scannerc.go")], ["EvaluateReaderToYaml output"])

prop("C34", "Merge keys insert entries at their position",
 "`<<: value` inserts the entries of a map, or of each map in a list in order, into the surrounding map; null contributes nothing and any other value is an error. Several merge keys and explicit keys combine in document order with later entries overriding earlier ones, nothing is lost or duplicated, no merge marker ever appears in the output, and the merged-in maps themselves are unaffected.",
 ["inputs", "programs"], "all maps mixing any number of merge keys (direct, list, null, computed) and explicit keys",
 "Three fixed maps with disjoint keys are tested.",
 ["engine/parse.go", "engine/eval.go"], [("merge key marker", "engine/parse.go:Parse"), ("merge", "engine/eval.go:Eval KindMap")], ["EvaluateReaderToYaml output"])

prop("C35", "Errors point at the offending source position",
 "When evaluation fails, the error text names the file, line and column of the expression that failed, including when it lies in an imported or included file or inside a function body called from elsewhere, followed by the chain of enclosing positions up to the top-level file. The reported position is that of the failing node however the document around it is laid out. Where the source is a local file, the error shows that line among its neighbours, with a mark below the failing column.",
 ["programs"], "all positions of a failing expression in nested documents and module graphs",
 "No test looks at an error message.",
 ["core/error.go", "engine/eval.go", "core/util.go"], [("error chain", "core/error.go"), ("position tracking", "engine/parse.go:Parse")], ["error text"])

prop("C36", "Remote sources behave like local files",
 "A program, import or include given by http(s) URL yields the same result as the same tree of files on disk, with relative references inside it resolved against its own URL. A response other than success is an error, never content.",
 ["programs", "fault_sequences"], "all module trees served over HTTP with any request failing",
 "Nothing remote is tested.",
 ["core/util.go"], [("loading", "core/util.go:CallEngineByPath, fetchRemote")], ["EvaluateFileToYaml output against a loopback server"])

prop("C37", "Comments and layout choices survive on their own node",
 "In plain documents of a program (no tags or aliases) every comment that stands on the lines directly before a key or item, or at the end of its line, appears exactly once in the output, in full, next to the same key or item, and so does, directly below it, a comment line after an entry of a block mapping, or after an item of a block list that is no block collection itself, that is set off by a blank line; comments anywhere never change the emitted data. Block strings keep their style (| or >) and flow collections stay flow collections.",
 ["inputs"], "all plain documents with comments before or beside any node (not directly after an opening bracket) and stray comments anywhere",
 "testdata/comments.yaml is not compared by any test, and tests compare parsed data only.",
 ["engine/parse.go", "engine/render.go"], [("comment and style attributes", "engine/parse.go:Parse"), ("rendering", "engine/render.go:renderYamlNodes")], ["output text parsed with comments"])

prop("C38", "A $schema URL is fetched once and means the same cached or not",
 "A map with $schema is checked against the JSON schema at that URL with the same verdict whether the schema comes from the network or from the local cache; distinct URLs never share a cache entry. If the schema can not be fetched or parsed the build fails (unless untyped manifests are allowed), and a failed fetch leaves no cache entry behind.",
 ["histories", "fault_sequences"], "all sequences of builds over schema URLs with failing and succeeding responses, cold and warm",
 "No test uses $schema.",
 ["core/schema.go", "engine/eval.go"], [("fetch and cache", "core/schema.go:LoadSchemaFromURL"), ("type attachment", "engine/eval.go:Eval KindMap")], ["output or error, requests seen by a loopback server"])

prop("C39", "Source-map comments name where each value was written",
 "With --enable-sourcemap, every scalar of the output that was written in a program file, however it got there (variables, functions, operators, imports, includes of programs), is followed by a comment that ends in the file (relative to the working directory), line and column where it was written, after any comment of its own. A block collection that was written as such and stands at a key has its position at that key; collections made by operators or merges may have none. No such comment moves to another key or document, and the data is the same as without the option.",
 ["inputs"], "all programs and projects, layouts and working directories",
 "No test enables the option.",
 ["engine/render.go", "core/types.go", "engine/parse.go"], [("position comments", "engine/render.go:getLineComment"), ("text of a position", "core/types.go:Sourcemap"), ("positions recorded", "engine/parse.go")], ["comments of the output of EvaluateFileToYaml with RenderSources"])

prop("C40", "The schema of a typed value can be read back and means the same",
 "types.get of a value that was cast to a schema gives that schema: made a type again with schema, it accepts, completes with defaults and rejects the same values as the original, and reading it back once more gives the same. The value keeps its schema through variables, functions, lists and module exports; types.get of a value that was not cast, like a list that holds typed values or the same data written again, is null.",
 ["inputs"], "all schemas without function types' values or defaults beyond 64-bit integers, all values",
 "No test uses types.get.",
 ["lib/types.go", "core/schema.go"], [("types.get", "lib/types.go:opGetType"), ("schema as data", "core/schema.go:ToYispNode"), ("cast", "core/schema.go:Cast")], ["results of types.get and of casts to what it returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
