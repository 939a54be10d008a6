TECH = {
 "C01": ("grammar generator of YAML streams against the generated value (round trip)", "streams up to a few dozen nodes"),
 "C02": ("generated nestings of tags against a reference evaluator", "bounded depth and size"),
 "C03": ("repeated evaluation of generated programs in one engine, fresh engines and fresh processes (metamorphic)", "repetitions, so rare orders can be missed"),
 "C04": ("generated programs with colliding names against a reference interpreter", "bounded program size"),
 "C05": ("generated programs with probes in every part against the trace of a reference interpreter", "bounded program size"),
 "C06": ("generated operands, boundary-biased, against big-integer arithmetic", "bounded operand counts"),
 "C07": ("generated values and near-copies against the definition", "bounded depth"),
 "C08": ("generated Unicode strings against reference functions", "strings up to a few hundred bytes"),
 "C09": ("generated lists and functions against reference list functions", "bounded sizes"),
 "C10": ("generated maps and operation chains against an ordered-map model", "bounded sizes"),
 "C11": ("generated maps and schemas against a reference merge, associativity", "bounded sizes"),
 "C12": ("generated operation sequences against a reference RFC 6902 implementation", "bounded documents and sequences"),
 "C13": ("round trips and differential comparison with upstream yaml.v3", "timestamps excluded"),
 "C15": ("generated schemas with conforming and near-miss values against a reference validator", "bounded depth"),
 "C16": ("generated schemas with defaults and partial values against a reference default filler", "bounded depth"),
 "C17": ("generated typed functions and calls against a reference validator", "bounded depth"),
 "C14": ("generated manifest lists and patches with colliding identities against a reference patch", "bounded lists"),
 "C18": ("generated typed manifests, valid or with one planted violation, against a reference validator of the generated schema cache", "bounded depth"),
 "C20": ("generated directory trees, patterns and include programs against a reference matcher and interpreter; generated numbers of files under a low descriptor limit", "patterns that select directories"),
 "C21": ("generated directory trees, file bytes and patterns against a reference matcher and the disk", "patterns that select directories"),
 "C30": ("generated programs evaluated under every option combination (metamorphic)", "bounded program size"),
 "C22": ("generated programs and commands, run by the yisp binary against recording stand-ins, compared with a reference interpreter", "what the command does with the terminal"),
 "C23": ("generated histories of allow, hand edits and builds against a model of the list and a reference matcher", "packages with line breaks next to *"),
 "C24": ("generated projects built by the yisp binary against a reference interpreter and the engine", "bounded project size"),
 "C25": ("generated resource lists and scripts run through yisp krm against a reference interpreter", "timestamps excluded"),
 "C26": ("generated OpenAPI documents and fetch histories with a stand-in kubectl, then generated manifests against a reference validator", "definitions that a later fetch no longer has"),
 "C19": ("generated module trees and import graphs against a reference interpreter", "bounded trees"),
 "C27": ("generated and damaged YAML streams, node trees and Go values given to the embedded and the upstream library: differential on nodes, positions, comments, errors, Go values and encoded text", "text equality where upstream's encoding does not read back, of folded scalars and of block scalars that start with a blank"),
 "C28": ("generated calls of every operator with operands of every kind, damaged texts, schemas and host values, deep nesting, against the invariant that nothing panics", "functions that call themselves, unbounded counts, memory exhaustion by huge inputs"),
 "C29": ("generated programs with snapshots of every binding around each operator (metamorphic)", "bounded program size"),
 "C31": ("stateful histories of evaluations compared with a fresh engine and with other entry points", "bounded histories"),
 "C32": ("generated document streams against a reference interpreter", "bounded streams"),
 "C33": ("generated variables and paths against a reference lookup", "bounded depth"),
 "C34": ("generated merge-key maps against a reference merge", "bounded depth"),
 "C35": ("failing expressions planted in generated programs and projects, positions from the YAML parser and chains from a reference interpreter", "positions of YAML syntax errors, message wording"),
 "C36": ("generated project trees served over loopback HTTP with generated faults, against the reference interpreter of the same tree", "TLS, proxies, relative references after a redirect to another directory"),
 "C38": ("stateful histories of builds and page changes or failures over similar schema URLs, against a model of the cache", "concurrent builds, crashes in the middle of writing the cache"),
 "C40": ("generated schemas and values; a schema read back with types.get against the reference meaning of the original (round trip)", "function values, defaults beyond 64-bit integers"),
 "C39": ("generated programs and projects with source maps: positions from the YAML parser, provenance of values from a reference interpreter", "collections made by operators, plain data files, scalars that span lines"),
 "C37": ("generated commented documents made of unique words: a scanner of the output text finds each comment and its neighbours; metamorphic: data with and without comments", "comments after an opening bracket, CRLF sources, foot comments, aliases (the YAML library moves or drops those)"),
}
NOT = {}
