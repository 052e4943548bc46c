TC = "crates/context-processing/src/algorithm"
prop("C01", "Context processing conforms to the JSON-LD 1.1 algorithm",
  "For every local context (objects, arrays, remote references, imports, scoped contexts, nulls) processed against any active context and base IRI, in either processing mode, the processor produces exactly the term definitions, base, vocabulary, default language, default direction and previous context that the JSON-LD 1.1 Context Processing and Create Term Definition algorithms define. When the recommendation calls for an error, processing fails, with the error code of the recommendation.",
  ["inputs", "histories"],
  "all contexts within k deviations of the base grammar, all chains (pairs, triples) over a pool of contexts, both processing modes, with and without a base IRI, and remote contexts served by a loader",
  "The conformance test-suite samples a few hundred contexts; interactions between entries (dependencies, protection, prefixes, containers, scoped contexts, base/vocab changes, ordering of keys, chains of contexts) are combinatorial and are not sampled.",
  ["crates/context-processing/src", "crates/core/src/context", "crates/syntax/src/context"],
  [("context processing", f"{TC}/mod.rs"), ("term definitions", f"{TC}/define.rs"), ("IRI expansion", f"{TC}/iri.rs"), ("merged imports", "crates/context-processing/src/processed.rs"), ("context model", "crates/core/src/context/mod.rs"), ("context grammar", "crates/syntax/src/context")],
  "model_checking", "exhaustive up to the stated deviation bound and chain length over a fixed finite alphabet; the reference is an independent executable transcription of the recommendation",
  technique=TECH.format("contexts and context histories"))

prop("C02", "Expansion conforms to the JSON-LD 1.1 algorithm",
  "For every JSON document, context, base IRI, expand context and processing mode, expansion yields the document that the JSON-LD 1.1 Expansion and Value Expansion algorithms define (up to the order of unordered collections), or an error exactly when the recommendation calls for one.",
  ["inputs", "configurations"],
  "all documents within k deviations of a grammar of node, value, list, set, graph, map, nest, reverse and included objects under 65 kinds of term definitions, both processing modes, with and without base and expand context; and all two-level nestings of terms of every kind, types and forms under a context with every kind of scoped context",
  "The test-suite fixes about 400 inputs; expansion is a product of term definitions, containers, scoped contexts, keyword aliases and value shapes, whose combinations tests cannot list.",
  ["crates/expansion/src", "crates/core/src/object"],
  [("element expansion", "crates/expansion/src/element.rs"), ("node expansion", "crates/expansion/src/node.rs"), ("value objects", "crates/expansion/src/value.rs"), ("value expansion", "crates/expansion/src/literal.rs"), ("arrays", "crates/expansion/src/array.rs"), ("document", "crates/expansion/src/document.rs")],
  "model_checking", "exhaustive up to the stated deviation bound over a fixed finite grammar; the reference is an independent executable transcription of the recommendation",
  technique=TECH.format("documents, contexts and options"))

prop("C03", "Expanded documents survive being printed, parsed, expanded again and compacted",
  "Every expanded document equals its clone and its own re-parse, in memory and through compact or pretty text; expanding the output of expansion again, without base or context, gives the same document; and compacting it with any context then expanding the result in that context gives the same document back, wherever the recommendation says so.",
  ["inputs", "histories"],
  "the documents of C02, C05 and the expanded documents and contexts of C04 within k deviations",
  "Round trips compose every algorithm and the JSON conversions, over inputs no test relates to one another; losing data on the way is the failure users notice last.",
  ["crates/core/src/object", "crates/expansion/src", "crates/compaction/src", "crates/core/src/document"],
  [("conversion to JSON", "crates/core/src/object/node/mod.rs"), ("parsing of expanded documents", "crates/core/src/object/mod.rs"), ("expanded documents", "crates/core/src/document/expanded.rs"), ("compaction", "crates/compaction/src/document.rs")],
  "model_checking", "exhaustive up to the stated deviation bound over fixed finite grammars; a round trip is required only where the reference model of the recommendation gives the document back",
  technique="exhaustive enumeration of documents, contexts and options; every round trip is run on the real code and compared with its start, conditioned by an executable reference model of the recommendation")

prop("C04", "Compaction conforms to the JSON-LD 1.1 algorithm",
  "For every expanded document and every context, compaction selects terms, containers, compact and relative IRIs, and lays out values, maps, lists, graphs, nests and reverse properties exactly as the JSON-LD 1.1 Compaction, IRI Compaction, Inverse Context and Value Compaction algorithms define, in both processing modes and for every combination of the compactArrays, compactToRelative and ordered options; it fails exactly when the recommendation calls for an error and never loses data that the context can express.",
  ["inputs", "configurations"],
  "all expanded documents of a grammar covering every kind of value, list, set, graph and node object, under 90 kinds of term definitions, pairs of competing definitions, both processing modes and all options; all two-level nestings of properties, types and graphs under a context with every kind of scoped context; all pairs of rival terms of every type, language, direction and container against every kind of value",
  "Term selection depends on the whole inverse context and on the shape of each value: which pairs of definitions compete for which values is combinatorial and the test-suite samples a few hundred points.",
  ["crates/compaction/src", "crates/core/src/context"],
  [("document", "crates/compaction/src/document.rs"), ("node", "crates/compaction/src/node.rs"), ("property and containers", "crates/compaction/src/property.rs"), ("value", "crates/compaction/src/value.rs"), ("IRI compaction", "crates/compaction/src/iri.rs"), ("inverse context", "crates/core/src/context/inverse.rs")],
  "model_checking", "exhaustive up to the stated deviation bound over a fixed finite grammar; the reference is an independent executable transcription of the recommendation; results the recommendation leaves open (colliding map and plain values, an untyped value under a typed term) are not judged",
  technique=TECH.format("expanded documents, contexts and options"))

prop("C05", "Flattening and node map generation conform to the JSON-LD 1.1 algorithm",
  "For every expanded document, node map generation gathers everything said about each identifier in each graph into a single node, relabels blank nodes injectively, keeps values, lists, types, reverse properties, graphs and included nodes, and reports conflicting indexes exactly when the recommendation does; flattening the result, ordered or not, gives the flattened document of the JSON-LD 1.1 Flattening algorithm up to a renaming of blank nodes.",
  ["inputs", "configurations"],
  "all documents of k deviations of a grammar of node graphs (shared identifiers, blank nodes as subject, property, type, value and graph name, nested graphs, included and reverse nodes, lists of lists, indexes), and all chains of four nodes over every kind of link and every sharing of identifiers",
  "Merging depends on which of many occurrences of an identifier say what and where; the test-suite has some fifty documents.",
  ["crates/core/src/flattening", "crates/core/src/object/node"],
  [("node map", "crates/core/src/flattening/node_map.rs"), ("flattening", "crates/core/src/flattening/mod.rs"), ("relabeling", "crates/core/src/object/node/mod.rs")],
  "model_checking", "exhaustive up to the stated deviation bound over a fixed finite grammar; the reference is an independent executable transcription of the recommendation; blank nodes are compared up to renaming; the index of list objects is not judged",
  technique=TECH.format("expanded documents"))

prop("C06", "Deserialization to RDF conforms to the JSON-LD 1.1 algorithm",
  "For every document, the RDF dataset produced (directly by the processor, from the flattened document, or from the node map) is the one of the JSON-LD 1.1 Deserialize to RDF, Object to RDF and List to RDF algorithms up to a renaming of blank nodes: every triple with well-formed terms is in the right graph and nothing else is, relative IRIs and unsupported literals are dropped, numbers, booleans and JSON literals get their canonical lexical forms, and base directions follow the rdfDirection option.",
  ["inputs", "configurations"],
  "all documents of k deviations of a grammar of node graphs and the product of lexical values, datatypes, languages, directions and positions, in every rdfDirection mode, with and without generalized RDF, through the three paths of the API; all chains of four nodes over every kind of link and every sharing of identifiers",
  "Literal conversion is a product of native value, datatype, direction mode and position, and list conversion depends on which items have a representation: the test-suite samples a few values of each.",
  ["crates/core/src/rdf/mod.rs", "crates/core/src/quad.rs", "crates/core/src/object"],
  [("RDF terms and lists", "crates/core/src/rdf/mod.rs"), ("quads", "crates/core/src/quad.rs"), ("canonicalization", "crates/core/src/object/node/mod.rs"), ("processor", "src/processor/mod.rs")],
  "model_checking", "exhaustive up to the stated deviation bound over a fixed finite grammar; the reference is an independent executable transcription of the recommendation; blank nodes are compared up to renaming",
  technique=TECH.format("documents and options"))

prop("C08", "Remote documents and contexts are loaded, resolved and used as specified, whatever the loader does",
  "For every call of the API, the document, its linked context, the expand context and the compaction context, whether given inline or by IRI, are dereferenced, resolved against the URL of the document that mentions them (after redirection) and applied as the recommendation says, and only the documents it calls for are loaded. The outcome does not depend on when loads complete; a failing load makes the call fail with a loading error, never succeed with a different result; a failed or abandoned call leaves nothing behind that changes later calls.",
  ["inputs", "schedules", "faults"],
  "all calls over fixed finite sets of documents, contexts, operations, input forms and options within k deviations, every unreachable document, and for each call every readiness schedule of its loads, every transient fault and every cancellation point",
  "What is fetched and against which base depends on how the five ways to provide a context combine, and asynchronous delays, failures and cancellations have one schedule per load: tests exercise the straight path.",
  ["src/processor", "crates/core/src/loader", "crates/context-processing/src"],
  [("processor on remote documents", "src/processor/remote_document.rs"), ("processor", "src/processor/mod.rs"), ("remote contexts", "crates/context-processing/src/algorithm/mod.rs"), ("processing stack", "crates/context-processing/src/stack.rs"), ("loader interface", "crates/core/src/loader/mod.rs")],
  "fault_enumeration", "exhaustive over the stated finite sets and deviation bound; loads of one call are sequential, so a schedule is the number of wake-ups each load takes",
  technique="exhaustive enumeration of API calls and, for each, of every load readiness schedule, fault position and cancellation point, run on the real code under a controlled executor and compared with an executable reference model")

prop("C09", "A loader gives the document found at the requested URL, and nothing else",
  "Every provided loader answers with the document designated by the URL and its own configuration, at the right document URL, or fails: the file-system loader reads the file at the place the URL says below the first mount point that contains it and never outside of the mounted directories; maps and chains ask the first loader that knows the document; the HTTP loader asks for JSON-LD with the requested profiles, accepts JSON media types only, follows alternate links up to its limit, honours context links except on JSON-LD documents, resolves links against the final URL and reports several context links; a context is extracted from the `@context` entry of the loaded document only.",
  ["inputs", "histories", "faults"],
  "all mount tables, URL paths, chains of map/none/broken/delayed loaders, and HTTP exchanges (status, redirection, media type, link headers, body, transport failure) within k deviations of a plain exchange; all chains of up to 11 alternate links against every limit",
  "URLs, header fields and link chains come from servers outside of the program's control; the tests exercise three link headers, eight content types and no exchange.",
  ["crates/core/src/loader"],
  [("file-system loader", "crates/core/src/loader/fs.rs"), ("chains and maps", "crates/core/src/loader/chain.rs"), ("HTTP loader", "crates/core/src/loader/reqwest/mod.rs"), ("Link headers", "crates/core/src/loader/reqwest/link.rs"), ("context extraction", "crates/core/src/loader/mod.rs")],
  "fault_enumeration", "exhaustive over the stated finite alphabets and deviation bound; the network is replaced below the HTTP client by canned responses, so TLS, sockets and the client's own redirections are not exercised; which file a URL with empty or dot segments designates is left open, only that it is inside of the mount",
  technique="exhaustive enumeration of loader configurations and exchanges, faults included, run on the real loaders and compared with an executable reference model (RFC 3986, 8288, 9110)")

prop("C10", "No input makes the API panic or hang, and invalid input is rejected with the specified error",
  "Whatever JSON value is given as document or context (any value under any keyword or term, at any level, with duplicate keys, deep nesting or malformed IRIs and language tags), expansion, compaction, flattening, RDF conversion, comparison, and the parsing of contexts and expanded documents return a result or an error, never panic and never run forever; and when the recommendation calls for an error, expansion reports it with the error code that the recommendation names.",
  ["inputs", "configurations"],
  "every pair of a keyword, alias or term and a JSON value of 46 shapes, in five positions of a document with and without context, pairs of them (deviations), every pair of values under 16 kinds of terms, every context and term definition entry with every shape, duplicate keys in every position and deep nestings",
  "Documents and contexts are untrusted; which malformed value reaches which unwrap is a product of keys, positions and shapes, and the test-suite has one document per error code.",
  ["crates/expansion/src", "crates/context-processing/src", "crates/syntax/src", "src/processor"],
  [("context parsing", "crates/syntax/src/context/try_from_json.rs"), ("expansion errors", "crates/expansion/src/error.rs"), ("value objects", "crates/expansion/src/value.rs"), ("node objects", "crates/expansion/src/node.rs"), ("error codes", "crates/syntax/src/error.rs"), ("comparison", "crates/syntax/src/compare.rs")],
  "model_checking", "exhaustive over the stated finite alphabets; an input with several errors may be rejected for any of them; nesting is bounded by 300 levels",
  technique="exhaustive enumeration of JSON values under every key and position, run through every entry point of the real code, with the error codes of an executable reference model of the recommendation")

prop("C13", "Operations on expanded documents do what they say on every part of them",
  "Identifying, relabeling, canonicalizing and mapping identifiers change exactly what they name, in every position a node, identifier or literal can occupy (properties, lists, reverse properties, graphs, included nodes, types), consistently and idempotently; traversal and counting see every object exactly once; two documents, nodes or values are equal exactly when they say the same thing up to the order of unordered collections, and equality agrees with hashing and JSON comparison.",
  ["inputs"],
  "all documents of k deviations of the grammar of C05, all chains of four nodes over every kind of link, every kind of literal in every position; for equality, every variant of each document that differs in one place or in the order of one array or object",
  "These operations recurse through a dozen node fields; forgetting one shows only on documents where that field holds something, which tests do not combine.",
  ["crates/core/src/object", "crates/core/src/document", "crates/syntax/src/compare.rs"],
  [("nodes", "crates/core/src/object/node/mod.rs"), ("objects", "crates/core/src/object/mod.rs"), ("lists", "crates/core/src/object/list.rs"), ("values", "crates/core/src/object/value.rs"), ("documents", "crates/core/src/document/expanded.rs"), ("comparison", "crates/syntax/src/compare.rs")],
  "model_checking", "exhaustive up to the stated deviation bound over a fixed finite grammar; JSON literals that differ only in the order of their entries may be equal or not",
  technique="exhaustive enumeration of documents, and of document pairs differing in one place, run on the real code and compared with an executable model over the JSON form of the documents")

prop("C15", "Documents survive the passage through RDF datasets and linked data",
  "Reading an RDF dataset as an expanded document gives what the recommendation (Serialize RDF as JSON-LD) gives, lists, named graphs and native literals included, whatever the dataset; no quad is lost or added. Serializing a linked data value gives a document that says the same quads, whatever nodes, lists, literals, graphs and sharing it is made of; and a document viewed as linked data and serialized again is the same document up to what RDF can express.",
  ["inputs"],
  "all datasets of up to 2 quads (3 in one graph) over a fixed alphabet of terms, all deviations of well-formed lists (shared, cyclic, several firsts or rests, other properties, named graphs), every literal of a grid of datatypes, lexical forms and languages; all linked data values and all documents within k deviations",
  "List reconstruction and native conversion depend on how quads combine; a test has one well-formed list, and a missing quad shows only on graphs that mix such shapes.",
  ["crates/serialization/src", "crates/core/src/rdf", "crates/core/src/object", "crates/core/src/quad.rs"],
  [("serialization of linked data", "crates/serialization/src/expanded"), ("RDF dataset interpretation", "crates/serialization/src/lib.rs"), ("linked data view of documents", "crates/core/src/object/node/mod.rs"), ("linked data view of lists", "crates/core/src/object/list.rs"), ("linked data view of values", "crates/core/src/object/value.rs"), ("lexical forms", "crates/core/src/rdf/mod.rs")],
  "model_checking", "exhaustive over the stated finite alphabets and deviation bound; a rdf:List type on list nodes may be dropped, number lexical forms are compared by value, ill-formed language tags and ill-typed numbers are left out",
  technique="exhaustive enumeration of RDF datasets, linked data values and documents, run on the real code and compared with an executable reference model of the recommendation and of the RDF semantics")

prop("C14", "Contexts are read, written and looked up without loss",
  "Every context that is read is written back as the same JSON, by every printing layout, by JSON conversion and by serde, and is read again as an equal context; its entries are listed, counted, looked up and traversed exactly once each. A processed context turned back into its syntax and processed again defines the same terms, base, vocabulary, language and direction. Keywords, directions, container combinations, compact IRIs and language tags are recognized exactly as the recommendation defines them.",
  ["inputs"],
  "all contexts within k deviations of the grammar of C01, every value of a set of 65 shapes under every entry of a context and of a term definition, all arrays of up to three contexts of a pool at both levels, each under 21 layouts; all chains of contexts of C01; all texts near keywords, all texts of up to five characters of an alphabet of ten; all sequences of up to five container kinds",
  "A dozen optional and nullable entries, each with its own field in five independent readers and writers: a forgotten or conflated one shows only for contexts that have it, null, in that place.",
  ["crates/syntax/src", "crates/core/src/context", "crates/core/src/container.rs"],
  [("context parsing", "crates/syntax/src/context/try_from_json.rs"), ("printing", "crates/syntax/src/context/print.rs"), ("JSON conversion", "crates/syntax/src/into_json.rs"), ("definitions", "crates/syntax/src/context/definition"), ("term definitions", "crates/syntax/src/context/term_definition"), ("syntax of processed contexts", "crates/core/src/context/definition.rs"), ("containers", "crates/core/src/container.rs"), ("keywords", "crates/syntax/src/keyword.rs")],
  "model_checking", "exhaustive over the stated finite alphabets and deviation bound; contexts with duplicate keys, and what serde makes of contexts that the parser refuses, are left out; contexts whose processed terms cannot be given by any written context (ambiguous prefixes, relative scoped contexts) are not reprocessed",
  technique="exhaustive enumeration of contexts run through every reader and writer of the real code, compared with the JSON they come from and, for processed contexts, with the context processed again")

prop("C11", "The same document gives the same result, whatever its entry order, vocabulary, options object or entry point",
  "Expanding, compacting, flattening a document or turning it into RDF does not depend on the order of the entries of any of its objects or contexts, nor on the vocabulary that stores its identifiers (none, empty, or already filled), nor on which of the equivalent entry points is called, on a document, a loaded reference or a URL; calling again gives the same, and ordered expansion gives exactly the same document.",
  ["inputs"],
  "all documents within k deviations of the grammars of C02 and C05 and a grid of documents with nested terms; every operation, ordered or not; every object in every order of up to three entries, and each entry first, last and swapped for more; three vocabularies; every entry point",
  "JSON objects are unordered and stored in hash maps and in maps of indexes: a dependence on order or on the vocabulary shows only for some orders, and the tests have one of each.",
  ["src/processor", "crates/expansion/src", "crates/compaction/src", "crates/core/src"],
  [("entry points", "src/processor/mod.rs"), ("documents", "src/processor/remote_document.rs"), ("expansion of nodes", "crates/expansion/src/node.rs"), ("context processing", "crates/context-processing/src/algorithm"), ("compaction", "crates/compaction/src")],
  "model_checking", "exhaustive over the stated finite alphabets and deviation bound; which of several errors is reported is open, and where the recommendation, followed to the letter, depends on the order (terms that refer to later terms, several lists under a list term) so may the result",
  technique="exhaustive enumeration of documents and of the orders of their entries, run on the real code through every vocabulary and entry point and compared with each other; the executable reference model settles what the recommendation leaves open")

prop("C12", "An active context is what its last settings say, whatever its history",
  "After any sequence of calls on a context (definitions set, replaced and removed, base, vocabulary, language, direction, previous context, reads of the inverse context, clones, identifier mappings, further local contexts processed), every read, every term selected through the cached inverse context, the values returned by the setters and equality are those of a new context given the same settings once; two contexts are equal exactly when their settings are.",
  ["histories"],
  "all sequences of up to 3 calls (4 in the thorough tier) among 41, and all pairs of settings within k deviations that differ in few components",
  "The inverse context is computed once and kept: a setter that forgets to drop it is only seen by a sequence that reads, sets and reads again, and tests build contexts only once.",
  ["crates/core/src/context"],
  [("context settings and cache", "crates/core/src/context/mod.rs"), ("definitions", "crates/core/src/context/definition.rs"), ("inverse context", "crates/core/src/context/inverse.rs"), ("further contexts", "crates/context-processing/src/algorithm/mod.rs")],
  "model_checking", "exhaustive over all call sequences up to the stated length over fixed pools of definitions and values",
  technique="exhaustive exploration of call sequences on the real code against an explicit state model (the settings), every read compared with the model and with a context without history")

prop("C17", "Nodes, values and documents hold what was put in them and show it the same way from every side",
  "After any sequence of insertions (plain, unique, by batches), replacements, removals and overwrites on a node, a document, a list, a value or a language string, its content is exactly what the calls say, duplicates being left out by the unique operations and only by them; properties are found by every kind of key; the accessors, the entries with their names and numbers, the JSON form, equality and hash all agree with that content.",
  ["histories", "inputs"],
  "all sequences of up to 3 calls among 98 on a node, 4 among 16 on a document, 4 on values, lists and language strings (more in the thorough tier), over a pool of objects of every kind; every part of every document of the grids of C05 for the views",
  "Each operation has a case for an absent and for a present key, in two copies of the code, and duplicates exist only in histories: tests insert once and read once.",
  ["crates/core/src/object", "crates/core/src/document", "crates/core/src/indexed.rs", "crates/core/src/lang_string.rs", "crates/core/src/id.rs"],
  [("properties", "crates/core/src/object/node/properties.rs"), ("reverse properties", "crates/core/src/object/node/reverse_properties.rs"), ("multisets", "crates/core/src/object/node/multiset.rs"), ("nodes", "crates/core/src/object/node/mod.rs"), ("objects and entries", "crates/core/src/object/mod.rs"), ("values", "crates/core/src/object/value.rs"), ("documents", "crates/core/src/document/expanded.rs"), ("language strings", "crates/core/src/lang_string.rs")],
  "model_checking", "exhaustive over all call sequences up to the stated length over fixed pools; whether a property with no value is reported as present is left open, as is the order of properties and values",
  technique="exhaustive exploration of call sequences on the real code against an explicit state model, and exhaustive enumeration of documents for the views, compared with their JSON form")

prop("C16", "The expansion policies keep, drop or reject what they say, and nothing else",
  "Expansion with a policy keeps, drops or rejects the keys and types that need the vocabulary mapping as the vocabulary policy says, those that expand to no valid identifier as the policy on invalid ones says, and fails on a key without any expansion exactly when undefined keys are not allowed (or invalid ones rejected), in whatever position and under whatever nested or scoped context they occur; what no policy speaks of (defined terms, keywords, map indexes that are not identifiers, JSON literals) expands exactly as without a policy.",
  ["inputs"],
  "all 18 policies; all pairs of 84 entries with undefined, invalid and vocabulary-dependent keys, types, values and indexes in every position, under 8 contexts; all documents within one deviation (two in the thorough tier) of the grammar of C02",
  "The policies are consulted at a dozen places of the algorithm, and none of the tests sets one.",
  ["crates/expansion/src", "crates/context-processing/src/algorithm/iri.rs", "src/processor/mod.rs"],
  [("policies", "crates/expansion/src/options.rs"), ("objects", "crates/expansion/src/element.rs"), ("keys, types and maps", "crates/expansion/src/node.rs"), ("value objects", "crates/expansion/src/value.rs"), ("coerced values", "crates/expansion/src/literal.rs"), ("vocabulary mapping", "crates/context-processing/src/algorithm/iri.rs")],
  "model_checking", "exhaustive over the stated finite alphabets and deviation bound; what dropping means inside a value object, for a value coerced to @vocab and for an index property is left open, as is the policy on invalid identifiers for the keys of type maps",
  technique="exhaustive enumeration of documents and policies run on the real code and compared with an executable reference model of expansion extended with the policies")
