ALSO = "C05 C07 C09 C10 C11 C14 C16 C18 C19 C20 C22 C23 C24".split()
prop("C01", "Conforming documents survive a round trip",
     "In every protocol version, every JSON document that conforms to the published schema of a type is accepted by that type and written back with the same content: no member is lost, altered, renamed or invented. "
     "It makes no difference whether the document is read from text or from an already parsed JSON value. "
     "Only optional members that are null or an empty list may be left out.",
     ["inputs"], "every type of all six protocol versions, every conforming document (any subset of optional members, any union alternative, any scalar, any list length, unknown keys in open objects)",
     "The tests round-trip a few dozen hand-picked messages; over a thousand types with optional members, unions and flattened maps have combinations that no test names.",
     SCH + UT,
     [("generated types with serde attributes (rename, flatten, skip_serializing_if, untagged)", "src/generated_schema/*/mcp_schema.rs"),
      ("hand-written Deserialize impls and envelope types", "src/generated_schema/*/schema_utils.rs")],
     "bounded-exhaustive enumeration of all schema documents up to a deviation bound, replayed on the real code against the schema model",
     ONE + "Deviations are: toggling an optional member, another union alternative, another scalar value, another list length; bound 2 (quick, 1 for the largest types) and up to 4 (thorough). " + TRUST, split=True)
prop("C02", "Malformed documents are refused",
     "In every protocol version, a document that lacks a required member, or whose member has a JSON type or enumeration value the published schema does not allow, is refused with an error and never read as something else. "
     "Reading never panics.",
     ["inputs"], "every type of all six protocol versions, every conforming document in bounds, every single damage at every position (a required member removed, a wrong JSON type, an unlisted enumeration value, no matching union alternative)",
     "The tests contain a handful of malformed inputs; nothing visits each required member of each type, so making one optional goes unnoticed.",
     SCH + UT, [("required fields, enums and untagged unions", "src/generated_schema/*/mcp_schema.rs")],
     "exhaustive single-fault enumeration over all positions of all model documents, membership decided by the schema model",
     ONE + "Each of them is damaged in every single place in every listed way; damage that leaves the document conforming is excluded by the model's membership test. Not judged (documented crate behaviour): a list in place of an object, null in place of an absent optional member. " + TRUST, split=True)
prop("C03", "Protocol constants are enforced and emitted",
     "Members that the protocol fixes to one value (the JSON-RPC version, method names, type discriminators, modes, error codes) are refused with any other value when read. "
     "Values built through constructors, defaults and constant accessors carry exactly the fixed value of their type in that protocol version.",
     ["inputs", "configurations"], "every constant member of every type of all six versions, every position it can occur at, every wrong value of the bounded set; every constructor, default and constant accessor",
     "The tests check the method names of a few messages; there are hundreds of constants per version and any one may be wrong alone.",
     SCH + VAL, [("const validators used as deserialize_with/serialize_with", "src/generated_schema/*/validators.rs"), ("constructors and *_value accessors", "src/generated_schema/*/mcp_schema.rs")],
     "exhaustive enumeration of every constant position and wrong value, and of every constructor, against the schema model",
     ONE + "Every constant in them is replaced by near misses (prefix, extension, case, other type); constructors are run on every argument document in bounds. " + TRUST, split=True)
prop("C04", "Each message is read as the type its method names",
     "A JSON-RPC request or notification is read as the typed message of its method when it conforms to that message, and otherwise as a custom message with the same method; in either case writing it back gives the same JSON content. "
     "Reading from text and from a JSON value agree.",
     ["inputs"], "every request and notification of both directions in all six versions, every document in bounds and every single damage to it; every method name of either side, near misses of it and unknown names, with every id and params shape",
     "The tests read one example of most messages; that no other alternative of the large untagged unions captures a message first depends on every document.",
     UT, [("hand-written dispatch on the method name and untagged fallbacks", "src/generated_schema/*/schema_utils.rs: Deserialize of the client/server request and notification envelopes"), ("merged unions", "src/generated_schema/*/mcp_schema.rs")],
     "bounded-exhaustive enumeration of messages and near-messages with a reference dispatcher derived from the schemas",
     ONE + TRUST + "Known findings (custom messages of the three oldest versions are nested in their own params, pinned by an existing test) are listed in known_findings.json.", split=True)
prop("C05", "Messages are classified and described truthfully",
     "A document read as a message is a request exactly when it has a method and an id, a notification when it has a method and no id, a response when it has an id and a result, and an error when it has an error; anything else, including another JSON-RPC version, is refused. "
     "The kind, predicates, request id, method, JSON-RPC version, displayed text and conversions to a single kind all agree with the document, and converting to another kind fails with an internal error naming both kinds.",
     ["inputs"], "every document of the message space of C04 plus every response and error with every id shape, both directions, all six versions",
     "Tests look at a few messages of each kind; agreement of a dozen accessors per kind, direction and version over all documents is not sampled.",
     UT, [("RpcMessage and McpMessage implementations, as_request/as_response/as_notification/as_error", "src/generated_schema/*/schema_utils.rs")],
     "bounded-exhaustive enumeration of messages with a reference classifier",
     ONE + TRUST + "Known finding: requests whose id is no request id are read as notifications by the three newest versions.", split=True)
prop("C07", "Composed messages carry exactly the given id, method and payload",
     "Composing a message from a payload and an optional request id gives a message of the payload's kind carrying exactly that id, the method of the payload and the payload unchanged. "
     "Composing a request or response without an id, or a notification with one, fails with an internal error instead of producing a message. "
     "A composed request or notification can be taken apart into the payload it was made of.",
     ["inputs"], "every payload type of both directions in all six versions, every payload document in bounds, every request id shape including none",
     "Tests compose a few messages; the id rule and the payload mapping are repeated per type in hundreds of hand-written match arms.",
     UT, [("FromMessage/ToMessage implementations and new() of the envelopes", "src/generated_schema/*/schema_utils.rs")],
     "bounded-exhaustive enumeration of payloads and ids against a reference composer",
     ONE + TRUST)
prop("C06", "Results are read as the first result type they conform to",
     "The result of a response is read as the first member of the version's result union that it conforms to (in the newest versions a complete result is never taken for a request for more input), and as a generic result when it conforms to none. "
     "Standing alone or inside a response, read from text or from a value, the choice and the content written back are the same.",
     ["inputs"], "every result type of both directions in all six versions, every result document in bounds, every union of two results' members, both inside a response and alone",
     "Tests read one example of some results; precedence in a union of up to twenty overlapping, mostly optional types shows only on combinations of members.",
     SCH + UT, [("ServerResult/ClientResult and ResultFromX unions, custom Deserialize", "src/generated_schema/*/mcp_schema.rs and schema_utils.rs")],
     "bounded-exhaustive enumeration of result documents and merges of them against a reference of the precedence",
     ONE + TRUST, split=True)
prop("C08", "Conversions into containers keep the payload",
     "Converting a value into any type that can hold it (envelope, message, batch, union or content container) keeps its content unchanged and picks the variant of the value's own kind.",
     ["inputs"], "every From conversion of the public API in all six versions, every source document in bounds",
     "Hundreds of one-line conversions per version; the tests run a few of them on one value each.",
     SCH + UT, [("From implementations", "src/generated_schema/*/mcp_schema.rs and schema_utils.rs")],
     "bounded-exhaustive enumeration of source documents for every conversion of the public API",
     ONE + TRUST)
prop("C09", "Taking a kind out of a container succeeds exactly when it is that kind",
     "Trying to take a specific type out of a result, message, union or content container gives back the value unchanged when the container holds that type. "
     "Otherwise it fails with an internal error, or for content blocks one naming the kinds, and never yields another type's value or panics.",
     ["inputs"], "every TryFrom conversion and as_* accessor of the public API in all six versions, every variant of the container, every payload document in bounds",
     "Each of the hundreds of conversions must reject every other variant; the tests check a few accepting ones.",
     SCH + UT, [("TryFrom implementations for results and messages, ContentBlock accessors", "src/generated_schema/*/schema_utils.rs")],
     "exhaustive product of conversions and container variants, payload documents enumerated up to a deviation bound",
     ONE + TRUST)
prop("C10", "Servers accept a request exactly when its feature is declared",
     "Server capabilities accept a client request exactly when every feature the request needs is declared (tools, prompts, resources, logging, completions, tasks with its list, cancel and tool-call parts). "
     "A refusal is an error naming a missing feature; the sides of the handshake and custom methods are always accepted, and flags of other features have no influence.",
     ["configurations", "inputs"], "every combination of declared capabilities times every request of the version with and without task augmentation, from 2025-11-25 on",
     "Three tests try single capabilities; the mistakes are in combinations of a request, its parameters and an absent sub-capability.",
     UT[3:], [("ServerCapabilities::can_handle_request and helpers", "src/generated_schema/{2025_11_25,2026_07_28,draft}/schema_utils.rs")],
     "exhaustive product of capability declarations and requests against a reference gate",
     ONE + "Sub-capabilities with no say in the code (listChanged, subscribe) are enumerated but not required. " + TRUST, versions=["2025_11_25", "2026_07_28", "draft"])
prop("C11", "Clients accept a request exactly when its feature is declared",
     "Client capabilities accept a server request exactly when every feature the request needs is declared (sampling with its context and tools parts, roots, elicitation, tasks with its list, cancel and per-request parts). "
     "A refusal is an error naming a missing feature; ping and custom methods are always accepted, and flags of other features have no influence.",
     ["configurations", "inputs"], "every combination of declared capabilities times every request of the version with every relevant parameter shape, from 2025-11-25 on",
     "Few tests try single capabilities; the mistakes are in combinations of a request, its parameters and an absent sub-capability.",
     UT[3:], [("ClientCapabilities::can_handle_request and helpers", "src/generated_schema/{2025_11_25,2026_07_28,draft}/schema_utils.rs")],
     "exhaustive product of capability declarations and requests against a reference gate",
     ONE + "Elicitation mode sub-capabilities have no say in the code and are not required. " + TRUST, versions=["2025_11_25", "2026_07_28", "draft"], split=True)
prop("C12", "Protocol versions are recognised exactly",
     "A text is recognised as a protocol version exactly when it is the published name of one of the six versions; the version displays as that name, and listing the versions names each once, with and without drafts as asked. "
     "Every other text is refused with an error, and each schema module reports its own version.",
     ["inputs"], "every text at most one edit (two edits over the characters of versions) from a published name, the names' prefixes, paddings and case variants, and every version",
     "Tests try the known names and one wrong one; a version accepted by prefix or displayed as its neighbour needs the whole neighbourhood.",
     ["src/generated_schema/protocol_version.rs"] + UT,
     [("ProtocolVersion Display/TryFrom/FromStr tables", "src/generated_schema/protocol_version.rs")],
     "exhaustive enumeration of the edit neighbourhood of every version name against the published list",
     ONE + "All texts within one edit of each name are tried (two edits over digits and dashes). " + TRUST)
prop("C13", "Batches keep their messages in order",
     "A list of messages read as a batch gives exactly those messages in that order, a single message is no batch, and writing either gives back the same JSON; a list that holds anything that is no message is refused as a whole. "
     "Batches assembled from single messages and taken apart again hold the same messages, and sizes, predicates and conversions agree with the list.",
     ["inputs"], "every list of up to three (thorough: four) messages over representatives of every kind and direction in all six versions, every single bad element, every way to assemble one",
     "Tests read one batch per direction; order, the single-element list and one bad element among good ones need every short list.",
     UT, [("ClientMessages/ServerMessages, their conversions and FromMessage for lists", "src/generated_schema/*/schema_utils.rs")],
     "exhaustive enumeration of message lists up to a length against list semantics", ONE + TRUST)
prop("C14", "Errors carry the code, message and data they are made with",
     "An error made through any constructor carries the JSON-RPC code of its name, a message and the data given, and changing one of them by a builder step changes nothing else. "
     "Its JSON form, its displayed text, its conversions between error types and whole error messages agree with that content. "
     "The same holds for the list of addresses a client must visit.",
     ["histories", "inputs"], "every history of one constructor and up to two (thorough: three) builder steps over a domain of codes, messages and data, in all six versions",
     "Tests check a few constructors; codes, messages and data interact in several dozen builders per version.",
     UT, [("SdkError, RpcError, SdkErrorCodes, JSON-RPC error types and builders", "src/generated_schema/*/schema_utils.rs")],
     "exhaustive enumeration of construction histories up to a depth against a reference error",
     ONE + TRUST, state=[("error", "code, message and data of the error under construction", "RpcError in mcp_schema.rs")], observe=["serialized errors", "Display text", "code/message/data fields"])
prop("C15", "Reading from text agrees with reading JSON values",
     "For every type that can be parsed from text, reading a text gives the same value as reading the JSON it denotes, whatever the whitespace around it. "
     "A text that is cut short, followed by more text, or not JSON is refused with an error and never panics, and displayed values parse back to themselves.",
     ["inputs"], "every type with FromStr in all six versions, representative documents of it, every truncation and every single-character change of their texts",
     "Tests parse complete valid texts; truncation points and trailing text are as many as there are characters.",
     UT + SCH, [("FromStr and Display implementations", "src/generated_schema/*/schema_utils.rs and mcp_schema.rs")],
     "exhaustive enumeration of truncations, paddings and one-character changes of model documents' texts, differential against reading the parsed value",
     ONE + "Excluded: displaying custom messages of the three oldest versions (the finding listed under C04). " + TRUST)
prop("C16", "Request ids and tokens tell requests apart",
     "Two request ids (or progress tokens) are equal exactly when they are the same string or the same integer; a number and the string of its digits stay different, and equal ids hash alike. "
     "A table of waiting requests therefore gives each response to the request that asked, for every history of sends and answers.",
     ["histories", "inputs"], "every pair of ids of a look-alike domain; every history of up to four (thorough: five) inserts, removals and lookups in a table keyed by ids, in all six versions",
     "Tests use one id at a time; confusion needs ids that look alike waiting at the same time.",
     UT + SCH, [("RequestId, ProgressToken and their PartialEq, Hash, Display and From", "src/generated_schema/*/mcp_schema.rs and schema_utils.rs")],
     "exhaustive exploration of histories of a table of waiting requests against a reference map keyed by JSON values",
     ONE + TRUST, state=[("table", "requests waiting for their answer, keyed by id", "HashMap<RequestId, _> of a user of the crate")], observe=["equality", "hash", "table lookups"])
prop("C17", "Elicitation field schemas keep what they say",
     "A JSON object turned into a field schema of an elicitation (text, number, yes/no, choice) becomes a schema of the kind it describes whose content is contained in the object, with its type, choices, bounds and format kept. "
     "An object that is none of the field kinds is refused with an error, and nothing panics.",
     ["inputs"], "every conforming field schema in bounds and every single damage to it, every type name near a known one, from 2025-06-18 on",
     "Tests convert six hand-written schemas; kinds overlap (a choice is also a text) and the conversion decides by the members present.",
     UT[2:], [("TryFrom<&Map> for PrimitiveSchemaDefinition, StringSchemaFormat", "src/generated_schema/{2025_06_18,2025_11_25,2026_07_28,draft}/schema_utils.rs")],
     "bounded-exhaustive enumeration of field schemas and single damages against the schema model",
     ONE + "Ill-typed optional members are dropped by the code by design and only the rest is compared. " + TRUST, versions=["2025_06_18", "2025_11_25", "2026_07_28", "draft"])
prop("C18", "Enumerations read and show their published names",
     "Every enumeration of the protocol reads exactly its published names, in JSON and as text where it can be parsed from text, shows each value as its name, and refuses every other text with an error. "
     "Different values never share a name or compare equal.",
     ["inputs"], "every enumeration type of all six versions, every value, every text at most one edit from a name",
     "Tests look at one or two values of a few enumerations; one wrong name among hundreds is not sampled.",
     SCH + UT, [("enumerations with serde renames, Display, FromStr", "src/generated_schema/*/mcp_schema.rs and schema_utils.rs")],
     "exhaustive enumeration of values and of the edit neighbourhood of every name against the published schema", ONE + TRUST)
prop("C19", "Constructors and builders change only what they name",
     "A constructor yields a value that holds each given argument in the member it is named for, the fixed members of its type, and nothing else. "
     "A builder or helper step changes only the member it names (replacing or appending as documented) and leaves everything set before as it was, for every sequence of steps.",
     ["histories", "inputs"], "every public constructor and builder of all six versions over argument documents in bounds; every history of up to two (thorough: three) steps on tool results",
     "Tests run each builder at most once on a fresh value; losing what was set before needs sequences.",
     SCH + UT, [("new(), with_* and from_* of the schema types, CallToolResult and ContentBlock builders", "src/generated_schema/*/mcp_schema.rs and schema_utils.rs")],
     "exhaustive enumeration of constructor arguments and of builder histories up to a depth against a reference document",
     ONE + TRUST, state=[("value", "JSON document of the value under construction", "schema types")], observe=["serialized value after every step"])
prop("C20", "Tool failures become tool results",
     "An error a tool fails with, or an unknown tool, becomes a tool result that is marked as an error and whose only content is the text of that error. "
     "The error displays as the same text and keeps its cause.",
     ["inputs"], "every error text of a domain of shapes (empty, unicode, control characters, nested causes), every way to build the error, in all six versions",
     "One test wraps one error; loss of text, cause or flag depends on the way the error was built.",
     UT, [("CallToolError and From<CallToolError> for CallToolResult", "src/generated_schema/*/schema_utils.rs")],
     "exhaustive product of error shapes and construction ways against a reference result", ONE + TRUST)
prop("C21", "Sessions that need more input lose nothing",
     "When a server answers a request by asking for more input, the client reads exactly the questions asked, under their keys and of their kinds, with the state the server gave; when the client repeats the request with answers, the server reads exactly these answers and that state. "
     "This holds for every sequence of asking and answering, and an answer of the wrong kind for its key is refused instead of being read as another.",
     ["histories"], "every history of up to two (thorough: three) rounds of questions and answers of every kind for every request that may need input, 2026-07-28 and draft",
     "Tests build one request for input; keys, kinds and state pass through six conversions whose order differs per history.",
     UT[4:], [("InputRequests, InputResponses, InputRequiredResult and the requests' input builders", "src/generated_schema/{2026_07_28,draft}/schema_utils.rs")],
     "exhaustive exploration of ask/answer histories of a two-party session, each step passed as text through the real code and compared with a reference session",
     ONE + TRUST, state=[("session", "questions outstanding by key, answers given, request state", "InputRequests/InputResponses")], observe=["text on the wire in both directions", "typed questions and answers read back"],
     versions=["2026_07_28", "draft"])
prop("C22", "Request metadata is built and read back faithfully",
     "Metadata built step by step holds exactly the protocol version, client information, capabilities, token and extra members given, later steps replacing only what they name. "
     "Stamped onto any request, sent and read back, every accessor gives what was put in.",
     ["histories", "inputs"], "every history of up to three builder steps over metadata members, every request that carries metadata, 2026-07-28 and draft",
     "Tests build metadata once; replacement and interference of steps need sequences and each request type stores it itself.",
     UT[4:], [("RequestMetaObject builders and accessors", "src/generated_schema/{2026_07_28,draft}/schema_utils.rs")],
     "exhaustive exploration of builder histories against a reference document", ONE + TRUST,
     state=[("metadata", "the members of _meta set so far", "RequestMetaObject")], observe=["serialized metadata", "accessors"], versions=["2026_07_28", "draft"])
prop("C23", "Helpers report what the message says",
     "Convenience accessors on messages, results, tools, tasks and elicitations (task metadata, related task, tool names, finished tasks, kinds of elicitation, answers) report exactly what the JSON of the value says, for every value. "
     "A helper that changes a value changes only the part it names.",
     ["inputs"], "every document in bounds of every type that has a helper, in all six versions that have it",
     "Tests use one value per helper; the optional nested members that helpers walk over combine in many ways.",
     UT, [("task, tool and elicitation helpers", "src/generated_schema/*/schema_utils.rs")],
     "bounded-exhaustive enumeration of documents, each helper compared with a reference reading of the JSON", ONE + TRUST)
prop("C24", "Conversations deliver every message once and settle the right request",
     "When two parties talk through the crate, every message one of them sends (alone or in a list) is read by the other exactly once, in order, as the message of the same kind with the same id, method and payload. "
     "Every answer settles exactly the waiting request it answers, however many requests wait in both directions, in whatever order they are answered and however alike their ids look. "
     "Once everything is answered nobody waits.",
     ["histories", "schedules"], "every reachable state of sessions with up to three (thorough: four) unprompted messages, every grouping into lists, every interleaving of sending, delivering and answering in any order, for every request and notification type, in all six versions",
     "Tests exchange one message at a time in one direction; several waiting requests, lists and reordered answers multiply into thousands of schedules.",
     UT + SCH, [("composition, writing, reading, request_id() and RequestId as key", "src/generated_schema/*/schema_utils.rs")],
     "explicit-state exploration of a two-party session model, every transition executed on the real code and compared with the model",
     "All reachable states of the bounded session are visited; each transition (send, deliver, answer) runs on the real code, whose texts, typed messages and tables of waiting requests are compared with the model state. " + TRUST,
     state=[("channels", "texts under way in each direction", "user of the crate"), ("waiting", "requests of each side that wait for their answer", "HashMap<RequestId, _> of a user of the crate"), ("inbox", "requests received and not yet answered", "user of the crate")],
     observe=["texts written", "typed messages read", "requests settled"], split=True)
prop("C25", "The draft behaves as the release it shares its contents with",
     "The draft module shares the contents of the 2026-07-28 schema: every document is accepted or refused by both and written back the same, and every constructor, accessor, conversion, message composition and constant gives the same in both.",
     ["inputs"], "every operation of the public API that both versions have, every document in bounds and every single damage to the minimal and full ones",
     "The tests of the two versions are separate and sample different inputs; a change made to one copy only is not compared with the other.",
     SCH[4:] + UT[4:] + VAL[4:], [("two generated copies of one schema", "src/generated_schema/2026_07_28 and src/generated_schema/draft")],
     "exhaustive bounded enumeration of inputs per operation, outcome logs of the two versions compared; the histories of 13 other checks explored on both, their outcomes compared",
     "Every operation's complete outcome log over the same bounded documents is compared; error texts are not. What other checks explore (builder and session histories, gates, errors) is explored on both versions and must end alike. The bounds are smaller than those of the properties that judge each version against the schema. " + TRUST,
     versions=["2026_07_28", "draft"], compare=["2026_07_28", "draft"], split=True, also={"quick": ALSO, "thorough": ALSO + "C03 C04 C06 C08 C15 C17 C21 C13".split()})
prop("C26", "Versions can be combined as documented and do not disturb each other",
     "Every subset of the older versions together with at most one of the three newest, with or without schema_utils, builds; each enabled version is found in its module, reports its own protocol version, and the newest enabled one is also what the crate root shows. "
     "A version behaves the same alone and next to others.",
     ["configurations"], "all 64 documented combinations of version features and schema_utils, plus the defaults and the latest alias; every operation and document in bounds of a version alone and with the others enabled",
     "The test suite is built with one feature set at a time; combinations are only ever compiled by users.",
     ["src/generated_schema.rs", "src/generated_schema/protocol_version.rs"], [("define_schema_version! and the root re-exports", "src/generated_schema.rs")],
     "exhaustive enumeration of feature configurations, each checked against a probe program; outcome logs of a version alone and combined compared",
     "All configurations are built (type-checked, constants evaluated by the compiler); behaviour alone and combined is compared for 2025-11-25 (quick) or every version (thorough) with the bounds of the draft comparison. " + TRUST, driver="combos")
