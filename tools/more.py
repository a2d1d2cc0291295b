NOT_APPLICABLE = {}
prop("C18", "The outcome does not depend on the order of object members",
 "Whether a schema compiles, whether an instance is valid, and which errors are reported (up to their order) do not depend on the order in which the members of the schema's or the instance's objects are visited, and so are the same on every run.",
 ["inputs", "schedules"], "for all iteration orders of every map touched, with all schemas and instances within the bounds",
 "Go randomises map iteration, so one test run sees one order out of very many.",
 ["schema.go", "schemaPool.go", "validation.go", "utils.go"], [("iteration over members", "validation.go validateObject"), ("reference collection", "schemaPool.go parseReferencesRecursive")])
prop("C19", "Compiled schemas are immutable: no history, no interference, no races",
 "Validating never changes the compiled schema or the instance: the result of a validation depends on the schema and the instance alone, not on earlier validations, on other schemas compiled since or by the same loader, or on validations, compilations with separate loaders and format registrations running concurrently. Concurrent use is free of data races.",
 ["inputs", "schedules", "histories"], "for all pairs of operations, their inputs and (for races) every interleaving ordered only by the locks taken",
 "A race or a leftover of an earlier run shows only for particular histories and schedules.",
 ["validation.go", "schema.go", "subSchema.go", "result.go", "errors.go", "format_checkers.go", "draft.go", "schemaLoader.go"],
 [("validation state", "validation.go validateRecursive"), ("shared globals", "errors.go errorTemplates, format_checkers.go lock, draft.go")])
prop("C20", "The format registry decides which values a format accepts",
 "A \"format\" keyword consults the checker registered under that name at the time of validation, with the instance itself whatever its type, and rejects the instance exactly when the checker does; names nobody registered accept everything, Add replaces, Remove and Has act on exactly the given name, and the built-in checkers accept every value that is not a string.",
 ["inputs", "histories"], "for all names, instances and sequences of Add, Remove, Has and validation within the bounds",
 "Tests register one checker once.",
 ["format_checkers.go", "validation.go"], [("registry", "format_checkers.go FormatCheckerChain"), ("use during validation", "validation.go validateCommon/validateString/validateNumber")])
prop("C21", "uuid, hostname, json-pointer and regex formats accept exactly their syntax",
 "\"uuid\" accepts exactly 8-4-4-4-12 hexadecimal digits in either case, \"json-pointer\" and \"relative-json-pointer\" exactly the RFC 6901 and relative pointer syntax (with ~0 and ~1 as only escapes), \"hostname\" exactly dot-separated labels of 1 to 63 letters, digits and inner hyphens with a total length under 256, and \"regex\" exactly the expressions the regular expression engine can compile.",
 I, "for all strings within the length bounds",
 SUITE + "each format is tried with a handful of strings.",
 ["format_checkers.go"], [("patterns", "format_checkers.go rxUUID, rxHostname, rxJSONPointer, rxRelJSONPointer")])
prop("C22", "date, time, IP address, e-mail and URI formats accept exactly valid values",
 "\"date\" accepts exactly the existing calendar days as YYYY-MM-DD, \"time\" and the time part of \"date-time\" exactly HH:MM:SS within range with optional fraction and offset (Z or +-HH:MM within range), \"ipv4\" four decimal octets without leading zeros, \"ipv6\" the RFC 4291 forms, \"email\" a local part and a domain around one @, \"uri\" an absolute and \"uri-reference\" any well-formed reference without backslash or bad escape, and \"uri-template\" a reference whose braces opened in its path are closed.",
 I, "for all digits and characters at the free positions of each form",
 SUITE + "each format is tried with a handful of strings.",
 ["format_checkers.go"], [("checkers", "format_checkers.go DateFormatChecker, TimeFormatChecker, DateTimeFormatChecker, IPV4FormatChecker, IPV6FormatChecker, EmailFormatChecker, URIFormatChecker")],
 "Leap seconds, lower-case t and z and e-mail display names are not decided.")

prop("C23", "Schemas added to a loader are found by their URL or identifier",
 "A schema given to AddSchema is what every reference to that URL means, and one given to AddSchemas what every reference to its identifier (\"$id\" or \"id\") means, including pointers into it and identifiers embedded in it, whatever the order in which schemas were added and whether or not the URL could be fetched. A schema whose URL or identifier is already taken is refused and the first one stays; sources that are no JSON and URLs that are none are refused; loaders do not share schemas.",
 ["inputs", "histories"], "for all URLs, identifiers and limits within the bounds, in all orders of the calls",
 "Tests add one schema and refer to it once.",
 ["schemaLoader.go", "schemaPool.go", "schemaReferencePool.go"], [("adding", "schemaLoader.go AddSchema, AddSchemas"), ("registration", "schemaPool.go parseReferences"), ("lookup", "schemaPool.go GetDocument")])
prop("C24", "Schema checking refuses exactly what the metaschema refuses",
 "With Validate set, Compile, AddSchema and AddSchemas refuse a schema exactly when the metaschema of its draft (named by $schema, or configured) or the compiler refuses it, at every place of the document, for every schema given to the loader; a $schema that is no known draft names a metaschema fetched like any other. Without the setting nothing but the compiler refuses. Checking changes nothing else: neither what the schema accepts nor where its references are read from. References to the metaschemas themselves need no request.",
 ["inputs", "histories"], "for all keywords of all drafts and values within the bounds",
 "Tests check one or two malformed schemas.",
 ["schemaLoader.go", "draft.go", "schema.go"], [("metaschema check", "schemaLoader.go validateMetaschema"), ("draft metaschemas", "draft.go drafts")],
 "The hybrid draft without $schema has no metaschema.")
prop("C25", "Every loader denotes the same JSON value, and only JSON is accepted",
 "The string, bytes, Go value, raw value, reader, writer and reference (file, http) loaders load the same JSON text as the same value, with numbers kept exactly, and lead to the same verdicts as schema and as instance. A text that is no JSON, or has anything but white space behind its document, is refused as string, bytes, file or response. Loaders can be used repeatedly and do not change their source.",
 I, "for all short texts over JSON's own characters, all values within the bounds and all one-character corruptions of a document",
 "Tests load a few well-formed documents.",
 ["jsonLoader.go"], [("decoding", "jsonLoader.go decodeJSONUsingNumber"), ("loaders", "jsonLoader.go LoadJSON methods")],
 "Data after the document in a reader or writer is not decided.")
prop("C26", "Reference loaders read exactly the named document",
 "A file reference opens exactly the file it names (escapes decoded, \"+\" and letter case kept) in the file system given; an http reference is requested without its fragment, at most once per compilation, and only if referenced; only status 200 yields a document, and every other status, transport failure, missing file and malformed document is an error. A fragment selects exactly that part, and one that selects nothing is refused. References that name no fetchable place are refused without any request.",
 ["inputs", "fault_sequences"], "for all names, pointers, statuses and failures within the bounds",
 "Tests fetch from one server that answers 200.",
 ["jsonLoader.go", "schemaPool.go"], [("fetching", "jsonLoader.go loadFromHTTP, loadFromFile"), ("fragments and cache", "schemaPool.go GetDocument")])
prop("C27", "Errors describe themselves by type, details, value and the locale in force",
 "Every error carries the type of the violated keyword, the details and limits of the schema and names of the instance that the documentation lists for it, the failing part of the instance as its value, and a description rendered from the template of the locale in force (with the user's template functions) and those details; String is the error format of that locale. Errors added by the user with AddError make the result invalid, keep their type, place and value, and are described by their own format. A context prints its path from the root with the given delimiter.",
 ["inputs", "histories"], "for all error types at four kinds of places, with free names, values and small limits",
 "Tests compare a handful of messages.",
 ["errors.go", "locales.go", "result.go", "jsonContext.go", "validation.go"], [("templates and details", "errors.go newError, formatErrorDescription"), ("texts", "locales.go DefaultLocale"), ("user errors", "result.go AddError")])
prop("C28", "A failed alternative is explained by the closest one, a matched one by nothing",
 "When no branch of \"anyOf\" or \"oneOf\", or no element for \"contains\", matches, the errors are the combinator's own and exactly all errors of one branch (element): among branches checking the same constraints the first with the fewest failures, and a branch of the right type with a failing member before one of another type. When \"oneOf\" matches several branches only its own error is reported. \"allOf\", \"then\", \"else\", \"propertyNames\" and schema dependencies report exactly the errors of what failed in them besides their own; \"not\", \"if\" and matched branches report nothing of what they contain.",
 I, "for all branches and instances within the bounds",
 "Tests look at one failed alternative.",
 ["validation.go", "result.go"], [("choice of the closest branch", "validation.go validateSchema, validateArray"), ("score", "result.go mergeErrors, addInternalError, incrementScore")])
