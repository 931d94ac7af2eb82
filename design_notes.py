"""Per property: how it is decided (oracle and shape of the harness). Included in DESIGN.md by mkmanifest.py."""
NOTES = {
 "C01": "Oracle: ASCII test and lowercasing of the input bytes in the harness, equality of lowered texts, and hashing with a fixed hasher. All constructors run on the same symbolic bytes.",
 "C02": "A symbolic history: each step picks operation, name, case variant and value; after each step the map, the returned values and every view (lookup, index, iteration, sizes) are compared with a plain ordered multimap in the harness. Run for Trailers, Request and Response.",
 "C03": "Symbolic bytes through every constructor against the ASCII test; lists built by symbolic operations compared with a Vec model, including iterator sizes after each `next`.",
 "C04": "The second is symbolic; the oracle computes the civil date by the days-from-civil formula and the expected 29 characters. One window of years per job keeps the divisions tractable.",
 "C05": "Three oracles: formatted dates in each format for symbolic seconds; a full reference recogniser of the three grammars on arbitrary ASCII strings of each length; and two arbitrary bytes anywhere in a valid date.",
 "C06": "A reference implementation of the WHATWG parse and serialise algorithms on byte strings, compared on arbitrary characters placed in whole values and after fixed beginnings (quotes, escapes, parameters).",
 "C07": "Types assembled from a small alphabet of types, subtypes and parameters; subset, equality, lookup and removal compared with their definition on lists of pairs. Content sniffing is run over arbitrary short contents for panics and well-formedness.",
 "C11": "Directives chosen symbolically with symbolic seconds; the expected text is assembled in the harness, then read back through a header map. Malformed values: arbitrary characters against a number recogniser.",
 "C12": "Tags with arbitrary printable contents, lists of tags with and without wildcard, against a reference recogniser of entity tags and lists.",
 "C13": "Symbolic credentials and realms written and read back; a reference base64 decoder and UTF-8 test for BasicAuth; arbitrary characters as whole values and after each scheme.",
 "C14": "Proposals with weights in thousandths; the oracle formats three decimals from integers. Malformed weights run through the standard library's float parser symbolically and are compared with an exact decimal recogniser.",
 "C15": "Proposals and alternatives chosen symbolically; the harness has its own sort and choice on integers.",
 "C16": "Per header: expected text assembled in the harness for symbolic values, reading back, and arbitrary values against a recogniser; locations are compared with `Url::join` of the url crate on the same input.",
 "C17": "HSTS directive lists in symbolic order, case and layout against a reference reader; origin lists likewise.",
 "C18": "traceparent fields symbolic, compared digit by digit; `child` and `set_sampled` against the field rules. Server-Timing lists with symbolic descriptions (quoting) and durations.",
 "C19": "A reference reader of RFC 7239 elements (tokens, quoted strings, for lists) on bytes, compared with the crate's reader on arbitrary text after 14 beginnings, and applied to what the crate writes for symbolic values. Requests: every combination of the five sources, with the documented priority computed in the harness.",
 "C21": "The source is a schedule: at each poll the solver's choices decide whether it is not ready, fails, or hands out how many bytes. The harness knows the wanted prefix and compares every delivered byte; wrappers (Request, Response) are driven the same way. JSON and forms are compared by value after a round trip, and arbitrary bytes only for status and panics.",
 'C22': "Two scheduled sources; the wanted bytes are computed from content, declared length and what was read before. Lengths near u64::MAX exercise the overflow rule, and a separate job takes both lengths over all of u64.",
 'C23': "A model of one body, its type and the header; after each operation content, length and header are compared.",
 'C24': "A counting waker and a five-state model of the sender (in the message, held, sending, sent, gone). async-channel itself is executed symbolically, too. Disabled operations are assumed away, so every explored order is a different one.",
 'C25': "The registry is a table in the harness. Numbers are symbolic over their whole type, so the verdict is for all of them; error paths that print text use characters that need no escaping, to keep the formatter from forking.",
 'C26': "Status numbers are symbolic; validity comes from StatusCode::try_from, decided under C25. Invalid ones must panic (expected-panic paths are counted).",
 'C27': "Four types, three of them similar in layout, and a model with one slot per type. Drops are counted in a separate history.",
 'C28': "The policy header is split again and compared with a model of directives and sources; order between directives is left open, order within is not.",
 'C29': "Values are compared with what was put in on each side, after one conversion and after the way back. The http crate's own map and URI parser run symbolically, too.",
 'C30': "serde_qs and the url crate run symbolically; values are compared field by field after the round trip.",
 'C31': "One table with all 32 typed headers, their names and texts. Each is applied in five ways over up to two earlier lines in two spellings, and the header map and reader are compared with the table; reading is compared between a message with one line and the same line after (or before) an arbitrary one.",
 'C32': "A model of nine parts (method, URL, status, version, two addresses, a header, an extension, the body) runs next to a message through arbitrary setters and clones; all parts are compared after each step, the body and the header iterator at the end.",
 'C33': "For each typed header a model of its parts runs next to it through arbitrary setters and assignments through the wrapper; getters, comparisons, conversions and the header text are compared with the model.",
 'C34': "The clock itself is symbolic: the engine answers clock_gettime with a symbolic instant (the native replay stands in for the same function), so that delays and instants are compared for every time of asking.",
 'C20': "async-std's blocking thread pool and system calls cannot be encoded; the bitcode is built against a small in-memory async-std::fs (/verif/standin) whose operations may each report \"not ready\" first, while everything in the crate is the real code. The native replay, which confirms violations and validates sampled paths, uses the real async-std on real files in a scratch directory. The oracle applies Mime::sniff and Mime::from_extension (judged under C07) to the first 300 bytes and to the extension it finds itself.",
 'C35': "Expected texts are what the standard library prints for the texts and lists of texts the harness put in; bodies and messages are read after printing to show that printing took nothing from them.",
}
