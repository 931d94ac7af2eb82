"""Property statements (source of properties.jsonl)."""
NOT_APPLICABLE = []
SPEC = [
 dict(id="C01", title="Header names are ASCII, lowercased and compared case-insensitively",
  statement="A header name can be built from a string or byte string exactly when it is ASCII, and its text is then the ASCII-lowercased input whichever constructor was used. Two header names, or a header name and a string, are equal exactly when their texts are equal ignoring ASCII case; equal names hash equally, and a non-ASCII string equals no header name. Each predefined name has its standard text.",
  over=["inputs"], q="every byte string (and pair of strings) within the length bound",
  why="The tests compare a handful of fixed names such as 'hello'; no test covers all bytes, non-ASCII input or every constructor.",
  files=["src/headers/header_name.rs"],
  mech=[("ASCII check and lowercasing in each constructor", "HeaderName::from_bytes, from_str, from_string"), ("comparison through the normalised form", "impl PartialEq<str> for HeaderName")],
  observe=["HeaderName::as_str", "HeaderName ==", "Hash"]),
 dict(id="C02", title="Header maps are case-insensitive ordered multimaps",
  statement="After any history of inserting, appending, removing and reading, a header map holds for each name, whatever its case, exactly the values last put there, in order: insert replaces all values and returns the old ones, append adds at the end, remove takes all values away and returns them. Lookup by any case of the name, indexing, iteration over names, values and pairs, and the reported sizes all agree with that state, for trailers, requests and responses alike.",
  over=["histories"], q="every history of operations within the length bound",
  why="The tests run a few fixed sequences; they do not cover interleavings of operations, case variants or the agreement of all views after every step.",
  files=["src/headers/headers.rs", "src/headers/header_values.rs", "src/headers/iter.rs", "src/headers/names.rs", "src/headers/values.rs", "src/headers/into_iter.rs", "src/trailers.rs", "src/request.rs", "src/response.rs"],
  mech=[("map from normalised name to value list", "Headers::insert/append/get/remove"), ("iteration", "Iter, Names, Values, IntoIter")],
  observe=["return values of Headers operations", "iteration", "Index"]),
 dict(id="C03", title="Header values keep their ASCII text, and lists keep their order",
  statement="A header value can be built from a string or byte string exactly when it is ASCII, and reading it gives back the identical text; values compare as their texts, and those made from cookies and MIME types have exactly their text. A list of values keeps every value in the order it was added, its last value is the one added last and every other single-value view is the first, and its iterators yield exactly its values with correct sizes.",
  over=["inputs", "histories"], q="every byte string and list history within the bounds",
  why="The tests build a handful of values and lists; no test quantifies over bytes or over list operations.",
  files=["src/headers/header_value.rs", "src/headers/header_values.rs", "src/headers/values.rs"],
  mech=[("ASCII validation", "HeaderValue::from_bytes, from_str"), ("value list", "HeaderValues::append, last, iter")],
  observe=["HeaderValue::as_str", "HeaderValues iteration"]),
 dict(id="C04", title="Written HTTP dates denote the right calendar second",
  statement="Every header that carries an instant writes it as a 29-character IMF-fixdate whose weekday, day, month, year and time of day are those of the Gregorian calendar. Reading the written text gives back the same second.",
  over=["inputs"], q="every second of the years within the bounds",
  why="The tests write a few fixed instants; leap years, century years and month ends are only sampled.",
  files=["src/utils/date.rs", "src/other/date.rs", "src/cache/expires.rs", "src/conditional/modified.rs", "src/conditional/unmodified_since.rs", "src/conditional/last_modified.rs", "src/other/retry_after.rs"],
  mech=[("civil date from seconds", "impl From<SystemTime> for HttpDate"), ("seconds from civil date", "impl From<HttpDate> for SystemTime"), ("IMF-fixdate text", "impl Display for HttpDate")],
  observe=["header text", "instant read back"]),
 dict(id="C05", title="HTTP dates are accepted in exactly three formats, with the right instant",
  statement="A date header is accepted exactly when its value, blanks aside, is an IMF-fixdate, RFC 850 or asctime date of an existing day from 1970 on, and all three forms of an instant (two-digit years meaning 1970 to 2069) read as that instant. Every other value is refused with a 400 error, never a panic.",
  over=["inputs"], q="every ASCII string within the length bound",
  why="The tests parse a few valid dates and two malformed ones.",
  files=["src/utils/date.rs", "src/other/date.rs", "src/cache/expires.rs"],
  mech=[("format parsers", "parse_imf_fixdate, parse_rfc850_date, parse_asctime"), ("field validation", "HttpDate::is_valid"), ("status of the error", "parse_http_date")],
  observe=["result of from_headers", "error status"]),
 dict(id="C06", title="MIME types are parsed and serialised as the WHATWG standard says",
  statement="An ASCII string parses as a MIME type exactly when the WHATWG MIME Sniffing standard's algorithm accepts it, with that algorithm's type, subtype and parameters (first occurrence of a name counts, quoted strings unescaped, malformed parameters skipped). Its text is that standard's serialisation with a utf-8 charset parameter first, and parsing the text again gives an equal type; no string makes parsing panic.",
  over=["inputs"], q="every ASCII string within the bounds",
  why="The tests are a fixed list of web-platform examples; they do not cover every placement of quotes, escapes, separators and blanks.",
  files=["src/mime/parse.rs", "src/mime/mod.rs"],
  mech=[("parsing", "mime::parse::parse, collect_http_quoted_string"), ("serialisation", "mime::parse::format")],
  observe=["Mime::from_str", "Mime::to_string", "Mime::param"]),
 dict(id="C07", title="MIME type matching, parameters and lookups are exact",
  statement="One MIME type is a subset of another exactly when type and subtype match (or the other has a wildcard there) and it carries every parameter of the other with the same value; types are equal exactly when their texts are. Parameters are looked up and removed by name in any case without touching the others; each predefined type equals its parsed text, file extensions map to the documented types, and sniffing any content never panics and yields a well-formed type or an error.",
  over=["inputs"], q="every pair of types, parameter removal and extension within the bounds",
  why="The tests compare a few fixed types; charset handling, wildcards and parameter removal are sampled at single points.",
  files=["src/mime/mod.rs", "src/mime/constants.rs"],
  mech=[("subset relation", "Mime::subset_eq"), ("parameters", "Mime::param, remove_param"), ("extension table", "Mime::from_extension")],
  observe=["subset_eq", "==", "param", "remove_param", "from_extension", "sniff"]),
 dict(id="C11", title="Cache headers keep their directives and seconds",
  statement="Age, Cache-Control and Clear-Site-Data write each directive with its standard name and whole number of seconds, and reading a value gives back the same directives in order, whatever the case of directive names and the blanks around commas, skipping unknown cache directives. An Age or a directive's seconds that is not a decimal number fitting 64 bits, or a clear directive that does not exist, is a 400 error; nothing panics.",
  over=["inputs"], q="every list of directives, number and text within the bounds",
  why="The tests write and read one or two fixed directives; names, large numbers and malformed values are not covered.",
  files=["src/cache/age.rs", "src/cache/cache_control/cache_control.rs", "src/cache/cache_control/cache_directive.rs", "src/cache/clear_site_data/mod.rs", "src/cache/clear_site_data/directive.rs"],
  mech=[("age", "Age::from_headers, Age::header_value"), ("directives", "CacheDirective::from_str, From<CacheDirective> for HeaderValue"), ("clear directives", "ClearSiteData::from_headers, ClearDirective")],
  observe=["from_headers", "header text", "iteration"]),
 dict(id="C12", title="Conditional headers keep entity tags and names exactly",
  statement="An ETag is accepted exactly when it is a quoted string, optionally after W/, and keeps its text and strength; If-Match, If-None-Match and Vary write their items and wildcard in order and reading gives back the same items. Commas inside a tag do not split it, any other malformed value is a 400 error, and nothing panics.",
  over=["inputs"], q="every tag, list and header value within the bounds",
  why="The tests use a handful of tags without commas or unusual characters.",
  files=["src/conditional/etag.rs", "src/conditional/if_match.rs", "src/conditional/if_none_match.rs", "src/conditional/vary.rs"],
  mech=[("tags", "ETag::from_str, Display for ETag"), ("lists", "IfMatch::from_headers, IfNoneMatch::from_headers"), ("names", "Vary::from_headers")],
  observe=["from_headers", "header text", "iteration"]),
 dict(id="C13", title="Authentication headers carry credentials and realms unchanged",
  statement="Authorization, Proxy-Authorization and WWW-Authenticate write scheme, credentials and realm such that reading gives back the same ones, scheme names being read in any case; BasicAuth does so for every user name without colon and every password, splitting at the first colon. Unknown schemes, missing parts, text that is not base64 or not UTF-8 inside, and unterminated realms are 400 errors, never panics.",
  over=["inputs"], q="every scheme, user name, password, realm and header value within the bounds",
  why="The tests use one user name, password and realm.",
  files=["src/auth/authorization.rs", "src/auth/basic_auth.rs", "src/auth/www_authenticate.rs", "src/auth/authentication_scheme.rs"],
  mech=[("credentials", "Authorization::from_headers"), ("basic", "BasicAuth::from_credentials, from_headers, header_value"), ("realm", "WwwAuthenticate::from_headers, header_value"), ("schemes", "AuthenticationScheme::from_str, Display")],
  observe=["from_headers", "header text"]),
 dict(id="C14", title="Weighted proposals are written and read with their weights",
  statement="Accept, Accept-Encoding and TE write each proposal with its weight (three decimals) and the wildcard, and reading gives back the same proposals, weights and wildcard in order, whatever the blanks, empty items and number of header lines; unknown encodings are skipped. Weights outside 0 to 1 are refused by constructors, and in headers weights that are no number from 0 to 1 and malformed media types are 400 errors, never panics.",
  over=["inputs"], q="every list of proposals, weight and header value within the bounds",
  why="The tests use fixed lists with two or three well-formed weights.",
  files=["src/content/accept.rs", "src/content/accept_encoding.rs", "src/content/encoding_proposal.rs", "src/content/media_type_proposal.rs", "src/transfer/te.rs", "src/transfer/encoding_proposal.rs"],
  mech=[("reading", "Accept::from_headers, AcceptEncoding::from_headers, TE::from_headers, *Proposal::from_str"), ("writing", "header_value, From<*Proposal> for HeaderValue")],
  observe=["from_headers", "header text", "iteration"]),
 dict(id="C15", title="Negotiation picks the best proposal that is available and wanted",
  statement="Sorting orders proposals by descending weight, unweighted ones last and equal ones by latest first. Negotiating picks the first available alternative matched by the best sorted proposal of non-zero weight (media types match by subset), falls back to the first available one when there is a wildcard, and otherwise fails with status 406.",
  over=["inputs"], q="every list of proposals and available alternatives within the bounds",
  why="The tests negotiate over a few fixed lists; ties, zero weights and wildcards are hardly covered.",
  files=["src/content/accept.rs", "src/content/accept_encoding.rs", "src/transfer/te.rs", "src/utils/mod.rs"],
  mech=[("order", "sort_by_weight, PartialOrd for *Proposal"), ("choice", "Accept::negotiate, AcceptEncoding::negotiate, TE::negotiate")],
  observe=["sort", "negotiate"]),
 dict(id="C16", title="Message headers keep lengths, types, encodings, locations and methods",
  statement="Content-Length, Retry-After, Content-Type, Content-Encoding, Transfer-Encoding, Expect, Allow, Content-Location, Referer and SourceMap write their value in its standard text, and reading that text, or the last header line where one value counts, gives the same value back, locations being resolved against the base URL. A value that is no number fitting 64 bits, MIME type, known encoding, known method, 100-continue or URL reference is an error (400, except that existing tests fix 500 for Referer and SourceMap), never a panic.",
  over=["inputs"], q="every number, method set, encoding and text within the bounds",
  why="The tests use one value and one malformed value per header.",
  files=["src/content/content_length.rs", "src/content/content_type.rs", "src/content/content_encoding.rs", "src/content/encoding.rs", "src/content/content_location.rs", "src/transfer/transfer_encoding.rs", "src/transfer/encoding.rs", "src/other/expect.rs", "src/other/referer.rs", "src/other/source_map.rs", "src/other/retry_after.rs", "src/server/allow.rs"],
  mech=[("reading", "from_headers of each header"), ("writing", "header_value of each header"), ("delay arithmetic", "RetryAfter::duration_since")],
  observe=["from_headers", "header text"]),
 dict(id="C17", title="HSTS and Timing-Allow-Origin keep their directives and origins",
  statement="Strict-Transport-Security writes its age and flags such that reading gives them back, and reads directives in any order, letter case and layout, ignoring unknown ones; without a decimal max-age fitting 64 bits it is a 400 error. Timing-Allow-Origin keeps origins in order and the wildcard, skips \"null\", and refuses items that are no URL with a 400 error; nothing panics.",
  over=["inputs"], q="every age, flag, directive order, origin list and text within the bounds",
  why="The tests read one or two fixed values.",
  files=["src/security/strict_transport_security.rs", "src/security/timing_allow_origin.rs"],
  mech=[("hsts", "StrictTransportSecurity::from_headers, header_value"), ("origins", "TimingAllowOrigin::from_headers, header_value")],
  observe=["from_headers", "header text", "iteration"]),
 dict(id="C18", title="Trace headers keep identities, durations and descriptions",
  statement="A traceparent of four hexadecimal fields is read with exactly those values; what is written carries the version, trace id and flags and the context's own id, and a child keeps the trace and flags and names its creator as parent. Server-Timing metrics with token names are written and read back in order with their durations and descriptions, whatever characters a description has. Anything malformed is a 400 error, never a panic.",
  over=["inputs"], q="every identity, metric list and text within the bounds",
  why="The tests use a few fixed identities and metrics without special characters.",
  files=["src/trace/trace_context.rs", "src/trace/server_timing/mod.rs", "src/trace/server_timing/parse.rs", "src/trace/server_timing/metric.rs"],
  mech=[("identity", "TraceContext::from_headers, child, set_sampled, Display"), ("metrics", "parse_header, parse_entry, From<Metric> for HeaderValue")],
  observe=["from_headers", "header text", "accessors"]),
 dict(id="C19", title="Forwarded keeps proxies, hosts and protocols, and requests derive theirs",
  statement="Forwarded writes its by, for, host and proto values so that RFC 7239's grammar and its own reader give back exactly these, whatever printable characters they have, and reads a single element of that grammar with exactly its values, refusing malformed text and duplicates without panicking. Without a Forwarded header the historical X-Forwarded headers give the same value. A request's remote and host are those of Forwarded, else of X-Forwarded-For or X-Forwarded-Host, else the peer address, or the Host header and then the URL.",
  over=["inputs"], q="every value, header text and combination of headers within the bounds",
  why="The tests read and write about twenty fixed texts; special characters outside the for list, non-token values and malformed lists are not covered.",
  files=["src/proxies/forwarded.rs", "src/parse_utils.rs", "src/request.rs"],
  mech=[("reading", "Forwarded::parse, parse_for, parse_forwarded_pair, parse_quoted_string, parse_token"), ("writing", "Header for Forwarded, format_value"), ("fallback", "Forwarded::from_headers, from_x_headers"), ("requests", "Request::remote, Request::host")],
  observe=["from_headers", "header text", "accessors"]),
 dict(id="C21", title="A body delivers its source's bytes up to its length under every read schedule",
  statement="However reads and buffered reads are sized and interleaved, and however the source splits its data, is not ready or fails in between, a body, request or response delivers the source's bytes in order, once each, up to the declared length or the end of the source, and no others; a source error or wait is passed on and loses nothing. Bodies built from bytes, strings, JSON or forms have that content, its length and the type for it, and read back as the same value, while text that is not UTF-8, JSON or a form is an error with status 422, never a panic.",
  over=["inputs", "schedules", "faults"], q="every content, split, buffer size, readiness and error schedule within the bounds",
  why="The tests read bodies from in-memory cursors that hand out everything at once and never wait or fail.",
  files=["src/body.rs", "src/request.rs", "src/response.rs"],
  mech=[("reading", "AsyncRead for Body, AsyncBufRead for Body"), ("collecting", "Body::into_bytes, into_string, into_json, into_form"), ("building", "Body::from_reader, from_bytes, from_string, from_json, from_form, From impls")],
  observe=["poll results", "bytes delivered", "len", "mime", "error status"]),
 dict(id="C22", title="A chained body delivers the first body's rest, then the second's",
  statement="Chaining two bodies, whether or not they were read from before, gives a body that delivers what was left of the first up to its length and then what is left of the second, byte by byte under every schedule. Its length is the sum of what the declared lengths left, and unknown when either is unknown or the sum overflows; its type is their common type, else application/octet-stream.",
  over=["inputs", "schedules"], q="every content, declared length, type, earlier reading and read schedule within the bounds",
  why="The tests chain a few fixed cursors with fixed buffer sizes and never with waits, errors, buffered reads or overflowing lengths.",
  files=["src/body.rs"],
  mech=[("chaining", "Body::chain"), ("reading", "AsyncRead for Body, AsyncBufRead for Body")],
  observe=["bytes delivered", "len", "mime"]),
 dict(id="C23", title="Messages hold the body they are given and name its type",
  statement="After any history of setting, replacing, swapping, taking and reading bodies and setting the type, a request or response holds exactly the last body, hands each earlier one out once and unchanged, and reports its length; its Content-Type is the one set explicitly, else the type of the first body given since there was none. Conversions of text, bytes, statuses and requests keep content, status and type, and a clone has the same headers, method, URL and status with an empty body.",
  over=["histories"], q="every history of operations within the bounds",
  why="The tests call one or two of these operations in one order.",
  files=["src/request.rs", "src/response.rs", "src/body.rs"],
  mech=[("bodies", "set_body, replace_body, swap_body, take_body, body_string, body_bytes, body_json, body_form"), ("type", "copy_content_type_from_body, set_content_type, content_type"), ("conversions", "From impls of Response, From<Request> for Body, Clone")],
  observe=["body content", "Content-Type", "len", "status"]),
 dict(id="C24", title="Trailers and upgrades sent are received once, whatever the order of operations",
  statement="Whatever the order in which the two ends are obtained, polled, cancelled and dropped, the receiver yields the trailers or connection sent, complete and once, waits only while something can still be sent, is woken when it was waiting, and yields nothing when the sender is gone; sending never waits. The message says that sending is in progress exactly once it was asked for, and an upgraded connection passes reads, writes, flushes and closes on to the one it wraps.",
  over=["schedules", "histories"], q="every order of operations within the bounds",
  why="The tests run one order on an executor: send in a task, then await the receiver.",
  files=["src/trailers.rs", "src/upgrade/sender.rs", "src/upgrade/receiver.rs", "src/upgrade/connection.rs", "src/request.rs", "src/response.rs"],
  mech=[("ends", "send_trailers, recv_trailers, send_upgrade, recv_upgrade"), ("sending", "Sender::send"), ("receiving", "Future for Receiver"), ("connection", "AsyncRead and AsyncWrite for Connection")],
  observe=["poll results", "wake-ups", "received values", "has_trailers", "has_upgrade"]),
 dict(id="C25", title="Status codes, methods and versions convert exactly, both ways",
  statement="Of all numbers exactly the supported registered codes convert to a status, by conversion or deserialization at any width, and each converts back to its number, equals it, prints it with its registered reason and belongs to the class of its hundreds. Of all texts exactly the registered method names, in any case, convert to a method, which prints as its name and is safe as registered; versions are written and read by their text and ordered by age. Messages keep the status, method and version they are given.",
  over=["inputs"], q="every number, and every text within the length bound",
  why="The tests convert a handful of values; tables of 59 codes and 39 methods are not compared, nor numbers outside u16.",
  files=["src/status_code.rs", "src/method.rs", "src/version.rs"],
  mech=[("status", "TryFrom<u16>, canonical_reason, is_*, serde visitor"), ("method", "FromStr, AsRef<str>, is_safe, serde visitor"), ("version", "AsRef<str>, Ord, serde visitor")],
  observe=["conversion results", "text", "JSON", "comparison"]),
 dict(id="C26", title="Errors keep their status, message and cause",
  statement="An error made from a message or another error has exactly the status given, 500 when none was, prints its message, gives back its cause by type and only by that type, and keeps all of this when the type does not match, when the status is changed and when it is converted; a number that is no status panics. The status methods on results and options change nothing on success, asking for the status then not at all, and the macros fail exactly when their condition does.",
  over=["inputs"], q="every status number, message and error within the bounds",
  why="The tests use one status, one message and one error type each.",
  files=["src/error.rs", "src/status.rs", "src/macros.rs"],
  mech=[("errors", "Error::new, from_str, set_status, downcast*, into_inner, From and AsRef impls"), ("statuses", "Status::status, with_status"), ("macros", "bail, ensure, ensure_eq, format_err")],
  observe=["status", "Display", "downcast results", "panics"]),
 dict(id="C27", title="Extensions hold one value per type, whatever the history",
  statement="After any history of inserting, changing, removing and clearing values of several types, looking a type up gives exactly the last value put in and nothing for the others; insertion and removal return the earlier value, and every value is dropped exactly once. Requests and responses keep them, and clones start without.",
  over=["histories"], q="every history within the bounds",
  why="One test inserts two values and removes one.",
  files=["src/extensions.rs", "src/request.rs", "src/response.rs"],
  mech=[("map", "Extensions::insert, get, get_mut, contains, remove, clear"), ("hashing", "IdHasher"), ("messages", "ext, ext_mut, Clone")],
  observe=["returned values", "drops"]),
 dict(id="C28", title="Security headers and content security policies say what was asked for",
  statement="The security defaults leave each of their headers with exactly its documented value, whatever was there, and remove X-Powered-By; frame, referrer and powered-by helpers write the option asked for. A content security policy writes one header, of the name for its mode, that lists every directive called for exactly once with all its sources in order and nothing else, however often it is applied.",
  over=["inputs", "histories"], q="every sequence of calls and sources within the bounds",
  why="The tests apply one policy once and each helper to an empty map.",
  files=["src/security/mod.rs", "src/security/csp.rs"],
  mech=[("helpers", "default, frameguard, powered_by, hsts, nosniff, xss_filter, referrer_policy"), ("policy", "ContentSecurityPolicy::insert_directive, value, apply"), ("sources", "Display and AsRef<str> for Source")],
  observe=["header values"]),
 dict(id="C29", title="Conversions to and from the http crate keep the whole message",
  statement="Converting requests, responses and header maps to the http crate's types and back keeps method or status, version, URL without its fragment, every value of every header in order, and the body, adding at most the body's type when there is none. What this crate cannot represent (values that are not ASCII, unknown methods and statuses, relative URIs) is an error and never a panic or an invalid string.",
  over=["inputs"], q="every name, value, status, method, URL and map within the bounds",
  why="The tests convert one request and one response without headers.",
  files=["src/hyperium_http.rs"],
  mech=[("headers", "TryFrom between Headers and HeaderMap, hyperium_headers_to_headers, headers_to_hyperium_headers"), ("messages", "TryFrom<http::Request>, From<Request>, TryFrom<http::Response>, From<Response>"), ("URL", "from_uri_to_url, from_url_to_uri")],
  observe=["converted messages", "errors"]),
 dict(id="C30", title="Queries set are the queries read, and nothing else of the URL changes",
  statement="Setting a query from a record and reading it gives the same record back, for every text, number, list, map and record nested at most five deep; it replaces the query the URL had and leaves the rest of the URL unchanged. Reading any other query as a type gives a value or an error with status 400, never a panic, with numbers read exactly and without a query everything optional absent.",
  over=["inputs"], q="every value and query text within the bounds",
  why="The tests read and write four fixed queries.",
  files=["src/request.rs"],
  mech=[("reading", "Request::query"), ("writing", "Request::set_query")],
  observe=["URL", "values read", "error status"]),
 dict(id="C31", title="Typed headers are written as one header each and read from the right lines",
  statement="Applying any typed header to a request, response or header map, or inserting it, leaves exactly one value under its own name, whatever was there before in whatever spelling, and nothing else changed; reading gives that header back, and nothing when the header is absent. Where a header is a single value, the last line alone decides what is read; where it is a list, items on one line and on several lines read the same, in order, and every iterator gives its items in order, each once.",
  over=["inputs", "histories"], q="every typed header, earlier values and line within the bounds",
  why="The tests apply each header once to an empty map and read one line.",
  files=["src/headers/header.rs", "src/cache", "src/conditional", "src/content", "src/transfer", "src/auth", "src/other", "src/security", "src/trace", "src/server", "src/proxies"],
  mech=[("applying", "Header::apply_header and its implementations, ToHeaderValues"), ("names", "Header::header_name"), ("reading", "from_headers of each type")],
  observe=["headers of the message", "from_headers"]),
 dict(id="C32", title="Messages keep their parts, each for itself",
  statement="Method, URL, status, version, peer and local address, headers, extensions and body of a request or response are what was last set, whatever else was set before or after and in whatever order. A clone has every part but body and extensions, and the original keeps its own. Each method's constructor makes that method; constructors add nothing else. A text that is no URL and a number that is no status are refused with a panic and any other is taken as it is.",
  over=["inputs", "histories"], q="every order of setters and clones and every value within the bounds",
  why="The tests set one part of one message.",
  files=["src/request.rs", "src/response.rs", "src/extensions.rs"],
  mech=[("request", "Request::new, get, ..., setters, Clone"), ("response", "Response::new, setters, Clone, From"), ("extensions", "ext_mut().insert, get")],
  observe=["every getter of both messages", "IntoIterator of both messages", "panics of the constructors"]),
 dict(id="C33", title="Typed headers have the parts they were given",
  statement="A setter of an authentication header, HSTS, Content-Location, Referer or SourceMap changes its part and no other, whatever was set before; getters and the header written show the parts last set. A location that is no URL is refused and leaves the earlier one. Content-Encoding, Transfer-Encoding, encoding and media type proposals, dates and parameter values are, compare equal to and convert to exactly the encoding, type, instant or text they were made from or assigned, and a proposal assigned another keeps its weight.",
  over=["inputs", "histories"], q="every order of setters and every value within the bounds",
  why="The tests use no setter of these types and no conversion but one.",
  files=["src/auth/authorization.rs", "src/auth/www_authenticate.rs", "src/auth/basic_auth.rs", "src/security/strict_transport_security.rs", "src/content/content_location.rs", "src/content/content_encoding.rs", "src/content/encoding_proposal.rs", "src/content/media_type_proposal.rs", "src/transfer/transfer_encoding.rs", "src/transfer/encoding_proposal.rs", "src/other/referer.rs", "src/other/source_map.rs", "src/other/date.rs", "src/mime/mod.rs"],
  mech=[("setters", "set_scheme, set_credentials, set_realm, set_location, set_max_age, set_include_subdomains, set_preload"), ("wrappers", "Deref, DerefMut, From and PartialEq of the encodings and proposals, ParamValue, Date")],
  observe=["getters", "header texts", "comparisons", "conversions"]),
 dict(id="C34", title="Times relative to now count from the clock",
  statement="Date::now is the time the clock shows and Expires::new(d) is d after it, once and for all. A RetryAfter with a delay lies that delay after the time of asking, one with an instant at that instant whatever the clock shows; duration_since gives the time from the earlier point to it and an error exactly when that point is later. A delay read from a header counts the same, and no number of seconds a header can carry makes this panic.",
  over=["inputs"], q="every time the clock may show and every delay and instant within the bounds",
  why="The tests run at the one time they run at and allow a second's tolerance.",
  files=["src/other/retry_after.rs", "src/other/date.rs", "src/cache/expires.rs"],
  mech=[("delays", "RetryAfter::new, from_headers, duration_since, From<RetryAfter> for SystemTime"), ("now", "Date::now, Expires::new")],
  observe=["instants", "durations", "panics"]),
 dict(id="C20", title="A body made from a file has its bytes, its length and a type guessed from it",
  statement="Body::from_path, from_file and from_file_with_path give a body of exactly the file's length which delivers the file's bytes from the first to the last, wherever the file stood before. The type is the one the first 300 bytes of the file (and nothing else) suggest, else the one the extension of the given path stands for, else application/octet-stream; a message the body is set on shows it. A file that cannot be opened or read gives an error. Several such bodies, chained or swapped, keep to their own file.",
  over=["inputs", "schedules"], q="every file content, name and order of readiness within the bounds",
  why="The tests make two bodies from two files of the repository.",
  files=["src/body.rs", "src/mime/mod.rs"],
  mech=[("constructors", "Body::from_path, from_file, from_file_with_path, peek_mime, guess_ext"), ("tables", "Mime::sniff, Mime::from_extension")],
  observe=["bytes delivered", "length", "type", "errors"]),
 dict(id="C35", title="Printing for debugging shows the parts, never panics and changes nothing",
  statement="Every public type can be printed with {:?} and {:#?} without panicking. Header names and values print as their texts do, several values of a name as the list of them, a header map and the messages that have it with every name and its values, a list header as the list of its entries in order, Content-Encoding and Transfer-Encoding as their encoding, an error and a status with their text and number. Printing a body or message shows the body's length but reads nothing of it, whatever was read before.",
  over=["inputs", "histories"], q="every text, list and body within the bounds",
  why="The tests print a handful of values.",
  files=["src/headers/header_name.rs", "src/headers/header_value.rs", "src/headers/header_values.rs", "src/headers/headers.rs", "src/body.rs", "src/error.rs", "src/request.rs", "src/response.rs", "src/extensions.rs", "src/upgrade/connection.rs", "src/cache/cache_control/cache_control.rs", "src/content/accept.rs", "src/conditional/vary.rs", "src/transfer/te.rs"],
  mech=[("printing", "Debug and Display of names, values, maps, list headers, bodies, errors and the other public types")],
  observe=["printed texts", "bodies read afterwards"]),
]
