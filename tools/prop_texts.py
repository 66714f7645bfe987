prop("P01", "SSE decoding does not depend on how the stream is cut into chunks",
 """Feeding a server-sent-events text to the parser in any sequence of pieces yields exactly the events, in the same order and with the same fields, that
 feeding it in one piece yields, including when a cut falls inside a line or between the two characters of a line ending. Each event equals what the SSE grammar
 prescribes for its block (lines end in LF or CRLF): data lines joined by one newline, the last event name, the most recent id of the stream, a decimal retry value, comments and unknown fields ignored, one leading
 space after the colon removed, blocks without data producing nothing. No input makes the parser panic or lose text that has not been terminated yet, and a reset drops everything pending but keeps the last id.""",
 ["inputs", "histories"], "every text, every way of splitting it into str chunks, every sequence of feed calls",
 "unit tests feed a handful of fixed chunks; the claim ranges over every split of every stream",
 ["src/shared/sse_parser.rs"], [("SseParser::feed", "src/shared/sse_parser.rs"), ("SseParser::process_line", "src/shared/sse_parser.rs"), ("SseParser::process_field", "src/shared/sse_parser.rs")],
 level_note="Every function of the parser is verified against a recursive specification of the SSE grammar; chunk independence is a lemma over that contract.")
prop("P02", "Encoding an SSE event and decoding it returns the same event",
 """For every server-sent event whose id and name contain no line break, whose id contains no NUL and whose data contains no carriage return, the text form of the event parses
 back to exactly one event with the same name, data (including empty lines and leading spaces), retry value and id. Any number of such events written one after the other decode to the same
 sequence of events, where an event without an id carries the most recent id of the stream.""",
 ["inputs", "histories"], "every event within the stated domain and every sequence of such events",
 "tests print one or two fixed events; round trip ranges over all field contents",
 ["src/shared/sse_parser.rs"], [("impl Display for SseEvent", "src/shared/sse_parser.rs"), ("SseParser::feed", "src/shared/sse_parser.rs")],
 level_note="The formatter is verified to produce the specified text; the round trip is a lemma over the formatter's and the parser's contracts.")
prop("P16", "Retries and circuit breakers bound and order attempts exactly as configured",
 """A circuit breaker opens after exactly the configured number of consecutive failures, admits no call while open until its timeout has passed, then lets calls through on trial,
 closes after the configured number of successes and reopens on any failure meanwhile. Retry helpers call the operation at most the configured number of times,
 stop at the first success and return it, wait the configured delay (exponential: growing by the multiplier up to the maximum) only between attempts, and otherwise return the last error.
 The recovery executor runs the operation once, counts a success for that operation's breaker if it has one and, on failure, applies the strategy configured for that error's code or else the default one: nothing for fail-fast, the handler registered under
 that name for fallback, and no further attempt through a breaker that refuses it.""",
 ["histories", "inputs", "fault_sequences", "configurations"], "every configuration, every sequence of outcomes of the operation, every sequence of breaker calls",
 "unit tests run a few fixed outcome sequences; thresholds and interleavings of success/failure are unbounded",
 ["src/error/recovery.rs", "src/error/mod.rs"], [("CircuitBreaker::{allow_request,record_success,record_failure}", "src/error/recovery.rs"), ("with_retry", "src/error/recovery.rs"), ("RecoveryExecutor::execute_with_recovery", "src/error/recovery.rs"), ("RecoveryPolicy", "src/error/recovery.rs")],
 level_note="The breaker is proved to refine a three-state machine; retries are proved over a ghost log of operation calls and sleeps. The clock is an arbitrary oracle; sequential view of the locks.")
prop("P17", "Resource subscriptions are exactly the ones made and not undone",
 """At any time a client is subscribed to a resource if and only if it subscribed and has not since unsubscribed from it or from everything; every query (subscribers of a resource, resources of a
 client, whether anyone is subscribed) answers exactly that relation, without duplicates, and no operation for one client or resource affects another's. Announcing an update of a resource sends exactly one update notification
 naming that resource when it has subscribers and a sender is set, sends nothing otherwise, and returns the number of its subscribers.""",
 ["histories", "inputs"], "every sequence of subscribe/unsubscribe/unsubscribe-all/notify calls over any clients and resources",
 "unit tests use two clients and three fixed resources; the relation must hold after every history",
 ["src/server/subscriptions.rs"], [("SubscriptionManager", "src/server/subscriptions.rs")],
 level_note="Each operation has a full-view postcondition over the subscription relation. Histories follow by induction over the operations. Statistics (floating point) are outside.")
prop("P03", "The resumable event store keeps and replays the newest events in order",
 """The event store holds the stored events in the order they were stored, never more than its configured number, and drops only from the oldest end (events beyond the number, events older than the maximum age, or
 events cleared up to a time). Asking for the events since an event that is still held returns exactly the later ones, in order, up to the given limit; asking since an unknown event returns all held events; the latest id is that of the newest event.
 A resumption token names the newest event at its creation, unknown tokens are refused, resuming returns exactly the events stored after the named one, and a session numbers its recorded messages consecutively (from 0, or from the token's next number after resuming), keeping session and direction.""",
 ["histories", "inputs", "configurations"], "every sequence of store/clear/query/token/resume calls, every limit, event limit and event age",
 "unit tests store one or two events; order, bound and replay must hold after any history",
 ["src/shared/event_store.rs"], [("InMemoryEventStore", "src/shared/event_store.rs"), ("ResumptionManager", "src/shared/event_store.rs")],
 level_note="Sequence-valued view of the store; the clock is an arbitrary oracle. Token expiry is not enforced by the code and is outside the statement; uniqueness of random identifiers is outside.")
prop("P04", "The HTTP server's event store replays exactly what came later, in order",
 """Replaying after a stored event returns exactly the events stored after it, each with its id and message, in the order they were stored; replaying after an unknown event returns everything stored. Asking which stream an
 event belongs to answers the stream it was stored under, and nothing for an event never stored. Storing an event changes nothing about those already stored, as long as event ids are distinct.""",
 ["histories", "inputs"], "every sequence of store/replay/lookup calls over any streams, ids and messages",
 "tests store a couple of events on one stream; order and completeness of the replay must hold after any history over several streams",
 ["src/server/streamable_http_server.rs"], [("InMemoryEventStore::store_event", "src/server/streamable_http_server.rs"), ("InMemoryEventStore::replay_events_after", "src/server/streamable_http_server.rs"), ("InMemoryEventStore::get_stream_for_event", "src/server/streamable_http_server.rs")],
 level_note="Event ids are random UUIDs in the server; their distinctness is assumed. Sequential view of the store's locks.")
prop("P14", "The HTTP server gates each request by its session and answers it once",
 """With sessions on, an initialize request without a session id creates exactly one session, under a fresh generated id that the answer carries; any other request is served only if it names an existing session, and a session is initialized once.
 Requests with a missing or wrong content type or accept header, an unparsable body, an unsupported protocol version or one other than the session's negotiated one are refused and reach no handler; a served request is handled exactly once, its
 answer goes to the session's open stream or else into the response, which names session and version. Deleting removes exactly that session and its stream; a session has at most one open stream, which replays only that session's own stored events after the given one.""",
 ["histories", "inputs", "configurations"], "every sequence of POST/GET/DELETE requests with any headers and bodies, in every server configuration",
 "tests send a few fixed exchanges; a gate that lets one header combination through or an answer that goes to another session needs a particular history",
 ["src/server/streamable_http_server.rs"], [("handle_post_request", "src/server/streamable_http_server.rs"), ("handle_get_sse", "src/server/streamable_http_server.rs"), ("handle_delete_session", "src/server/streamable_http_server.rs"), ("validate_headers", "src/server/streamable_http_server.rs"), ("process_init_session", "src/server/streamable_http_server.rs"), ("validate_non_init_session", "src/server/streamable_http_server.rs")],
 level_note="Sequential view of the shared maps (two GETs racing for one session are outside); the Server handling the request and the session id generator are arbitrary. Message bodies are in the crate's own TransportMessage form.")
prop("P05", "A response reaches exactly the request it answers",
 """Completing a request id hands the response to the one caller that registered that id last and is still waiting, and to nobody else; the id is then no longer pending, so a second response for it reaches nobody. Number and string ids never
 match one another, completing, cancelling or registering one id leaves every other pending request waiting, and a completion for another transport changes nothing and says so.
 A cancelled request, or one whose id is registered again, is never answered.""",
 ["histories", "inputs"], "every sequence of register/complete/complete-for-transport/cancel calls over any ids and transports",
 "unit tests complete a few fixed ids once; correlation must hold after every history and for every id value",
 ["src/shared/protocol.rs"], [("Protocol::{register_request,complete_request,complete_request_for_transport,cancel_request}", "src/shared/protocol.rs")],
 level_note="Channels are linear values with a prophecy of what is delivered; the map of pending requests is specified exactly by every operation.")
prop("P06", "A batch is answered one to one, in order and under the right ids",
 """Processing a list of requests (directly, as a batch, or through the batch processor) calls the handler exactly once per request and returns exactly as many responses as requests, the i-th response being what the handler answered to the i-th request,
 whatever order the handlers finish in; a batch handed to a server is answered entry by entry as if each had been sent alone, an entry that denotes no request with an error under its own id. A request that exceeds the configured time limit is answered with an error carrying that request's own id, and does not change the other answers; an empty batch gives no responses.
 With a concurrency limit of at least one, no more handlers than the limit run at once, and the processor's counters grow by exactly the number of requests, of successful and of failed responses.""",
 ["inputs", "schedules", "configurations"], "every list of requests, every handler behaviour, every configuration with a positive concurrency limit",
 "unit tests run two or three requests with fixed delays; order and ids must survive every completion order and timeout",
 ["src/utils/parallel_batch.rs", "src/shared/batch.rs", "src/server/batch.rs"], [("process_batch_parallel", "src/utils/parallel_batch.rs"), ("Server::handle_batch_request", "src/server/batch.rs"), ("BatchProcessor::process", "src/utils/parallel_batch.rs"), ("process_batch_request", "src/shared/batch.rs")],
 level_note="Proved over a ghost log of handler calls in the sequential view; the concurrency limit itself is the semaphore's contract and is only exercised by the bounded harness.")
prop("P07", "A JSON-RPC envelope is what its members say",
 """A raw message is classified by which of id, method, result and error are present: exactly one of request, notification, success response and error response, and invalid for every other
 combination. Responses carry the id they were built for, version 2.0, and either a result or an error, never both, with the accessors agreeing on which; requests and notifications carry the given id, method
 and parameters, and a request validates exactly when its version is 2.0. Numeric ids keep their value (unsigned ones above the signed range saturate) and textual ids stay text.""",
 ["inputs"], "all combinations of members, all ids, methods, payloads and versions",
 "tests look at a few envelopes; the classification ranges over all sixteen combinations and all values",
 ["src/types/jsonrpc.rs"], [("RawMessage::message_type", "src/types/jsonrpc.rs"), ("JSONRPCResponse::success", "src/types/jsonrpc.rs"), ("JSONRPCRequest::validate", "src/types/jsonrpc.rs")])
prop("P08", "Every protocol message survives being written as JSON-RPC and read back",
 """A request built from a typed client or server request carries the given id and the protocol's method name for that kind, and parsing it returns the same id and the same typed request with the same
 parameters; the same holds for notifications. Where one method name serves both directions, parsing chooses the client form (sampling/createMessage, roots list changed) or the progress and cancellation forms
 for those notifications. A request whose method and parameters fit no kind is refused with method-not-found.""",
 ["inputs"], "every variant of every message enum with every payload, every method name and every parameter value",
 "tests cover some variants; a variant whose writer and reader disagree is only seen by trying that variant",
 ["src/shared/protocol_helpers.rs", "src/types/protocol.rs"], [("parse_request", "src/shared/protocol_helpers.rs"), ("create_request", "src/shared/protocol_helpers.rs"), ("parse_notification", "src/shared/protocol_helpers.rs"), ("create_notification", "src/shared/protocol_helpers.rs")],
 level_note="The readers' contracts are generated from the serde attributes in the source; round trip and disjointness of the method names are lemmas.")
prop("P09", "Errors keep their code, message and data across the wire",
 """Converting an error to its JSON-RPC form keeps code, message and data of a protocol error and gives every other error the code -32603 with its text as message. Reading a JSON-RPC error back yields a protocol
 error with the same message and data and the same code, except that codes of the server range (-32099 to -32000) other than the named ones read as -32603. Each named constructor produces the code of its name and the message it is given.""",
 ["inputs"], "every error value, every 32-bit code, every message and data",
 "tests look at a dozen codes out of 2^32",
 ["src/error/mod.rs", "src/types/jsonrpc.rs"], [("ErrorCode::from_i32", "src/error/mod.rs"), ("Error::from_jsonrpc_error", "src/error/mod.rs"), ("From<Error> for JSONRPCError", "src/types/jsonrpc.rs")])
prop("P19", "Cancelling a request reaches that request's handler and nothing else",
 """A cancellation token created for a request id is the one later looked up, queried and cancelled under that id. Cancelling an id with a live token cancels exactly that token, forgets the id and sends exactly one
 cancelled notification carrying that id and the given reason (a default one if none); cancelling an unknown or finished id changes nothing and sends nothing. Removing a token forgets only that id without cancelling,
 and clearing cancels every live token and forgets them all.""",
 ["inputs", "histories"], "every sequence of create, cancel, remove and clear calls over all request ids and reasons",
 "tests cancel one request; a token cancelled under another id or left alive shows only in longer histories",
 ["src/server/cancellation.rs"], [("CancellationManager::cancel_request", "src/server/cancellation.rs"), ("CancellationManager::clear", "src/server/cancellation.rs"), ("RequestHandlerExtra::is_cancelled", "src/server/cancellation.rs")],
 level_note="Which tokens cancel() is called on is a ghost log; each call is one step of an arbitrary history.")
prop("P10", "Sessions exist within the limit, until they expire, and only as themselves",
 """A session is created only while fewer than the maximum exist, with a random id, unauthenticated, expiring one timeout after creation; looking up, updating, authenticating or destroying an id affects exactly that
 session, and only its time of last activity moves otherwise. Validation and the HTTP middleware accept exactly the sessions that exist and have not expired, an expired one being destroyed; cleanup removes exactly
 the expired ones, and each creation, destruction and expiry is reported to its callback exactly once. The id is taken from the mcp-session-id cookie first and the X-Session-ID header otherwise.""",
 ["inputs", "histories", "configurations"], "all call sequences, limits, timeouts, ids and header maps",
 "tests create two sessions; leaking another session's state or outliving expiry needs a particular history",
 ["src/shared/session.rs"], [("SessionManager::create_session", "src/shared/session.rs"), ("SessionManager::validate_session", "src/shared/session.rs"), ("SessionManager::cleanup_expired", "src/shared/session.rs"), ("extract_session_id", "src/shared/session.rs"), ("SessionMiddleware::process", "src/shared/session.rs")],
 level_note="Each call is one contract over the map of sessions in the sequential view; the clock is any present instant.")
prop("P11", "An authorization code works once, for its own client, before it expires",
 """Exchanging a code yields a token only if the code exists, has not expired and the request presents the client and redirect URI it was issued for, plus, when a challenge was recorded, a verifier matching it under the
 recorded method (plain by default, S256 by hash); the token is then for exactly the code's client, user and scopes. Any attempt to exchange a code spends it, and a refused attempt issues nothing. An authorization request is
 allowed exactly for a registered client, one of its redirect URIs and response types, and supported scopes; registering stores the client as given with missing credentials generated.""",
 ["inputs", "histories"], "every request, code binding, challenge, method and history of issuing, exchanging and time passing",
 "tests exchange one good code; each binding can be dropped without any test noticing",
 ["src/server/auth/oauth2.rs"], [("InMemoryOAuthProvider::exchange_code", "src/server/auth/oauth2.rs"), ("InMemoryOAuthProvider::verify_pkce", "src/server/auth/oauth2.rs"), ("InMemoryOAuthProvider::validate_authorization", "src/server/auth/oauth2.rs")],
 level_note="Sequential view of the provider's maps; hash and randomness abstract.")
prop("P12", "Access and refresh tokens are valid exactly until expiry, refresh or revocation",
 """An issued access token validates to its own client, user and scopes until its lifetime has passed or it is revoked or refreshed, and unknown tokens never validate. A refresh token works once and only while its access
 token has not been revoked: it replaces that access token and itself by a new pair for the same client, user and scopes, and a refused refresh changes nothing. Revoking an access token removes just it, revoking a refresh token
 removes it and its access token, and neither touches any other token.""",
 ["inputs", "histories"], "every history of issuing, refreshing, revoking, validating and time passing",
 "tests validate one token; a token that survives revocation or crosses users needs a longer history",
 ["src/server/auth/oauth2.rs"], [("InMemoryOAuthProvider::refresh_token", "src/server/auth/oauth2.rs"), ("InMemoryOAuthProvider::revoke_token", "src/server/auth/oauth2.rs"), ("InMemoryOAuthProvider::validate_token", "src/server/auth/oauth2.rs"), ("InMemoryOAuthProvider::create_access_token", "src/server/auth/oauth2.rs")],
 level_note="Sequential view of the provider's maps; two simultaneous refreshes are outside.")
prop("P13", "Authentication lets in exactly the callers who prove themselves",
 """Bearer authentication admits a caller exactly when the scheme is bearer and the provider validates the token, as exactly that token's client, user and scopes; without credentials it admits nobody when required and an anonymous
 caller without scopes otherwise; client credentials admit exactly a registered client presenting its own secret. A scope check passes on the inner decision only when all (or any) of the required scopes are among the caller's, and never
 changes who the caller is. A composite admits the caller of the first middleware that accepts, and otherwise refuses with the last error, or admits an anonymous caller only when none is required.""",
 ["inputs", "configurations"], "every credential, token provider, inner middleware and scope list",
 "tests try one token and one scope; a bypass needs a particular combination of scheme, credentials and configuration",
 ["src/server/auth/middleware.rs", "src/types/auth.rs"], [("BearerTokenMiddleware::authenticate", "src/server/auth/middleware.rs"), ("ClientCredentialsMiddleware::authenticate", "src/server/auth/middleware.rs"), ("ScopeMiddleware::authenticate", "src/server/auth/middleware.rs"), ("CompositeMiddleware::authenticate", "src/server/auth/middleware.rs")],
 level_note="The token provider and inner middlewares are arbitrary (uninterpreted) functions of what they are asked.")
prop("P25", "The server answers every request once, from the right handler",
 """Every request a server receives is answered by exactly one response, carrying that request's id, and notifications and responses are not answered. A call of a registered tool or prompt, a resource read or list and a sampling
 request run exactly one handler, the one registered (last) under that name, once, with that request's arguments and a context naming that request, and the answer is that handler's result, or an error with its message; what is not
 registered is an error and runs nothing. Listings name exactly what is registered, initialize records the client's capabilities and answers with the configured name, version and capabilities and the requested protocol version if it is supported, and a server is built only with a name and a version.""",
 ["inputs", "configurations", "histories"], "every registration, every request, every handler outcome and every sequence of messages",
 "tests call one tool; an answer under the wrong id, a handler run twice or the wrong handler's answer needs particular names, ids and failures",
 ["src/server/mod.rs", "src/server/cancellation.rs"], [("Server::handle_transport_message", "src/server/mod.rs"), ("Server::handle_request", "src/server/mod.rs"), ("Server::process_client_request", "src/server/mod.rs"), ("Server::handle_call_tool", "src/server/mod.rs"), ("ServerBuilder::build", "src/server/mod.rs")],
 level_note="Handlers are arbitrary (uninterpreted) functions recorded in a ghost log.")
prop("P27", "The stdio transport frames messages exactly",
 """Sending a message writes exactly `Content-Length: `, the number of bytes of its JSON, two line breaks and that JSON, flushed, after all that was sent before; on a closed transport it writes nothing and fails. Receiving reads header lines
up to a blank one and then exactly as many bytes as the last valid Content-Length header says, delivers the message those bytes stand for and leaves what follows for the next call; a missing length or a body which is no message is an
invalid-message error that leaves the stream at the next message, a body cut short (whatever length was announced) is an I/O error and no panic, and the end of the input closes the transport.""",
 ["inputs", "histories"], "every byte stream on standard input, every header block and length, every message sent",
 "tests parse one header and never run the transport over a stream; a lost byte between messages, a wrong length or a panic needs particular bytes",
 ["src/shared/stdio.rs"], [("StdioTransport::send", "src/shared/stdio.rs"), ("StdioTransport::receive", "src/shared/stdio.rs"), ("StdioTransport::read_headers", "src/shared/stdio.rs"), ("StdioTransport::read_message_body", "src/shared/stdio.rs"), ("StdioTransport::parse_message", "src/shared/stdio.rs")],
 level_note="Input that is not UTF-8 in header lines is an I/O error whose effect on the stream is left open.")
prop("P20", "The HTTP client transport sends and delivers exactly what it should",
 """Every request to the server goes to the configured URL with the configured headers, a fresh bearer token when there is a provider (a failing provider fails the call and nothing is sent), the current session id and protocol version, and,
for a message, its JSON with the JSON content type; the session id and version an answer names are used from then on, and close ends the session with one DELETE. A JSON answer delivers its message, or each message of its array, in order; an event
stream delivers the message of every event of type `message` or none, in order, and every event id becomes the last one and is told to the callback; a failed request, failing status, unreadable JSON or unknown content type is an error that delivers nothing.""",
 ["inputs", "configurations", "histories"], "every configuration, message, token, answer (status, headers, body) and sequence of calls",
 "tests set fields and build transports without a server; a lost header, a stale session or a dropped message needs particular answers and sequences",
 ["src/shared/streamable_http.rs"], [("StreamableHttpTransport::send_with_options", "src/shared/streamable_http.rs"), ("StreamableHttpTransport::start_sse", "src/shared/streamable_http.rs"), ("StreamableHttpTransport::build_request", "src/shared/streamable_http.rs"), ("StreamableHttpTransport::process_response_headers", "src/shared/streamable_http.rs"), ("StreamableHttpTransport::close", "src/shared/streamable_http.rs")],
 level_note="Concurrent use of one transport, and when a stream's events arrive while its body is still open, are outside.")
prop("P28", "URI templates expand as RFC 6570 prescribes",
 """Expanding a template copies its literal text and replaces every braced expression with the RFC 6570 expansion of its defined string variables: the operator's prefix, separator and names, the first n characters for `:n`, percent-encoding of every byte
but unreserved ones (and, for `+` and `#`, reserved ones and percent-encoded triplets), and nothing when none is defined. A template is refused exactly when an expression has an empty or ill-named variable or a prefix length that is not a number from 1 to 10000.
`variables` lists the variable names of all expressions in order.""",
 ["inputs"], "every template text and every assignment of string values",
 "tests expand a few templates with ASCII values; a wrong separator, a byte-wise prefix or a reserved character left bare needs particular operators and values",
 ["src/shared/uri_template.rs"], [("UriTemplate::parse_template", "src/shared/uri_template.rs"), ("UriTemplate::parse_expression", "src/shared/uri_template.rs"), ("UriTemplate::parse_var_spec", "src/shared/uri_template.rs"), ("UriTemplate::expand_multiple", "src/shared/uri_template.rs"), ("UriTemplate::encode_value", "src/shared/uri_template.rs")],
 level_note="`match_uri` (regular-expression semantics) is outside; list and map values do not exist in this API.")
prop("P34", "SIMD routines give what their scalar meaning says",
 """For every input of any length and alignment, the vectorised scans return exactly the positions of white space (quotes and backslashes), UTF-8 validation accepts exactly well-formed UTF-8, copying, base64 encoding, masking with a repeated 4-byte mask,
run-length encoding (runs of at most 255), byte sums modulo 2^32 and length checks (at most the maximum) give the byte-by-byte result, and a search returns the first occurrence of a non-empty pattern or none. None of them reads or writes outside the given buffers, panics or
runs on for ever.""",
 ["inputs"], "every byte string, mask, pattern and list of lengths; the lanes of every 32-byte block",
 "tests try short texts without a match in the last byte of a block, and no malformed or block-straddling UTF-8",
 ["src/simd/mod.rs"], [("find_whitespace_simd", "src/simd/mod.rs"), ("find_escapes_simd", "src/simd/mod.rs"), ("validate_utf8_simd", "src/simd/mod.rs"), ("base64_encode_simd", "src/simd/mod.rs"), ("xor_mask_simd", "src/simd/mod.rs"), ("rle_encode_simd", "src/simd/mod.rs"), ("find_pattern_simd", "src/simd/mod.rs"), ("batch_validate_lengths", "src/simd/mod.rs"), ("batch_checksum_simd", "src/simd/mod.rs")],
 level_note="The AVX2 intrinsics carry contracts from Intel's definitions (trusted); raw-pointer loads and stores become bounds-checked ones.")
prop("P35", "Fast JSON reads and writes what serde_json does",
 """For every byte string, fast parsing gives a JSON value exactly when serde_json does, and the same one; anything that is not UTF-8 is refused. A batch gives each input's own result in the inputs' order, and fast serialization gives serde_json's bytes.
Pretty printing a value never fails when it can be serialized and changes nothing of its compact text but white space outside strings.""",
 ["inputs"], "every byte string, batch and JSON value, on CPUs with and without AVX2",
 "tests parse a few small ASCII documents; joined tokens, damaged strings and mangled characters need white space, escapes or non-ASCII text in particular places",
 ["src/utils/json_simd.rs"], [("parse_json_fast", "src/utils/json_simd.rs"), ("serialize_json_fast", "src/utils/json_simd.rs"), ("parse_json_batch", "src/utils/json_simd.rs"), ("pretty_print_fast", "src/utils/json_simd.rs")],
 level_note="The vectorised scans are used through the contracts P34 proves; what serde_json reads is uninterpreted except that runs of white space outside strings count as one space.")
prop("P32", "Trace context survives being sent in headers",
 """A request context written to headers and read back keeps a UUID trace id, the user, the session and every baggage item, keeps the request id except that text which reads as a 64-bit integer comes back as that number, and names the first sixteen hex digits of the sender's span as its parent under a new span of its own; headers without a traceparent of at least four dash-separated fields give no context.
Reading any header map and writing any context never panics.
A child context keeps everything of its parent but has a new span id and names the parent's span as its parent.""",
 ["inputs"], "every context, header map and identifier text",
 "tests send one context with UUIDs and a numeric id; panics and lost ids need short, non-hex or multi-byte identifiers, textual request ids or several baggage items",
 ["src/shared/context.rs"], [("RequestContext::to_headers", "src/shared/context.rs"), ("RequestContext::from_headers", "src/shared/context.rs"), ("RequestContext::child", "src/shared/context.rs"), ("ContextPropagator", "src/shared/context.rs")],
 level_note="The task-local current context is outside.")
prop("P22", "HTTP transport delivers exactly what the server answers or streams",
 """Sending a message posts exactly that message with every configured header to the configured address; status 200 with a readable message in the body delivers that message and nothing else, anything else is an error that delivers nothing, and an expired wait is an error naming the configured time in milliseconds.
Connecting sends one GET with every configured header to the joined address and then delivers, in order and exactly once, every readable message of the event stream up to where it ends or breaks, however its bytes are cut into pieces; without an event stream endpoint it sends nothing and is connected.
A new, a closed and a disconnected transport report that they are not connected.""",
 ["inputs", "history"], "every configuration, message, answer, event stream and cutting of it into pieces",
 "tests only build the transport; lost headers, damaged characters and wrong outcomes need particular headers, statuses, chunk boundaries or timeouts",
 ["src/shared/http.rs"], [("HttpTransport::send_request", "src/shared/http.rs"), ("HttpTransport::connect_sse", "src/shared/http.rs"), ("HttpTransport::receive", "src/shared/http.rs")],
 level_note="The event stream task is verified as run to its end; what happens between it and other calls, and a full message queue, are outside.")
prop("P21", "Client batching and debouncing lose, repeat and reorder nothing",
 """Every notification given to a message batcher is received exactly once and in order: a batch is sent as soon as the configured number is waiting and never before without the timer, whose every tick sends all that is waiting as one batch if there is any, for as long as the batcher lives and also with a zero wait.
A message debouncer sends, for each key, only the latest notification, once, after that key was quiet for its own or else the default wait.
Flushing it returns exactly the latest notifications not sent yet, also when the queue to the receiver is full, and none of them is sent afterwards.""",
 ["inputs", "history", "schedules"], "every configuration, sequence of notifications, flushes and timer ticks, and every point at which a timer task may be aborted",
 "tests send one batch and one debounced pair; losses need a full queue, an abort at a particular wait or an unusual configuration",
 ["src/utils/batching.rs"], [("MessageBatcher::add", "src/utils/batching.rs"), ("MessageBatcher::start_timer", "src/utils/batching.rs"), ("MessageDebouncer::add", "src/utils/batching.rs"), ("MessageDebouncer::flush", "src/utils/batching.rs")],
 level_note="Locks are seen by one caller at a time; the order of batches when a tick and a full batch coincide on different threads is outside.")
prop("P33", "Server notification debouncing and batching lose and repeat nothing",
 """A notification given to the server's debouncer joins the pending group of what it is about (its kind, and its progress token or resource URI): with merging on a group is its first notification followed by the later ones in order, up to max_batch_size of them, with merging off it is the latest one alone; once started, the debouncer sends a whole group, once, at a tick at which the interval set for it (for its key, else its type, else the default) has passed since the last submission or max_wait_time since the first, and at no tick before.
Flushing, and the end of its task once stop was called, sends every group still pending, whole and once.
The notification batcher sends the notifications of each group in the order added, each in exactly one batch: at once when max_batch_size are held, otherwise after the timeout or when flushed, and never an empty batch.""",
 ["inputs", "history", "schedules"], "every configuration, sequence of submissions, ticks, flushes and stops, and every moment",
 "tests submit one or two notifications of one kind; losses and repeats need groups that collide, an interval set per type, or flushing twice",
 ["src/server/notification_debouncer.rs"], [("NotificationDebouncer::submit", "src/server/notification_debouncer.rs"), ("flush_pending", "src/server/notification_debouncer.rs"), ("NotificationBatcher::add", "src/server/notification_debouncer.rs"), ("flush_all", "src/server/notification_debouncer.rs")],
 level_note="Locks are seen by one caller at a time; with merging on, submissions beyond max_batch_size are dropped by design; statistics are outside.")
prop("P23", "Discovery retries only as told; token requests carry exactly what was given",
 """Discovering an issuer asks for the well-known document under the issuer URL without trailing slashes: a request that gets no answer is repeated after the retry delay, at most max_retries times, an answer of another status than success is never asked for again, and the result is the document of the last answer or an error.
Exchanging a code and refreshing a token each send exactly one form to the token endpoint, with the grant's parameters exactly as given and the optional one only if given; the client secret travels only as basic authentication of the client id, and only if there is one.
A token comes only from an answer of success that can be read as one, as it says; everything else is an error.""",
 ["inputs", "history"], "every issuer, retry setting, parameter and sequence of answers and failures",
 "no test contacts a server: the number of attempts, what is sent and which answers count are untested",
 ["src/client/auth.rs"], [("OidcDiscoveryClient::discover", "src/client/auth.rs"), ("OidcDiscoveryClient::should_retry", "src/client/auth.rs"), ("TokenExchangeClient::exchange_code", "src/client/auth.rs"), ("TokenExchangeClient::refresh_token", "src/client/auth.rs")],
 level_note="Failures other than these (an unreadable document) are repeated only when their text names a CORS, network, connection or timeout problem.")
prop("P26", "The resource watcher announces the listed files that changed, and only those",
 """A change noticed below the watched directory counts for a file whose path relative to it matches no ignore pattern and at least one pattern, when the file was created, modified or removed (reading it does not count); the file is announced as an updated resource, once, at the first tick at which the debounce time has passed since the last such change, exactly if the URI file:// followed by its path is then a listed resource, and nothing else is ever announced.
Listed are the resources added and not removed since, the last one added for each URI, at most max_resources of them: beyond that only URIs already listed are taken.
Once stopped, later changes are not noticed; a watcher built without a base directory is refused, and one that is built watches with exactly the patterns, ignore patterns and debounce time given, on top of the defaults.""",
 ["inputs", "history", "schedules"], "every configuration, set of resources, sequence of file changes, ticks, additions, removals and stops",
 "tests build a watcher and add a resource; what is announced depends on patterns, timing and what is listed at that moment",
 ["src/server/resource_watcher.rs"], [("process_events", "src/server/resource_watcher.rs"), ("ResourceWatcher::watch_filesystem", "src/server/resource_watcher.rs"), ("ResourceWatcher::matches_patterns", "src/server/resource_watcher.rs"), ("ResourceWatcher::add_resource", "src/server/resource_watcher.rs")],
 level_note="Locks are seen by one caller at a time; what the operating system reports as a change, path handling and glob matching are trusted; more than a thousand changes waiting at once are dropped.")
prop("P36", "A WebSocket carries each message once, in order, within the set limits",
 """Over a WebSocket, each text frame read that is a message is delivered, once and in order, and every other frame is skipped (the server answers each ping with its payload), until the peer closes, the connection fails or nobody receives any more; each message sent on a connection goes out as one text frame holding its JSON form, in order.
A server serves the connection it accepted last, under its configured limits on message and frame size, and sending or receiving without a connection is an error.
A client that connects tries again after each failure until it succeeds or its attempts are used up, waiting first as configured and then twice as long each time up to the maximum; it pings at the configured interval, and sending fails when it is not connected.""",
 ["inputs", "history", "schedules"], "every sequence of frames, messages, connections, failures and configured limits",
 "tests build the transports and check their defaults; what arrives depends on the frames of a whole connection and on the order in which its tasks are served",
 ["src/server/transport/websocket.rs", "src/shared/websocket.rs"], [("WebSocketServerTransport::accept", "src/server/transport/websocket.rs"), ("WebSocketServerTransport::send", "src/server/transport/websocket.rs"), ("WebSocketTransport::connect_with_retry", "src/shared/websocket.rs"), ("WebSocketTransport::connect_once", "src/shared/websocket.rs")],
 level_note="The tasks of a connection are verified one by one, as functions of what they capture; which task runs when is left open. That a client's own messages reach the wire does not hold on the unchanged tree: a known finding. What frames tungstenite reads and writes is trusted.")
prop("P37", "Completions, questions and capability sets say exactly what was asked for",
 """A fixed list offers, in its order, exactly the items whose value or label begins with what was typed.
A file provider offers, sorted by value, exactly the entries of the directory the typed path names (a relative one below its base directory) whose name begins with the last part of that path and which are directories or have one of the extensions set, each as the typed path completed by its name, and nothing when that directory cannot be read.
An argument, a question to the user and a capability set built with the builders and constructors hold exactly what was last set on them, and a capability set says it supports exactly what it holds.""",
 ["inputs", "history"], "every list, directory, typed text and sequence of builder calls",
 "tests build a few arguments and questions and complete one prefix; names, extensions and paths of other shapes are not tried",
 ["src/types/completable.rs", "src/types/elicitation.rs", "src/types/capabilities.rs"], [("StaticCompletionProvider::complete", "src/types/completable.rs"), ("FileCompletionProvider::complete", "src/types/completable.rs"), ("ElicitInputBuilder::required", "src/types/elicitation.rs"), ("ClientCapabilities::full", "src/types/capabilities.rs")],
 level_note="The file system and std::path are trusted; entries whose name is not UTF-8 are not offered. How the types are written as JSON is P08's.")
prop("P38", "A running server answers what it receives one by one, in order",
 """A running server puts every request it receives to its handlers in the order of arrival, one after the other, sends exactly one response for it before it receives again and nothing for responses and notifications, until receiving or sending fails, after which it receives nothing more.
Every notification queued while it runs is sent, in order, over the same transport, also after one that could not be sent, and changes of roots and resources are announced over that queue.
The server's own methods refuse an empty URI, client or request id without any effect and otherwise do exactly what was asked of the root list, the subscriptions and the cancellation of requests.""",
 ["schedules", "history"], "every sequence of received messages and queued notifications, every failure of the transport, every sequence of method calls",
 "tests run a server on one or two messages; order, one answer per request and the end after a failure are over every sequence",
 ["src/server/mod.rs"], [("Server::spawn_message_handler", "src/server/mod.rs"), ("Server::spawn_notification_handler", "src/server/mod.rs"), ("Server::handle_transport_message", "src/server/mod.rs"), ("Server::run", "src/server/mod.rs"), ("Server::subscribe_resource", "src/server/mod.rs")],
 level_note="The tasks are verified one by one; what each answer holds is P25's, what the managers do P17's, P18's and P19's. While the server waits for a message it holds the transport, so a notification goes out when the next message has arrived (outside).")
prop("P39", "Matching a URI gives each variable the text in its place",
 """A URI matches a template exactly when it is, from first to last character, the template's literals in order and, where an expression stands, its prefix (`#`, `.`, `/`, `;name=`, `?name=` or `&name=`; none for an expression of several variables) followed by a non-empty piece without the characters that end such a piece: `/`, and instead `.` for labels, `;` and `&` for path parameters, `&` for queries, a line break for fragments and expressions of several variables.
The result gives the variable of every one-variable expression exactly the piece in its place (of a repeated name, the last one) and names nothing else.
Where a URI can be read in several ways, the result is one of them.""",
 ["inputs"], "every template and every URI",
 "tests match a few templates of one or two plain variables; a shifted piece or an unescaped literal needs a particular mix of expressions and characters",
 ["src/shared/uri_template.rs"], [("UriTemplate::match_uri", "src/shared/uri_template.rs"), ("UriTemplate::to_regex_pattern", "src/shared/uri_template.rs"), ("UriTemplate::get_var_name", "src/shared/uri_template.rs")],
 level_note="The regex crate is assumed to match the texts built here as documented; the check's search for failing inputs runs the real crate. Which of several readings is taken is left open.")
prop("P18", "The root list is exactly what was registered and not taken back",
 """A root is registered exactly when its URI starts with file://; it is then listed last, with its name, and every other registration keeps its place; a refused registration changes nothing. The function a registration returns
 removes one registration of that URI, and nothing else, and does nothing when none is left. Each change is announced by exactly one list-changed notification; the client's roots are asked for exactly once and passed on as it gave them, or an error.""",
 ["inputs", "histories"], "every sequence of registering and taking back, also of the same URI",
 "tests register two roots and remove one; a wrong removal or a lost announcement needs duplicates and a particular order",
 ["src/server/roots.rs"], [("RootsManager::register_root", "src/server/roots.rs"), ("RootsManager::get_roots", "src/server/roots.rs"), ("RootsManager::request_client_roots", "src/server/roots.rs")],
 level_note="The returned closure is verified as a function over its captures; its spawned task is taken to run. Which of several registrations of one URI is removed is left open.")
prop("P15", "Reconnection makes only the attempts it may make, and no fewer",
 """No attempt is made while reconnection is disabled, connected or already trying; behind an open breaker only after its timeout, and otherwise exactly while retries are left. A run ends with the first success, or with the last attempt's
 error (or a refusal) only when no attempt is allowed any more; every attempt after the first follows a wait of the configured exponential backoff, limited and jittered, and at most max_retries less the failures already counted are made (or
 the one trial behind a closing breaker). The breaker opens exactly when failures in a row reach its threshold; counters, state and callbacks follow each event exactly.""",
 ["inputs", "histories"], "every configuration, every history of connection events and every sequence of outcomes",
 "tests try a few failures; an attempt too many, a counter not reset or a breaker off by one needs a particular history",
 ["src/shared/reconnect.rs"], [("ReconnectManager::should_reconnect", "src/shared/reconnect.rs"), ("ReconnectManager::reconnect_with", "src/shared/reconnect.rs"), ("ReconnectManager::on_connection_failed", "src/shared/reconnect.rs"), ("ReconnectManager::calculate_delay", "src/shared/reconnect.rs")],
 level_note="Sequential view; floating point uninterpreted; the number of failures is assumed below 2^32.")
prop("P24", "A client sends only what was negotiated and reports what came back",
 """Before a successful initialize, and for anything the server did not declare, a client method fails with the matching error and sends nothing; otherwise it sends exactly one request, with a fresh id and the caller's arguments, and its
 outcome is decided by the next message received: the decoded result, the server's error with its code, message and data, or a transport or parse error. Initialize succeeds at most once, only for an answer naming a supported protocol version, and then
 records exactly what the server declared and sends the initialized notification; a failed one records nothing. Cancelling, progress and changed roots send exactly their one notification.""",
 ["inputs", "histories"], "every sequence of calls, every set of declared capabilities and every behaviour of the peer",
 "tests answer a few requests with fixed messages; a missing gate, a swallowed error or a wrong argument needs a particular capability set, call and reply",
 ["src/client/mod.rs", "src/error/mod.rs"], [("Client::initialize", "src/client/mod.rs"), ("Client::assert_capability", "src/client/mod.rs"), ("Client::send_request", "src/client/mod.rs"), ("Client::call_tool", "src/client/mod.rs"), ("Client::subscribe_resource", "src/client/mod.rs")],
 level_note="Responses are taken in the order received; the code does not compare their ids, and neither does the property.")
prop("P29", "A middleware chain runs every member once, in order, up to a failure",
 """Processing a request, response, outgoing or incoming message calls that hook, and no other, of every middleware of the chain exactly once, in the order they were added, each on the message as its predecessors left it, and stops at the
 first that fails: its error is the outcome and no later one runs. The message that comes out is exactly what those calls made of it. The logging, authentication and retry middlewares never fail and never change the message.""",
 ["inputs", "configurations"], "every chain, every message and every outcome of every middleware",
 "tests run one middleware; a skipped, repeated or reordered call or a swallowed error needs a chain with a failing member in a particular place",
 ["src/shared/middleware.rs"], [("MiddlewareChain::process_request", "src/shared/middleware.rs"), ("MiddlewareChain::process_response", "src/shared/middleware.rs"), ("MiddlewareChain::process_send", "src/shared/middleware.rs"), ("MiddlewareChain::process_receive", "src/shared/middleware.rs")],
 level_note="Middlewares are arbitrary (uninterpreted) functions recorded in a ghost log.")
prop("P30", "Every question put to the client gets its own answer, once",
 """Eliciting input puts exactly the caller's question to the client and returns what was answered to that question: the client's response with that id, a cancellation by the server, or an error when the client cannot be reached, its
 channel is replaced or closed, or the timeout passes (and not before). A response or cancellation is accepted exactly while a question with that id is waiting, reaches exactly that asker and nobody else, and ends the waiting; cancelling all
 answers everyone waiting as cancelled. Nothing waits any more after its outcome, and pending_count says how many do.""",
 ["inputs", "histories", "schedules"], "every sequence of questions, responses, cancellations and timeouts, also with repeated ids",
 "tests answer one question; a crossed answer, a forgotten entry or an early timeout needs several questions, repeated ids and late answers",
 ["src/server/elicitation.rs"], [("ElicitationManager::elicit_input", "src/server/elicitation.rs"), ("ElicitationManager::handle_response", "src/server/elicitation.rs"), ("ElicitationManager::cancel", "src/server/elicitation.rs"), ("ElicitationManager::cancel_all", "src/server/elicitation.rs")],
 level_note="Rely/guarantee at the one await that waits: the table's invariant (every channel filed under its own question) is kept by every verified function and relied on across the wait.")
prop("P31", "Tools and prompts added at run time are exactly those not taken back",
 """After any sequence of additions, removals and reloads, the dynamic tools and prompts are exactly those added and not removed since, each with the handler added last under its name; a reload replaces them all by the given ones; a name is
 reported as present exactly when it is registered dynamically or on the server. Removing what is not there is an error and changes nothing. Every other change tells each capability listener, in order and once, the server's own
 capabilities with exactly that kind of feature switched on (added or set) or, for a removed resource or sampling handler, off.""",
 ["inputs", "histories"], "every sequence of additions, removals, reloads and listeners",
 "tests add and remove one tool; a wrong handler, a stale entry or a missed listener needs repeated names, static counterparts and a particular order",
 ["src/server/dynamic.rs"], [("DynamicServerManager::add_tool", "src/server/dynamic.rs"), ("DynamicServerManager::remove_tool", "src/server/dynamic.rs"), ("DynamicServerManager::reload_configuration", "src/server/dynamic.rs"), ("DynamicServerManager::update_capabilities", "src/server/dynamic.rs")],
 level_note="Sequential view. Handlers and listeners are opaque; the closures given to update_capabilities are inlined by the extractor.")
