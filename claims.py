"""What each check runs: units (contracts), harness (replay/bounded conformance), and the wording for MANIFEST/evidence."""
COMMON = [
    "extraction drops attributes, logging, async/await (each function is verified as straight sequential code) and lock/Arc/Box wrappers; see DESIGN.md",
    "string, Vec and map operations of std follow the contracts written in /verif/shim (listed in trusted_base)",
]
CLAIMS = {
    "P01": {"units": ["p01"], "harness": "p01", "assumptions": COMMON},
    "P02": {"units": ["p02"], "harness": "p01", "assumptions": COMMON},
    "P03": {"units": ["p03"], "harness": "p03", "assumptions": COMMON},
    "P05": {"units": ["p05"], "harness": "p05", "assumptions": COMMON + ["a spawned task is taken to run (delivery of the value put into the channel is the runtime's part)"]},
    "P06": {"units": ["p06", "p06b"], "harness": "p06", "assumptions": COMMON + ["futures::join_all returns the results in the order of its futures; each request future is evaluated once", "that no more than max_concurrency handlers run at once rests on tokio's semaphore (bounded harness only)"]},
    "P07": {"units": ["p07"], "harness": "p07", "assumptions": COMMON + ["that serde writes and reads exactly the members of the structs is observed by the bounded harness, not proved"]},
    "P08": {"units": ["p08"], "harness": "p08", "assumptions": COMMON + ["serde's derive for the four adjacently tagged message enums follows the documented meaning of its attributes (the contracts are generated from the attributes in the source)", "each payload type's own derived (de)serialization is a round trip (bounded harness only)"]},
    "P09": {"units": ["p09"], "harness": "p09", "assumptions": COMMON + ["the Display text of an error is left abstract"]},
    "P19": {"units": ["p19"], "harness": "p19", "assumptions": COMMON + ["tokio_util's CancellationToken: cancel() marks exactly the token (and its clones) it is called on"]},
    "P16": {"units": ["p16"], "harness": "p16", "assumptions": COMMON},
    "P17": {"units": ["p17"], "harness": "p17", "assumptions": COMMON + ["fewer than 2^31 subscribed resources, and as many subscriptions as a usize counts (get_stats)"]},
    "P10": {"units": ["p10"], "harness": "p10", "assumptions": COMMON + ["dashmap behaves as a map; the session limit is decided in the sequential view (two simultaneous creations may exceed it)", "uuid::Uuid::new_v4 is taken as freshly random"]},
    "P11": {"units": ["p11"], "harness": "p11", "assumptions": COMMON + ["SHA-256 and base64 are abstract functions; uuid::Uuid::new_v4 is taken as freshly random", "the wall clock reads a time between 1970 and the year 10^11", "operations are decided one at a time (sequential view of the locks)"]},
    "P12": {"units": ["p12"], "harness": "p12", "assumptions": COMMON + ["SHA-256 and base64 are abstract functions; uuid::Uuid::new_v4 is taken as freshly random", "the wall clock reads a time between 1970 and the year 10^11", "operations are decided one at a time (sequential view of the locks)"]},
    "P13": {"units": ["p13"], "harness": "p13", "assumptions": COMMON + ["a token provider and an inner middleware are deterministic functions of what they are asked"]},
    "P25": {"units": ["p25"], "harness": "p25", "assumptions": COMMON + ["tool, prompt, resource and sampling handlers are arbitrary functions of their arguments (every call is logged)", "one message is handled after the other, as Server::run's receive loop does; the loop itself and the transport's locking are not under contract"]},
    "P18": {"units": ["p18"], "harness": "p18", "assumptions": COMMON + ["a shared lock is one cell named by a ghost identity; the unregister task is taken to run (it is spawned on the runtime)"]},
    "P15": {"units": ["p15"], "harness": "p15", "assumptions": COMMON + ["fewer than 2^32 failures happen in a row (assumed where a failure is counted)", "floating-point arithmetic is uninterpreted: the backoff formula is proved, its numeric value is observed by the bounded harness"]},
    "P24": {"units": ["p24"], "harness": "p24", "assumptions": COMMON + ["the transport is an arbitrary implementation of send/receive whose calls are recorded in order; serde round trips of payload types are uninterpreted; responses are taken in the order received (ids are not compared by the code)"]},
    "P29": {"units": ["p29"], "harness": "p29", "assumptions": COMMON + ["a middleware is an arbitrary (uninterpreted) function of what it is given; its calls are recorded in order"]},
    "P30": {"units": ["p30"], "harness": "p30", "assumptions": COMMON + ["a oneshot channel delivers at most one value, to its own receiver, and only what was sent into it; other tasks touch the table of pending questions only through the verified functions (their invariant is assumed across the wait)"]},
    "P31": {"units": ["p31"], "harness": "p31", "assumptions": COMMON + ["a capability listener is told by calling it once (recorded); who calls the dynamic handlers is outside"]},
    "P04": {"units": ["p04"], "harness": "p04", "assumptions": COMMON},
    "P14": {"units": ["p14"], "harness": "p14", "assumptions": COMMON + ["the session id generator never gives an id twice and its ids may stand in a header", "the version named in an initialize result may stand in a header (a constant of the server)", "a message can always be serialized", "axum and hyper deliver requests, responses and channel streams faithfully"]},
    "P27": {"units": ["p27"], "harness": "p27", "assumptions": COMMON + ["the bytes of standard input arrive in order; tokio's BufReader/Stdout behave as their documentation says (shim/io.rs)", "serde_json writes a message's JSON without failing; what text a JSON value is written as, and which text reads back as it, are uninterpreted (json_bytes/json_read)"]},
    "P20": {"units": ["p20"], "harness": "p20", "assumptions": COMMON + ["reqwest puts what the builder was given into the request and reports the server's answer (shim in units/p20.rs); a body is read whole or not at all", "the reading of the event-stream text is what P01 proves; spawned readers are taken to run at once (sequential view)", "the channel between the readers and receive() is first in, first out, and both its ends belong to the transport", "what JSON a message is written as, and which text reads as one, are uninterpreted"]},
    "P28": {"units": ["p28"], "harness": "p28", "assumptions": COMMON + ["urlencoding::encode percent-encodes every byte but unreserved ones", "the two regular expressions match what their text (compared with the source on every run) says", "str::chars, trim and {:02X} formatting as documented"]},
    "P34": {"units": ["p34"], "harness": "p34", "assumptions": COMMON + ["the AVX2 intrinsics do what Intel's manual says, lane by lane (shim/simd.rs); a byte slice is at most isize::MAX long", "the CPU has AVX2 where the target_feature functions are called (the caller's duty)"]},
    "P35": {"units": ["p35"], "harness": "p35", "assumptions": COMMON + ["what serde_json reads from a text is uninterpreted, except: a run of white space outside strings counts as one space, and text that is not UTF-8 is refused (true of target types that do not borrow raw text, such as Value)", "serde_json writes well-formed UTF-8", "the vectorised scans do what P34 proves of them; the harness runs on a CPU with AVX2, the proof considers both"]},
    "P32": {"units": ["p32"], "harness": "p32", "assumptions": COMMON + ["a UUID's text form is canonical (36 characters, dashes at 8, 13, 18 and 23) and a new random UUID differs from every identifier seen before", "an i64's decimal text parses back to it", "str::replace and split of a one-byte pattern behave as their byte-sequence specifications", "a derived Clone returns an equal value"]},
    "P22": {"units": ["p22"], "harness": "p22", "assumptions": COMMON + ["hyper sends the request that was built and hands over the answer's body in pieces whose data is what was sent, up to the first failure", "String::from_utf8_lossy reads a run of complete lines on its own", "message parsing and serialization are functions of the bytes (P27)", "the SSE decoder meets the contract P01 proves", "the transport outlives its event stream task"]},
    "P21": {"units": ["p21", "p21d"], "harness": "p21", "assumptions": COMMON + ["the receiving ends of the channels belong to the batcher and debouncer, so sending fails only once those are gone", "tokio: an interval ticks, a timer does not fire early, an aborted task stops at its next wait"]},
    "P33": {"units": ["p33"], "harness": "p33", "assumptions": COMMON + ["the derived Debug text of a progress token tells it from every other", "an error from the output channel says that nobody receives any more", "tokio: an interval ticks, a sleep does not end early", "fewer than 2^64 submissions join one group"]},
    "P23": {"units": ["p23"], "harness": "p23", "assumptions": COMMON + ["reqwest sends what its builder was given and answers with what the server sent", "serde reads token responses and discovery documents as their derived implementations say", "thiserror: the text of a protocol error ends with its message; no status line contains a word that marks a failure to be tried again"]},
    "P26": {"units": ["p26"], "harness": "p26", "assumptions": COMMON + ["notify reports every change below the watched directory, with its kind and paths, to the callback, in order; tokio's channels keep order and lose nothing unless full", "std::path::Path::strip_prefix and glob_match are functions of the texts", "tokio: an interval ticks, what is spawned runs"]},
    "P36": {"units": ["p36"], "harness": "p36", "assumptions": COMMON + ["tungstenite hands over frames in the order they arrived and writes what its sink is given, with the limits of its configuration", "tokio's channels keep order and lose nothing; an interval ticks, what is spawned runs, a wait of more than 2^63 seconds never ends", "fewer than 2^32 attempts to connect", "reading and writing a message are the functions P27 proves of them"]},
    "P37": {"units": ["p37"], "harness": "p37", "assumptions": COMMON + ["paths made of text are text, and std::path splits and joins them; a directory is listed once per call, as the file system then has it", "std's sort leaves a permutation in which no element comes before one it compares greater than"]},
    "P38": {"units": ["p38", "p17", "p18", "p19"], "harness": "p38", "assumptions": COMMON + ["what a server answers to one request is P25's; the managers behind the server's methods are verified in the same check (units p17, p18, p19)", "tokio's channels pass on what is put in, in order; each task is verified alone"]},
    "P39": {"units": ["p39"], "harness": "p39", "assumptions": COMMON + ["the regex crate matches the texts built here as its documentation says (which pieces a text of this form matches is stated in units/p39.rs), and compiles them", "a template has fewer than 2^64-1 expressions"]},
}
