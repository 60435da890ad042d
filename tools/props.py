"""Source of /verif/properties.jsonl: python3 tools/props.py rewrites it."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over.split(), text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(
            files=["starlette/" + f for f in files.split()],
            mechanism=[dict(name=n, where="starlette/" + w) for n, w in mech],
            observe_at=list(observe),
            state=[dict(name=n, meaning=m, where="starlette/" + w) for n, m, w in state],
            hook_needed=None,
        ),
    ))


prop("C01", "Responses emit a well-formed, complete message sequence",
     """Sending any response object emits exactly one start message with its status and headers, then body messages
     of which exactly the last is final, and the concatenated bodies are the rendered content (bytes, UTF-8 text,
     compact JSON, or a stream's chunks in order). Headers given by the caller are all kept, with their values; the
     framework adds content-length (equal to the body length; never for 1xx/204/304 or streams) and content-type
     (the media type, with a charset for text types) only when the caller gave none; a redirect names its
     percent-quoted target in a single location header. Sending the same non-streaming response object again emits the same messages,
     and under a websocket scope the same messages carry the denial-response prefix.""",
     "inputs configurations histories",
     "every response class x status x caller headers x media type x content or chunking within the enumerated alphabets, sent once and twice, on http and websocket scopes",
     "Tests send a handful of concrete responses through the test client, which hides message framing and never crosses status, headers, media type and chunking.",
     "responses.py", [("Response.init_headers / __call__", "responses.py"), ("StreamingResponse.stream_response", "responses.py"), ("RedirectResponse", "responses.py")],
     ["messages passed to send()"])

prop("C02", "Streaming survives every disconnect and failure schedule",
     """Under every interleaving of the producer, the transport and a client disconnect, the client receives, in order
     and without repetition, a prefix of the produced chunks - all of them followed by exactly one final message
     unless the client went away or the producer failed. Once a disconnect has been observed no more is sent, the
     call ends promptly (or raises ClientDisconnect when the transport reports the loss as a failed send under ASGI
     spec 2.4+), and no task is left running. A producer's exception reaches the caller as itself, never wrapped in a group, and
     no final message is sent.""",
     "schedules fault_sequences",
     "every schedule of producer steps, send completions and disconnect arrival up to the deviation bound, each failing producer step and each failing send, ASGI spec versions below and from 2.4, async and sync iterators, asyncio and trio",
     "Tests exercise one disconnect timing per spec version on whatever schedule the event loop happens to produce.",
     "responses.py _utils.py concurrency.py", [("StreamingResponse.__call__", "responses.py"), ("collapse_excgroups", "_utils.py"), ("iterate_in_threadpool", "concurrency.py")],
     ["send() calls, call outcome, tasks alive at return"])

prop("C03", "Background tasks run once, in order, after the response",
     """Background tasks attached to a response start only after the final body message of that response has been
     handed to the server, run one after another in the order added, each exactly once with its own arguments,
     whether they are sync or async functions and whichever response class carries them. A task that raises prevents
     the later ones, and its exception reaches the server after a complete response - also through exception handling and
     request/response middleware. If sending the response fails, no background task runs.""",
     "inputs fault_sequences schedules configurations",
     "every sequence of up to 3 sync/async succeeding/failing tasks x response class x middleware stack x failing send position",
     "Tests use one or two tasks that succeed, on plain responses, with no transport failure.",
     "background.py responses.py middleware/base.py", [("BackgroundTasks.__call__", "background.py"), ("Response.__call__ tail", "responses.py"), ("app_exc re-raise", "middleware/base.py")],
     ["order of send() calls and task calls"])

prop("C04", "Request body accessors agree for every chunking",
     """For every way the server splits a request body into messages, body() returns the concatenation, stream()
     yields its bytes in order ending with an empty chunk, json() its parse and form() its fields, in every sequence of
     these calls: body() and json() are cached, stream() after body() replays it, and reading a consumed stream raises
     RuntimeError instead of blocking. A client disconnect before the end raises ClientDisconnect and is then reported by
     is_disconnected(). Reading never asks the server for more after the last body message, and asking whether the client
     has disconnected never loses body data or blocks.""",
     "inputs histories schedules",
     "all bodies over a small alphabet x all chunkings (with empty chunks and omitted keys) x all call sequences up to depth 3-4 x disconnect at every position",
     "Tests send bodies as one or two messages and make one or two accessor calls.",
     "requests.py formparsers.py", [("Request.stream / body / json / _get_form / is_disconnected", "requests.py")],
     ["accessor results, receive() call count"])

prop("C05", "Request/response middleware hands the body downstream intact",
     """An application behind BaseHTTPMiddleware (one or several, nested) can always read its request: if no middleware
     touched the body it receives the same bytes; if a dispatch function awaited body() (or json()) it receives the whole
     body again; if a dispatch function consumed stream() (or form()) it receives the remainder, possibly empty, and never hangs.
     After the body, and only then, further receives report the client's disconnect once it happens or once the
     response has been sent, and keep doing so.""",
     "histories inputs schedules",
     "all combinations of dispatch read actions before/after call_next x inner read sequences x chunkings x disconnect positions, 1-2 nested middlewares",
     "Tests cover a dozen hand-picked combinations of dispatch and inner reads with one or two chunks.",
     "middleware/base.py requests.py", [("_CachedRequest.wrapped_receive", "middleware/base.py"), ("receive_or_disconnect", "middleware/base.py")],
     ["messages the inner app receives"],
     [("wrapped receive state", "not consumed / consumed / disconnected", "middleware/base.py")])

prop("C06", "Request/response middleware is transparent on every schedule",
     """With a dispatch function that just returns call_next's response, the server sees from an application behind
     BaseHTTPMiddleware exactly the status, headers (including repeated ones) and body bytes the application sent, and
     any exception it raised before, during or after its response, as itself, whatever the task schedule and wherever the client
     disconnects or the transport fails. A header change or replacement response made by dispatch is what the server sees;
     an application that sends nothing yields an error; non-http scopes pass through untouched. Every request terminates with no task
     left running.""",
     "schedules fault_sequences histories",
     "all schedules up to the deviation bound x app behaviours (chunks, raise position, receive-waiting, background work) x dispatch behaviours x nesting 1-2 x disconnect/failed-send positions, asyncio and trio",
     "Tests run one schedule per scenario; the failures this code has had (hangs, swallowed errors, cancelled background tasks) depend on ordering.",
     "middleware/base.py", [("BaseHTTPMiddleware.__call__ task group and memory stream", "middleware/base.py")],
     ["messages, outcome, termination"])

prop("C07", "Exceptions reach exactly the most specific handler",
     """An exception raised by a route or inner middleware is handled by the handler registered for its HTTP status code if it is an
     HTTPException with one, otherwise by the handler of the first class in its MRO that has one, and otherwise propagates
     unchanged; HTTPException by default gives its status, detail and headers, and WebSocketException closes with its code and
     reason. Exactly one handler runs, once, with the exception and the connection (sync and async handlers alike), and its response is the
     only response. If the response had already started, the exception is not turned into a second response: the server sees
     an error.""",
     "inputs configurations histories",
     "all handler tables over a small exception hierarchy and status set x raised exception x raise point (before/after start, route, mount, nested app, websocket) x handler kind",
     "Tests register two or three handlers and raise one exception each.",
     "_exception_handler.py middleware/exceptions.py applications.py routing.py", [("wrap_app_handling_exceptions", "_exception_handler.py"), ("ExceptionMiddleware", "middleware/exceptions.py")],
     ["response messages, handler calls"])

prop("C08", "Every unhandled error ends in one 500 and reaches the server",
     """An exception no handler takes is always re-raised, as itself, to the server, and if no response has started the client
     gets exactly one complete 500 response: the registered 500/Exception handler's answer, or plain 'Internal Server Error', or in debug mode
     the traceback (HTML, with all error text and source escaped, only if the client accepts text/html). Outside debug mode nothing about the exception
     appears in the response, and once a response has started nothing more is sent. Websocket and lifespan traffic is not altered.""",
     "inputs configurations fault_sequences",
     "debug x handler kind x raise point over middleware/route/endpoint/streaming body/background x exception text alphabet x accept header",
     "Tests cover single raise points, one message text and one position in the stack.",
     "middleware/errors.py applications.py", [("ServerErrorMiddleware.__call__", "middleware/errors.py"), ("build_middleware_stack", "applications.py")],
     ["messages, outcome of the app call"])

prop("C09", "Middleware wraps in the declared order, once per request",
     """Every request passes through application middleware in list order (add_middleware puts new ones outermost), then router,
     mount and route middleware of the matched path in list order, each exactly once on the way in and, in reverse, on the way out, with the
     positional and keyword arguments it was declared with. Server-error handling is outside all of it and exception handling
     inside the application middleware. Adding middleware after the first request is refused, and the stack is built once, not per request.""",
     "configurations histories",
     "all assignments of up to 3 middlewares per level over the levels app/router/mount/route, all add_middleware orders, multi-request histories, http/websocket/lifespan",
     "Tests use one or two middlewares on one level.",
     "applications.py routing.py middleware/__init__.py", [("build_middleware_stack", "applications.py"), ("reversed(middleware) loops", "routing.py")],
     ["trace of middleware entry/exit"])

prop("C10", "Lifespan reports exactly what startup and shutdown did",
     """Startup handlers (or the lifespan context's entry) run once, in order, before 'startup.complete' is sent, and shutdown handlers (or its exit) once, in
     order, only after the server asked for shutdown and before 'shutdown.complete'. A failure during startup is reported as
     'startup.failed' and during shutdown as 'shutdown.failed', with a traceback, and is re-raised; later handlers do not run. State yielded by the
     lifespan is put in the server-provided state (an error if the server provides none), and is then visible on every
     request; per-request changes to request.state are visible within that request and not in others.""",
     "histories fault_sequences configurations",
     "all handler lists up to length 3 with each failing/async/sync position x lifespan context styles x state support x base-exception kinds x cancellation",
     "Tests cover a few success/failure pairs.",
     "routing.py applications.py datastructures.py requests.py", [("Router.lifespan", "routing.py"), ("_DefaultLifespan", "routing.py"), ("HTTPConnection.state", "requests.py")],
     ["lifespan messages, handler trace"])

prop("C11", "WebSocket only ever performs legal protocol transitions",
     """For every sequence of server messages and application calls, a WebSocket forwards a message to the server only if the protocol state allows it (accept, close or
     denial-response start first; then send or close; denial body only after denial start; nothing after close or a final denial body) and raises RuntimeError otherwise;
     likewise it accepts from the server only connect first, then receive/disconnect, and refuses to receive after a disconnect. The reported client and application
     states always agree with the messages exchanged, messages are forwarded and returned unmodified and in order, and a transport
     failure while sending on an open connection surfaces as WebSocketDisconnect(1006) and ends sending.""",
     "histories fault_sequences",
     "all interleavings of server messages and application operations to depth 5-6, with a transport failure injected at every send: explicit-state search against a reference automaton",
     "Tests visit single transitions from a couple of states.",
     "websockets.py", [("WebSocket.receive / send", "websockets.py"), ("send_denial_response", "websockets.py")],
     ["messages forwarded, exceptions, client_state/application_state"],
     [("client_state, application_state", "protocol position of each side", "websockets.py")])

prop("C12", "WebSocket typed send/receive and endpoints deliver every frame",
     """receive_text/bytes/json and iter_* return the payloads of the client's frames in order, raise WebSocketDisconnect with the
     client's code and reason (iterators just end), and refuse use before accept; send_text/bytes/json produce one frame each that a peer decodes to the
     same value in the same mode. A WebSocketEndpoint calls on_connect once, on_receive once per frame in order with the decoded payload, and
     on_disconnect exactly once, with the client's code, or 1011 if a handler failed; a frame of the wrong kind or malformed JSON closes with 1003 and
     the error reaches the server.""",
     "histories inputs fault_sequences",
     "all frame sequences up to length 3-4 over text/bytes/empty/JSON/malformed frames (keys absent or None) x encodings x disconnect codes x handler failures",
     "Tests send one or two well-formed frames.",
     "websockets.py endpoints.py", [("receive_* / iter_* / send_*", "websockets.py"), ("WebSocketEndpoint.dispatch / decode", "endpoints.py")],
     ["handler call trace, frames sent"])

prop("C13", "Requests dispatch to the first matching route",
     """A router gives each request to the first declared route (route, websocket route, mount, host) that matches its scope type, path, host and method; failing that to
     the first one whose path matches with another method (405, with an Allow header naming exactly that route's methods); failing that to the slash redirect;
     failing that to the default (404, or websocket close). A path matches a route iff the whole path is its literal text with each parameter replaced by text its
     convertor admits; GET routes also serve HEAD. Trying a route that does not match, or that loses, leaves no trace in the scope
     the chosen endpoint sees, and concurrent or earlier requests do not influence the choice.""",
     "inputs configurations histories",
     "all route tables of up to 3 entries over a pool of overlapping patterns/methods/kinds x all paths over a segment alphabet x methods x hosts x scope types, against a reference router",
     "Tests use fixed tables and a few paths each; priority between overlapping entries is barely sampled.",
     "routing.py _utils.py convertors.py", [("Router.app", "routing.py"), ("Route/Mount/Host.matches", "routing.py"), ("compile_path", "routing.py")],
     ["endpoint reached, scope seen by it, response"])

prop("C14", "URL reversal and matching are inverse",
     """For every route name and parameter values its convertors accept, url_path_for returns a path that matches that same route and converts
     back to the same values (str, path, int, float up to 15 decimals, uuid, and registered convertors), through mounts and hosts; values never interfere with each other or with the
     literal text. Text that is empty or contains a slash, and numbers that are negative, NaN or infinite, are refused with an assertion where the convertor does not admit them, and an unknown name, or missing or extra parameters, raise NoMatchFound; the first
     route, in declaration order, that fits name and parameters is the one used.""",
     "inputs configurations",
     "route patterns of up to 3 parameters over all convertors x value alphabets (including braces, regex characters, unicode, large and small numbers) x mount nesting up to 2 x all parameter-name subsets",
     "Tests reverse a dozen routes with friendly values.",
     "routing.py convertors.py", [("replace_params", "routing.py"), ("url_path_for", "routing.py"), ("Convertor.convert/to_string", "convertors.py")],
     ["returned URLPath, matched params"])

prop("C15", "Mounted applications see a consistent root path and URLs",
     """Inside any nesting of mounts and hosts, under any server root_path, root_path plus the application's relative path is the request path, the root_path grows by exactly the
     matched prefix, path parameters accumulate from outer to inner, and a request never reaches a mounted application whose prefix does not end at a segment boundary. request.url is the URL
     the client requested and base_url is the top-level application's, however deep the handler. request.url_for(name, ...) is an absolute URL, on that base (or on the host route's host), with the scheme matching route kind and
     connection security, that dispatches to the named route when requested.""",
     "configurations inputs",
     "all mount trees to depth 3 over static and parameterised prefixes x server root_path x request paths x host/server/scheme combinations x http/websocket",
     "Tests cover a few nestings and root paths.",
     "routing.py requests.py _utils.py datastructures.py", [("Mount.matches", "routing.py"), ("get_route_path", "_utils.py"), ("HTTPConnection.base_url/url_for", "requests.py"), ("URLPath.make_absolute_url", "datastructures.py")],
     ["scope at the endpoint, url_for output"])

prop("C16", "Slash redirects preserve the URL and only occur when useful",
     """With redirect_slashes on, an http request whose path no route matches is redirected (307) exactly when removing its trailing slashes, or adding one, gives a path some route matches;
     the location is the requested URL - scheme, host, port, percent-quoted path, root path and query string - changed only in those slashes. No redirect happens for matched paths (even with the
     wrong method), for '/', for websockets, or with the option off.""",
     "inputs configurations",
     "route tables over plain/parameter/mount/host entries x paths with 0-2 trailing slashes x query strings x host header or server x root_path x option on/off",
     "Tests check three redirects.",
     "routing.py", [("redirect_slashes block of Router.app", "routing.py")],
     ["response messages"])

prop("C17", "Static files never escape their directory",
     """For every request path - any mix of '.', '..', empty, absolute-looking, encoded, backslash, null-byte and symlinked segments - a static files app serves only the bytes of regular files that lie
     (after resolving symlinks, unless following them is enabled, and then lexically) inside a configured directory; sibling directories sharing a name prefix are outside. Everything else gets a redirect or a client-error response, never a server error,
     and no response to such a request reveals content or existence of an outside file.""",
     "inputs configurations",
     "all paths up to 4 segments over an adversarial segment alphabet x directory layouts with inward/outward/dangling/looping symlinks x follow_symlink x html x mount prefix x multiple directories",
     "Tests try two traversal strings and two symlinks.",
     "staticfiles.py _utils.py", [("StaticFiles.get_path / lookup_path", "staticfiles.py")],
     ["response body vs. secret file contents"])

prop("C18", "Static files answer with the current file and honest validators",
     """GET of a file yields 200 with its exact bytes, length, type and validators from the first configured directory that has it, HEAD the same headers without the body, other methods 405, missing paths 404 (the directory's
     404.html in html mode), and in html mode a directory with index.html yields that page at the slash URL and a redirect to it otherwise. A 304 is sent only if the client's validators prove its copy current: if If-None-Match is
     present it alone decides, by etag comparison ignoring weakness, otherwise If-Modified-Since by date; the 304 carries no body and only cache-related headers. Rewriting a file changes what is served and its etag
     at the next request. A configured directory that does not exist is refused with a RuntimeError, at construction or, when checked late, at every request until it exists.""",
     "inputs histories configurations",
     "all conditional header combinations x paths x html mode x file rewrite histories (same/different size and mtime second)",
     "Tests check each header once, never their combination or a rewritten file.",
     "staticfiles.py responses.py", [("StaticFiles.get_response / is_not_modified", "staticfiles.py"), ("FileResponse.set_stat_headers", "responses.py")],
     ["response messages"])

prop("C19", "Byte ranges return exactly the requested bytes",
     """For every file size and Range header, a file response either ignores the header (absent, the response's own status is not 200, or If-Range names neither the current etag nor modification date) and sends the whole file, or answers 206 with exactly the bytes of the
     requested ranges - single range with matching content-range, several as ascending, disjoint, non-adjacent multipart parts each labelled with its range - or 400/416 for malformed, empty or unsatisfiable ones. content-length always equals the
     bytes sent (and HEAD states the same length without a body), whatever the read chunk size. The response terminates - soon whatever the header, and even if the file shrinks while being sent - and one response object serves any sequence of requests.""",
     "inputs histories fault_sequences",
     "file sizes 0-8 and around the 64 KiB chunk boundaries x all range lists up to 3 (4 in thorough) over all small endpoints x If-Range x method x truncation points",
     "Tests use one README-sized file and about ten headers.",
     "responses.py", [("FileResponse._parse_range_header / _handle_*", "responses.py"), ("generate_multipart", "responses.py")],
     ["status, headers, body"])

prop("C20", "Form parsing is independent of how the body is chunked",
     """For every multipart or urlencoded body and every way of splitting it into messages (including empty ones), the parsed form has the same fields and files in the same order with the same names, values,
     filenames, headers and contents as were encoded, decoded with the declared charset (utf-8 by default, latin-1 if undecodable). File contents read back from the start are byte-exact and their size is right, below and above the spool-to-disk limit; repeated
     names are all kept; other content types give an empty form.""",
     "inputs",
     "a family of bodies x every 1- and 2-cut split (every cut set for small bodies) x boundary look-alike contents x charset x spool limit",
     "Tests post whole bodies built by the http client in a single message.",
     "formparsers.py requests.py datastructures.py", [("MultiPartParser callbacks and parse()", "formparsers.py"), ("FormParser.parse", "formparsers.py")],
     ["FormData contents"])

prop("C21", "Form limits are exact and failed parses leak nothing",
     """A multipart form with exactly max_fields fields, max_files files and fields of exactly max_part_size bytes is accepted and one more of any is rejected - however the body is chunked, counts being per request - with a 400 response
     inside an application and MultiPartException otherwise; file contents are not limited by max_part_size. Whenever parsing fails (limit, malformed body, client disconnect), every temporary file it opened is closed, and leaving the form's context, or
     request.close(), closes every uploaded file of a successful one.""",
     "inputs fault_sequences",
     "limits 0-3 x counts around them x part orders x chunkings x failure kind at every position of the body",
     "Tests hit each limit once with default-size bodies in one chunk.",
     "formparsers.py requests.py datastructures.py", [("limit checks in MultiPartParser", "formparsers.py"), ("_files_to_close_on_error", "formparsers.py"), ("FormData.close", "datastructures.py")],
     ["exception/status, closed state of temporary files"])

prop("C22", "Uploaded files behave like binary files",
     """For every sequence of write, read, seek and close on an UploadFile - in memory, on disk, and across the move from memory to disk - results and contents are those of an ordinary binary file, its size grows by
     exactly the bytes written when it is known and stays unknown otherwise, and filename, content type and headers are those it was made with. An operation never blocks the event loop on a disk-backed file.""",
     "histories",
     "all operation sequences up to depth 4-5 over sizes around the spool limit, against io.BytesIO",
     "Tests do one write/seek/read on each kind.",
     "datastructures.py", [("UploadFile", "datastructures.py")],
     ["returned data, size, thread used"])

prop("C23", "Multidicts keep their list and dict views consistent",
     """After every sequence of operations a MultiDict (and every QueryParams, FormData or ImmutableMultiDict construction) presents one consistent content: the ordered list of pairs, of which item access gives the last value for a key,
     getlist all values in order, and len/iteration/contains the distinct keys; operations change exactly the keys they name and keep the relative order of other pairs; equality ignores order and type-mismatched operands are unequal. Query strings parse and
     re-encode to the same pairs, copies are independent of their source, and immutable ones offer no mutation.""",
     "histories inputs",
     "all operation sequences to depth 3-4 over 2-3 keys and values, from every initial content up to 3 pairs, against a list-of-pairs model; all query strings up to length 5-6 over an alphabet of separators and escapes",
     "Tests run one operation from one or two initial contents.",
     "datastructures.py", [("MultiDict / ImmutableMultiDict / QueryParams", "datastructures.py")],
     ["all public views"],
     [("pair list and last-value dict", "two representations of one content", "datastructures.py")])

prop("C24", "Headers are an ordered case-insensitive multimap",
     """Headers lookups ignore name case, item access gives the first value, getlist all in order, and keys/values/items/len reflect every entry; names are lower-cased when set through the API and values round-trip latin-1. After every
     sequence of MutableHeaders operations the content is that of an ordered list: set replaces the first occurrence in place and drops the rest, append keeps duplicates, setdefault and |= / | / update act per key, delete removes all, add_vary_header
     extends the existing value; other entries keep their order, edits through a message's headers or response.headers are visible in what is sent, and copies are independent.""",
     "histories inputs",
     "all operation sequences to depth 3-4 over 3 names in several cases, from every initial list up to 3 entries and every construction route, against a list model",
     "Tests run each operation once.",
     "datastructures.py responses.py", [("Headers / MutableHeaders", "datastructures.py"), ("Response.headers", "responses.py")],
     ["raw list, lookups, response start message"])

prop("C25", "URLs decompose, edit and rebuild without collateral change",
     """For every URL built from components or from a connection scope, the components read back are those that went in, and replace() with any subset of them changes exactly those and keeps the rest (userinfo, IPv6 hosts, ports, query
     and fragment included). include/replace/remove_query_params change exactly the named parameters and keep the order and values of the others; a scope's URL uses the host header, else the server address with non-default port, and its path and
     query string; equality is by string; repr never shows a password.""",
     "inputs",
     "full product of scheme/userinfo/host/port/path/query/fragment alphabets x every subset of replaced components; query edits to depth 2; all scope combinations",
     "Tests edit two or three URLs.",
     "datastructures.py", [("URL.__init__ / replace / *_query_params / __repr__", "datastructures.py")],
     ["component properties and str()"])

prop("C26", "CORS headers grant exactly the configured policy",
     """A preflight is answered by the middleware without reaching the application, with 200 iff its origin, method and every requested header are allowed (names case-insensitively, safelisted ones always) and 400 naming what failed otherwise; other requests reach the
     application unchanged. A response carries access-control-allow-origin only if the request's origin is allowed - by list, full-match of the regex, or '*' - with the value '*' only under allow-all (the origin itself when credentials
     are in play), and then with Vary: Origin whenever the value is the specific origin; allow-credentials, expose-headers, max-age, methods and headers are as configured. Requests without Origin get no CORS headers, and no answer depends on
     earlier or concurrent requests.""",
     "configurations inputs histories",
     "full product of configuration options x origin/method/header/cookie request alphabets (near-miss origins included), 2-request histories, against a reference policy",
     "Tests check around twenty combinations.",
     "middleware/cors.py", [("CORSMiddleware", "middleware/cors.py")],
     ["response headers and status, app invocation"])

prop("C27", "GZip never changes what the client decodes",
     """Whatever the chunking, sizes and order of an application's response messages, the body the client decodes (gunzipping iff content-encoding says gzip) equals the body sent, in a well-formed message sequence, and content-length, if present, equals the bytes sent.
     It is compressed iff the request accepts gzip, the response is streaming or at least minimum_size long, has no content-encoding and is not an event stream; a compressed or compressible response varies on Accept-Encoding, and
     other headers, messages and streaming progress are unchanged. Concurrent and successive responses do not mix.""",
     "inputs schedules configurations histories",
     "all message sequences up to 4 body chunks over sizes around minimum_size, absent keys, header variants, accept-encoding variants, levels; pairs of interleaved requests",
     "Tests cover five response shapes.",
     "middleware/gzip.py", [("IdentityResponder.send_with_compression", "middleware/gzip.py"), ("GZipResponder.apply_compression", "middleware/gzip.py")],
     ["decoded body and headers"])

prop("C28", "Sessions round-trip and cannot be forged",
     """Over every history of requests a browser makes, the session an endpoint sees is exactly what the previous response stored: data set is read back, changes persist, clearing it expires the cookie, an untouched empty session sets none. A cookie that is
     missing, altered in any character, signed with another key, or older than max_age yields an empty session and never an error; the cookie carries the configured name, path, domain, max-age, httponly, samesite and secure
     attributes. Sessions of different requests are independent, on http and readable on websockets.""",
     "histories inputs configurations",
     "all operation histories of 3-4 requests (set/get/delete/clear/nest) x configurations; every single-character mutation, truncation and extension of a valid cookie; clock positions around expiry",
     "Tests follow one history and one tampered cookie.",
     "middleware/sessions.py", [("SessionMiddleware", "middleware/sessions.py")],
     ["session dict in the app, set-cookie header"])

prop("C29", "Host and scheme enforcement lets nothing else through",
     """TrustedHostMiddleware lets a request or websocket reach the application iff its Host, without port, equals an allowed host or ends with the suffix of an allowed '*.' wildcard (or '*' is allowed); else the client gets a 400, or, when only the 'www.' form is allowed and redirecting is
     on, a redirect to the same URL on it. HTTPSRedirectMiddleware lets only secure http/websocket connections through and redirects every other to the same URL with the secure scheme, without default port and keeping any other port, IPv6 hosts included. Invalid wildcard
     patterns are refused at construction and lifespan passes through.""",
     "inputs configurations",
     "all allow-lists of up to 2 patterns x host headers (ports, case, near-suffixes, empty, missing) x schemes x paths/queries x scope types",
     "Tests use a handful of hosts.",
     "middleware/trustedhost.py middleware/httpsredirect.py", [("TrustedHostMiddleware.__call__", "middleware/trustedhost.py"), ("HTTPSRedirectMiddleware.__call__", "middleware/httpsredirect.py")],
     ["application reached or response"])

prop("C30", "Authentication gates exactly the credentials required",
     """AuthenticationMiddleware runs the backend once per http/websocket connection and exposes its result (or unauthenticated credentials and user when it returns none) to everything inside; an AuthenticationError gives on_error's response, or 400 with its text, or a
     websocket close, without reaching the application. A function decorated with requires() runs iff the connection has every required scope; otherwise it is not entered and the client gets the configured status, a redirect whose 'next' is the requested URL, or a
     websocket close - for sync, async and class-method endpoints, wherever the connection argument is. One connection's credentials never apply to another.""",
     "configurations inputs histories schedules",
     "all required-scope lists x granted-scope sets x endpoint kinds and argument positions x status/redirect options; interleaved pairs of connections with different credentials",
     "Tests check a few endpoints with two users.",
     "authentication.py middleware/authentication.py", [("requires / has_required_scope", "authentication.py"), ("AuthenticationMiddleware", "middleware/authentication.py")],
     ["endpoint entered, response"])

prop("C31", "Cookies set are the cookies read back",
     """A cookie set on a response, sent back by a browser alone or among others in any order, is read by request.cookies with the same value, for all names that are tokens and all latin-1 text values (separators, quotes and backslashes included; control characters make the round trip or are refused); attributes
     appear exactly as asked and only then, deleting a cookie expires it at the same path and domain, and several cookies on one response stay separate. Any Cookie header at all parses without error, last duplicate winning, whitespace trimmed, valueless parts under
     the empty name.""",
     "inputs configurations histories",
     "all values up to length 3 over an adversarial alphabet x all attribute combinations x multi-cookie headers; all Cookie headers up to length 6 over the syntax alphabet, against a reference parser",
     "Tests check about fifteen values.",
     "responses.py requests.py", [("Response.set_cookie / delete_cookie", "responses.py"), ("cookie_parser", "requests.py")],
     ["set-cookie headers, request.cookies"])

prop("C32", "Configuration resolves by precedence and is read-once",
     """A config value comes from the environment, else the env file, else the default, else KeyError, always under the prefix, and is cast the same way from each; bad values raise ValueError, booleans accept exactly true/false/1/0 in any case. An env file gives each
     key's last assignment with whitespace and surrounding quotes removed, ignoring comments and lines without '='. Once a key has been read from the shared environment, setting or deleting it raises and changes nothing, other keys stay writable;
     comma-separated values split into exactly their items and Secret never shows its value in repr.""",
     "histories inputs configurations",
     "all presence combinations of the three sources x prefixes x casts x values; all environ operation sequences to depth 4; all env-file lines up to length 6 over the syntax alphabet; all item lists",
     "Tests use one file and one environment.",
     "config.py datastructures.py", [("Config.get / _read_file / _perform_cast", "config.py"), ("Environ", "config.py"), ("CommaSeparatedStrings, Secret", "datastructures.py")],
     ["returned values, exceptions, environment contents"])

prop("C33", "The test client shows exactly what the application did",
     """For every application behaviour, TestClient delivers the request's method, path, query, headers, cookies and body to the application unchanged and returns the status, headers (repeats included) and concatenated body it sent; an application exception is raised in the
     caller, or becomes a 500 (or the response already sent) when raising is disabled. Websocket sessions exchange frames both ways in order, surface closes and denials with their code, reason, status, headers and body, and never hang at exit or once the application has ended; entering the client runs startup, leaving it runs
     shutdown, failures in either are raised, and lifespan state reaches each request as its own copy.""",
     "histories inputs configurations",
     "all application scripts over a message alphabet up to length 4 x raise points x client settings; websocket operation sequences to depth 4; lifespan outcomes; asyncio and trio",
     "The test client is the instrument the tests use; its own contract is only spot-checked.",
     "testclient.py", [("_TestClientTransport.handle_request", "testclient.py"), ("WebSocketTestSession", "testclient.py"), ("TestClient.__enter__/lifespan", "testclient.py")],
     ["values seen by the caller and by the app"])

prop("C34", "Sync code runs off the event loop with async semantics",
     """Every sync endpoint, handler, background task, dependency iterator or generator body runs in a worker thread, never on the event loop, with the caller's context variables, and its result or exception comes back unchanged; other tasks make progress
     meanwhile. Iterating a sync iterable yields its items in order, one pull at a time and never concurrently, stops cleanly at exhaustion and re-raises its error; async callables (functions, partials of any depth, callable objects, methods) are recognised and awaited on the
     loop instead. Running until first completion cancels the rest and waits for them.""",
     "schedules inputs configurations",
     "all callable kinds x call sites x outcomes; schedules of worker completion against other tasks; iterables up to 4 items with failure at each position",
     "Tests cover a few callable kinds at one call site each and no schedules.",
     "concurrency.py _utils.py routing.py background.py endpoints.py", [("run_in_threadpool / iterate_in_threadpool", "concurrency.py"), ("is_async_callable", "_utils.py")],
     ["thread identity, results, ordering"])

prop("C35", "Concurrent requests through one application never mix",
     """When several requests are in flight through the same application instance - any of the bundled middleware, routing, endpoints, sessions, templates, static files - each client gets byte-for-byte the response it would get alone, whatever the interleaving at their
     suspension points, and later requests are unaffected by earlier ones, including failed or disconnected ones. Path parameters, state, session, user, background work and exceptions stay with their own request.""",
     "schedules histories",
     "all interleavings (up to the preemption bound) of 2-3 requests over each middleware and combined stacks, and all request histories of length 2-3, compared with isolated runs",
     "Tests send one request at a time.",
     "applications.py routing.py middleware/base.py middleware/gzip.py middleware/cors.py middleware/sessions.py middleware/errors.py staticfiles.py responses.py", [("per-request state held in locals and scope", "middleware/"), ("lazy middleware_stack", "applications.py")],
     ["messages per client"])

prop("C36", "Class endpoints dispatch by method and answer the rest 405",
     """An HTTPEndpoint handles a request with the method it defines for it (HEAD falls back to get), sync or async, on a fresh instance per request; any other HTTP method - whatever its name - gets a 405 whose Allow header lists exactly the methods defined, as an HTTPException inside an
     application and as a response outside one. Route functions default to GET and HEAD, explicit methods are honoured in any case, class endpoints receive all methods unless restricted.""",
     "configurations inputs",
     "all subsets of defined methods x request methods (standard, custom and names of internal attributes) x sync/async x in/out of an application x route method lists",
     "Tests define one or two methods.",
     "endpoints.py routing.py", [("HTTPEndpoint.dispatch", "endpoints.py"), ("Route.__init__ methods", "routing.py")],
     ["handler reached, response"])

prop("C37", "WSGI applications are bridged faithfully",
     """A WSGI application behind WSGIMiddleware sees an environ equal to the ASGI request (method, script name and path split at root_path, query, protocol, headers with repeats joined, server, client, full body whatever its chunking), and the client gets its status, headers
     and body chunks in order with one final message, for iterables and generators, eager and late start_response, on every interleaving of the worker thread and the event loop. An exception raised by the WSGI application or passed as exc_info reaches the
     server as itself; the iterable's close() is called exactly once whatever happened; a client that leaves before its body is complete never reaches the application.""",
     "inputs schedules fault_sequences",
     "environ over scope alphabets x body chunkings; application scripts up to 3 chunks with start_response position and failure position; schedules of worker thread vs. sender",
     "Tests cover five applications on the default schedule.",
     "middleware/wsgi.py", [("build_environ", "middleware/wsgi.py"), ("WSGIResponder", "middleware/wsgi.py")],
     ["environ, messages sent"])

prop("C38", "API schemas list exactly the documented endpoints",
     """The generated schema contains, for every route tree (mounts and hosts included), exactly one entry per included HTTP route, method (HEAD excluded) and parseable docstring, under the full path with convertor suffixes removed, and nothing for hidden routes, websocket routes, undocumented or
     non-schema docstrings; only the part after the last '---' counts. Base schema fields are preserved, generating twice gives the same answer, and the response is YAML that parses back to the schema.""",
     "configurations inputs histories",
     "all route trees up to 3 entries and depth 2 over a pool of function/class/websocket/hidden endpoints, docstring kinds, path patterns and method lists",
     "Tests generate one schema.",
     "schemas.py", [("BaseSchemaGenerator.get_endpoints", "schemas.py"), ("SchemaGenerator.get_schema", "schemas.py")],
     ["schema dict"])

prop("C39", "Templates render the request's own context",
     """Every call form of TemplateResponse (positional, keyword, deprecated name-first) renders the named template with the given context, the request, context processors' values and a url_for bound to that request, and passes status, headers, media type and background through unchanged; text is
     HTML-escaped by default. One response's context never shows up in another's, a missing request is refused, and template and context are exposed to test clients only.""",
     "configurations inputs histories",
     "all call forms x argument presence subsets x context contents x processor lists x extensions, in sequences of two renders",
     "Tests render one template per call form.",
     "templating.py", [("Jinja2Templates.TemplateResponse", "templating.py"), ("_TemplateResponse", "templating.py")],
     ["response messages"])

prop("C40", "Connections present exactly their scope",
     """A Request or WebSocket presents its scope faithfully and without altering other parts of it: method, headers, query parameters, path parameters, client (None if absent), cookies, session, auth and user (refused when their middleware is absent), mapping access, state shared with every other view of the same
     connection, and identity-based equality. A server push is sent iff the server supports it, with the path and exactly the request's accept, accept-encoding, accept-language, cache-control and user-agent headers. HTTPException and WebSocketException carry
     what they were given, with the standard phrase as default detail.""",
     "inputs configurations",
     "all combinations of present/absent scope keys and header lists x accessor sequences",
     "Tests check each accessor on one scope.",
     "requests.py datastructures.py exceptions.py", [("HTTPConnection properties", "requests.py"), ("Request.send_push_promise", "requests.py"), ("State", "datastructures.py")],
     ["accessor values, scope after use"])

prop("C41", "Errors of user code surface unchanged, whatever their class",
     """An exception that user code raises - in an endpoint, an application below any middleware, a dispatch function, an authentication backend, an exception handler, a convertor, a response body iterator, a background task, a function or iterator run in the thread pool, a lifespan or
     startup/shutdown handler, a WSGI application or its iterable, a template, send() or receive(), or the application under the test client - reaches the caller as the very same object, exactly once and with its cause, whatever its class (every builtin, anyio, asyncio and
     Starlette class, falsy ones, groups), unless the class has a documented answer there (HTTPException, WebSocketException, AuthenticationError, config casts). It is never swallowed, replaced, wrapped or taken for the framework's own signal, and nothing is left running.""",
     "inputs configurations",
     "all sites where user code runs x all error classes x asyncio and trio",
     "Tests raise one class (RuntimeError, Exception) at a few of the sites; an except clause that is too broad only shows with another class.",
     "concurrency.py middleware/base.py middleware/errors.py responses.py routing.py testclient.py", [("iterate_in_threadpool", "concurrency.py"), ("BaseHTTPMiddleware.__call__", "middleware/base.py"), ("wrap_app_handling_exceptions", "_exception_handler.py")],
     ["exception at the caller, messages sent"])

prop("C42", "Every way of declaring an application builds the same one",
     """Routes (HTTP functions, classes and ASGI applications, WebSocket, mounts, hosts), exception handlers and middleware declared through constructor lists, add_* methods, decorators, positional arguments or app.routes, on the application or its router, in any order and mixture,
     give an application that answers, reverses names, lists routes and generates its schema exactly as the one built from the same objects by its constructor: later declarations come later (middleware: further out; a handler for a key already there replaces it) and decorators return
     what they decorate. Applications built from the same objects are independent; objects handed in are not changed. A path with an unknown convertor, a repeated parameter or no leading slash is refused in every manner, and nothing is declared. Two routes (routers) are equal exactly if their kind, path or host, endpoint or application, and methods are.""",
     "histories configurations",
     "all sequences of up to 3 declarations x manner x container",
     "Tests declare each kind once in one manner; lost arguments, wrong order and shared state show only in mixtures compared with each other.",
     "applications.py routing.py", [("Starlette.add_middleware", "applications.py"), ("Starlette.add_exception_handler", "applications.py"), ("Router.add_route", "routing.py"), ("Route.__eq__", "routing.py")],
     ["answers, url_path_for, routes, schema, equality"])

prop("C43", "Middleware composes: each does its part in every order and place",
     """With any stack of the built-in middleware (sessions, authentication, CORS, GZip, trusted hosts, HTTPS redirect, exception handling, BaseHTTPMiddleware) and plain ASGI middleware, in any order, around an application, a mount, a router, a route or inside the application, a client gets the answer
     of the bare application plus exactly what each layer adds: same status, body after decoding, repeated headers, cookies, server pushes, exceptions and background work, with Vary, session cookie, CORS and user from the layers that have one. When a layer answers by itself (bad host, insecure scheme, preflight,
     bad credentials, short-circuiting dispatch, exception handler), the layers outside it do their part and those inside see nothing. WebSockets and the lifespan go through. Objects an application reuses for several responses stay as they are. A client that leaves gets a prefix of that answer and nothing hangs.""",
     "configurations schedules",
     "all stacks of up to 3 layers x 5 places x endpoints of every kind x request profiles; all disconnect points",
     "Tests exercise each middleware around one simple application; how they disturb each other's messages, headers and scope shows only in combinations.",
     "middleware/base.py middleware/sessions.py middleware/gzip.py middleware/cors.py middleware/authentication.py middleware/exceptions.py routing.py applications.py",
     [("BaseHTTPMiddleware.__call__", "middleware/base.py"), ("SessionMiddleware.send_wrapper", "middleware/sessions.py"), ("Starlette.build_middleware_stack", "applications.py"), ("Mount.__init__ middleware", "routing.py")],
     ["messages sent, exception, background tasks"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
