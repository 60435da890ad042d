"""Per check: the technique in one line, and what is deliberately left unjudged (and why)."""
SL = "stateless exploration of the real code under a controlled scheduler (every schedule within the deviation bound)"
EN = "exhaustive enumeration of inputs/operation sequences within the bound, each executed on the real code and compared with an independent reference model"
BOTH = "exhaustive enumeration of scripts and of every schedule (deviation-bounded, controlled event loop) of the real code, compared with a reference model"
T = {"C01": EN, "C02": SL, "C03": BOTH, "C04": BOTH, "C05": BOTH, "C06": SL, "C07": EN, "C08": EN, "C09": EN, "C10": BOTH, "C11": EN + " (product of message and call automata)",
     "C12": BOTH, "C13": EN, "C14": EN, "C15": EN, "C16": EN, "C17": EN, "C18": EN, "C19": BOTH, "C20": EN, "C21": BOTH, "C22": EN, "C23": EN, "C24": EN, "C25": EN, "C26": EN,
     "C27": BOTH, "C28": EN + " (browser histories)", "C29": EN, "C30": EN, "C31": EN, "C32": EN, "C33": EN, "C34": BOTH, "C35": SL + ", compared with isolated runs in a pristine process",
     "C36": EN, "C37": BOTH, "C38": EN, "C39": EN, "C40": EN, "C41": EN, "C42": EN, "C43": BOTH}
N = {
"C04": "Calling form() after part of stream() was consumed is unspecified.",
"C06": "StopAsyncIteration from an app, an inner StreamingResponse cancelled before its start, and the router's own 404 inside a mount are not compared.",
"C07": "HTTPException(500) also reaches a handler registered for 500 (by design); a websocket HTTPException after accept is left out.",
"C08": "On trio, exceptions pass task groups and are rebuilt: compared by type and message there.",
"C09": "A 405 may be answered before or after route middleware; only method-matching requests are judged for it.",
"C11": "One receiver at a time. After a failed send before accept, or inside a denial response, only the exception is specified.",
"C12": "Whether on_disconnect runs after on_connect failed is unspecified; receive_text on a bytes frame (and the reverse) is the caller's error.",
"C13": "Where a pattern can split a path in several ways any of them is accepted. The path convertor excludes newlines. Host patterns: no IPv6, lower case.",
"C14": "The same parameter name in a mount and its content, and Host inside Host, are left out. uuid and path values are not validated by the code under test and are only generated valid.",
"C15": "The server's path includes root_path (ASGI). url_for does not quote. Mounts with a path convertor match ambiguously: any reading accepted.",
"C16": "Without Host header and server the Location may be relative.",
"C17": "The static tree lives in a scratch directory with a twin outside it; a tree resolver written here decides what a path names. Race conditions between check and open, unreadable parents, symlinks that leave and come back, and lone surrogates are left out. '..' behind a symlink may be read lexically or as POSIX does. The family on unreadable files runs with effective uid 65534.",
"C18": "'If-None-Match: *', repeated validators, unquoted etags and a trailing slash after a file name are unspecified.",
"C19": "A suffix range longer than the file may be refused. For garbage headers only self-consistency (206/400/416) is asked. Response objects are reused only while the file is unchanged. The multipart content-length is one byte too long per part boundary: known finding (kept because an existing test pins it).",
"C20": "Names and file names without quotes, backslashes and control characters; urlencoded bodies in ASCII.",
"C21": "A body that ends early without disconnect is not an error of the limits.",
"C22": "One operation at a time per file; offsets not negative.",
"C23": "copy.copy, key order and popitem's choice are unspecified.",
"C24": "Raw names are lower-case latin-1. Views other than the newest one of a message are not judged.",
"C25": "Passwords only together with user names, components percent-encoded by the caller; no unix sockets.",
"C26": "At most one Origin and one Access-Control-Request-* header; the application sets no ACA* header itself and makes a new start message per response. With allow-all and credentials and no cookie both '*' and the origin are accepted.",
"C27": "gzip;q=0, x-gzip and upper case in Accept-Encoding, streamed 204/304, zerocopysend and push after start are left out.",
"C28": "Unused signature bits and white space are the same cookie. max_age None or positive. No nested SessionMiddleware.",
"C29": "No IPv6 or upper case hosts for TrustedHost, no malformed Host. A websocket denial is judged without looking at the denial extension.",
"C30": "on_error is a plain function; whether it is called for websockets is unspecified.",
"C31": "Reserved attribute names as cookie names, \\xa0 and vertical white space are left out; control characters may be refused. One Cookie header.",
"C32": "Asking (in) counts as reading. pop/popitem/setdefault/clear are only required not to change read keys.",
"C33": "Frames right before an application exception may be lost. What happens to a session after leaving it, an app that returns from lifespan silently, and websocket_connect ignoring base_url are unspecified.",
"C34": "StopIteration raised by functions is left out (PEP 479 makes it unraisable in coroutines). Sync wrappers that return coroutines count as sync.",
"C35": "Signing clock frozen; multipart/byteranges (random boundary) excluded. Responses cut by their own client are compared as prefixes. The isolated run happens in a forked process that has served nothing else, so state leaking through module or class globals shows as well.",
"C36": "Allow is judged over seven standard methods. methods=[] and a HEAD switched off while GET is on are unspecified.",
"C37": "Only applications that follow PEP 3333; SERVER_PORT may be int or str; chunks right before a failure may be lost; what follows exc_info is unspecified; write() is not offered by the bridge.",
"C38": "functools.partial endpoints left out. Two routes with equal path and method: either entry.",
"C39": "Merge order: context, then processors. The context's 'request' is this request whatever the caller put there.",
"C40": "One Cookie header; re-iterable header containers; HTTPException default detail only for standard status codes; a query string that is not UTF-8 must only leave the other accessors alone.",
"C43": "Trailers, path-sending and zero-copy behind BaseHTTPMiddleware are left out (only start, body, debug and push are forwarded); when exactly a background task starts behind BaseHTTPMiddleware; two sessions, CORS or GZip layers in one stack.",
"C42": "The reference is the application built by the constructor (its own behaviour: C07, C09, C10, C13). Names and decorators of objects without __name__ left out.",
"C41": "StopIteration, StopAsyncIteration, GeneratorExit, SystemExit, KeyboardInterrupt and cancellation are control flow. On trio an ExceptionGroup may arrive as an equal group with the same members; BaseExceptions below anyio task groups are left out. OSError from send() is a disconnect (C02, C11).",
}
