"""Regenerate the 'fixed:' lines of known-findings.txt from /repo's fix commits."""
import subprocess, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "reject byte ranges whose": ("C19", "Range 'bytes=5-4' gave an empty 206 with content-range 5-4 instead of a 400"),
 "merge overlapping byte ranges": ("C19", "Range 'bytes=0-0,4-5,1-4' gave overlapping parts"),
 "do not loop forever when a file": ("C19", "a multi-range response never ended once the file had been truncated"),
 "accept body messages without a body key": ("C27", "an ASGI body message without 'body' raised KeyError in GZipMiddleware"),
 "forward messages other than start": ("C27", "push, debug, trailers and pathsend messages were dropped by GZipMiddleware"),
 "do not let routes match paths with a trailing": ("C13", "route '/users' matched the path '/users\\n'"),
 "never substitute URL path parameters": ("C14", "url_path_for with a='{b}', b='x' on '/{a}/{b}' gave '/x/x'"),
 "answer 404 for static paths through a loop": ("C17", "GET of a static path through a symlink that points to itself raised OSError(ELOOP), a server error"),
 "honour the time zone of If-Modified-Since": ("C18", "If-Modified-Since: '... 13:00:00 +0200' was read as 13:00 GMT: 304 for a file modified at 12:00 GMT"),
 "do not answer 206 for a FileResponse": ("C18", "GET /missing with 'Range: bytes=0-1' in html mode answered 206 with a part of 404.html instead of 404"),
 "answer 400 for byte ranges with": ("C19", "a Range header with a number of more than 4300 digits raised ValueError, a server error"),
 "do not send more than the content-length of a file": ("C19", "a file that grew after the response start was sent in full: more bytes than the content-length"),
 "do not take quadratic time": ("C19", "a Range header of 400000 digits kept the server busy for many minutes (quadratic regular expression)"),
 "fall back to latin-1 for every charset": ("C20", "a multipart form with 'charset=idna' (punycode, undefined) and undecodable data raised UnicodeError, a server error, instead of falling back to latin-1"),
 "answer a client error when a directory's index": ("C17", "in html mode a directory that may not be searched, or whose index.html (or 404.html) is a symlink loop, raised PermissionError/OSError, a server error"),
 "answer 404 for static paths": ("C17", "a static path containing a NUL byte raised ValueError (500)"),
 "ignore If-Modified-Since": ("C18", "a non-matching If-None-Match with a recent If-Modified-Since gave 304"),
 "keep the brackets of IPv6": ("C29", "host '[::1]:80' was redirected to 'https://::1/'"),
 "reject wrong frames": ("C12", "encoding='text' with {'bytes': b'x', 'text': None} delivered None instead of closing with 1003"),
 "deliver empty text frames": ("C12", "encoding=None and an empty text frame raised KeyError"),
 "do not leak the request into later": ("C39", "a context dict shared between responses kept the first request for all of them"),
 "accept context=None": ("C39", "TemplateResponse(..., context=None) raised AttributeError"),
 "close the files of a multipart form": ("C21", "uploaded temporary files stayed open after a disconnect or malformed body"),
 "do not lose body data in Request.is_dis": ("C04", "is_disconnected() before body() dropped a body message"),
 "do not lose request messages": ("C05", "is_disconnected() behind BaseHTTPMiddleware dropped body messages and made body() hang"),
 "do not complete the response of an app": ("C06", "an app raising half way behind BaseHTTPMiddleware got a final body message added"),
 "answer 405 for HTTP methods named": ("C36", "method 'DISPATCH' (or SCOPE, SEND, ...) on an HTTPEndpoint gave a 500"),
 "keep what follows a \"#\"": ("C32", "CommaSeparatedStrings('a#b,c') gave ['a']"),
 "keep range headers out": ("C19", "a FileResponse used for a range request and again without kept the content-range"),
 "do not report an OSError of a streaming": ("C02", "a producer raising OSError under ASGI spec 2.4 surfaced as ClientDisconnect"),
 "accept a response start without headers behind": ("C06", "a response start without 'headers' raised KeyError behind BaseHTTPMiddleware"),
 "let dispatch functions handle": ("C06", "an exception of the app that dispatch caught and answered was raised to the server all the same"),
 "do not modify the app's own list": ("C27", "a Response object used for two gzip-able requests sent an uncompressed body with content-encoding: gzip"),
 "accept a response start without headers in Session": ("C28", "a response start without 'headers' raised KeyError in SessionMiddleware"),
 "send the debug response for errors": ("C08", "in debug mode an error text with a lone surrogate gave no response and a UnicodeEncodeError"),
 "close with 1003 on JSON frames": ("C12", "encoding='json' and a bytes frame that is not UTF-8 was not closed with 1003"),
 "raise NoMatchFound when a parameter of a mount": ("C14", "url_path_for('m', path='') on Mount('/{a}', name='m') gave '/{a}/' instead of NoMatchFound"),
 "keep the host of URLs for routes below": ("C14", "url_path_for a route in Host('{a}.org') inside Mount('/m') had no host"),
 "do not convert the parameters of mounts": ("C14", "url_path_for('n', b='abc') raised ValueError because of an unrelated Mount('/{b:int}')"),
 "keep '%', '?', '#' and line": ("C15", "request.url of the path '/a?b' (requested as /a%3Fb) was 'http://host/a?b'; redirects of such paths went elsewhere"),
 "close the files of a form even": ("C21", "cancelling a task inside request.form() left the files on disk of the form open"),
 "roll uploads over to disk": ("C22", "the write that exceeds the spool size wrote the whole upload to disk on the event loop"),
 "do not count bytes of an upload": ("C22", "UploadFile.size grew by the bytes of a write that failed (closed file, full disk)"),
 "give the last value of query parameters": ("C23", "QueryParams([(1, 'a'), ('1', 'b'), (1, 'c')])['1'] was 'b', getlist gave ['a', 'b', 'c']"),
 "keep every existing Vary header": ("C24", "add_vary_header dropped all but the first of several Vary headers"),
 "replace parts of URLs without host": ("C25", "URL('postgres://u:p@/db').replace(port=1) and its repr raised IndexError; replace(hostname='::1') gave 'http://::1/'"),
 "accept preflight requests with an empty list": ("C26", "a preflight with 'access-control-request-headers: ' (no header requested) got 400 'Disallowed CORS headers'"),
 "do not compress the messages of the app": ("C27", "an application that sends one body message several times had it compressed again and again"),
 "redirect requests whose scope has no scheme": ("C29", "HTTPSRedirectMiddleware raised KeyError for a scope without the optional 'scheme'"),
 "raise ValueError for a bad value when the cast": ("C32", "Config with a cast that has no __name__ (functools.partial, a callable object) and a bad value raised AttributeError instead of ValueError"),
 "do not percent-decode the path twice": ("C33", "TestClient decoded the path twice: a request for /%2541 reached the application as /A instead of /%41"),
 "pass header bytes through TestClient": ("C33", "a non-ASCII request header value given as bytes reached the application re-encoded as UTF-8"),
 "accept non-ASCII response headers in TestClient": ("C33", "a response header with a non-ASCII value (as Response encodes it, latin-1) made TestClient raise UnicodeDecodeError or UnicodeEncodeError"),
 "keep the body sent before an application stopped": ("C33", "the body chunks sent before an application raised (raise_server_exceptions=False) or returned without a final message were lost"),
 "do not modify or duplicate the headers given to TestClient": ("C33", "TestClient(headers={'User-Agent': ..}) sent two user-agent headers; headers given to TestClient or websocket_connect were modified, so that a dict used twice sent the first session's subprotocols"),
 "accept IPv6 hosts in TestClient URLs": ("C33", "TestClient raised ValueError for a base URL with an IPv6 host"),
 "accept denial responses without headers or body": ("C33", "a denial response start without headers, or a body message without body (both optional), raised KeyError in the client"),
 "raise lifespan failures that the application reports": ("C33", "lifespan.startup.failed or lifespan.shutdown.failed from an application that returns instead of raising was not raised in the caller"),
 "do not wait forever for a websocket application": ("C33", "receiving from a websocket session whose application had returned (before accepting, or after its last frame) blocked forever"),
 "do not send an empty subprotocol": ("C33", "websocket_connect(subprotocols=[]) offered the application one empty subprotocol"),
 "get the iterator of a sync iterable": ("C34", "iter() of a sync iterable streamed by StreamingResponse ran on the event loop: an iterable that does its work in __iter__ blocked every other request"),
 "a class with an async __call__ method": ("C34", "a class used as a sync callable (exception handler, background task) whose instances have an async __call__, like any Response subclass, was taken for an async callable and its instance awaited (TypeError)"),
 "answer 405 for a method whose HTTPEndpoint attribute": ("C36", "a method an HTTPEndpoint subclass switched off with `get = None`, or a request method named like a plain attribute of the subclass, gave a TypeError (500) instead of 405"),
 "do not modify the base schema": ("C38", "SchemaGenerator wrote the paths it found into the paths of the base schema it was given, so that they showed up in the schema of the next set of routes"),
 "list only the methods a route accepts": ("C38", "a class endpoint on a route restricted to some methods was listed with all methods of the class"),
 "a docstring that is not valid YAML": ("C38", "one ordinary docstring that is not valid YAML (such as \"Note: see a: b\") made generating the whole schema fail with a yaml error"),
 "no query parameters when the scope has": ("C40", "query_params of a websocket scope without query_string (optional there) raised KeyError"),
 "split the WSGI script name": ("C37", "a WSGI app mounted at /app got PATH_INFO 'x' for root_path '/app' and path '/appx' (and lost a repeated prefix)"),
 "accept non-ASCII bytes in the query string": ("C37", "a WSGI request with a query string byte above 127 raised UnicodeDecodeError, a server error"),
 "accept latin-1 header values from WSGI": ("C37", "a WSGI response header value 'caf\\xe9' raised UnicodeEncodeError, a server error"),
 "close the iterable returned": ("C37", "the close() of a WSGI application's iterable was never called"),
 "do not run a WSGI application with a truncated": ("C37", "a client that left while sending its body: the WSGI application ran with the truncated body (or receive() was called for ever)"),
 "raise the exception of a WSGI application as itself": ("C37", "an exception of a WSGI application was raised wrapped in an ExceptionGroup"),
 "close the body stream when a multipart": ("C21", "after a multipart form that cannot be parsed the generator of the body was left suspended to the garbage collector (on trio: a ResourceWarning, or an error in a run that was over)"),
 "forward server pushes of applications behind": ("C43", "an application that sends a server push behind BaseHTTPMiddleware failed with an AssertionError"),
 "do not modify the app's own list of headers behind BaseHTTPMiddleware": ("C43", "header changes made by dispatch went into the application's own list of headers, and so into its later responses; a tuple of headers failed"),
 "an error of receive() reaches": ("C06", "an exception raised by receive() (a middleware outside limiting the body with HTTPException(413)) reached the application behind BaseHTTPMiddleware wrapped in an ExceptionGroup: no handler matched it"),
 "let HTTPEndpoint handlers send server pushes": ("C40", "request.send_push_promise() in a handler of an HTTPEndpoint raised RuntimeError (Send channel has not been made available)"),
 "let dispatch functions of BaseHTTPMiddleware send": ("C40", "request.send_push_promise() in a dispatch function of BaseHTTPMiddleware raised RuntimeError (Send channel has not been made available)"),
 "announce the size of a memoryview's bytes": ("C01", "Response(memoryview(array('I', [1, 2, 3]))) sent 12 bytes under content-length: 3"),
 "compare multidicts whose values have no order": ("C23", "comparing two multidicts with values that have no order (the files of a form) under one key raised TypeError"),
 "a docstring that names an impossible date": ("C38", "a docstring such as 'Since: 2020-13-45', for which yaml raises a plain ValueError, made the schema endpoint fail"),
 "bracket IPv6 server": ("C25", "scope server ('::1', 80) without Host gave 'http://::1/'"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "f94bd7d.."], capture_output=True, text=True).stdout
lines = []
for l in log.splitlines():
    h, _, s = l.partition(" ")
    s = s.replace("fix: fix: ", "fix: ")
    if not s.startswith("fix: "):
        continue
    for k, (pid, what) in PROP.items():
        if s[5:].startswith(k):
            lines.append("fixed: property=%s %s %s" % (pid, h, what))
            break
    else:
        print("no entry for", l)
known = os.path.join(here, "tools", "known.txt")
if os.path.exists(known):
    lines += [l.rstrip("\n") for l in open(known) if l.strip()]
open(os.path.join(here, "known-findings.txt"), "w").write("\n".join(lines) + "\n")
print(len(lines), "lines")
