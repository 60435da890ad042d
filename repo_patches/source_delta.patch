From 63ac1be89b6bc3403457b9f6c73fb7ce0fadd7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 01/83] fix: reject byte ranges whose last position precedes
 the first by one

---
 starlette/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 81e89fa..27ccc02 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -471,7 +471,7 @@ class FileResponse(Response):
         if any(not (0 <= start < file_size) for start, _ in ranges):
             raise RangeNotSatisfiable(file_size)
 
-        if any(start > end for start, end in ranges):
+        if any(start >= end for start, end in ranges):
             raise MalformedRangeHeader("Range header: start must be less than end")
 
         if len(ranges) == 1:
-- 
2.43.0


From 51f5c6b0423a41869ef6f13915b99af84abd9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 02/83] fix: merge overlapping byte ranges completely, whatever
 their order

---
 starlette/responses.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 27ccc02..98bfef6 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -478,18 +478,12 @@ class FileResponse(Response):
             return ranges
 
         # Merge ranges
-        result: list[tuple[int, int]] = []
-        for start, end in ranges:
-            for p in range(len(result)):
-                p_start, p_end = result[p]
-                if start > p_end:
-                    continue
-                elif end < p_start:
-                    result.insert(p, (start, end))  # THIS IS NOT REACHED!
-                    break
-                else:
-                    result[p] = (min(start, p_start), max(end, p_end))
-                    break
+        ranges.sort()
+        result = [ranges[0]]
+        for start, end in ranges[1:]:
+            last_start, last_end = result[-1]
+            if start <= last_end:
+                result[-1] = (last_start, max(last_end, end))
             else:
                 result.append((start, end))
 
-- 
2.43.0


From da116f3a556ad4092826aab7c59c8805d4a1fa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 03/83] fix: do not loop forever when a file shrinks during a
 multi-range response

---
 starlette/responses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/responses.py b/starlette/responses.py
index 98bfef6..b40662c 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -429,6 +429,8 @@ class FileResponse(Response):
                     await file.seek(start)
                     while start < end:
                         chunk = await file.read(min(self.chunk_size, end - start))
+                        if not chunk:
+                            raise RuntimeError(f"File at path {self.path} was truncated while being sent.")
                         start += len(chunk)
                         await send({"type": "http.response.body", "body": chunk, "more_body": True})
                     await send({"type": "http.response.body", "body": b"\n", "more_body": True})
-- 
2.43.0


From 532f29c10b70bcf16b3d63d92b0ee15ede8aafd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 04/83] fix: accept body messages without a body key in
 GZipMiddleware

---
 starlette/middleware/gzip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index c7fd5b7..f8756a6 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -73,7 +73,7 @@ class IdentityResponder:
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
                     headers["Content-Length"] = str(len(body))
                     message["body"] = body
@@ -86,7 +86,7 @@ class IdentityResponder:
 
                 headers = MutableHeaders(raw=self.initial_message["headers"])
                 headers.add_vary_header("Accept-Encoding")
-                if body != message["body"]:
+                if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
                     del headers["Content-Length"]
                     message["body"] = body
-- 
2.43.0


From 04160db887fffcab938a15335ef792fe82d2fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 05/83] fix: forward messages other than start and body through
 GZipMiddleware

---
 starlette/middleware/gzip.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index f8756a6..b7b89c1 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -93,7 +93,7 @@ class IdentityResponder:
 
                 await self.send(self.initial_message)
                 await self.send(message)
-        elif message_type == "http.response.body":  # pragma: no branch
+        elif message_type == "http.response.body":
             # Remaining body in streaming response.
             body = message.get("body", b"")
             more_body = message.get("more_body", False)
@@ -101,6 +101,13 @@ class IdentityResponder:
             message["body"] = self.apply_compression(body, more_body=more_body)
 
             await self.send(message)
+        elif message_type == "http.response.pathsend":
+            # The server sends the file itself, there is nothing to compress.
+            self.started = True
+            await self.send(self.initial_message)
+            await self.send(message)
+        else:
+            await self.send(message)
 
     def apply_compression(self, body: bytes, *, more_body: bool) -> bytes:
         """Apply compression on the response body.
-- 
2.43.0


From 89dde816fbdd304bb1f4441ade6f2dc9f125acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 06/83] fix: do not let routes match paths with a trailing
 newline

---
 starlette/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index add7df0..73ed6a1 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -166,9 +166,9 @@ def compile_path(
     if is_host:
         # Align with `Host.matches()` behavior, which ignores port.
         hostname = path[idx:].split(":")[0]
-        path_regex += re.escape(hostname) + "$"
+        path_regex += re.escape(hostname) + r"\Z"
     else:
-        path_regex += re.escape(path[idx:]) + "$"
+        path_regex += re.escape(path[idx:]) + r"\Z"
 
     path_format += path[idx:]
 
-- 
2.43.0


From a28f213cd33c8f4179d3834d85d35e556a1124f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 07/83] fix: never substitute URL path parameters inside the
 value of another one

---
 starlette/routing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index 73ed6a1..edd6a0e 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -106,12 +106,16 @@ def replace_params(
     param_convertors: dict[str, Convertor[typing.Any]],
     path_params: dict[str, str],
 ) -> tuple[str, dict[str, str]]:
+    replacements: dict[str, str] = {}
     for key, value in list(path_params.items()):
         if "{" + key + "}" in path:
             convertor = param_convertors[key]
-            value = convertor.to_string(value)
-            path = path.replace("{" + key + "}", value)
+            replacements["{" + key + "}"] = convertor.to_string(value)
             path_params.pop(key)
+    if replacements:
+        # Replace all the placeholders at once, so that a value is never mistaken for a placeholder.
+        pattern = "|".join(re.escape(placeholder) for placeholder in replacements)
+        path = re.sub(pattern, lambda match: replacements[match.group()], path)
     return path, path_params
 
 
-- 
2.43.0


From 89c2e35af6d2b50c788d7d63ec9e36b3f257a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 08/83] fix: answer 404 for static paths no file name can have

---
 starlette/staticfiles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 637da64..2f84ec3 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -123,6 +123,9 @@ class StaticFiles:
                 raise HTTPException(status_code=404)
 
             raise exc
+        except ValueError:
+            # Null bytes or unencodable characters, so it can't be a valid static file.
+            raise HTTPException(status_code=404)
 
         if stat_result and stat.S_ISREG(stat_result.st_mode):
             # We have a static file to serve.
-- 
2.43.0


From 040ce9ddd43be6a3c149f18f96dc7ec0981bc6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 09/83] fix: ignore If-Modified-Since when If-None-Match is
 present

---
 starlette/staticfiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 2f84ec3..35a3da6 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -207,8 +207,8 @@ class StaticFiles:
         try:
             if_none_match = request_headers["if-none-match"]
             etag = response_headers["etag"]
-            if etag in [tag.strip(" W/") for tag in if_none_match.split(",")]:
-                return True
+            # If-Modified-Since is ignored when If-None-Match is present (RFC 9110, section 13.1.3).
+            return etag in [tag.strip(" W/") for tag in if_none_match.split(",")]
         except KeyError:
             pass
 
-- 
2.43.0


From b997c72e69aeb2b13925d01f653b224eb8f8ad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 10/83] fix: keep the brackets of IPv6 hosts in
 HTTPSRedirectMiddleware

---
 starlette/middleware/httpsredirect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/httpsredirect.py b/starlette/middleware/httpsredirect.py
index a835906..5df2097 100644
--- a/starlette/middleware/httpsredirect.py
+++ b/starlette/middleware/httpsredirect.py
@@ -11,7 +11,7 @@ class HTTPSRedirectMiddleware:
         if scope["type"] in ("http", "websocket") and scope["scheme"] in ("http", "ws"):
             url = URL(scope=scope)
             redirect_scheme = {"http": "https", "ws": "wss"}[url.scheme]
-            netloc = url.hostname if url.port in (80, 443) else url.netloc
+            netloc = url.netloc.rpartition(":")[0] if url.port in (80, 443) else url.netloc
             url = url.replace(scheme=redirect_scheme, netloc=netloc)
             response = RedirectResponse(url, status_code=307)
             await response(scope, receive, send)
-- 
2.43.0


From af710890d5a4cf7d59f88956d052c6f1797353f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 11/83] fix: reject wrong frames in WebSocketEndpoint when the
 unused key is present as None

---
 starlette/endpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 1076902..1051dc7 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -85,13 +85,13 @@ class WebSocketEndpoint:
 
     async def decode(self, websocket: WebSocket, message: Message) -> typing.Any:
         if self.encoding == "text":
-            if "text" not in message:
+            if message.get("text") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected text websocket messages, but got bytes")
             return message["text"]
 
         elif self.encoding == "bytes":
-            if "bytes" not in message:
+            if message.get("bytes") is None:
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Expected bytes websocket messages, but got text")
             return message["bytes"]
-- 
2.43.0


From df017bd34f2cb07fb03601ff9f399ded5ee2305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 12/83] fix: deliver empty text frames in WebSocketEndpoint

---
 starlette/endpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 1051dc7..43aca27 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -109,7 +109,7 @@ class WebSocketEndpoint:
                 raise RuntimeError("Malformed JSON data received.")
 
         assert self.encoding is None, f"Unsupported 'encoding' attribute {self.encoding}"
-        return message["text"] if message.get("text") else message["bytes"]
+        return message["text"] if message.get("text") is not None else message["bytes"]
 
     async def on_connect(self, websocket: WebSocket) -> None:
         """Override to handle an incoming websocket connection"""
-- 
2.43.0


From aa364cdfb7431b5faae8c43a64543f416c19f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 13/83] fix: do not leak the request into later responses
 through a shared template context

---
 starlette/templating.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/templating.py b/starlette/templating.py
index f764858..97d1216 100644
--- a/starlette/templating.py
+++ b/starlette/templating.py
@@ -201,6 +201,8 @@ class Jinja2Templates:
             media_type = kwargs.get("media_type")
             background = kwargs.get("background")
 
+        # Copy the context, so that nothing of this request remains in the caller's dictionary.
+        context = dict(context)
         context.setdefault("request", request)
         for context_processor in self.context_processors:
             context.update(context_processor(request))
-- 
2.43.0


From 740199ebfdb1c0a10961b5d0802b289acea035e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 14/83] fix: accept context=None in TemplateResponse

---
 starlette/templating.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/starlette/templating.py b/starlette/templating.py
index 97d1216..f1660e9 100644
--- a/starlette/templating.py
+++ b/starlette/templating.py
@@ -166,7 +166,7 @@ class Jinja2Templates:
                 )
 
                 name = args[0]
-                context = args[1] if len(args) > 1 else kwargs.get("context", {})
+                context = (args[1] if len(args) > 1 else kwargs.get("context")) or {}
                 status_code = args[2] if len(args) > 2 else kwargs.get("status_code", 200)
                 headers = args[3] if len(args) > 3 else kwargs.get("headers")
                 media_type = args[4] if len(args) > 4 else kwargs.get("media_type")
@@ -178,7 +178,7 @@ class Jinja2Templates:
             else:  # the first argument is a request instance (new style)
                 request = args[0]
                 name = args[1] if len(args) > 1 else kwargs["name"]
-                context = args[2] if len(args) > 2 else kwargs.get("context", {})
+                context = (args[2] if len(args) > 2 else kwargs.get("context")) or {}
                 status_code = args[3] if len(args) > 3 else kwargs.get("status_code", 200)
                 headers = args[4] if len(args) > 4 else kwargs.get("headers")
                 media_type = args[5] if len(args) > 5 else kwargs.get("media_type")
@@ -190,10 +190,10 @@ class Jinja2Templates:
                     'Replace `TemplateResponse(name, {"context": context})` by `TemplateResponse(request, name)`.',
                     DeprecationWarning,
                 )
-                if "request" not in kwargs.get("context", {}):
+                if "request" not in (kwargs.get("context") or {}):
                     raise ValueError('context must include a "request" key')
 
-            context = kwargs.get("context", {})
+            context = kwargs.get("context") or {}
             request = kwargs.get("request", context.get("request"))
             name = typing.cast(str, kwargs["name"])
             status_code = kwargs.get("status_code", 200)
-- 
2.43.0


From 495811215fb24a699f59bc992fabfaf67678b448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 15/83] fix: close the files of a multipart form whenever
 parsing it fails

---
 starlette/formparsers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index 4551d68..b6ae8a3 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -265,8 +265,8 @@ class MultiPartParser:
                     await part.file.seek(0)
                 self._file_parts_to_write.clear()
                 self._file_parts_to_finish.clear()
-        except MultiPartException as exc:
-            # Close all the files if there was an error.
+        except BaseException as exc:
+            # Close all the files if there was an error, the client disconnected or the task was cancelled.
             for file in self._files_to_close_on_error:
                 file.close()
             raise exc
-- 
2.43.0


From 29f3b5bbeaf78ca957ffaf45992d0e2557bd30d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 16/83] fix: do not lose body data in Request.is_disconnected()

---
 starlette/requests.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/requests.py b/starlette/requests.py
index 7dc04a7..c6f89bd 100644
--- a/starlette/requests.py
+++ b/starlette/requests.py
@@ -205,6 +205,7 @@ class Request(HTTPConnection):
         self._send = send
         self._stream_consumed = False
         self._is_disconnected = False
+        self._unread_messages: list[Message] = []
         self._form = None
 
     @property
@@ -223,7 +224,7 @@ class Request(HTTPConnection):
         if self._stream_consumed:
             raise RuntimeError("Stream consumed")
         while not self._stream_consumed:
-            message = await self._receive()
+            message = self._unread_messages.pop(0) if self._unread_messages else await self._receive()
             if message["type"] == "http.request":
                 body = message.get("body", b"")
                 if not message.get("more_body", False):
@@ -310,6 +311,9 @@ class Request(HTTPConnection):
 
             if message.get("type") == "http.disconnect":
                 self._is_disconnected = True
+            elif message:
+                # Keep the body message for `stream()`.
+                self._unread_messages.append(message)
 
         return self._is_disconnected
 
-- 
2.43.0


From 434dcfc44ac08ad105c8de9dd2ba2f74bc43d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 17/83] fix: answer 405 for HTTP methods named like attributes
 of HTTPEndpoint

---
 starlette/endpoints.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 43aca27..53dce88 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -32,7 +32,11 @@ class HTTPEndpoint:
         request = Request(self.scope, receive=self.receive)
         handler_name = "get" if request.method == "HEAD" and not hasattr(self, "head") else request.method.lower()
 
-        handler: typing.Callable[[Request], typing.Any] = getattr(self, handler_name, self.method_not_allowed)
+        handler: typing.Callable[[Request], typing.Any] = self.method_not_allowed
+        # The attributes of the endpoint itself, like `dispatch` or `scope`, are not handlers.
+        reserved = hasattr(HTTPEndpoint, handler_name) or handler_name in ("scope", "receive", "send", "_allowed_methods")
+        if not reserved:
+            handler = getattr(self, handler_name, self.method_not_allowed)
         is_async = is_async_callable(handler)
         if is_async:
             response = await handler(request)
-- 
2.43.0


From 540ce3d3478541dce8b3fb3fe640fa4df78868b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 18/83] fix: keep what follows a "#" in CommaSeparatedStrings

---
 starlette/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index f5d74d2..60d473a 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -223,6 +223,7 @@ class CommaSeparatedStrings(typing.Sequence[str]):
             splitter = shlex(value, posix=True)
             splitter.whitespace = ","
             splitter.whitespace_split = True
+            splitter.commenters = ""
             self._items = [item.strip() for item in splitter]
         else:
             self._items = list(value)
-- 
2.43.0


From 16f88ffb4e1c8498d5818114ed662aa9dd291a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 19/83] fix: keep range headers out of later uses of a
 FileResponse

---
 starlette/responses.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index b40662c..e5a4b93 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -390,9 +390,10 @@ class FileResponse(Response):
     async def _handle_single_range(
         self, send: Send, start: int, end: int, file_size: int, send_header_only: bool
     ) -> None:
-        self.headers["content-range"] = f"bytes {start}-{end - 1}/{file_size}"
-        self.headers["content-length"] = str(end - start)
-        await send({"type": "http.response.start", "status": 206, "headers": self.raw_headers})
+        headers = MutableHeaders(raw=list(self.raw_headers))
+        headers["content-range"] = f"bytes {start}-{end - 1}/{file_size}"
+        headers["content-length"] = str(end - start)
+        await send({"type": "http.response.start", "status": 206, "headers": headers.raw})
         if send_header_only:
             await send({"type": "http.response.body", "body": b"", "more_body": False})
         else:
@@ -417,9 +418,10 @@ class FileResponse(Response):
         content_length, header_generator = self.generate_multipart(
             ranges, boundary, file_size, self.headers["content-type"]
         )
-        self.headers["content-range"] = f"multipart/byteranges; boundary={boundary}"
-        self.headers["content-length"] = str(content_length)
-        await send({"type": "http.response.start", "status": 206, "headers": self.raw_headers})
+        headers = MutableHeaders(raw=list(self.raw_headers))
+        headers["content-range"] = f"multipart/byteranges; boundary={boundary}"
+        headers["content-length"] = str(content_length)
+        await send({"type": "http.response.start", "status": 206, "headers": headers.raw})
         if send_header_only:
             await send({"type": "http.response.body", "body": b"", "more_body": False})
         else:
-- 
2.43.0


From b856221503a1e64efa6e183fd06c8a353f402558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 20/83] fix: bracket IPv6 server addresses in URLs built from a
 scope

---
 starlette/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 60d473a..e40f730 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -47,6 +47,8 @@ class URL:
                 url = path
             else:
                 host, port = server
+                if ":" in host:
+                    host = f"[{host}]"
                 default_port = {"http": 80, "https": 443, "ws": 80, "wss": 443}[scheme]
                 if port == default_port:
                     url = f"{scheme}://{host}{path}"
-- 
2.43.0


From 5d29afccdb292c4cafdca898d0d2f86c985461f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 21/83] fix: do not lose request messages when receiving behind
 BaseHTTPMiddleware is cancelled

---
 starlette/middleware/base.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 2a59337..dfdcc2d 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -106,24 +106,31 @@ class BaseHTTPMiddleware:
         app_exc: Exception | None = None
 
         async def call_next(request: Request) -> Response:
+            undelivered: list[Message] = []
+
+            async def receive_message() -> None:
+                # Keep the message for the next call, in case this one is cancelled before it can return it.
+                undelivered.append(await wrapped_receive())
+
             async def receive_or_disconnect() -> Message:
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
 
-                async with anyio.create_task_group() as task_group:
+                if not undelivered:
+                    async with anyio.create_task_group() as task_group:
 
-                    async def wrap(func: typing.Callable[[], typing.Awaitable[T]]) -> T:
-                        result = await func()
-                        task_group.cancel_scope.cancel()
-                        return result
+                        async def wrap(func: typing.Callable[[], typing.Awaitable[T]]) -> T:
+                            result = await func()
+                            task_group.cancel_scope.cancel()
+                            return result
 
-                    task_group.start_soon(wrap, response_sent.wait)
-                    message = await wrap(wrapped_receive)
+                        task_group.start_soon(wrap, response_sent.wait)
+                        await wrap(receive_message)
 
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
 
-                return message
+                return undelivered.pop(0)
 
             async def send_no_error(message: Message) -> None:
                 try:
-- 
2.43.0


From c9091b8fcce6adc8d092f13e9dfb033e530bca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 22/83] fix: do not complete the response of an app that failed
 half way behind BaseHTTPMiddleware

---
 starlette/middleware/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index dfdcc2d..8bb87c1 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -170,6 +170,10 @@ class BaseHTTPMiddleware:
                         yield body
                     if not message.get("more_body", False):
                         break
+                else:
+                    # The app stopped before the end of its response: do not make it look complete.
+                    if app_exc is not None:
+                        raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
             response.raw_headers = message["headers"]
-- 
2.43.0


From ee49b625253a6c11211a36681c4a3a87e976f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 23/83] fix: do not report an OSError of a streaming producer
 as a client disconnect

---
 starlette/responses.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index e5a4b93..872eab5 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -23,7 +23,7 @@ from starlette.background import BackgroundTask
 from starlette.concurrency import iterate_in_threadpool
 from starlette.datastructures import URL, Headers, MutableHeaders
 from starlette.requests import ClientDisconnect
-from starlette.types import Receive, Scope, Send
+from starlette.types import Message, Receive, Scope, Send
 
 
 class Response:
@@ -254,10 +254,14 @@ class StreamingResponse(Response):
         spec_version = tuple(map(int, scope.get("asgi", {}).get("spec_version", "2.0").split(".")))
 
         if spec_version >= (2, 4):
-            try:
-                await self.stream_response(send)
-            except OSError:
-                raise ClientDisconnect()
+
+            async def send_or_disconnect(message: Message) -> None:
+                try:
+                    await send(message)
+                except OSError:
+                    raise ClientDisconnect()
+
+            await self.stream_response(send_or_disconnect)
         else:
             with collapse_excgroups():
                 async with anyio.create_task_group() as task_group:
-- 
2.43.0


From d6584c4948c584739afb0d9a2ded3e0b594f2dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 24/83] fix: accept a response start without headers behind
 BaseHTTPMiddleware

---
 starlette/middleware/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index 8bb87c1..e0ae891 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -176,7 +176,7 @@ class BaseHTTPMiddleware:
                         raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
-            response.raw_headers = message["headers"]
+            response.raw_headers = message.get("headers", [])
             return response
 
         streams: anyio.create_memory_object_stream[Message] = anyio.create_memory_object_stream()
-- 
2.43.0


From ca387b3deba1bddd705281a14425689c493e53f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 25/83] fix: let dispatch functions handle the exceptions of
 the app

---
 starlette/middleware/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index e0ae891..d29e510 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -104,6 +104,7 @@ class BaseHTTPMiddleware:
         wrapped_receive = request.wrapped_receive
         response_sent = anyio.Event()
         app_exc: Exception | None = None
+        app_exc_raised = False
 
         async def call_next(request: Request) -> Response:
             undelivered: list[Message] = []
@@ -157,6 +158,8 @@ class BaseHTTPMiddleware:
                     message = await recv_stream.receive()
             except anyio.EndOfStream:
                 if app_exc is not None:
+                    nonlocal app_exc_raised
+                    app_exc_raised = True
                     raise app_exc
                 raise RuntimeError("No response returned.")
 
@@ -188,7 +191,7 @@ class BaseHTTPMiddleware:
                 response_sent.set()
                 recv_stream.close()
 
-        if app_exc is not None:
+        if app_exc is not None and not app_exc_raised:
             raise app_exc
 
     async def dispatch(self, request: Request, call_next: RequestResponseEndpoint) -> Response:
-- 
2.43.0


From 941bf6c9f3b34cc8d8262ba5d44df0870da6042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 26/83] fix: do not modify the app's own list of headers in
 GZipMiddleware

---
 starlette/middleware/gzip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index b7b89c1..4310dad 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -50,7 +50,8 @@ class IdentityResponder:
         if message_type == "http.response.start":
             # Don't send the initial message until we've determined how to
             # modify the outgoing headers correctly.
-            self.initial_message = message
+            # The list of headers belongs to the application, which may use it for other responses.
+            self.initial_message = {**message, "headers": list(message.get("headers", []))}
             headers = Headers(raw=self.initial_message["headers"])
             self.content_encoding_set = "content-encoding" in headers
             self.content_type_is_excluded = headers.get("content-type", "").startswith(DEFAULT_EXCLUDED_CONTENT_TYPES)
-- 
2.43.0


From d6d793d2b4c918ef713f9f0b57b0cf146f74791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 27/83] fix: accept a response start without headers in
 SessionMiddleware

---
 starlette/middleware/sessions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starlette/middleware/sessions.py b/starlette/middleware/sessions.py
index 5f9fcd8..11f9ffe 100644
--- a/starlette/middleware/sessions.py
+++ b/starlette/middleware/sessions.py
@@ -56,6 +56,7 @@ class SessionMiddleware:
 
         async def send_wrapper(message: Message) -> None:
             if message["type"] == "http.response.start":
+                message.setdefault("headers", [])
                 if scope["session"]:
                     # We have session data to persist.
                     data = b64encode(json.dumps(scope["session"]).encode("utf-8"))
-- 
2.43.0


From 43b606687ec179e5ddac3e857fe2f390a7d99488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 28/83] fix: send the debug response for errors whose text is
 not encodable

---
 starlette/middleware/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/errors.py b/starlette/middleware/errors.py
index 76ad776..9e8efd6 100644
--- a/starlette/middleware/errors.py
+++ b/starlette/middleware/errors.py
@@ -252,9 +252,9 @@ class ServerErrorMiddleware:
 
         if "text/html" in accept:
             content = self.generate_html(exc)
-            return HTMLResponse(content, status_code=500)
+            return HTMLResponse(content.encode("utf-8", "backslashreplace"), status_code=500)
         content = self.generate_plain_text(exc)
-        return PlainTextResponse(content, status_code=500)
+        return PlainTextResponse(content.encode("utf-8", "backslashreplace"), status_code=500)
 
     def error_response(self, request: Request, exc: Exception) -> Response:
         return PlainTextResponse("Internal Server Error", status_code=500)
-- 
2.43.0


From dc464433a641561f7d42caabefb60a99e906c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 29/83] fix: fix: close with 1003 on JSON frames that are not
 valid UTF-8 in WebSocketEndpoint

---
 starlette/endpoints.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 53dce88..684dfe6 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -101,14 +101,13 @@ class WebSocketEndpoint:
             return message["bytes"]
 
         elif self.encoding == "json":
-            if message.get("text") is not None:
-                text = message["text"]
-            else:
-                text = message["bytes"].decode("utf-8")
-
             try:
+                if message.get("text") is not None:
+                    text = message["text"]
+                else:
+                    text = message["bytes"].decode("utf-8")
                 return json.loads(text)
-            except json.decoder.JSONDecodeError:
+            except (UnicodeDecodeError, json.decoder.JSONDecodeError):
                 await websocket.close(code=status.WS_1003_UNSUPPORTED_DATA)
                 raise RuntimeError("Malformed JSON data received.")
 
-- 
2.43.0


From b0becc30148852af619c2b97553145398100ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 30/83] fix: raise NoMatchFound when a parameter of a mount or
 host is missing

---
 starlette/routing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/starlette/routing.py b/starlette/routing.py
index edd6a0e..2fd94dc 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -434,6 +434,9 @@ class Mount(BaseRoute):
         return Match.NONE, {}
 
     def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:
+        if self.param_convertors.keys() - path_params.keys() - {"path"}:
+            raise NoMatchFound(name, path_params)
+
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
             path_params["path"] = path_params["path"].lstrip("/")
@@ -500,6 +503,9 @@ class Host(BaseRoute):
         return Match.NONE, {}
 
     def url_path_for(self, name: str, /, **path_params: typing.Any) -> URLPath:
+        if self.param_convertors.keys() - path_params.keys():
+            raise NoMatchFound(name, path_params)
+
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
             path = path_params.pop("path")
-- 
2.43.0


From f504062e41a8c5eceb55b23cc26fcd7524c16bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 31/83] fix: keep the host of URLs for routes below a Host
 inside a Mount

---
 starlette/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index 2fd94dc..c8f52a1 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -458,7 +458,7 @@ class Mount(BaseRoute):
             for route in self.routes or []:
                 try:
                     url = route.url_path_for(remaining_name, **remaining_params)
-                    return URLPath(path=path_prefix.rstrip("/") + str(url), protocol=url.protocol)
+                    return URLPath(path=path_prefix.rstrip("/") + str(url), protocol=url.protocol, host=url.host)
                 except NoMatchFound:
                     pass
         raise NoMatchFound(name, path_params)
-- 
2.43.0


From fdb8c8798076e64327be05ddb4012437a2fd09bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 32/83] fix: do not convert the parameters of mounts and hosts
 no route of which fits

---
 starlette/routing.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/starlette/routing.py b/starlette/routing.py
index c8f52a1..80106d3 100644
--- a/starlette/routing.py
+++ b/starlette/routing.py
@@ -439,9 +439,9 @@ class Mount(BaseRoute):
 
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
-            path_params["path"] = path_params["path"].lstrip("/")
-            path, remaining_params = replace_params(self.path_format, self.param_convertors, path_params)
-            if not remaining_params:
+            if path_params.keys() == self.param_convertors.keys():
+                path_params["path"] = path_params["path"].lstrip("/")
+                path, _ = replace_params(self.path_format, self.param_convertors, path_params)
                 return URLPath(path=path)
         elif self.name is None or name.startswith(self.name + ":"):
             if self.name is None:
@@ -450,17 +450,17 @@ class Mount(BaseRoute):
             else:
                 # 'name' matches "<mount_name>:<child_name>".
                 remaining_name = name[len(self.name) + 1 :]
-            path_kwarg = path_params.get("path")
-            path_params["path"] = ""
-            path_prefix, remaining_params = replace_params(self.path_format, self.param_convertors, path_params)
-            if path_kwarg is not None:
-                remaining_params["path"] = path_kwarg
+            mount_params = {key: path_params[key] for key in self.param_convertors if key != "path"}
+            remaining_params = {key: value for key, value in path_params.items() if key not in mount_params}
             for route in self.routes or []:
                 try:
                     url = route.url_path_for(remaining_name, **remaining_params)
-                    return URLPath(path=path_prefix.rstrip("/") + str(url), protocol=url.protocol, host=url.host)
                 except NoMatchFound:
-                    pass
+                    continue
+                # Only convert the parameters of the mount once a route is known to fit.
+                mount_params["path"] = ""
+                path_prefix, _ = replace_params(self.path_format, self.param_convertors, mount_params)
+                return URLPath(path=path_prefix.rstrip("/") + str(url), protocol=url.protocol, host=url.host)
         raise NoMatchFound(name, path_params)
 
     async def handle(self, scope: Scope, receive: Receive, send: Send) -> None:
@@ -509,8 +509,8 @@ class Host(BaseRoute):
         if self.name is not None and name == self.name and "path" in path_params:
             # 'name' matches "<mount_name>".
             path = path_params.pop("path")
-            host, remaining_params = replace_params(self.host_format, self.param_convertors, path_params)
-            if not remaining_params:
+            if path_params.keys() == self.param_convertors.keys():
+                host, _ = replace_params(self.host_format, self.param_convertors, path_params)
                 return URLPath(path=path, host=host)
         elif self.name is None or name.startswith(self.name + ":"):
             if self.name is None:
@@ -519,13 +519,16 @@ class Host(BaseRoute):
             else:
                 # 'name' matches "<mount_name>:<child_name>".
                 remaining_name = name[len(self.name) + 1 :]
-            host, remaining_params = replace_params(self.host_format, self.param_convertors, path_params)
+            host_params = {key: path_params[key] for key in self.param_convertors}
+            remaining_params = {key: value for key, value in path_params.items() if key not in host_params}
             for route in self.routes or []:
                 try:
                     url = route.url_path_for(remaining_name, **remaining_params)
-                    return URLPath(path=str(url), protocol=url.protocol, host=host)
                 except NoMatchFound:
-                    pass
+                    continue
+                # Only convert the parameters of the host once a route is known to fit.
+                host, _ = replace_params(self.host_format, self.param_convertors, host_params)
+                return URLPath(path=str(url), protocol=url.protocol, host=host)
         raise NoMatchFound(name, path_params)
 
     async def handle(self, scope: Scope, receive: Receive, send: Send) -> None:
-- 
2.43.0


From b6250cabfeef7c998972cdb77bcf9e98acc29ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 33/83] fix: keep '%', '?', '#' and line breaks of the path in
 URLs built from a scope

---
 starlette/datastructures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index e40f730..7cf3b73 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -20,6 +20,9 @@ _KeyType = typing.TypeVar("_KeyType")
 _CovariantValueType = typing.TypeVar("_CovariantValueType", covariant=True)
 
 
+_SCOPE_PATH_ESCAPES = {ord(char): f"%{ord(char):02X}" for char in "%?#\t\n\r"}
+
+
 class URL:
     def __init__(
         self,
@@ -32,7 +35,8 @@ class URL:
             assert not components, 'Cannot set both "scope" and "**components".'
             scheme = scope.get("scheme", "http")
             server = scope.get("server", None)
-            path = scope["path"]
+            # The path in the scope is decoded: keep what would end or alter the path of the URL.
+            path = scope["path"].translate(_SCOPE_PATH_ESCAPES)
             query_string = scope.get("query_string", b"")
 
             host_header = None
-- 
2.43.0


From ad4f7f611f95eedc7a2c5d55d8a973183eaf1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 34/83] fix: answer 404 for static paths through a loop of
 symlinks

---
 starlette/staticfiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index 35a3da6..a4c0b43 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -118,8 +118,8 @@ class StaticFiles:
         except PermissionError:
             raise HTTPException(status_code=401)
         except OSError as exc:
-            # Filename is too long, so it can't be a valid static file.
-            if exc.errno == errno.ENAMETOOLONG:
+            # Filename is too long or a loop of symlinks, so it can't be a valid static file.
+            if exc.errno in (errno.ENAMETOOLONG, errno.ELOOP):
                 raise HTTPException(status_code=404)
 
             raise exc
-- 
2.43.0


From bbec1bff6d11d9c0a5f349bf355a424480e77a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 35/83] fix: answer a client error when a directory's
 index.html or 404.html cannot be looked up

---
 starlette/staticfiles.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index a4c0b43..a51a1be 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -113,20 +113,7 @@ class StaticFiles:
         if scope["method"] not in ("GET", "HEAD"):
             raise HTTPException(status_code=405)
 
-        try:
-            full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, path)
-        except PermissionError:
-            raise HTTPException(status_code=401)
-        except OSError as exc:
-            # Filename is too long or a loop of symlinks, so it can't be a valid static file.
-            if exc.errno in (errno.ENAMETOOLONG, errno.ELOOP):
-                raise HTTPException(status_code=404)
-
-            raise exc
-        except ValueError:
-            # Null bytes or unencodable characters, so it can't be a valid static file.
-            raise HTTPException(status_code=404)
-
+        full_path, stat_result = await self._lookup_path(path)
         if stat_result and stat.S_ISREG(stat_result.st_mode):
             # We have a static file to serve.
             return self.file_response(full_path, stat_result, scope)
@@ -135,7 +122,7 @@ class StaticFiles:
             # We're in HTML mode, and have got a directory URL.
             # Check if we have 'index.html' file to serve.
             index_path = os.path.join(path, "index.html")
-            full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, index_path)
+            full_path, stat_result = await self._lookup_path(index_path)
             if stat_result is not None and stat.S_ISREG(stat_result.st_mode):
                 if not scope["path"].endswith("/"):
                     # Directory URLs should redirect to always end in "/".
@@ -146,11 +133,26 @@ class StaticFiles:
 
         if self.html:
             # Check for '404.html' if we're in HTML mode.
-            full_path, stat_result = await anyio.to_thread.run_sync(self.lookup_path, "404.html")
+            full_path, stat_result = await self._lookup_path("404.html")
             if stat_result and stat.S_ISREG(stat_result.st_mode):
                 return FileResponse(full_path, stat_result=stat_result, status_code=404)
         raise HTTPException(status_code=404)
 
+    async def _lookup_path(self, path: str) -> tuple[str, os.stat_result | None]:
+        try:
+            return await anyio.to_thread.run_sync(self.lookup_path, path)
+        except PermissionError:
+            raise HTTPException(status_code=401)
+        except OSError as exc:
+            # Filename is too long or a loop of symlinks, so it can't be a valid static file.
+            if exc.errno in (errno.ENAMETOOLONG, errno.ELOOP):
+                raise HTTPException(status_code=404)
+
+            raise exc
+        except ValueError:
+            # Null bytes or unencodable characters, so it can't be a valid static file.
+            raise HTTPException(status_code=404)
+
     def lookup_path(self, path: str) -> tuple[str, os.stat_result | None]:
         for directory in self.all_directories:
             joined_path = os.path.join(directory, path)
-- 
2.43.0


From ea13de132d02b9f2a7aed2a232b71d4c0f534194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 36/83] fix: honour the time zone of If-Modified-Since in
 StaticFiles

---
 starlette/staticfiles.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/starlette/staticfiles.py b/starlette/staticfiles.py
index a51a1be..0a980de 100644
--- a/starlette/staticfiles.py
+++ b/starlette/staticfiles.py
@@ -5,7 +5,7 @@ import importlib.util
 import os
 import stat
 import typing
-from email.utils import parsedate
+from email.utils import mktime_tz, parsedate_tz
 
 import anyio
 import anyio.to_thread
@@ -215,11 +215,11 @@ class StaticFiles:
             pass
 
         try:
-            if_modified_since = parsedate(request_headers["if-modified-since"])
-            last_modified = parsedate(response_headers["last-modified"])
-            if if_modified_since is not None and last_modified is not None and if_modified_since >= last_modified:
-                return True
-        except KeyError:
+            if_modified_since = parsedate_tz(request_headers["if-modified-since"])
+            last_modified = parsedate_tz(response_headers["last-modified"])
+            if if_modified_since is not None and last_modified is not None:
+                return mktime_tz(if_modified_since) >= mktime_tz(last_modified)
+        except (KeyError, ValueError, OverflowError):
             pass
 
         return False
-- 
2.43.0


From 8766caac3507abbf9e73ce8889f2e1f880bb3d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 37/83] fix: do not answer 206 for a FileResponse with another
 status than 200

---
 starlette/responses.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 872eab5..5bef34b 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -359,7 +359,12 @@ class FileResponse(Response):
         http_range = headers.get("range")
         http_if_range = headers.get("if-range")
 
-        if http_range is None or (http_if_range is not None and not self._should_use_range(http_if_range)):
+        if (
+            http_range is None
+            # Only a successful response has ranges (RFC 9110, section 14.2).
+            or self.status_code != 200
+            or (http_if_range is not None and not self._should_use_range(http_if_range))
+        ):
             await self._handle_simple(send, send_header_only)
         else:
             try:
-- 
2.43.0


From 301be4f5fc1da3144960d63cf739d635432cfc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:37 +0000
Subject: [PATCH 38/83] fix: answer 400 for byte ranges with numbers of
 thousands of digits

---
 starlette/responses.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 5bef34b..4d71895 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -469,14 +469,18 @@ class FileResponse(Response):
         if units != "bytes":
             raise MalformedRangeHeader("Only support bytes range")
 
-        ranges = [
-            (
-                int(_[0]) if _[0] else file_size - int(_[1]),
-                int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
-            )
-            for _ in _RANGE_PATTERN.findall(range_)
-            if _ != ("", "")
-        ]
+        try:
+            ranges = [
+                (
+                    int(_[0]) if _[0] else file_size - int(_[1]),
+                    int(_[1]) + 1 if _[0] and _[1] and int(_[1]) < file_size else file_size,
+                )
+                for _ in _RANGE_PATTERN.findall(range_)
+                if _ != ("", "")
+            ]
+        except ValueError:
+            # The number has more digits than int() accepts.
+            raise MalformedRangeHeader()
 
         if len(ranges) == 0:
             raise MalformedRangeHeader("Range header: range must be requested")
-- 
2.43.0


From 0600001f4d4bc343ae3ba25ef87efee164d5ab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:37 +0000
Subject: [PATCH 39/83] fix: do not send more than the content-length of a file
 that grows while it is sent

---
 starlette/responses.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 4d71895..326b976 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -365,7 +365,7 @@ class FileResponse(Response):
             or self.status_code != 200
             or (http_if_range is not None and not self._should_use_range(http_if_range))
         ):
-            await self._handle_simple(send, send_header_only)
+            await self._handle_simple(send, stat_result.st_size, send_header_only)
         else:
             try:
                 ranges = self._parse_range_header(http_range, stat_result.st_size)
@@ -384,7 +384,7 @@ class FileResponse(Response):
         if self.background is not None:
             await self.background()
 
-    async def _handle_simple(self, send: Send, send_header_only: bool) -> None:
+    async def _handle_simple(self, send: Send, file_size: int, send_header_only: bool) -> None:
         await send({"type": "http.response.start", "status": self.status_code, "headers": self.raw_headers})
         if send_header_only:
             await send({"type": "http.response.body", "body": b"", "more_body": False})
@@ -392,8 +392,10 @@ class FileResponse(Response):
             async with await anyio.open_file(self.path, mode="rb") as file:
                 more_body = True
                 while more_body:
-                    chunk = await file.read(self.chunk_size)
-                    more_body = len(chunk) == self.chunk_size
+                    # The file may have grown since: do not send more than the content-length.
+                    chunk = await file.read(min(self.chunk_size, file_size))
+                    file_size -= len(chunk)
+                    more_body = len(chunk) == self.chunk_size and file_size > 0
                     await send({"type": "http.response.body", "body": chunk, "more_body": more_body})
 
     async def _handle_single_range(
-- 
2.43.0


From 43ea8e8ae23002c21149b01ee7597682211c79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:09 +0000
Subject: [PATCH 40/83] fix: do not take quadratic time to parse Range headers

---
 starlette/responses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/responses.py b/starlette/responses.py
index 326b976..97d07e9 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -287,7 +287,8 @@ class RangeNotSatisfiable(Exception):
         self.max_size = max_size
 
 
-_RANGE_PATTERN = re.compile(r"(\d*)-(\d*)")
+# The lookbehind keeps the time linear: no match is tried from the middle of a number.
+_RANGE_PATTERN = re.compile(r"(?<!\d)(\d*)-(\d*)")
 
 
 class FileResponse(Response):
-- 
2.43.0


From 060348e0f7d44acee6cb1a947805c39925b33dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:33 +0000
Subject: [PATCH 41/83] fix: fall back to latin-1 for every charset that cannot
 decode a form

---
 starlette/formparsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/formparsers.py b/starlette/formparsers.py
index b6ae8a3..8c0b963 100644
--- a/starlette/formparsers.py
+++ b/starlette/formparsers.py
@@ -44,7 +44,7 @@ class MultipartPart:
 def _user_safe_decode(src: bytes | bytearray, codec: str) -> str:
     try:
         return src.decode(codec)
-    except (UnicodeDecodeError, LookupError):
+    except (UnicodeError, LookupError):
         return src.decode("latin-1")
 
 
-- 
2.43.0


From aac3c0e1d3ac2435f6b4788316efbf7dcc686587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 42/83] fix: close the files of a form even when the task is
 cancelled

---
 starlette/datastructures.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 7cf3b73..a52c0c4 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -4,6 +4,8 @@ import typing
 from shlex import shlex
 from urllib.parse import SplitResult, parse_qsl, urlencode, urlsplit
 
+import anyio
+
 from starlette.concurrency import run_in_threadpool
 from starlette.types import Scope
 
@@ -484,9 +486,11 @@ class FormData(ImmutableMultiDict[str, typing.Union[UploadFile, str]]):
         super().__init__(*args, **kwargs)
 
     async def close(self) -> None:
-        for key, value in self.multi_items():
-            if isinstance(value, UploadFile):
-                await value.close()
+        # Also when the task is cancelled: nothing else closes these files.
+        with anyio.CancelScope(shield=True):
+            for key, value in self.multi_items():
+                if isinstance(value, UploadFile):
+                    await value.close()
 
 
 class Headers(typing.Mapping[str, str]):
-- 
2.43.0


From 14f6df8b85dd1d94338020593368f986014bae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 43/83] fix: roll uploads over to disk in a worker thread

---
 starlette/datastructures.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index a52c0c4..0afc827 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -443,11 +443,17 @@ class UploadFile:
         rolled_to_disk = getattr(self.file, "_rolled", True)
         return not rolled_to_disk
 
+    def _will_roll(self, size_to_add: int) -> bool:
+        # check for SpooledTemporaryFile._max_size: the write that exceeds it
+        # moves the whole file to disk
+        max_size = getattr(self.file, "_max_size", 0)
+        return bool(max_size) and self.file.tell() + size_to_add > max_size
+
     async def write(self, data: bytes) -> None:
         if self.size is not None:
             self.size += len(data)
 
-        if self._in_memory:
+        if self._in_memory and not self._will_roll(len(data)):
             self.file.write(data)
         else:
             await run_in_threadpool(self.file.write, data)
-- 
2.43.0


From 65b0f0c3e35ef73597abb124e229b0a268109d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:57 +0000
Subject: [PATCH 44/83] fix: do not count bytes of an upload that could not be
 written

---
 starlette/datastructures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 0afc827..1778d79 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -450,14 +450,14 @@ class UploadFile:
         return bool(max_size) and self.file.tell() + size_to_add > max_size
 
     async def write(self, data: bytes) -> None:
-        if self.size is not None:
-            self.size += len(data)
-
         if self._in_memory and not self._will_roll(len(data)):
             self.file.write(data)
         else:
             await run_in_threadpool(self.file.write, data)
 
+        if self.size is not None:
+            self.size += len(data)
+
     async def read(self, size: int = -1) -> bytes:
         if self._in_memory:
             return self.file.read(size)
-- 
2.43.0


From 931e75a9bdf070b6b735f290ad00fd73ecefb799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 45/83] fix: give the last value of query parameters whose keys
 become equal as strings

---
 starlette/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 1778d79..6736b8b 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -404,7 +404,7 @@ class QueryParams(ImmutableMultiDict[str, str]):
         else:
             super().__init__(*args, **kwargs)  # type: ignore[arg-type]
         self._list = [(str(k), str(v)) for k, v in self._list]
-        self._dict = {str(k): str(v) for k, v in self._dict.items()}
+        self._dict = {k: v for k, v in self._list}
 
     def __str__(self) -> str:
         return urlencode(self._list)
-- 
2.43.0


From dec6ecc92adcf2cc88bb1ba47734a4a609d4c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 46/83] fix: keep every existing Vary header when adding to it

---
 starlette/datastructures.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 6736b8b..5d787a8 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -657,10 +657,7 @@ class MutableHeaders(Headers):
         self._list.append((append_key, append_value))
 
     def add_vary_header(self, vary: str) -> None:
-        existing = self.get("vary")
-        if existing is not None:
-            vary = ", ".join([existing, vary])
-        self["vary"] = vary
+        self["vary"] = ", ".join([*self.getlist("vary"), vary])
 
 
 class State:
-- 
2.43.0


From e19fffc1735c44d2e6154f7fc532ca7a9d509b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 47/83] fix: replace parts of URLs without host, and hosts by
 IPv6 addresses

---
 starlette/datastructures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 5d787a8..29e8d30 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -126,8 +126,10 @@ class URL:
                 netloc = self.netloc
                 _, _, hostname = netloc.rpartition("@")
 
-                if hostname[-1] != "]":
+                if not hostname.endswith("]"):
                     hostname = hostname.rsplit(":", 1)[0]
+            elif ":" in hostname and not hostname.startswith("["):
+                hostname = f"[{hostname}]"
 
             netloc = hostname
             if port is not None:
-- 
2.43.0


From 4d29de341c84b3cea8361b5bbed9bcce6904ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 48/83] fix: accept preflight requests with an empty list of
 headers

---
 starlette/middleware/cors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starlette/middleware/cors.py b/starlette/middleware/cors.py
index 6150269..48e99f3 100644
--- a/starlette/middleware/cors.py
+++ b/starlette/middleware/cors.py
@@ -125,8 +125,9 @@ class CORSMiddleware:
         if self.allow_all_headers and requested_headers is not None:
             headers["Access-Control-Allow-Headers"] = requested_headers
         elif requested_headers is not None:
-            for header in [h.lower() for h in requested_headers.split(",")]:
-                if header.strip() not in self.allow_headers:
+            for header in [h.strip().lower() for h in requested_headers.split(",")]:
+                # Lists may have empty elements, which request nothing.
+                if header and header not in self.allow_headers:
                     failures.append("headers")
                     break
 
-- 
2.43.0


From 447ed678958a2cc57df89bb595ecf88f77e0de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 49/83] fix: do not compress the messages of the application in
 place

---
 starlette/middleware/gzip.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/starlette/middleware/gzip.py b/starlette/middleware/gzip.py
index 4310dad..d18cda0 100644
--- a/starlette/middleware/gzip.py
+++ b/starlette/middleware/gzip.py
@@ -77,7 +77,7 @@ class IdentityResponder:
                 if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
                     headers["Content-Length"] = str(len(body))
-                    message["body"] = body
+                    message = {**message, "body": body}
 
                 await self.send(self.initial_message)
                 await self.send(message)
@@ -90,7 +90,7 @@ class IdentityResponder:
                 if body != message.get("body", b""):
                     headers["Content-Encoding"] = self.content_encoding
                     del headers["Content-Length"]
-                    message["body"] = body
+                    message = {**message, "body": body}
 
                 await self.send(self.initial_message)
                 await self.send(message)
@@ -99,9 +99,7 @@ class IdentityResponder:
             body = message.get("body", b"")
             more_body = message.get("more_body", False)
 
-            message["body"] = self.apply_compression(body, more_body=more_body)
-
-            await self.send(message)
+            await self.send({**message, "body": self.apply_compression(body, more_body=more_body)})
         elif message_type == "http.response.pathsend":
             # The server sends the file itself, there is nothing to compress.
             self.started = True
-- 
2.43.0


From 703ae61cffa3e869b34b6fcd87f801b297430aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 50/83] fix: redirect requests whose scope has no scheme to
 https

---
 starlette/middleware/httpsredirect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/httpsredirect.py b/starlette/middleware/httpsredirect.py
index 5df2097..e0d4ce8 100644
--- a/starlette/middleware/httpsredirect.py
+++ b/starlette/middleware/httpsredirect.py
@@ -8,7 +8,7 @@ class HTTPSRedirectMiddleware:
         self.app = app
 
     async def __call__(self, scope: Scope, receive: Receive, send: Send) -> None:
-        if scope["type"] in ("http", "websocket") and scope["scheme"] in ("http", "ws"):
+        if scope["type"] in ("http", "websocket") and scope.get("scheme", "http") in ("http", "ws"):
             url = URL(scope=scope)
             redirect_scheme = {"http": "https", "ws": "wss"}[url.scheme]
             netloc = url.netloc.rpartition(":")[0] if url.port in (80, 443) else url.netloc
-- 
2.43.0


From c5b15faa8c8b187232df04b79f0d7782e3b99b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 51/83] fix: raise ValueError for a bad value when the cast has
 no __name__

---
 starlette/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/config.py b/starlette/config.py
index ca15c56..ebe5e0c 100644
--- a/starlette/config.py
+++ b/starlette/config.py
@@ -135,4 +135,5 @@ class Config:
         try:
             return cast(value)
         except (TypeError, ValueError):
-            raise ValueError(f"Config '{key}' has value '{value}'. Not a valid {cast.__name__}.")
+            name = getattr(cast, "__name__", repr(cast))
+            raise ValueError(f"Config '{key}' has value '{value}'. Not a valid {name}.")
-- 
2.43.0


From 66411fda40172262e04484df4dcd6b504030bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 52/83] fix: do not percent-decode the path twice in TestClient

---
 starlette/testclient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index d54025e..7158d99 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -10,7 +10,7 @@ import typing
 import warnings
 from concurrent.futures import Future
 from types import GeneratorType
-from urllib.parse import unquote, urljoin
+from urllib.parse import urljoin
 
 import anyio
 import anyio.abc
@@ -243,7 +243,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 subprotocols = [value.strip() for value in subprotocol.split(",")]
             scope = {
                 "type": "websocket",
-                "path": unquote(path),
+                "path": path,
                 "raw_path": raw_path.split(b"?", 1)[0],
                 "root_path": self.root_path,
                 "scheme": scheme,
@@ -262,7 +262,7 @@ class _TestClientTransport(httpx.BaseTransport):
             "type": "http",
             "http_version": "1.1",
             "method": request.method,
-            "path": unquote(path),
+            "path": path,
             "raw_path": raw_path.split(b"?", 1)[0],
             "root_path": self.root_path,
             "scheme": scheme,
-- 
2.43.0


From 9cd06d6cdd04605f6eeb13ed70d30da92b1a004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 53/83] fix: pass header bytes through TestClient unchanged

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 7158d99..4d64a2d 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -231,7 +231,7 @@ class _TestClientTransport(httpx.BaseTransport):
             headers = [(b"host", (f"{host}:{port}").encode())]
 
         # Include other request headers.
-        headers += [(key.lower().encode(), value.encode()) for key, value in request.headers.multi_items()]
+        headers += [(key.lower(), value) for key, value in request.headers.raw]
 
         scope: dict[str, typing.Any]
 
-- 
2.43.0


From 4e4e65511f87500b2e7c6583e071b9a7bdce45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 54/83] fix: accept non-ASCII response headers in TestClient

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 4d64a2d..0a0d8db 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -315,7 +315,7 @@ class _TestClientTransport(httpx.BaseTransport):
             if message["type"] == "http.response.start":
                 assert not response_started, 'Received multiple "http.response.start" messages.'
                 raw_kwargs["status_code"] = message["status"]
-                raw_kwargs["headers"] = [(key.decode(), value.decode()) for key, value in message.get("headers", [])]
+                raw_kwargs["headers"] = [(bytes(key), bytes(value)) for key, value in message.get("headers", [])]
                 response_started = True
             elif message["type"] == "http.response.body":
                 assert response_started, 'Received "http.response.body" without "http.response.start".'
-- 
2.43.0


From 981b6f85f9798ca3ca3d7d5a439972085b8be630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 55/83] fix: keep the body sent before an application stopped
 in TestClient

---
 starlette/testclient.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 0a0d8db..1717768 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -325,7 +325,6 @@ class _TestClientTransport(httpx.BaseTransport):
                 if request.method != "HEAD":
                     raw_kwargs["stream"].write(body)
                 if not more_body:
-                    raw_kwargs["stream"].seek(0)
                     response_complete.set()
             elif message["type"] == "http.response.debug":
                 template = message["info"]["template"]
@@ -348,7 +347,7 @@ class _TestClientTransport(httpx.BaseTransport):
                 "stream": io.BytesIO(),
             }
 
-        raw_kwargs["stream"] = httpx.ByteStream(raw_kwargs["stream"].read())
+        raw_kwargs["stream"] = httpx.ByteStream(raw_kwargs["stream"].getvalue())
 
         response = httpx.Response(**raw_kwargs, request=request)
         if template is not None:
-- 
2.43.0


From a0a0d4f41a63939663faba80f232ff97edb51d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 56/83] fix: do not modify or duplicate the headers given to
 TestClient

---
 starlette/testclient.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 1717768..9fe2cc4 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -390,12 +390,11 @@ class TestClient(httpx.Client):
             app_state=self.app_state,
             client=client,
         )
-        if headers is None:
-            headers = {}
-        headers.setdefault("user-agent", "testclient")
+        client_headers = httpx.Headers(headers)
+        client_headers.setdefault("user-agent", "testclient")
         super().__init__(
             base_url=base_url,
-            headers=headers,
+            headers=client_headers,
             transport=transport,
             follow_redirects=follow_redirects,
             cookies=cookies,
@@ -641,7 +640,7 @@ class TestClient(httpx.Client):
         **kwargs: typing.Any,
     ) -> WebSocketTestSession:
         url = urljoin("ws://testserver", url)
-        headers = kwargs.get("headers", {})
+        headers = httpx.Headers(kwargs.get("headers"))
         headers.setdefault("connection", "upgrade")
         headers.setdefault("sec-websocket-key", "testserver==")
         headers.setdefault("sec-websocket-version", "13")
-- 
2.43.0


From 55848a0ca3273f3e695c0292da0a0c176f8268b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 57/83] fix: accept IPv6 hosts in TestClient URLs

---
 starlette/testclient.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 9fe2cc4..2575234 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -208,19 +208,14 @@ class _TestClientTransport(httpx.BaseTransport):
 
     def handle_request(self, request: httpx.Request) -> httpx.Response:
         scheme = request.url.scheme
-        netloc = request.url.netloc.decode(encoding="ascii")
         path = request.url.path
         raw_path = request.url.raw_path
         query = request.url.query.decode(encoding="ascii")
 
         default_port = {"http": 80, "ws": 80, "https": 443, "wss": 443}[scheme]
 
-        if ":" in netloc:
-            host, port_string = netloc.split(":", 1)
-            port = int(port_string)
-        else:
-            host = netloc
-            port = default_port
+        host = request.url.raw_host.decode(encoding="ascii")
+        port = default_port if request.url.port is None else request.url.port
 
         # Include the 'host' header.
         if "host" in request.headers:
-- 
2.43.0


From 9593466eb79c01106a7eb953913eb1a09afa8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 58/83] fix: accept denial responses without headers or body in
 TestClient

---
 starlette/testclient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 2575234..f18a69a 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -136,12 +136,12 @@ class WebSocketTestSession:
             raise WebSocketDisconnect(code=message.get("code", 1000), reason=message.get("reason", ""))
         elif message["type"] == "websocket.http.response.start":
             status_code: int = message["status"]
-            headers: list[tuple[bytes, bytes]] = message["headers"]
+            headers: list[tuple[bytes, bytes]] = message.get("headers", [])
             body: list[bytes] = []
             while True:
                 message = self.receive()
                 assert message["type"] == "websocket.http.response.body"
-                body.append(message["body"])
+                body.append(message.get("body", b""))
                 if not message.get("more_body", False):
                     break
             raise WebSocketDenialResponse(status_code=status_code, headers=headers, content=b"".join(body))
-- 
2.43.0


From d68d8501dda36e3683156adec1db2a9ba241e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 59/83] fix: raise lifespan failures that the application
 reports without raising in TestClient

---
 starlette/testclient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index f18a69a..032a40b 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -706,6 +706,7 @@ class TestClient(httpx.Client):
         )
         if message["type"] == "lifespan.startup.failed":
             await receive()
+            raise RuntimeError(message.get("message") or "Application startup failed.")
 
     async def wait_shutdown(self) -> None:
         async def receive() -> typing.Any:
@@ -722,3 +723,4 @@ class TestClient(httpx.Client):
         )
         if message["type"] == "lifespan.shutdown.failed":
             await receive()
+            raise RuntimeError(message.get("message") or "Application shutdown failed.")
-- 
2.43.0


From 63cb39e60cabc7aab2ade72e406037a962f597f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 60/83] fix: do not wait forever for a websocket application
 that has returned in TestClient

---
 starlette/testclient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index 032a40b..efc5bf1 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -127,6 +127,7 @@ class WebSocketTestSession:
             self._send_rx = send_rx
             task_status.started(cs)
             await self.app(self.scope, receive_rx.receive, send_tx.send)
+            send_tx.close()
 
             # wait for cs.cancel to be called before closing streams
             await anyio.sleep_forever()
-- 
2.43.0


From c7e208b27f4a3b000e7cb4bfdc82dca9dd554fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 61/83] fix: do not send an empty subprotocol for an empty list
 in TestClient.websocket_connect

---
 starlette/testclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/testclient.py b/starlette/testclient.py
index efc5bf1..72ee6f4 100644
--- a/starlette/testclient.py
+++ b/starlette/testclient.py
@@ -640,7 +640,7 @@ class TestClient(httpx.Client):
         headers.setdefault("connection", "upgrade")
         headers.setdefault("sec-websocket-key", "testserver==")
         headers.setdefault("sec-websocket-version", "13")
-        if subprotocols is not None:
+        if subprotocols:
             headers.setdefault("sec-websocket-protocol", ", ".join(subprotocols))
         kwargs["headers"] = headers
         try:
-- 
2.43.0


From e7ca18eb0ae3d5188e614ffe5235a5cb3ea40081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 62/83] fix: get the iterator of a sync iterable in a worker
 thread too

---
 starlette/concurrency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/concurrency.py b/starlette/concurrency.py
index 494f342..8dfbd68 100644
--- a/starlette/concurrency.py
+++ b/starlette/concurrency.py
@@ -54,7 +54,7 @@ def _next(iterator: typing.Iterator[T]) -> T:
 async def iterate_in_threadpool(
     iterator: typing.Iterable[T],
 ) -> typing.AsyncIterator[T]:
-    as_iterator = iter(iterator)
+    as_iterator = await anyio.to_thread.run_sync(iter, iterator)
     while True:
         try:
             yield await anyio.to_thread.run_sync(_next, as_iterator)
-- 
2.43.0


From be584152c37dfbd608c54a470ea42b0f95a2d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 63/83] fix: a class with an async __call__ method is not an
 async callable itself

---
 starlette/_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starlette/_utils.py b/starlette/_utils.py
index 8001c47..3f077da 100644
--- a/starlette/_utils.py
+++ b/starlette/_utils.py
@@ -36,6 +36,10 @@ def is_async_callable(obj: typing.Any) -> typing.Any:
     while isinstance(obj, functools.partial):
         obj = obj.func
 
+    if inspect.isclass(obj):
+        # Calling a class makes an instance, even if the instances are async callables.
+        return False
+
     return inspect.iscoroutinefunction(obj) or (callable(obj) and inspect.iscoroutinefunction(obj.__call__))
 
 
-- 
2.43.0


From f7e104cd252b830c44af274db57d8a203b10d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 64/83] fix: answer 405 for a method whose HTTPEndpoint
 attribute is None or not callable

---
 starlette/endpoints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index 684dfe6..ea321b7 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -37,6 +37,8 @@ class HTTPEndpoint:
         reserved = hasattr(HTTPEndpoint, handler_name) or handler_name in ("scope", "receive", "send", "_allowed_methods")
         if not reserved:
             handler = getattr(self, handler_name, self.method_not_allowed)
+        if not callable(handler):
+            handler = self.method_not_allowed
         is_async = is_async_callable(handler)
         if is_async:
             response = await handler(request)
-- 
2.43.0


From 7d65497541859524c7e474dd38c6b379d9804c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 65/83] fix: do not modify the base schema when generating a
 schema

---
 starlette/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/schemas.py b/starlette/schemas.py
index bfc40e2..3d4c5c9 100644
--- a/starlette/schemas.py
+++ b/starlette/schemas.py
@@ -130,7 +130,7 @@ class SchemaGenerator(BaseSchemaGenerator):
 
     def get_schema(self, routes: list[BaseRoute]) -> dict[str, typing.Any]:
         schema = dict(self.base_schema)
-        schema.setdefault("paths", {})
+        schema["paths"] = {path: dict(operations) for path, operations in schema.get("paths", {}).items()}
         endpoints_info = self.get_endpoints(routes)
 
         for endpoint in endpoints_info:
-- 
2.43.0


From 41bb619b5a7a42005366dc6737d813fd55ee5596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 66/83] fix: list only the methods a route accepts in the
 schema

---
 starlette/schemas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/schemas.py b/starlette/schemas.py
index 3d4c5c9..44e4fcf 100644
--- a/starlette/schemas.py
+++ b/starlette/schemas.py
@@ -80,6 +80,8 @@ class BaseSchemaGenerator:
                 for method in ["get", "post", "put", "patch", "delete", "options"]:
                     if not hasattr(route.endpoint, method):
                         continue
+                    if route.methods and method.upper() not in route.methods:
+                        continue
                     func = getattr(route.endpoint, method)
                     endpoints_info.append(EndpointInfo(path, method.lower(), func))
 
-- 
2.43.0


From 777fa395f3eea171c250e3ae68b0786d50e071b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 67/83] fix: a docstring that is not valid YAML does not break
 the schema

---
 starlette/schemas.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starlette/schemas.py b/starlette/schemas.py
index 44e4fcf..3a85d98 100644
--- a/starlette/schemas.py
+++ b/starlette/schemas.py
@@ -111,7 +111,11 @@ class BaseSchemaGenerator:
         # the docstring.
         docstring = docstring.split("---")[-1]
 
-        parsed = yaml.safe_load(docstring)
+        try:
+            parsed = yaml.safe_load(docstring)
+        except yaml.YAMLError:
+            # Most prose is not YAML.
+            return {}
 
         if not isinstance(parsed, dict):
             # A regular docstring (not yaml formatted) can return
-- 
2.43.0


From ef25db482504ed8daa93f033f101c3f5aeba1d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 68/83] fix: no query parameters when the scope has no
 query_string

---
 starlette/requests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starlette/requests.py b/starlette/requests.py
index c6f89bd..e0ffd63 100644
--- a/starlette/requests.py
+++ b/starlette/requests.py
@@ -128,7 +128,8 @@ class HTTPConnection(typing.Mapping[str, typing.Any]):
     @property
     def query_params(self) -> QueryParams:
         if not hasattr(self, "_query_params"):  # pragma: no branch
-            self._query_params = QueryParams(self.scope["query_string"])
+            # The query string is optional in a websocket scope.
+            self._query_params = QueryParams(self.scope.get("query_string") or b"")
         return self._query_params
 
     @property
-- 
2.43.0


From c54722a60bac9d4ed061f56ce7d34d7a983cce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 69/83] fix: split the WSGI script name from the path only at a
 segment boundary

---
 starlette/middleware/wsgi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 6e0a3fa..72c89a2 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -9,6 +9,7 @@ import warnings
 import anyio
 from anyio.abc import ObjectReceiveStream, ObjectSendStream
 
+from starlette._utils import get_route_path
 from starlette.types import Receive, Scope, Send
 
 warnings.warn(
@@ -24,9 +25,7 @@ def build_environ(scope: Scope, body: bytes) -> dict[str, typing.Any]:
     """
 
     script_name = scope.get("root_path", "").encode("utf8").decode("latin1")
-    path_info = scope["path"].encode("utf8").decode("latin1")
-    if path_info.startswith(script_name):
-        path_info = path_info[len(script_name) :]
+    path_info = get_route_path(scope).encode("utf8").decode("latin1")
 
     environ = {
         "REQUEST_METHOD": scope["method"],
-- 
2.43.0


From 1fcdd41fee4925383da2d08d20a4aad8c286facb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 70/83] fix: accept non-ASCII bytes in the query string of a
 WSGI request

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 72c89a2..0563870 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -31,7 +31,7 @@ def build_environ(scope: Scope, body: bytes) -> dict[str, typing.Any]:
         "REQUEST_METHOD": scope["method"],
         "SCRIPT_NAME": script_name,
         "PATH_INFO": path_info,
-        "QUERY_STRING": scope["query_string"].decode("ascii"),
+        "QUERY_STRING": scope["query_string"].decode("latin1"),
         "SERVER_PROTOCOL": f"HTTP/{scope['http_version']}",
         "wsgi.version": (1, 0),
         "wsgi.url_scheme": scope.get("scheme", "http"),
-- 
2.43.0


From 086df6649390e08ccdb4c4a053be74c04843dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 71/83] fix: accept latin-1 header values from WSGI
 applications

---
 starlette/middleware/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 0563870..e68016f 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -125,7 +125,7 @@ class WSGIResponder:
             status_code_string, _ = status.split(" ", 1)
             status_code = int(status_code_string)
             headers = [
-                (name.strip().encode("ascii").lower(), value.strip().encode("ascii"))
+                (name.strip().encode("ascii").lower(), value.strip().encode("latin1"))
                 for name, value in response_headers
             ]
             anyio.from_thread.run(
-- 
2.43.0


From 29ad3ec8750f4bf6e75e3909bba438b902b51923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 72/83] fix: close the iterable returned by a WSGI application

---
 starlette/middleware/wsgi.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index e68016f..f4b015a 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -142,10 +142,16 @@ class WSGIResponder:
         environ: dict[str, typing.Any],
         start_response: typing.Callable[..., typing.Any],
     ) -> None:
-        for chunk in self.app(environ, start_response):
-            anyio.from_thread.run(
-                self.stream_send.send,
-                {"type": "http.response.body", "body": chunk, "more_body": True},
-            )
-
-        anyio.from_thread.run(self.stream_send.send, {"type": "http.response.body", "body": b""})
+        iterable = self.app(environ, start_response)
+        try:
+            for chunk in iterable:
+                anyio.from_thread.run(
+                    self.stream_send.send,
+                    {"type": "http.response.body", "body": chunk, "more_body": True},
+                )
+
+            anyio.from_thread.run(self.stream_send.send, {"type": "http.response.body", "body": b""})
+        finally:
+            # The application's iterable must be closed, whatever happened (PEP 3333).
+            if hasattr(iterable, "close"):
+                iterable.close()
-- 
2.43.0


From 5ba125425598f4c87f9164e898f93bb54c2ab380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 73/83] fix: do not run a WSGI application with a truncated
 body when the client disconnects

---
 starlette/middleware/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index f4b015a..2c3dc62 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -10,6 +10,7 @@ import anyio
 from anyio.abc import ObjectReceiveStream, ObjectSendStream
 
 from starlette._utils import get_route_path
+from starlette.requests import ClientDisconnect
 from starlette.types import Receive, Scope, Send
 
 warnings.warn(
@@ -97,6 +98,8 @@ class WSGIResponder:
         more_body = True
         while more_body:
             message = await receive()
+            if message["type"] == "http.disconnect":
+                raise ClientDisconnect()
             body += message.get("body", b"")
             more_body = message.get("more_body", False)
         environ = build_environ(self.scope, body)
-- 
2.43.0


From 250e120fadd19add899068c144571bd69c6938e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 74/83] fix: raise the exception of a WSGI application as
 itself, not in a group

---
 starlette/middleware/wsgi.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/starlette/middleware/wsgi.py b/starlette/middleware/wsgi.py
index 2c3dc62..742b1aa 100644
--- a/starlette/middleware/wsgi.py
+++ b/starlette/middleware/wsgi.py
@@ -9,7 +9,7 @@ import warnings
 import anyio
 from anyio.abc import ObjectReceiveStream, ObjectSendStream
 
-from starlette._utils import get_route_path
+from starlette._utils import collapse_excgroups, get_route_path
 from starlette.requests import ClientDisconnect
 from starlette.types import Receive, Scope, Send
 
@@ -104,10 +104,11 @@ class WSGIResponder:
             more_body = message.get("more_body", False)
         environ = build_environ(self.scope, body)
 
-        async with anyio.create_task_group() as task_group:
-            task_group.start_soon(self.sender, send)
-            async with self.stream_send:
-                await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)
+        with collapse_excgroups():
+            async with anyio.create_task_group() as task_group:
+                task_group.start_soon(self.sender, send)
+                async with self.stream_send:
+                    await anyio.to_thread.run_sync(self.wsgi, environ, self.start_response)
         if self.exc_info is not None:
             raise self.exc_info[0].with_traceback(self.exc_info[1], self.exc_info[2])
 
-- 
2.43.0


From 7ae1a00a8899450b812975dc13e36ccbbad306bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 75/83] fix: close the body stream when a multipart form cannot
 be parsed

---
 starlette/requests.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starlette/requests.py b/starlette/requests.py
index e0ffd63..3187573 100644
--- a/starlette/requests.py
+++ b/starlette/requests.py
@@ -266,10 +266,11 @@ class Request(HTTPConnection):
             content_type: bytes
             content_type, _ = parse_options_header(content_type_header)
             if content_type == b"multipart/form-data":
+                stream = self.stream()
                 try:
                     multipart_parser = MultiPartParser(
                         self.headers,
-                        self.stream(),
+                        stream,
                         max_files=max_files,
                         max_fields=max_fields,
                         max_part_size=max_part_size,
@@ -279,6 +280,8 @@ class Request(HTTPConnection):
                     if "app" in self.scope:
                         raise HTTPException(status_code=400, detail=exc.message)
                     raise exc
+                finally:
+                    await stream.aclose()
             elif content_type == b"application/x-www-form-urlencoded":
                 form_parser = FormParser(self.headers, self.stream())
                 self._form = await form_parser.parse()
-- 
2.43.0


From 5bc79420d77a292d8c2863caf59d66d7dca256cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 76/83] fix: forward server pushes of applications behind
 BaseHTTPMiddleware

---
 starlette/middleware/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index d29e510..acebc51 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -153,6 +153,9 @@ class BaseHTTPMiddleware:
 
             try:
                 message = await recv_stream.receive()
+                while message["type"] == "http.response.push":
+                    await send(message)
+                    message = await recv_stream.receive()
                 info = message.get("info", None)
                 if message["type"] == "http.response.debug" and info is not None:
                     message = await recv_stream.receive()
@@ -167,6 +170,9 @@ class BaseHTTPMiddleware:
 
             async def body_stream() -> typing.AsyncGenerator[bytes, None]:
                 async for message in recv_stream:
+                    if message["type"] == "http.response.push":
+                        await send(message)
+                        continue
                     assert message["type"] == "http.response.body"
                     body = message.get("body", b"")
                     if body:
-- 
2.43.0


From 52ebb0b2b3fbd5a6c105a89b9c30aec3b1d2a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 77/83] fix: do not modify the app's own list of headers behind
 BaseHTTPMiddleware

---
 starlette/middleware/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index acebc51..f72ba90 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -185,7 +185,7 @@ class BaseHTTPMiddleware:
                         raise app_exc
 
             response = _StreamingResponse(status_code=message["status"], content=body_stream(), info=info)
-            response.raw_headers = message.get("headers", [])
+            response.raw_headers = list(message.get("headers", []))
             return response
 
         streams: anyio.create_memory_object_stream[Message] = anyio.create_memory_object_stream()
-- 
2.43.0


From 9f4f3c7d09fc9d46c94b6e72f2ccaca30bc457c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:48 +0000
Subject: [PATCH 78/83] fix: an error of receive() reaches the application
 behind BaseHTTPMiddleware as itself

---
 starlette/middleware/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index f72ba90..dd06f03 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -118,15 +118,16 @@ class BaseHTTPMiddleware:
                     return {"type": "http.disconnect"}
 
                 if not undelivered:
-                    async with anyio.create_task_group() as task_group:
+                    with collapse_excgroups():
+                        async with anyio.create_task_group() as task_group:
 
-                        async def wrap(func: typing.Callable[[], typing.Awaitable[T]]) -> T:
-                            result = await func()
-                            task_group.cancel_scope.cancel()
-                            return result
+                            async def wrap(func: typing.Callable[[], typing.Awaitable[T]]) -> T:
+                                result = await func()
+                                task_group.cancel_scope.cancel()
+                                return result
 
-                        task_group.start_soon(wrap, response_sent.wait)
-                        await wrap(receive_message)
+                            task_group.start_soon(wrap, response_sent.wait)
+                            await wrap(receive_message)
 
                 if response_sent.is_set():
                     return {"type": "http.disconnect"}
-- 
2.43.0


From 075a383823e17d18c50683c90e26bc2393ea567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:38 +0000
Subject: [PATCH 79/83] fix: let HTTPEndpoint handlers send server pushes

---
 starlette/endpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starlette/endpoints.py b/starlette/endpoints.py
index ea321b7..62fc916 100644
--- a/starlette/endpoints.py
+++ b/starlette/endpoints.py
@@ -29,7 +29,7 @@ class HTTPEndpoint:
         return self.dispatch().__await__()
 
     async def dispatch(self) -> None:
-        request = Request(self.scope, receive=self.receive)
+        request = Request(self.scope, receive=self.receive, send=self.send)
         handler_name = "get" if request.method == "HEAD" and not hasattr(self, "head") else request.method.lower()
 
         handler: typing.Callable[[Request], typing.Any] = self.method_not_allowed
-- 
2.43.0


From d7df78169e89c8a849cea8c1123738230eca0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:47 +0000
Subject: [PATCH 80/83] fix: let dispatch functions of BaseHTTPMiddleware send
 server pushes

---
 starlette/middleware/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/starlette/middleware/base.py b/starlette/middleware/base.py
index dd06f03..6b07649 100644
--- a/starlette/middleware/base.py
+++ b/starlette/middleware/base.py
@@ -22,8 +22,8 @@ class _CachedRequest(Request):
     empty body so that downstream things don't hang forever.
     """
 
-    def __init__(self, scope: Scope, receive: Receive):
-        super().__init__(scope, receive)
+    def __init__(self, scope: Scope, receive: Receive, send: Send):
+        super().__init__(scope, receive, send)
         self._wrapped_rcv_disconnected = False
         self._wrapped_rcv_consumed = False
         self._wrapped_rc_stream = self.stream()
@@ -100,7 +100,7 @@ class BaseHTTPMiddleware:
             await self.app(scope, receive, send)
             return
 
-        request = _CachedRequest(scope, receive)
+        request = _CachedRequest(scope, receive, send)
         wrapped_receive = request.wrapped_receive
         response_sent = anyio.Event()
         app_exc: Exception | None = None
-- 
2.43.0


From cdafcc95a8bdf9055d7576e233d5befe7eb94d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 81/83] fix: announce the size of a memoryview's bytes, not of
 its items

Response(memoryview(array('I', [1, 2, 3]))) sent 12 bytes under
content-length: 3.
---
 starlette/responses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starlette/responses.py b/starlette/responses.py
index 97d07e9..4940548 100644
--- a/starlette/responses.py
+++ b/starlette/responses.py
@@ -48,6 +48,8 @@ class Response:
     def render(self, content: typing.Any) -> bytes | memoryview:
         if content is None:
             return b""
+        if isinstance(content, memoryview) and content.itemsize != 1:
+            return content.tobytes()
         if isinstance(content, (bytes, memoryview)):
             return content
         return content.encode(self.charset)  # type: ignore
-- 
2.43.0


From f31e540a3ea161fe15a5d5af11374dcd6711e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:53 +0000
Subject: [PATCH 82/83] fix: compare multidicts whose values have no order

Comparing two forms with several files under one name raised TypeError.
---
 starlette/datastructures.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/starlette/datastructures.py b/starlette/datastructures.py
index 29e8d30..b206cfe 100644
--- a/starlette/datastructures.py
+++ b/starlette/datastructures.py
@@ -317,7 +317,13 @@ class ImmutableMultiDict(typing.Mapping[_KeyType, _CovariantValueType]):
     def __eq__(self, other: typing.Any) -> bool:
         if not isinstance(other, self.__class__):
             return False
-        return sorted(self._list) == sorted(other._list)
+        # The values may have no order, like the files of a form.
+        remaining = list(other._list)
+        for item in self._list:
+            if item not in remaining:
+                return False
+            remaining.remove(item)
+        return not remaining
 
     def __repr__(self) -> str:
         class_name = self.__class__.__name__
-- 
2.43.0


From b3923b5f2c76873bf0b232866e97ee5acdea06ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:37 +0000
Subject: [PATCH 83/83] fix: a docstring that names an impossible date does not
 break the schema

yaml raises a plain ValueError for it, which made the schema endpoint fail.
---
 starlette/schemas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starlette/schemas.py b/starlette/schemas.py
index 3a85d98..6f98039 100644
--- a/starlette/schemas.py
+++ b/starlette/schemas.py
@@ -113,8 +113,8 @@ class BaseSchemaGenerator:
 
         try:
             parsed = yaml.safe_load(docstring)
-        except yaml.YAMLError:
-            # Most prose is not YAML.
+        except (yaml.YAMLError, ValueError):
+            # Most prose is not YAML, or holds things like a date that does not exist.
             return {}
 
         if not isinstance(parsed, dict):
-- 
2.43.0

