import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p("C11","Percent decoding is exact",
 "Decoding a request path or query replaces every percent sign followed by two hexadecimal digits, in either letter case, by the byte they denote and keeps every other byte unchanged and in order. A percent sign that is not followed by two hexadecimal digits is refused with the bad-encoding error. The result is the same whatever buffer the caller supplies (none, an empty one, a previously used one or the source itself), and unless the source itself is the buffer, the source is left unmodified.",
 ["inputs"],"every byte string, every kind of destination buffer","The tests decode a handful of fixed strings; malformed escapes at the end, mixed case and in-place buffers form a space of all byte strings.",
 ["internal/uridecode/decoder.go","internal/hexconv/hexconv.go"],[("Decode","internal/uridecode/decoder.go"),("Halfbyte table","internal/hexconv")],["uridecode.Decode","hexconv.Halfbyte"])
p("C12","Path normalisation drops exactly the trailing slashes",
 "Normalising a request path removes all of its trailing slashes and nothing else, except that the first character always stays, so the root path stays the root path and the result never ends in a slash unless it is one character long. An empty path stays empty.",
 ["inputs"],"every path","Tests try a few paths; the rule is about every length and number of slashes, and short paths used to be exempt.",
 ["router/inbuilt/uri/normalize.go"],[("Normalize","router/inbuilt/uri")],["uri.Normalize"])
p("C13","Methods parse exactly and print as their names",
 "A request method is recognised if and only if the text is exactly one of the nine standard upper-case names, and it is then that method; every other text of any length is the unknown method. Every known method prints as its name, so printing and parsing are inverse, and the published list holds each known method exactly once, in the order of their values.",
 ["inputs"],"every string, every method value","The tests parse the nine names; the recogniser dispatches on length and bytes, so near-misses of every length matter.",
 ["http/method/method.go","http/method/method_string.go"],[("Parse","http/method"),("String","http/method")],["method.Parse","Method.String","method.List"])
p("C14","Status codes have their registered phrases",
 "Every registered status code has its registered reason phrase and every other code the fallback phrase; a prepared status line, where there is one, is exactly the code in decimal, a space, that phrase and CRLF. An error made from a code and a message reports exactly these, and the errors the server itself raises carry the status codes their names promise.",
 ["inputs"],"all 65536 codes, all messages","No test walks the table; one wrong row is visible only to the clients that get this status.",
 ["http/status/codes.go","http/status/errors.go"],[("Text, Line","http/status/codes.go"),("NewError and the list of errors","http/status/errors.go")],["status.Text","status.Line","status.NewError"])
p("C17","The length-bucketed map is a first-wins map",
 "After any history of insertions, looking up a key that was inserted yields the value it was first inserted with, and any other key is reported as absent, in particular keys longer than every inserted one and the empty key. Lookups between insertions do not change anything.",
 ["inputs","histories"],"every history of insertions and lookups of any keys","Tests insert a few fixed keys; bucket growth and collisions depend on the order and lengths of the keys.",
 ["internal/strlenmap/map.go"],[("Insert, Get","internal/strlenmap")],["Map.Insert","Map.Get"])
p("C18","The stash reader delivers every byte once, in order",
 "Reading a stashed source through any sequence of buffer sizes yields exactly the bytes the source produced, each once and in order, even when the source reuses its buffer between calls. The source's error is reported exactly when all bytes before it are delivered, and not before; after it the source is not asked again, and a read that can deliver bytes does not wait for more of them. A reset forgets undelivered bytes and the error.",
 ["inputs","histories","fault_sequences"],"every source (pieces, errors at any point) and every sequence of read sizes","Tests use one source and one buffer size; loss or duplication depends on how read sizes and pieces interleave.",
 ["internal/stash/reader.go"],[("Reader.Read, Reset","internal/stash")],["stash.Reader.Read"])
p("C19","The connection client neither loses nor repeats bytes",
 "Whatever a connection delivers is handed to the reader exactly once and in order, also what it delivers together with an error, which is then left to the next read; bytes that are put back come first on the next read, without touching the connection. Every read from the connection is preceded by arming its read deadline with the configured timeout, an error in doing so is reported and no data is read; writes, errors and closing pass through unchanged. The in-memory client used for simulation replays its pieces in a circle (or once), put-back bytes first.",
 ["inputs","histories","fault_sequences"],"every history of reads, unreads and writes over every connection behaviour","Tests do one read and one unread on a well-behaved connection.",
 ["internal/tcp/client.go","internal/tcp/dummy/client.go"],[("Read, Unread, Write, Close","internal/tcp/client.go"),("CircularClient","internal/tcp/dummy")],["tcp.NewClient","dummy.NewCircularClient"])
p("C20","Stopping a server leaves no connection behind",
 "Each accepted connection is handed to the handler exactly once or, when accepted after the shutdown began, not at all, and in both cases closed exactly once, after its handler returned. Once waiting for a stopped or paused server returned, every handler has finished and no handler is ever started again. Several servers are stopped or paused at once: all of them stop accepting before the connections of any are waited for. Stopping closes every listener exactly once and pausing closes none; both end the accept loop, which reports nothing but an error of the listener itself, unchanged.",
 ["schedules","histories"],"every interleaving of the accept loop, the handlers and the stopping goroutine","The test starts one server and lets time pass; the races between accepting, waiting and stopping need particular schedules.",
 ["internal/tcp/server.go"],[("Start, Stop, Pause, Wait, StopAll, PauseAll","internal/tcp/server.go")],["tcp.Server"])
p("C48","Connections are served side by side",
 "Every accepted connection is served at once, whatever the connections accepted before it do: a connection that lasts for ever does not keep others from being accepted, served to their end and closed, and any number of connections can be in service at the same time, on one server and on several.",
 ["schedules"],"every interleaving of the accept loops and the handlers, every choice of the connection that lasts","The test serves one connection.",
 ["internal/tcp/server.go"],[("Start, connHandler","internal/tcp/server.go")],["tcp.Server.Start"])
p("C25","Virtual host names normalise exactly",
 "Normalising a virtual host's name removes one leading www. and one trailing default port (:80 or :443) and changes nothing else: other ports, look-alikes of the port without a colon and inner www. stay. Trimming a port leaves everything before the first colon, and the whole name if there is none.",
 ["inputs"],"every host string","Tests try a few hosts; boundary cases (nothing but a port, dots after the colon, repeated prefixes) are input-dependent.",
 ["router/virtual/internal/domain/normalize.go"],[("Normalize, TrimPort","router/virtual/internal/domain")],["domain.Normalize","domain.TrimPort"])
p("C26","Listen addresses are classified exactly",
 "An address without a host (empty or beginning with a colon) gets the wildcard IPv4 host and every other address stays as it is. The host part, without the port, is recognised as the local host exactly when it is that name in any letter case, and as an IPv4 address exactly when it is a dotted quad of numbers up to 255 without leading zeros.",
 ["inputs"],"every address string","Tests try a handful of addresses; the decision selects between self-signed and real certificates.",
 ["internal/address/address.go"],[("Normalize, IsLocalhost, IsIP","internal/address")],["address.Normalize","address.IsLocalhost","address.IsIP"])
p("C27","Content codings are dispatched to the right coder",
 "Encoding or decoding with a token uses the coding registered last under exactly that token (gzip and compress also under their x- names) and returns its output and error unchanged. The identity token and empty input pass through untouched, an unregistered token is refused with the unknown-token error. Each coding gets its own buffer of the configured size.",
 ["inputs","histories"],"every set of registered codings, token and payload","There is no test of the manager.",
 ["http/coding/codings.go"],[("AddCoding, Encode, Decode","http/coding")],["coding.Manager"])
p("C32","An attachment keeps its reader and size and closes it",
 "An attachment hands back exactly the reader and the size it was made with, and closing it closes the reader exactly once if the reader can be closed and otherwise does nothing; a failing close does not disturb the caller.",
 ["inputs"],"every reader and size","No test closes an attachment.",
 ["internal/types/attachment.go"],[("Attachment","internal/types")],["types.Attachment"])
p("C37","Media types and encryption tokens are the registered ones",
 "Every file extension known to the static-file server maps to its registered media type, and the named media types are spelt as registered. The plain and TLS encryption tokens differ from each other and from every custom token.",
 ["inputs"],"every extension, every custom token","No test reads the table.",
 ["http/mime/exts.go","http/mime/common.go","http/encryption/encryption.go"],[("Extension table","http/mime"),("tokens","http/encryption")],["mime.Extension","encryption.Token"])

H1P="internal/protocol/http1/parser.go"; H1B="internal/protocol/http1/body.go"; H1S="internal/protocol/http1/serializer.go"; H1V="internal/protocol/http1/suit.go"
p("C01","Parsing does not depend on how the network cuts a request",
 "For every sequence of bytes and every way of cutting it into reads, the HTTP/1 parser comes to the same verdict (complete, refused, or more data wanted) as for the uncut sequence, and when it is complete, to the same method, path, query, protocol, headers, content length, encodings, connection and upgrade values and to the same remaining bytes. Reusing the read buffer between reads does not change what was parsed.",
 ["inputs","histories"],"every byte sequence and every segmentation","The parser keeps partial state at each point where data can end; tests cut a few requests at fixed sizes.",
 [H1P],[("Parse","internal/protocol/http1/parser.go"),("segment buffers","github.com/indigo-web/utils/buffer")],["http1.Parser.Parse"])
p("C02","No bytes from the network crash or hang the server",
 "Whatever bytes a peer sends, in whatever pieces and however it goes away, serving the connection ends without a panic or an endless loop, also when the handler inspects the query, cookies, header parameters and the body of the request. Everything that is sent back is a sequence of well-framed responses, every request handed to the router is answered, and the router is told about the end of the connection exactly once.",
 ["inputs","fault_sequences"],"every byte sequence, segmentation and way of disconnecting","Malformed inputs are unbounded; the tests hold a short list of them.",
 [H1P,H1B,H1V,"http/query/query.go","http/cookie/jar.go","http/headers/valueaccessors.go"],[("Serve loop","internal/protocol/http1/suit.go"),("Parse","internal/protocol/http1/parser.go")],["serve.HTTP1"])
p("C03","A well-formed request arrives as it was sent",
 "A well-formed HTTP/1 request head is accepted and handed over with exactly the method, decoded path, raw query, protocol and the headers in order, with spaces before a value removed; the bytes behind the head are left for the body. Content-Length, Transfer-Encoding, Content-Encoding, Content-Type, Connection, Upgrade and Trailer are recognised in any letter case and set exactly the property they stand for; no other header name does. A Content-Length is the decimal number it spells; an overflowing, malformed or contradictory one is refused.",
 ["inputs"],"every well-formed request head","Tests send a few requests; recognition works by packed comparison of name bytes, where near misses matter, and by number parsing, where overflow matters.",
 [H1P,"http/method/method.go","http/proto/proto.go","internal/uridecode/decoder.go"],[("Parse","internal/protocol/http1/parser.go")],["http1.Parser.Parse","http.Request"])
p("C49","Where a request ends is never ambiguous",
 "A request whose head could be understood as ending its body in different places is refused with a code of the 4xx class, and nothing behind the head is ever taken for a request: two different lengths, a length that is not a decimal number, a blank anywhere in a header name (including one before the colon and folded lines), transfer encodings the last of which is not chunked. Of a length and chunks, the chunks count. Any other request ends exactly where its body does, and the next one begins there; all of it however the network cuts the head.",
 ["inputs","histories"],"every head of such a form, every cut","Tests send no ambiguous request; proxies and servers disagreeing on them is how requests are smuggled.",
 [H1P,"internal/protocol/http1/body.go","internal/protocol/http1/suit.go"],[("Parse","internal/protocol/http1/parser.go"),("Body","internal/protocol/http1/body.go")],["http1.Parser.Parse","serve.HTTP1"])
p("C04","Request limits are enforced",
 "A request is accepted when its request line, header names and values (each and altogether), number of headers and number of encodings are within the configured limits, and refused when one of them is beyond, with 414 for the request line and 431 for the headers, however the request is cut into reads. A peer that never ends a token is refused once the limit is reached.",
 ["inputs"],"every request around the limits, every segmentation","Tests exceed one limit by far in one read; the boundary and its accounting over segmented reads is not exercised.",
 [H1P,"config/config.go"],[("Parse","internal/protocol/http1/parser.go"),("segment buffers","github.com/indigo-web/utils/buffer")],["http1.Parser.Parse"])
p("C05","A body of known length is delivered exactly",
 "Through every way of reading it (whole, as string, by callback, piecewise, as io.Reader, discarding), a body with a Content-Length yields exactly that many bytes, unchanged, in order, once, however the connection delivers them, and the bytes behind it stay for the next request. A body bigger than the limit is refused without being read or allocated, and a connection that ends or fails before the end of the body results in an error, never in a silently shorter body. An error of a callback ends the reading and is handed to whoever started it.",
 ["inputs","histories","fault_sequences"],"every body, segmentation, read buffer size, way of reading, and point of disconnection","Tests use complete bodies in few segmentations; truncation and boundary segmentation is timing dependent.",
 [H1B,"http/body.go"],[("Body","internal/protocol/http1/body.go")],["http.Body"])
p("C06","A chunked body is delivered exactly and accounted against the limit",
 "A chunked body is delivered as the concatenation of its chunks through every way of reading, however the connection delivers it, with extensions and trailers skipped and the bytes behind it left for the next request. The limit applies to the sum of the chunks, errors in the framing and a connection ending early are reported and stay reported, so what follows a broken body is never taken for a request.",
 ["inputs","histories","fault_sequences"],"every chunking, segmentation, way of reading and point of disconnection","Tests use one chunking and few segmentations.",
 [H1B],[("Body","internal/protocol/http1/body.go"),("chunk decoder","github.com/indigo-web/chunkedbody (not available offline: a stand-in)")],["http.Body"])
p("C07","Requests on one connection do not influence each other",
 "For any two requests on one connection, whatever the first one was, however much of its body the handler read and whatever the handler left in the request, its environment or the response (headers, cookies, status text, attachments, overridden default headers), the second request is seen by the handler and answered exactly as if it was alone on a fresh connection; this includes requests that are refused. The encryption of the connection is known to all its requests.",
 ["inputs","histories"],"every pair of requests, responses and segmentation","Leaks need a particular first request and response; tests send the same request repeatedly.",
 [H1V,H1S,H1B,"http/request.go","http/response.go","internal/response/fields.go"],[("Request.Clear","http/request.go"),("Serializer.clear","internal/protocol/http1/serializer.go"),("parser cleanup","internal/protocol/http1/parser.go")],["serve.HTTP1"])
p("C08","A response goes out as the handler made it",
 "What is written for a response is one well-formed HTTP message in the protocol of the request: status line with the code and its custom or registered text, every header in order and only these, each default header unless one of the same name (in any letter case) was set, exactly one Content-Type, cookies with exactly their attributes, a Content-Length that is the length of the body, and the body itself, or none for HEAD, no matter by which of the response's methods it was built.",
 ["inputs"],"every response a handler can build from headers, cookies, status, content type and body; every method and protocol","Tests compare a few fixed responses.",
 [H1S,"http/response.go","internal/response/fields.go","http/cookie/cookie.go"],[("Write","internal/protocol/http1/serializer.go"),("Response","http/response.go")],["Serializer.Write","http.Response"])
p("C09","Connections are kept or closed as the protocol says",
 "After a response the next request on the connection is served if and only if the client asked for it: HTTP/1.1 unless the Connection header is close, HTTP/1.0 only if it is keep-alive, in any letter case, or when the connection was upgraded and not asked to be closed, for every method and kind of response. A supported upgrade is announced by exactly one 101 response before the actual one, which then uses the new protocol. After a failed write nothing more is written or served. The protocol itself never closes the connection.",
 ["inputs","fault_sequences"],"every Connection value, protocol, upgrade, method, kind of response and failing write","Tests check two or three combinations.",
 [H1S,H1V],[("keepsConnection","internal/protocol/http1/serializer.go"),("serve","internal/protocol/http1/suit.go")],["serve.HTTP1"])
p("C10","An attachment is streamed whole or visibly broken, and closed",
 "A response with an attachment carries its status, headers and cookies and then exactly the bytes the reader produced: with the announced Content-Length if the size is known and in well-formed chunks otherwise, whatever pieces the reader returns, also together with its end. If the reader fails the response is visibly incomplete and the connection given up; HEAD responses carry no body and do not read it. The attachment is closed exactly once in every case, and the connection otherwise stays usable.",
 ["inputs","fault_sequences"],"every reader behaviour (pieces, errors, end with data), size, buffer size, method and failing write","Tests stream one in-memory reader.",
 [H1S,"internal/types/attachment.go"],[("sendAttachment, writePlainBody, writeChunkedBody","internal/protocol/http1/serializer.go")],["Response.Attachment"])
p("C15","Protocol versions and upgrade lists are read exactly",
 "A protocol version is recognised exactly when it is spelt HTTP/1.0, HTTP/1.1 or HTTP/2.0, and printed by its name; of an upgrade list the first supported protocol is chosen, regardless of surrounding blanks and of unknown entries.",
 ["inputs"],"every byte string and every list","Tests try the valid spellings.",
 ["http/proto/proto.go","http/proto/upgrade.go"],[("FromBytes, Parse, String","http/proto/proto.go"),("ChooseUpgrade","http/proto/upgrade.go")],["proto.FromBytes","proto.ChooseUpgrade"])
p("C39","A hijacked connection is handed over untouched",
 "A handler that hijacks the connection gets, after the rest of the request's body was dropped, exactly the bytes that follow the request, in order, including those already received; what it writes is all that is written, and after the handler returned the server neither reads, writes nor serves anything more on it.",
 ["inputs","histories"],"every request framing, segmentation and following bytes","The test hijacks after a request without a body with nothing following.",
 ["http/request.go",H1V,H1B],[("Hijack","http/request.go"),("serve","internal/protocol/http1/suit.go")],["Request.Hijack"])
p("C16","A storage keeps the pairs that were added",
 "A storage of pairs (headers, params, cookies, query) answers every question exactly as the list of the pairs added since the last clearing: presence, first value, all values in order (keys compared regardless of letter case), distinct keys in order, revealed pairs and iteration; the values of a key and the list of keys last until the same is asked for again or the storage changes. A missing key has no value but the asked-for substitute. A clone is independent: it keeps its pairs when the original is changed or the memory its strings were made of is reused. A storage made from a map holds exactly the map's values.",
 ["inputs","histories"],"every history of additions, clearings and clonings, every key and value","Tests add a fixed list and look two keys up; aliasing of reused memory needs a particular order of events.",
 ["internal/keyvalue/storage.go","http/headers/headers.go"],[("Storage","internal/keyvalue/storage.go"),("NewFromMap, NewPrealloc","http/headers/headers.go")],["keyvalue.Storage","headers.Headers"])
p("C21","Static routing chooses exactly the registered handler",
 "With routes that have no dynamic segments, a request whose path without trailing slashes equals a registered one runs exactly the handler of its method, once; HEAD falls back to the handler of GET. A path that is not registered is answered with 404, a registered path without a handler of the method with 405 and an Allow header listing exactly the methods of the path in a fixed order (TRACE is echoed instead). Registering order does not matter.",
 ["inputs"],"every method and path, several sets of routes in any rotation","Tests request the registered paths and one or two others.",
 ["router/inbuilt/inbuilt.go","router/inbuilt/route.go","router/inbuilt/registrar.go","router/inbuilt/internal/types/types.go","router/inbuilt/groups.go","router/inbuilt/types.go","router/inbuilt/defaulterrhandlers.go"],[("Router.OnRequest","router/inbuilt/inbuilt.go"),("registrar","router/inbuilt/registrar.go")],["router.Router.OnRequest"])
p("C22","Dynamic routing matches templates segment by segment",
 "With routes that have dynamic segments, a request is matched segment by segment: a static segment is preferred to a dynamic one at each step, without turning back, a dynamic segment takes any non-empty one, and the handler sees exactly the params of its template by their names. Methods, 404, 405 and Allow are as in static routing. A malformed template, a route registered twice for a method, and differently named dynamic segments in the same place are refused when routes are registered or the router is initialised, and nothing else is.",
 ["inputs"],"every set of up to two templates with arbitrary segments, every path and method","Tests use a few templates and matching paths; empty, short and trailing segments matter.",
 ["router/inbuilt/internal/radix/tree.go","router/inbuilt/internal/radix/template.go","router/inbuilt/route.go","router/inbuilt/inbuilt.go","router/inbuilt/registrar.go","router/inbuilt/groups.go","router/inbuilt/internal/radix/arrmap.go"],[("Tree.Match, Insert","router/inbuilt/internal/radix/tree.go"),("Parse","router/inbuilt/internal/radix/template.go")],["router.Router.OnRequest","radix.Tree"])
p("C23","Static files stay below their directory and name the requested file",
 "A static prefix serves exactly the files below its directory: for a path below the prefix (of the route and its groups) the file asked for is the same path below the directory, whatever was requested before or is being requested by another connection; a path outside of the prefix, or with a dot-dot segment, is answered with 404 without touching any file outside. Missing files, directories and unreadable ones are answered with an error, and no descriptor is leaked by it.",
 ["inputs","histories"],"every path, several prefixes, groups and directories, every kind of file","Tests fetch one existing and one missing file.",
 ["router/inbuilt/static.go","router/inbuilt/groups.go","http/response.go","internal/pathlib/pathlib.go"],[("Static","router/inbuilt/static.go"),("Response.TryFile","http/response.go")],["Router.Static"])
p("C24","A request goes to the router of its host",
 "Of virtual hosts, a request goes to the router of the host its single Host header names, where hosts are compared regardless of letter case, a leading www. and the ports 80 and 443, both in the registration and in the request. A request for an unknown host goes to the default router, or is refused with 421 without one; one with several Host headers is refused with 400, one without any goes to the default router or is refused with 400. Errors go to the router of the host in the same way.",
 ["inputs"],"every pair of registered and requested hosts, with and without a default","Tests use hosts which are spelt as they were registered.",
 ["router/virtual/virtual.go","router/virtual/internal/domain/normalize.go"],[("Router.OnRequest, OnError","router/virtual/virtual.go")],["virtual.Router"])
p("C28","A query yields exactly its parameters",
 "The raw query is split at ampersands and the first equals sign of each part before both sides are decoded (percent escapes, plus is a space); a part without an equals sign is a flag with the value 1, repeated keys keep all values in order. A query with a parameter without a name or a broken escape is refused on every access to it. Access neither changes the raw query nor shows anything of the query that was set before.",
 ["inputs","histories"],"every byte string, after any previous query","Tests parse a few well-formed queries once.",
 ["http/query/query.go","http/query/internal/parser.go"],[("Query.Unwrap, Get","http/query/query.go"),("parse","http/query/query.go")],["query.Query"])
p("C29","A Cookie header yields exactly its cookies, and a cookie is what was built",
 "A Cookie header of pairs separated by semicolons and optional blanks yields every pair in order with its exact name and value; an empty name or a pair without an equals sign is refused; any other header is split the same way. A request's cookies are those of all its Cookie headers, on every call, and of no earlier request. A cookie built by the builder has exactly the attributes it was given, and builders derived from one another do not interfere.",
 ["inputs"],"every header and every combination of attributes","Tests parse a few well-formed headers.",
 ["http/cookie/jar.go","http/cookie/cookie.go","http/request.go"],[("Parse","http/cookie/jar.go"),("Build","http/cookie/cookie.go")],["cookie.Parse","cookie.Build"])
p("C30","Values, parameters and qualities of header values are found",
 "The value of a header is what precedes its first semicolon; a parameter is found by its exact name with or without a blank behind the semicolon and yields what follows its equals sign up to the next semicolon, else the asked-for substitute; the charset and quality accessors return the parameter or their default. The accessors survive every byte string.",
 ["inputs"],"every header value of the bounded shapes, every byte string for survival","Tests look parameters of a few fixed values up.",
 ["http/headers/valueaccessors.go"],[("ValueOf, ParamOf, QualityOf, CharsetOf","http/headers/valueaccessors.go")],["headers.ValueOf","headers.ParamOf"])
p("C31","An escaped string is printable",
 "Escaping a string keeps every printable ASCII character and replaces every other byte by a backslash and a printable character, the customary one for line feed, carriage return, tab and zero; nothing is lost or added.",
 ["inputs"],"every byte string","Tests escape a few strings.",
 ["http/path.go"],[("Escape","http/path.go")],["http.Escape"])
p("C33","A partial configuration is completed by the defaults",
 "Every setting left at zero gets its default and every other one is kept, independently of the others; the default headers are the given ones, even if they are an empty map, or, if none are given, the default ones. The defaults themselves are not changed by it.",
 ["configurations"],"every value of every setting","The test checks a single combination.",
 ["config/config.go"],[("Fill, Default","config/config.go")],["config.Fill"])
p("C34","Middlewares run once, in order, for what they are attached to",
 "A request runs through the middlewares of the root, of the groups around its route from the outside in, and of the route itself, each once and in this order, then through its handler, whether they were attached before or after the routes; catchers and resources alike. Errors run through those of the root only. A middleware that does not call the next handler answers instead of everything behind it, and the response passes the outer ones in reverse order. A panic behind Recover is answered with 500 and does not get past it. The shortcuts of routers and resources register for the method of their name; handlers behind CustomContext see its context.",
 ["inputs","fault_sequences"],"every number of middlewares at each level, every order of registration, every point that answers or panics","Tests build one tree of groups.",
 ["router/inbuilt/middlewares.go","router/inbuilt/groups.go","router/inbuilt/route.go","router/inbuilt/resource.go","router/inbuilt/middleware/recover.go","router/inbuilt/registrar.go","router/inbuilt/predicates.go","router/inbuilt/middleware/customcontext.go"],[("Use, compose","router/inbuilt/middlewares.go"),("Group","router/inbuilt/groups.go")],["Router.Use","Router.Group"])
p("C35","An application binds, serves and stops as a whole",
 "Serve binds every address in order and announces each, then the start, then serves every listener by its own handler; it returns after everything it accepted was closed exactly once and every listener was closed, having announced the stop once at that time, with the shutdown error for Stop, the graceful one for GracefulStop and the listener's error if one fails. If an address cannot be bound, the error is returned, nothing is announced as started and nothing stays open. Running the application again works alike.",
 ["schedules","fault_sequences"],"every schedule of stops, failures, accepts and handlers within the bound, every address that fails","Tests stop one application at one moment.",
 ["indi.go","https.go","internal/tcp/server.go"],[("App.Serve, Stop, GracefulStop","indi.go")],["App.Serve"])
p("C36","Redirects and aliases lead to the same place and nowhere else",
 "HTTPSOnly lets encrypted requests through and redirects others permanently to the https address of the same host (or the configured one, with the configured port), with the same path, escaped so that the Location header contains no character that does not belong into a path; without a host it refuses with 400. Redirect and Alias apply to exactly their path; the handler of an alias sees the path it came from.",
 ["inputs"],"every path and host","Tests redirect one path.",
 ["router/inbuilt/middleware/httpsonly.go","router/inbuilt/middleware/redirect.go","router/inbuilt/aliases.go","router/inbuilt/mutator/alias.go","router/inbuilt/mutator.go"],[("HTTPSOnly","router/inbuilt/middleware/httpsonly.go"),("Alias","router/inbuilt/aliases.go")],["middleware.HTTPSOnly","Router.Alias"])
p("C38","A path under a prefix is mapped to the same path under a root",
 "Setting a path below the prefix yields the rest of it below the root, with exactly one slash between, whatever path was set before.",
 ["inputs","histories"],"every rest of a path, several prefixes and roots","Tests map two or three paths.",
 ["internal/pathlib/pathlib.go"],[("Path","internal/pathlib/pathlib.go")],["pathlib.Path"])
p("C40","Errors and unmatched paths go to the right handler",
 "An HTTP error is handled by the handler of its code, else by the handler of all errors, else by a default answering with its code; other errors are answered with 500. The handler sees the error; mutators run once. A path no route matches, and no other error, goes to the catcher with the longest prefix of it, regardless of the order of registration and of slashes at its end, else it is answered with 404; a catcher never takes a registered path, not even with another method. A second catcher of the same prefix in the same group is refused.",
 ["inputs"],"every error and set of error handlers, every path, every set of catchers","Tests have one or two handlers and catchers.",
 ["router/inbuilt/inbuilt.go","router/inbuilt/route.go","router/inbuilt/catchers.go","router/inbuilt/groups.go","router/inbuilt/mutator.go","router/inbuilt/defaulterrhandlers.go"],[("OnError","router/inbuilt/inbuilt.go"),("Catch, RouteError","router/inbuilt/route.go")],["Router.OnError","Router.Catch","Router.RouteError"])
p("C47","Mutators see every request once, before it is routed",
 "Every mutator, whether it was registered at the router or at a group and before or after the routes, runs exactly once for every request, routed or refused, in the order root, then groups in the order they were made, each followed by its nested groups, and by registration within each; it runs before any middleware or handler and sees the request as the mutators before it left it. The request is routed by the path and the method the mutators left.",
 ["inputs"],"every distribution of mutators over routers and groups, every rewriting, every path","Tests register one mutator.",
 ["router/inbuilt/mutator.go","router/inbuilt/groups.go","router/inbuilt/inbuilt.go"],[("Mutator","router/inbuilt/mutator.go"),("prepare","router/inbuilt/groups.go"),("runMutators","router/inbuilt/inbuilt.go")],["Router.Mutator"])
p("C50","A router can be built any number of times",
 "Building a router again, because the application is served again or because the router serves several hosts, yields each time a router with the same routes, catchers, error handlers, mutators and middlewares, each of which runs once per request, including whatever was registered since it was built the last time; routers built earlier keep what they had.",
 ["inputs","histories"],"every router, number of builds and registration in between, every request","Tests build every router once.",
 ["router/inbuilt/inbuilt.go","router/inbuilt/registrar.go","router/inbuilt/groups.go","router/virtual/virtual.go"],[("Initialize","router/inbuilt/inbuilt.go"),("Initialize","router/virtual/virtual.go")],["Router.Initialize","App.Serve"])
p("C41","A TRACE request is answered by itself",
 "A TRACE request of a registered path without a TRACE handler is answered with 200 and a message/http body that is exactly the request line with its query, the headers in order, and the end of the head; it holds nothing of other requests, and requests answered before it is written do not change it.",
 ["inputs","histories"],"every query and headers, every sequence of requests","The test traces one request.",
 ["router/inbuilt/trace.go","router/inbuilt/inbuilt.go"],[("traceResponse, renderHTTPRequest","router/inbuilt/trace.go")],["Router.OnRequest"])
p("C42","JSON is read from the whole body and written as the whole body",
 "Decoding a request's body as JSON hands exactly the body to the decoder and returns its error; a body marked as another media type is refused with 415 before it is read, an unreadable one with its own error. Encoding a model makes the body of the response exactly the encoded text, marks it as application/json and keeps the response's code, without touching memory the handler set as the body before; a failed encoding is answered with the code of the error or 500.",
 ["inputs","fault_sequences"],"every body, content type, encoded text and error","Tests decode and encode one model.",
 ["http/request.go","http/response.go"],[("Request.JSON","http/request.go"),("Response.TryJSON, JSON","http/response.go")],["Request.JSON","Response.JSON"])
p("C43","A response holds what it was told, and nothing else",
 "After any sequence of building steps, the response's code, status text, content type, transfer encoding, headers, cookies, body and attachment are those set last (headers and cookies: all in order), also if content type and transfer encoding are set as headers in any letter case; a new response of the same request starts from the defaults. An HTTP error sets its code and nothing else, another one the given code or 500 and its message, and no error changes nothing. A file becomes an attachment of its size with the media type of its extension; a missing one or a directory becomes 404, an unreadable one 500, and nothing stays open.",
 ["inputs","histories"],"every sequence of building steps, error and kind of file","Tests build a few fixed responses.",
 ["http/response.go","internal/response/fields.go","http/mime/exts.go"],[("Response","http/response.go"),("Fields.Clear","internal/response/fields.go")],["http.Response"])
p("C44","A logged request leaves exactly one printable line and is not altered",
 "The logging middleware and mutator hand each of their loggers one line per request, made of the method, the escaped path and (middleware) the code of the response, without any unprintable character whatever was requested; a silently closed connection is not logged by the middleware. Neither they nor the server header middleware, which adds one Server header with the given names or indigo, change the request or anything else of its response.",
 ["inputs"],"every path, method and code","There is no test of logging.",
 ["router/inbuilt/middleware/logging.go","router/inbuilt/mutator/requestlogger.go","router/inbuilt/middleware/serverheader.go","http/path.go"],[("LogRequests","router/inbuilt/middleware/logging.go"),("RequestsLog","router/inbuilt/mutator/requestlogger.go")],["middleware.LogRequests","mutator.RequestsLog","middleware.ServerHeader"])
p("C45","A connection is served as configured",
 "A connection is read through a buffer of the configured size, with a deadline of the configured timeout set anew before every read; each configured limit (request line, number, names and values of headers one by one and altogether, body, chunk) separates what is refused, by the status of that limit, from what is served; every response has the configured default headers and files are read in pieces of at most the configured size. Handlers see the encryption and the peer's address of the connection with every request and error, and the end of a connection is told to the error handler exactly once, with the error.",
 ["inputs"],"every size of what is limited around its limit, every kind of encryption, several buffers and timeouts","Tests serve with the default configuration.",
 ["http/serve/http1.go","internal/construct/constructors.go","internal/protocol/http1/suit.go","router/simple/simple.go","config/config.go"],[("HTTP1","http/serve/http1.go"),("Request, Client, Buffers, Chunked","internal/construct/constructors.go"),("Initialize","internal/protocol/http1/suit.go"),("OnRequest, OnError","router/simple/simple.go")],["serve.HTTP1"])
p("C46","Encrypted listeners use the certificates they should",
 "An address given with a certificate is bound with exactly that pair, and a pair that is missing, broken or mismatched is reported by Serve, with nothing left open. A local address or an IP address gets a self-signed pair from the user's cache directory: a usable pair is kept, and whatever else is found there, left behind by a failure or a crash at any moment, is replaced by a new one; if no pair can be made, encryption is disabled for that address with a warning and nothing else changes. Any other address gets certificates on demand, for exactly the given domains (for all, if none are given), kept in the same directory if there can be one. Requests on encrypted listeners, and no others, are marked as encrypted.",
 ["inputs","crash points"],"every state of the cache, every failing operation, every point of a crash, every domain","No test makes a certificate, and failures in between cannot be staged.",
 ["https.go","indi.go"],[("generateSelfSignedCert, certExists, cacheDir, tlsListener, autoTLSListener","https.go"),("HTTPS, AutoHTTPS","indi.go")],["App.AutoHTTPS","App.HTTPS","App.Serve"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
