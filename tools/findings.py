import json,subprocess
log={l.split(" ",1)[1]:l.split(" ",1)[0] for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()}
M=[("reason phrase of the 101","C14","the prepared status line of 101 had another reason phrase than the registered one"),
("refuse percent escapes","C11","percent escapes with non-hexadecimal digits were decoded to garbage instead of being refused"),
("trim trailing slashes of short","C12","trailing slashes of two-character paths were not trimmed"),
("do not serve connections accepted","C20","a connection accepted while the server was being stopped was served after waiting had returned"),
("do not panic on requests without","C02","'GET / \\n' and 'A:\\n' (empty protocol, empty header value) panicked the parser"),
("keep header keys whose rest","C01","a header name continued in the next read by a line break lost its beginning"),
("refuse ambiguous and overflowing","C03","overflowing Content-Length values wrapped around, '1 2' and contradicting repetitions were accepted"),
("combine repeated encoding","C03","a repeated Transfer-Encoding replaced the first one, and too many encodings were ignored, so that chunked framing was lost"),
("enforce the maximal length of header keys","C04","MaxKeyLength was never checked"),
("count the request method","C01","the method counted against the request line limit only if it was cut"),
("refuse header lines without","C03","a header line without a colon was glued to the following line"),
("require a dot in the protocol","C15","HTTP/1x1 was taken for HTTP/1.1"),
("render overridden default headers","C07","a default header overridden once was missing in all following responses of the connection"),
("render custom status texts","C08","Response.Status was ignored for known codes"),
("render cookies of responses with","C10","cookies of responses with attachments were dropped"),
("close connections after responses with attachments","C09","Connection: close was ignored after a response with an attachment"),
("close attachments of HEAD","C10","attachments of HEAD responses and of failed ones were never closed"),
("send the data a reader returns together","C10","data returned together with io.EOF was dropped"),
("respond with a known protocol","C08","an unsupported protocol was answered by a status line without a protocol"),
("use the configured file buffer","C10","the file buffer size was taken from another setting"),
("announce the chosen protocol","C09","an upgrade announced the old protocol and repeated the headers of the previous upgrade"),
("do not return the body of a previous","C07","Body.Bytes returned the body of the previous request"),
("check the body size limit before","C05","a huge Content-Length allocated memory before the limit was checked"),
("do not go on reading a body after","C06","after a body error the rest of the connection was parsed as a body again or taken for a request"),
("keep the encryption token","C07","Env.Encryption was lost after the first request of a connection"),
("do not leak descriptors","C23","serving a directory leaked its descriptor"),
("do not write JSON into","C08","Response.JSON appended into the memory of the body set before"),
("close connections on explicit request despite","C09","Connection: close was ignored with an unsupported upgrade"),
("do not take a closed connection","C05","a connection closed within a body was taken for the end of the body"),
("do not answer malformed requests","C07","a malformed request was answered with the method and protocol of the request before it"),
("split the query before","C28","an escaped ampersand or equals sign in a query split it, and parsing overwrote the raw query"),
("report bad queries on every","C28","only the first access to a malformed query reported it, later ones returned the params parsed so far"),
("clone strings of cloned","C16","a cloned storage shared the strings with the reused buffers of the connection"),
("escape every byte of","C31","non-ASCII characters were escaped as their code points, truncated to a byte"),
("do not lose short and empty","C22","the last segment of a template was lost if it had a single character, '/{id}' was refused, '//' broke the segment behind it, an unclosed '{' was ignored"),
("respond with 404 to unregistered","C22","an unregistered root of a dynamic router was answered with 405, an empty path panicked"),
("list allowed methods of dynamic","C21","the Allow header of dynamic routers had a random order"),
("do not mix TRACE","C41","TRACE responses began with all previous ones, and were written to memory shared among connections"),
("normalize requested hosts","C24","hosts were normalised at registration but not in requests, so that www. and default ports never matched"),
("map requests to static files","C23","static files were looked up through memory shared among connections, without the prefix of the group, and '/static' also served '/staticfoo'"),
("serve every listener by its own","C35","all listeners were served by the handler of the last one, and listeners stayed open if binding failed"),
("do not let servers of a stopped","C35","a server of a stopped application stopped the next run"),
("announce the stop after the last","C35","the stop hook could run while a connection accepted the last was still open"),
("escape the path in redirects","C36","a decoded CR LF in the path split the response"),
("keep IPv6 hosts","C36","the redirect of an IPv6 host went nowhere"),
("find parameters of header values","C30","parameters behind '; ' were never found"),
("fill the number of prealloc","C33","Headers.CookiesPrealloc was not defaulted"),
("bytes received together","C19","bytes a connection returned together with its end (TLS 1.2: a request and close_notify at once) were dropped by the parser and the body readers"),
("a carriage return in a header","C03","'Content\\rLength' and 'Transfer\\rEncoding' framed the body like the headers with hyphens"),
("do not crash on response headers","C43","Header(\"Content-Type\") or Headers with an empty list of values for Content-Type or Transfer-Encoding crashed the handler"),
("do not use incomplete self-signed","C46","an interrupted or failed generation of the self-signed certificate left a truncated key behind, which every following start took for the certificate, so that the application failed to bind until the files were deleted by hand"),
("refuse spaces in header names","C49","'Content-Length : 3' and folded lines were taken for headers with unusual names, so the body was taken for the next request"),
("refuse requests whose last transfer","C49","a request with 'Transfer-Encoding: gzip' or 'chunked, gzip' was framed by its Content-Length, or as having no body, although only the end of the connection ends such a body"),
("refuse a content length without","C49","'Content-Length:' without a number was taken for a length of zero, whatever the body"),
("let routers be initialized several","C50","a router that was built twice (the application served again, one router for several virtual hosts) panicked about its own routes or ran its middlewares twice"),
]
out=[]
try: M+=json.load(open("/verif/tools/findings_more.json"))
except FileNotFoundError: pass
for key,prop,what in M:
    h=[h for s,h in log.items() if s.startswith("fix: "+key)]
    assert len(h)==1,(key,h)
    out.append(dict(property=prop,status="fixed",commit=h[0],what=f"fixed: property={prop} {h[0]} {what}"))
left=[s for s in log if s.startswith("fix:") and not any(s.startswith("fix: "+k) for k,_,_ in M)]
print("unlisted",left)
try: out+=json.load(open("/verif/tools/findings_known.json"))
except FileNotFoundError: pass
open("/verif/known-findings.json","w").write("[\n"+",\n".join(" "+json.dumps(x) for x in out)+"\n]\n")
