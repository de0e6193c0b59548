From d9d1cb96fc2dfcf39c8b0c73b14072853fd73d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:26 +0000
Subject: [PATCH 01/55] fix: reason phrase of the 101 status line

---
 http/status/codes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/status/codes.go b/http/status/codes.go
index 6df0c79..774784b 100644
--- a/http/status/codes.go
+++ b/http/status/codes.go
@@ -224,7 +224,7 @@ func Line(code Code) string {
 	case Continue:
 		return "100 Continue\r\n"
 	case SwitchingProtocols:
-		return "101 Switching Protocol\r\n"
+		return "101 Switching Protocols\r\n"
 	case Processing:
 		return "102 Processing\r\n"
 	case EarlyHints:
-- 
2.43.0


From db1a9e8d4bf4bcaed598720fd7c413833feab3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:26 +0000
Subject: [PATCH 02/55] fix: refuse percent escapes with non-hexadecimal digits

---
 internal/hexconv/hexconv.go   | 9 +++++++--
 internal/uridecode/decoder.go | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/hexconv/hexconv.go b/internal/hexconv/hexconv.go
index da01c66..a395e82 100644
--- a/internal/hexconv/hexconv.go
+++ b/internal/hexconv/hexconv.go
@@ -25,8 +25,13 @@ var decodeTable = [256]byte{
 	'F': 0xF,
 }
 
-// Parse returns char value + 1 IF char is a valid hex, 0 otherwise.
-// So in order to treat the returned value correctly, check whether it's 0
+// Parse returns the value of a hex digit. For everything else 0 is returned, so use
+// Valid in order to distinguish it from the actual zero
 func Parse(char byte) byte {
 	return decodeTable[char]
 }
+
+// Valid tells whether char is a hex digit
+func Valid(char byte) bool {
+	return char == '0' || decodeTable[char] != 0
+}
diff --git a/internal/uridecode/decoder.go b/internal/uridecode/decoder.go
index afd1b4f..ecf9d08 100644
--- a/internal/uridecode/decoder.go
+++ b/internal/uridecode/decoder.go
@@ -14,6 +14,10 @@ func Decode(src, buff []byte) ([]byte, error) {
 			return nil, status.ErrURIDecoding
 		}
 
+		if !hexconv.Valid(src[i+1]) || !hexconv.Valid(src[i+2]) {
+			return nil, status.ErrURIDecoding
+		}
+
 		buff = append(buff, src[:i]...)
 		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
 		src = src[i+3:]
-- 
2.43.0


From 3addc212d176e9ebc2112f9aa6f1f30d4be8a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:26 +0000
Subject: [PATCH 03/55] fix: trim trailing slashes of short paths as well

---
 router/inbuilt/uri/normalize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/uri/normalize.go b/router/inbuilt/uri/normalize.go
index 5f634fb..c3e0b22 100644
--- a/router/inbuilt/uri/normalize.go
+++ b/router/inbuilt/uri/normalize.go
@@ -1,11 +1,16 @@
 package uri
 
 func Normalize(path string) string {
-	for i := len(path) - 1; i > 1; i-- {
+	for i := len(path) - 1; i > 0; i-- {
 		if path[i] != '/' {
 			return path[:i+1]
 		}
 	}
 
+	if len(path) > 1 {
+		// nothing but trailing slashes follow the first character
+		return path[:1]
+	}
+
 	return path
 }
-- 
2.43.0


From 440633d7a68a384d3fc112747b7435fe24ab6323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:05 +0000
Subject: [PATCH 04/55] fix: do not serve connections accepted after the server
 was shut down

---
 internal/tcp/server.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/internal/tcp/server.go b/internal/tcp/server.go
index dd0d275..863d9c4 100644
--- a/internal/tcp/server.go
+++ b/internal/tcp/server.go
@@ -14,6 +14,7 @@ type Deadliner interface {
 }
 
 type Server struct {
+	mu       sync.Mutex
 	wg       *sync.WaitGroup
 	sock     net.Listener
 	onConn   OnConn
@@ -41,7 +42,13 @@ func (s *Server) Start() error {
 			return err
 		}
 
-		s.wg.Add(1)
+		if !s.acquire() {
+			// the server was shut down after the connection has been accepted. Nobody is
+			// going to wait for it anymore
+			_ = conn.Close()
+			break
+		}
+
 		go s.connHandler(conn)
 	}
 
@@ -51,12 +58,14 @@ func (s *Server) Start() error {
 // Stop closes the server socket, however all the clients won't be notified explicitly
 // until they try to send us anything
 func (s *Server) Stop() error {
+	s.setShutdown()
+
 	return s.sock.Close()
 }
 
 // Pause stops listening to new connections, however doesn't close the socket.
 func (s *Server) Pause() {
-	s.shutdown.Store(true)
+	s.setShutdown()
 
 	if listener, ok := s.sock.(Deadliner); ok {
 		// interrupt the listener RIGHT NOW
@@ -69,6 +78,27 @@ func (s *Server) Wait() {
 	s.wg.Wait()
 }
 
+// acquire registers a new connection, so Wait waits for it. It fails, if the server is
+// already shut down, as in this case Wait could be already passed
+func (s *Server) acquire() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.shutdown.Load() {
+		return false
+	}
+
+	s.wg.Add(1)
+
+	return true
+}
+
+func (s *Server) setShutdown() {
+	s.mu.Lock()
+	s.shutdown.Store(true)
+	s.mu.Unlock()
+}
+
 func (s *Server) connHandler(conn net.Conn) {
 	s.onConn(conn)
 	_ = conn.Close()
-- 
2.43.0


From 7f9adaff55916b44535f43c39ba44e5eb58197d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:35 +0000
Subject: [PATCH 05/55] fix: do not panic on requests without protocol or with
 empty header values

---
 internal/protocol/http1/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 2845f54..6d09f28 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -154,7 +154,7 @@ path:
 		}
 
 		reqPath, reqProto := pathAndProto[:sp], pathAndProto[sp+1:]
-		if reqProto[len(reqProto)-1] == '\r' {
+		if len(reqProto) > 0 && reqProto[len(reqProto)-1] == '\r' {
 			reqProto = reqProto[:len(reqProto)-1]
 		}
 
@@ -308,7 +308,7 @@ headerValue:
 
 		data = data[lf+1:]
 		value := uf.B2S(trimPrefixSpaces(headerValueBuff.Finish()))
-		if value[len(value)-1] == '\r' {
+		if len(value) > 0 && value[len(value)-1] == '\r' {
 			value = value[:len(value)-1]
 		}
 
-- 
2.43.0


From d5db672fc382ccdf13866ce0dc99762f636de92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:35 +0000
Subject: [PATCH 06/55] fix: keep header keys whose rest begins with a line
 break

---
 internal/protocol/http1/parser.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 6d09f28..d61c32f 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -190,14 +190,18 @@ headerKey:
 			return Pending, nil, err
 		}
 
-		switch data[0] {
-		case '\n':
-			p.cleanup()
-
-			return HeadersCompleted, data[1:], nil
-		case '\r':
-			data = data[1:]
-			goto headerValueCRLFCR
+		// line breaks complete the headers only if there is no key, whose beginning was
+		// already received
+		if headerKeyBuff.SegmentLength() == 0 {
+			switch data[0] {
+			case '\n':
+				p.cleanup()
+
+				return HeadersCompleted, data[1:], nil
+			case '\r':
+				data = data[1:]
+				goto headerValueCRLFCR
+			}
 		}
 
 		colon := bytes.IndexByte(data, ':')
-- 
2.43.0


From 0065f70656d4364888d09738df9a75015511f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:35 +0000
Subject: [PATCH 07/55] fix: refuse ambiguous and overflowing Content-Length
 values

---
 internal/protocol/http1/parser.go | 51 +++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index d61c32f..1ff9798 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -12,6 +12,7 @@ import (
 	"github.com/indigo-web/utils/buffer"
 	"github.com/indigo-web/utils/strcomp"
 	"github.com/indigo-web/utils/uf"
+	"math"
 	"strings"
 )
 
@@ -30,6 +31,7 @@ const (
 	ePath
 	eHeaderKey
 	eContentLength
+	eContentLengthOWS
 	eContentLengthCR
 	eHeaderValue
 	eHeaderValueCRLFCR
@@ -51,9 +53,11 @@ type Parser struct {
 	headerKey       string
 	headersCfg      *config.Headers
 	headersNumber   int
-	contentLength   int
-	urlEncodedChar  uint8
-	state           parserState
+	// contentLength is negative until the first digit of the value is received
+	contentLength    int
+	hasContentLength bool
+	urlEncodedChar   uint8
+	state            parserState
 }
 
 func NewParser(
@@ -86,6 +90,8 @@ func (p *Parser) Parse(data []byte) (state requestState, extra []byte, err error
 		goto headerKey
 	case eContentLength:
 		goto contentLength
+	case eContentLengthOWS:
+		goto contentLengthOWS
 	case eContentLengthCR:
 		goto contentLengthCR
 	case eHeaderValue:
@@ -232,6 +238,7 @@ headerKey:
 			) && cLength == encodeU64(
 			key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, 0, 0,
 		) {
+			p.contentLength = -1
 			goto contentLength
 		}
 
@@ -240,27 +247,58 @@ headerKey:
 
 contentLength:
 	for i, char := range data {
-		if char == ' ' {
+		if char == ' ' && p.contentLength == -1 {
 			continue
 		}
 
 		if char < '0' || char > '9' {
 			data = data[i:]
-			goto contentLengthEnd
+			goto contentLengthOWS
+		}
+
+		digit := int(char - '0')
+		if p.contentLength == -1 {
+			p.contentLength = digit
+			continue
+		}
+
+		if p.contentLength > (math.MaxInt-digit)/10 {
+			return Error, nil, status.ErrBodyTooLarge
 		}
 
-		p.contentLength = p.contentLength*10 + int(char-'0')
+		p.contentLength = p.contentLength*10 + digit
 	}
 
 	p.state = eContentLength
 	return Pending, nil, nil
 
+contentLengthOWS:
+	for i, char := range data {
+		if char != ' ' {
+			data = data[i:]
+			goto contentLengthEnd
+		}
+	}
+
+	p.state = eContentLengthOWS
+	return Pending, nil, nil
+
 contentLengthEnd:
 	// guaranteed, that data at this point contains AT LEAST 1 byte.
 	// The proof is, that this code is reachable ONLY if loop has reached a non-digit
 	// ascii symbol. In case loop has finished peacefully, as no more data left, but also no
 	// character found to satisfy the exit condition, this code will never be reached
+	if p.contentLength == -1 {
+		p.contentLength = 0
+	}
+
+	if p.hasContentLength && request.ContentLength != p.contentLength {
+		// the body cannot have two different lengths
+		return Error, nil, status.ErrBadRequest
+	}
+
 	request.ContentLength = p.contentLength
+	p.hasContentLength = true
 
 	switch data[0] {
 	case '\r':
@@ -389,6 +427,7 @@ func (p *Parser) cleanup() {
 	p.headerKeyBuff.Clear()
 	p.headerValueBuff.Clear()
 	p.contentLength = 0
+	p.hasContentLength = false
 	p.encToksBuff = p.encToksBuff[:0]
 	p.contEncToksBuff = p.contEncToksBuff[:0]
 	p.state = eMethod
-- 
2.43.0


From f0f74ed9f047257f074639fd72bc2315da6bfe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:35 +0000
Subject: [PATCH 08/55] fix: combine repeated encoding headers and refuse too
 many encodings

---
 internal/protocol/http1/parser.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 1ff9798..9865fd5 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -389,7 +389,12 @@ headerValue:
 			) && cEncoding == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) {
-				request.Encoding.Content, _ = parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				toks, _ := parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				if toks == nil {
+					return Error, nil, status.ErrHeaderFieldsTooLarge
+				}
+
+				p.contEncToksBuff, request.Encoding.Content = toks, toks
 			}
 		case 17:
 			if cTransfer == encodeU64(
@@ -397,9 +402,14 @@ headerValue:
 			) && cEncodin == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) && key[16]|0x20 == 'g' {
-				request.Encoding.Transfer, request.Encoding.Chunked = parseEncodingString(
-					p.encToksBuff, value, cap(p.encToksBuff),
-				)
+				toks, chunked := parseEncodingString(p.encToksBuff, value, cap(p.encToksBuff))
+				if toks == nil {
+					// ignoring the header would result in a wrong body framing
+					return Error, nil, status.ErrHeaderFieldsTooLarge
+				}
+
+				p.encToksBuff, request.Encoding.Transfer = toks, toks
+				request.Encoding.Chunked = request.Encoding.Chunked || chunked
 			}
 		}
 
-- 
2.43.0


From 4f8ec38f8192e7fee34d5a02aea0de6bc5059d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:35 +0000
Subject: [PATCH 09/55] fix: enforce the maximal length of header keys

---
 internal/protocol/http1/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 9865fd5..c1fba92 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -216,6 +216,10 @@ headerKey:
 				return Error, nil, status.ErrHeaderFieldsTooLarge
 			}
 
+			if headerKeyBuff.SegmentLength() > p.headersCfg.MaxKeyLength {
+				return Error, nil, status.ErrHeaderFieldsTooLarge
+			}
+
 			p.state = eHeaderKey
 			return Pending, nil, nil
 		}
@@ -224,6 +228,10 @@ headerKey:
 			return Error, nil, status.ErrHeaderFieldsTooLarge
 		}
 
+		if headerKeyBuff.SegmentLength() > p.headersCfg.MaxKeyLength {
+			return Error, nil, status.ErrHeaderFieldsTooLarge
+		}
+
 		key := uf.B2S(headerKeyBuff.Finish())
 		p.headerKey = key
 		data = data[colon+1:]
-- 
2.43.0


From 3a242eeab107920ecd73e6bc83d93c5b548fd55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:35 +0000
Subject: [PATCH 10/55] fix: count the request method against the request line
 limit regardless of segmentation

---
 internal/protocol/http1/parser.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index c1fba92..fc0f3f5 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -113,17 +113,12 @@ method:
 			return Pending, nil, nil
 		}
 
-		var methodValue []byte
-		if p.startLineBuff.SegmentLength() == 0 {
-			methodValue = data[:sp]
-		} else {
-			if !p.startLineBuff.Append(data[:sp]) {
-				return Error, nil, status.ErrTooLongRequestLine
-			}
-
-			methodValue = p.startLineBuff.Finish()
+		// the method always counts, no matter whether it was received at once
+		if !p.startLineBuff.Append(data[:sp]) {
+			return Error, nil, status.ErrTooLongRequestLine
 		}
 
+		methodValue := p.startLineBuff.Finish()
 		if len(methodValue) == 0 {
 			return Error, nil, status.ErrBadRequest
 		}
-- 
2.43.0


From 546d2a51d01a44bf80a40de1d8cad4433f51487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 11/55] fix: refuse header lines without a colon

---
 internal/protocol/http1/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index fc0f3f5..488d696 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -206,6 +206,11 @@ headerKey:
 		}
 
 		colon := bytes.IndexByte(data, ':')
+		if lf := bytes.IndexByte(data, '\n'); lf != -1 && (colon == -1 || lf < colon) {
+			// the line has ended, but there was no colon
+			return Error, nil, status.ErrBadRequest
+		}
+
 		if colon == -1 {
 			if !headerKeyBuff.Append(data) {
 				return Error, nil, status.ErrHeaderFieldsTooLarge
-- 
2.43.0


From 576968511ba1af0e4c8ff993abe1e03831a5f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:06 +0000
Subject: [PATCH 12/55] fix: require a dot in the protocol version

---
 http/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/proto/proto.go b/http/proto/proto.go
index 690d997..445af24 100644
--- a/http/proto/proto.go
+++ b/http/proto/proto.go
@@ -36,7 +36,7 @@ var majorMinorVersionLUT = [10][10]Proto{
 }
 
 func FromBytes(raw []byte) Proto {
-	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme {
+	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme || raw[minorVersionOffset-1] != '.' {
 		return Unknown
 	}
 
-- 
2.43.0


From b64bee69d9ea0cb0bbff5b215b95fdf1692de4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:20 +0000
Subject: [PATCH 13/55] fix: render overridden default headers again on
 following responses

---
 internal/protocol/http1/serializer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 83f86c4..6724367 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -412,7 +412,7 @@ func (d defaultHeaders) Exclude(key string) {
 }
 
 func (d defaultHeaders) Reset() {
-	for _, header := range d {
-		header.Excluded = false
+	for i := range d {
+		d[i].Excluded = false
 	}
 }
-- 
2.43.0


From a22085d0d17976e1408fb5ad0687c49f5508d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:21 +0000
Subject: [PATCH 14/55] fix: render custom status texts

---
 internal/protocol/http1/serializer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 6724367..217a1d9 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -132,7 +132,11 @@ func (d *Serializer) renderResponseLine(fields *response.Fields) {
 	// in case we have a custom response status text or unknown code, fallback to an old way
 	d.buff = strconv.AppendInt(d.buff, int64(fields.Code), 10)
 	d.sp()
-	d.buff = append(d.buff, status.Text(fields.Code)...)
+	if fields.Status != "" {
+		d.buff = append(d.buff, fields.Status...)
+	} else {
+		d.buff = append(d.buff, status.Text(fields.Code)...)
+	}
 	d.crlf()
 }
 
-- 
2.43.0


From fa07b3083a83b9f22d5c8b0baeef1bbd8e8e14e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:21 +0000
Subject: [PATCH 15/55] fix: render cookies of responses with attachments

---
 internal/protocol/http1/serializer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 217a1d9..1e0f6bc 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -178,6 +178,10 @@ func (d *Serializer) sendAttachment(
 		d.renderHeaders(response.TransferEncoding("chunked").Reveal())
 	}
 
+	for _, c := range fields.Cookies {
+		d.renderCookie(c)
+	}
+
 	// now we have to send the body via plain text or chunked transfer encoding.
 	// I'm proposing to make an exception for chunked transfer encoding with a
 	// separate method that'll handle with it by its own. Maybe, even for plain-text
-- 
2.43.0


From 6ff53ffc566c13e8ff125bb30a36ca2a5f71681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:21 +0000
Subject: [PATCH 16/55] fix: close connections after responses with attachments
 when asked to

---
 internal/protocol/http1/serializer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 1e0f6bc..f9850f8 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -94,7 +94,12 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		return d.sendAttachment(d.request, response, d.writer)
+		err = d.sendAttachment(d.request, response, d.writer)
+		if err == nil && !d.keepsConnection(protocol) {
+			err = status.ErrCloseConnection
+		}
+
+		return err
 	}
 
 	d.renderHeaders(fields)
@@ -114,13 +119,18 @@ func (d *Serializer) Write(
 
 	err = d.writer.Write(d.buff)
 
-	if !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
+	if !d.keepsConnection(protocol) {
 		err = status.ErrCloseConnection
 	}
 
 	return err
 }
 
+// keepsConnection tells, whether the connection stays open after the response
+func (d *Serializer) keepsConnection(protocol proto.Proto) bool {
+	return isKeepAlive(protocol, d.request) || d.request.Upgrade != proto.Unknown
+}
+
 func (d *Serializer) renderResponseLine(fields *response.Fields) {
 	statusLine := status.Line(fields.Code)
 
-- 
2.43.0


From 9d5daaf1974f9b120a3574f5354a0e4cd3df3690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:21 +0000
Subject: [PATCH 17/55] fix: close attachments of HEAD responses and of failed
 ones

---
 internal/protocol/http1/serializer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index f9850f8..405cdfb 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -180,6 +180,7 @@ func (d *Serializer) sendAttachment(
 ) (err error) {
 	fields := response.Reveal()
 	size := fields.Attachment.Size()
+	defer fields.Attachment.Close()
 
 	if size > 0 {
 		d.renderHeaders(fields)
@@ -218,8 +219,6 @@ func (d *Serializer) sendAttachment(
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
 
-	fields.Attachment.Close()
-
 	return err
 }
 
-- 
2.43.0


From c88db753925c64caa2c8124ec979014ee3c308a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 18/55] fix: send the data a reader returns together with
 io.EOF

---
 internal/protocol/http1/serializer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 405cdfb..747dfee 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -229,6 +229,13 @@ func (d *Serializer) writePlainBody(r io.Reader, writer Writer) error {
 
 	for {
 		n, err := r.Read(d.fileBuff)
+
+		if n > 0 {
+			if err := writer.Write(d.fileBuff[:n]); err != nil {
+				return status.ErrCloseConnection
+			}
+		}
+
 		switch err {
 		case nil:
 		case io.EOF:
@@ -236,10 +243,6 @@ func (d *Serializer) writePlainBody(r io.Reader, writer Writer) error {
 		default:
 			return status.ErrCloseConnection
 		}
-
-		if err = writer.Write(d.fileBuff[:n]); err != nil {
-			return status.ErrCloseConnection
-		}
 	}
 }
 
-- 
2.43.0


From 14c1cb05f405749f7dc990c3798c7df9c955b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 19/55] fix: respond with a known protocol on unsupported
 protocols

---
 internal/protocol/http1/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 488d696..0be4701 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -175,11 +175,14 @@ path:
 		}
 
 		request.Path = uf.B2S(reqPath)
-		request.Proto = proto.FromBytes(reqProto)
-		if request.Proto == proto.Unknown {
+		protocol := proto.FromBytes(reqProto)
+		if protocol == proto.Unknown {
+			// the error must still be rendered using some known protocol, so leave it as it is
 			return Error, nil, status.ErrUnsupportedProtocol
 		}
 
+		request.Proto = protocol
+
 		data = data[lf+1:]
 		goto headerKey
 	}
-- 
2.43.0


From dbbb0c0c666b27263cd3932ff6e79df4a905fb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 20/55] fix: use the configured file buffer size

---
 internal/protocol/http1/suit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 813717e..c8b1544 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -46,7 +46,7 @@ func Initialize(cfg config.Config, r router.Router, client tcp.Client, req *http
 
 	return New(
 		cfg, r, req, client, keyBuff, valBuff, startLineBuff,
-		respBuff, cfg.HTTP.ResponseBuffSize, cfg.Headers.Default,
+		respBuff, cfg.HTTP.FileBuffSize, cfg.Headers.Default,
 	)
 }
 
-- 
2.43.0


From 122fc05a959b620ab8ab60a3fbb2a173bba57892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 21/55] fix: announce the chosen protocol when upgrading and do
 not repeat headers

---
 internal/protocol/http1/serializer.go | 2 ++
 internal/protocol/http1/suit.go       | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 747dfee..8b2bb52 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -81,6 +81,8 @@ func (d *Serializer) PreWrite(protocol proto.Proto, response *http.Response) {
 	d.renderResponseLine(fields)
 	d.renderHeaders(fields)
 	d.crlf()
+	// headers of the preceding response don't override defaults of the following one
+	d.defaultHeaders.Reset()
 }
 
 // Write writes the response, keeping in mind difference between 1.0 and 1.1 HTTP versions
diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index c8b1544..a7b47fa 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -80,9 +80,10 @@ func (s *Suit) serve(once bool) (ok bool) {
 				s.PreWrite(
 					req.Proto,
 					s.upgradePreResp.
+						Clear().
 						Code(status.SwitchingProtocols).
 						Header("Connection", "upgrade").
-						Header("Upgrade", trimLast(req.Proto.String())),
+						Header("Upgrade", trimLast(req.Upgrade.String())),
 				)
 				version = req.Upgrade
 			}
-- 
2.43.0


From c4a73e463cd2f9feccf49c5a7d299ff6fa1246ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:22 +0000
Subject: [PATCH 22/55] fix: do not return the body of a previous request

---
 internal/protocol/http1/body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 8854029..f9717fd 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -46,6 +46,7 @@ func (b *Body) Init(request *http.Request) {
 	}
 
 	b.eof = false
+	b.fullBodyBuff = b.fullBodyBuff[:0]
 	b.Reader.Reset()
 }
 
-- 
2.43.0


From eeb5a293418ceab93edc536118367b32ce322586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:23 +0000
Subject: [PATCH 23/55] fix: check the body size limit before allocating and
 reading

---
 internal/protocol/http1/body.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index f9717fd..0736eb0 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -63,6 +63,10 @@ func (b *Body) Bytes() ([]byte, error) {
 
 	// FIXME: this barely works with applied transfer-encodings
 	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength {
+		if uint(b.contentLength) > b.plain.maxBodyLen {
+			return nil, status.ErrBodyTooLarge
+		}
+
 		b.fullBodyBuff = make([]byte, 0, b.contentLength)
 	}
 
@@ -161,15 +165,15 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 		return nil, io.EOF
 	}
 
+	if p.bytesLeft > p.maxBodyLen {
+		return nil, status.ErrBodyTooLarge
+	}
+
 	data, err := p.client.Read()
 	if err != nil {
 		return nil, err
 	}
 
-	if p.bytesLeft > p.maxBodyLen {
-		return nil, status.ErrBodyTooLarge
-	}
-
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
 		body, data = data[:p.bytesLeft], data[p.bytesLeft:]
 		p.client.Unread(data)
-- 
2.43.0


From 4b54c04dc5ce4a9b678f7b81ca69df46cc9e8612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:23 +0000
Subject: [PATCH 24/55] fix: do not go on reading a body after an error

---
 internal/protocol/http1/body.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 0736eb0..05d7295 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -22,6 +22,8 @@ type Body struct {
 	contentLength int
 	fullBodyBuff  []byte
 	eof           bool
+	// err is the first error occurred. There's no way to find out after it where the body ends
+	err error
 }
 
 func NewBody(
@@ -46,6 +48,7 @@ func (b *Body) Init(request *http.Request) {
 	}
 
 	b.eof = false
+	b.err = nil
 	b.fullBodyBuff = b.fullBodyBuff[:0]
 	b.Reader.Reset()
 }
@@ -107,6 +110,10 @@ func (b *Body) Retrieve() ([]byte, error) {
 		return nil, io.EOF
 	}
 
+	if b.err != nil {
+		return nil, b.err
+	}
+
 	var (
 		piece []byte
 		err   error
@@ -139,8 +146,12 @@ func (b *Body) Discard() (err error) {
 }
 
 func (b *Body) checkEOF(err error) {
-	if err == io.EOF {
+	switch err {
+	case nil:
+	case io.EOF:
 		b.eof = true
+	default:
+		b.err = err
 	}
 }
 
-- 
2.43.0


From dd8e01955f92c2096055c38f6b63234b44b7380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:23 +0000
Subject: [PATCH 25/55] fix: keep the encryption token across requests of a
 connection

---
 http/request.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/http/request.go b/http/request.go
index 6a5286e..9b38630 100644
--- a/http/request.go
+++ b/http/request.go
@@ -180,7 +180,10 @@ func (r *Request) Clear() (err error) {
 	r.Connection = ""
 	r.Upgrade = proto.Unknown
 	r.Ctx = zeroContext
-	r.Env = Environment{}
+	r.Env = Environment{
+		// the encryption belongs to the connection, so stays the same across all its requests
+		Encryption: r.Env.Encryption,
+	}
 
 	return nil
 }
-- 
2.43.0


From d0ea8fbd0900c8343a575093a7a62caa6ea066b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:24 +0000
Subject: [PATCH 26/55] fix: do not leak descriptors of directories

---
 http/response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/http/response.go b/http/response.go
index ff98e56..8538538 100644
--- a/http/response.go
+++ b/http/response.go
@@ -133,9 +133,11 @@ func (r *Response) TryFile(path string) (*Response, error) {
 	stat, err := fd.Stat()
 	if err != nil {
 		// ...and if we can't get stats on it, it exists, however something in system went wrong
+		_ = fd.Close()
 		return r, status.ErrInternalServerError
 	}
 	if stat.IsDir() {
+		_ = fd.Close()
 		return r, status.ErrNotFound
 	}
 
-- 
2.43.0


From 18a5d6f64177147ac93594b222d34a10c7a9feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:24 +0000
Subject: [PATCH 27/55] fix: do not write JSON into the memory of a previously
 set body

---
 http/response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/response.go b/http/response.go
index 8538538..cd29b36 100644
--- a/http/response.go
+++ b/http/response.go
@@ -176,7 +176,8 @@ func (r *Response) Cookie(cookies ...cookie.Cookie) *Response {
 // TryJSON receives a model (must be a pointer to the structure) and returns a new Response
 // object and an error
 func (r *Response) TryJSON(model any) (*Response, error) {
-	r.fields.Body = r.fields.Body[:0]
+	// the previous body may belong to the user or even be read-only
+	r.fields.Body = nil
 	stream := json.ConfigDefault.BorrowStream(r)
 	stream.WriteVal(model)
 	err := stream.Flush()
-- 
2.43.0


From 7e360040f333f3f4c53b503f373de640dc92d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:24 +0000
Subject: [PATCH 28/55] fix: close connections on explicit request despite of
 unsupported upgrades

---
 internal/protocol/http1/serializer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 8b2bb52..2e1fe0c 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -130,7 +130,10 @@ func (d *Serializer) Write(
 
 // keepsConnection tells, whether the connection stays open after the response
 func (d *Serializer) keepsConnection(protocol proto.Proto) bool {
-	return isKeepAlive(protocol, d.request) || d.request.Upgrade != proto.Unknown
+	// upgraded connections stay open, unless they're explicitly asked to be closed
+	upgraded := proto.HTTP1&d.request.Upgrade != 0 && !strcomp.EqualFold(d.request.Connection, "close")
+
+	return isKeepAlive(protocol, d.request) || upgraded
 }
 
 func (d *Serializer) renderResponseLine(fields *response.Fields) {
-- 
2.43.0


From f512ce382f9dfed6bcff53774b1f6e7ddd71f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:15 +0000
Subject: [PATCH 29/55] fix: do not take a closed connection for the end of the
 body

---
 internal/protocol/http1/body.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 05d7295..4372d7b 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -182,7 +182,7 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 
 	data, err := p.client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectEOF(err)
 	}
 
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
@@ -222,7 +222,7 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	client := c.client
 	data, err := client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectEOF(err)
 	}
 
 	chunk, extra, err := c.parser.Parse(data, c.encoding.HasTrailer)
@@ -243,6 +243,16 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	return chunk, err
 }
 
+// unexpectEOF distinguishes the connection being closed in the middle of the body from the
+// end of the body
+func unexpectEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
 func adduint(x, y uint) (uint, bool) {
 	return x + y, math.MaxUint-x < y
 }
-- 
2.43.0


From a2c4794d5a3dee27de21de6273e5de3fa0641ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:15 +0000
Subject: [PATCH 30/55] fix: do not answer malformed requests as if they were
 the preceding one

---
 http/request.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/http/request.go b/http/request.go
index 9b38630..c69a27a 100644
--- a/http/request.go
+++ b/http/request.go
@@ -171,6 +171,11 @@ func (r *Request) Clear() (err error) {
 		return err
 	}
 
+	// if the following request turns out to be malformed, its error must not be handled and
+	// rendered using the request line of the current one
+	r.Method = method.Unknown
+	r.Path = ""
+	r.Proto = proto.HTTP11
 	r.Query.Set(nil)
 	r.Params.Clear()
 	r.Headers.Clear()
-- 
2.43.0


From 08781e5f3b5a3017ae1853dff590bbcde170c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 31/55] fix: split the query before decoding it and leave the
 raw one untouched

---
 http/query/internal/parser.go | 92 +++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 43 deletions(-)

diff --git a/http/query/internal/parser.go b/http/query/internal/parser.go
index 6182084..605ac9b 100644
--- a/http/query/internal/parser.go
+++ b/http/query/internal/parser.go
@@ -1,6 +1,7 @@
 package internal
 
 import (
+	"bytes"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/keyvalue"
 	"github.com/indigo-web/indigo/internal/uridecode"
@@ -10,62 +11,67 @@ import (
 // replace empty value (or so-called parameter without value) with the following string
 const defaultEmptyValueContent = "1"
 
+// Parse splits the query by ampersands and equal signs first and decodes keys and values
+// afterwards, as the escaped delimiters belong to keys and values. The data stays untouched
 func Parse(data []byte, params *keyvalue.Storage) (err error) {
-	if len(data) == 0 {
-		return nil
-	}
+	for len(data) > 0 {
+		var pair []byte
 
-	data, err = uridecode.Decode(data, data[:0])
-	if err != nil {
-		return err
-	}
+		if amp := bytes.IndexByte(data, '&'); amp != -1 {
+			pair, data = data[:amp], data[amp+1:]
+		} else {
+			pair, data = data, nil
+		}
 
-	var key string
+		eq := bytes.IndexByte(pair, '=')
+		if eq == -1 {
+			flag, err := decode(pair)
+			if err != nil {
+				return err
+			}
 
-parseKey:
-	if len(data) == 0 {
-		return nil
-	}
+			params.Add(flag, defaultEmptyValueContent)
+			continue
+		}
 
-	for i := range data {
-		switch data[i] {
-		case '=':
-			key = uf.B2S(data[:i])
-			if len(key) == 0 {
-				return status.ErrBadQuery
-			}
+		if eq == 0 {
+			return status.ErrBadQuery
+		}
 
-			data = data[i+1:]
-			goto parseValue
-		case '&':
-			params.Add(uf.B2S(data[:i]), defaultEmptyValueContent)
-			data = data[i+1:]
-			goto parseKey
-		case '+':
-			data[i] = ' '
+		key, err := decode(pair[:eq])
+		if err != nil {
+			return err
 		}
-	}
 
-	params.Add(uf.B2S(data), defaultEmptyValueContent)
+		// ignore the fact that the value may be empty. In case there's no equal sign, we
+		// definitely know it's a flag and is supposed to be like that. However, if there's
+		// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
+		value, err := decode(pair[eq+1:])
+		if err != nil {
+			return err
+		}
+
+		params.Add(key, value)
+	}
 
 	return nil
+}
 
-parseValue:
-	for i := range data {
-		switch data[i] {
-		case '&':
-			// ignore the fact that the value may be empty. In case there's no equal sign, we
-			// definitely know it's a flag and is supposed to be like that. However, if there's
-			// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
-			params.Add(key, uf.B2S(data[:i]))
-			data = data[i+1:]
-			goto parseKey
-		case '+':
-			data[i] = ' '
+func decode(raw []byte) (string, error) {
+	if bytes.IndexByte(raw, '%') == -1 && bytes.IndexByte(raw, '+') == -1 {
+		return uf.B2S(raw), nil
+	}
+
+	decoded := make([]byte, len(raw))
+	for i, char := range raw {
+		if char == '+' {
+			char = ' '
 		}
+
+		decoded[i] = char
 	}
 
-	params.Add(key, uf.B2S(data))
+	decoded, err := uridecode.Decode(decoded, decoded[:0])
 
-	return nil
+	return uf.B2S(decoded), err
 }
-- 
2.43.0


From 43ee4fbd0562a2303025dfff0a82786acf1fb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:56 +0000
Subject: [PATCH 32/55] fix: report bad queries on every access

---
 http/query/query.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/http/query/query.go b/http/query/query.go
index 0b9ab15..c425340 100644
--- a/http/query/query.go
+++ b/http/query/query.go
@@ -14,6 +14,7 @@ type Params = *keyvalue.Storage
 // by the fact that parameters won't be parsed until requested
 type Query struct {
 	parsed bool
+	err    error
 	params Params
 	raw    []byte
 }
@@ -32,6 +33,7 @@ func (q *Query) Set(raw []byte) {
 
 	if q.parsed {
 		q.parsed = false
+		q.err = nil
 		q.params.Clear()
 	}
 }
@@ -56,7 +58,11 @@ func (q *Query) Get(key string) (value string, err error) {
 
 // Unwrap returns all query parameters. If error occurred, nil parameters will be returned
 func (q *Query) Unwrap() (Params, error) {
-	return q.params, q.parse()
+	if err := q.parse(); err != nil {
+		return nil, err
+	}
+
+	return q.params, nil
 }
 
 // Raw just returns a raw value of query as it is
@@ -65,11 +71,10 @@ func (q *Query) Raw() []byte {
 }
 
 func (q *Query) parse() error {
-	if q.parsed {
-		return nil
+	if !q.parsed {
+		q.parsed = true
+		q.err = internal.Parse(q.raw, q.params)
 	}
 
-	q.parsed = true
-
-	return internal.Parse(q.raw, q.params)
+	return q.err
 }
-- 
2.43.0


From dd77b6ba8c0a09ab02ba786745dbcf5ac684d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:09 +0000
Subject: [PATCH 33/55] fix: clone strings of cloned storages

---
 internal/keyvalue/storage.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/keyvalue/storage.go b/internal/keyvalue/storage.go
index 0cff996..174fb5a 100644
--- a/internal/keyvalue/storage.go
+++ b/internal/keyvalue/storage.go
@@ -3,6 +3,7 @@ package keyvalue
 import (
 	"github.com/indigo-web/iter"
 	"github.com/indigo-web/utils/strcomp"
+	"strings"
 )
 
 type Pair struct {
@@ -147,10 +148,17 @@ func (s *Storage) Len() int {
 // Clone creates a deep copy, which may be used later or stored somewhere safely. However,
 // it comes at cost of multiple allocations
 func (s *Storage) Clone() *Storage {
+	pairs := clone(s.pairs)
+	for i, pair := range pairs {
+		// the strings usually point to the memory, which is reused for following requests
+		pairs[i] = Pair{
+			Key:   strings.Clone(pair.Key),
+			Value: strings.Clone(pair.Value),
+		}
+	}
+
 	return &Storage{
-		pairs:      clone(s.pairs),
-		uniqueBuff: clone(s.uniqueBuff),
-		valuesBuff: clone(s.valuesBuff),
+		pairs: pairs,
 	}
 }
 
-- 
2.43.0


From 6eb48dad0ff800dbcb92bd4d249216cc152e50a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:22 +0000
Subject: [PATCH 34/55] fix: escape every byte of non-ASCII paths

---
 http/path.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/path.go b/http/path.go
index a57c967..5ce7e6a 100644
--- a/http/path.go
+++ b/http/path.go
@@ -10,7 +10,8 @@ func Escape(p Path) string {
 		offset int
 	)
 
-	for i := range p {
+	// iterate over bytes, not runes, as every single byte must be checked
+	for i := 0; i < len(p); i++ {
 		if !isASCIIPrintable(p[i]) {
 			if buff == nil {
 				buff = allocBuff(len(p))
-- 
2.43.0


From c755e5970e6584bc83787730765a9d54da98665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:22 +0000
Subject: [PATCH 35/55] fix: fill the number of preallocated cookies

---
 config/config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index d2c8e39..44f7a91 100644
--- a/config/config.go
+++ b/config/config.go
@@ -194,8 +194,9 @@ func Fill(src Config) (new Config) {
 				Default: numOr(src.Headers.ValueSpace.Default, defaults.Headers.ValueSpace.Default),
 				Maximal: numOr(src.Headers.ValueSpace.Maximal, defaults.Headers.ValueSpace.Maximal),
 			},
-			MaxEncodingTokens: numOr(src.Headers.MaxEncodingTokens, defaults.Headers.MaxEncodingTokens),
-			Default:           mapOr(src.Headers.Default, defaults.Headers.Default),
+			MaxEncodingTokens:  numOr(src.Headers.MaxEncodingTokens, defaults.Headers.MaxEncodingTokens),
+			Default:            mapOr(src.Headers.Default, defaults.Headers.Default),
+			CookiesPreAllocate: numOr(src.Headers.CookiesPreAllocate, defaults.Headers.CookiesPreAllocate),
 		},
 		Body: Body{
 			MaxSize:            numOr(src.Body.MaxSize, defaults.Body.MaxSize),
-- 
2.43.0


From 9df4a1142dfaf95bab7a4370e170b89f2ca591b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 36/55] fix: do not lose short and empty segments of dynamic
 path templates

---
 router/inbuilt/internal/radix/template.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index 26b267b..10c14d4 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -31,7 +31,7 @@ func Parse(tmpl string) (Template, error) {
 	var (
 		offset   = 1
 		template = Template{}
-		state    = eStatic
+		state    = eSlash
 	)
 
 	if len(tmpl) == 0 {
@@ -62,6 +62,9 @@ func Parse(tmpl string) (Template, error) {
 		case eSlash:
 			switch tmpl[i] {
 			case '/':
+				// consecutive slashes make an empty segment
+				template.segments = append(template.segments, Segment{})
+				offset = i + 1
 			case '{':
 				offset = i + 1
 				state = eDynamic
@@ -96,11 +99,14 @@ func Parse(tmpl string) (Template, error) {
 		}
 	}
 
-	if state == eStatic && offset < len(tmpl)-1 {
+	switch state {
+	case eStatic:
 		template.segments = append(template.segments, Segment{
 			IsWildcard: false,
 			Payload:    tmpl[offset:],
 		})
+	case eDynamic:
+		return template, fmt.Errorf(`"%s": dynamic part is not closed`, tmpl)
 	}
 
 	return template, nil
-- 
2.43.0


From 4bc3edc096d6cdf6419a551f0eb248ac0a9f229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 37/55] fix: respond with 404 to unregistered root and empty
 paths of dynamic routers

---
 router/inbuilt/internal/radix/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/internal/radix/tree.go b/router/inbuilt/internal/radix/tree.go
index e881fd9..bc7a0a4 100644
--- a/router/inbuilt/internal/radix/tree.go
+++ b/router/inbuilt/internal/radix/tree.go
@@ -29,7 +29,7 @@ type Node struct {
 }
 
 func New() *Node {
-	return newNode(new(Payload), false, "")
+	return newNode(nil, false, "")
 }
 
 func newNode(payload *Payload, isDyn bool, dynName string) *Node {
@@ -85,7 +85,7 @@ func (n *Node) insertRecursively(segments []Segment, payload *Payload) error {
 }
 
 func (n *Node) Match(path string, params Params) *Payload {
-	if path[0] != '/' {
+	if len(path) == 0 || path[0] != '/' {
 		// all http request paths MUST have a leading slash
 		return nil
 	}
-- 
2.43.0


From f35e8c498f9a56df3522d8293ca3cf63627e1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 38/55] fix: list allowed methods of dynamic routes in a stable
 order

---
 router/inbuilt/registrar.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/router/inbuilt/registrar.go b/router/inbuilt/registrar.go
index 7aafc8d..9b0349d 100644
--- a/router/inbuilt/registrar.go
+++ b/router/inbuilt/registrar.go
@@ -6,7 +6,6 @@ import (
 	"github.com/indigo-web/indigo/router/inbuilt/internal/radix"
 	"github.com/indigo-web/indigo/router/inbuilt/internal/types"
 	"github.com/indigo-web/indigo/router/inbuilt/uri"
-	"strings"
 )
 
 type registrar struct {
@@ -87,19 +86,15 @@ func (r *registrar) AsRadixTree() radix.Tree {
 	tree := radix.New()
 
 	for path, v := range r.routes {
-		var (
-			methodsMap types.MethodsMap
-			allow      string
-		)
+		var methodsMap types.MethodsMap
 
 		for method_, handler := range v {
 			methodsMap[method_] = handler
-			allow += method_.String() + ","
 		}
 
 		tree.MustInsert(radix.MustParse(path), radix.Payload{
 			MethodsMap: methodsMap,
-			Allow:      strings.TrimSuffix(allow, ","),
+			Allow:      getAllowString(methodsMap),
 		})
 	}
 
-- 
2.43.0


From 9bf0548c79c918e5b83f940769f69c218b869964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 39/55] fix: do not mix TRACE responses of different requests

---
 router/inbuilt/inbuilt.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index ceb1696..908df22 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -49,7 +49,6 @@ func New() *Router {
 type runtimeRouter struct {
 	mutators    []Mutator
 	catchers    []Catcher
-	traceBuff   []byte
 	tree        radix.Tree
 	routesMap   routesMap
 	errHandlers errorHandlers
@@ -135,9 +134,8 @@ func (r *runtimeRouter) OnError(request *http.Request, err error) *http.Response
 
 func (r *runtimeRouter) onError(request *http.Request, err error) *http.Response {
 	if request.Method == method.TRACE && err == status.ErrMethodNotAllowed {
-		r.traceBuff = renderHTTPRequest(request, r.traceBuff)
-
-		return traceResponse(request.Respond(), r.traceBuff)
+		// the router is shared among all the connections, so the buffer must not be
+		return traceResponse(request.Respond(), renderHTTPRequest(request, nil))
 	}
 
 	if err == status.ErrNotFound {
-- 
2.43.0


From a6062ddc564e555b5edcbd9cfa41bb8063ac48ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 40/55] fix: normalize requested hosts the same way as
 registered ones

---
 router/virtual/virtual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/virtual/virtual.go b/router/virtual/virtual.go
index 6d16820..d4ce732 100644
--- a/router/virtual/virtual.go
+++ b/router/virtual/virtual.go
@@ -114,7 +114,7 @@ func (r *runtimeRouter) getRouter(request *http.Request) (router.Router, *http.R
 		return nil, http.Code(request, status.BadRequest)
 	}
 
-	host := hosts[0]
+	host := domain.Normalize(hosts[0])
 
 	for _, virtRouter := range r.routers {
 		if strcomp.EqualFold(virtRouter.Domain, host) {
-- 
2.43.0


From 507da9c262e731ee13da7563621ac89f4f660611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 41/55] fix: map requests to static files independently and
 under the whole prefix

---
 router/inbuilt/static.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/router/inbuilt/static.go b/router/inbuilt/static.go
index 1ff7242..7e1e425 100644
--- a/router/inbuilt/static.go
+++ b/router/inbuilt/static.go
@@ -4,22 +4,27 @@ import (
 	"github.com/indigo-web/indigo/http"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/pathlib"
+	"path"
 	"strings"
 )
 
 // Static adds a catcher of prefix, that automatically returns files from defined root
 // directory
 func (r *Router) Static(prefix, root string, mwares ...Middleware) *Router {
-	pathReplacer := pathlib.NewPath(prefix, root)
+	base := path.Join(r.prefix, prefix)
 
 	return r.Catch(prefix, func(request *http.Request) *http.Response {
-		pathReplacer.Set(request.Path)
-		path := pathReplacer.Relative()
-		if !isSafe(path) {
+		name := strings.TrimPrefix(request.Path, base)
+		isInside := len(name) == 0 || name[0] == '/' || strings.HasSuffix(base, "/")
+		if !isInside || !isSafe(name) {
 			return http.Error(request, status.ErrNotFound)
 		}
 
-		return request.Respond().File(path)
+		// the handler is shared among all the connections, so the replacer must not be
+		pathReplacer := pathlib.NewPath(base, root)
+		pathReplacer.Set(request.Path)
+
+		return request.Respond().File(pathReplacer.Relative())
 	}, mwares...)
 }
 
-- 
2.43.0


From 8081b142a5e2ac3f9bbd9d84845a3f72c448521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 42/55] fix: serve every listener by its own handler and close
 them if binding failed

---
 indi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indi.go b/indi.go
index 67219c4..8973193 100644
--- a/indi.go
+++ b/indi.go
@@ -127,8 +127,12 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 	servers := make([]*tcp.Server, 0, len(a.sources))
 
 	for _, src := range a.sources {
+		src := src
+
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
+			tcp.StopAll(servers)
+
 			return nil, err
 		}
 
-- 
2.43.0


From 5ee25d0c80d012962090dee029a4bd3b29a43e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 43/55] fix: do not let servers of a stopped application stop
 the next run

---
 indi.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/indi.go b/indi.go
index 8973193..e7fd434 100644
--- a/indi.go
+++ b/indi.go
@@ -9,7 +9,6 @@ import (
 	"github.com/indigo-web/indigo/router/inbuilt"
 	"log"
 	"net"
-	"sync/atomic"
 
 	"github.com/indigo-web/indigo/config"
 	"github.com/indigo-web/indigo/router"
@@ -153,22 +152,23 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 }
 
 func (a *App) run(servers []*tcp.Server) error {
-	var failSilently atomic.Bool
+	// belongs to the run only, otherwise servers stopped by it could stop the next one
+	failed := make(chan error, len(servers))
 
 	for _, server := range servers {
 		go func(server *tcp.Server) {
-			err := server.Start()
-
-			if failSilently.Swap(true) {
-				return
-			}
-
-			a.errCh <- err
+			failed <- server.Start()
 		}(server)
 	}
 
 	callIfNotNil(a.hooks.OnStart)
-	err := <-a.errCh
+
+	var err error
+	select {
+	case err = <-failed:
+	case err = <-a.errCh:
+	}
+
 	if err == status.ErrGracefulShutdown {
 		// stop listening to new clients and process till the end all the old ones
 		tcp.PauseAll(servers)
-- 
2.43.0


From 0d9bcde237c4090e729cf01991bb508936c766eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 44/55] fix: escape the path in redirects to https

---
 router/inbuilt/middleware/httpsonly.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 727d97b..c37a595 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -5,6 +5,7 @@ import (
 	"github.com/indigo-web/indigo/http/encryption"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/router/inbuilt"
+	"net/url"
 	"strings"
 )
 
@@ -39,12 +40,14 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 		}
 
 		host += ":" + params.Port
+		path := request.Path
 		if len(request.Env.AliasFrom) > 0 {
-			host += request.Env.AliasFrom
-		} else {
-			host += request.Path
+			path = request.Env.AliasFrom
 		}
 
+		// the path is already decoded, therefore may contain anything
+		host += (&url.URL{Path: path}).EscapedPath()
+
 		return request.Respond().
 			Code(status.MovedPermanently).
 			Header("Location", "https://"+host)
-- 
2.43.0


From 3e04a837f678bef81f61b9445e445efac515ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:18 +0000
Subject: [PATCH 45/55] fix: keep IPv6 hosts in redirects to https

---
 router/inbuilt/middleware/httpsonly.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index c37a595..d534aed 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -55,8 +55,10 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 }
 
 func removePort(str string) string {
-	if colon := strings.IndexByte(str, ':'); colon != -1 {
-		return str[:colon]
+	// colons enclosed into square brackets belong to an IPv6 address
+	bracket := strings.LastIndexByte(str, ']') + 1
+	if colon := strings.IndexByte(str[bracket:], ':'); colon != -1 {
+		return str[:bracket+colon]
 	}
 
 	return str
-- 
2.43.0


From 0439097212b812af1d17598e5ceae95e41d81510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:30 +0000
Subject: [PATCH 46/55] fix: find parameters of header values after whitespaces

---
 http/headers/valueaccessors.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/http/headers/valueaccessors.go b/http/headers/valueaccessors.go
index c103137..c8f18f3 100644
--- a/http/headers/valueaccessors.go
+++ b/http/headers/valueaccessors.go
@@ -51,13 +51,22 @@ func ParamOfOr(str, key, or string) string {
 }
 
 func getParam(str, substr, or string) string {
-	if index := strings.Index(str, substr); index != -1 {
-		valOffset := index + len(substr)
+	// the leading semicolon may be followed by whitespaces
+	prefix := substr[1:]
 
-		return str[valOffset : valOffset+getParamEnd(str[valOffset:])]
-	}
+	for {
+		semicolon := strings.IndexByte(str, ';')
+		if semicolon == -1 {
+			return or
+		}
+
+		str = strings.TrimLeft(str[semicolon+1:], " \t")
+		if strings.HasPrefix(str, prefix) {
+			value := str[len(prefix):]
 
-	return or
+			return value[:getParamEnd(value)]
+		}
+	}
 }
 
 func getParamEnd(str string) int {
-- 
2.43.0


From 1d2b59144560625317ff0c3f9b205a39f5b4fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:21 +0000
Subject: [PATCH 47/55] fix: announce the stop after the last accepted
 connection is closed

---
 indi.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indi.go b/indi.go
index e7fd434..4f6764e 100644
--- a/indi.go
+++ b/indi.go
@@ -164,8 +164,11 @@ func (a *App) run(servers []*tcp.Server) error {
 	callIfNotNil(a.hooks.OnStart)
 
 	var err error
+	running := len(servers)
+
 	select {
 	case err = <-failed:
+		running--
 	case err = <-a.errCh:
 	}
 
@@ -175,6 +178,12 @@ func (a *App) run(servers []*tcp.Server) error {
 	}
 
 	tcp.StopAll(servers)
+
+	// a server may still be closing the connection it has accepted the last
+	for ; running > 0; running-- {
+		<-failed
+	}
+
 	callIfNotNil(a.hooks.OnStop)
 
 	return err
-- 
2.43.0


From 1b12e8aed54483b7259ce0c5f6e4a212c37ce8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:51 +0000
Subject: [PATCH 48/55] fix: bytes received together with the end of the
 connection were dropped

---
 internal/tcp/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/tcp/client.go b/internal/tcp/client.go
index 6621024..b85b2c5 100644
--- a/internal/tcp/client.go
+++ b/internal/tcp/client.go
@@ -45,8 +45,13 @@ func (c *client) Read() ([]byte, error) {
 	}
 
 	n, err := c.conn.Read(c.buff)
+	if n > 0 {
+		// the data may come together with an error, e.g. a TLS connection being closed by the
+		// peer. It must still be processed, and the error is returned by the next call again
+		return c.buff[:n], nil
+	}
 
-	return c.buff[:n], err
+	return nil, err
 }
 
 // Pending returns stored pending data
-- 
2.43.0


From dfda15cf81dff35ad308fe871c5fb44db019102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:00 +0000
Subject: [PATCH 49/55] fix: a carriage return in a header name was taken for a
 hyphen

---
 internal/protocol/http1/parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 0be4701..fce3051 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -245,7 +245,7 @@ headerKey:
 
 		if len(key) == len("content-length") &&
 			cContent == encodeU64(
-				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7]|0x20,
+				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7],
 			) && cLength == encodeU64(
 			key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, 0, 0,
 		) {
@@ -388,7 +388,7 @@ headerValue:
 			}
 		case 12:
 			if cContent == encodeU64(
-				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7]|0x20,
+				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7],
 			) && cType == encodeU32(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20,
 			) {
@@ -396,7 +396,7 @@ headerValue:
 			}
 		case 16:
 			if cContent == encodeU64(
-				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7]|0x20,
+				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7],
 			) && cEncoding == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) {
@@ -411,7 +411,7 @@ headerValue:
 			if cTransfer == encodeU64(
 				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7]|0x20,
 			) && cEncodin == encodeU64(
-				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
+				key[8], key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) && key[16]|0x20 == 'g' {
 				toks, chunked := parseEncodingString(p.encToksBuff, value, cap(p.encToksBuff))
 				if toks == nil {
@@ -493,6 +493,7 @@ func trimPrefixSpaces(b []byte) []byte {
 	return b[:0]
 }
 
+// hyphens are compared as they are, because a carriage return with the case bit set is a hyphen, too
 var (
 	cUpgrade  = encodeU64('u', 'p', 'g', 'r', 'a', 'd', 'e', 0)
 	cTrailer  = encodeU64('t', 'r', 'a', 'i', 'l', 'e', 'r', 0)
-- 
2.43.0


From 5ccf48478dac278ed469282e3fe1c086c05b660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:32 +0000
Subject: [PATCH 50/55] fix: do not crash on response headers without values

---
 http/response.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/response.go b/http/response.go
index cd29b36..e00d8ba 100644
--- a/http/response.go
+++ b/http/response.go
@@ -73,6 +73,10 @@ func (r *Response) TransferEncoding(value string) *Response {
 // Header sets header values to a key. In case it already exists the value will
 // be appended.
 func (r *Response) Header(key string, values ...string) *Response {
+	if len(values) == 0 {
+		return r
+	}
+
 	switch {
 	case strcomp.EqualFold(key, "content-type"):
 		return r.ContentType(values[0])
-- 
2.43.0


From e30fcf6812bb989d532b4047e958e5c69c7cfd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:20 +0000
Subject: [PATCH 51/55] fix: do not use incomplete self-signed certificates

---
 https.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/https.go b/https.go
index 6891b9e..34d5d3e 100644
--- a/https.go
+++ b/https.go
@@ -161,12 +161,10 @@ func mkdirIfNotExists(dir string) error {
 	return os.MkdirAll(dir, 0700)
 }
 
+// certExists tells whether there is a usable pair. Its mere existence isn't enough, as writing it
+// could have been interrupted
 func certExists(cert, key string) bool {
-	return fileExists(cert) && fileExists(key)
-}
-
-func fileExists(filename string) bool {
-	stat, err := os.Stat(filename)
+	_, err := tls.LoadX509KeyPair(cert, key)
 
-	return err == nil && !stat.IsDir()
+	return err == nil
 }
-- 
2.43.0


From 39d9bb56240847ec343ed24d211d411a7a41d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:17 +0000
Subject: [PATCH 52/55] fix: refuse spaces in header names, which hide headers
 from the parser

---
 internal/protocol/http1/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index fce3051..0b72271 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -236,6 +236,12 @@ headerKey:
 		}
 
 		key := uf.B2S(headerKeyBuff.Finish())
+		if strings.IndexByte(key, ' ') != -1 || strings.IndexByte(key, '\t') != -1 {
+			// neither a folded line nor a space before the colon is a header with an unusual name.
+			// Whoever understands them differently also sees another body
+			return Error, nil, status.ErrBadRequest
+		}
+
 		p.headerKey = key
 		data = data[colon+1:]
 
-- 
2.43.0


From ee74f38cad55fbaba74761808c2ed7305a4ad86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:02 +0000
Subject: [PATCH 53/55] fix: refuse requests whose last transfer encoding is
 not chunked

---
 internal/protocol/http1/parser.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 0b72271..3b1d309 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -199,9 +199,7 @@ headerKey:
 		if headerKeyBuff.SegmentLength() == 0 {
 			switch data[0] {
 			case '\n':
-				p.cleanup()
-
-				return HeadersCompleted, data[1:], nil
+				return p.complete(data[1:])
 			case '\r':
 				data = data[1:]
 				goto headerValueCRLFCR
@@ -440,14 +438,25 @@ headerValueCRLFCR:
 	}
 
 	if data[0] == '\n' {
-		p.cleanup()
-
-		return HeadersCompleted, data[1:], nil
+		return p.complete(data[1:])
 	}
 
 	return Error, nil, status.ErrBadRequest
 }
 
+// complete is called when the headers are over
+func (p *Parser) complete(extra []byte) (requestState, []byte, error) {
+	toks := p.request.Encoding.Transfer
+	if len(toks) > 0 && !strcomp.EqualFold(toks[len(toks)-1], "chunked") {
+		// there is no way to tell, where does the body end
+		return Error, nil, status.ErrBadRequest
+	}
+
+	p.cleanup()
+
+	return HeadersCompleted, extra, nil
+}
+
 func (p *Parser) cleanup() {
 	p.headersNumber = 0
 	p.startLineBuff.Clear()
-- 
2.43.0


From 65bbbf2f1d2678ec4cc9e497112c24dca86d333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:05 +0000
Subject: [PATCH 54/55] fix: refuse a content length without digits

---
 internal/protocol/http1/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 3b1d309..381ab13 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -304,7 +304,8 @@ contentLengthEnd:
 	// ascii symbol. In case loop has finished peacefully, as no more data left, but also no
 	// character found to satisfy the exit condition, this code will never be reached
 	if p.contentLength == -1 {
-		p.contentLength = 0
+		// nothing is not a number. Whoever doesn't ignore such a length sees another body
+		return Error, nil, status.ErrBadRequest
 	}
 
 	if p.hasContentLength && request.ContentLength != p.contentLength {
-- 
2.43.0


From efa6e221a53ed9551a2e395ddbf0076a76b2481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:05 +0000
Subject: [PATCH 55/55] fix: let routers be initialized several times

---
 router/inbuilt/inbuilt.go   | 21 +++++++++++++++++++++
 router/inbuilt/registrar.go | 14 ++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index 908df22..1b7e394 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -55,7 +55,10 @@ type runtimeRouter struct {
 	isStatic    bool
 }
 
+// Initialize builds the actual router. It may be called several times, for example if the
+// router is used for multiple virtual hosts, so the router itself stays as it is
 func (r *Router) Initialize() router.Router {
+	r = r.clone()
 	r.applyErrorHandlersMiddlewares()
 
 	if err := r.prepare(); err != nil {
@@ -86,6 +89,24 @@ func (r *Router) Initialize() router.Router {
 	}
 }
 
+func (r *Router) clone() *Router {
+	clone := *r
+	clone.mutators = append([]Mutator(nil), r.mutators...)
+	clone.catchers = append([]Catcher(nil), r.catchers...)
+	clone.registrar = r.registrar.Clone()
+	clone.errHandlers = make(errorHandlers, len(r.errHandlers))
+	for code, handler := range r.errHandlers {
+		clone.errHandlers[code] = handler
+	}
+
+	clone.children = make([]*Router, len(r.children))
+	for i, child := range r.children {
+		clone.children[i] = child.clone()
+	}
+
+	return &clone
+}
+
 // OnRequest processes the request
 func (r *runtimeRouter) OnRequest(request *http.Request) *http.Response {
 	r.runMutators(request)
diff --git a/router/inbuilt/registrar.go b/router/inbuilt/registrar.go
index 9b0349d..0b9b708 100644
--- a/router/inbuilt/registrar.go
+++ b/router/inbuilt/registrar.go
@@ -58,6 +58,20 @@ func (r *registrar) Merge(another *registrar) error {
 	return nil
 }
 
+func (r *registrar) Clone() *registrar {
+	clone := *r
+	clone.routes = make(map[string]map[method.Method]Handler, len(r.routes))
+
+	for path, v := range r.routes {
+		clone.routes[path] = make(map[method.Method]Handler, len(v))
+		for method_, handler := range v {
+			clone.routes[path][method_] = handler
+		}
+	}
+
+	return &clone
+}
+
 func (r *registrar) Apply(f func(handler Handler) Handler) {
 	for _, v := range r.routes {
 		for key, handler := range v {
-- 
2.43.0

