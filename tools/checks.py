import json
L="internal/zzh/leaf"; N="internal/zzh/netio"
def H(pkg,fn,quick,thorough,reach,bound,**k):
    d=dict(pkg=pkg,fn=fn,quick=quick,thorough=thorough,reach=reach,bound=bound); d.update(k); return d
def W(id,hs,assume,outside,**k):
    d=dict(id=id,harnesses=hs,assumptions=assume,outside=outside); d.update(k)
    json.dump(d,open(f"/verif/checks/{id}.json","w"),indent=1)
W("C11",[H(L,"Hex",[{}],[{}],["digit"],"all 256 bytes"),
 H(L,"Decode",[{"n":"0..8","mode":"0|2"},{"n":"0..6","mode":"1|3","cap":"0|2|5"},{"n":"3","pre":"0|5|12|30|70|130|300","post":"0|3|10|40","mode":"0|2"},{"n":"3","pre":"12|40","post":"20","mode":"1|3","cap":"16"},{"n":"2","pre":"1600","post":"10","mode":"0..3","cap":"64"},{"n":"3","pre":"7000","post":"10","mode":"0..3","cap":"64"}],[{"n":"0..12","mode":"0|2"},{"n":"0..9","mode":"1|3","cap":"0|1|2|5|8"},{"n":"3..5","pre":"0|5|12|30|70|130|300","post":"0|3|10|40","mode":"0..3"}],["bad","good","escaped"],"every byte string of up to 8 bytes (thorough 12), up to 3 arbitrary bytes within fixed ones of up to 4400, and every kind of target buffer the callers use")],
 [],["inputs longer than the bound"])
W("C12",[H("router/inbuilt/zzh","Normalize",[{"n":"0..12"},{"n":"2","pre":"3|20|70|300|5000","slashes":"0|1|5|20|100|1000"}],[{"n":"0..20"},{"n":"4","pre":"0..10|20|70|300","slashes":"0..5|20|100"}],["trimmed","done"],"every byte string of up to 12 bytes (thorough 20), and 2 (4) arbitrary bytes between up to 5000 fixed ones and up to 1000 slashes")],[],["longer paths"])
W("C13",[H(L,"Method",[{"n":"0..10"},{"n":"3..4","pad":"1..7|60|256"}],[{"n":"0..16"},{"n":"3..6","pad":"1..14|60|256|1000"}],["parsed","known"],"every byte string of up to 10 bytes (thorough 16), and longer ones with a fixed end"),H(L,"MethodName",[{}],[{}],["known"],"all 256 method values")],[],["longer strings (no method name is longer than 7)"])
W("C14",[H(L,"Status",[{}],[{}],["unregistered","registered"],"all 65536 codes"),H(L,"StatusErrors",[{"n":"0..3|300"}],[{"n":"0..6"}],["made"],"all codes, messages of up to 3 bytes (6), and the whole list of predefined errors")],[],[])
W("C17",[H(L,"LenMap",[{"k":"1..3","n":"2","mid":"0|1"},{"k":"4","n":"1","mid":"0|1"},{"k":"1","n":"2","mix":"5|12"},{"k":"1","n":"1","mix":"9|20"},{"k":"2","n":"1","pad":"3|12|40|70","step":"1|3"},{"k":"2","n":"1","long":"8|16|40|256"},{"k":"1","n":"2","long":"40|200|256"},{"k":"1","n":"3","pad":"12","step":"0","long":"0"},{"k":"1","n":"1..2","same":"9|20|33"},{"k":"0","n":"2","same":"120"},{"k":"1","n":"1","long":"1100|5000"},{"k":"1","n":"1","pad":"300|1100","step":"0|1"}],[{"k":"1..4","n":"2|3","mid":"0|1"},{"k":"5","n":"1","mid":"0"},{"k":"2..3","n":"1","pad":"3|12|40|70|200","step":"0|1|3"},{"k":"2","n":"2","long":"8|16|40|200"},{"k":"1..2","n":"1..2","same":"9|20|33|70"}],["hit","miss"],"histories of up to 4 insertions (5), keys of up to 2 arbitrary bytes (3); behind up to 70 (200) fixed insertions, up to 33 (70) of them with keys of one length; keys of up to 200 bytes, 2 of which are arbitrary; neighbouring lengths with repeated keys")],[],["longer histories and keys"])
W("C18",[H(L,"Stash",[{"k":"1..3","m":"1..2","r":"3"},{"k":"2","m":"2","r":"4"},{"k":"2","m":"2","r":"3","reset":"0..2"},{"k":"2","m":"1","r":"3..4","big":"7|64|600","share":"0..3"},{"k":"2","m":"1","r":"3","big":"5|64","warm":"40|300"}],[{"k":"1..3","m":"1..3","r":"3..4"},{"k":"3","m":"2","r":"5"},{"k":"2","m":"2","r":"4","reset":"0..3"},{"k":"2..3","m":"1","r":"4","big":"7|64|600|5000","share":"0..3"},{"k":"2","m":"2","r":"3","big":"5|64|600","warm":"40|300|1000"}],["err","done","reset"],"sources of up to 3 pieces of up to 2 bytes (3), any of which may carry an error, up to 4 reads (5) of any sizes, optionally one reset; pieces of up to 601 bytes, one of which is arbitrary, read by small and large buffers; behind up to 300 (1000) fixed pieces")],["a source hands out slices of a buffer that it overwrites on the next call, as the body reader does"],["longer sources"])
W("C19",[H(N,"Client",[{"k":"1..3","size":"2","timeout":"0|5"},{"k":"3","size":"600","big":"700","timeout":"5"},{"k":"2","size":"5000","big":"5000","timeout":"5"},{"k":"1","size":"2","timeout":"0|1|89","ms":"1|250|500|999"},{"k":"2","size":"5","timeout":"5","warm":"40"},{"k":"1","size":"9","timeout":"5","warm":"300"},{"k":"1","size":"70000","big":"70000","timeout":"5"}],[{"k":"1..4","size":"2|3","timeout":"0|5"},{"k":"3","size":"9|600|5000","big":"0|700|5000","timeout":"5"},{"k":"2..3","size":"5","timeout":"5","warm":"40|300"},{"k":"2","size":"70000","big":"70000","timeout":"5"}],["pending","deadline error","read","write","part","done"],"any history of up to 3 (4) reads, unreads and writes, including putting back a part of what was read; buffers of 2 arbitrary bytes, and of up to 70000 bytes with fixed content; behind up to 300 fixed reads and writes; connections returning any number of bytes with any error; failing deadlines"),
 H(N,"Circular",[{"k":"1..4","pieces":"1..3","size":"1..2"},{"k":"6","pieces":"4..5","size":"1"}],[{"k":"1..6","pieces":"1..3","size":"1..2"}],["eof","piece","done"],"any history of up to 4 (6) operations over up to 3 pieces")],
 ["time.Now advances by one microsecond per call"],["the kernel's sockets"])
sch=["internal/tcp"]
W("C20",[H(N,"Stop",[{"servers":"1","conns":"1..2","deadliner":"0|1","mode":"0..2","faults":"0|7"},{"servers":"1","conns":"3","deadliner":"1","mode":"0..2","faults":"4"},{"servers":"2","conns":"1","deadliner":"1","mode":"0|1","faults":"0|7"}],
   [{"servers":"1","conns":"1..3","deadliner":"0|1","mode":"0..2","faults":"0..7"},{"servers":"2","conns":"1","deadliner":"0|1","mode":"0..2","faults":"0..7"}],["settled"],"1 server with up to 3 connections or 2 servers with one each; listeners and connections that fail to close, to expire or to accept with any kind of error; all schedules with at most 2 preemptions at synchronisation operations",preempt=2,sched=sch,no_merge=True),
  H(N,"Together",[{"servers":"2","conns":"1","mode":"0|1","faults":"0|7"}],[{"servers":"2","conns":"1","mode":"0|1","faults":"0..7"},{"servers":"2","conns":"2","mode":"0|1"},{"servers":"3","conns":"1","mode":"0|1"}],["settled"],"2 (3) servers with one (2) connections that last until all of them stopped accepting; at most 1 preemption",preempt=1,sched=sch,no_merge=True),
  H(N,"Stop",[{"servers":"1","conns":"40|400","mode":"2"},{"servers":"20","conns":"2","mode":"0..2"}],[{"servers":"1","conns":"40|400|1100","mode":"0..2"},{"servers":"20|70","conns":"2","mode":"0..2","faults":"0|7"}],["settled"],"1 server with up to 400 (1100) connections, 20 (70) servers with 2 each; one schedule",sched=sch,one_schedule=True,no_merge=True),
  H(N,"Together",[{"servers":"1","conns":"40|400","mode":"0|1","crowd":"1"},{"servers":"20","conns":"2","mode":"0|1","crowd":"1"}],[{"servers":"1","conns":"40|400|1100","mode":"0|1","crowd":"1"},{"servers":"20|70","conns":"2","mode":"0|1","crowd":"1"}],["settled"],"the same, all of them being served when the servers are stopped; one schedule",sched=sch,one_schedule=True,no_merge=True),
  H(N,"AcceptError",[{"conns":"0..2","deadliner":"0|1","faults":"0|7"}],[{"conns":"0..3","deadliner":"0|1","faults":"0..7"}],[],"up to 2 (3) connections before the failing accept; at most 2 preemptions",preempt=2,sched=sch,no_merge=True),
  H(N,"Pause",[{"conns":"0..2","faults":"0|7"}],[{"conns":"0..3","faults":"0..7"}],[],"up to 2 (3) connections; at most 2 preemptions",preempt=2,sched=sch,no_merge=True)],
 ["goroutines interleave at synchronisation operations and calls of the listener, connection and handler (data races are outside)","the listener behaves as net.Listener documents: a closed or expired one fails every accept"],
 ["weak memory","more connections and preemptions"])
W("C48",[H(N,"Independent",[{"servers":"1","conns":"1..3","faults":"0"},{"servers":"1","conns":"2","faults":"4"},{"servers":"2","conns":"1"}],[{"servers":"1","conns":"1..3","faults":"0|4"},{"servers":"2","conns":"1","faults":"0|4"}],["served"],"1 server with up to 3 connections or 2 servers with one each; any of the connections lasts until all others are closed, or all of them until all are being served; all schedules with at most 2 preemptions at synchronisation operations",preempt=2,sched=sch,no_merge=True),
 H(N,"Independent",[{"servers":"1","conns":"40|1100"},{"servers":"20","conns":"3"}],[{"servers":"1","conns":"40|1100|5000"},{"servers":"70","conns":"3"}],["served"],"1 server with up to 1100 (5000) connections, 20 (70) servers with 3 each; one schedule",sched=sch,one_schedule=True,no_merge=True)],
 ["goroutines interleave at synchronisation operations and calls of the listener, connection and handler (data races are outside)"],["weak memory","more connections and preemptions"])
W("C25",[H("router/virtual/zzh","Domain",[{"n":"0..6","p":"0..3"},{"n":"2","p":"2","big":"5|20|60|300|1000"}],[{"n":"0..10","p":"0..4"}],["www","80","443","done"],"hosts of up to 6 (10) arbitrary bytes, with and without www., with ports and labels of up to 3 (4) arbitrary bytes"),
 H("router/virtual/zzh","TrimPort",[{"n":"0..8"},{"n":"3","big":"20|60|300|1000"}],[{"n":"0..14"}],["done"],"every byte string of up to 8 (14)")],[],[])
W("C26",[H(L,"Address",[{"n":"0..8"},{"n":"2","pre":"4|20|70|300","post":"0|9|300"}],[{"n":"0..14"}],["port only","host"],"every byte string of up to 8 bytes (14)"),
 H(L,"Localhost",[{"n":"0..11"},{"n":"0..2","pre":"3|9"}],[{"n":"0..14"},{"n":"0..4","pre":"1..9"}],["localhost"],"every byte string of up to 11 bytes (14); up to 2 (4) arbitrary bytes within localhost:8080"),
 H(L,"IPv4",[{"n":"0..7"},{"n":"3..4","shape":"1..3"}],[{"n":"0..9"},{"n":"2..6","shape":"1..3"}],["ip"],"every byte string of up to 7 bytes (9); up to 4 (6) arbitrary bytes within a longer address with and without a port")],
 [],["longer addresses"],thorough_s=3000)
W("C27",[H(L,"Codings",[{"k":"0..2","size":"1..3","n":"2"},{"k":"3","size":"2","n":"2","hows":"2"},{"k":"1..2","n":"2","big":"1|60|600"},{"k":"1","n":"1","asks":"2"},{"k":"1","n":"2","pad":"20|70|300"},{"k":"1","n":"2","big":"70000"}],[{"k":"0..3","size":"1..4","n":"3"},{"k":"4","size":"2","n":"2","hows":"2"},{"k":"1..2","n":"2","big":"1|60|600|4000"},{"k":"1..2","n":"1","asks":"2"},{"k":"1..2","n":"2","pad":"20|70|200"}],["identity","unknown","known"],"up to 3 (4) codings with any tokens, any of which may fail, behind up to 70 (200) other ones, any payload of up to 3 bytes")],[],[])
W("C32",[H(L,"Attachment",[{}],[{}],["closed"],"every reader kind (closable or not, failing close or not) and every size")],[],[])
W("C37",[H(L,"Mime",[{"n":"0..7"}],[{"n":"0..9"}],["known"],"every extension of up to 7 bytes (9)"),H(L,"MimeNames",[{}],[{}],["ext"],"the whole table")],[],[])

P="internal/zzh/h1"
stub=["utils/buffer, utils/strcomp, utils/uf and chunkedbody are not available offline: stand-ins with the documented behaviour are compiled and encoded in their place"]
cheap="0|1|2|3|4|6|7|8|9|11"; heavy="5|12|13|14"
cut=["complete","refused","pending"]
W("C01",[H(P,"Cuts",[{"t":cheap,"n":"0..4","pieces":"2"},{"t":heavy,"n":"1..2","pieces":"2"},{"t":cheap+"|"+heavy,"n":"2","pieces":"0"},{"t":"10","n":"0..9","pieces":"2"},{"t":"1|3|4|6|7","n":"1","pieces":"3"}],
   [{"t":cheap,"n":"0..6","pieces":"2"},{"t":heavy,"n":"0..4","pieces":"2"},{"t":cheap,"n":"1..4","pieces":"0"},{"t":heavy,"n":"1..3","pieces":"0"},{"t":"10","n":"0..12","pieces":"0|2"},{"t":cheap,"n":"1..2","pieces":"3"}],cut,
   "request heads with up to 4 (thorough 6) arbitrary bytes at each of 14 places, or up to 9 (12) bytes that are all arbitrary; cut anywhere into 2 pieces, into 3 pieces, and byte by byte"),
  H(P,"Limits",[{"kind":"0..7","cuts":"1"}],[{"kind":"0..7","cuts":"2"}],[],"requests around each limit, cut anywhere")],stub,["more arbitrary bytes","error codes of refused requests may depend on the cut"])
W("C02",[H(P,"Network",[{"t":cheap+"|20|21|22|23|24|26","n":"0..4","cuts":"0"},{"t":heavy+"|25|27","n":"1..2","cuts":"0"},{"t":"10","n":"0..8"},{"t":"22|23|24|25|26","n":"2","cuts":"1","mode":"1","read":"0..5"}],
   [{"t":cheap+"|20|21|22|23|24|26","n":"0..6","cuts":"0"},{"t":cheap+"|20|21|22|23|24","n":"2..3","cuts":"1"},{"t":heavy+"|25|27","n":"1..4","cuts":"0"},{"t":"10","n":"0..10","cuts":"0|1"},{"t":"22|23|24|25|26","n":"3","cuts":"1","mode":"1","read":"0..5"}],["ended"],
   "whole connections with up to 4 (6) arbitrary bytes at each of 22 places or up to 8 (10) bytes that are all arbitrary, cut at most once, ended or reset")],stub,["longer garbage"],quick_s=400)
W("C03",[H(P,"Faithful",[{"path":"0..3","query":"0..3","k":"0..1","key":"1..3","val":"1..3","rest":"1"},{"path":"1","k":"2","key":"2","val":"2","rest":"2","lf":"0|1","cuts":"0|1"}],
   [{"path":"0..5","query":"0..5","k":"0..1","key":"1..6","val":"1..4","rest":"1"},{"path":"1","k":"2..3","key":"3","val":"3","rest":"2","lf":"0|1","cuts":"0|1"}],["complete"],"heads with any method, up to 4 (6) path, 2 (4) query characters, up to 2 (3) headers of up to 3 (6) characters, CRLF or LF lines, optionally cut"),
  H(P,"Faithful",[{"esc":"1","k":"0..1"},{"esc":"2..3","path":"0","k":"0","query":"0..2"},{"pad":"3|60|300","path":"1","k":"1","long":"0|5|30|60"}],[{"esc":"1..4","path":"0..1","k":"0..1","query":"0..2"},{"pad":"3|60|300|1000","path":"1","k":"1..2","long":"0|5|30|60"}],["complete"],"paths with up to 3 (4) arbitrary escapes; long paths, names and values"),
  H(P,"Codings",[{"k":"1","n":"2","case":"0|1"},{"k":"2","n":"1","between":"0|1"},{"k":"3","n":"1"}],[{"k":"1","n":"3","case":"0|1"},{"k":"2","n":"2","between":"0|1"},{"k":"3","n":"1","between":"0|1"}],["done"],"up to 3 encoding headers, lists of up to 2 (3) tokens of 4 kinds with 4 kinds of separators"),
  H(P,"Pairs",[{}],[{}],["done"],"all triples of different special headers"),
  H(P,"Special",[{"name":"0..6","near":"0|1|2","lf":"0|1"}],[{"name":"0..6","near":"0|1|2","lf":"0|1"}],["special","ordinary"],"every string of the lengths of the special names"),
  H(P,"Length",[{"n":"0..4","twice":"0|1"},{"n":"1..2","prefix":"922337203685477580|18446744073709551|99999999999999999999"}],[{"n":"0..6","twice":"0|1"},{"n":"1..4","prefix":"922337203685477580|92233720368547758|18446744073709551|99999999999999999999"}],["valid","invalid"],"values of up to 4 (6) arbitrary bytes, and of up to 4 more behind a long prefix")],stub,["longer names and values"])
W("C49",[H(P,"Framing",[{"kind":"0","name":"0..2","n":"1..3","cuts":"0..1"},{"kind":"1","n":"0..2","cuts":"0..1"},{"kind":"2|3","cuts":"0..1"},{"kind":"4","k":"1..3"},{"kind":"5","n":"0..3","cuts":"0|1"}],[{"kind":"0","name":"0..2","n":"1..5","cuts":"0..2"},{"kind":"1","n":"0..4","cuts":"0..2"},{"kind":"2|3","cuts":"0..2"},{"kind":"4","k":"1..4"},{"kind":"5","n":"0..4","cuts":"0..1"}],["refused","served"],"requests with a body and a request behind them: up to 3 (5) arbitrary bytes between a name and its colon, folded lines, two lengths of a digit each, lengths together with chunks, up to 3 (4) transfer encodings of 3 kinds, lengths of up to 3 (4) arbitrary bytes; heads cut at most once (twice)")],stub,["other codes of refusing than 4xx","longer values"])
W("C04",[H(P,"Limits",[{"kind":"0..11","cuts":"0..1"},{"kind":"3","at":"0|5|7"}],[{"kind":"0..11","cuts":"0..2"},{"kind":"3","at":"0..8"}],["within","beyond"],"requests up to 15 units around each of the configured limits, cut at most once (twice)")],stub,["separators (blanks, colon, CR) may count against a limit or not"])
W("C05",[H(P,"Plain",[{"n":"0..4","mode":"0..5","buff":"2|3|16","max":"8","cuts":"0..1"},{"n":"3","mode":"0..5","buff":"2|16","max":"0|2|3","cuts":"0..1"},{"n":"4","mode":"4","buff":"3","max":"8","cuts":"1","r":"1..5"}],
   [{"n":"0..6","mode":"0..5","buff":"1|2|3|5|16","max":"8","cuts":"0..2"},{"n":"3","mode":"0..5","buff":"2|16","max":"0..4","cuts":"0..2"},{"n":"5","mode":"4","buff":"1..6","max":"8","cuts":"0..2","r":"1..6"}],[],"bodies of up to 4 (6) arbitrary bytes, read buffers of 2 to 16 bytes, every way of reading, up to 1 (2) cuts, every point of disconnection"),
  H(P,"Callbacks",[{"n":"0..3","cuts":"0..1"}],[{"n":"0..5","cuts":"0..2","buff":"2|3|16"}],["failed","complete"],"callbacks that fail at any point with 4 kinds of errors"),
  H(P,"Huge",[{"mode":"0..5"}],[{"mode":"0..5"}],[],"any announced length beyond the limit")],stub,["longer bodies"])
W("C06",[H(P,"Chunked",[{"k":"0..2","m":"2","x":"0..1","mode":"0..5","buff":"3|16","max":"8","cuts":"0..1"},{"k":"2","m":"2","mode":"0..5","buff":"16","max":"0..4","cuts":"0"},{"k":"1..2","m":"2","mode":"0|2|5","ext":"0|1","trailer":"0|1","cuts":"0..1"},{"k":"2","m":"2","mode":"0..5","cutoff":"1","cuts":"0"}],
   [{"k":"0..3","m":"2..3","x":"0..2","mode":"0..5","buff":"2|3|16","max":"12","cuts":"0..1"},{"k":"3","m":"2","mode":"0..5","buff":"16","max":"0..6","cuts":"0..1"},{"k":"1..2","m":"2","mode":"0..5","ext":"0|1","trailer":"0|1","cuts":"0..1"},{"k":"2","m":"2","mode":"0..5","cutoff":"1","cuts":"0..1"}],[],"up to 2 (3) chunks of up to 2 (3) arbitrary bytes, with extensions and trailers, every way of reading, up to 1 cut, every point of disconnection"),
  H(P,"Callbacks",[{"n":"0..3","chunked":"1","cuts":"0..1"}],[{"n":"0..5","chunked":"1","cuts":"0..1","buff":"2|3|16"}],["failed","complete"],"callbacks that fail at any point with 4 kinds of errors"),
  H(P,"Damaged",[{"mode":"0..5","bad":"0..4","before":"0|1","cuts":"0"}],[{"mode":"0..5","bad":"0..4","before":"0|1","cuts":"0..1","buff":"2|3|16"}],["refused"],"5 kinds of broken chunks before valid ones, every way of reading")],stub,["the real chunk decoder","longer bodies"])
W("C07",[H(P,"Pipeline",[{"a":"0..7","b":"0..14","cuts":"0"},{"a":"15|16","b":"0..2|8","cuts":"0"},{"a":"1|2","b":"15|16","cuts":"0"},{"a":"0|1|2|3|5|7","b":"0|1|2|7","cuts":"1","acts":"1"},{"a":"1|2|7","b":"0|1|2","buff":"7|20","cuts":"0"},{"a":"0..6","b":"0..6","cuts":"0","tight":"1","acts":"1"}],
   [{"a":"0..7|15|16","b":"0..16","cuts":"0","n":"2","acts":"8"},{"a":"0..7","b":"0..7|12","cuts":"1","acts":"8"},{"a":"0..7","b":"0..7|12","buff":"7|16|20|33","cuts":"0..1"},{"a":"0..6","b":"0..6","cuts":"0..1","tight":"1","acts":"1"}],["served","refused"],"10 kinds of first and 16 kinds of second requests with arbitrary characters in them, all pairs of 8 kinds of first and 4 (8) of second responses, read buffers from 7 bytes, up to 1 cut, also with limits that are enough for one request only"),
  H(P,"Bodies",[{"k":"2","a":"0..3","b":"0..3","cuts":"0"},{"k":"2","a":"0|1","b":"0|1","cuts":"0","buff":"5"},{"k":"3","a":"0|1","b":"0..2","c":"0|1","cuts":"0"}],[{"k":"2","a":"0..3","b":"0..3","cuts":"0..1","buff":"5|64"},{"k":"3","a":"0..3","b":"0..3","c":"0..3","cuts":"0"}],["done"],"up to 3 requests with arbitrary bodies of 3 bytes in 4 framings; the earlier ones are read in 11 ways, wholly or partly, the last one in 5; the limit is enough for one of them"),
  H(P,"Inquiries",[{"u":"0..4"}],[{"u":"0..4"}],["done"],"25 kinds of requests with queries, cookies and repeated headers of arbitrary characters after any other one")],stub,["more than two requests (the state after the first request is compared through everything observable)"],quick_s=500)
W("C08",[H(P,"Response",[{"k":"0..2","ask":"0..3","n":"0..2","how":"0..2","code":"0"},{"k":"1","override":"0|1","ctype":"0|1","status":"0|1","ask":"0|1","defaults":"0|1"},{"cookies":"1","k":"0","code":"0"},{"cookies":"3","k":"0","code":"0","n":"0"},{"k":"2","multi":"1"},{"k":"1","key":"6","val":"0..4","code":"0"}],
   [{"k":"0..3","ask":"0..3","n":"0..4","how":"0..2","code":"0"},{"k":"1..2","override":"0|1","ctype":"0|1","status":"0|1","ask":"0..3","defaults":"0|1"},{"cookies":"1..3","k":"0","code":"0","ask":"0|1"},{"k":"2","multi":"1","key":"3"},{"k":"2","key":"6","val":"0..4","code":"0"}],["body","head","overridden"],"responses with up to 2 (3) headers of up to 6 arbitrary characters, up to 3 cookies with every combination of attributes on the first, 11 status codes, custom texts, arbitrary bodies of up to 2 (4) bytes, 4 kinds of requests")],
  stub+["header names and values, status texts and cookies set by the handler contain no CR or LF (the serializer does not filter them)"],["longer headers and bodies"])
W("C09",[H(P,"Persist",[{"n":"-1|0|5|10","upgrade":"0..4"},{"spell":"1|2","upgrade":"0..4"},{"n":"5","cuts":"1"},{"n":"-1","upgrade":"1|2","defaults":"1"}],[{"n":"5","upgrade":"0..4","defaults":"1"},{"n":"-1|0..12","upgrade":"0..4"},{"spell":"1|2","upgrade":"0..4","cuts":"0..1"},{"n":"5","cuts":"1","upgrade":"0..4"}],["kept","closed","upgraded"],"every Connection value of the lengths of its keywords (thorough: up to 12 characters), every letter case, 5 kinds of Upgrade, 8 kinds of responses, 3 methods"),
  H(P,"Broken",[{}],[{}],["first","failed","fine"],"every write of two responses of 8 kinds failing")],stub,["Connection headers that are lists"])
W("C10",[H(P,"Attach",[{"k":"0..3","m":"2","sized":"0|1"},{"k":"1","pad":"1..4","sized":"0|1","buff":"16|17|29|64"},{"k":"0","pad":"20","sized":"0|1","buff":"400"},{"k":"2","sized":"0|1","fail":"1..4"}],
   [{"k":"0..4","m":"3","sized":"0|1"},{"k":"1","pad":"1..6","sized":"0|1","buff":"16..32|64|100"},{"k":"0..1","pad":"20|40","sized":"0|1","buff":"400|800"},{"k":"3","sized":"0|1","fail":"1..6"}],["whole","failed","head"],"readers returning up to 3 (4) pieces of up to 2 (3) arbitrary bytes and long fixed ones, with any end; buffers of 16 to 400 bytes; every failing write")],
  stub+["a reader with a size produces that many bytes, unless it fails"],["HTTP/1.0 clients, which get chunked attachments all the same"])
W("C15",[H(P,"Version",[{"n":"0..9"},{"n":"8","near":"1"}],[{"n":"0..12"},{"n":"8","near":"1"}],["known"],"every string of up to 9 bytes (12), all pairs of version numbers, all protocol values"),
  H(P,"Upgrade",[{"k":"1..2","n":"0..3"},{"k":"2","n":"8","pads":"1"},{"k":"3","n":"2","pads":"1"}],[{"k":"1..2","n":"0..8"},{"k":"3","n":"3","pads":"3"}],["chosen","none"],"lists of up to 3 entries with arbitrary other tokens and blanks")],stub,[])
W("C39",[H(P,"Hijack",[{"kind":"0..2","n":"0..3","cuts":"0..1","buff":"5|64"}],[{"kind":"0..2","n":"0..5","cuts":"0..2","buff":"3|5|16|64"}],["hijacked"],"3 framings, up to 3 (5) following bytes, up to 1 (2) cuts, read buffers from 5 (3) bytes")],stub,[])

D="internal/zzh/data"; R="router/inbuilt/zzh"; V="router/virtual/zzh"; A="internal/zzh/app"
W("C16",[H(D,"Storage",[{"k":"0..2","n":"2","new":"0..2"},{"k":"3","n":"1"},{"k":"2..3","n":"1","clear":"1","new":"0..1"},{"k":"1","n":"6"},{"k":"1","n":"1","pad":"5|9|20"},{"k":"1..2","n":"1","long":"70|300"}],
   [{"k":"0..3","n":"2","new":"0..2"},{"k":"2..3","n":"2","clear":"1..2","new":"0..2"},{"k":"1","n":"12"},{"k":"2","n":"2","pad":"5|9|20|50"},{"k":"1..3","n":"1","long":"20|70|300|5000"},{"k":"4","n":"1"}],["hit","miss","done"],"up to 3 (4) additions behind up to 20 (50) fixed ones, keys of up to 6 (12) characters, clearing anywhere"),
  H(D,"FromMap",[{"k":"0..3"}],[{"k":"0..5"}],["done"],"maps of two keys with up to 3 (5) values")],stub+["keys are made of letters, digits, hyphens and underscores (others may be folded together)"],["longer histories"])
hit=["404","405","handled"]
W("C21",[H(R,"Routes",[{"set":"0..4","t":"0","n":"0..3"},{"set":"0..4","t":"1..3","n":"0..3"},{"set":"0..4","t":"1","n":"4"},{"set":"1|2","t":"2","n":"2","twice":"1"},{"set":"0..3","t":"1|2","n":"1..2","group":"1"}],
   [{"set":"0..4","t":"0","n":"0..6"},{"set":"0..4","t":"1..5","n":"0..5"},{"set":"0..4","t":"2","n":"3","twice":"1"},{"set":"0..3","t":"1..3","n":"1..4","group":"1"}],hit+["trace"],"5 sets of up to 6 routes in all rotations, any of them in groups; every method; paths of up to 4 (6) arbitrary bytes and of up to 3 (5) at each of 3 (5) places"),
  H(R,"Many",[{"kind":"0","k":"1|10|29..33|70","n":"1..2"}],[{"kind":"0","k":"1..70","n":"1..3"}],hit,"1 to 70 siblings, paths with up to 2 (3) arbitrary bytes")],stub,["longer paths"])
W("C22",[H(R,"Routes",[{"set":"5..10","t":"0|1","n":"0..3"},{"set":"5..10","t":"2..4","n":"0..3"},{"set":"5..10","t":"5","n":"0..1"},{"set":"6|8|10","t":"2","n":"2","twice":"1"},{"set":"5..10","t":"1|2","n":"1..2","group":"1"}],
   [{"set":"5..10","t":"0|1","n":"0..5"},{"set":"5..10","t":"2..4","n":"0..5"},{"set":"5..10","t":"5","n":"0..2"},{"set":"5..10","t":"2","n":"3","twice":"1"},{"set":"5..10","t":"1..4","n":"1..3","group":"1"}],hit+["params"],"6 sets of up to 4 routes in all rotations, any of them in groups; every method; up to 3 (5) arbitrary bytes at each of 6 places"),
  H(R,"Templates",[{"k":"1","s":"1..3","n":"1"},{"k":"1","s":"2","n":"2"},{"k":"2","s":"2","n":"1","segs":"1..2"},{"k":"2","s":"1","n":"1","segs":"1"}],[{"k":"1","s":"1..4","n":"1"},{"k":"1","s":"2","n":"2..3"},{"k":"2","s":"2","n":"1..2","segs":"1..3"}],hit+["params"],"up to 2 templates of up to 3 (4) segments of up to 2 (3) arbitrary bytes, each dynamic or not"),
  H(R,"Many",[{"kind":"1..3","k":"10|29..33|70","n":"1..2"}],[{"kind":"1..3","k":"1..70","n":"1..3"}],hit+["params"],"10 to 70 siblings (1 to 70) on the first and second level, paths with up to 2 (3) arbitrary bytes"),
  H(R,"Refused",[{"kind":"0","n":"0..5","slash":"1"},{"kind":"0","n":"1..3","slash":"0"},{"kind":"1","n":"0..3","group":"0|1"},{"kind":"2","n":"0..3"}],[{"kind":"0","n":"0..7","slash":"0|1"},{"kind":"1","n":"0..5","group":"0|1"},{"kind":"2","n":"0..4"}],["good","bad"],"templates of up to 5 (7) arbitrary bytes; pairs of paths of up to 3 (5)")],
 stub,["longer templates","more than two arbitrary templates"],quick_s=400)
fs=stub+["the file system is replaced by one that records what it is asked for, in the check and in the replay (package os is redirected in copies of the sources): no real file is touched"]
W("C23",[H(R,"Files",[{"root":"0..4","group":"0","prefix":"1","n":"0..4"},{"root":"0|3|4","group":"0..2","prefix":"0..3","n":"3"},{"root":"0|4","group":"0|1","prefix":"0..2","n":"3","free":"1"}],
   [{"root":"0..4","group":"0..2","prefix":"0..3","n":"0..6"},{"root":"0..4","group":"0..2","prefix":"0..2","n":"0..5","free":"1"}],["outside","served","missing"],"5 directories, 3 groups, 4 prefixes, up to 4 (6) arbitrary bytes behind the prefix or in place of the whole path; existing and missing files, directories, failing descriptors"),
  H(R,"FilesShared",[{"n":"1..2","k":"1..2"}],[{"n":"1..4","k":"1..4"}],["done"],"two requests, one within the other, names of up to 2 (4) bytes")],fs,["symbolic links","paths where two dots are a part of a name may be refused"])
W("C24",[H(V,"Hosts",[{"k":"0..1","n":"1..2","headers":"0..2"},{"k":"2","n":"1","headers":"1"}],[{"k":"0..1","n":"1..4","headers":"0..2"},{"k":"2","n":"1..2","headers":"0..2"}],["virtual","default","refused"],"up to 2 registered hosts and requests with up to 2 Host headers; names of up to 2 (4) characters with and without www., port 80, 443 or another; with and without a default")],stub,["a leading WWW. in upper case, whose meaning is left open"],quick_s=400)
W("C28",[H(D,"Query",[{"t":"0","n":"0..6"},{"t":"1..5","n":"0..3"},{"t":"6","n":"0..2"},{"t":"0|1|4","n":"2","prev":"1..4","touch":"0|1"}],[{"t":"0","n":"0..7"},{"t":"1..5","n":"0..5"},{"t":"6","n":"0..3"},{"t":"0..6","n":"2","prev":"1..4","touch":"0|1"}],["bad","good"],"every byte string of up to 6 (7) bytes, and up to 3 (5) arbitrary bytes at each of 6 places, after each of 4 previous queries")],stub,["longer queries"],quick_s=400)
W("C29",[H(D,"Cookies",[{"k":"0..2","n":"1..2","garbage":"0|1"}],[{"k":"0..3","n":"1..2","garbage":"0|1"},{"k":"1","n":"5"}],["bad","good"],"up to 2 (3) cookies with names and values of up to 2 bytes, every separator, trailing garbage"),
  H(D,"CookieBytes",[{"n":"0..8"}],[{"n":"0..12"}],["bad","good"],"every byte string of up to 8 (12) bytes"),H(D,"CookieBuild",[{}],[{}],["done"],"attributes of up to 2 bytes and every age"),
  H(D,"RequestCookies",[{"k":"0..3","n":"1"}],[{"k":"0..3","n":"1..2"}],["bad","good"],"up to 3 headers")],stub,["longer headers"])
W("C30",[H(D,"Params",[{"k":"0..2","n":"2"},{"k":"1","n":"4"},{"k":"1","n":"2","ows":"4"},{"k":"2","n":"1","ows":"4"}],[{"k":"0..3","n":"2"},{"k":"1..2","n":"2","ows":"4"},{"k":"2","n":"3"},{"k":"1","n":"8"}],["found","missing"],"up to 2 (3) parameters with names and values of up to 4 (8) printable characters"),
  H(D,"Quality",[{"n":"0..3"}],[{"n":"0..6"}],["digits"],"every quality of up to 3 (6) characters"),H(D,"HeaderBytes",[{"n":"0..6","k":"1..2"}],[{"n":"0..9","k":"0..3"}],["done"],"every byte string of up to 6 (9) bytes, keys of up to 2 (3)")],stub,["quoted values","names in another letter case"])
W("C31",[H(D,"Escape",[{"n":"0..6"}],[{"n":"0..12"}],["printable","escaped"],"every byte string of up to 6 (12) bytes")],stub,["longer strings"])
W("C33",[H(D,"Fill",[{"from":"0|4|8|12|16","size":"4","rest":"0|1"}],[{"from":"0..15","size":"5","rest":"0|1"}],["done"],"every value of 4 (5) settings at a time, all others set or left out")],[],["more than 5 arbitrary settings at a time"])
W("C34",[H(R,"Chain",[{"n":"1..2"}],[{"n":"1..3"}],["done"],"up to 2 (3) middlewares at each of 4 levels, 13 kinds of requests"),H(R,"Stopped",[{"k":"0..3"}],[{"k":"0..3"}],["answered","crash","recovered"],"up to 3 middlewares, every place of Recover, of the answer and of the panic"),
  H(R,"Shortcuts",[{"dynamic":"0|1"}],[{"dynamic":"0|1"}],["own","done"],"all methods"),H(R,"Context",[{}],[{}],["done"],"a route behind it and one that is not")],stub,["deeper groups"],quick_s=400)
so=["internal/tcp",""]
W("C35",[H(A,"Run",[{"addrs":"1","mode":"0..4","conns":"1"},{"addrs":"2","mode":"2..4","conns":"1"},{"addrs":"1","mode":"0|1|4","rounds":"2","conns":"0"}],
   [{"addrs":"1","mode":"0..4","conns":"1..2"},{"addrs":"2","mode":"0..4","conns":"1"},{"addrs":"1..2","mode":"0|1|4","conns":"0"},{"addrs":"1","mode":"0|1|4","rounds":"2","conns":"0"},{"addrs":"2","mode":"4","rounds":"2","conns":"0"}],["stopped","served"],"1 listener (thorough: 2) with 1 connection (2), run once or twice, or 2 listeners with one each, stopped in 4 ways or by a failing listener at any moment; all schedules with at most 1 preemption",preempt=1,sched=so,no_merge=True),
  H(A,"Run",[{"addrs":"2","mode":"0|1","conns":"1"},{"addrs":"2","mode":"0|1","rounds":"2","conns":"0"},{"addrs":"1","mode":"0|4","rounds":"2","conns":"1"}],
   [{"addrs":"2","mode":"0..4","conns":"1..2"},{"addrs":"3","mode":"0|1|4","conns":"0..1"},{"addrs":"2","mode":"0|1|4","rounds":"2","conns":"0"},{"addrs":"1","mode":"0..4","rounds":"2","conns":"1"}],["stopped"],"2 listeners (3) with one connection (2) each, run once or twice; all orders in which goroutines can be resumed, no preemptions",preempt=0,sched=so,no_merge=True),
  H(A,"Bind",[{"addrs":"1..3"}],[{"addrs":"1..3"}],["failed"],"up to 3 addresses, any of which fails",preempt=1,sched=so,no_merge=True)],
 stub+["sockets are replaced by listeners of the harness (package net is redirected in a copy of the root package)","goroutines interleave at synchronisation operations and calls of the stand-ins"],["TLS and automatic certificates","more preemptions","calling Stop twice"],quick_s=500)
W("C36",[H(R,"Only",[{"n":"0..3","h":"1..2"}],[{"n":"0..5","h":"1..4"}],["passed","bad","redirected"],"paths of up to 3 (5) arbitrary bytes, hosts of up to 2 (4), with and without ports, IPv6"),H(R,"Redirected",[{"n":"0..3"}],[{"n":"0..5"}],["redirected","alias"],"5 fixed paths and those of up to 3 (5) arbitrary bytes")],stub,["the query of a redirected request, which HTTPSOnly drops"])
W("C38",[H(D,"Replace",[{"prefix":"0..4","root":"0..5","n":"3","k":"2"}],[{"prefix":"0..4","root":"0..5","n":"8","k":"1..3"}],["done"],"5 prefixes, 6 roots, 2 (3) paths with rests of up to 3 (8) arbitrary bytes in succession")],stub,["paths that are not below the prefix"])
W("C40",[H(R,"Errors",[{}],[{}],["custom","default","plain","caught","trace"],"8 errors, 3 methods, every combination of handlers, with and without a catcher"),
  H(R,"OwnErrors",[{"dynamic":"0|1"}],[{"dynamic":"0|1"}],["custom","default"],"two requests with any method and any combination of handlers"),
  H(R,"Catchers",[{"mask":"0..63","n":"2"},{"mask":"63|7|21|42","n":"0..4"},{"mask":"63|14","n":"3","dynamic":"1"},{"mask":"63|21|42","n":"0..3","how":"1|2"}],[{"mask":"0..63","n":"0..4"},{"mask":"0..63","n":"0..3","how":"1|2"},{"mask":"63|7|21|42","n":"5"},{"mask":"0..63","n":"3","dynamic":"1"}],["caught","none","route"],"all subsets of 6 catchers in two orders, paths of up to 4 (5) arbitrary bytes")],stub,[],quick_s=400)
W("C41",[H(R,"Trace",[{"n":"0..2","k":"1..2","dynamic":"0|1"}],[{"n":"0..4","k":"1..3","dynamic":"0|1"}],["again","done"],"up to 2 (3) requests with up to 2 headers and queries of up to 2 (4) arbitrary bytes")],stub,["request bodies"])

js=stub+["the JSON library is replaced by one that decides by the harness what a text means (its import is redirected in copies of the sources): it works by reflection on memory, which cannot be encoded"]
W("C42",[H(D,"JSONIn",[{"n":"0..3","ct":"0..3|16"}],[{"n":"0..6","ct":"0..17"}],["decoded","foreign","malformed","broken"],"bodies of up to 3 (6) arbitrary bytes, content types of up to 16 (17)"),
 H(D,"JSONOut",[{"n":"0..3"}],[{"n":"0..6"}],["encoded","failed"],"texts of up to 3 (6) arbitrary bytes in two pieces, after every kind of previous body")],js,["the JSON library itself","content types with parameters or in another letter case"])
W("C43",[H(D,"Build",[{"k":"0..2"}],[{"k":"0..3"}],["built"],"up to 2 (3) steps of 16 kinds with arbitrary arguments"),H(D,"Err",[{"n":"0..2"}],[{"n":"0..4"}],["nil","http","plain"],"every code, messages of up to 2 (4) bytes"),
 H(D,"FileOf",[{"n":"0..3"}],[{"n":"0..5"}],["missing","served"],"names of up to 3 (5) bytes, 5 kinds of extensions, 4 kinds of files")],fs,["writing into a body that is a slice of the handler, which may use the slice's capacity"])
W("C44",[H(R,"Logs",[{"n":"0..3","k":"1..2"}],[{"n":"0..6","k":"1..3"}],["done","logged"],"paths of up to 3 (6) arbitrary bytes, all methods, 4 codes, up to 2 (3) loggers")],stub+["a logger's Printf is replaced by one of the harness that knows texts and numbers"],["the default logger of the standard library","longer paths"])
W("C45",[H(P,"Settings",[{"kind":"0..7","size":"1|3|16|64","timeout":"5"},{"kind":"0|4","size":"7","timeout":"1|90","resp":"1|100"}],[{"kind":"0..7","size":"1..8|16|64|300","timeout":"1|5|90","resp":"1|16|100"}],["good","bad","broken"],"two requests, 8 limits with up to 11 units of what is limited, read buffers of 1 to 64 (300) bytes, 3 timeouts, every kind of encryption and ending")],stub,["the sizes of preallocated memory, which have no observable effect"])
W("C47",[H(R,"Mutators",[{"n":"1","k":"1","dynamic":"0|1","len":"1|2"}],[{"n":"1","k":"2","len":"2"},{"n":"2","k":"1","dynamic":"0|1","len":"0..3"}],["refused","rewritten","routed"],"up to 1 (2) mutators at the root, at two groups and at a nested one, registered before or after the groups; one of them rewrites the request in 4 ways; up to 1 (2) requests with paths of 1 or 2 (up to 3) arbitrary bytes, routed or refused")],stub,[])
W("C46",[H(A,"SelfSigned",[{"state":"0..9"},{"state":"0..9","faults":"1|2","envs":"1","addrs":"1"}],[{"state":"0..9","faults":"0|1|2"}],["encrypted","kept","hopeless","crashed","disabled"],"10 states of the cache, 4 environments, 4 kinds of local addresses; every operation on a file, key or certificate fails, or is the last one before a crash",sched=so,one_schedule=True,no_merge=True),
  H(A,"AutoCert",[{"k":"0..2","n":"1..2"}],[{"k":"0..3","n":"1..4"}],["any","listed","cached","uncached"],"up to 2 (3) domains and any host of up to 2 (4) bytes; 4 environments; failing directories",sched=so,one_schedule=True,no_merge=True),
  H(A,"Given",[{}],[{}],["given","broken"],"complete, missing and mismatched pairs, 3 kinds of addresses",sched=so,one_schedule=True,no_merge=True)],
 stub+["files, the environment, keys, certificates and the TLS and automatic certificate libraries are replaced by stand-ins in memory (their imports are redirected in copies of the root package's files): no real file is touched","written bytes are durable at once; a crash or failure in a write leaves the first half of it","one schedule of the servers is explored (C35 explores the others)"],["the cryptography","two processes at once","systems other than Linux"])
W("C50",[H(R,"Rebuild",[{"k":"1..2","groups":"0..2","dynamic":"0|1"},{"k":"3","groups":"2","after":"0|1"}],[{"k":"1..3","groups":"0..2","dynamic":"0|1","after":"0|1","n":"3"},{"k":"4","groups":"2","after":"0..2"}],["first","again"],"routers with up to 2 nested groups built up to 3 (4) times, with 5 kinds of registrations between two of the builds; 9 kinds of requests, up to 2 (3) arbitrary bytes behind a catcher"),
  H(V,"Shared",[{}],[{}],["served","refused"],"one router for up to 4 hosts, any host of one byte; the virtual router built once or twice")],stub,[])
