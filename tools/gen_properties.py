#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one place to edit statements).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
HC="pillowcore/HttpConnection.cpp"; HS="pillowcore/HttpServer.cpp"; HSS="pillowcore/HttpsServer.cpp"; HH="pillowcore/HttpHandler.cpp"
PP="pillowcore/parser/parser.c"; CL="pillowcore/HttpClient.cpp"; PX="pillowcore/HttpHandlerProxy.cpp"; RT="pillowcore/HttpHandlerSimpleRouter.cpp"
QS="pillowcore/HttpHandlerQtScript.cpp"; HP="pillowcore/parser/http_parser.c"

p("S01","Requests are framed exactly, however their bytes arrive",
  "Whatever way the network splits, delays or coalesces the bytes a client sends, the server announces exactly the sequence of requests those bytes encode: each well-formed request once, in order, including pipelined ones. Each announced request carries exactly the method, URI, path, query, fragment, version, headers and content that were sent, with content length counted in bytes and arbitrary (binary) content preserved.",
  ["schedules","inputs"],"every byte stream of well-formed requests (pipelined or not, with or without bodies up to the limits, headers up to 32 KiB) and every segmentation and timing of its delivery",
  "Unit tests feed whole requests or one fixed split; the parser resumes mid-token and the request buffer is reallocated and compacted at points that depend on where the splits fall.",
  [HC,PP,"pillowcore/parser/thin.c","pillowcore/private/ByteArray.h"],
  [("processInput / transitionToReceivingContent / transitionToSendingHeaders","pillowcore/HttpConnection.cpp"),("thin_http_parser_execute (resumable)","pillowcore/parser/parser.c"),("leftover bytes kept for the next request in transitionToCompleted","pillowcore/HttpConnection.cpp")],
  [("_requestBuffer, _requestHeadersRef, _parser","bytes received so far and offsets into them",HC)],["requestReady signal and request accessors"])

p("S02","Responses reach the client complete, exact and in request order",
  "On one connection the client receives, in request order, one response per request answered, and each response's status, headers and body are exactly what the application wrote for that request, whether it was answered at once or later, in one call or in pieces. This holds however slowly the client reads and however little the socket accepts at a time; no bytes of one response are lost, duplicated, altered or mixed into another.",
  ["schedules","inputs","fault_sequences"],"every sequence of (pipelined) requests, every mix of immediate, deferred and streamed answers, every client read rate and every pattern of short and refused writes",
  "Tests use buffers or a loopback socket that accepts everything at once, so the output is never partially written while the next request is processed.",
  [HC,"pillowcore/private/ByteArray.h"],
  [("writeResponse/writeHeaders/writeContent/endContent","pillowcore/HttpConnection.cpp"),("transitionToCompleted flushes and starts the next request",HC)],
  [("_responseHeadersBuffer","reused header buffer",HC)],["bytes received by the client"])

p("S03","A response never breaks its own framing, even when misused",
  "The number of body bytes on the wire never exceeds the declared content length, a response to HEAD carries no body, chunked bodies are correctly delimited and terminated and are only sent to HTTP/1.1 clients, and a response of unknown length without chunking ends by closing the connection. Response calls that do not fit the current state of the connection, with too much content or with contradictory headers put nothing stray on the wire and do not disturb this or any later response on the connection.",
  ["programs","inputs","schedules"],"every sequence of response-writing calls an application can make, in or out of order, synchronous or deferred, for every request method/version and every pipelining of requests behind it",
  "Tests check a few misuse calls one at a time; the damage appears in the response that follows, when another request is already buffered.",
  [HC],[("state checks and byte accounting in writeResponse/writeHeaders/writeContent/endContent",HC),("chunk framing",HC)],
  [("_responseContentLength, _responseContentBytesSent, _responseChunkedTransferEncoding","accounting for the current response",HC)],["bytes received by the client"])

p("S04","Connection persistence is negotiated and honoured without losing data",
  "After each response the connection stays usable for a further request exactly when the client's version and Connection header, the application's Connection header and the length of the response allow it, and the response says so in a way the client can rely on. When the connection is to end, the client receives every byte of the response first, and then the connection really closes within bounded time.",
  ["inputs","schedules","fault_sequences"],"every combination of HTTP version, request and response Connection headers and response length kind, every client read speed and socket acceptance pattern",
  "Tests check the headers for a handful of combinations and never with output still pending when the close is decided.",
  [HC],[("keep-alive negotiation in writeHeaders",HC),("transitionToFlushing/drain",HC)],[("_responseConnectionKeepAlive","decision for the current response",HC)],["bytes and end-of-stream received by the client"])

p("S05","Bad requests are refused and never reach the application",
  "A request that is not valid HTTP, whose header section exceeds 32 KiB or whose Content-Length is negative is answered 400, and one whose Content-Length is not a number or exceeds 128 MiB is answered 413; the connection is then closed. Such a request is never announced to the application, nothing sent after it is interpreted, and requests that preceded it are answered normally.",
  ["inputs","schedules"],"every malformed, oversized or truncated byte stream, alone or pipelined behind valid requests, under every segmentation, with or without the client disconnecting meanwhile",
  "Tests try a few bad requests in one piece on a fresh connection.",
  [HC,PP],[("writeRequestErrorResponse and limits in processInput/transitionToReceivingContent",HC)],[],["bytes received by the client; requestReady signal"])

p("S06","100-continue is sent once, in time, and never out of place",
  "When a request with content announces Expect: 100-continue, the client receives exactly one interim 100 Continue after its headers and before the final response to that request, without needing to send its content first. No interim response is sent for requests that did not ask for one, that carry no content, or that are refused.",
  ["inputs","schedules"],"every request sequence mixing expecting and non-expecting requests, every segmentation and interleaving with earlier pipelined responses",
  "Tests check one request on one buffer.",
  [HC],[("Expect handling in transitionToReceivingContent",HC)],[],["bytes received by the client"])

p("S07","Every accepted request and connection reaches exactly one orderly end",
  "However and whenever a client disconnects, resets, stalls or the application closes, each connection is reported closed exactly once, each announced request is reported completed at most once and only when its whole response has been written, and nothing is reported for a connection after it closed. No such sequence crashes the process, uses freed memory, or leaves the connection answering a later request on a dead socket.",
  ["schedules","crash_points","fault_sequences","programs"],"every point at which the peer can close or reset, every write that can fail, and every application reaction (including closing the connection or others from inside a notification)",
  "Tests disconnect at one or two quiet points; the dangerous instants are inside a notification or during a write that discovers the reset.",
  [HC,HS],[("transitionToClosed / transitionToCompleted",HC),("HttpServer::connection_closed",HS)],[("_state, _inputDevice, _outputDevice","life cycle of a connection",HC)],["requestReady, requestCompleted, closed signals"])

p("S08","Recycled connections carry nothing over from earlier clients or requests",
  "A request's observable data (method, URI parts, decoded forms, headers, parameters, content, address) and its response depend only on that request, never on what an earlier request on the same connection, or an earlier client whose connection object was recycled, sent, left unfinished or set. The number of idle connection objects kept stays bounded and every socket of a finished client is released.",
  ["histories","schedules","fault_sequences"],"every history of connects, partial requests, completed requests, parameter edits and disconnects over one server's lifetime",
  "Tests reuse a connection once or twice after a clean exchange; leftovers come from interrupted ones.",
  [HC,HS],[("HttpConnectionPrivate::initialize and transitionToCompleted resets",HC),("connection reserve in HttpServerPrivate",HS)],[("reservedConnections","recycled connection objects",HS)],["request accessors; socket table"])

p("S09","Clients cannot disturb each other and the server stays available",
  "With any number of clients connected at once, each client's requests are answered as if it were alone: slow, stalled, malformed, resetting or disconnecting clients and failures while accepting connections never alter, misdirect, drop or indefinitely delay another client's responses. Once faults stop, a new client is accepted and answered within bounded time.",
  ["schedules","fault_sequences"],"every interleaving of many clients' traffic with every mix of misbehaving peers and socket or accept failures",
  "Tests run one client, or many identical well-behaved ones.",
  [HS,HSS,HC],[("HttpServer::incomingConnection / HttpLocalServer::this_newConnection",HS),("connection pool",HS)],[],["bytes received by each client"])

p("S10","Every transport behaves the same",
  "The same client byte stream produces the same requests and the same responses whether it arrives over TCP, TLS, a local socket or a plain bidirectional device, under any segmentation and backpressure of that transport. TLS clients whose handshake fails, stalls or is cut are dropped without any request being announced and without affecting the server.",
  ["configurations","schedules","fault_sequences"],"every transport, request sequence, segmentation, and every point at which a TLS handshake can be cut or garbled",
  "Tests run the same cases on each transport but with whole-message delivery only and never with a broken handshake.",
  [HS,HSS,HC],[("HttpConnection::initialize device wiring",HC),("HttpsServer::incomingConnection",HSS)],[],["bytes received by the client"])

p("H01","Static files are delivered exactly, whatever the client or file does",
  "Every readable file inside the public directory is served, however that directory was named when it was configured: a client that keeps reading receives the file's exact bytes with the declared length, at any read speed and any buffer size, within bounded pending memory per client, and a slow client never stops the transfer for good. If the file cannot be read to its end (it shrinks, or reads fail) the client is never shown a complete-looking response with wrong content nor left waiting forever; if it grows, the originally declared content is still delivered whole.",
  ["schedules","fault_sequences","inputs"],"every file size around the buffer size, every client read pattern, every disconnect point, every read error or size change of the file during the transfer, HEAD and GET mixed on one connection",
  "Tests download unchanging files over a fast local connection.",
  [HH,"pillowcore/HttpHandler.h"],[("HttpHandlerFile::handleRequest",HH),("HttpHandlerFileTransfer::writeNextPayload",HH)],[("_bufferSize","limit on pending output",HH)],["bytes received by the client; pending output"])

p("H02","Only files inside the public directory are ever served",
  "Whatever path a client requests - encoded, with parent references, through symbolic links, or after the directory tree has changed - content is only ever served from regular files that lie inside the configured public directory. Requests for anything else are declined so that the next handler can answer them.",
  ["inputs","histories"],"every request path and every directory layout (siblings sharing the directory's name as a prefix, links in and out, directories, unreadable files), including layouts that change between requests",
  "Tests try a few escaping paths on one fixed tree.",
  [HH],[("canonical path check in HttpHandlerFile::handleRequest",HH)],[],["bytes received by the client"])

p("H03","Conditional requests never hide a changed file",
  "For a file small enough to be served whole, the server answers 304 to If-None-Match exactly when the offered tag is the one it issued for the file's current content; otherwise it sends the current content in full with its tag. Equal content always gets an equal tag and different content a different one, across any history of modifications and requests by any client.",
  ["histories","schedules"],"every history of file rewrites interleaved with conditional and plain requests from several clients on reused connections",
  "Tests make one request, then repeat it with the tag.",
  [HH],[("ETag computation in HttpHandlerFile::handleRequest",HH)],[],["bytes received by the client"])

p("H04","The access log tells the truth, once per completed request",
  "The log contains exactly one completed-request entry for each request whose response was completed, and none for others, in completion order, naming that request's own client address, date, method, URI, version, status, content length and the time it took from arrival to completion. In trace mode there is also one begin entry per request and one close entry per logged connection, and entries never show data of another request or freed memory.",
  ["schedules","histories","crash_points"],"every interleaving of requests, slow answers, keep-alive reuse, recycled connections and disconnects, with any passage of time between events",
  "Tests log a couple of immediately answered requests; elapsed time, recycling and disconnects are not controlled.",
  [HH],[("HttpHandlerLog::handleRequest/requestCompleted/requestClosed",HH)],[("_requestMap","what is known of the logged request of each connection",HH)],["log device content"])

p("H05","Dispatch depends only on the request and the configured routes",
  "Each request is handled by exactly the first handler in the stack that accepts it, and by the first route whose method and path match it with its path parameters bound to this request's own values; when none matches the router declines or answers 404, and 405 naming the allowed methods when only the method differs. Earlier requests, other clients and handlers or targets destroyed meanwhile never change the outcome or crash the server.",
  ["histories","inputs","programs"],"every route table and every history of requests on reused and concurrent connections, with route targets removed at any point",
  "Tests route single requests on fresh connections.",
  [RT,HH],[("HttpHandlerSimpleRouter::handleRequest",RT),("HttpHandlerStack::handleRequest",HH)],[],["which handler ran, its parameters, and the response"])

p("H06","Scripted handlers always give an answer and follow their file",
  "A request handled by a script is answered by what the script wrote for that very request; if the script fails before answering - by error or by throwing anything - the client gets a 500 and the next request is handled normally. A script loaded from a file is reloaded when the file becomes newer if automatic reload is on and never otherwise, and while the file to be loaded is missing, unreadable or broken, requests get a 500, until it is repaired.",
  ["histories","inputs","fault_sequences"],"every sequence of requests, script rewrites (good, broken, missing), clock/mtime steps and client disconnects",
  "Tests load a script, rewrite it once, and throw one kind of error.",
  [QS],[("HttpHandlerQtScript::handleRequest",QS),("HttpHandlerQtScriptFile::handleRequest",QS)],[("_lastModified","time of the loaded version",QS)],["bytes received by the client"])

p("H07","The proxy relays requests and responses unchanged",
  "The upstream server receives each client request with the same method, path, query, end-to-end headers and content, and nothing belonging to any other client; the client receives the upstream's status, end-to-end headers and exact body, whatever the upstream's framing (length, chunked, until close) and however either side's data is split, delayed or throttled. What the upstream has sent so far is passed on while the rest is still to come, and many requests can be in flight at once without being mixed up.",
  ["schedules","inputs","histories"],"every request/response pair, framing, segmentation, speed of client and upstream, and number of concurrent clients",
  "Tests proxy small responses on an idle loopback.",
  [PX],[("HttpHandlerProxy::handleRequest/createProxiedReply",PX),("HttpHandlerProxyPipe",PX),("ElasticNetworkAccessManager::createRequest",PX)],[],["bytes received by upstream and by client"])

p("H08","A failing upstream is reported, never papered over",
  "If the upstream cannot be reached, or fails before its response headers arrived, the client gets a 503; an error status sent by the upstream itself is relayed like any other response. If the upstream fails midway the client's connection is ended so that the truncation is detectable: the client is never left waiting forever and never shown a complete-looking response that is not complete.",
  ["fault_sequences","crash_points","schedules"],"every point at which the upstream can refuse, close, reset or send garbage, for every framing, with slow or fast clients",
  "Tests kill the upstream at a couple of points and look only at the immediate effect.",
  [PX],[("HttpHandlerProxyPipe::proxiedReply_finished",PX)],[("_headersSent, _broken","progress of the relay",PX)],["bytes and end-of-stream received by the client"])

p("H09","Proxying survives clients that go away",
  "When a client disconnects or its response completes at any moment of a proxied exchange, the relay for it is dismantled without crashing, its upstream request is abandoned, and no data of it ever appears in another client's response, even when its connection object is reused at once. Other proxied exchanges and later requests proceed normally.",
  ["schedules","crash_points"],"every disconnect point relative to every upstream event, with concurrent and later clients",
  "Tests close the client once at a fixed point.",
  [PX,HC],[("HttpHandlerProxyPipe::teardown",PX)],[],["process survival; bytes received by the other clients; upstream connections"])

p("C01","The client reports exactly the response that was sent",
  "For every valid response - with a content length, chunked, without body, in answer to HEAD, or preceded by 100 Continue - the client reports the status, headers and exact content the server sent, however the bytes are split, delayed or coalesced. Progress notifications come in order: headers before any content, content only ever growing, then the end.",
  ["schedules","inputs"],"every valid response and every segmentation and timing of its delivery",
  "Tests deliver responses whole or at a few hand-picked split points.",
  [CL,HP],[("HttpResponseParser / HttpClient::device_readyRead",CL),("http_parser_execute","pillowcore/parser/http_parser.c")],[("_buffer, _headers, _content","partially received response",CL)],["headersCompleted, contentReadyRead, finished signals and accessors"])

p("C02","Every client request ends exactly once, with the right verdict",
  "Each request ends with exactly one completion notification, and none comes for a request that was not made: success if and only if the complete response was received, otherwise an error telling apart network failure, invalid response, connection closed early, and abort by the caller. When the connection is refused, reset or closed at any instant this notification comes within bounded time, and truncated content is never reported as success.",
  ["fault_sequences","crash_points","schedules"],"every point at which the server or network can refuse, close, reset, truncate or corrupt, and every point at which the caller aborts, including from inside notifications",
  "Tests break the exchange at a few fixed places.",
  [CL],[("device_error, abort, messageComplete, hasError handling",CL)],[("_responsePending, _error","state of the current request",CL)],["finished signal, error()"])

p("C03","A client is fully usable after any outcome and leaks nothing forward",
  "After any ending - success, error, abort, redirect, leftover data - the same client can make another request, including from inside the completion notification, to the same or another server, and that request's outcome is what a fresh client would have reported. No header, content, decoding state, timer or queued request of an earlier exchange affects a later one.",
  ["histories","fault_sequences","schedules"],"every history of requests and failures on one client, to one or several servers",
  "Tests reuse the client once after a clean failure.",
  [CL],[("HttpClient::request resets, clear()",CL),("_pendingRequest",CL)],[("_contentDecoder, _field, _value, _pendingRequest","state that could outlive an exchange",CL)],["outcome of later requests"])

p("C04","Connections are reused only when that is allowed",
  "A client sends a request on an already open connection exactly when it is open, leads to the same host and port, the last response permitted reuse, and the configured keep-alive time has not run out on the clock; otherwise it opens a fresh connection to the right server. Unsolicited data on an idle connection is discarded and never becomes part of a later response.",
  ["histories","schedules","configurations"],"every sequence of requests, idle times, keep-alive settings, server Connection policies and unsolicited server bytes",
  "Tests sleep for real time once; clocks, close races and unsolicited data timing are not controlled.",
  [CL],[("reuse decision in HttpClient::request",CL),("keep-alive timer",CL)],[("_keepAliveTimeoutTimer","time of the last response",CL)],["connections and bytes seen by the servers"])

p("C05","Each request is put on the wire exactly once and well formed",
  "For each request made, the addressed server receives exactly one well-formed HTTP/1.1 request with the given method, the URL's path and query, one correct Host header, the caller's headers in order, a correct Content-Length when there is content, and the exact content, however little the socket accepts at a time. A request made while another is outstanding sends nothing and does not disturb the outstanding one.",
  ["inputs","schedules","fault_sequences"],"every method, URL, header list and content size, on new and reused connections, with every pattern of short writes",
  "Tests look at small requests written to an idle loopback socket.",
  [CL],[("HttpRequestWriter::write",CL),("HttpClient::sendRequest",CL)],[("_builder, _hostHeaderValue","reused buffers",CL)],["bytes received by the server"])

p("C06","Bounded client buffers never lose or stall content",
  "With a limited read buffer, whatever the pace at which the caller consumes content, the pieces consumed concatenate to exactly the content sent, the amount held stays bounded by the configured size plus the documented slack, and the request completes once the caller keeps consuming - also when the server closes right after sending.",
  ["schedules","configurations","fault_sequences"],"every buffer size, consumption pattern, response size and framing, and server close timing",
  "Tests use one size and a server that keeps the connection open.",
  [CL],[("consumeContent and readBufferSize handling in device_readyRead",CL)],[("_content, _buffer","content not yet consumed",CL)],["consumed content, finished signal"])

p("C07","Compressed content is delivered decoded and exact",
  "A response marked gzip is delivered as its exact decompressed content for every segmentation of the compressed bytes and any expansion ratio, in pieces or whole. Content that is not valid gzip neither crashes nor blocks the client, and never affects how later responses are decoded.",
  ["inputs","schedules","fault_sequences"],"every content, compression level, framing, segmentation, corruption and truncation point of the compressed stream",
  "Tests decode one or two fixed payloads.",
  [CL],[("GunzipContentTransformer::transform",CL),("decoder selection in headersComplete",CL)],[("_contentDecoder","decoder of the current response",CL)],["content()"])

p("C08","The network access manager gives every reply its own true outcome",
  "Each reply obtained from the network access manager finishes exactly once, carrying the status, headers, cookies and exact body of its own request, or an error that the reply itself also reports; any number may be in flight to any servers, and replies may be aborted, deleted or followed by new requests from any notification. Connections are reused without mixing replies.",
  ["schedules","histories","fault_sequences"],"every number and interleaving of concurrent requests, server behaviours and aborts",
  "Tests run a few requests against a well-behaved local server.",
  [CL],[("NetworkReply",CL),("NetworkAccessManager::createRequest / client_finished",CL)],[("_urlToClientsMap, _clientToUrlMap","idle and known clients",CL)],["QNetworkReply signals and accessors"])

p("C09","The message writer and response parser are exact at every split",
  "An application that writes requests with HttpRequestWriter and feeds whatever arrives to HttpResponseParser gets the same sequence of callbacks (begin, headers, content, complete) with the same status, headers, content, keep-alive and end-of-connection verdicts however the bytes are split, delayed or cut, and what it was given at any moment has been reported up to that byte. A complete response is never refused; an invalid or truncated one, whatever its framing, is reported as an error and never as complete. Each message consumes exactly its own bytes; pausing, clearing and reuse for the next response or connection, also from inside callbacks, leave nothing of earlier messages behind. The request that reaches the server has exactly the method, path, headers, length and content given.",
  ["schedules","inputs","fault_sequences","histories"],"every response (framing, header form, interim responses, trailers), every segmentation and cut of it, every sequence of messages and connections over one parser and writer, every callback in which the parser is paused, cleared or called",
  "Tests inject fixed messages whole or byte by byte.",
  [CL,HP],[("HttpResponseParser::inject/injectEof/clear/pause",CL),("HttpRequestWriter::write",CL),("http_parser_execute (resumable)",HP)],[("parser, _field, _value, _lastWasValue","progress within the current message",CL),("_builder","reused request buffer",CL)],["parser callbacks and accessors; bytes received by the server"])

p("X01","Client and server agree end to end over a faulty network",
  "For any conversation between this library's client and server, with segmentation, delay, backpressure, resets, server restarts and aborts, a request reported successful was processed and its response is exactly the one the server's handler gave to that very request, and every request sent once is processed at most once. Requests issued after faults stop succeed within bounded time.",
  ["schedules","fault_sequences","histories"],"every conversation, every fault sequence, several clients and a server restarting at arbitrary points",
  "Tests exercise client and server separately or over a perfect loopback.",
  [CL,HC,HS],[("HttpClient","pillowcore/HttpClient.cpp"),("HttpServer/HttpConnection","pillowcore/HttpServer.cpp, pillowcore/HttpConnection.cpp")],[],["client outcomes joined with the server handler's history"])

p("F01","Pure helpers compute the documented values",
  "HTTP date formatting, status texts, MIME type lookup, number formatting, case-insensitive comparison and percent-decoding return the documented value for every input.",
  ["inputs"],"every input value",
  "Tests sample inputs; but no schedule, clock, fault or history is involved.",
  ["pillowcore/HttpHelpers.cpp","pillowcore/HttpHeader.cpp","pillowcore/ByteArrayHelpers.h"],[("HttpProtocol, HttpMimeHelper, percentDecode","pillowcore/HttpHelpers.cpp")])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
