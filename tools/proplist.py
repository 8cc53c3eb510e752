CONN='HttpConnection.cpp'
TECH='modular abstract-interpretation fixpoint over all operations and boundary states of the connection, with a protocol automaton over the abstract wire and signals'
BND='all histories of public operations, signal reentrancy and device events (unbounded, by fixpoint over generalised boundary states); content lengths, headers and sizes symbolic; Qt devices, containers and the HTTP parser modelled'
prop('C01', 'Response operations act only in their phase',
     'writeResponse, writeResponseString and writeHeaders have an effect only while a request is ready and its response head has not been written, and then they do write that head; writeContent and endContent have an effect only while the content of the response is being sent, and endContent none when the content length is known. A call at any other time writes nothing to the device, emits no signal and changes nothing about the current or a later exchange.',
     ['histories', 'schedules'], 'every sequence of public calls, including calls made from slots while the connection emits a signal, in every connection state',
     'The tests call each operation out of phase once or twice; the number of histories and reentrant calls is unbounded.',
     [CONN], [('phase guards of the response operations', CONN), ('the reentrant emission of requestReady/requestCompleted', CONN)], TECH, BND)
prop('C02', 'The body on the wire is exactly what Content-Length announces',
     'When a response head announces Content-Length n, never more than n content bytes follow it, the bytes are the ones handed to writeContent in order and unaltered, and the request completes exactly when n bytes have been written - neither earlier nor later. A writeContent call that would exceed the announced length sends nothing. Content handed over for one response never reaches the wire as part of another, whatever slots do during a signal.',
     ['inputs', 'histories', 'schedules'], 'every declared length, every sequence and size of content writes, every reentrant call, pipelined requests included',
     'Boundary sums and reentrant completion are only sampled by tests; desynchronised framing lets one client read another response.',
     [CONN], [('length accounting in writeContent', CONN), ('completion in transitionToSendingContent', CONN)], TECH, BND)
prop('C03', 'Responses to HEAD carry no content',
     'In answer to a HEAD request no content byte, chunk header or terminating chunk is ever written after the response head, whichever operation is used, whatever the headers announce; the request still completes.',
     ['inputs', 'histories'], 'every HEAD request and every sequence of response operations with any headers and content',
     'Tests issue two HEAD requests with plain responses; chunked, unknown-length and streamed responses are not covered.',
     [CONN], [('HEAD handling in transitionToSendingContent and writeContent', CONN)], TECH, BND)
prop('C04', 'Every response is well-formed and self-consistent on the wire',
     'A response starts with exactly one head: a status line, header lines each ended by CRLF, then one empty line, written before any content. Content-Length, Transfer-Encoding and Connection supplied by the caller are never relayed unchecked: at most one Content-Length is sent, chunked coding is announced only to HTTP/1.1 clients and never together with Content-Length. Content under chunked coding is a sequence of chunks - hexadecimal size equal to the bytes that follow, CRLF, data, CRLF, none of them empty - closed by exactly one terminating chunk when the request completes.',
     ['inputs', 'histories'], 'every status code, header collection, content size, HTTP version and sequence of operations',
     'Tests compare a few complete responses; combinations of caller headers, versions and operations are not enumerable.',
     [CONN], [('response head construction in writeHeaders', CONN), ('chunk framing in writeContent and endContent', CONN)], TECH, BND)
prop('C05', 'Connections persist exactly when that was negotiated and announced',
     'A response keeps the connection open if and only if the client allows it (HTTP/1.1 without Connection: close, or an older version with Connection: keep-alive), the handler did not ask for Connection: close, and the end of the content can be recognised (Content-Length or chunked). The Connection header on the wire says so, and it is what happens: after a persistent response the next request is received on the same connection, after any other response the connection is shut down and no further request is announced or answered.',
     ['inputs', 'histories', 'schedules'], 'every combination of client version and headers, response headers, content operations and device events',
     'Tests fix a few header combinations; the agreement between announcement and behaviour spans several operations.',
     [CONN], [('keep-alive negotiation in writeHeaders', CONN), ('flush, keep or close in transitionToCompleted', CONN)], TECH, BND)
prop('C06', 'The life cycle of requests and connections is respected',
     'For each request: requestReady is emitted once, after the request is complete and while the connection is in SendingHeaders; requestCompleted is emitted once, only after its response head and all of its announced content were written; then a new request or the end of the connection follows. closed is emitted once per connection, last; a connection that was closed is never revived except by initialize, and nothing is written to it. At rest the published state always matches the exchange, and no path uses a device the connection has let go of.',
     ['histories', 'schedules'], 'every sequence of public calls, device events and calls from slots during any emission, over any number of requests on one connection',
     'Handlers may close, answer or abandon a connection from any slot; tests exercise only a few of those orders.',
     [CONN], [('state transitions and signal emissions', CONN), ('closing while completing or flushing', CONN)], TECH, BND)
prop('C07', 'A bad request gets one error response and loses its connection',
     'While a request is being received nothing is written to the client except the interim 100 Continue line or one single error response. That error response is a complete head with status 400 or 413 and Connection: close; after it the connection goes down (Flushing or Closed) and neither requestReady nor another response follows.',
     ['inputs', 'histories', 'schedules'], 'every request stream (malformed, oversized, negative or huge content length) and every fragmentation and operation order',
     'Tests send a few malformed requests in one piece; what matters is that no path leads from the error back to request handling.',
     [CONN], [('writeRequestErrorResponse', CONN), ('limits in processInput and transitionToReceivingContent', CONN)], TECH, BND)
prop('C16', 'Announced Content-Length is the non-negative length used for the body',
     'The number on the wire in a Content-Length header is never negative, never truncated to a narrower integer, and is the very value the connection then accounts the content against; an unusable Content-Length header supplied by the caller is dropped, not relayed.',
     ['inputs'], 'every 64-bit value and every header text a caller may supply',
     'Needs lengths of 2 GiB and more or malformed header text, which the tests never use.',
     [CONN], [('Content-Length handling in writeHeaders', CONN)], TECH, BND)
prop('C36', 'Objects never start with unset scalar members',
     'After any constructor of a public class returns, and whenever a library function hands over an object it allocated, every scalar or pointer data member of that object (its private part included) holds a definite value. No later operation can therefore act on leftover memory.',
     ['histories', 'programs'], 'every public class, every constructor, every path through it, whatever the allocator returned',
     'Fresh pages are zero in tests, so an unset member looks initialised; only recycled memory of a long-running server shows it.',
     ['HttpConnection.cpp', 'HttpClient.cpp', 'HttpHandler.cpp', 'HttpHandlerQtScript.cpp', 'HttpHandlerProxy.cpp', 'HttpHandlerSimpleRouter.cpp'], [('constructors of the public classes', 'HttpConnection.cpp'), ('Route objects built by the router', 'HttpHandlerSimpleRouter.cpp')],
     'interprocedural definite-initialisation dataflow (abstract interpretation of constructors and allocating functions)', 'every path of every constructor and allocating function of the current sources; Qt and zlib classes trusted')
prop('C37', 'Every status code maps to its own status line text',
     'For every integer given as status code, the text the library looks up for the status line is either absent or starts with exactly that three-digit code, one space and a printable reason phrase, and the message lookup returns that same phrase. The codes of RFC 2616 other than 306 and 402 all have a text.',
     ['inputs'], 'all 2^32 status code values', 'The tests use a handful of codes; a wrong digit in an unused entry is never seen.',
     ['HttpHelpers.cpp'], [('status code lookup', 'HttpHelpers.cpp')], 'abstract evaluation of the lookup over the complete code range', 'exhaustive: one abstract run per code 0..999 and one per outer range')
prop('C41', 'Signal/slot wiring by name resolves and covers the required events',
     'Every connection or timer that names its signal and slot by text refers to members that exist with those argument types, so none silently fails at run time. On every path the event edges the library depends on are made: device input and disconnection reach the connection, connection readiness and closing reach the server, network events reach the client, and completion, closing and destruction of either side reach transfers and proxy pipes.',
     ['programs', 'configurations', 'histories'], 'every string-based connect in the sources; every path through the functions that wire objects, for socket, local-socket and other devices',
     'A misspelt or missing connection only prints a warning; the tests never destroy one side of a transfer at the wrong moment or use each device type.',
     ['HttpConnection.cpp', 'HttpServer.cpp', 'HttpClient.cpp', 'HttpHandler.cpp', 'HttpHandlerProxy.cpp', 'HttpsServer.cpp'], [('connections of the input device', 'HttpConnection.cpp'), ('connections of a pooled connection', 'HttpServer.cpp'), ('transfer and pipe lifetime edges', 'HttpHandlerProxy.cpp')],
     'type-resolved query of string connections against declared signals/slots, plus per-path must-connect analysis', 'every connect/singleShot call with literal names; edges checked on each abstract path')

prop('C19', 'Handlers answer a request exactly when they report it handled',
     'Every handler and route of the library that returns true has answered the request or handed it over exactly once on that path (a response operation, an accepting inner handler, route, script, callback or proxy pipe); when it returns false nothing has been written to the request and nobody was given it, so that the next handler can still answer it. The script handlers are bound by the same rule as far as their own answers go (the error pages).',
     ['inputs', 'histories'], 'every handler class and route kind, every request, every configuration of the handler (paths, flags, scripts, routes, files on disk)',
     'Tests check some results for a few requests; an unanswered request only shows as a client that waits for ever.',
     ['HttpHandler.cpp', 'HttpHandlerSimpleRouter.cpp', 'HttpHandlerProxy.cpp', 'HttpHandlerQtScript.cpp'], [('handleRequest of every handler', 'HttpHandler.cpp'), ('routes', 'HttpHandlerSimpleRouter.cpp')],
     'path analysis of every handleRequest and Route::invoke with a counting automaton (abstract interpretation, all branches, loops to fixpoint)', 'every path of 15 handler and route functions; application callbacks, scripts and inner handlers are assumed to answer what they accept')
HF='HttpHandler.cpp'
prop('C17', 'The file handler serves only regular files inside its public directory',
     'HttpHandlerFile opens a file only when a public directory is configured and the path it opens was checked on the way there: the canonical path (symbolic links and dot segments resolved) lies below the canonical public directory itself - not merely starts with its name - and it is a regular file. Whatever public path is set, the stored one is empty or canonical. Any other request path is declined.',
     ['inputs', 'configurations'], 'every request path (encoded, with dot segments, through links), every public path with or without trailing slash, every directory content',
     'Tests try a few escape attempts; each spelling of a path out of the directory is a separate input, and the check must dominate the opening on every path of the code.',
     [HF], [('path containment check in HttpHandlerFile::handleRequest', HF), ('canonicalisation in setPublicPath', HF)],
     'path-condition analysis: every path to an opening of a file carries the literals that imply containment', 'every path of every function of the file handler; QFileInfo trusted; race between check and opening not covered')
prop('C18', 'A served file is announced and sent completely, once, and released',
     'For a file it serves, HttpHandlerFile either answers with exactly the content of the file (or 304 without content when the client presented the validator computed from that content), or announces exactly its size and starts one transfer bound to that file and connection; a HEAD request starts no transfer, a file that cannot be read gives an error. The file object is always released, with the answer or with its transfer. The transfer reads forward without overlap, never past the end and never more than fits the buffer size, writes each piece it read once, never stalls while content remains and nothing is pending, and finishes exactly at the end of the file.',
     ['inputs', 'schedules', 'configurations'], 'every file size including beyond 4 GiB, every buffer size, every amount of output pending when the transfer continues, every method and validator',
     'Tests serve two files with fixed sizes; stalls and overruns depend on file size, buffer size and pending output together.',
     [HF], [('choice of answer in HttpHandlerFile::handleRequest', HF), ('HttpHandlerFileTransfer::writeNextPayload', HF)],
     'path analysis with automata over response head, file ownership and transfer steps (abstract interpretation with symbolic sizes)', 'every path; file size, position, pending bytes and buffer size symbolic; the file does not change while it is sent')
prop('C20', 'The handler stack asks its handlers in order until one accepts',
     'HttpHandlerStack asks its child handlers in the order they were added, each at most once, about the very request it was given, skips none and children that are not handlers do no harm; it stops at the first that accepts and then reports the request as handled, and reports it as not handled only after all of them declined.',
     ['inputs', 'configurations'], 'every number and kind of children and every pattern of acceptance',
     'Tests use two or three handlers and one pattern; the guarantee is about a loop over any list.',
     [HF], [('HttpHandlerStack::handleRequest', HF)], 'abstract interpretation of the loop to a fixpoint with an index automaton over the children', 'any number of children; children() order as documented by Qt')
RT='HttpHandlerSimpleRouter.cpp'; HS='HttpServer.cpp'; HP='HttpHandlerProxy.cpp'
prop('C21', 'The router gives a request to the first route that matches',
     'HttpHandlerSimpleRouter looks at its routes in the order they were added and gives the request to the first whose whole path matches the decoded request path and whose method is empty or equals the request method (or the _method parameter, only when accepted), exactly once, with every parameter of the route bound to its own capture; 404 is answered only when no route matches the path, 405 only when routes match but none by method, listing the method of each of them. Every addRoute adds exactly one route, made of the method, path and target it was given (the method looked up on the object if one is found), or none for a missing target. Parameter names are kept in the order of the groups that capture them.',
     ['inputs', 'histories'], 'every list of routes, every request path and method, every number of parameters',
     'Tests use a handful of route tables; order, mixed parameter kinds, method mismatches and lookups go wrong only in combination.',
     [RT], [('HttpHandlerSimpleRouter::handleRequest', RT), ('HttpHandlerSimpleRouter::addRoute', RT), ('HttpHandlerSimpleRouter::pathToRegExp', RT)], 'path analysis of matching, adding and compiling routes with symbolic route list (loops to fixpoint) and an automaton over matches, bindings, invocations and answers', 'every path; any number of routes, parameters and matches; QRegExp and QMetaObject trusted; the syntax of the compiled expression is covered only as far as its anchors and the order of its names')
prop('C23', 'Each accepted connection gets one live connection object, taken back once',
     'For every accepted socket the server initialises exactly one connection object with that socket, one that is neither in use nor in the reserve nor deleted; a descriptor that cannot be opened uses none up and leaks no socket. When a connection closes, its object goes back at most once (or is deleted), its device is released exactly once, and it is never deleted or reused while it still emits. The reserve never holds an object twice and never grows beyond what it starts with.',
     ['histories', 'inputs'], 'every order of accepts, failures and closings, every number of connections',
     'Tests open a few connections; a duplicate or a dangling object in the pool only shows when two later clients share it.',
     [HS, 'HttpsServer.cpp'], [('connection reserve', HS), ('incomingConnection and connection_closed', HS)],
     'path analysis of every server and pool function with a typestate per connection object and socket, and an inductive bound on the reserve', 'every path of every function of the servers; pool content generic (any size within the proven bound)')
prop('C24', 'The TLS server speaks HTTP only after encryption was started',
     'HttpsServer gives every accepted socket its private key and certificate and starts server encryption before the HTTP connection gets to see it, on every path; a socket it cannot set up never reaches HTTP in the clear.',
     ['inputs', 'configurations'], 'every accepted descriptor, every key and certificate configuration',
     'No test runs a TLS client; a plain-text connection works just as well in a test.',
     ['HttpsServer.cpp'], [('HttpsServer::incomingConnection', 'HttpsServer.cpp')], 'event order on every accepting path: key, certificate, encryption, then HTTP', 'every path of the accepting functions of every TLS server; QSslSocket trusted')
prop('C32', 'A proxied reply reaches the client completely and always ends',
     'The proxy pipe sends the head of the reply once, with its status and every raw header once and in order, before any content; every block of content it reads is relayed once, in order, and nothing is lost or made up. When the reply has finished, the response of the client has ended too: completely, or by a 503 when no head could be sent, or by the end of the connection when it had to stay incomplete. Once one side is gone the pipe touches neither side again, disconnects from both, releases the reply once and disposes of itself.',
     ['histories', 'schedules', 'inputs'], 'every order of readyRead, finished, closing and destruction, at any response state, also from inside the calls the pipe makes; every header list and content',
     'Tests proxy a few complete replies; broken, empty, chunked or aborted replies and a client that leaves in the middle need orders tests do not produce.',
     [HP], [('HttpHandlerProxyPipe slots', HP), ('teardown', HP)], 'path analysis of every entry point of the pipe with automata over response phase, relayed data, copied headers and teardown', 'every path of every method of the pipe from running and torn-down states, with a teardown possible inside every call to the connection')
prop('C33', 'The proxy never queues requests behind a full network access manager',
     'The elastic network access manager makes every request exactly once, with the operation, request and data it was given, and returns that reply; it uses one of its own managers that is below the limit of six requests, or a new one when none is, and every manager it makes shares its cookie jar without owning it.',
     ['histories', 'inputs'], 'every number of managers and of requests in flight, with and without cookie jar',
     'Tests use a single request; the queueing shows only beyond six parallel ones, the jar only after a manager is gone.',
     [HP], [('ElasticNetworkAccessManager::createRequest', HP)], 'path analysis of the request creation with symbolic child list (loop to fixpoint)', 'every path; any number of children; the limit counts children as the code does')
prop('C44', 'The proxied request is the request of the client',
     'HttpHandlerProxy proxies a request it accepts exactly once and pipes its reply back exactly once; the proxied request has the method, path, query and fragment, every header (once, in order, name with its value) and the content of the client, goes to the configured server, and its content device is readable and released with the reply. A request it declines is not proxied.',
     ['inputs'], 'every request: any method, target, header list and content',
     'Tests check a few requests; a dropped header, a changed query or method is one input away.',
     [HP], [('HttpHandlerProxy::handleRequest', HP), ('createProxiedReply', HP)], 'path analysis comparing every part of the proxied request with the request view it comes from (loops to fixpoint)', 'every path; header list of any length; QUrl and QNetworkRequest trusted to store what they are given')
HC='HttpClient.cpp'
prop('C25', 'Every client request ends with exactly one finished signal',
     'HttpClient takes a request only when none is in progress. Each request it takes ends with finished() exactly once, never inside the call that starts it unless that call fails at once, and with the right error: none when a complete final response was received, the network error that broke it off, the response-invalid error for a response that cannot be parsed, and the aborted error after abort(), also when a slot aborts or starts a new request from inside any signal. After finished() the client is idle and ready for the next request; interim 100 responses are passed over and everything after them is parsed.',
     ['histories', 'schedules', 'inputs'], 'every order of requests, received pieces, network errors, disconnects and aborts, also from inside the signals of the client',
     'Tests run complete exchanges; a request finished twice or never needs an abort or a close at a particular point of the parse.',
     [HC], [('request/abort/device slots', HC), ('parser callbacks', HC)], 'path analysis of every entry point with a typestate of the pending request and re-entrant slots at every emission', 'every path of every slot and method of the client; bytes symbolic; parser trusted to call back in protocol order')
prop('C26', 'The client sends the request it was given to the host it was given',
     'For each request HttpClient takes, the request written has the method, the path and query of the url (the root path for none), every header given once and in order, a Host header naming host and non-default port, a Content-Length that is the size of the data when there is data, and the data; it goes to a device connected to the host and port of the url (the default port for none). A redirect that is followed repeats the request to the location the response named.',
     ['inputs'], 'every url, method, header list and data, on new and reused connections',
     'Tests check a few requests; a missing header or a wrong port is one url away.',
     [HC], [('request set-up and sendRequest', HC), ('followRedirection', HC)], 'path analysis comparing every part of the request written with the request given (loops to fixpoint)', 'every path; url and headers symbolic; QUrl trusted to return its parts')
prop('C27', 'A response contains nothing of an earlier response',
     'Whenever the client starts a request or a response begins, status, headers, content, parser state and content decoder are those of a new response: nothing an earlier response left behind (finished, broken off or aborted at any byte) reaches the next. Each content byte is passed on once, in order, decoded once when the response names an encoding the client decodes, and raw otherwise.',
     ['histories', 'inputs'], 'every point at which an earlier response ended or was cut off, every content encoding of either',
     'Tests receive complete responses; a left-over header, decoder or buffer shows only after one was cut off at a particular point.',
     [HC], [('HttpResponseParser state', HC), ('content decoder', HC)], 'path analysis of every entry point: must-reset of each response field before it is read or appended to, typestate of the content decoder', 'every path; decoding itself (zlib) trusted')
prop('C28', 'A client connection is reused only for the same host while it is good',
     'HttpClient sends a request over the open connection only when it is connected to the same host and port as the url asks for, the last response allowed it to be kept alive and it has not expired; otherwise it connects anew first and sends nothing before it is connected. A connection whose response must not be followed by another is closed.',
     ['histories', 'inputs'], 'every sequence of urls, keep-alive answers, expiries and broken responses',
     'Tests reuse a connection once; a request sent to the wrong host needs two different hosts and a kept connection.',
     [HC], [('connection reuse in HttpClient::request', HC), ('messageComplete', HC)], 'path-condition analysis: every path that writes a request without connecting carries the literals that imply a good connection', 'every path; host, port, device state and expiry symbolic')
prop('C29', 'The request writer puts a request on the wire exactly once',
     'HttpRequestWriter writes the request line with method, path and version, every header given exactly once and in order as name, colon and value on its own line, one empty line and then exactly the data, in this order and nothing else, for any number of headers and any size of data; each verb function writes the request of its own method, path and headers, with the data it was given.',
     ['inputs'], 'every header list, path and data, whether written at once or in pieces',
     'Tests write a few small requests; sizes decide between writing in one piece and in two.',
     [HC], [('HttpRequestWriter::write', HC)], 'abstract interpretation of the bytes written (symbolic segments) against the message grammar, loops to fixpoint', 'every path; any number of headers, any data size')
prop('C14', 'Header look-ups see every header and appending loses none',
     'Looking up a header compares the name with every header in order until it is found: getFieldValue returns the value of the first header with the name, and an empty value only when none has it; getFieldValues returns the values of all of them in order; testFieldValue answers true exactly when some header has both the name and the value. Appending a collection adds each of its headers once, in order, after those that are there, and writes nothing else - also when a collection is appended to itself.',
     ['inputs'], 'every header list of any length, every name and value',
     'Tests look up a few names in short lists; a skipped element or a copy past the end depends on length and position.',
     ['HttpHeader.cpp', 'HttpHeader.h'], [('look-ups', 'HttpHeader.cpp'), ('operator+=', 'HttpHeader.cpp')],
     'abstract interpretation of every look-up and append with an index automaton over the headers, loops to fixpoint', 'any number of headers; comparison of two names is trusted to be exact')
prop('C30', 'A pooled client serves one request at a time and goes back where it belongs',
     'NetworkAccessManager makes every http request exactly once, with the verb of its operation, its url, each of its headers once and in order, the cookies of its jar for that url and the data it was given; any other scheme goes to the base class unchanged. It uses a client that no other request uses - one it takes out of the pool of that very authority, or a new one that is connected and noted under its authority - and the reply it returns listens to that client before the request starts. A client that finished goes back to the pool of its own authority exactly once or is disposed of, never deleted while it still emits.',
     ['histories', 'inputs'], 'every sequence of requests and endings, every url, header list, cookie list and data',
     'Tests make single requests; a client used by two requests at once mixes their answers only under load.',
     [HC], [('NetworkAccessManager::createRequest', HC), ('client_finished', HC)], 'path analysis with a typestate of the client in the pool and comparison of every part sent with the request given (loops to fixpoint)', 'every path for each of the six operations; QHash trusted')
prop('C31', 'A network reply shows exactly the response of its client',
     'The reply takes over the status, the location and every header of the response - all values of a repeated header - and gives every cookie of it to the cookie jar before it announces them; it delivers the content once, in order, without reading past what arrived or more than the buffer given holds, and counts exactly what is left. When its client ends it stops listening to it, lets go of it, reports the matching error (error() and signal) or none for a complete response, and finishes exactly once.',
     ['inputs', 'histories'], 'every header list, cookie list, content, read size and way a request ends',
     'Tests read complete small replies; partial reads, repeated headers and errors of each kind are not tried together.',
     [HC], [('NetworkReply slots', HC), ('NetworkReply::readData', HC)], 'path analysis of every slot and method of the reply against the observable parts of its client (index automata, symbolic sizes)', 'every path; QNetworkReply trusted to store what it is given')
prop('C34', 'No operation blocks its thread or runs a nested event loop',
     'The library is event driven: no function of it, on any path, waits for a device, a peer, another thread or time to pass, runs an event loop of its own, processes pending events in between, or connects a signal so that its sender blocks until the receiver ran. So one slow peer never holds up the other connections of the thread, and no event is delivered inside an operation other than by the signals it emits.',
     ['histories', 'schedules'], 'every function and every call site of the library',
     'A wait goes unnoticed in tests with fast local peers; it stalls every connection of the thread when one peer is slow.',
     ['HttpConnection.cpp', 'HttpClient.cpp', 'HttpServer.cpp', 'HttpHandler.cpp', 'HttpHandlerProxy.cpp'], [('all functions of pillowcore', 'HttpConnection.cpp')],
     'query of the resolved call graph: no call site resolves to a waiting callee', 'all call sites of the library; code supplied by the user (slots, handler functions, scripts) is outside')
