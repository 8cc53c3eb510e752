"""property id -> (rule module, function, one-line rule)"""
RULES = {
 'C36': ('init', 'initialised', 'definite initialisation: after every constructor, and for every object a method allocates, each scalar and pointer member holds a value'),
 'C37': ('helpers', 'status_table', 'abstract evaluation of the status lookup for every code value'),
 'C41': ('wiring', 'wiring', 'every string-based connection resolves against the declared signals and slots, and the event edges the library relies on exist on every path'),
 'C01': ('connection', 'c01', 'modular abstract fixpoint over all connection operations with a protocol automaton over wire and signals: response operations out of their phase are inert'),
 'C02': ('connection', 'c02', 'modular abstract fixpoint over all connection operations with a protocol automaton over wire and signals: content bytes equal the announced length'),
 'C03': ('connection', 'c03', 'modular abstract fixpoint over all connection operations with a protocol automaton over wire and signals: no content bytes after a HEAD response head'),
 'C04': ('connection', 'c04', 'modular abstract fixpoint over all connection operations with a protocol automaton over wire and signals: response head and chunk framing are well-formed'),
 'C05': ('connection', 'c05', 'modular abstract fixpoint over all connection operations with a protocol automaton over wire and signals: announced and actual persistence agree with the negotiation'),
 'C06': ('connection', 'c06', 'modular abstract fixpoint over all connection operations with a protocol automaton over wire and signals: signals and states follow the life-cycle automaton'),
 'C07': ('connection', 'c07', 'modular abstract fixpoint over all connection operations with a protocol automaton over wire and signals: errors while receiving give one error response and end the connection'),
 'C16': ('connection', 'c16', 'modular abstract fixpoint over all connection operations with a protocol automaton over wire and signals: the Content-Length value is non-negative and the one accounted'),
 'C19': ('handlers', 'contract', 'path analysis of every handleRequest and route: handled exactly when the request was answered or handed over once'),
    'C20': ('handlers', 'stack', 'path analysis of the handler stack with an index automaton over the children (loop to fixpoint)'),
    'C21': ('router', 'routing', 'path analysis of matching, adding and compiling routes with symbolic route list and an automaton over matches, bindings, invocations and answers'),
    'C23': ('server', 'pool', 'path analysis of every server and pool function with a typestate per connection object and socket, and an inductive size bound of the reserve'),
    'C24': ('server', 'tls', 'event order on every accepting path of the TLS server: key, certificate, encryption, then HTTP'),
    'C17': ('files', 'containment', 'path conditions of every file opening in the file handler imply containment in the canonical public directory; every update of the public path leaves it empty or canonical'),
    'C18': ('files', 'transfer', 'path analysis of the file handler and its transfer with automata over response head, file ownership, reads and writes'),
    'C25': ('client', 'lifecycle', 'path analysis of every entry point of the HTTP client with a typestate of the pending request, under every reaction of the receivers of its signals'),
    'C26': ('client', 'given', 'path analysis of making, queueing and sending requests: every part sent is compared with the request given, the headers with an index automaton'),
    'C27': ('client', 'fresh', 'from an arbitrary state left by an earlier response, path analysis of the start of request, message, head and content; typestate of the decoder'),
    'C28': ('client', 'reused', 'path conditions of every reuse of the connection, and device events on every way a response ends'),
    'C29': ('client', 'wire', 'line automaton over everything appended to the request buffer and written to the device (header loop to fixpoint)'),
    'C32': ('proxy', 'pipe', 'path analysis of every entry point of the proxy pipe with automata over response phase, relayed data, copied headers and teardown'),
    'C33': ('proxy', 'elastic', 'path analysis of the request creation: one call, unchanged arguments, on an available child manager or a new one that shares the cookie jar'),
    'C14': ('headers', 'collections', 'path analysis of every look-up and append with an index automaton over the headers (loops to fixpoint), also for a collection appended to itself'),
    'C30': ('network', 'manager', 'path analysis of making a request and taking its client back: pool typestate, and every part sent compared with the request given (loops to fixpoint)'),
    'C31': ('network', 'reply', 'path analysis of every slot and method of the reply: attributes, headers (index automaton), cookies, content and error against those of the client'),
    'C34': ('blocking', 'blocking', 'no function of the library calls anything that waits, runs a nested event loop or makes a blocking connection (resolved call graph)'),
    'C44': ('proxy', 'forward', 'path analysis of the proxy handler: every part of the proxied request is compared with the view of the client request it comes from'),
}
