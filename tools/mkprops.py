import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Packed messages follow the documented wire layout and round-trip",
"For every message id, header map and body the chosen marshaller can encode, every packing function emits exactly the documented block: 4-byte big-endian length of everything after it, 4-byte id, 4-byte header length, 4-byte body length, the header as JSON, then the marshalled body (later header maps override earlier ones, caller's maps and body are left untouched). Every accessor, bind and unpack function applied to that block gives back the same id, header and body, for every built-in marshaller name and alias and for custom marshallers. When the marshaller reports that the body cannot be encoded, when the header is not JSON-encodable, or when the marshaller name is unknown, packing returns an error and no bytes.",
["inputs","schedules"],"all ids (negative, zero, extreme), headers, bodies and sizes, all five marshallers and custom ones, concurrent packers",
"The tests pack one or two small values per marshaller and print the result; layout, sizes beyond a few bytes, negative ids, header merging, error paths and concurrent use are never compared with anything.",
["packx.go","message.go","marshaller.go","pack-type.go","utils.go"],
[("PackWithMarshaller / PackWithMarshallerAndBody","packx.go"),("UnpackWithMarshaller and *Of accessors","packx.go"),("PackType binders","pack-type.go"),("built-in marshallers","marshaller.go")],
["return values of the exported pack/unpack API, compared with an independent encoder/decoder"])

p("C02","Message framing does not depend on how the byte stream is chunked",
"Reading blocks from any reader that delivers a concatenation of packed messages returns exactly those messages, byte for byte and in order, however the bytes are fragmented (single bytes, empty reads, last bytes delivered together with end-of-stream), and never consumes a byte beyond the block it returns. A stream ending exactly between two messages yields io.EOF; one that ends or fails inside a message yields an error and never a partial block. A TCP server fed the same fragments hands the same messages to its handlers.",
["inputs","schedules","fault_sequences"],"all message sequences x all fragmentations x all truncation/error points",
"Tests read messages written in a single write over loopback; the only fragment test prints its result without asserting.",
["packx.go","tcpx.go","utils.go"],
[("UnpackToBlockFromReader / ...LimitMaxLengthOfByte","packx.go"),("readUntil","packx.go"),("connection read loop","tcpx.go ListenAndServeTCP")],
["blocks returned by FirstBlockOf, FirstBlockOfLimitMaxByte, UnpackToBlockFromReader, UnPackFromReader, Recv","bytes consumed from the reader","messages seen by server handlers"])

p("C03","Bytes sent by a peer can never crash the process",
"Whatever bytes a peer sends over TCP, TLS or UDP (malformed lengths, header or body lengths that disagree with the block, bad JSON headers, bad or truncated batches, abrupt disconnects), the server process keeps running, other peers' established connections keep being served and new connections are accepted. Every decoding function of the framework returns a value or an error on any input bytes; none panics (failures inside third-party body codecs, and memory exhaustion by messages the configured size limit allows, are out of scope). A well-formed block whose header length or body length is zero is legal and is served normally.",
["inputs","fault_sequences"],"all byte strings and disconnect points, on every transport, with handlers that bind, read raw body and reply",
"Every test sends well-formed messages from the library's own encoder; no malformed byte ever reaches the decoder.",
["packx.go","tcpx.go","context.go","pack-type.go"],
[("length checks in *Of accessors, UnpackWithMarshaller, FirstBlockOfBytes","packx.go"),("isPipe / pipe collection","tcpx.go"),("handler goroutines","tcpx.go handleMiddleware, handlePipe")],
["exit status of a server process under attack","canary connections","recover() around exported decoders"])

p("C04","The per-message size limit is enforced before a message is read",
"With a maximum message size configured, on every TCP, TLS or unix connection a message whose declared length exceeds the limit (or cannot be a length at all) is never handed to a handler, is rejected as soon as its length prefix has arrived without waiting for or buffering its content, and ends that connection so that nothing after it is interpreted. Messages up to and including the limit are delivered normally, alone or inside a piped batch, and other connections are unaffected. A limit of zero or less means unlimited.",
["inputs","configurations","histories"],"all limits, declared lengths around and far from the limit, positions in a stream or batch",
"No test configures a limit.",
["tcpx.go","packx.go"],
[("SetMaxBytePerMessage","tcpx.go"),("FirstBlockOfLimitMaxByte / UnpackToBlockFromReaderLimitMaxLengthOfByte","packx.go")],
["handler invocations per message","connection end seen by the client when only a length prefix was sent","result of the limited read functions"])

p("C05","Every message reaches exactly the handler registered for it, once",
"On any connection, and whatever was sent on it before, each well-formed message is handed exactly once, with its own bytes, to the handler registered for its message id, or for its URL pattern when its header asks for URL-pattern routing. A message with no registered handler, or with an unknown routing type, invokes no handler and leaves the connection usable. When OnMessage is set it receives every message instead of the routed handlers, and registering a second handler for an id or pattern is refused without changing the first.",
["histories","inputs","schedules","configurations"],"all interleavings of id-routed, URL-routed, unknown and malformed-route messages on any number of concurrent connections, TCP and UDP",
"Tests send one message kind per connection and a handful of messages; mixed routing on one connection and counting deliveries are never exercised.",
["tcpx.go","context.go","mux.go","url-mux.go","message.go","utils.go"],
[("handleMiddleware dispatch","tcpx.go"),("RouterType / GetURLPattern","context.go"),("Mux.Handlers, URLMux","mux.go, url-mux.go"),("copyContext per request","context.go")],
["handler invocations tagged by unique message ids"])

p("C06","Each handler runs under exactly the middleware in force for it, in order",
"For every sequence of UseGlobal/Use/UnUse/AddHandler/Any calls, a message runs, once each: all global middleware, then exactly the Use middleware that was in force when its handler was registered (a key is in force from each Use until the following UnUse; order of first Use), then the handler's own middleware, then the handler. With OnMessage the chain is all global and all Use middleware regardless of UnUse, then OnMessage; heartbeat and auth messages skip middleware only when that feature is on and configured to do so. Unbalanced Use/UnUse of a key is refused.",
["programs","inputs","schedules"],"all registration programs (any number of keys, re-use of a key, any interleaving with handlers), both routing styles, concurrent requests",
"Tests cover one key used once and print or count a list; re-used keys, many keys, URL patterns and interactions are not covered.",
["tcpx.go","anchor.go","mux.go","url-mux.go"],
[("Use / UnUse / UseGlobal / AddHandler / Any","tcpx.go"),("MiddlewareAnchor.Contains","anchor.go"),("chain assembly","tcpx.go handleMessageIDHandlers, handleURLPatternHandlers, handleOnMessage")],
["ordered trace of middleware and handler entries per message"])

p("C07","Abort stops the chain, Next nests it, and neither leaks across requests",
"Within one request the chain elements start in order and at most once; after any element calls Abort no further element starts, and without an Abort every element runs. Next runs the rest of the chain before it returns, however often and however deeply it is called. Neither affects any other request, concurrent or later, on the same or another connection.",
["programs","schedules","histories"],"all chains of elements that call Next zero or more times and Abort before/after, chain lengths (up to 2018 elements, the documented abort mark), concurrent requests on one connection",
"One test checks the offset value after Abort on an empty context; the server-level Abort/Next test is commented out.",
["context.go","tcpx.go"],
[("Next / Abort / Reset","context.go"),("per-request context copy","context.go copyContext")],
["enter/leave trace of chain elements per message"])

p("C08","Request data is private to its request; connection data to its connection",
"Values stored in request scope are visible to every later element of that request's chain and to no other request; values stored in connection scope are visible to every later request, OnConnect and OnClose of that connection and to no other connection. The message bytes, id, routing type and URL pattern a handler observes are those of its own message and do not change while it runs, however many other messages arrive. The two scopes of a stream connection are separate stores that return exactly the value last stored under the key; over UDP both scopes are per datagram.",
["schedules","histories"],"all interleavings of requests on one and on many connections",
"The only test sets and gets one key on a context without a connection.",
["context.go","tcpx.go"],
[("copyContext","context.go"),("SetCtxPerConn / SetCtxPerRequest and getters","context.go"),("fresh buffer per block","packx.go, tcpx.go ReadAllUDP")],
["values read back in handlers against a per-connection/per-request shadow map"])

p("C09","Replies arrive intact, once, on the right connection",
"Every reply or send that returns nil (Reply, JSON, XML, YAML, TOML, ProtoBuf, ReplyWithMarshaller, the URL-pattern replies, SendToConn, SendToUsername) is delivered to the addressed peer exactly once as one intact block with the id, header and body given, encoded with the marshaller that call names, however many goroutines write to the same connection and however slowly the peer reads. Sends made one after another by one goroutine arrive in that order. A reply whose header or body cannot be encoded returns an error and sends no byte.",
["schedules","inputs","configurations"],"all concurrent writers, sizes from empty to megabytes, slow readers, TCP, TLS and UDP",
"Tests send a single small reply to a single client.",
["context.go","packx.go","marshaller.go"],
[("commonReply / replyBuf single write","context.go"),("SendToConn / SendToUsername","context.go")],
["byte stream received by each client, parsed by an independent decoder"])

p("C10","A piped batch is handled serially, in order, exactly once",
"The messages of a batch sent with PipeJSON are handled one at a time in the order given, each exactly once by the handler registered for it, the next starting only after the previous handler has returned; messages sent after the batch on the same connection are handled normally. If the batch is cut short by a disconnect, an oversized message or another error, only a prefix of its messages is handled and the process and other connections are unaffected.",
["histories","schedules","fault_sequences"],"all batch sizes, contents and handler durations, traffic before/after/concurrent, all cut points",
"PipeJSON has no test.",
["tcpx.go","utils.go"],
[("isPipe, pipe collection loop, handlePipe","tcpx.go"),("PipeJSON","utils.go")],
["start/end events of handlers per batch element"])

p("C11","Connection callbacks fire exactly once and in order for every connection",
"For every accepted TCP or TLS connection OnConnect runs exactly once, before any of its messages is handled, and OnClose runs exactly once, after it, however the connection ends (peer close or reset, CloseConn from any number of goroutines, malformed or oversized input, heartbeat or auth failure, server stop). The context reports online until the connection is closed and offline from then on, and once OnClose has run the socket is closed. Connections are independent: one ending never ends another.",
["histories","schedules","fault_sequences"],"all ways and moments a connection can end, with many connections ending concurrently",
"Tests never close a connection and check callbacks.",
["tcpx.go","context.go"],
[("deferred CloseConn / OnClose in the connection goroutine","tcpx.go"),("CloseConn, userState","context.go")],
["callback events per connection, IsOnline/IsOffline, client-side end of stream"])

p("C12","The user pool maps a name to its most recently online live connection",
"Concurrent pool operations behave atomically: Online puts the calling connection under the name, replacing any other, and SendToUsername reaches exactly the connection most recently brought online under that name, or fails when there is none or that connection has been closed by the server. Going offline or closing a connection removes the entry it holds under its current name, and never an entry another connection has since registered under the same name.",
["histories","schedules"],"all interleavings of online, offline, re-login from another connection, close and send over few names",
"No test uses the pool.",
["client-pool.go","context.go"],
[("ClientPool methods under its lock","client-pool.go"),("Online / Offline / CloseConn / SendToUsername","context.go")],
["linearizability of recorded pool histories against a sequential map","which client receives each send"])

p("C13","Heartbeat watching closes exactly the silent connections",
"With heartbeat mode on, a connection whose peer stops sending heartbeats is closed after three consecutive heartbeat intervals without one, not earlier, and the loss callback (if set) runs exactly once, before the close; ordinary messages do not count as heartbeats. A connection that delivers a heartbeat in every interval is not closed and sees no loss callback, and with the mode off silent connections stay open. A custom heartbeat id or rewritten handler behaves the same, and an extra heartbeat never blocks or breaks its handler.",
["schedules","histories","configurations"],"all timings of heartbeats relative to the interval, mixes with other traffic, many connections",
"One 40 s test checks that a client that beats is not cut off; silence, loss callback, custom ids and off mode are untested.",
["tcpx.go","context.go"],
[("heartBeatWatch","tcpx.go"),("HeartBeatChan / RecvHeartBeat","context.go")],
["time of close and loss callback relative to heartbeats received, on one monotonic clock"])

p("C14","Auth watching closes exactly the connections that do not authenticate",
"With auth on, a connection that gives no auth verdict is closed when the auth deadline passes, not earlier; one for which the handler signals denial is closed at once; one for which it signals acceptance in time stays open and usable after the deadline. The first verdict decides. With auth off no connection is closed for lack of it, and repeated auth messages never block their handlers.",
["schedules","histories","configurations"],"all timings of accept/deny relative to the deadline, repeated verdicts, many connections",
"No test enables auth.",
["tcpx.go","context.go"],
[("authWatch","tcpx.go"),("RecvAuthPass / RecvAuthDeny","context.go")],
["time of close relative to connect and verdict; traffic after the deadline"])

p("C15","Stop closes the door, and closes connections only when asked",
"Once Stop returns, no new connection or datagram is served on any address the server was listening on, whatever network name it was started with, and the blocked listen calls return. Stop(false) leaves established connections working (requests handled, replies delivered, pool entries kept, heartbeats honoured); Stop(true) closes every established connection, runs its OnClose and empties the pool. Stopping a stopped server returns an error and changes nothing.",
["histories","schedules","configurations"],"all networks, numbers of listeners and connections, option combinations (pool, signals, heartbeat, auth), moments of stopping",
"No test calls Stop.",
["tcpx.go","context.go","client-pool.go"],
[("Stop / closeAllConnection","tcpx.go"),("fillProperty listener table","tcpx.go"),("broadcastSignalWatch","tcpx.go")],
["dial results after Stop, echo on old connections, OnClose events, pool contents, return of listen calls"])

p("C16","A restarted server serves again on every address, any number of times",
"After Stop and Start (or Restart), the server accepts and serves connections again, in the same mode, on every address it was listening on, for any number of cycles; connections made after a restart are not affected by earlier stops, and connections kept across Stop(false) continue to work. Restart runs its callbacks once each, in order, after stopping and before starting, and Start on a running server returns an error.",
["histories","schedules","configurations"],"all sequences of stop/start/restart with either flag over several listeners and networks, with live traffic",
"No test calls Start or Restart.",
["tcpx.go"],
[("Start / Restart","tcpx.go"),("listener table","tcpx.go fillProperty"),("closeAllSignal","tcpx.go")],
["dial and echo on every address after each cycle"])

p("C17","The framework is free of data races",
"No combination of concurrent connections, requests, replies, connection- and request-scoped storage, pool operations, heartbeats, auth, closes, stop and restart makes the framework access shared memory without synchronisation, as long as handlers are registered before serving and user code respects the documented rules. Shared packers, pools and contexts may be used from any number of goroutines.",
["schedules"],"all schedules of the public API under load",
"Tests are not run with the race detector and most have a single client.",
["tcpx.go","context.go","client-pool.go","mux.go","packx.go"],
[("Context.L, ClientPool lock, server state lock, sync.Map stores","context.go, client-pool.go, tcpx.go")],
["Go race detector reports"])

p("C18","Nothing is left behind when connections end and the server stops",
"When a connection has ended and its handlers have returned, no goroutine and no file descriptor of the framework remains for it, whatever features were on and whatever heartbeat or auth messages it sent; once the server has been stopped with all connections closed, none remains at all. Resource use therefore does not grow with the number of past connections or datagrams.",
["histories","schedules","configurations"],"all feature combinations and ways connections end, many generations of connections",
"Tests never look at resources.",
["tcpx.go","context.go"],
[("recvEnd / closeAllSignal end the watchers","tcpx.go, context.go"),("CloseConn","context.go")],
["goroutines with framework frames and open descriptors after quiescence"])

p("C19","Raw mode hands over the unmodified byte stream",
"On a raw server each connection runs the global and Use middleware once, in order, and then the raw handler, which reads exactly the bytes the peer sent and whose writes reach the peer unmodified; no framing is imposed. When the raw handler returns the connection is closed and OnClose runs once; connections do not affect each other.",
["inputs","schedules","histories"],"all byte streams and chunkings, many concurrent raw connections",
"One test prints what it receives.",
["tcpx.go","context.go"],
[("ListenAndServeRaw / handleRaw","tcpx.go"),("InitReaderAndWriter","context.go")],
["bytes read by the raw handler and by the client; callback events"])

p("C20","Each valid datagram is handled once and answered to its sender",
"A UDP server handles each datagram that holds a complete message within its buffer size exactly once, under the same routing and middleware rules as TCP, and replies reach the address it came from. Datagrams that do not hold a complete message within the buffer (too short, shorter than their declared length, an impossible length) or whose header cannot be decoded are dropped without a handler seeing them and without disturbing later ones, and neither heartbeat mode nor auth, pool or broadcast options make the socket stop serving before Stop. Failure to bind is returned as an error.",
["inputs","schedules","configurations"],"all datagrams, senders and buffer sizes, bursts from many senders",
"One test sends one datagram.",
["tcpx.go","context.go","packx.go"],
[("ListenAndServeUDP / ReadAllUDP","tcpx.go"),("FirstBlockOfBytes","packx.go"),("NewUDPContext","context.go")],
["handler invocations tagged by datagram id, replies per sender socket"])

p("C21","A TLS server never speaks or obeys plaintext",
"On a server started with ListenAndServe on a stream network with a TLS configuration loaded, nothing a client sends outside a TLS session reaches a handler and nothing is sent to it in clear, while TLS clients get the same message semantics as TCP, including the last message sent immediately before closing. A plaintext or failed handshake affects only its own connection. Loading unusable certificate files returns an error and leaves the server without the configuration.",
["inputs","schedules","fault_sequences"],"all client byte sequences and TLS client behaviours, concurrent mixes",
"No test uses TLS.",
["tcpx.go","tls.go"],
[("LoadTLSFile / TLSConfig","tcpx.go"),("newListener","tls.go")],
["handler invocations, bytes received by plaintext clients, echo over TLS"])

p("C22","Configured deadlines are applied to every connection",
"A deadline, read deadline or write deadline set on the server before it starts applies to every connection it accepts, alone or combined (a read or write deadline, where set, takes precedence over the overall one for its direction): once the deadline for reading has passed a waiting connection is ended without its pending input being served, and once the deadline for writing has passed replies fail with an error and send nothing. Deadlines in the future do not disturb traffic, and changing a deadline through a context affects that connection only.",
["configurations","histories"],"all combinations of the three server settings and per-context overrides, framed and raw servers",
"No test sets a deadline.",
["tcpx.go","context.go"],
[("SetDeadline / SetReadDeadline / SetWriteDeadline","tcpx.go"),("per-connection application","tcpx.go ListenAndServeTCP, ListenAndServeRaw"),("Context.Set*Deadline","context.go")],
["handler invocations and reply errors under past and far-future deadlines"])

p("C23","Exit hooks run once, in order, before a signalled exit",
"When the process receives an interrupt, terminate or quit signal after BeforeExit was called (once in the process), every hook given to it runs exactly once in the order given and completes before the process exits with status 0. The server keeps serving until then.",
["fault_sequences","schedules"],"each handled signal at any moment, under traffic, any number of hooks",
"Tests register hooks but never signal the process.",
["tcpx.go"],
[("BeforeExit","tcpx.go")],
["hook trace and exit status of a signalled child process"])

p("C24","A context identifies its peer correctly",
"For every connection or datagram the context reports the transport it came over and the peer's IP address, for IPv4 and IPv6 peers (IPv6 loopback is reported as 127.0.0.1), so that two different peers are never reported as one and none is mistaken for the local host.",
["inputs"],"all peer addresses, TCP, TLS, UDP",
"Tests print the client IP of a loopback connection.",
["context.go"],
[("ClientIP / Network / ConnectionProtocolType","context.go")],
["ClientIP and Network against the peer address known to the client"])

p("C25","A slow handler or peer holds up nobody else",
"A middleware, handler, OnClose or heartbeat-loss callback that runs long or never returns, and a peer that stops reading or sends half a message or half a batch, hold up only themselves: meanwhile every other message on the same connection that is not in the same piped batch is handled, other connections and datagrams are served on every address, new connections are accepted, pool operations complete, connections can be closed, and the server can be stopped and started. Handlers held up go on when released and their replies arrive. (OnConnect callbacks are excluded.)",
["schedules","fault_sequences","configurations"],"every kind and number of obstacles on every transport, probed at any moment",
"Tests have handlers that return at once and peers that read.",
["tcpx.go","context.go","client-pool.go"],
[("one goroutine per message, batch, datagram and callback","tcpx.go handleMiddleware / handlePipe callers"),("pool locking","client-pool.go"),("Stop / CloseConn","tcpx.go, context.go")],
["probes of every address, connection and operation while obstacles are in place; counters of held-up and released handlers"])

p("C26","The client helpers send exactly what they are asked to, or nothing",
"WriteJSON, PipeJSON and TCPCallOnceJSON put on the connection exactly the messages they are given, in order, as well-formed blocks (a batch announced by its first message with its exact length), each call's bytes contiguous however many goroutines send on the connection at once; when the arguments cannot be sent (odd count, message id missing, of another type or beyond 32 bits, a body that cannot be encoded, at any position) they return an error and send no byte, and when the connection fails they return an error. WriteConn writes every byte of its buffer exactly once even if the connection takes it in pieces. TCPCallOnceJSON delivers its message exactly once and leaves no connection behind; Recv and BindJSON give back the reply the server sent. None of them panics or changes its arguments.",
["inputs","schedules","fault_sequences"],"all ids, bodies, batch sizes, wrong arguments and their positions; all points at which the connection fails or shortens a write; concurrent senders; TCP, unix and TLS",
"PipeJSON has no test; WriteJSON and TCPCallOnceJSON are called once with a correct argument and nobody looks at the bytes.",
["utils.go","packx.go"],
[("WriteJSON / PipeJSON / TCPCallOnceJSON / WriteConn / TCPConnect / Recv / BindJSON","utils.go"),("PackWithMarshaller","packx.go")],
["bytes recorded on the connection, parsed by an independent decoder","messages handled and connections closed by a live server"])

p("C27","Servers in one process do not affect one another",
"Any number of TcpX instances in one process, of any transports and options, behave as if each were alone: a message is handled only by the server it was sent to, with that server's routes, middleware, marshaller, size limit, deadlines and callbacks; a user name resolves only to that server's own connections; heartbeat and auth rules close only connections of the server they are set on; and stopping, restarting or starting one server, closing its connections or going online and offline on it changes nothing on another.",
["configurations","histories","schedules"],"all mixes of servers and options, all histories of operations on them, with traffic on every server throughout",
"Every test starts one server, most in a process that ends right after it.",
["tcpx.go","client-pool.go","context.go","mux.go","url-mux.go","packx.go"],
[("per-instance state: Mux, pool, properties, closeAllSignal, limits, deadlines, heartbeat and auth settings","tcpx.go"),("NewTcpX / WithBuiltInPool","tcpx.go"),("contexts and their pool reference","context.go, client-pool.go")],
["every server's answers, pool deliveries, callbacks and connection ends after each operation on another server"])

p("C28","Listening fails cleanly or goes on",
"A call to ListenAndServe, ListenAndServeTCP, ListenAndServeUDP or ListenAndServeRaw that cannot listen (unknown network, invalid address, address held by someone else or by the server itself) returns an error at once, without panicking, and changes nothing: what the server already serves goes on, a stopped server stays stopped, whoever holds the address keeps it, later Stop and Start concern only the addresses that were listening, and the same call serves once the address is free. Start serves the addresses it can get when others were taken meanwhile, and those again at a later Stop and Start when they are free. A listen call that succeeded returns only after Stop: a shortage of file descriptors does not end it, established connections are served meanwhile, and connections waiting to be accepted and new ones are served once descriptors are available.",
["inputs","fault_sequences","histories"],"all listen calls, networks, causes of failure and phases of the server; addresses taken and freed between stops and starts; shortages of descriptors at any time",
"No test makes a listen call that fails, takes an address away or runs out of descriptors.",
["tcpx.go","tls.go"],
[("ListenAndServe / ListenAndServeTCP / ListenAndServeUDP / ListenAndServeRaw, accept loops","tcpx.go"),("newListener","tls.go"),("fillProperty, Stop, Start","tcpx.go")],
["errors returned by listen calls","answers on every address of the server, of the other holders and of addresses never served","state reported by the server"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
