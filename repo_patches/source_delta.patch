From 395dad26f60cfe2be1dfa4e13493e9610d0e93d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:12 +0000
Subject: [PATCH 01/34] fix: return an error instead of panicking on blocks
 whose header or body length is out of range

---
 packx.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/packx.go b/packx.go
index a94f46c..377de77 100644
--- a/packx.go
+++ b/packx.go
@@ -219,10 +219,13 @@ func HeaderBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if headerLen < 0 {
+		return nil, errors.New(fmt.Sprintf("header length should not be negative but got %d", headerLen))
+	}
 	if len(stream) < 16+int(headerLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)))
 	}
-	header := stream[16 : 16+headerLen]
+	header := stream[16 : 16+int(headerLen)]
 	return header, nil
 }
 
@@ -260,10 +263,13 @@ func BodyBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if headerLen < 0 || bodyLen < 0 {
+		return nil, errors.New(fmt.Sprintf("header length and body length should not be negative but got %d, %d", headerLen, bodyLen))
+	}
 	if len(stream) < 16+int(headerLen)+int(bodyLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)+int(bodyLen)))
 	}
-	body := stream[16+headerLen : 16+headerLen+bodyLen]
+	body := stream[16+int(headerLen) : 16+int(headerLen)+int(bodyLen)]
 	return body, nil
 }
 
@@ -360,15 +366,24 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 		marshaller = JsonMarshaller{}
 	}
 	var e error
+	if len(stream) < 16 {
+		return Message{}, errors.New(fmt.Sprintf("require stream length not less than 16 but got %d", len(stream)))
+	}
 	// 包长
 	length := binary.BigEndian.Uint32(stream[0:4])
-	stream = stream[0 : length+4]
+	if length < 12 || uint64(len(stream)) < 4+uint64(length) {
+		return Message{}, errors.New(fmt.Sprintf("bad stream length flag %d, got stream of length %d", length, len(stream)))
+	}
+	stream = stream[0 : 4+int(length)]
 	// messageID
 	messageID := binary.BigEndian.Uint32(stream[4:8])
 	// header长度
 	headerLength := binary.BigEndian.Uint32(stream[8:12])
 	// body长度
 	bodyLength := binary.BigEndian.Uint32(stream[12:16])
+	if uint64(len(stream)) < 16+uint64(headerLength)+uint64(bodyLength) {
+		return Message{}, errors.New(fmt.Sprintf("header length %d and body length %d exceed stream length %d", headerLength, bodyLength, len(stream)))
+	}
 	// header
 	var header map[string]interface{}
 	if headerLength != 0 {
-- 
2.43.0


From b6339736ca4b32cf0bbe5369d1fe094c6544cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:12 +0000
Subject: [PATCH 02/34] fix: reject a negative message length instead of
 panicking (it also bypassed the size limit)

---
 packx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packx.go b/packx.go
index 377de77..76f5858 100644
--- a/packx.go
+++ b/packx.go
@@ -460,6 +460,9 @@ func UnpackToBlockFromReader(reader io.Reader) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("bad message length %d", length)
+	}
 	var content = make([]byte, length, length)
 	if e := readUntil(reader, content); e != nil {
 		if e == io.EOF {
@@ -487,6 +490,9 @@ func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int)
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("bad message length %d", length)
+	}
 
 	if length > int32(maxByTe) {
 		return nil, errorx.NewFromStringf("recv message beyond max byte length limit(%d), got (%d)", maxByTe, length)
-- 
2.43.0


From 9de35df48e7c3388fdeccd51f844a23c426b2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:13 +0000
Subject: [PATCH 03/34] fix: accept blocks with a zero-length header, as the
 protocol document allows

---
 packx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packx.go b/packx.go
index 76f5858..5bcd514 100644
--- a/packx.go
+++ b/packx.go
@@ -241,6 +241,10 @@ func HeaderOf(stream []byte) (map[string]interface{}, error) {
 	if e != nil {
 		return nil, errorx.Wrap(e)
 	}
+	// header is optional, a block with headerLength 0 has no header
+	if len(headerBytes) == 0 {
+		return nil, nil
+	}
 	e = json.Unmarshal(headerBytes, &header)
 	if e != nil {
 		return nil, errorx.Wrap(e)
-- 
2.43.0


From c7a96b63c75d8a56d06d280b758849b78d04b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:13 +0000
Subject: [PATCH 04/34] fix: keep bytes a reader returns together with an
 error, the last message of a TLS stream was lost

---
 packx.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packx.go b/packx.go
index 5bcd514..8bdf7a9 100644
--- a/packx.go
+++ b/packx.go
@@ -519,17 +519,18 @@ func readUntil(reader io.Reader, buf []byte) error {
 	}
 	var offset int
 	for {
+		// a reader may return its last bytes together with an error
 		n, e := reader.Read(buf[offset:])
+		offset += n
+		if offset >= len(buf) {
+			break
+		}
 		if e != nil {
 			if e == io.EOF {
 				return e
 			}
 			return errorx.Wrap(e)
 		}
-		offset += n
-		if offset >= len(buf) {
-			break
-		}
 	}
 	return nil
 }
-- 
2.43.0


From 065672bb3d1a663d4325bea17c40fbb4650a1b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:14 +0000
Subject: [PATCH 05/34] fix: give each request its own request-scoped storage,
 it shared the connection's and leaked routing across messages

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 3c656df..d5e045e 100644
--- a/context.go
+++ b/context.go
@@ -89,7 +89,7 @@ func copyContext(ctx Context) *Context {
 		Addr:       ctx.Addr,
 		//UDPSession:           ctx.UDPSession,
 		PerConnectionContext: ctx.PerConnectionContext,
-		PerRequestContext:    ctx.PerConnectionContext,
+		PerRequestContext:    &sync.Map{},
 		Packx:                ctx.Packx,
 		Stream:               ctx.Stream,
 		offset:               ctx.offset,
-- 
2.43.0


From cb74106dad01cdec485e94550dcc5fa5869961d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:44 +0000
Subject: [PATCH 06/34] fix: closing a connection no longer removes the pool
 entry of the connection that took over its username

---
 client-pool.go | 12 ++++++++++++
 context.go     | 11 ++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/client-pool.go b/client-pool.go
index 9fd3efd..bcb552e 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -48,6 +48,18 @@ func (cp *ClientPool) Offline(username string) {
 	}
 }
 
+// Remove username from pool only when its entry still belongs to ctx's connection.
+// A username might have been taken over by another connection since ctx called Online.
+func (cp *ClientPool) offlineConn(username string, ctx *Context) {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	current := cp.Clients[username]
+	if current == nil || !current.sameConn(ctx) {
+		return
+	}
+	delete(cp.Clients, username)
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/context.go b/context.go
index d5e045e..1a16643 100644
--- a/context.go
+++ b/context.go
@@ -168,10 +168,19 @@ func (ctx *Context) Offline() error {
 	if !ok {
 		return errors.New("offline username  empty, did you call c.Online(username string) yet")
 	}
-	ctx.poolRef.Offline(username)
+	ctx.poolRef.offlineConn(username, ctx)
 	return nil
 }
 
+// Whether two contexts belong to the same connection.
+// userState is shared among all contexts of a tcp connection. Udp has no connection, its contexts are not distinguished.
+func (ctx *Context) sameConn(another *Context) bool {
+	if ctx.Conn == nil || another.Conn == nil {
+		return ctx.Conn == nil && another.Conn == nil
+	}
+	return ctx.userState == another.userState
+}
+
 // New a context.
 // This is used for new a context for tcp server.
 func NewContext(conn net.Conn, marshaller Marshaller) *Context {
-- 
2.43.0


From 03ddfb343c3fe1589533e85c0c4d29fe640aa403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:44 +0000
Subject: [PATCH 07/34] fix: Any with several handlers registered, and ran,
 them twice

---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index aa3e907..dbe2ad3 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -347,9 +347,6 @@ func (tcpx *TcpX) Any(urlPattern string, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.urlMux.AddURLPatternHandler(urlPattern, handlers...)
-	}
 
 	//f := handlers[len(handlers)-1]
 	//if tcpx.Mux == nil {
-- 
2.43.0


From a71db77f98f856921fbddccde25bccaacde7a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:45 +0000
Subject: [PATCH 08/34] fix: Use of a key that was UnUsed takes effect again

---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index dbe2ad3..b1848fa 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -281,7 +281,7 @@ func (tcpx *TcpX) Use(mids ...interface{}) {
 		middlewareAnchor, ok := tcpx.Mux.MiddlewareAnchorMap[middlewareKey]
 		if ok {
 			middlewareAnchor.callUse(tcpx.Mux.CurrentAnchorIndex())
-			tcpx.Mux.MiddlewareAnchorMap[middlewareKey] = middlewareAnchor
+			tcpx.Mux.ReplaceMiddlewareAnchor(middlewareAnchor)
 		} else {
 			var middlewareAnchor MiddlewareAnchor
 			middlewareAnchor.Middleware = middleware
-- 
2.43.0


From 061da03eeac08ac5514ca2318014b837e2a06a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:45 +0000
Subject: [PATCH 09/34] fix: message id 0 skipped all middleware when heartbeat
 or auth was not configured

---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index b1848fa..f37ff86 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -896,12 +896,12 @@ func handleMessageIDHandlers(ctx *Context, tcpx *TcpX) {
 		Logger.Println(fmt.Sprintf("messageID %d handler not found", messageID))
 		return
 	}
-	if messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
+	if tcpx.HeartBeatOn && messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
 		handler(ctx)
 		return
 	}
 
-	if messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
+	if tcpx.auth && messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
 		handler(ctx)
 		return
 	}
-- 
2.43.0


From f6aa757a925fbcb56a01941685b076e119425c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:45 +0000
Subject: [PATCH 10/34] fix: a deadline set by SetDeadline was cleared by unset
 read and write deadlines

---
 tcpx.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index f37ff86..d403302 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -443,9 +443,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 		}
 
 		// SetDeadline
-		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		tcpx.applyDeadlines(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -521,9 +519,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 		}
 
 		// SetDeadline
-		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		tcpx.applyDeadlines(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -605,6 +601,24 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	return nil
 }
 
+// Apply deadlines set by srv.SetDeadline, srv.SetReadDeadline, srv.SetWriteDeadline.
+// Those not set must not be applied, a zero read/write deadline would clear the one set by SetDeadline.
+func (tcpx *TcpX) applyDeadlines(conn interface {
+	SetDeadline(t time.Time) error
+	SetReadDeadline(t time.Time) error
+	SetWriteDeadline(t time.Time) error
+}) {
+	if !tcpx.deadLine.IsZero() {
+		conn.SetDeadline(tcpx.deadLine)
+	}
+	if !tcpx.readDeadLine.IsZero() {
+		conn.SetReadDeadline(tcpx.readDeadLine)
+	}
+	if !tcpx.writeDeadLine.IsZero() {
+		conn.SetWriteDeadline(tcpx.writeDeadLine)
+	}
+}
+
 // set srv state running
 func (tcpx *TcpX) openState() {
 	tcpx.pLock.Lock()
@@ -642,9 +656,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	tcpx.openState()
 
-	conn.SetDeadline(tcpx.deadLine)
-	conn.SetReadDeadline(tcpx.readDeadLine)
-	conn.SetWriteDeadline(tcpx.writeDeadLine)
+	tcpx.applyDeadlines(conn)
 
 	// listen to incoming udp packets
 	go func(conn net.PacketConn, tcpx *TcpX) {
-- 
2.43.0


From 70d455a5d8daf518de7d8ab423f7099ad15bd23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:33 +0000
Subject: [PATCH 11/34] fix: a truncated, oversized or badly sized pipe crashed
 the process or desynchronised the stream

---
 tcpx.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index d403302..bc81453 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -575,22 +575,25 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 				if isPipe {
 					// fmt.Println("recv pipe", isPipe, restN)
-					ctxs := make([]*Context, restN+1)
-					ctxs[0] = tmpContext
+					ctxs := make([]*Context, 0, 10)
+					ctxs = append(ctxs, tmpContext)
 					for i := 1; i < restN+1; i++ {
 						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
-							if e == io.EOF {
-								break
+							if e != io.EOF {
+								Logger.Println(e)
 							}
-							Logger.Println(e)
 							break
 						}
 						tmpContext := copyContext(*ctx)
-						ctxs[i] = tmpContext
+						ctxs = append(ctxs, tmpContext)
 					}
 
 					go handlePipe(ctxs, tcpx)
+					if e != nil {
+						// pipe is cut short, stream is ended or can't be understood any more
+						break
+					}
 				} else {
 					go handleMiddleware(tmpContext, tcpx)
 				}
@@ -1267,6 +1270,9 @@ func isPipe(block []byte) (bool, int, error) {
 		return false, 0, errorx.NewFromStringf("bad pipe args length, should format as 'enable:<length>' but got %s,\n %v", arr[1], err)
 	}
 	if arr[0] == "enable" {
+		if length < 1 {
+			return false, 0, errorx.NewFromStringf("bad pipe args length, should be at least 1 but got %d", length)
+		}
 		return true, length - 1, nil
 	}
 	return false, 0, nil
-- 
2.43.0


From 3430fd9053f27c79580e6fc452d9c1edee5d84e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:33 +0000
Subject: [PATCH 12/34] fix: ClientIP reported every IPv6 peer as 127.0.0.1

---
 context.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/context.go b/context.go
index 1a16643..a2db62c 100644
--- a/context.go
+++ b/context.go
@@ -544,15 +544,14 @@ func (ctx Context) ClientIP() string {
 		//case "kcp":
 		//	clientAddr = ctx.UDPSession.RemoteAddr().String()
 	}
-	arr := strings.Split(clientAddr, ":")
-	// ipv4
-	if len(arr) == 2 {
-		return arr[0]
-	}
-	// [::1] localhost
-	if strings.Contains(clientAddr, "[") && strings.Contains(clientAddr, "]") {
-		return "127.0.0.1"
+	if host, _, e := net.SplitHostPort(clientAddr); e == nil {
+		// [::1] localhost
+		if host == "::1" {
+			return "127.0.0.1"
+		}
+		return host
 	}
+	arr := strings.Split(clientAddr, ":")
 	// ivp6
 	return strings.Join(arr[:len(arr)-1], ":")
 }
-- 
2.43.0


From dfb68f2191a60aa47b564b43738ed1eaa6bd6556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:34 +0000
Subject: [PATCH 13/34] fix: Message.Set panicked on a message without header

---
 message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/message.go b/message.go
index 47bcdf3..3ddda5e 100644
--- a/message.go
+++ b/message.go
@@ -50,5 +50,8 @@ func (msg Message) Get(key string) interface{} {
 // if you should never operate the header in multiple goroutines, it's better to design a context yourself per request
 // rather than straightly use message.Header.
 func (msg *Message) Set(k string, v interface{}) {
+	if msg.Header == nil {
+		msg.Header = make(map[string]interface{})
+	}
 	msg.Header[k] = v
 }
-- 
2.43.0


From d268a29fcc964c32e6dab3a4c7d73c22333db986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:34 +0000
Subject: [PATCH 14/34] fix: repeated heartbeats and auth verdicts blocked
 their handlers forever

---
 context.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index a2db62c..208a207 100644
--- a/context.go
+++ b/context.go
@@ -645,7 +645,11 @@ func (ctx *Context) HeartBeatChan() chan int {
 
 // RecvHeartBeat
 func (ctx *Context) RecvHeartBeat() {
-	ctx.HeartBeatChan() <- 1
+	select {
+	case ctx.HeartBeatChan() <- 1:
+	default:
+		// a heartbeat is already waiting to be seen
+	}
 }
 
 // Send to another conn index via username.
@@ -679,11 +683,19 @@ func (ctx *Context) AuthChan() <-chan int {
 
 func (ctx *Context) RecvAuthPass() {
 	const PASS = 1
-	ctx.recvAuth <- PASS
+	select {
+	case ctx.recvAuth <- PASS:
+	default:
+		// a verdict is already given
+	}
 }
 func (ctx *Context) RecvAuthDeny() {
 	const DENY = -1
-	ctx.recvAuth <- DENY
+	select {
+	case ctx.recvAuth <- DENY:
+	default:
+		// a verdict is already given
+	}
 }
 
 // Decode ctx.Stream.Header["Router-Type"], expected 'MESSAGE_ID', 'URL_PATTERN'
-- 
2.43.0


From f84796f4cca30b3509e0c6f249846dd872f17bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:34 +0000
Subject: [PATCH 15/34] fix: watcher and handler could create two different
 heartbeat channels for one connection

---
 context.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/context.go b/context.go
index 208a207..aea670b 100644
--- a/context.go
+++ b/context.go
@@ -629,18 +629,14 @@ func (ctx *Context) RawStream() ([]byte, error) {
 func (ctx *Context) HeartBeatChan() chan int {
 	channel, ok := ctx.GetCtxPerConn("tcpx-heart-beat-channel")
 	if !ok {
-		channel = make(chan int, 1)
-		ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
-		return channel.(chan int)
-	} else {
-		tmp, ok := channel.(chan int)
-		if !ok {
-			channel = make(chan int, 1)
-			ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
-			return channel.(chan int)
+		// watcher and handlers may ask for it at the same time, all must get the same one
+		scope := ctx.PerConnectionContext
+		if ctx.ConnectionProtocolType() == "udp" {
+			scope = ctx.PerRequestContext
 		}
-		return tmp
+		channel, _ = scope.LoadOrStore("tcpx-heart-beat-channel", make(chan int, 1))
 	}
+	return channel.(chan int)
 }
 
 // RecvHeartBeat
-- 
2.43.0


From d76dc29139f71637f85adc2440891ae7870d63f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:35 +0000
Subject: [PATCH 16/34] fix: data races on the connection's context (stream,
 raw reader and writer, by-value receivers)

---
 context.go |  6 +++---
 tcpx.go    | 11 ++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/context.go b/context.go
index aea670b..78b7035 100644
--- a/context.go
+++ b/context.go
@@ -529,12 +529,12 @@ func (ctx *Context) replyBuf(buf []byte) (e error) {
 	return nil
 }
 
-func (ctx Context) Network() string {
+func (ctx *Context) Network() string {
 	return ctx.ConnectionProtocolType()
 }
 
 // client ip
-func (ctx Context) ClientIP() string {
+func (ctx *Context) ClientIP() string {
 	var clientAddr string
 	switch ctx.ConnectionProtocolType() {
 	case "tcp":
@@ -695,7 +695,7 @@ func (ctx *Context) RecvAuthDeny() {
 }
 
 // Decode ctx.Stream.Header["Router-Type"], expected 'MESSAGE_ID', 'URL_PATTERN'
-func (ctx Context) RouterType() string {
+func (ctx *Context) RouterType() string {
 	rt, cached := ctx.routerType()
 	if !cached {
 		ctx.setRouterType(rt)
diff --git a/tcpx.go b/tcpx.go
index bc81453..473015d 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -446,6 +446,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 		tcpx.applyDeadlines(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
+		ctx.InitReaderAndWriter()
 
 		if tcpx.builtInPool {
 			ctx.poolRef = tcpx.pool
@@ -471,8 +472,6 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 				defer tcpx.OnClose(ctx)
 			}
 
-			ctx.InitReaderAndWriter()
-
 			tmpContext := copyContext(*ctx)
 			handleRaw(tmpContext, tcpx)
 		}(ctx, tcpx)
@@ -554,9 +553,9 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			if tcpx.OnClose != nil {
 				defer tcpx.OnClose(ctx)
 			}
-			var e error
 			for {
-				ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
+				// ctx is shared with watchers and user goroutines, only the request's copy owns the stream
+				stream, e := ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 				if e != nil {
 					if e == io.EOF {
 						break
@@ -565,6 +564,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 					break
 				}
 				tmpContext := copyContext(*ctx)
+				tmpContext.Stream = stream
 
 				isPipe, restN, e := isPipe(tmpContext.Stream)
 				if e != nil {
@@ -578,7 +578,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 					ctxs := make([]*Context, 0, 10)
 					ctxs = append(ctxs, tmpContext)
 					for i := 1; i < restN+1; i++ {
-						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
+						stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
 							if e != io.EOF {
 								Logger.Println(e)
@@ -586,6 +586,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 							break
 						}
 						tmpContext := copyContext(*ctx)
+						tmpContext.Stream = stream
 						ctxs = append(ctxs, tmpContext)
 					}
 
-- 
2.43.0


From 63721d061baf11322b866242412ebe093146d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:31 +0000
Subject: [PATCH 17/34] fix: Stop(false) closed established connections when
 heartbeat mode is on

---
 tcpx.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 473015d..d729d3a 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1050,10 +1050,6 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 			var times int
 		L:
 			for {
-				if tcpx.State() == STATE_STOP {
-					ctx.CloseConn()
-					break L
-				}
 				select {
 				case <-ctx.HeartBeatChan():
 					times = 0
-- 
2.43.0


From 9e0b643ccb215ea86df44520ea9ccab711d11e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:32 +0000
Subject: [PATCH 18/34] fix: Stop left listeners open unless their network was
 named tcp or udp

---
 tcpx.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index d729d3a..73df6cf 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1158,12 +1158,13 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	func() {
 		tcpx.pLock.Lock()
 		defer tcpx.pLock.Unlock()
-		for i, v := range tcpx.properties {
-			switch v.Network {
-			case "kcp", "tcp":
-				tcpx.properties[i].Listener.(net.Listener).Close()
-			case "udp":
-				tcpx.properties[i].Listener.(net.PacketConn).Close()
+		for _, v := range tcpx.properties {
+			// network name may be tcp4, tcp6, unix, udp4 ... as well
+			switch l := v.Listener.(type) {
+			case net.Listener:
+				l.Close()
+			case net.PacketConn:
+				l.Close()
 			}
 		}
 	}()
-- 
2.43.0


From a436c83734b2b5101d6f1551b755332897177c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:32 +0000
Subject: [PATCH 19/34] fix: Stop(true) closes all connections in every
 configuration, once, and not those of a later restart

---
 client-pool.go |  9 +++++
 tcpx.go        | 92 ++++++++++++++++++++++++++------------------------
 2 files changed, 56 insertions(+), 45 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index bcb552e..628bb05 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -60,6 +60,15 @@ func (cp *ClientPool) offlineConn(username string, ctx *Context) {
 	delete(cp.Clients, username)
 }
 
+// Remove all usernames from pool
+func (cp *ClientPool) clear() {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	for k := range cp.Clients {
+		delete(cp.Clients, k)
+	}
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/tcpx.go b/tcpx.go
index 73df6cf..3d0f3ac 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -84,7 +84,7 @@ type TcpX struct {
 
 	// external for broadcast
 	withSignals    bool
-	closeAllSignal chan int // used to close all connection's spying goroutines, srv instance controls it
+	closeAllSignal chan int // used to close all connection's spying goroutines, srv instance controls it, guarded by pLock
 
 	// external for handle any stream
 	// only support tcp/kcp
@@ -112,6 +112,8 @@ func NewTcpX(marshaller Marshaller) *TcpX {
 		properties: make([]*PropertyCache, 0, 10),
 		pLock:      &sync.RWMutex{},
 		state:      2,
+
+		closeAllSignal: make(chan int, 1),
 	}
 }
 
@@ -172,7 +174,6 @@ func (tcpx *TcpX) SetWriteDeadline(t time.Time) {
 // closeAllSignal - close all connection and remove them from the built-in pool
 func (tcpx *TcpX) WithBroadCastSignal(yes bool) *TcpX {
 	tcpx.withSignals = yes
-	tcpx.closeAllSignal = make(chan int, 1)
 	return tcpx
 }
 
@@ -430,6 +431,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 	tcpx.fillProperty(network, addr, listener)
 
 	defer listener.Close()
+	closeAllSignal := tcpx.currentCloseAllSignal()
 	tcpx.openState()
 	for {
 
@@ -456,8 +458,8 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 			tcpx.OnConnect(ctx)
 		}
 
-		go broadcastSignalWatch(ctx, tcpx)
-		go heartBeatWatch(ctx, tcpx)
+		go broadcastSignalWatch(ctx, closeAllSignal)
+		go heartBeatWatch(ctx, tcpx, closeAllSignal)
 
 		go func(ctx *Context, tcpx *TcpX) {
 			defer func() {
@@ -505,6 +507,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	tcpx.fillProperty(network, addr, listener)
 
 	defer listener.Close()
+	closeAllSignal := tcpx.currentCloseAllSignal()
 	tcpx.openState()
 	for {
 
@@ -530,15 +533,13 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			tcpx.OnConnect(ctx)
 		}
 
-		if tcpx.withSignals {
-			go broadcastSignalWatch(ctx, tcpx)
-		}
+		go broadcastSignalWatch(ctx, closeAllSignal)
 
 		if tcpx.HeartBeatOn {
-			go heartBeatWatch(ctx, tcpx)
+			go heartBeatWatch(ctx, tcpx, closeAllSignal)
 		}
 		if tcpx.auth {
-			go authWatch(ctx, tcpx)
+			go authWatch(ctx, tcpx, closeAllSignal)
 		}
 
 		go func(ctx *Context, tcpx *TcpX) {
@@ -632,11 +633,17 @@ func (tcpx *TcpX) openState() {
 
 // set srv state stopped
 // tcp, udp, kcp will stop for circle and close listener/conn
-func (tcpx *TcpX) stopState() {
+// returns false if srv is already stopped
+func (tcpx *TcpX) stopState() bool {
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
+	if tcpx.state == STATE_STOP {
+		return false
+	}
 	tcpx.state = STATE_STOP
+	return true
 }
+
 func (tcpx *TcpX) State() int {
 	tcpx.pLock.RLock()
 	defer tcpx.pLock.RUnlock()
@@ -658,6 +665,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	tcpx.fillProperty(network, addr, conn)
 
+	closeAllSignal := tcpx.currentCloseAllSignal()
 	tcpx.openState()
 
 	tcpx.applyDeadlines(conn)
@@ -694,9 +702,9 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 			}
 			ctx := NewUDPContext(conn, addr, tcpx.Packx.Marshaller)
 
-			go broadcastSignalWatch(ctx, tcpx)
+			go broadcastSignalWatch(ctx, closeAllSignal)
 
-			go heartBeatWatch(ctx, tcpx)
+			go heartBeatWatch(ctx, tcpx, closeAllSignal)
 			if tcpx.builtInPool {
 				ctx.poolRef = tcpx.pool
 			}
@@ -1037,7 +1045,7 @@ func handleRaw(ctx *Context, tcpx *TcpX) {
 // - tcpx.closeAllSignal: when tcpx srv calls `srv.Stop()`, closeAllSignal will be closed and stop this watching goroutine.
 // - ctx.recvEnd: when connection's context calls 'ctx.CloseConn()', recvEnd will be closed and stop this watching goroutine.
 // - time out receiving interval heartbeat pack.
-func heartBeatWatch(ctx *Context, tcpx *TcpX) {
+func heartBeatWatch(ctx *Context, tcpx *TcpX, closeAllSignal <-chan int) {
 	if tcpx.HeartBeatOn == true {
 		go func() {
 			defer func() {
@@ -1067,7 +1075,7 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 						return
 					}
 					continue L
-				case <-tcpx.closeAllSignal:
+				case <-closeAllSignal:
 					ctx.CloseConn()
 					return
 				case <-ctx.recvEnd:
@@ -1081,23 +1089,19 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 // Each connection will have this goroutine, it bind relation with tcpx server.
 // tcpx.closeAllSignal: when tcpx srv calls `srv.Stop()`, closeAllSignal will be closed and stop this watching goroutine.
 // ctx.recvEnd: when connection's context calls 'ctx.CloseConn()', recvEnd will be closed and stop this watching goroutine.
-func broadcastSignalWatch(ctx *Context, tcpx *TcpX) {
-	if tcpx.withSignals == true {
-		for {
-			select {
-			case <-tcpx.closeAllSignal:
-				ctx.CloseConn()
-				return
-			case <-ctx.recvEnd:
-				return
-			}
-		}
+func broadcastSignalWatch(ctx *Context, closeAllSignal <-chan int) {
+	select {
+	case <-closeAllSignal:
+		ctx.CloseConn()
+		return
+	case <-ctx.recvEnd:
+		return
 	}
 }
 
 // Each connection will start this as goroutine when tcpx.auth is true.
 // It will start a handler to wait for an auth signal.
-func authWatch(ctx *Context, tcpx *TcpX) {
+func authWatch(ctx *Context, tcpx *TcpX, closeAllSignal <-chan int) {
 	if tcpx.auth {
 		select {
 		case <-time.After(tcpx.authDeadline):
@@ -1114,7 +1118,7 @@ func authWatch(ctx *Context, tcpx *TcpX) {
 				ctx.CloseConn()
 				return
 			}
-		case <-tcpx.closeAllSignal:
+		case <-closeAllSignal:
 			ctx.CloseConn()
 			return
 		case <-ctx.recvEnd:
@@ -1148,12 +1152,10 @@ func (tcpx *TcpX) BeforeExit(f ...func()) {
 // listener, but also kill all connections(stops their net.Conn, stop all sub-routine, clear the pool)
 func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	fmt.Println("graceful stop")
-	if tcpx.State() == STATE_STOP {
+	if !tcpx.stopState() {
 		return errors.New("already stopped")
 	}
 
-	tcpx.stopState()
-
 	// close all listener
 	func() {
 		tcpx.pLock.Lock()
@@ -1177,26 +1179,26 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 }
 
 func (tcpx *TcpX) closeAllConnection() {
-	if tcpx.withSignals == true {
+	func() {
+		tcpx.pLock.Lock()
+		defer tcpx.pLock.Unlock()
 		close(tcpx.closeAllSignal)
-	} else {
-		if tcpx.pool != nil {
-			oldPool := tcpx.pool
-			go func() {
-				oldPool.m.Lock()
-				defer oldPool.m.Unlock()
-
-				for k, _ := range oldPool.Clients {
-					oldPool.Clients[k].CloseConn()
-					delete(oldPool.Clients, k)
-				}
-			}()
+		// connections accepted by a restarted server must not see this signal
+		tcpx.closeAllSignal = make(chan int, 1)
+	}()
 
-			tcpx.pool = NewClientPool()
-		}
+	if tcpx.pool != nil {
+		tcpx.pool.clear()
 	}
 }
 
+// signal of closing all connections, valid until next srv.Stop(true)
+func (tcpx *TcpX) currentCloseAllSignal() <-chan int {
+	tcpx.pLock.RLock()
+	defer tcpx.pLock.RUnlock()
+	return tcpx.closeAllSignal
+}
+
 // Graceful start an existed tcpx srv, former server is stopped by tcpX.Stop()
 func (tcpx *TcpX) Start() error {
 	if tcpx.State() == STATE_RUNNING {
-- 
2.43.0


From 10256710097546ac407bcf8e6829ce02aff04849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:33 +0000
Subject: [PATCH 20/34] fix: Start serves every address again, each in its own
 mode

---
 tcpx.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 3d0f3ac..3f956a1 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -102,6 +102,9 @@ type PropertyCache struct {
 	// only when network is 'tcp','kcp', Listener can assert to net.Listener.
 	// when network is 'udp', it can assert to net.PackConn
 	Listener interface{}
+
+	// serves this property again, used by srv.Start()
+	serve func() error
 }
 
 // new an tcpx srv instance
@@ -391,7 +394,7 @@ func (tcpx *TcpX) checkPrepare() {
 	}
 }
 
-func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
+func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}, serve func() error) {
 
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
@@ -404,6 +407,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 	for i, v := range tcpx.properties {
 		if v.Network == network && v.Port == addr {
 			tcpx.properties[i].Listener = listener
+			tcpx.properties[i].serve = serve
 			return
 		}
 	}
@@ -411,6 +415,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 		Network:  network,
 		Port:     addr,
 		Listener: listener,
+		serve:    serve,
 	}
 	tcpx.properties = append(tcpx.properties, prop)
 }
@@ -428,7 +433,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeRaw(network, addr) })
 
 	defer listener.Close()
 	closeAllSignal := tcpx.currentCloseAllSignal()
@@ -504,7 +509,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeTCP(network, addr) })
 
 	defer listener.Close()
 	closeAllSignal := tcpx.currentCloseAllSignal()
@@ -663,7 +668,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	}
 	defer conn.Close()
 
-	tcpx.fillProperty(network, addr, conn)
+	tcpx.fillProperty(network, addr, conn, func() error { return tcpx.ListenAndServeUDP(network, addr, maxBufferSize...) })
 
 	closeAllSignal := tcpx.currentCloseAllSignal()
 	tcpx.openState()
@@ -1205,19 +1210,21 @@ func (tcpx *TcpX) Start() error {
 		return errors.New("already running")
 	}
 
+	tcpx.pLock.RLock()
+	defer tcpx.pLock.RUnlock()
 	for _, v := range tcpx.properties {
-		go func() {
+		go func(network string, addr string, serve func() error) {
 			defer func() {
 				if e := recover(); e != nil {
 					Logger.Println(fmt.Sprintf("panic from '%v' \n %s", e, debug.Stack()))
 				}
 			}()
-			fmt.Println(fmt.Sprintf("graceful restart %s server on %s", v.Network, v.Port))
-			e := tcpx.ListenAndServe(v.Network, v.Port)
+			fmt.Println(fmt.Sprintf("graceful restart %s server on %s", network, addr))
+			e := serve()
 			if e != nil {
 				Logger.Println(fmt.Sprintf("%s \n %s", e.Error(), debug.Stack()))
 			}
-		}()
+		}(v.Network, v.Port, v.serve)
 	}
 	return nil
 }
-- 
2.43.0


From fdb6fe3fe03da1df44018b3049aa83045b456f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:55 +0000
Subject: [PATCH 21/34] fix: udp started two watchers per datagram, heartbeat
 mode closed the server's socket and signals leaked goroutines

---
 tcpx.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 3f956a1..b67f44b 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -670,7 +670,6 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	tcpx.fillProperty(network, addr, conn, func() error { return tcpx.ListenAndServeUDP(network, addr, maxBufferSize...) })
 
-	closeAllSignal := tcpx.currentCloseAllSignal()
 	tcpx.openState()
 
 	tcpx.applyDeadlines(conn)
@@ -707,9 +706,6 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 			}
 			ctx := NewUDPContext(conn, addr, tcpx.Packx.Marshaller)
 
-			go broadcastSignalWatch(ctx, closeAllSignal)
-
-			go heartBeatWatch(ctx, tcpx, closeAllSignal)
 			if tcpx.builtInPool {
 				ctx.poolRef = tcpx.pool
 			}
-- 
2.43.0


From 8b96a17b70d18cd18c411147ded03316c4f6a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:56 +0000
Subject: [PATCH 22/34] fix: ListenAndServeUDP returns bind errors, returns
 after Stop and no longer spins on a closed socket

---
 tcpx.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index b67f44b..4ab6c74 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -664,7 +664,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	conn, err := net.ListenPacket(network, addr)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	defer conn.Close()
 
@@ -674,8 +674,10 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	tcpx.applyDeadlines(conn)
 
+	done := make(chan int)
 	// listen to incoming udp packets
 	go func(conn net.PacketConn, tcpx *TcpX) {
+		defer close(done)
 		defer func() {
 			if e := recover(); e != nil {
 				Logger.Println(fmt.Sprintf("recover from panic %v", e))
@@ -693,7 +695,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 			// global
 			if e != nil {
-				if e == io.EOF {
+				if e == io.EOF || strings.Contains(e.Error(), "use of closed network connection") {
 					break
 				}
 				Logger.Println(e.Error())
@@ -728,9 +730,9 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 		}
 	}(conn, tcpx)
 
-	select {}
+	<-done
 
-	//return nil
+	return nil
 }
 
 func ReadAllUDP(conn net.PacketConn, maxBufferSize ...int) ([]byte, net.Addr, error) {
-- 
2.43.0


From 40431896cf837a104931c5bd6668577adb5f9872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:56 +0000
Subject: [PATCH 23/34] fix: udp dropped no datagram with an undecodable header
 or impossible length before its handler

---
 packx.go | 3 +++
 tcpx.go  | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/packx.go b/packx.go
index 8bdf7a9..0020606 100644
--- a/packx.go
+++ b/packx.go
@@ -141,6 +141,9 @@ func FirstBlockOfBytes(buffer []byte) ([]byte, error) {
 		return nil, errors.New(fmt.Sprintf("require buffer length more than 16 but got %d", len(buffer)))
 	}
 	var length = binary.BigEndian.Uint32(buffer[0:4])
+	if length < 12 {
+		return nil, errors.New(fmt.Sprintf("require message length not less than 12 but got %d", length))
+	}
 	if len(buffer) < 4+int(length) {
 		return nil, errors.New(fmt.Sprintf("require buffer length more than %d but got %d", 4+int(length), len(buffer)))
 
diff --git a/tcpx.go b/tcpx.go
index 4ab6c74..c4b0aa9 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -717,6 +717,11 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 				Logger.Println(e.Error())
 				continue
 			}
+			// as tcp does, a message whose header can't be decoded is not handled
+			if _, e = HeaderOf(ctx.Stream); e != nil {
+				Logger.Println(e.Error())
+				continue
+			}
 			// This function are shared among udp ListenAndServe,tcp ListenAndServe and kcp ListenAndServe.
 			// But there are some important differences.
 			// tcp's context is per-connection scope, some middleware offset and temporary handlers are saved in
-- 
2.43.0


From 87dcad02cff2db4304a9c95a1a0f5f2c6f3f7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:57 +0000
Subject: [PATCH 24/34] fix: BeforeExit could miss a signal that came early

---
 tcpx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index c4b0aa9..ff86069 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1138,14 +1138,15 @@ func authWatch(ctx *Context, tcpx *TcpX, closeAllSignal <-chan int) {
 
 // Before exist do ending jobs
 func (tcpx *TcpX) BeforeExit(f ...func()) {
+	// registered before return and buffered, so that no signal is lost
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 	go func() {
 		defer func() {
 			if e := recover(); e != nil {
 				fmt.Println(fmt.Sprintf("panic from %v", e))
 			}
 		}()
-		ch := make(chan os.Signal)
-		signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 		fmt.Println("receive signal:", <-ch)
 		fmt.Println("prepare to stop server")
 		for _, handler := range f {
-- 
2.43.0


From f1645ef68360f348aeb3158f5e5a6628ed53c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:57 +0000
Subject: [PATCH 25/34] fix: a refused duplicate registration changed the
 handlers of the first one

---
 tcpx.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index ff86069..43dbb89 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -334,15 +334,15 @@ func (tcpx *TcpX) AddHandler(messageID int32, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.AddMessageIDSelfMiddleware(messageID, handlers[:len(handlers)-1]...)
-	}
-
 	f := handlers[len(handlers)-1]
 	if tcpx.Mux == nil {
 		tcpx.Mux = NewMux()
 	}
+	// panics if messageID has its handler, must be ahead of adding its self-related middlewares
 	tcpx.Mux.AddHandleFunc(messageID, f)
+	if len(handlers) > 1 {
+		tcpx.Mux.AddMessageIDSelfMiddleware(messageID, handlers[:len(handlers)-1]...)
+	}
 	var messageIDAnchor = NewMessageIDAnchor(messageID, tcpx.Mux.CurrentAnchorIndex())
 	tcpx.Mux.AddMessageIDAnchor(messageIDAnchor)
 }
@@ -357,9 +357,10 @@ func (tcpx *TcpX) Any(urlPattern string, handlers ...func(ctx *Context)) {
 	//	tcpx.Mux = NewMux()
 	//}
 	//tcpx.Mux.AddHandleFunc(messageID, f)
-	tcpx.Mux.Any(urlPattern, handlers...)
+	// panics if urlPattern has its handlers, must be ahead of adding handlers
 	var messageIDAnchor = NewUrlPatternAnchor(urlPattern, tcpx.Mux.CurrentAnchorIndex())
 	tcpx.Mux.AddURLAnchor(messageIDAnchor)
+	tcpx.Mux.Any(urlPattern, handlers...)
 }
 
 // Start to listen.
-- 
2.43.0


From 75e56dbed1ca643a14a014d97036275c9bb09e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 26/34] fix: a chain of more than 2018 elements was cut as if
 aborted

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 78b7035..bdce624 100644
--- a/context.go
+++ b/context.go
@@ -14,7 +14,7 @@ import (
 
 const CONTEXT_ONLINE = 1
 const CONTEXT_OFFLINE = 2
-const ABORT = 2019
+const ABORT = 1 << 30 // beyond the length of any chain, a chain longer than it would be taken as aborted
 
 // Context has two concurrently safe context:
 // PerConnectionContext is used for connection, once the connection is built ,this is connection scope.
-- 
2.43.0


From f701a5a2aa5bd7b994b0b02c89654bf06b533406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:48 +0000
Subject: [PATCH 27/34] fix: a unixgram server could not be started again, Stop
 left its socket file behind

---
 tcpx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tcpx.go b/tcpx.go
index 43dbb89..790c176 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1177,6 +1177,10 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 				l.Close()
 			case net.PacketConn:
 				l.Close()
+				// unlike a unix listener, it leaves its socket file behind and address can't be served again
+				if v.Network == "unixgram" && v.Port != "" && v.Port[0] != '@' {
+					os.Remove(v.Port)
+				}
 			}
 		}
 	}()
-- 
2.43.0


From 98b9c9885948d127a3e81437fe0d8b71b383c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:45 +0000
Subject: [PATCH 28/34] fix: resetting a request's context after its chain
 raced with goroutines the handler left behind

Every message has a context of its own, so nothing reuses it. The reset replaced its request
storage without synchronisation while such goroutines (replying later, say) still read it.
---
 tcpx.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 790c176..31e51f0 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -913,7 +913,6 @@ func handleOnMessage(ctx *Context, tcpx *TcpX) {
 	if len(ctx.handlers) > 0 {
 		ctx.Next()
 	}
-	ctx.Reset()
 }
 
 // messageID router will be handled here
@@ -971,7 +970,6 @@ func handleMessageIDHandlers(ctx *Context, tcpx *TcpX) {
 	if len(ctx.handlers) > 0 {
 		ctx.Next()
 	}
-	ctx.Reset()
 }
 
 // messageID router will be handled here
@@ -1018,7 +1016,6 @@ func handleURLPatternHandlers(ctx *Context, tcpx *TcpX) {
 	if len(ctx.handlers) > 0 {
 		ctx.Next()
 	}
-	ctx.Reset()
 }
 
 func handlePipe(ctxs []*Context, tcpx *TcpX) {
@@ -1040,7 +1037,6 @@ func handleRaw(ctx *Context, tcpx *TcpX) {
 	if len(ctx.handlers) > 0 {
 		ctx.Next()
 	}
-	ctx.Reset()
 }
 
 // Start a goroutine to watch heartbeat for a connection
-- 
2.43.0


From 9c2a3a544ff5839d579ee6f9616338a959a9972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:19 +0000
Subject: [PATCH 29/34] fix: Any keeps its own copy of the handlers it is given

The slice a caller passes as 'handlers...' was kept as the route's chain, so filling it again for the next route
replaced the handlers of the former one. AddHandler copies already.
---
 url-mux.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/url-mux.go b/url-mux.go
index 511da76..3cfe6be 100644
--- a/url-mux.go
+++ b/url-mux.go
@@ -54,7 +54,8 @@ func (m *URLMux) AddURLPatternHandler(urlPattern string, handlers ... func(c *Co
 
 			m.urlPatternMux[urlPattern] = append(h, handlers...)
 		} else {
-			m.urlPatternMux[urlPattern] = handlers
+			// handlers may be a slice which caller uses again
+			m.urlPatternMux[urlPattern] = append(make([]func(c *Context), 0, len(handlers)), handlers...)
 		}
 
 		r, exist := m.urlRouteInfo[urlPattern]
-- 
2.43.0


From 6ed0549374400b55f29320c7181965850597b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:25 +0000
Subject: [PATCH 30/34] fix: WriteConn repeats the whole buffer after a short
 write

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 3a44053..0d52080 100644
--- a/utils.go
+++ b/utils.go
@@ -99,7 +99,7 @@ func MD5(rawMsg string) string {
 func WriteConn(buf []byte, conn net.Conn) error {
 	var sum = 0
 	for {
-		n, e := conn.Write(buf)
+		n, e := conn.Write(buf[sum:])
 
 		if e != nil {
 			if e == io.EOF {
-- 
2.43.0


From 2b8e539d897a367386622850ece8fe538e049989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:25 +0000
Subject: [PATCH 31/34] fix: PipeJSON panics when a message id is nil

---
 utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 0d52080..9acd976 100644
--- a/utils.go
+++ b/utils.go
@@ -8,7 +8,6 @@ import (
 	"github.com/BurntSushi/toml"
 	"io"
 	"net"
-	"reflect"
 	"strings"
 
 	"github.com/fwhezfwhez/errorx"
@@ -160,7 +159,7 @@ func PipeJSON(conn net.Conn, args ...interface{}) error {
 	for i := 0; i < len(args)-1; i += 2 {
 		messageID, ok := args[i].(int)
 		if !ok {
-			return errorx.NewFromStringf("wrong type, args[%d] should be a int type messageID but got %s", i, reflect.TypeOf(args[i]).Name())
+			return errorx.NewFromStringf("wrong type, args[%d] should be a int type messageID but got %T", i, args[i])
 		}
 		message := args[i+1]
 
-- 
2.43.0


From 29e552be0ca931691d7798820d9b1f99a70b346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:30 +0000
Subject: [PATCH 32/34] fix: PipeJSON and TCPCallOnceJSON send a message id out
 of int32 as another id

---
 utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils.go b/utils.go
index 9acd976..c01db76 100644
--- a/utils.go
+++ b/utils.go
@@ -161,6 +161,9 @@ func PipeJSON(conn net.Conn, args ...interface{}) error {
 		if !ok {
 			return errorx.NewFromStringf("wrong type, args[%d] should be a int type messageID but got %T", i, args[i])
 		}
+		if messageID != int(int32(messageID)) {
+			return errorx.NewFromStringf("args[%d], messageID %d is out of int32", i, messageID)
+		}
 		message := args[i+1]
 
 		var msg Message
@@ -198,6 +201,9 @@ func PipeJSON(conn net.Conn, args ...interface{}) error {
 }
 
 func TCPCallOnceJSON(network string, url string, messageID int, data interface{}) error {
+	if messageID != int(int32(messageID)) {
+		return errorx.NewFromStringf("messageID %d is out of int32", messageID)
+	}
 	conn, e := TCPConnect(network, url)
 	if e != nil {
 		return errorx.Wrap(e)
-- 
2.43.0


From 860f8deeec47086a751f32882d1df0879ec58022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:45 +0000
Subject: [PATCH 33/34] fix: running out of file descriptors ends serving for
 good

---
 tcpx.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tcpx.go b/tcpx.go
index 31e51f0..aa1dab6 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -447,6 +447,11 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 		conn, err := listener.Accept()
 		if err != nil {
 			log.Println(fmt.Sprintf(err.Error()))
+			// running out of file descriptors for a while must not end serving
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				time.Sleep(5 * time.Millisecond)
+				continue
+			}
 			break
 		}
 
@@ -523,6 +528,11 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 		conn, err := listener.Accept()
 		if err != nil {
 			log.Println(fmt.Sprintf(err.Error()))
+			// running out of file descriptors for a while must not end serving
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				time.Sleep(5 * time.Millisecond)
+				continue
+			}
 			break
 		}
 
-- 
2.43.0


From d36992d48b5fc4797a433e92a4bd4fb427fffa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:17 +0000
Subject: [PATCH 34/34] fix: Stop removes the socket file of whoever took a
 unixgram address

---
 tcpx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tcpx.go b/tcpx.go
index aa1dab6..d61dcd3 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1188,6 +1188,8 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 					os.Remove(v.Port)
 				}
 			}
+			// closed only once, its address may belong to someone else when next srv.Start() fails to get it
+			v.Listener = nil
 		}
 	}()
 
-- 
2.43.0

