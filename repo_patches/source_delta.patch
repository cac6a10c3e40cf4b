From 1ab708ab843f3b83d647ff73e2916276b10e3775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:08 +0000
Subject: [PATCH 01/76] fix: a repeated response no longer blocks the receiving
 loop

---
 client.go  | 7 -------
 handler.go | 7 ++++---
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index d44bdb1..51048fb 100644
--- a/client.go
+++ b/client.go
@@ -667,13 +667,6 @@ func (c *Client) deleteSession(seq uint64) *rpcSession {
 	return session
 }
 
-func (c *Client) getSession(seq uint64) (*rpcSession, bool) {
-	c.mux.Lock()
-	session, ok := c.sessionMap[seq]
-	c.mux.Unlock()
-	return session, ok
-}
-
 func (c *Client) clearSession() {
 	c.mux.Lock()
 	for _, sess := range c.sessionMap {
diff --git a/handler.go b/handler.go
index 7fd41e3..b9c2920 100644
--- a/handler.go
+++ b/handler.go
@@ -757,9 +757,10 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 		}
 	case CmdResponse:
 		if !msg.IsAsync() {
-			seq := msg.Seq()
-			session, ok := c.getSession(seq)
-			if ok {
+			// take the session out of the map: only the first response completes the call,
+			// and a repeated one must not block the receiving loop.
+			session := c.deleteSession(msg.Seq())
+			if session != nil {
 				session.done <- msg
 			} else {
 				h.OnSessionMiss(c, msg)
-- 
2.43.0


From 1328bdfe4c9305ac031f87df4f3090ae7d0f30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:18 +0000
Subject: [PATCH 02/76] fix: calls waiting on a sync-write client end when the
 client is closed

closeAndClean only closed chClose for clients with a send queue, so without
AsyncWrite a call on an accepted connection kept waiting for its deadline
after the connection was lost.
---
 client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 51048fb..c6b8e88 100644
--- a/client.go
+++ b/client.go
@@ -520,9 +520,7 @@ func (c *Client) closeAndClean() {
 	c.mux.Unlock()
 
 	c.Conn.Close()
-	if c.chSend != nil {
-		close(c.chClose)
-	}
+	close(c.chClose)
 	if c.onStop != nil {
 		c.onStop(c)
 	}
-- 
2.43.0


From def66ed947f01225d4c1b026429a0456bc737732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:33 +0000
Subject: [PATCH 03/76] fix: every pending async call is told about the
 disconnection

The closures handed to AsyncExecute all captured the same loop variable, so
with several pending calls some callbacks were lost and others ran twice.
---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index c6b8e88..eda26e8 100644
--- a/client.go
+++ b/client.go
@@ -724,6 +724,7 @@ func (c *Client) clearAsyncHandler() {
 	c.asyncHandlerMap = make(map[uint64]*asyncHandler)
 	c.mux.Unlock()
 	for _, ah := range handlers {
+		ah := ah
 		if ah.timer != nil {
 			ah.timer.Stop()
 		}
-- 
2.43.0


From 4ecd08a677942bbb2657ae713fb55d21ea922cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:01 +0000
Subject: [PATCH 04/76] fix: an async call accepted while the client stops
 still gets its callback

The handler was not registered once running was false, yet the message could
still be queued and CallAsync return nil: the callback was never invoked.
---
 client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client.go b/client.go
index eda26e8..67711bd 100644
--- a/client.go
+++ b/client.go
@@ -689,9 +689,7 @@ func (c *Client) dropMessage(msg *Message) {
 
 func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) {
 	c.mux.Lock()
-	if c.running {
-		c.asyncHandlerMap[seq] = ah
-	}
+	c.asyncHandlerMap[seq] = ah
 	c.mux.Unlock()
 }
 
-- 
2.43.0


From f5a8c07b94cef84f307dc0b4146cddd98676129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:32 +0000
Subject: [PATCH 05/76] fix: an async call dropped while reconnecting gets its
 callback

dropMessage forgot the handler of a queued async request without invoking
it, so a CallAsync that had returned nil was never answered, not even by
its timeout.
---
 client.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 67711bd..bf86910 100644
--- a/client.go
+++ b/client.go
@@ -311,6 +311,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
+			c.deleteAsyncHandler(seq)
 			c.dropMessage(msg)
 			err = ErrClientReconnecting
 		}
@@ -682,7 +683,16 @@ func (c *Client) dropMessage(msg *Message) {
 		}
 		c.Handler.OnMessageDropped(c, msg)
 	} else {
-		c.deleteAsyncHandler(msg.Seq())
+		ah, ok := c.getAndDeleteAsyncHandler(msg.Seq())
+		if ok {
+			if ah.timer != nil {
+				ah.timer.Stop()
+			}
+			c.Handler.AsyncExecute(func() {
+				ah.handler(nil, ErrClientReconnecting)
+				putAsyncHandler(ah)
+			})
+		}
 		c.Handler.OnMessageDropped(c, msg)
 	}
 }
-- 
2.43.0


From 1828130abd5771b39f8686d238f1413c74ae8783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:00 +0000
Subject: [PATCH 06/76] fix: a handler without any route answers requests with
 method not found

The not-found route was only created together with the first registered
route, so a peer calling an endpoint with no routes waited for its timeout.
---
 handler.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/handler.go b/handler.go
index b9c2920..afae6d5 100644
--- a/handler.go
+++ b/handler.go
@@ -587,16 +587,7 @@ func (h *handler) handle(method string, cb HandlerFunc, args ...interface{}) {
 	}
 
 	if _, ok := h.routes[""]; !ok {
-		rh := &routerHandler{
-			async:    false,
-			handlers: make([]HandlerFunc, len(h.middles)+1),
-		}
-		copy(rh.handlers, h.middles)
-		rh.handlers[len(h.middles)] = func(ctx *Context) {
-			ctx.Error(ErrMethodNotFound)
-			ctx.Next()
-		}
-		h.routes[""] = rh
+		h.routes[""] = h.defaultNotFound()
 	}
 
 	if _, ok := h.routes[method]; ok && method != "" {
@@ -621,6 +612,20 @@ func (h *handler) handle(method string, cb HandlerFunc, args ...interface{}) {
 	h.routes[method] = rh
 }
 
+// defaultNotFound returns the handlers which answer a request of an unregistered method.
+func (h *handler) defaultNotFound() *routerHandler {
+	rh := &routerHandler{
+		async:    false,
+		handlers: make([]HandlerFunc, len(h.middles)+1),
+	}
+	copy(rh.handlers, h.middles)
+	rh.handlers[len(h.middles)] = func(ctx *Context) {
+		ctx.Error(ErrMethodNotFound)
+		ctx.Next()
+	}
+	return rh
+}
+
 func (h *handler) HandleStream(method string, cb StreamHandlerFunc, args ...interface{}) {
 	if h.streams == nil {
 		h.streams = map[string]*streamHandler{}
@@ -743,11 +748,12 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 				})
 			}
 		} else {
-			if rh, ok = h.routes[""]; ok {
-				ctx := newContext(c, msg, rh.handlers)
-				ctx.Next()
-				h.OnContextDone(ctx)
+			if rh, ok = h.routes[""]; !ok {
+				rh = h.defaultNotFound()
 			}
+			ctx := newContext(c, msg, rh.handlers)
+			ctx.Next()
+			h.OnContextDone(ctx)
 
 			if cmd == CmdRequest {
 				log.Warn("%v OnMessage: invalid Call with method: [%v], no handler", h.LogTag(), method)
-- 
2.43.0


From 21177eff9e3e8b64df2921f33e42086e47e86fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:58 +0000
Subject: [PATCH 07/76] fix: Stream.RecvContext reports EOF instead of
 dereferencing a nil message

---
 stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index f1af279..e560bb4 100644
--- a/stream.go
+++ b/stream.go
@@ -83,7 +83,10 @@ func (s *Stream) Recv(v interface{}) error {
 
 func (s *Stream) RecvContext(ctx context.Context, v interface{}) error {
 	select {
-	case msg := <-s.chData:
+	case msg, ok := <-s.chData:
+		if !ok {
+			return io.EOF
+		}
 		data := msg.Data()
 		err := util.BytesToValue(s.cli.Codec, data, v)
 		s.cli.Handler.OnMessageDone(s.cli, msg)
-- 
2.43.0


From b6809517979f961d308104ec204db94d7512d7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:30 +0000
Subject: [PATCH 08/76] fix: a stream closed early by its acceptor is not
 opened again by late values

Once the acceptor had closed both sides the stream was forgotten, and the
values the opener still sent started the stream handler once more.
---
 handler.go | 2 ++
 stream.go  | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index afae6d5..fcb9ece 100644
--- a/handler.go
+++ b/handler.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/lesismal/arpc/codec"
@@ -799,6 +800,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 				stream = c.newStream(msg.method(), id, false)
 				stream.onMessage(msg)
 				if eof {
+					atomic.StoreInt32(&stream.stateEOF, 1)
 					stream.CloseRecv()
 				}
 				if !sh.async {
diff --git a/stream.go b/stream.go
index e560bb4..e822d07 100644
--- a/stream.go
+++ b/stream.go
@@ -17,6 +17,7 @@ type Stream struct {
 	chData        chan *Message
 	stateRecv     int32
 	stateSend     int32
+	stateEOF      int32
 	stateCloseCnt int32
 }
 
@@ -191,7 +192,11 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 
 func (s *Stream) halfClose() {
 	if atomic.AddInt32(&s.stateCloseCnt, 1) == 2 {
-		s.cli.deleteStream(s.id, s.local)
+		// A remote stream is kept until the peer's EOF, else the values it still
+		// sends would be taken for a new stream.
+		if s.local || atomic.LoadInt32(&s.stateEOF) == 1 {
+			s.cli.deleteStream(s.id, s.local)
+		}
 	}
 }
 
-- 
2.43.0


From 40037dd4e0dca6dcb0fcc9155fe78acd7a0a5b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:10 +0000
Subject: [PATCH 09/76] fix: an accepted stream keeps its own copy of the
 method

The method aliased the first message's buffer, which goes back to the pool
when that message is done: later frames of the stream carried another method.
---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index fcb9ece..11ba0b9 100644
--- a/handler.go
+++ b/handler.go
@@ -797,7 +797,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 		if !ok {
 			sh, ok := h.streams[method]
 			if ok && !local {
-				stream = c.newStream(msg.method(), id, false)
+				stream = c.newStream(msg.Method(), id, false)
 				stream.onMessage(msg)
 				if eof {
 					atomic.StoreInt32(&stream.stateEOF, 1)
-- 
2.43.0


From e05c13c00afaa173bb967a0c7d14d9043f31b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:36 +0000
Subject: [PATCH 10/76] fix: a stream of a lost connection is not continued on
 the next one

clearStream sent the stream's EOF in the background, and with a quick
reconnect it went to the new peer, which took it for a new stream.
---
 client.go | 6 ++----
 stream.go | 9 +++++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index bf86910..d99ee54 100644
--- a/client.go
+++ b/client.go
@@ -783,12 +783,10 @@ func (c *Client) clearStream() {
 	c.streamRemoteMap = make(map[uint64]*Stream)
 	c.mux.Unlock()
 	for _, stream := range streamLocalMap {
-		stream.CloseSend()
-		stream.CloseRecv()
+		stream.abandon()
 	}
 	for _, stream := range streamRemoteMap {
-		stream.CloseSend()
-		stream.CloseRecv()
+		stream.abandon()
 	}
 }
 
diff --git a/stream.go b/stream.go
index e822d07..b7b97b6 100644
--- a/stream.go
+++ b/stream.go
@@ -48,6 +48,15 @@ func (s *Stream) CloseRecv() {
 	}
 }
 
+// abandon closes both sides of a stream whose connection is lost: there is nobody
+// to tell about it, and nothing of it may be sent on the next connection.
+func (s *Stream) abandon() {
+	if atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
+		s.halfClose()
+	}
+	s.CloseRecv()
+}
+
 func (s *Stream) CloseRecvContext(ctx context.Context) {
 	s.CloseRecv()
 }
-- 
2.43.0


From c912255af4e31265b5dc6ae0a03e1f480d88fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:20 +0000
Subject: [PATCH 11/76] fix: a stream of a lost connection cannot send on the
 next one

A stream that had received EOF was no longer in the stream tables, so a
disconnect did not close its sending side and its later values went to the
new peer, where they could even reach another stream with the same id.
---
 client.go | 5 +++++
 stream.go | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/client.go b/client.go
index d99ee54..c7e5469 100644
--- a/client.go
+++ b/client.go
@@ -57,6 +57,9 @@ type Client struct {
 	running      bool
 	reconnecting bool
 
+	// epoch counts the connections lost, it tells what belongs to a former connection.
+	epoch uint32
+
 	mux             sync.Mutex
 	sessionMap      map[uint64]*rpcSession
 	asyncHandlerMap map[uint64]*asyncHandler
@@ -489,6 +492,7 @@ func (c *Client) Restart() error {
 		c.streamLocalMap = make(map[uint64]*Stream)
 		c.streamRemoteMap = make(map[uint64]*Stream)
 		c.values = map[interface{}]interface{}{}
+		atomic.AddUint32(&c.epoch, 1)
 
 		c.initReader()
 		if c.Handler.AsyncWrite() {
@@ -846,6 +850,7 @@ func (c *Client) recvLoop() {
 			}
 
 			c.reconnecting = true
+			atomic.AddUint32(&c.epoch, 1)
 
 			c.Conn.Close()
 			c.clearSession()
diff --git a/stream.go b/stream.go
index b7b97b6..50854c4 100644
--- a/stream.go
+++ b/stream.go
@@ -14,6 +14,7 @@ type Stream struct {
 	cli           *Client
 	method        string
 	local         bool
+	epoch         uint32
 	chData        chan *Message
 	stateRecv     int32
 	stateSend     int32
@@ -158,6 +159,10 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 	if err != nil {
 		return err
 	}
+	if atomic.LoadUint32(&c.epoch) != s.epoch {
+		// the stream's connection is lost
+		return ErrClientReconnecting
+	}
 
 	data := util.ValueToBytes(c.Codec, v)
 	msg := s.newMessage(data, args...)
@@ -224,6 +229,7 @@ func (client *Client) newStream(method string, id uint64, local bool) *Stream {
 		method: method,
 		chData: make(chan *Message, client.Handler.StreamQueueSize()),
 		local:  local,
+		epoch:  atomic.LoadUint32(&client.epoch),
 	}
 	client.mux.Lock()
 	if local {
-- 
2.43.0


From 14ffb0f5e1ca8a705f2655d30942986b5062c54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:43 +0000
Subject: [PATCH 12/76] fix: values read after Stop do not open their stream a
 second time

getStreamAndPushMsg found no stream at all once running was false, so a value
still in the read buffer of a stopped client started the stream handler again.
---
 client.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index c7e5469..4a4e4b4 100644
--- a/client.go
+++ b/client.go
@@ -763,17 +763,15 @@ func (c *Client) deleteStream(id uint64, local bool) {
 
 func (c *Client) getStreamAndPushMsg(id uint64, local, done bool) (stream *Stream, ok bool) {
 	c.mux.Lock()
-	if c.running {
-		var streamMap map[uint64]*Stream
-		if local {
-			streamMap = c.streamLocalMap
-		} else {
-			streamMap = c.streamRemoteMap
-		}
-		stream, ok = streamMap[id]
-		if ok && done {
-			delete(streamMap, id)
-		}
+	var streamMap map[uint64]*Stream
+	if local {
+		streamMap = c.streamLocalMap
+	} else {
+		streamMap = c.streamRemoteMap
+	}
+	stream, ok = streamMap[id]
+	if ok && done {
+		delete(streamMap, id)
 	}
 	c.mux.Unlock()
 	return stream, ok
-- 
2.43.0


From 16c732f96acb6c90d8585c86dad1c3068c16f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:42 +0000
Subject: [PATCH 13/76] fix: a client stopped while a message is handled is
 cleaned up

The receive loop left without closeAndClean when Stop happened during a
handler (or before the loop had started): the disconnected callback did not
run, the server kept the client, and waiting calls and streams hung.
---
 client.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 4a4e4b4..b519099 100644
--- a/client.go
+++ b/client.go
@@ -828,15 +828,16 @@ func (c *Client) recvLoop() {
 			msg, err = c.Handler.Recv(c)
 			if err != nil {
 				log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
-				c.closeAndClean()
-				return
+				break
 			}
 			c.Handler.OnMessage(c, msg)
 		}
+		// reached too when the client was stopped while a message was handled
+		c.closeAndClean()
 	} else {
 		go c.Handler.OnConnected(c)
 
-		for c.running {
+		for {
 		RECV:
 			for {
 				msg, err = c.Handler.Recv(c)
@@ -879,6 +880,7 @@ func (c *Client) recvLoop() {
 				time.Sleep(time.Second)
 			}
 			c.closeAndClean()
+			return
 		}
 	}
 }
-- 
2.43.0


From 9fdcfee40075b6f44d60a07182f3345389d09477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:14 +0000
Subject: [PATCH 14/76] fix: the batch send buffer is not freed twice

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index b519099..e320fd8 100644
--- a/client.go
+++ b/client.go
@@ -935,7 +935,8 @@ func (c *Client) batchSendLoop() {
 	var coders []MessageCoder
 	var buffer = c.Handler.Malloc(2048)[0:0]
 	var sendBufferSize = c.Handler.SendBufferSize()
-	defer c.Handler.Free(buffer)
+	// Append may have replaced, and freed, the first buffer
+	defer func() { c.Handler.Free(buffer) }()
 
 	for {
 		select {
-- 
2.43.0


From 2acbdfd2dc7385797326a306aa81ddef7b445f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:09 +0000
Subject: [PATCH 15/76] fix: a client stopped while it is redialing does not
 keep the new connection

---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index e320fd8..3678b8e 100644
--- a/client.go
+++ b/client.go
@@ -864,7 +864,14 @@ func (c *Client) recvLoop() {
 				log.Info("%v\t%v\tReconnect Trying %v", c.Handler.LogTag(), addr, i)
 				conn, err := c.Dialer()
 				if err == nil {
+					c.mux.Lock()
 					c.Conn = conn
+					running := c.running
+					c.mux.Unlock()
+					if !running {
+						// stopped while dialing, closeAndClean closes the new Conn
+						break
+					}
 
 					c.initReader()
 
-- 
2.43.0


From 89953bf069d3489b76b243de545f6dd924163230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:47 +0000
Subject: [PATCH 16/76] fix: the response to a request of a lost connection is
 not sent on the next one

---
 context.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/context.go b/context.go
index 0f46bab..506090b 100644
--- a/context.go
+++ b/context.go
@@ -7,6 +7,7 @@ package arpc
 import (
 	"math"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -28,6 +29,9 @@ type Context struct {
 	index       int
 	handlers    []HandlerFunc
 	responseErr interface{}
+
+	// epoch of the Client's connection the Message was received on
+	epoch uint32
 }
 
 func (ctx *Context) Release() {
@@ -162,6 +166,11 @@ func (ctx *Context) write(v interface{}, isError bool, timeout time.Duration) er
 		ctx.responseErr = v
 	}
 
+	if atomic.LoadUint32(&cli.epoch) != ctx.epoch {
+		// the request's connection is lost
+		return ErrClientReconnecting
+	}
+
 	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.Message.values)
 	return cli.PushMsg(rsp, timeout)
 }
@@ -175,6 +184,9 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 	if _, ok := v.(error); ok {
 		isError = true
 	}
+	if atomic.LoadUint32(&cli.epoch) != ctx.epoch {
+		return ErrClientReconnecting
+	}
 	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.Message.values)
 	if !cli.reconnecting {
 		coders := cli.Handler.Coders()
@@ -197,5 +209,6 @@ func newContext(cli *Client, msg *Message, handlers []HandlerFunc) *Context {
 	ctx.Message = msg
 	ctx.Message.values = msg.values
 	ctx.handlers = handlers
+	ctx.epoch = atomic.LoadUint32(&cli.epoch)
 	return ctx
 }
-- 
2.43.0


From d3522cb0e4337db415188bbbc899b0558630d1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:16 +0000
Subject: [PATCH 17/76] fix: Context.Abort must skip everything, also with more
 than 127 handlers

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 506090b..df03c68 100644
--- a/context.go
+++ b/context.go
@@ -126,7 +126,7 @@ func (ctx *Context) Next() {
 
 // Abort stops the one-by-one-calling of middlewares and method/router handler.
 func (ctx *Context) Abort() {
-	ctx.index = int(math.MaxInt8)
+	ctx.index = int(math.MaxInt32)
 }
 
 // Deadline implements stdlib's Context.
-- 
2.43.0


From 7c48aa7ac358b51b41bd7fd0e16e14e0721b4036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:52 +0000
Subject: [PATCH 18/76] fix: a cloned handler reads with its own recv buffer
 size

---
 handler.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/handler.go b/handler.go
index 11ba0b9..2b62f37 100644
--- a/handler.go
+++ b/handler.go
@@ -475,10 +475,13 @@ func (h *handler) WrapReader(conn net.Conn) io.Reader {
 	if h.wrapReader != nil {
 		return h.wrapReader(conn)
 	}
-	return conn
+	return bufio.NewReaderSize(conn, h.recvBufferSize)
 }
 
 func (h *handler) SetReaderWrapper(wrapper func(conn net.Conn) io.Reader) {
+	if wrapper == nil {
+		wrapper = func(conn net.Conn) io.Reader { return conn }
+	}
 	h.wrapReader = wrapper
 }
 
@@ -933,9 +936,6 @@ func NewHandler() Handler {
 		streamQueueSize: 4,
 		maxBodyLen:      DefaultMaxBodyLen,
 	}
-	h.wrapReader = func(conn net.Conn) io.Reader {
-		return bufio.NewReaderSize(conn, h.recvBufferSize)
-	}
 	h.HandleConnected(func(cli *Client) {
 		if tcpConn, ok := cli.Conn.(*net.TCPConn); ok {
 			tcpConn.SetNoDelay(false)
-- 
2.43.0


From e64d969e60c3c90b458f04d86aadef6a786797cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:27 +0000
Subject: [PATCH 19/76] fix: overstock and drop callbacks inherited by a clone
 release with the clone's own callback

---
 handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index 2b62f37..2b27110 100644
--- a/handler.go
+++ b/handler.go
@@ -375,13 +375,13 @@ func (h *handler) HandleOverstock(onOverstock func(c *Client, m *Message)) {
 		if onOverstock != nil {
 			onOverstock(c, m)
 		}
-		h.OnMessageDone(c, m)
 	}
 }
 
 func (h *handler) OnOverstock(c *Client, m *Message) {
 	if h.onOverstock != nil {
 		h.onOverstock(c, m)
+		h.OnMessageDone(c, m)
 	}
 }
 
@@ -390,13 +390,13 @@ func (h *handler) HandleMessageDropped(onMessageDropped func(c *Client, m *Messa
 		if onMessageDropped != nil {
 			onMessageDropped(c, m)
 		}
-		h.OnMessageDone(c, m)
 	}
 }
 
 func (h *handler) OnMessageDropped(c *Client, m *Message) {
 	if h.onMessageDropped != nil {
 		h.onMessageDropped(c, m)
+		h.OnMessageDone(c, m)
 	}
 }
 
-- 
2.43.0


From c32070e9cc5091eece4a5b3b4e785b2e5074ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:22 +0000
Subject: [PATCH 20/76] fix: a connection that ends at once must not stay in
 the server's client set

---
 client.go | 2 --
 server.go | 2 ++
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 3678b8e..d4ae169 100644
--- a/client.go
+++ b/client.go
@@ -1018,8 +1018,6 @@ func newClientWithConn(conn net.Conn, codec codec.Codec, handler Handler, onStop
 		c.chSend = make(chan *Message, handler.SendQueueSize())
 	}
 
-	c.run()
-
 	return c
 }
 
diff --git a/server.go b/server.go
index 77627e8..c743988 100644
--- a/server.go
+++ b/server.go
@@ -195,7 +195,9 @@ func (s *Server) runLoop() error {
 					s.deleteClient(c)
 					s.subLoad()
 				})
+				// add it before it runs, it may end at once
 				s.addClient(cli)
+				cli.run()
 				s.Handler.OnConnected(cli)
 			} else {
 				conn.Close()
-- 
2.43.0


From 1580e7312da08107bfbe395e63efee1aa20ec8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:35 +0000
Subject: [PATCH 21/76] fix: a broadcast with coders needs a message of its own
 for every client

---
 server.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index c743988..167dbd5 100644
--- a/server.go
+++ b/server.go
@@ -69,8 +69,7 @@ func (s *Server) Broadcast(method string, v interface{}, args ...interface{}) {
 	}()
 
 	for c := range s.clients {
-		msg.Retain()
-		c.PushMsg(msg, TimeZero)
+		s.pushBroadcast(c, msg)
 	}
 }
 
@@ -84,12 +83,22 @@ func (s *Server) BroadcastWithFilter(method string, v interface{}, filter func(*
 
 	for c := range s.clients {
 		if filter == nil || filter(c) {
-			msg.Retain()
-			c.PushMsg(msg, TimeZero)
+			s.pushBroadcast(c, msg)
 		}
 	}
 }
 
+// pushBroadcast pushes a broadcast's msg to one of the clients.
+func (s *Server) pushBroadcast(c *Client, msg *Message) {
+	if len(c.Handler.Coders()) > 0 {
+		// coders modify the message when it is sent, so it can't be shared
+		msg = newMessage(msg.Cmd(), msg.method(), msg.Data(), false, false, msg.Seq(), c.Handler, c.Codec, msg.values)
+	} else {
+		msg.Retain()
+	}
+	c.PushMsg(msg, TimeZero)
+}
+
 func (s *Server) ForEach(h func(*Client)) {
 	s.mux.Lock()
 	defer s.mux.Unlock()
-- 
2.43.0


From 210c2122a09c6362238685ff89ddb978e9931f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:56 +0000
Subject: [PATCH 22/76] fix: pubsub: don't write the topic's tail into the
 caller's memory

---
 extension/pubsub/topic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 7050f7a..b1aaa92 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -37,8 +37,8 @@ func (tp *Topic) toBytes() ([]byte, error) {
 	binary.LittleEndian.PutUint16(tail[nameLen:], nameLen)
 	binary.LittleEndian.PutUint64(tail[nameLen+2:], uint64(tp.Timestamp))
 	dataLen := len(tp.Data)
-	tp.Data = append(tp.Data, tail...)
-	tp.raw = tp.Data
+	// the capacity is limited so that the caller's memory isn't written to
+	tp.raw = append(tp.Data[:dataLen:dataLen], tail...)
 	tp.Data = tp.raw[:dataLen]
 	return tp.raw, nil
 }
-- 
2.43.0


From f2f4588aa00e0daa96abfe67b2fab96642b31e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:46 +0000
Subject: [PATCH 23/76] fix: pubsub: give each subscriber its own message of a
 publication

---
 extension/pubsub/topic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index b1aaa92..7fadbb9 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -93,9 +93,10 @@ func (t *TopicAgent) Delete(c *arpc.Client) {
 
 // Publish .
 func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
-	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
 	t.mux.RLock()
 	for to := range t.clients {
+		// a pushed message is encoded and released by its client, so it can't be shared
+		msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
 			if from != nil {
@@ -115,9 +116,10 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 
 // PublishToOne .
 func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
-	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
 	t.mux.RLock()
 	for to := range t.clients {
+		// a pushed message is encoded and released by its client, so it can't be shared
+		msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
 			if from != nil {
-- 
2.43.0


From aabacfc494abbb83abbcf821fa17f6c6aa023254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:38 +0000
Subject: [PATCH 24/76] fix: pubsub: don't hold the client's lock while a topic
 handler runs

---
 extension/pubsub/client.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index 400d781..c465697 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -24,6 +24,8 @@ type Client struct {
 
 	topicHandlerMap map[string]TopicHandler
 
+	handlerMux sync.Mutex
+
 	onPublishHandler TopicHandler
 }
 
@@ -181,11 +183,13 @@ func (c *Client) onPublish(ctx *arpc.Context) {
 
 	if c.onPublishHandler == nil {
 		c.psmux.Lock()
-		if h, ok := c.topicHandlerMap[topic.Name]; ok {
+		h, ok := c.topicHandlerMap[topic.Name]
+		c.psmux.Unlock()
+		if ok {
+			// handlers still run one at a time, but may use the client
+			c.handlerMux.Lock()
+			defer c.handlerMux.Unlock()
 			h(topic)
-			c.psmux.Unlock()
-		} else {
-			c.psmux.Unlock()
 		}
 	} else {
 		c.onPublishHandler(topic)
-- 
2.43.0


From 3d553155a68f8220908967927f741cd911446920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:08 +0000
Subject: [PATCH 25/76] fix: pubsub: keep a client's subscriptions when it
 authenticates again

---
 extension/pubsub/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index 94a2717..b17e5ad 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -250,6 +250,12 @@ func (s *Server) getOrMakeTopic(topic string) *TopicAgent {
 
 // addClient .
 func (s *Server) addClient(c *arpc.Client) {
+	s.psmux.Lock()
+	defer s.psmux.Unlock()
+	if _, ok := c.Get(userTopicKey); ok {
+		// authenticated before, keep its topics
+		return
+	}
 	c.Set(userTopicKey, &clientTopics{
 		topicAgents: map[string]*TopicAgent{},
 	})
-- 
2.43.0


From 6bc88e83b3d77f11f96479bd2122ac12bc57cee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:56 +0000
Subject: [PATCH 26/76] fix: pubsub: a failed Subscribe doesn't drop an earlier
 subscription

---
 extension/pubsub/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index c465697..88727a7 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -58,6 +58,7 @@ func (c *Client) Subscribe(topicName string, h TopicHandler, timeout time.Durati
 	// if _, ok := c.topicHandlerMap[topicName]; ok {
 	// 	panic(fmt.Errorf("handler exist for topic [%v]", topicName))
 	// }
+	prev, subscribed := c.topicHandlerMap[topicName]
 	c.topicHandlerMap[topicName] = h
 	c.psmux.Unlock()
 
@@ -66,7 +67,12 @@ func (c *Client) Subscribe(topicName string, h TopicHandler, timeout time.Durati
 		log.Info("%v [Subscribe] [topic: '%v'] success from\t%v", c.Handler.LogTag(), topicName, c.Conn.RemoteAddr())
 	} else {
 		c.psmux.Lock()
-		delete(c.topicHandlerMap, topicName)
+		if subscribed {
+			// the earlier subscription is still valid
+			c.topicHandlerMap[topicName] = prev
+		} else {
+			delete(c.topicHandlerMap, topicName)
+		}
 		c.psmux.Unlock()
 		log.Error("%v [Subscribe] [topic: '%v'] failed: %v, from\t%v", c.Handler.LogTag(), topicName, err, c.Conn.RemoteAddr())
 	}
-- 
2.43.0


From b9505344fd431b301fea69867d866b38b3443f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:41 +0000
Subject: [PATCH 27/76] fix: pubsub: don't read a new client's password while
 the user sets it

---
 extension/pubsub/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index 88727a7..74226ba 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -222,7 +222,13 @@ func NewClient(dialer func() (net.Conn, error), args ...interface{}) (*Client, e
 	}
 	// cli.Handler = cli.Handler.Clone()
 	cli.Handler.Handle(routePublish, cli.onPublish)
+	conn := c.Conn
 	cli.Handler.HandleConnected(func(c *arpc.Client) {
+		if c.Conn == conn {
+			// the first connection is authenticated by the user, who sets
+			// the Password only now
+			return
+		}
 		if cli.Authenticate() == nil {
 			cli.initTopics()
 		}
-- 
2.43.0


From a9bdacf600e9a42d0ac6162611dda839bd9ac5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:21 +0000
Subject: [PATCH 28/76] fix: pubsub: keep a client's topics and a topic's
 clients in step

---
 extension/pubsub/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index b17e5ad..ebc3ea2 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -119,8 +119,8 @@ func (s *Server) onSubscribe(ctx *arpc.Context) {
 		if !ok {
 			tp = s.getOrMakeTopic(topicName)
 			cts.topicAgents[topicName] = tp
-			cts.mux.Unlock()
 			tp.Add(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Subscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), topicName, ctx.Client.Conn.RemoteAddr())
 		} else {
@@ -158,8 +158,8 @@ func (s *Server) onUnsubscribe(ctx *arpc.Context) {
 		cts.mux.Lock()
 		if ta, ok := cts.topicAgents[topicName]; ok {
 			delete(cts.topicAgents, topicName)
-			cts.mux.Unlock()
 			ta.Delete(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Unsubscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), ta.Name, ctx.Client.Conn.RemoteAddr())
 		} else {
-- 
2.43.0


From 95799f45f54183758bc9174ebd47f6efdc763a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 29/76] fix: ClientPool.Next returns a healthy client also when
 called concurrently

---
 client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client.go b/client.go
index d4ae169..0c20bd9 100644
--- a/client.go
+++ b/client.go
@@ -1091,6 +1091,12 @@ func (pool *ClientPool) Next() *Client {
 			return client
 		}
 	}
+	// concurrent calls may have shared the round above, try all of the clients
+	for _, client := range pool.clients {
+		if client.running && !client.reconnecting {
+			return client
+		}
+	}
 	return client
 }
 
-- 
2.43.0


From 51803cd333044b25ae5e951f415be68274e63a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:59 +0000
Subject: [PATCH 30/76] fix: listener: close the connections nobody accepted
 when the listener is closed

---
 extension/listener/listener.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/extension/listener/listener.go b/extension/listener/listener.go
index 38e1f2e..89cef67 100644
--- a/extension/listener/listener.go
+++ b/extension/listener/listener.go
@@ -34,7 +34,14 @@ func (l *Listener) Close() error {
 	}
 	close(l.chEventA)
 	close(l.chEventB)
-	return l.listener.Close()
+	err := l.listener.Close()
+	// avoid leak of the conns which are accepted but not delivered
+	for _, ch := range []chan event{l.chEventA, l.chEventB} {
+		for e := range ch {
+			e.conn.Close()
+		}
+	}
+	return err
 }
 
 // Addr returns the listener's network address.
-- 
2.43.0


From 923d82e288a060c15c95f7f9ceca5f82a458d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:08 +0000
Subject: [PATCH 31/76] fix: message constructors ignored the error and async
 attributes

---
 handler.go | 2 +-
 proto.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index 2b27110..c432bf4 100644
--- a/handler.go
+++ b/handler.go
@@ -899,7 +899,7 @@ func (h *handler) Cancel() {
 }
 
 func (h *handler) NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 func (h *handler) NewMessageWithBuffer(buffer []byte) *Message {
diff --git a/proto.go b/proto.go
index 2df77c3..c5ebac1 100644
--- a/proto.go
+++ b/proto.go
@@ -362,7 +362,7 @@ func (m *Message) Set(key interface{}, value interface{}) {
 
 // NewMessage creates a Message.
 func NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, h Handler, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 // newMessage creates a Message.
-- 
2.43.0


From 43049ba200cd4b9313b855c8cacc2983826e5eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:26 +0000
Subject: [PATCH 32/76] fix: context lost the response error with sync write

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index df03c68..24b3882 100644
--- a/context.go
+++ b/context.go
@@ -184,6 +184,9 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 	if _, ok := v.(error); ok {
 		isError = true
 	}
+	if isError {
+		ctx.responseErr = v
+	}
 	if atomic.LoadUint32(&cli.epoch) != ctx.epoch {
 		return ErrClientReconnecting
 	}
-- 
2.43.0


From 6a82eac1303d1c94260d8cc1f3e0f6ca3e63ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:48 +0000
Subject: [PATCH 33/76] fix: graceful: a request refused by the shutdown was
 handled all the same

---
 extension/middleware/router/graceful.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/middleware/router/graceful.go b/extension/middleware/router/graceful.go
index 4276dbd..2be349f 100644
--- a/extension/middleware/router/graceful.go
+++ b/extension/middleware/router/graceful.go
@@ -26,6 +26,7 @@ func (g *Graceful) Handler() arpc.HandlerFunc {
 			ctx.Next()
 		} else {
 			ctx.Error(ErrShutdown)
+			ctx.Abort()
 		}
 	}
 }
-- 
2.43.0


From 313861ede01ea706420cb2038c0dd32216154311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:08 +0000
Subject: [PATCH 34/76] fix: graceful: shutdown could miss a request that was
 just beginning

---
 extension/middleware/router/graceful.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/extension/middleware/router/graceful.go b/extension/middleware/router/graceful.go
index 2be349f..411c4ed 100644
--- a/extension/middleware/router/graceful.go
+++ b/extension/middleware/router/graceful.go
@@ -13,6 +13,7 @@ var ErrShutdown = errors.New("shutting down")
 
 // Graceful represents a graceful middleware instance.
 type Graceful struct {
+	mux        sync.Mutex
 	shutdown   bool
 	gracefulWg sync.WaitGroup
 }
@@ -20,8 +21,7 @@ type Graceful struct {
 // Handler returns the graceful middleware handler.
 func (g *Graceful) Handler() arpc.HandlerFunc {
 	return func(ctx *arpc.Context) {
-		if !g.shutdown {
-			g.gracefulWg.Add(1)
+		if g.enter() {
 			defer g.gracefulWg.Done()
 			ctx.Next()
 		} else {
@@ -31,9 +31,22 @@ func (g *Graceful) Handler() arpc.HandlerFunc {
 	}
 }
 
+// enter counts a new request, unless shutting down.
+func (g *Graceful) enter() bool {
+	g.mux.Lock()
+	defer g.mux.Unlock()
+	if g.shutdown {
+		return false
+	}
+	g.gracefulWg.Add(1)
+	return true
+}
+
 // Shutdown stops handling new requests and waits for all current requests to be processed.
 func (g *Graceful) Shutdown() {
+	g.mux.Lock()
 	g.shutdown = true
+	g.mux.Unlock()
 	g.gracefulWg.Wait()
 	time.Sleep(time.Second / 10)
 }
-- 
2.43.0


From b2897c728535888679d31c96257ebcabaa4bb5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:00 +0000
Subject: [PATCH 35/76] fix: ping and pong failed silently after an expired
 write deadline

---
 client.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 0c20bd9..f520697 100644
--- a/client.go
+++ b/client.go
@@ -115,12 +115,20 @@ func (c *Client) Delete(key interface{}) {
 
 // Ping .
 func (c *Client) Ping() {
-	c.Conn.Write(PingMessage.Buffer)
+	c.sendControl(PingMessage)
 }
 
 // Pong .
 func (c *Client) Pong() {
-	c.Conn.Write(PongMessage.Buffer)
+	c.sendControl(PongMessage)
+}
+
+// sendControl sends a ping or pong, with the write timeout and before-send hook of any other message.
+func (c *Client) sendControl(msg *Message) {
+	conn := c.Conn
+	if _, err := c.Handler.Send(conn, msg.Buffer); err != nil {
+		conn.Close()
+	}
 }
 
 // Ping .
-- 
2.43.0


From 0fa5a2850f35c12ec264061635f794fe23c411b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:16 +0000
Subject: [PATCH 36/76] fix: appender: a value that can't be converted damaged
 the message

---
 extension/middleware/coder/appender.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index 5f94bc1..cd685eb 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -23,13 +23,13 @@ func (ap *Appender) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 	if !ok {
 		return msg
 	}
-	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
-		return msg
-	}
 	valueData, err := ap.valueToBytes(value)
 	if err != nil {
 		return msg
 	}
+	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
+		return msg
+	}
 	msg.Buffer = append(msg.Buffer, make([]byte, len(key)+len(valueData)+2)...)
 	appendData := msg.Buffer[len(msg.Buffer)-len(key)-len(valueData)-2:]
 	copy(appendData, key)
-- 
2.43.0


From 8de0e32cb062eaa59400df9bebedfb9596b1d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:03 +0000
Subject: [PATCH 37/76] fix: appender: a value too long for the length field
 damaged the message

---
 extension/middleware/coder/appender.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index cd685eb..4404840 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -1,6 +1,8 @@
 package coder
 
 import (
+	"math"
+
 	"github.com/lesismal/arpc"
 	"github.com/lesismal/arpc/util"
 )
@@ -27,6 +29,10 @@ func (ap *Appender) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 	if err != nil {
 		return msg
 	}
+	if len(key)+len(valueData)+2 > math.MaxUint16 {
+		// the length doesn't fit, send the message without the value
+		return msg
+	}
 	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
 		return msg
 	}
-- 
2.43.0


From 3119b69200ff6d122e9e69ababc4a411f6646c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:50 +0000
Subject: [PATCH 38/76] fix: msgpack coder: values that can't be encoded
 damaged the message

---
 extension/middleware/coder/msgpack/msgpack.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/middleware/coder/msgpack/msgpack.go b/extension/middleware/coder/msgpack/msgpack.go
index 4888d48..77b5310 100644
--- a/extension/middleware/coder/msgpack/msgpack.go
+++ b/extension/middleware/coder/msgpack/msgpack.go
@@ -21,6 +21,11 @@ func (mp *MsgPack) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 		Values: msg.Values(),
 	}
 	data, err := msgpack.Marshal(&v)
+	if err != nil {
+		// the values can't be encoded, send the body without them
+		v.Values = nil
+		data, err = msgpack.Marshal(&v)
+	}
 	if err == nil {
 		ml := msg.MethodLen()
 		msg.Buffer = append(msg.Buffer[:arpc.HeadLen+ml], data...)
-- 
2.43.0


From 2dac26e0c9d766e60518fffd0dc2594bbcbcae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:55 +0000
Subject: [PATCH 39/76] fix: attached values were read after the caller got its
 map back

---
 proto.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/proto.go b/proto.go
index c5ebac1..589ae94 100644
--- a/proto.go
+++ b/proto.go
@@ -382,7 +382,14 @@ func newMessage(cmd byte, method string, v interface{}, isError bool, isAsync bo
 
 	// msg = &Message{Buffer: h.Malloc(HeadLen + bodyLen), values: values}
 	msg = messagePool.Get().(*Message)
-	msg.values = values
+	msg.values = nil
+	if len(values) > 0 {
+		// coders read the values later, when the caller may use the map again
+		msg.values = make(map[interface{}]interface{}, len(values))
+		for k, v := range values {
+			msg.values[k] = v
+		}
+	}
 	msg.handler = h
 	msg.Buffer = h.Malloc(HeadLen + bodyLen)
 
-- 
2.43.0


From afda7ef4a634496c28330d784034c7b52079d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:08 +0000
Subject: [PATCH 40/76] fix: AddServiceNodes of a known address leaves its
 extra connection open

A node that is added again is rejected by addByAddr, but the client that was
made for it stayed connected, or, if the node could not be reached, was
retried for ever, even after the node had been deleted.
---
 extension/micro/service.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index cfd0cc8..cbfb9f5 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -42,16 +42,17 @@ type serviceNodeList struct {
 	nodes []*ServiceNode
 }
 
-func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) {
+func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) bool {
 	list.mux.Lock()
 	defer list.mux.Unlock()
 	for _, v := range list.nodes {
 		// addr already added
 		if v.addr == addr {
-			return
+			return false
 		}
 	}
 	list.nodes = append(list.nodes, nodes...)
+	return true
 }
 
 func (list *serviceNodeList) update(node *ServiceNode) {
@@ -108,7 +109,7 @@ type serviceManager struct {
 	serviceList map[string]*serviceNodeList
 }
 
-func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) {
+func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) bool {
 	s.mux.Lock()
 	list, ok := s.serviceList[name]
 	if !ok {
@@ -116,7 +117,7 @@ func (s *serviceManager) setServiceNode(name string, addr string, nodes []*Servi
 		s.serviceList[name] = list
 	}
 	s.mux.Unlock()
-	list.addByAddr(addr, nodes)
+	return list.addByAddr(addr, nodes)
 }
 
 func (s *serviceManager) updateServiceNode(name string, node *ServiceNode) {
@@ -154,7 +155,13 @@ func (s *serviceManager) AddServiceNodes(path string, value string) {
 	})
 	for i := 0; i < weight; i++ {
 		nodes[i].client = client
-		s.setServiceNode(name, addr, nodes)
+	}
+	if !s.setServiceNode(name, addr, nodes) {
+		// addr already added
+		if client != nil {
+			client.Stop()
+		}
+		return
 	}
 	if err == nil {
 		log.Info("AddServiceNodes: [%v, %v, %v, %v]", app, name, addr, weight)
-- 
2.43.0


From 8a49b3081132b4c129f3ab452936b024ff212e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:35 +0000
Subject: [PATCH 41/76] fix: concurrent ClientBy calls miss reachable nodes

next() advanced the shared index under a read lock: concurrent calls step
over each other's nodes and report ErrServiceUnreachable although a node is
reachable. The late connection of a node was also stored without the lock.
---
 extension/micro/service.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index cbfb9f5..f892e70 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -55,7 +55,7 @@ func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) bool {
 	return true
 }
 
-func (list *serviceNodeList) update(node *ServiceNode) {
+func (list *serviceNodeList) update(node *ServiceNode, client *arpc.Client) {
 	var found = false
 	list.mux.Lock()
 	defer list.mux.Unlock()
@@ -63,10 +63,11 @@ func (list *serviceNodeList) update(node *ServiceNode) {
 	for _, v := range list.nodes {
 		if v == node {
 			found = true
+			node.client = client
 		}
 	}
 	if !found {
-		node.client.Stop()
+		client.Stop()
 	}
 }
 
@@ -87,8 +88,9 @@ func (list *serviceNodeList) delete(addr string) {
 }
 
 func (list *serviceNodeList) next() (*arpc.Client, error) {
-	list.mux.RLock()
-	defer list.mux.RUnlock()
+	// index is changed here
+	list.mux.Lock()
+	defer list.mux.Unlock()
 	l := len(list.nodes)
 	if l == 0 {
 		return nil, ErrServiceNotFound
@@ -120,14 +122,14 @@ func (s *serviceManager) setServiceNode(name string, addr string, nodes []*Servi
 	return list.addByAddr(addr, nodes)
 }
 
-func (s *serviceManager) updateServiceNode(name string, node *ServiceNode) {
+func (s *serviceManager) updateServiceNode(name string, node *ServiceNode, client *arpc.Client) {
 	s.mux.Lock()
 	list, ok := s.serviceList[name]
 	s.mux.Unlock()
 	if ok {
-		list.update(node)
+		list.update(node, client)
 	} else {
-		node.client.Stop()
+		client.Stop()
 	}
 }
 
@@ -180,8 +182,7 @@ func (s *serviceManager) AddServiceNodes(path string, value string) {
 				if err == nil {
 					time.Sleep(time.Second / 100)
 					for i := 0; i < weight; i++ {
-						nodes[i].client = client
-						s.updateServiceNode(name, nodes[i])
+						s.updateServiceNode(name, nodes[i], client)
 					}
 
 					return
-- 
2.43.0


From 9c79643e2d8b42345cb73a748a1612a77c682149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:01 +0000
Subject: [PATCH 42/76] fix: a stopped redis registration keeps being renewed

Stop did not end keepalive, which put the entry back at its next tick. Renewal
and Stop exclude each other, so that a renewal that is under way cannot
overtake the removal either.
---
 extension/micro/redis/register.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/extension/micro/redis/register.go b/extension/micro/redis/register.go
index e2d97bc..2e8cb09 100644
--- a/extension/micro/redis/register.go
+++ b/extension/micro/redis/register.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	redis "github.com/go-redis/redis/v8"
@@ -21,10 +22,14 @@ type Register struct {
 	interval         time.Duration
 	expire           time.Duration
 	client           *redis.Client
+	stopOnce         sync.Once
+	exited           chan struct{}
 }
 
 // Stop .
 func (s *Register) keepalive() {
+	defer close(s.exited)
+
 	ticker := time.NewTicker(s.interval)
 	defer ticker.Stop()
 
@@ -40,6 +45,10 @@ func (s *Register) keepalive() {
 
 // Stop .
 func (s *Register) Stop() error {
+	// no renewal may follow the removal
+	s.stopOnce.Do(func() { close(s.done) })
+	<-s.exited
+
 	ret := s.client.HDel(context.Background(), s.serviceNamespace, s.field)
 	err := ret.Err()
 	if err != nil {
@@ -82,6 +91,7 @@ func NewRegister(addr, serviceNamespace, serviceName, serviceAddr string, weight
 		interval:         interval,
 		expire:           expire,
 		done:             make(chan struct{}),
+		exited:           make(chan struct{}),
 		client:           client,
 	}
 
-- 
2.43.0


From 4a21a76d38fd68fa232016b458ca5749ec7193a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:46 +0000
Subject: [PATCH 43/76] fix: a redis registration does not take over a
 left-over entry

HSetNX left the expiry of an earlier instance's entry in place, so that the
service was removed when that expired, until the first renewal.
---
 extension/micro/redis/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/micro/redis/register.go b/extension/micro/redis/register.go
index 2e8cb09..b4bd6c4 100644
--- a/extension/micro/redis/register.go
+++ b/extension/micro/redis/register.go
@@ -75,10 +75,10 @@ func NewRegister(addr, serviceNamespace, serviceName, serviceAddr string, weight
 	})
 
 	field := fmt.Sprintf("%v/%v/%v", serviceName, serviceAddr, weight)
-	ret := client.HSetNX(context.Background(), serviceNamespace, field, time.Now().Add(expire).Unix())
+	ret := client.HSet(context.Background(), serviceNamespace, field, time.Now().Add(expire).Unix())
 	err := ret.Err()
 	if err != nil {
-		log.Error("NewRegister [%v, %v] client.HSetNX failed: %v", serviceNamespace, fmt.Sprintf("%v/%v", serviceName, serviceAddr), err)
+		log.Error("NewRegister [%v, %v] client.HSet failed: %v", serviceNamespace, fmt.Sprintf("%v/%v", serviceName, serviceAddr), err)
 		return nil, err
 	}
 
-- 
2.43.0


From 19437cdff839db68b8cc94a72c88d95d1be23cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:56 +0000
Subject: [PATCH 44/76] fix: a redis outage removes all discovered services

A failed listing was taken for an empty one, and NewDiscovery reported
success.
---
 extension/micro/redis/discovery.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/micro/redis/discovery.go b/extension/micro/redis/discovery.go
index 7520020..9d6472b 100644
--- a/extension/micro/redis/discovery.go
+++ b/extension/micro/redis/discovery.go
@@ -31,6 +31,7 @@ func (ds *Discovery) updateServices() error {
 	err := ret.Err()
 	if err != nil {
 		log.Error("Discovery updateServices failed: %v", err)
+		return err
 	}
 
 	cache := map[string]struct{}{}
-- 
2.43.0


From c60fd3637d8341b3944814eaf88b1f2a8c501520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:40 +0000
Subject: [PATCH 45/76] fix: redis discovery misses the changed weight of a
 service

A service that came back with another weight between two listings (or whose
old entry expired after it had come back) kept its old weight for ever.
---
 extension/micro/redis/discovery.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/extension/micro/redis/discovery.go b/extension/micro/redis/discovery.go
index 9d6472b..775c3b1 100644
--- a/extension/micro/redis/discovery.go
+++ b/extension/micro/redis/discovery.go
@@ -21,7 +21,7 @@ type Discovery struct {
 	interval         time.Duration
 	serviceManager   micro.ServiceManager
 
-	serviceCache map[string]struct{}
+	serviceCache map[string]string // path: weight
 
 	done chan struct{}
 }
@@ -34,7 +34,7 @@ func (ds *Discovery) updateServices() error {
 		return err
 	}
 
-	cache := map[string]struct{}{}
+	cache := map[string]string{}
 	services := ret.Val()
 	if services != nil {
 		for k, v := range services {
@@ -56,12 +56,10 @@ func (ds *Discovery) updateServices() error {
 							deleteService = true
 						} else {
 							path := fmt.Sprintf("%v/%v/%v", ds.serviceNamespace, serviceName, serviceAddr)
-							cache[path] = struct{}{}
-							_, ok := ds.serviceCache[path]
-							if !ok {
-								ds.serviceManager.AddServiceNodes(path, sweight)
+							_, ok := cache[path]
+							if !ok || ds.serviceCache[path] == sweight {
+								cache[path] = sweight
 							}
-							delete(ds.serviceCache, path)
 						}
 					}
 				}
@@ -78,9 +76,16 @@ func (ds *Discovery) updateServices() error {
 		}
 	}
 
-	// for path := range cache {
-	// 	delete(ds.serviceCache, path)
-	// }
+	for path, sweight := range cache {
+		old, ok := ds.serviceCache[path]
+		if ok && old != sweight {
+			ds.serviceManager.DeleteServiceNodes(path)
+		}
+		if !ok || old != sweight {
+			ds.serviceManager.AddServiceNodes(path, sweight)
+		}
+		delete(ds.serviceCache, path)
+	}
 	for path := range ds.serviceCache {
 		ds.serviceManager.DeleteServiceNodes(path)
 	}
@@ -123,7 +128,7 @@ func NewDiscovery(addr string, serviceNamespace string, interval time.Duration,
 		serviceNamespace: serviceNamespace,
 		interval:         interval,
 		serviceManager:   serviceManager,
-		serviceCache:     map[string]struct{}{},
+		serviceCache:     map[string]string{},
 		done:             make(chan struct{}),
 	}
 
-- 
2.43.0


From eb913f08859c1462704d913b2bd880392730ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:05 +0000
Subject: [PATCH 46/76] fix: arpc.js sends broken frames for non-ASCII methods
 and drops falsy arguments

The method length was counted in UTF-16 units instead of bytes; 0 and false
were sent as no data; sequence numbers did not wrap with the 32 bits sent.
---
 extension/jsclient/arpc.js | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 46b28c0..d9ae819 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -154,16 +154,17 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
 
     this.write = function (cmd, method, arg, cb, isHttp) {
         var buffer;
-        if (arg) {
+        var methodBuffer = new TextEncoder("utf-8").encode(method);
+        if (arg !== undefined && arg !== null) {
             var data = this.codec.Marshal(arg);
             if (data) {
-                buffer = new Uint8Array(16 + method.length + data.length);
+                buffer = new Uint8Array(16 + methodBuffer.length + data.length);
                 for (var i = 0; i < data.length; i++) {
-                    buffer[16 + method.length + i] = data[i];
+                    buffer[16 + methodBuffer.length + i] = data[i];
                 }
             }
         } else {
-            buffer = new Uint8Array(16 + method.length);
+            buffer = new Uint8Array(16 + methodBuffer.length);
         }
 
         var bodyLen = buffer.length - 16;
@@ -171,12 +172,11 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
             buffer[i] = (bodyLen >> ((i - _HeaderIndexBodyLenBegin) * 8)) & 0xFF;
         }
         buffer[_HeaderIndexCmd] = cmd & 0xFF;
-        buffer[_HeaderIndexMethodLen] = method.length & 0xFF;
+        buffer[_HeaderIndexMethodLen] = methodBuffer.length & 0xFF;
         for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
             buffer[i] = (this.seqNum >> ((i - _HeaderIndexSeqBegin) * 8)) & 0xFF;
         }
-        this.seqNum++;
-        var methodBuffer = new TextEncoder("utf-8").encode(method);
+        this.seqNum = (this.seqNum + 1) >>> 0;
         for (var i = 0; i < methodBuffer.length; i++) {
             buffer[16 + i] = methodBuffer[i];
         }
-- 
2.43.0


From 305fbda12022fab78f56873f5bc8bebd894ba5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:05 +0000
Subject: [PATCH 47/76] fix: arpc.js misreads sequence numbers above 255 and
 grouped frames

The bytes of the sequence number were shifted by 0..3 bits, and for a frame
that was not the first of a websocket message they were read from beyond the
header; its data ran into the next frame, and an error response, a ping, or a
frame nobody waits for dropped the rest of the message.
---
 extension/jsclient/arpc.js | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index d9ae819..98be19c 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -237,26 +237,27 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 var isAsync = headArr[_HeaderIndexFlag] & _HeaderFlagMaskAsync;
                 var methodLen = headArr[_HeaderIndexMethodLen];
                 var method = new TextDecoder("utf-8").decode(event.data.slice(offset + 16, offset + 16 + methodLen));
-                var bodyArr;
-                if (bodyLen > methodLen) {
-                    bodyArr = event.data.slice(offset + 16 + methodLen, offset + 16 + methodLen + bodyLen);
-                }
+                var bodyArr = event.data.slice(offset + 16 + methodLen, offset + 16 + bodyLen);
                 var seq = 0;
-                for (var i = offset + _HeaderIndexSeqBegin; i < offset + _HeaderIndexSeqBegin + 4; i++) {
-                    seq |= headArr[i] << (i - offset - _HeaderIndexSeqBegin);
+                for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
+                    seq |= headArr[i] << ((i - _HeaderIndexSeqBegin) * 8);
                 }
+                seq = seq >>> 0;
+
+                // a message may hold more frames
+                offset += 16 + bodyLen;
 
                 switch (cmd) {
                     case _CmdPing:
                         client.pong();
-                        return;
+                        continue;
                     case _CmdPong:
-                        return;
+                        continue;
                 }
 
                 if (methodLen == 0) {
                     console.log("[ArpcClient] onMessage: invalid request message with 0 method length, dropped");
-                    return
+                    continue;
                 }
 
                 switch (cmd) {
@@ -268,7 +269,6 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                             handler.h(new Context(client, headArr, bodyArr, method, data));
                         } else {
                             console.log("[ArpcClient] onMessage: invalid method: [%s], no handler", method);
-                            return
                         }
                         break;
                     case _CmdResponse:
@@ -281,18 +281,16 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                             var data = client.codec.Unmarshal(bodyArr);
                             if (isError) {
                                 session.resolve({ data: null, err: data });
-                                return;
+                            } else {
+                                session.resolve({ data: data, err: null });
                             }
-                            session.resolve({ data: data, err: null });
                         } else {
                             console.log("[ArpcClient] onMessage: session [%d] missing", seq);
-                            return;
                         }
                         break;
                     default:
                         break;
                 }
-                offset += 16 + bodyLen;
             }
         } catch (e) {
             console.log("[ArpcClient] onMessage: panic:", e);
-- 
2.43.0


From 23675bb780a9ed851d072a1cc3501ec44b50f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:05 +0000
Subject: [PATCH 48/76] fix: arpc.js calls never time out

The timer used a variable that does not exist.
---
 extension/jsclient/arpc.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 98be19c..acaeb4b 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -103,7 +103,8 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
         if (typeof (cb) == 'function') {
             session.resolve = cb;
         }
-        this.sessionMap[this.seqNum] = session;
+        var seq = this.seqNum;
+        this.sessionMap[seq] = session;
 
         if (timeout > 0) {
             session.timer = setTimeout(function () {
-- 
2.43.0


From fd88f04809c454d70df14e67cbd015d4bf2ddfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:05 +0000
Subject: [PATCH 49/76] fix: arpc.js calls back again at every disconnect

The calls that were pending at a disconnect stayed in the session map.
---
 extension/jsclient/arpc.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index acaeb4b..32ae250 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -327,8 +327,10 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
             }
             client.ws.close();
 
-            for (var k in client.sessionMap) {
-                var session = client.sessionMap[k];
+            var sessionMap = client.sessionMap;
+            client.sessionMap = {};
+            for (var k in sessionMap) {
+                var session = sessionMap[k];
                 if (session) {
                     if (session.timer) {
                         clearTimeout(session.timer);
-- 
2.43.0


From 2cf47be664bb8acbf7f5c4f7dfc7bfe48eed8d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:27 +0000
Subject: [PATCH 50/76] fix: a handler that throws makes arpc.js drop the rest
 of the message

---
 extension/jsclient/arpc.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 32ae250..4a647d8 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -267,7 +267,11 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                         var handler = client.handlers[method]
                         if (handler) {
                             var data = client.codec.Unmarshal(bodyArr);
-                            handler.h(new Context(client, headArr, bodyArr, method, data));
+                            try {
+                                handler.h(new Context(client, headArr, bodyArr, method, data));
+                            } catch (e) {
+                                console.log("[ArpcClient] onMessage: handler panic:", e);
+                            }
                         } else {
                             console.log("[ArpcClient] onMessage: invalid method: [%s], no handler", method);
                         }
-- 
2.43.0


From c3aa55339622e44f7384ef49beefa817f9e65d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:49 +0000
Subject: [PATCH 51/76] fix: arpc.js calls over HTTP never complete

The request went to an undefined URL, the response was read as text instead of
an ArrayBuffer, a failed request was not reported, and the promise was not
returned.
---
 extension/jsclient/arpc.js | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 4a647d8..51271a7 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -77,7 +77,7 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
     }
 
     this.callHttp = function (method, request, timeout, cb) {
-        this.call(method, request, timeout, cb, true);
+        return this.call(method, request, timeout, cb, true);
     }
     this.call = function (method, request, timeout, cb, isHttp) {
         if (this.state == _SOCK_STATE_CLOSED) {
@@ -112,12 +112,24 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 session.resolve({ data: null, err: "timeout" });
             }, timeout);
         }
-        this.write(_CmdRequest, method, request, this._onMessage, isHttp);
+        this.write(_CmdRequest, method, request, function (ret) {
+            if (ret.err) {
+                if (client.sessionMap[seq]) {
+                    if (session.timer) {
+                        clearTimeout(session.timer);
+                    }
+                    delete (client.sessionMap[seq]);
+                    session.resolve({ data: null, err: ret.err });
+                }
+                return;
+            }
+            client._onMessage(ret);
+        }, isHttp);
         return p;
     }
 
     this.notifyHttp = function (method, notify) {
-        this.notify(method, notify, true);
+        return this.notify(method, notify, true);
     }
     this.notify = function (method, notify, isHttp) {
         if (this.state == _SOCK_STATE_CLOSED) {
@@ -207,13 +219,14 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 }
             }
             let r = new XMLHttpRequest();
-            r.open(this.httpMethod, this.httpUrl, true);
+            r.open(client.httpMethod, client.httpUrl, true);
+            r.responseType = 'arraybuffer';
             r.onreadystatechange = function () {
                 if (r.readyState != 4) {
                     return;
                 }
                 if (r.status != 200) {
-                    resolve({ code: r.status, data: null, err: `request "${this.httpUrl}" failed with status code ${r.status} ` });
+                    resolve({ code: r.status, data: null, err: `request "${client.httpUrl}" failed with status code ${r.status} ` });
                     return;
                 }
                 // r.responseText
-- 
2.43.0


From 078c07b243bb3c7b65cdabf8614f4b97b99e54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:07 +0000
Subject: [PATCH 52/76] fix: websocket Conn.Read returned no bytes and no error
 for an empty message

---
 extension/protocol/websocket/websocket.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extension/protocol/websocket/websocket.go b/extension/protocol/websocket/websocket.go
index 31a9ee4..e28c448 100644
--- a/extension/protocol/websocket/websocket.go
+++ b/extension/protocol/websocket/websocket.go
@@ -91,7 +91,8 @@ func (c *Conn) Read(b []byte) (int, error) {
 	var (
 		err error
 	)
-	if len(c.buffer) == 0 {
+	// an empty message carries no bytes: wait for the next one
+	for len(c.buffer) == 0 {
 		_, c.buffer, err = c.ReadMessage()
 		if err != nil {
 			return 0, err
-- 
2.43.0


From fe8ad1173facdad762cb17711b721b77613f8509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:07 +0000
Subject: [PATCH 53/76] fix: concurrent writes on a websocket Conn panicked

---
 extension/protocol/websocket/websocket.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extension/protocol/websocket/websocket.go b/extension/protocol/websocket/websocket.go
index e28c448..b055622 100644
--- a/extension/protocol/websocket/websocket.go
+++ b/extension/protocol/websocket/websocket.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"net"
 	"net/http"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -76,6 +77,9 @@ type Conn struct {
 	*websocket.Conn
 	chHandler chan func()
 	buffer    []byte
+
+	// websocket.Conn supports one concurrent writer only
+	writeMux sync.Mutex
 }
 
 // HandleWebsocket .
@@ -112,6 +116,8 @@ func (c *Conn) Read(b []byte) (int, error) {
 
 // Write .
 func (c *Conn) Write(b []byte) (int, error) {
+	c.writeMux.Lock()
+	defer c.writeMux.Unlock()
 	err := c.WriteMessage(websocket.BinaryMessage, b)
 	if err == nil {
 		return len(b), nil
-- 
2.43.0


From 0981e89c6946d24ef7a7559b33520cdcf98ea11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:37 +0000
Subject: [PATCH 54/76] fix: connections queued on a websocket Listener stayed
 open after its Close

---
 extension/protocol/websocket/websocket.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/extension/protocol/websocket/websocket.go b/extension/protocol/websocket/websocket.go
index b055622..da6ca1a 100644
--- a/extension/protocol/websocket/websocket.go
+++ b/extension/protocol/websocket/websocket.go
@@ -44,15 +44,31 @@ func (ln *Listener) Handler(w http.ResponseWriter, r *http.Request) {
 	wsc := &Conn{Conn: c, chHandler: make(chan func(), 1)}
 	select {
 	case ln.chAccept <- wsc:
+		if atomic.LoadUint32(&ln.closed) == 1 {
+			ln.closeQueued()
+		}
 	case <-ln.chClose:
 		c.Close()
 	}
 }
 
+// closeQueued closes the connections that nobody will accept any more.
+func (ln *Listener) closeQueued() {
+	for {
+		select {
+		case c := <-ln.chAccept:
+			c.Close()
+		default:
+			return
+		}
+	}
+}
+
 // Close .
 func (ln *Listener) Close() error {
 	if atomic.CompareAndSwapUint32(&ln.closed, 0, 1) {
 		close(ln.chClose)
+		ln.closeQueued()
 	}
 	return nil
 }
@@ -66,7 +82,10 @@ func (ln *Listener) Addr() net.Addr {
 func (ln *Listener) Accept() (net.Conn, error) {
 	select {
 	case c := <-ln.chAccept:
-		return c, nil
+		if atomic.LoadUint32(&ln.closed) == 0 {
+			return c, nil
+		}
+		c.Close()
 	case <-ln.chClose:
 	}
 	return nil, ErrClosed
-- 
2.43.0


From 3afed0445f589141e3606259ab9c815e14c45953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:11 +0000
Subject: [PATCH 55/76] fix: closing a QUIC Conn left its own Read and Write
 waiting

---
 extension/protocol/quic/quic.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index ceb19e1..40ea3c1 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -39,6 +39,14 @@ type Conn struct {
 	quic.Stream
 }
 
+// Close closes both directions of the stream and ends a Read or Write in progress,
+// what was written before is still sent.
+func (c *Conn) Close() error {
+	c.Stream.SetWriteDeadline(time.Now())
+	c.Stream.CancelRead(0)
+	return c.Stream.Close()
+}
+
 // Listen wraps quic listen
 func Listen(addr string, config *tls.Config) (net.Listener, error) {
 	ln, err := quic.ListenAddr(addr, config, nil)
-- 
2.43.0


From 845a3dd51ed3a4f86fecd85e3cf59ec71c9dbf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:49 +0000
Subject: [PATCH 56/76] fix: a QUIC connection without a stream blocked or
 ended Listener.Accept

---
 extension/protocol/quic/quic.go | 50 +++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index 40ea3c1..669927b 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -8,6 +8,7 @@ import (
 	"context"
 	"crypto/tls"
 	"net"
+	"sync"
 	"time"
 
 	quic "github.com/quic-go/quic-go"
@@ -16,21 +17,52 @@ import (
 // Listener wraps quick.Listener to net.Listener
 type Listener struct {
 	*quic.Listener
+
+	once   sync.Once
+	chConn chan net.Conn
+	chDone chan struct{}
+	err    error
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (ln *Listener) Accept() (net.Conn, error) {
-	conn, err := ln.Listener.Accept(context.Background())
-	if err != nil {
-		return nil, err
-	}
+	ln.once.Do(func() {
+		ln.chConn = make(chan net.Conn)
+		ln.chDone = make(chan struct{})
+		go ln.acceptLoop()
+	})
 
-	stream, err := conn.AcceptStream(context.Background())
-	if err != nil {
-		return nil, err
+	select {
+	case c := <-ln.chConn:
+		return c, nil
+	case <-ln.chDone:
 	}
+	return nil, ln.err
+}
 
-	return &Conn{conn, stream}, err
+// acceptLoop waits for the stream of each connection apart, a connection that never
+// opens one neither holds up nor fails the others.
+func (ln *Listener) acceptLoop() {
+	for {
+		conn, err := ln.Listener.Accept(context.Background())
+		if err != nil {
+			ln.err = err
+			close(ln.chDone)
+			return
+		}
+
+		go func() {
+			stream, err := conn.AcceptStream(context.Background())
+			if err != nil {
+				return
+			}
+			select {
+			case ln.chConn <- &Conn{conn, stream}:
+			case <-ln.chDone:
+				conn.CloseWithError(0, "")
+			}
+		}()
+	}
 }
 
 // Conn wraps quick.Session to net.Conn
@@ -53,7 +85,7 @@ func Listen(addr string, config *tls.Config) (net.Listener, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &Listener{ln}, err
+	return &Listener{Listener: ln}, err
 }
 
 // Dial wraps quic dial
-- 
2.43.0


From 1fe9e5e671605bdd09f06ea323e6f5fea54c43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 57/76] fix: a stream close given up because its context ended
 must not leave the stream closed

---
 stream.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/stream.go b/stream.go
index 50854c4..07edbf6 100644
--- a/stream.go
+++ b/stream.go
@@ -67,11 +67,23 @@ func (s *Stream) CloseSend() {
 }
 
 func (s *Stream) CloseSendContext(ctx context.Context) {
-	if atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
-		eof := true
-		s.send(ctx, []byte{}, eof)
-		s.halfClose()
+	s.sendEOF(ctx, []byte{})
+}
+
+// sendEOF sends v and closes the sending side, which stays open if ctx ends before
+// the peer could be told.
+func (s *Stream) sendEOF(ctx context.Context, v interface{}, args ...interface{}) error {
+	if !atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
+		return ErrStreamClosedSend
 	}
+	eof := true
+	err := s.send(ctx, v, eof, args...)
+	if err == ErrTimeout {
+		atomic.StoreInt32(&s.stateSend, 0)
+		return err
+	}
+	s.halfClose()
+	return err
 }
 
 func (s *Stream) Recv(v interface{}) error {
@@ -138,8 +150,7 @@ func (s *Stream) SendAndClose(v interface{}, args ...interface{}) error {
 }
 
 func (s *Stream) SendAndCloseContext(ctx context.Context, v interface{}, args ...interface{}) error {
-	eof := true
-	return s.checkStateAndSend(ctx, v, eof, args...)
+	return s.sendEOF(ctx, v, args...)
 }
 
 func (s *Stream) SendAndCloseWith(ctx context.Context, v interface{}, args ...interface{}) error {
@@ -169,10 +180,6 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 	msg.SetStreamLocal(s.local)
 	msg.SetStreamEOF(eof)
 
-	if eof && atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
-		s.halfClose()
-	}
-
 	if c.Handler.AsyncWrite() {
 		select {
 		case c.chSend <- msg:
-- 
2.43.0


From 8af477c69224c8d97bcda18ab05b20575a62c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:11 +0000
Subject: [PATCH 58/76] fix: pubsub: a client that disconnects while it
 subscribes is not kept as a subscriber

---
 extension/pubsub/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index ebc3ea2..9aba009 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -121,6 +121,11 @@ func (s *Server) onSubscribe(ctx *arpc.Context) {
 			cts.topicAgents[topicName] = tp
 			tp.Add(ctx.Client)
 			cts.mux.Unlock()
+			if ctx.Client.CheckState() == arpc.ErrClientStopped {
+				// disconnected meanwhile, deleteClient may have been too early
+				s.deleteClient(ctx.Client)
+				return
+			}
 			ctx.Write(nil)
 			log.Info("%v [Subscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), topicName, ctx.Client.Conn.RemoteAddr())
 		} else {
-- 
2.43.0


From a5732e14fdce82a9972b1aaaf52f139c0becaae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:11 +0000
Subject: [PATCH 59/76] fix: etcd: registering an existing key returns an
 error, a failed registration closes its client

---
 extension/micro/etcd/register.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/extension/micro/etcd/register.go b/extension/micro/etcd/register.go
index 5f08d49..2a522e1 100644
--- a/extension/micro/etcd/register.go
+++ b/extension/micro/etcd/register.go
@@ -2,6 +2,7 @@ package etcd
 
 import (
 	"context"
+	"errors"
 	"time"
 
 	"github.com/lesismal/arpc/log"
@@ -13,6 +14,9 @@ import (
 // RegisterMutexPrefix .
 const RegisterMutexPrefix = "_arpc_micro_reg_mux_pfx"
 
+// ErrAlreadyExists is returned when the key to register exists.
+var ErrAlreadyExists = errors.New("already exists")
+
 //Register .
 type Register struct {
 	key         string
@@ -53,6 +57,12 @@ func NewRegister(endpoints []string, key string, value string, ttl int64) (*Regi
 		return nil, err
 	}
 
+	defer func() {
+		if err != nil {
+			client.Close()
+		}
+	}()
+
 	session, err := concurrency.NewSession(client)
 	if err != nil {
 		log.Error("NewRegister [%v, %v] concurrency.NewSession failed: %v", key, value, err)
@@ -80,7 +90,8 @@ func NewRegister(endpoints []string, key string, value string, ttl int64) (*Regi
 		return nil, err
 	}
 	if len(resGet.Kvs) > 0 {
-		log.Error("NewRegister [%v, %v] failed: already exists", key, value)
+		err = ErrAlreadyExists
+		log.Error("NewRegister [%v, %v] failed: %v", key, value, err)
 		return nil, err
 	}
 
-- 
2.43.0


From 2941472aff25191961f6beef9a17246d33e9c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:22 +0000
Subject: [PATCH 60/76] fix: etcd: Register.Stop closes its client even if the
 lease cannot be revoked

---
 extension/micro/etcd/register.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/micro/etcd/register.go b/extension/micro/etcd/register.go
index 2a522e1..d68b656 100644
--- a/extension/micro/etcd/register.go
+++ b/extension/micro/etcd/register.go
@@ -40,6 +40,7 @@ func (s *Register) Stop() error {
 	// cancel ttl
 	if _, err := s.client.Revoke(context.Background(), s.leaseID); err != nil {
 		log.Error("Register Stop failed: %v", err)
+		s.client.Close()
 		return err
 	}
 	return s.client.Close()
-- 
2.43.0


From add9283ef5b92c80435620cdc877a4471beb2ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:33 +0000
Subject: [PATCH 61/76] fix: etcd: a register whose lease was lost registers
 again

---
 extension/micro/etcd/register.go | 64 +++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/extension/micro/etcd/register.go b/extension/micro/etcd/register.go
index d68b656..7863b6a 100644
--- a/extension/micro/etcd/register.go
+++ b/extension/micro/etcd/register.go
@@ -3,6 +3,7 @@ package etcd
 import (
 	"context"
 	"errors"
+	"sync"
 	"time"
 
 	"github.com/lesismal/arpc/log"
@@ -22,6 +23,9 @@ type Register struct {
 	key         string
 	value       string
 	client      *clientv3.Client
+	ttl         int64
+	mux         sync.Mutex
+	stopped     bool
 	leaseID     clientv3.LeaseID
 	chKeepalive <-chan *clientv3.LeaseKeepAliveResponse
 }
@@ -29,14 +33,69 @@ type Register struct {
 // listenTTL .
 func (s *Register) listenTTL() {
 	log.Info("Register listenTTL start")
-	for resp := range s.chKeepalive {
-		log.Debug("Register listenTTL: %v", resp)
+	for renewed := true; renewed; renewed = s.renew() {
+		for resp := range s.chKeepalive {
+			log.Debug("Register listenTTL: %v", resp)
+		}
 	}
 	log.Info("Register listenTTL stop")
 }
 
+// renew registers again after the lease was lost, until Stop.
+func (s *Register) renew() bool {
+	for ; ; time.Sleep(time.Second) {
+		s.mux.Lock()
+		if s.stopped {
+			s.mux.Unlock()
+			return false
+		}
+		err := s.tryRenew()
+		s.mux.Unlock()
+		if err == nil {
+			log.Info("Register [%v, %v] renewed", s.key, s.value)
+			return true
+		}
+		log.Error("Register [%v, %v] renew failed: %v", s.key, s.value, err)
+	}
+}
+
+func (s *Register) tryRenew() error {
+	ctx, cancel := context.WithTimeout(s.client.Ctx(), 5*time.Second)
+	defer cancel()
+
+	resGet, err := s.client.Get(ctx, s.key)
+	if err != nil {
+		return err
+	}
+	if len(resGet.Kvs) > 0 {
+		return ErrAlreadyExists
+	}
+	resGrant, err := s.client.Grant(ctx, s.ttl)
+	if err != nil {
+		return err
+	}
+	res, err := s.client.Txn(ctx).If(clientv3.Compare(clientv3.CreateRevision(s.key), "=", 0)).
+		Then(clientv3.OpPut(s.key, s.value, clientv3.WithLease(resGrant.ID))).Commit()
+	if err != nil {
+		return err
+	}
+	if !res.Succeeded {
+		return ErrAlreadyExists
+	}
+	chKeepalive, err := s.client.KeepAlive(context.Background(), resGrant.ID)
+	if err != nil {
+		return err
+	}
+	s.leaseID, s.chKeepalive = resGrant.ID, chKeepalive
+	return nil
+}
+
 // Stop .
 func (s *Register) Stop() error {
+	s.mux.Lock()
+	defer s.mux.Unlock()
+	s.stopped = true
+
 	// cancel ttl
 	if _, err := s.client.Revoke(context.Background(), s.leaseID); err != nil {
 		log.Error("Register Stop failed: %v", err)
@@ -114,6 +173,7 @@ func NewRegister(endpoints []string, key string, value string, ttl int64) (*Regi
 		key:         key,
 		value:       value,
 		client:      client,
+		ttl:         ttl,
 		leaseID:     resGrant.ID,
 		chKeepalive: chKeepalive,
 	}
-- 
2.43.0


From 7af69700656e7c18dfc3adc6c13192baf35406c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:58 +0000
Subject: [PATCH 62/76] fix: etcd: a discovery watches from the revision of its
 first list, and reports a failed one

---
 extension/micro/etcd/discovery.go | 34 +++++++++++++------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/extension/micro/etcd/discovery.go b/extension/micro/etcd/discovery.go
index 12349d9..6e7fbe6 100644
--- a/extension/micro/etcd/discovery.go
+++ b/extension/micro/etcd/discovery.go
@@ -17,22 +17,11 @@ type Discovery struct {
 	serviceManager micro.ServiceManager
 }
 
-func (ds *Discovery) init(done chan struct{}) {
-	doneWatch := make(chan struct{})
-	go util.Safe(func() {
-		ds.lazyInit(done, doneWatch)
-	})
-	ds.watch(doneWatch)
-}
-
-func (ds *Discovery) lazyInit(done, doneWatch chan struct{}) {
-	defer close(done)
-
-	<-doneWatch
-	time.Sleep(time.Second / 100)
+// init adds the nodes registered so far and returns the revision they are of.
+func (ds *Discovery) init() (int64, error) {
 	resp, err := ds.client.Get(context.Background(), ds.prefix, clientv3.WithPrefix())
 	if err != nil {
-		return
+		return 0, err
 	}
 
 	for _, ev := range resp.Kvs {
@@ -40,11 +29,12 @@ func (ds *Discovery) lazyInit(done, doneWatch chan struct{}) {
 			ds.serviceManager.AddServiceNodes(string(ev.Key), string(ev.Value))
 		}
 	}
+	return resp.Header.Revision, nil
 }
 
-func (ds *Discovery) watch(doneWatch chan struct{}) {
-	rch := ds.client.Watch(context.Background(), ds.prefix, clientv3.WithPrefix())
-	close(doneWatch)
+// watch follows the changes made after the revision.
+func (ds *Discovery) watch(rev int64) {
+	rch := ds.client.Watch(context.Background(), ds.prefix, clientv3.WithPrefix(), clientv3.WithRev(rev+1))
 	log.Info("Discovery watching: %s", ds.prefix)
 	for wresp := range rch {
 		for _, ev := range wresp.Events {
@@ -84,11 +74,15 @@ func NewDiscovery(endpoints []string, prefix string, serviceManager micro.Servic
 		serviceManager: serviceManager,
 	}
 
-	done := make(chan struct{})
+	rev, err := ds.init()
+	if err != nil {
+		log.Error("NewDiscovery [%v] init failed: %v", prefix, err)
+		client.Close()
+		return nil, err
+	}
 	go util.Safe(func() {
-		ds.init(done)
+		ds.watch(rev)
 	})
-	<-done
 
 	log.Info("NewDiscovery [%v] success", prefix)
 
-- 
2.43.0


From eb0a710c5b45df3c58ef275d0872ec86eabb50b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:09 +0000
Subject: [PATCH 63/76] fix: etcd: a discovery lists again when the changes it
 missed are compacted

---
 extension/micro/etcd/discovery.go | 57 +++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/extension/micro/etcd/discovery.go b/extension/micro/etcd/discovery.go
index 6e7fbe6..21fb268 100644
--- a/extension/micro/etcd/discovery.go
+++ b/extension/micro/etcd/discovery.go
@@ -15,18 +15,31 @@ type Discovery struct {
 	client         *clientv3.Client
 	prefix         string
 	serviceManager micro.ServiceManager
+	nodes          map[string]string
 }
 
-// init adds the nodes registered so far and returns the revision they are of.
+// init brings the service manager up to date with the nodes registered now and
+// returns the revision they are of.
 func (ds *Discovery) init() (int64, error) {
 	resp, err := ds.client.Get(context.Background(), ds.prefix, clientv3.WithPrefix())
 	if err != nil {
 		return 0, err
 	}
 
+	gone := ds.nodes
+	ds.nodes = make(map[string]string, len(resp.Kvs))
 	for _, ev := range resp.Kvs {
+		key, value := string(ev.Key), string(ev.Value)
+		old, known := gone[key]
+		ds.nodes[key] = value
+		delete(gone, key)
+		if ds.serviceManager != nil && (!known || old != value) {
+			ds.serviceManager.AddServiceNodes(key, value)
+		}
+	}
+	for key := range gone {
 		if ds.serviceManager != nil {
-			ds.serviceManager.AddServiceNodes(string(ev.Key), string(ev.Value))
+			ds.serviceManager.DeleteServiceNodes(key)
 		}
 	}
 	return resp.Header.Revision, nil
@@ -34,21 +47,37 @@ func (ds *Discovery) init() (int64, error) {
 
 // watch follows the changes made after the revision.
 func (ds *Discovery) watch(rev int64) {
-	rch := ds.client.Watch(context.Background(), ds.prefix, clientv3.WithPrefix(), clientv3.WithRev(rev+1))
-	log.Info("Discovery watching: %s", ds.prefix)
-	for wresp := range rch {
-		for _, ev := range wresp.Events {
-			switch ev.Type {
-			case clientv3.EventTypePut:
-				if ds.serviceManager != nil {
-					ds.serviceManager.AddServiceNodes(string(ev.Kv.Key), string(ev.Kv.Value))
-				}
-			case clientv3.EventTypeDelete:
-				if ds.serviceManager != nil {
-					ds.serviceManager.DeleteServiceNodes(string(ev.Kv.Key))
+	for {
+		rch := ds.client.Watch(context.Background(), ds.prefix, clientv3.WithPrefix(), clientv3.WithRev(rev+1))
+		log.Info("Discovery watching: %s", ds.prefix)
+		for wresp := range rch {
+			for _, ev := range wresp.Events {
+				switch ev.Type {
+				case clientv3.EventTypePut:
+					ds.nodes[string(ev.Kv.Key)] = string(ev.Kv.Value)
+					if ds.serviceManager != nil {
+						ds.serviceManager.AddServiceNodes(string(ev.Kv.Key), string(ev.Kv.Value))
+					}
+				case clientv3.EventTypeDelete:
+					delete(ds.nodes, string(ev.Kv.Key))
+					if ds.serviceManager != nil {
+						ds.serviceManager.DeleteServiceNodes(string(ev.Kv.Key))
+					}
 				}
 			}
 		}
+
+		// stopped, or the changes since the last event are compacted: list again
+		for err := error(nil); ; {
+			if ds.client.Ctx().Err() != nil {
+				return
+			}
+			if rev, err = ds.init(); err == nil {
+				break
+			}
+			log.Error("Discovery [%v] init failed: %v", ds.prefix, err)
+			time.Sleep(time.Second)
+		}
 	}
 }
 
-- 
2.43.0


From 8afc67dd285220cea656c8a7f622ff3fb1827549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:16 +0000
Subject: [PATCH 64/76] fix: redis register and discovery leave their
 connection open after Stop or a failed start

---
 extension/micro/redis/discovery.go | 3 ++-
 extension/micro/redis/register.go  | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/extension/micro/redis/discovery.go b/extension/micro/redis/discovery.go
index 775c3b1..3824fbb 100644
--- a/extension/micro/redis/discovery.go
+++ b/extension/micro/redis/discovery.go
@@ -114,7 +114,7 @@ func (ds *Discovery) update() {
 // Stop .
 func (ds *Discovery) Stop() error {
 	close(ds.done)
-	return nil
+	return ds.client.Close()
 }
 
 // NewDiscovery .
@@ -134,6 +134,7 @@ func NewDiscovery(addr string, serviceNamespace string, interval time.Duration,
 
 	err := ds.updateServices()
 	if err != nil {
+		client.Close()
 		return nil, err
 	}
 	go util.Safe(ds.update)
diff --git a/extension/micro/redis/register.go b/extension/micro/redis/register.go
index b4bd6c4..0846baf 100644
--- a/extension/micro/redis/register.go
+++ b/extension/micro/redis/register.go
@@ -51,11 +51,15 @@ func (s *Register) Stop() error {
 
 	ret := s.client.HDel(context.Background(), s.serviceNamespace, s.field)
 	err := ret.Err()
+	if err == redis.ErrClosed {
+		// stopped before
+		return nil
+	}
 	if err != nil {
 		log.Error("Register Stop failed: %v", err)
 		return err
 	}
-	return nil
+	return s.client.Close()
 }
 
 // NewRegister .
@@ -79,6 +83,7 @@ func NewRegister(addr, serviceNamespace, serviceName, serviceAddr string, weight
 	err := ret.Err()
 	if err != nil {
 		log.Error("NewRegister [%v, %v] client.HSet failed: %v", serviceNamespace, fmt.Sprintf("%v/%v", serviceName, serviceAddr), err)
+		client.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From adf3122b4d1d98339d738c4b6c771bc7c0000715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:42 +0000
Subject: [PATCH 65/76] fix: a response or stream value is not sent on the next
 connection when its own is lost while it is being marshalled

---
 context.go | 7 ++++---
 stream.go  | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/context.go b/context.go
index 24b3882..a893631 100644
--- a/context.go
+++ b/context.go
@@ -166,12 +166,12 @@ func (ctx *Context) write(v interface{}, isError bool, timeout time.Duration) er
 		ctx.responseErr = v
 	}
 
+	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.Message.values)
 	if atomic.LoadUint32(&cli.epoch) != ctx.epoch {
 		// the request's connection is lost
+		cli.Handler.OnMessageDone(cli, rsp)
 		return ErrClientReconnecting
 	}
-
-	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.Message.values)
 	return cli.PushMsg(rsp, timeout)
 }
 
@@ -187,10 +187,11 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 	if isError {
 		ctx.responseErr = v
 	}
+	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.Message.values)
 	if atomic.LoadUint32(&cli.epoch) != ctx.epoch {
+		cli.Handler.OnMessageDone(cli, rsp)
 		return ErrClientReconnecting
 	}
-	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.Message.values)
 	if !cli.reconnecting {
 		coders := cli.Handler.Coders()
 		for j := 0; j < len(coders); j++ {
diff --git a/stream.go b/stream.go
index 07edbf6..8b5b977 100644
--- a/stream.go
+++ b/stream.go
@@ -170,12 +170,12 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 	if err != nil {
 		return err
 	}
+
+	data := util.ValueToBytes(c.Codec, v)
 	if atomic.LoadUint32(&c.epoch) != s.epoch {
 		// the stream's connection is lost
 		return ErrClientReconnecting
 	}
-
-	data := util.ValueToBytes(c.Codec, v)
 	msg := s.newMessage(data, args...)
 	msg.SetStreamLocal(s.local)
 	msg.SetStreamEOF(eof)
-- 
2.43.0


From e3009dc5d8d5c3579e87f18458283ba885d31dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:24 +0000
Subject: [PATCH 66/76] fix: queued responses and stream values of a lost
 connection are not sent on the next one

---
 client.go  | 17 +++++++++++++++--
 context.go |  1 +
 proto.go   |  3 +++
 stream.go  |  1 +
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index f520697..f848e4d 100644
--- a/client.go
+++ b/client.go
@@ -687,6 +687,11 @@ func (c *Client) clearSession() {
 	c.mux.Unlock()
 }
 
+// outdated tells whether msg belongs to a lost connection, it must not be sent on another one.
+func (c *Client) outdated(msg *Message) bool {
+	return msg.epoch != 0 && msg.epoch != atomic.LoadUint32(&c.epoch)+1
+}
+
 func (c *Client) dropMessage(msg *Message) {
 	if !msg.IsAsync() {
 		session := c.deleteSession(msg.Seq())
@@ -918,7 +923,9 @@ func (c *Client) normalSendLoop() {
 	for {
 		select {
 		case msg = <-c.chSend:
-			if !c.reconnecting {
+			if c.outdated(msg) {
+				c.Handler.OnMessageDropped(c, msg)
+			} else if !c.reconnecting {
 				coders = c.Handler.Coders()
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
@@ -967,7 +974,9 @@ func (c *Client) batchSendLoop() {
 				}
 			}
 		}
-		if !c.reconnecting {
+		if c.outdated(msg) {
+			c.Handler.OnMessageDropped(c, msg)
+		} else if !c.reconnecting {
 			chLen = len(c.chSend)
 			coders = c.Handler.Coders()
 			for i := 0; i < chLen && len(buffer) < sendBufferSize; i++ {
@@ -979,6 +988,10 @@ func (c *Client) batchSendLoop() {
 					c.Handler.OnMessageDone(c, msg)
 				}
 				msg = <-c.chSend
+				if c.outdated(msg) {
+					c.Handler.OnMessageDropped(c, msg)
+					continue
+				}
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
diff --git a/context.go b/context.go
index a893631..eac6410 100644
--- a/context.go
+++ b/context.go
@@ -172,6 +172,7 @@ func (ctx *Context) write(v interface{}, isError bool, timeout time.Duration) er
 		cli.Handler.OnMessageDone(cli, rsp)
 		return ErrClientReconnecting
 	}
+	rsp.epoch = ctx.epoch + 1
 	return cli.PushMsg(rsp, timeout)
 }
 
diff --git a/proto.go b/proto.go
index 589ae94..d9229d8 100644
--- a/proto.go
+++ b/proto.go
@@ -126,6 +126,9 @@ type Message struct {
 	// 64-aligned on 32-bit
 	ref int32
 
+	// epoch of the Client's connection the Message belongs to plus 1, 0 if it belongs to none
+	epoch uint32
+
 	Buffer []byte
 
 	handler Handler
diff --git a/stream.go b/stream.go
index 8b5b977..e8a6501 100644
--- a/stream.go
+++ b/stream.go
@@ -177,6 +177,7 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 		return ErrClientReconnecting
 	}
 	msg := s.newMessage(data, args...)
+	msg.epoch = s.epoch + 1
 	msg.SetStreamLocal(s.local)
 	msg.SetStreamEOF(eof)
 
-- 
2.43.0


From a895500334115e6457fb4bfefcce9d8d3ca70342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:37 +0000
Subject: [PATCH 67/76] fix: a failed send closes the connection it used, not
 the one which replaced it

---
 client.go  | 46 +++++++++++++++++++++++++++-------------------
 context.go |  5 +++--
 stream.go  |  5 +++--
 3 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/client.go b/client.go
index f848e4d..d436c61 100644
--- a/client.go
+++ b/client.go
@@ -188,14 +188,15 @@ func (c *Client) Call(method string, req interface{}, rsp interface{}, timeout t
 		}
 	} else {
 		if !c.reconnecting {
+			conn := c.Conn
 			coders := c.Handler.Coders()
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 				return err
 			}
 		} else {
@@ -250,14 +251,15 @@ func (c *Client) CallContext(ctx context.Context, method string, req interface{}
 		}
 	} else {
 		if !c.reconnecting {
+			conn := c.Conn
 			coders := c.Handler.Coders()
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 				return err
 			}
 		} else {
@@ -312,13 +314,14 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 		err = c.pushMessage(msg, timer)
 	} else {
 		if !c.reconnecting {
+			conn := c.Conn
 			coders := c.Handler.Coders()
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err = c.Handler.Send(c.Conn, msg.Buffer)
+			_, err = c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
@@ -357,13 +360,14 @@ func (c *Client) Notify(method string, data interface{}, timeout time.Duration,
 		}
 	} else {
 		if !c.reconnecting {
+			conn := c.Conn
 			coders := c.Handler.Coders()
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err = c.Handler.Send(c.Conn, msg.Buffer)
+			_, err = c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
@@ -404,13 +408,14 @@ func (c *Client) NotifyContext(ctx context.Context, method string, data interfac
 		}
 	} else {
 		if !c.reconnecting {
+			conn := c.Conn
 			coders := c.Handler.Coders()
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
@@ -433,13 +438,14 @@ func (c *Client) PushMsg(msg *Message, timeout time.Duration) error {
 
 	if !c.Handler.AsyncWrite() {
 		if !c.reconnecting {
+			conn := c.Conn
 			coders := c.Handler.Coders()
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
@@ -923,6 +929,7 @@ func (c *Client) normalSendLoop() {
 	for {
 		select {
 		case msg = <-c.chSend:
+			conn := c.Conn
 			if c.outdated(msg) {
 				c.Handler.OnMessageDropped(c, msg)
 			} else if !c.reconnecting {
@@ -930,8 +937,8 @@ func (c *Client) normalSendLoop() {
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
-				if _, err := c.Handler.Send(c.Conn, msg.Buffer); err != nil {
-					c.Conn.Close()
+				if _, err := c.Handler.Send(conn, msg.Buffer); err != nil {
+					conn.Close()
 				}
 				c.Handler.OnMessageDone(c, msg)
 			} else {
@@ -974,10 +981,11 @@ func (c *Client) batchSendLoop() {
 				}
 			}
 		}
+		chLen = len(c.chSend)
+		conn := c.Conn
 		if c.outdated(msg) {
 			c.Handler.OnMessageDropped(c, msg)
 		} else if !c.reconnecting {
-			chLen = len(c.chSend)
 			coders = c.Handler.Coders()
 			for i := 0; i < chLen && len(buffer) < sendBufferSize; i++ {
 				if len(buffer) == 0 {
@@ -1002,14 +1010,14 @@ func (c *Client) batchSendLoop() {
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
-				_, err := c.Handler.Send(c.Conn, msg.Buffer)
+				_, err := c.Handler.Send(conn, msg.Buffer)
 				if err != nil {
-					c.Conn.Close()
+					conn.Close()
 				}
 				c.Handler.OnMessageDone(c, msg)
 			} else {
-				if _, err := c.Handler.Send(c.Conn, buffer); err != nil {
-					c.Conn.Close()
+				if _, err := c.Handler.Send(conn, buffer); err != nil {
+					conn.Close()
 				}
 				buffer = buffer[0:0]
 			}
diff --git a/context.go b/context.go
index eac6410..6ed138a 100644
--- a/context.go
+++ b/context.go
@@ -189,6 +189,7 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 		ctx.responseErr = v
 	}
 	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.Message.values)
+	conn := cli.Conn
 	if atomic.LoadUint32(&cli.epoch) != ctx.epoch {
 		cli.Handler.OnMessageDone(cli, rsp)
 		return ErrClientReconnecting
@@ -198,9 +199,9 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 		for j := 0; j < len(coders); j++ {
 			rsp = coders[j].Encode(cli, rsp)
 		}
-		_, err := cli.Handler.Send(cli.Conn, rsp.Buffer)
+		_, err := cli.Handler.Send(conn, rsp.Buffer)
 		if err != nil {
-			cli.Conn.Close()
+			conn.Close()
 		}
 		return err
 	}
diff --git a/stream.go b/stream.go
index e8a6501..ea41258 100644
--- a/stream.go
+++ b/stream.go
@@ -172,6 +172,7 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 	}
 
 	data := util.ValueToBytes(c.Codec, v)
+	conn := c.Conn
 	if atomic.LoadUint32(&c.epoch) != s.epoch {
 		// the stream's connection is lost
 		return ErrClientReconnecting
@@ -197,9 +198,9 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
-- 
2.43.0


From 6801a36d4e547477b8823faedee844cb1b400aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 68/76] fix: Restart waits for the former run of the client to
 end

---
 client.go | 68 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/client.go b/client.go
index d436c61..95d2ff6 100644
--- a/client.go
+++ b/client.go
@@ -484,9 +484,17 @@ func (c *Client) PushMsg(msg *Message, timeout time.Duration) error {
 	return err
 }
 
-// Restart stops and restarts a Client.
+// Restart stops and restarts a Client, it returns after the former run has ended:
+// it should not be called in a handler which is executed by the receiving goroutine.
 func (c *Client) Restart() error {
-	c.Stop()
+	c.mux.Lock()
+	c.running = false
+	conn, chClose := c.Conn, c.chClose
+	c.mux.Unlock()
+
+	conn.Close()
+	// the former loops must have ended, or they would go on with the new Conn
+	<-chClose
 
 	c.mux.Lock()
 	defer c.mux.Unlock()
@@ -508,16 +516,17 @@ func (c *Client) Restart() error {
 		c.values = map[interface{}]interface{}{}
 		atomic.AddUint32(&c.epoch, 1)
 
+		c.running = true
+		c.reconnecting = false
+
 		c.initReader()
 		if c.Handler.AsyncWrite() {
 			c.chSend = make(chan *Message, c.Handler.SendQueueSize())
-			go util.Safe(c.sendLoop)
+			chSend, chClose := c.chSend, c.chClose
+			go util.Safe(func() { c.sendLoop(chSend, chClose) })
 		}
 		go util.Safe(c.recvLoop)
 
-		c.running = true
-		c.reconnecting = false
-
 		log.Info("%v\t[%v] Restarted to [%v]", c.Handler.LogTag(), preConn.RemoteAddr(), conn.RemoteAddr())
 	}
 
@@ -818,7 +827,8 @@ func (c *Client) run() {
 		c.running = true
 		c.initReader()
 		if c.Handler.AsyncWrite() {
-			go util.Safe(c.sendLoop)
+			chSend, chClose := c.chSend, c.chClose
+			go util.Safe(func() { c.sendLoop(chSend, chClose) })
 		}
 		go util.Safe(c.recvLoop)
 	}
@@ -911,26 +921,38 @@ func (c *Client) recvLoop() {
 	}
 }
 
-func (c *Client) sendLoop() {
+// sendLoop ends with its own channels, which Restart replaces.
+func (c *Client) sendLoop(chSend chan *Message, chClose chan util.Empty) {
 	addr := c.Conn.RemoteAddr().String()
 	log.Debug("%v\t%v\tsendLoop start", c.Handler.LogTag(), addr)
 	defer log.Debug("%v\t%v\tsendLoop stop", c.Handler.LogTag(), addr)
 
 	if c.Handler.BatchSend() {
-		c.batchSendLoop()
+		c.batchSendLoop(chSend, chClose)
 	} else {
-		c.normalSendLoop()
+		c.normalSendLoop(chSend, chClose)
 	}
 }
 
-func (c *Client) normalSendLoop() {
+func isClosed(ch chan util.Empty) bool {
+	select {
+	case <-ch:
+		return true
+	default:
+		return false
+	}
+}
+
+func (c *Client) normalSendLoop(chSend chan *Message, chClose chan util.Empty) {
 	var msg *Message
 	var coders []MessageCoder
 	for {
 		select {
-		case msg = <-c.chSend:
+		case msg = <-chSend:
 			conn := c.Conn
-			if c.outdated(msg) {
+			if isClosed(chClose) {
+				c.Handler.OnMessageDone(c, msg)
+			} else if c.outdated(msg) {
 				c.Handler.OnMessageDropped(c, msg)
 			} else if !c.reconnecting {
 				coders = c.Handler.Coders()
@@ -944,11 +966,11 @@ func (c *Client) normalSendLoop() {
 			} else {
 				c.dropMessage(msg)
 			}
-		case <-c.chClose:
+		case <-chClose:
 			// clear msg in send queue
 			for {
 				select {
-				case msg := <-c.chSend:
+				case msg := <-chSend:
 					c.Handler.OnMessageDone(c, msg)
 				default:
 					return
@@ -958,7 +980,7 @@ func (c *Client) normalSendLoop() {
 	}
 }
 
-func (c *Client) batchSendLoop() {
+func (c *Client) batchSendLoop(chSend chan *Message, chClose chan util.Empty) {
 	var msg *Message
 	var chLen int
 	var coders []MessageCoder
@@ -969,21 +991,23 @@ func (c *Client) batchSendLoop() {
 
 	for {
 		select {
-		case msg = <-c.chSend:
-		case <-c.chClose:
+		case msg = <-chSend:
+		case <-chClose:
 			// clear msg in send queue
 			for {
 				select {
-				case msg := <-c.chSend:
+				case msg := <-chSend:
 					c.Handler.OnMessageDone(c, msg)
 				default:
 					return
 				}
 			}
 		}
-		chLen = len(c.chSend)
+		chLen = len(chSend)
 		conn := c.Conn
-		if c.outdated(msg) {
+		if isClosed(chClose) {
+			c.Handler.OnMessageDone(c, msg)
+		} else if c.outdated(msg) {
 			c.Handler.OnMessageDropped(c, msg)
 		} else if !c.reconnecting {
 			coders = c.Handler.Coders()
@@ -995,7 +1019,7 @@ func (c *Client) batchSendLoop() {
 					buffer = c.Handler.Append(buffer, msg.Buffer...)
 					c.Handler.OnMessageDone(c, msg)
 				}
-				msg = <-c.chSend
+				msg = <-chSend
 				if c.outdated(msg) {
 					c.Handler.OnMessageDropped(c, msg)
 					continue
-- 
2.43.0


From 66142b8bb63f346934a3025842846cf7371461f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:59 +0000
Subject: [PATCH 69/76] fix: closing a side of the split listener ends its
 Accept

---
 extension/listener/listener.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/extension/listener/listener.go b/extension/listener/listener.go
index 89cef67..f30f0ac 100644
--- a/extension/listener/listener.go
+++ b/extension/listener/listener.go
@@ -2,6 +2,7 @@ package listener
 
 import (
 	"net"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -56,9 +57,11 @@ func (l *Listener) Listeners() (net.Listener, net.Listener) {
 	return &ChanListener{
 			addr:    l.listener.Addr(),
 			chEvent: l.chEventA,
+			chClose: make(chan struct{}),
 		}, &ChanListener{
 			addr:    l.listener.Addr(),
 			chEvent: l.chEventB,
+			chClose: make(chan struct{}),
 		}
 }
 
@@ -140,17 +143,30 @@ func Listen(network, addr string, maxOnlineA int, logtag string) (*Listener, err
 type ChanListener struct {
 	addr    net.Addr
 	chEvent chan event
+	chClose chan struct{}
+	once    sync.Once
 }
 
 func (l *ChanListener) Accept() (net.Conn, error) {
-	e, ok := <-l.chEvent
-	if !ok {
+	select {
+	case <-l.chClose:
+		return nil, net.ErrClosed
+	default:
+	}
+	select {
+	case e, ok := <-l.chEvent:
+		if !ok {
+			return nil, net.ErrClosed
+		}
+		return e.conn, e.err
+	case <-l.chClose:
 		return nil, net.ErrClosed
 	}
-	return e.conn, e.err
 }
 
+// Close ends Accept of this side, the conns of it which are not accepted are closed by Listener.Close.
 func (l *ChanListener) Close() error {
+	l.once.Do(func() { close(l.chClose) })
 	return nil
 }
 
-- 
2.43.0


From 553918eb0a4f6091fa3b8bfcd8befe988fec7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:11 +0000
Subject: [PATCH 70/76] fix: jsclient can handle methods named like properties
 of Object

---
 extension/jsclient/arpc.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 51271a7..6c6a5ce 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -65,7 +65,8 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
     this.seqNum = 0;
     this.sessionMap = {};
 
-    this.handlers = {};
+    // no prototype: methods such as "constructor" are not handlers
+    this.handlers = Object.create(null);
 
     this.state = _SOCK_STATE_CONNECTING;
 
-- 
2.43.0


From 1a62d0c3be4779714fbc7fea13120504b313058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 71/76] fix: async calls of an accepted client are told when
 its connection is lost

---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index 95d2ff6..bd8b0b7 100644
--- a/client.go
+++ b/client.go
@@ -548,6 +548,7 @@ func (c *Client) closeAndClean() {
 	c.mux.Unlock()
 
 	c.Conn.Close()
+	c.clearAsyncHandler()
 	close(c.chClose)
 	if c.onStop != nil {
 		c.onStop(c)
-- 
2.43.0


From 071cbe54040941535070009f8afe64563f15849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:16 +0000
Subject: [PATCH 72/76] fix: a panic of an async call's callback at its timeout
 ended the process

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index bd8b0b7..a910ecc 100644
--- a/client.go
+++ b/client.go
@@ -302,7 +302,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			if ah.timer != nil {
 				ah.timer.Stop()
 			}
-			ah.handler(nil, ErrTimeout)
+			util.Safe(func() { ah.handler(nil, ErrTimeout) })
 			putAsyncHandler(ah)
 		}
 		chTimer <- time.Now()
-- 
2.43.0


From ce30be3979a1023e60e2a147d6d1fe565e56c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:29 +0000
Subject: [PATCH 73/76] fix: stopping a server which never served panicked

---
 server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server.go b/server.go
index 167dbd5..6f4193e 100644
--- a/server.go
+++ b/server.go
@@ -119,6 +119,10 @@ func (s *Server) ForEachWithFilter(h func(*Client), filter func(*Client) bool) {
 
 // Stop stops service.
 func (s *Server) Stop() error {
+	if s.Listener == nil {
+		// never served
+		return nil
+	}
 	defer log.Info("%v \"%v\" Stop", s.Handler.LogTag(), s.Listener.Addr())
 	s.running = false
 	s.Listener.Close()
@@ -133,6 +137,10 @@ func (s *Server) Stop() error {
 
 // Shutdown shutdown service.
 func (s *Server) Shutdown(ctx context.Context) error {
+	if s.Listener == nil {
+		// never served
+		return nil
+	}
 	defer log.Info("%v \"%v\" Shutdown", s.Handler.LogTag(), s.Listener.Addr())
 	s.running = false
 	s.Listener.Close()
-- 
2.43.0


From 8e704c479b0d4659ce16514d447b6d8972e27364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:10 +0000
Subject: [PATCH 74/76] fix: redis: stopping a discovery again panicked

---
 extension/micro/redis/discovery.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/extension/micro/redis/discovery.go b/extension/micro/redis/discovery.go
index 3824fbb..4513b7f 100644
--- a/extension/micro/redis/discovery.go
+++ b/extension/micro/redis/discovery.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/go-redis/redis/v8"
@@ -23,7 +24,8 @@ type Discovery struct {
 
 	serviceCache map[string]string // path: weight
 
-	done chan struct{}
+	done     chan struct{}
+	stopOnce sync.Once
 }
 
 func (ds *Discovery) updateServices() error {
@@ -113,8 +115,12 @@ func (ds *Discovery) update() {
 
 // Stop .
 func (ds *Discovery) Stop() error {
-	close(ds.done)
-	return ds.client.Close()
+	var err error
+	ds.stopOnce.Do(func() {
+		close(ds.done)
+		err = ds.client.Close()
+	})
+	return err
 }
 
 // NewDiscovery .
-- 
2.43.0


From ad5204ca790514249188a1f45ce2580c93e4ec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:21 +0000
Subject: [PATCH 75/76] fix: Stop did not end a client whose receiving loop
 waited for the reader of a stream

---
 client.go | 18 ++++++++++++++++--
 stream.go | 11 +++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index a910ecc..a8b7f72 100644
--- a/client.go
+++ b/client.go
@@ -69,6 +69,10 @@ type Client struct {
 	chSend  chan *Message
 	chClose chan util.Empty
 
+	// chStop is closed by Stop, it ends waiting for or by the reader of a stream:
+	// this may be the receiving goroutine, which closes chClose at its end.
+	chStop chan util.Empty
+
 	onStop func(*Client)
 
 	values map[interface{}]interface{}
@@ -488,7 +492,7 @@ func (c *Client) PushMsg(msg *Message, timeout time.Duration) error {
 // it should not be called in a handler which is executed by the receiving goroutine.
 func (c *Client) Restart() error {
 	c.mux.Lock()
-	c.running = false
+	c.setStopped()
 	conn, chClose := c.Conn, c.chClose
 	c.mux.Unlock()
 
@@ -509,6 +513,7 @@ func (c *Client) Restart() error {
 
 		c.chSend = make(chan *Message, c.Handler.SendQueueSize())
 		c.chClose = make(chan util.Empty)
+		c.chStop = make(chan util.Empty)
 		c.sessionMap = make(map[uint64]*rpcSession)
 		c.asyncHandlerMap = make(map[uint64]*asyncHandler)
 		c.streamLocalMap = make(map[uint64]*Stream)
@@ -536,12 +541,19 @@ func (c *Client) Restart() error {
 // Stop stops a Client.
 func (c *Client) Stop() {
 	c.mux.Lock()
-	c.running = false
+	c.setStopped()
 	c.mux.Unlock()
 
 	c.Conn.Close()
 }
 
+func (c *Client) setStopped() {
+	if c.running && c.chStop != nil {
+		close(c.chStop)
+	}
+	c.running = false
+}
+
 func (c *Client) closeAndClean() {
 	c.mux.Lock()
 	c.running = false
@@ -1062,6 +1074,7 @@ func newClientWithConn(conn net.Conn, codec codec.Codec, handler Handler, onStop
 		Handler:         handler,
 		Head:            make([]byte, 4),
 		chClose:         make(chan util.Empty),
+		chStop:          make(chan util.Empty),
 		sessionMap:      make(map[uint64]*rpcSession),
 		asyncHandlerMap: make(map[uint64]*asyncHandler),
 		streamLocalMap:  make(map[uint64]*Stream),
@@ -1100,6 +1113,7 @@ func NewClient(dialer DialerFunc, args ...interface{}) (*Client, error) {
 		Dialer:          dialer,
 		Head:            make([]byte, 4),
 		chClose:         make(chan util.Empty),
+		chStop:          make(chan util.Empty),
 		sessionMap:      make(map[uint64]*rpcSession),
 		asyncHandlerMap: make(map[uint64]*asyncHandler),
 		streamLocalMap:  make(map[uint64]*Stream),
diff --git a/stream.go b/stream.go
index ea41258..03bf7f6 100644
--- a/stream.go
+++ b/stream.go
@@ -35,8 +35,15 @@ func (s *Stream) onMessage(msg *Message) {
 		return
 	}
 	if msg != nil {
+		select {
+		case <-s.cli.chStop:
+			// a value before this one may have been discarded
+			return
+		default:
+		}
 		select {
 		case s.chData <- msg:
+		case <-s.cli.chStop:
 		case <-s.cli.chClose:
 		}
 	}
@@ -99,6 +106,8 @@ func (s *Stream) Recv(v interface{}) error {
 		err := util.BytesToValue(s.cli.Codec, data, v)
 		s.cli.Handler.OnMessageDone(s.cli, msg)
 		return err
+	case <-s.cli.chStop:
+		return ErrClientStopped
 	case <-s.cli.chClose:
 		return ErrClientStopped
 	}
@@ -116,6 +125,8 @@ func (s *Stream) RecvContext(ctx context.Context, v interface{}) error {
 		return err
 	case <-ctx.Done():
 		return ErrTimeout
+	case <-s.cli.chStop:
+		return ErrClientStopped
 	case <-s.cli.chClose:
 		return ErrClientStopped
 	}
-- 
2.43.0


From 6fd46d877bbb943be6e5186813038fd6fe97c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:34 +0000
Subject: [PATCH 76/76] fix: with a stream queue size of 0 the first value of a
 stream blocked the connection

---
 stream.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index 03bf7f6..0669987 100644
--- a/stream.go
+++ b/stream.go
@@ -243,11 +243,16 @@ func (client *Client) newStream(method string, id uint64, local bool) *Stream {
 	if id == 0 {
 		id = atomic.AddUint64(&client.seq, 1)
 	}
+	// the first value of a remote stream is queued before its handler can read it
+	size := client.Handler.StreamQueueSize()
+	if size < 1 {
+		size = 1
+	}
 	stream := &Stream{
 		id:     id,
 		cli:    client,
 		method: method,
-		chData: make(chan *Message, client.Handler.StreamQueueSize()),
+		chData: make(chan *Message, size),
 		local:  local,
 		epoch:  atomic.LoadUint32(&client.epoch),
 	}
-- 
2.43.0

